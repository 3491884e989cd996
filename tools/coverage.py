"""which functions of the package no obligation goes through (developer aid, not a check)"""
import ast
import glob
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vg import run


def go():
    ip = run.mkinterp()
    seen = set()
    for ob in run.load_obligations():
        for o in run.run_obligation(ip, ob):
            seen |= set(o.functions)
    for f in sorted(glob.glob(run.REPO + '/heat_load_calc/**/*.py', recursive=True)):
        mod = os.path.relpath(f, run.REPO)[:-3].replace('/', '.')

        def walk(body, pre):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    q = mod + ':' + pre + n.name
                    if q not in seen:
                        print('not reached', q, n.lineno)
                elif isinstance(n, ast.ClassDef):
                    walk(n.body, pre + n.name + '.')
        walk(ast.parse(open(f).read()).body, '')
    print(sorted(seen)[:3])


run.main_thread(go)
