"""Systematic small edits of the package, to see which no obligation notices (developer aid, not a check).

usage: mutate.py OUT [--per N] [--seed S] [FILE-SUBSTRING...]
"""
import ast
import copy
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vg import run as R          # noqa: E402
from vg import compare as C      # noqa: E402
from vg import interp as I       # noqa: E402

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
FN = {'sin': 'cos', 'cos': 'sin', 'maximum': 'minimum', 'minimum': 'maximum', 'sum': 'mean', 'max': 'min', 'min': 'max', 'zeros': 'ones', 'sqrt': 'abs'}


def functions(tree):
    out = []

    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                out.append((pre + n.name, n))
            elif isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + '.')
    walk(tree.body, '')
    return out


def sites(fn):
    """(description, apply, undo-by-copy) edits as (path, field, index, new)"""
    edits = []
    attrs = {}
    names = set(a.arg for a in fn.args.args)
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            attrs.setdefault(n.value.id, set()).add(n.attr)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)

    def visit(n, in_raise=False):
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            return
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            edits.append((n, 'op', SWAP[type(n.op)]()))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                edits.append((n, 'ops', [o()]))
        if isinstance(n, ast.BoolOp):
            edits.append((n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            edits.append((n, 'values', n.values[:-1] if len(n.values) > 2 else [n.values[0], n.values[0]]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            edits.append((n, 'op', ast.UAdd() if isinstance(n.op, ast.USub) else None))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                edits.append((n, 'value', not v))
            elif isinstance(v, int):
                edits.append((n, 'value', v + 1))
                if v == 1:
                    edits.append((n, 'value', 0))
            elif isinstance(v, float):
                edits.append((n, 'value', v * 1.07 if v else 0.3))
            elif isinstance(v, str) and v:
                edits.append((n, 'value', v + 'x'))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.attr in FN:
                edits.append((n, 'attr', FN[n.attr]))
            o = sorted(attrs[n.value.id] - {n.attr})
            if o and n.value.id not in ('np', 'os', 'json', 'pd'):
                edits.append((n, 'attr', random.choice(o)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            o = sorted(names - {n.id})
            if o:
                edits.append((n, 'id', random.choice(o)))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            edits.append((n, 'args', [n.args[1], n.args[0]] + n.args[2:]))
        if isinstance(n, ast.Call) and len(n.keywords) >= 2:
            q = copy.deepcopy(n.keywords)
            i = random.randrange(len(q) - 1)
            q[i].value, q[i + 1].value = q[i + 1].value, q[i].value
            edits.append((n, 'keywords', q))
        if isinstance(n, (ast.If, ast.IfExp)):
            edits.append((n, 'test', ast.Constant(True)))
            edits.append((n, 'test', ast.Constant(False)))
        if isinstance(n, ast.Tuple) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            edits.append((n, 'elts', [n.elts[1], n.elts[0]] + n.elts[2:]))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) >= 1:
                for i, s in enumerate(b):
                    if isinstance(s, (ast.AugAssign,)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute))) \
                            or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                        edits.append((n, f, b[:i] + [ast.Pass()] + b[i + 1:]))
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'type_comment', 'decorator_list') or (f == 'args' and isinstance(n, ast.FunctionDef)):
                continue
            if isinstance(v, ast.AST):
                visit(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        visit(x)
    visit(fn)
    return edits


def show(n):
    try:
        return ast.unparse(n)
    except Exception:
        return '?'


def enclosing(fn, n):
    """the statement (first line) that contains n"""
    best = fn
    for s in ast.walk(fn):
        if isinstance(s, ast.stmt) and any(x is n for x in ast.walk(s)):
            best = s
    return best


def reach(only):
    ip = R.mkinterp()
    m = {}
    seen = set()
    obs = []
    for ob in sorted(R.load_obligations(), key=lambda o: bool(o.opts.get('_only_fails') or o.opts.get('_only_names'))):
        if ob.key in seen:
            continue        # the obligation on the value comes before those on rejected inputs only
        seen.add(ob.key)
        obs.append(ob)
        t = time.time()
        outs = R.run_obligation(ip, ob)
        for o in outs:
            for f in o.functions:
                m.setdefault(f, {}).setdefault(ob.key, 0)
        for f in m:
            if ob.key in m[f]:
                m[f][ob.key] = max(m[f][ob.key], time.time() - t)
    return m, obs


def work(job):
    """run the mutants of one function"""
    rel, mod, q, muts, keys, seed = job
    random.seed(seed)
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    out = []
    try:
        shutil.copytree(SRC + '/heat_load_calc', d + '/heat_load_calc')
        R.REPO = d
        p = d + '/' + rel
        src = open(p, encoding='utf-8').read()
        obs = [o for o in OBS if o.key in keys]
        obs.sort(key=lambda o: keys[o.key])
        tree = ast.parse(src)
        fn = dict(functions(tree))[q]
        random.seed(seed)
        edits = sites(fn)
        for i in muts:
            n, f, new = edits[i]
            old = getattr(n, f)
            st = enclosing(fn, n)
            before = show(st)
            if f == 'op' and new is None:
                n.op = ast.UAdd()
                new_op = n.operand
                n.operand = ast.UnaryOp(ast.Not(), ast.UnaryOp(ast.Not(), new_op))
            else:
                setattr(n, f, new)
            after = show(st)
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
            except Exception as e:
                text = None
            if f == 'op' and new is None:
                n.op = old
                n.operand = n.operand.operand.operand
                n.op = ast.Not()
                # not x -> x
                text = None
            setattr(n, f, old)
            if text is None:
                continue
            open(p, 'w', encoding='utf-8').write(text)
            res = 'SURVIVED'
            note = ''
            try:
                compile(text, p, 'exec')
                ip = R.mkinterp(d)
                nund = nbroken = 0
                for ob in obs:
                    try:
                        for case in R.cases_of(ip, ob):
                            try:
                                o = R.run_case(ip, ob, case, 1500)
                            except I.AnchorMissing:
                                nbroken += 1
                                note = 'anchor'
                                break
                            except Exception as e:
                                nund += 1
                                note = repr(e)[:100]
                                continue
                            if o.kind == C.DIFF:
                                res = 'KILLED'
                                break
                            if o.kind == C.UNDEC:
                                nund += 1
                                note = (o.note or '')[:200]
                                if nund > 20:
                                    break
                    except Exception as e:
                        nund += 1
                        note = repr(e)[:100]
                    if res == 'KILLED':
                        break
                if res != 'KILLED' and (nund or nbroken):
                    res = 'UNDEC'
            except SyntaxError:
                continue
            b, a = before.split('\n'), after.split('\n')
            dl = [(x, y) for x, y in zip(b, a) if x != y][:2]
            out.append((rel, q, getattr(st, 'lineno', 0), res, note, dl))
    finally:
        shutil.rmtree(d)
    return out


OBS = []
SRC = R.REPO


def main():
    out = sys.argv[1]
    args = sys.argv[2:]
    per, seed = 25, 1
    sel = []
    while args:
        a = args.pop(0)
        if a == '--per':
            per = int(args.pop(0))
        elif a == '--seed':
            seed = int(args.pop(0))
        else:
            sel.append(a)
    m, obs = reach(sel)
    OBS.extend(obs)
    jobs = []
    for f in sorted(glob.glob(R.REPO + '/heat_load_calc/**/*.py', recursive=True)):
        rel = os.path.relpath(f, R.REPO)
        if sel and not any(s in rel for s in sel):
            continue
        mod = rel[:-3].replace('/', '.')
        tree = ast.parse(open(f, encoding='utf-8').read())
        for q, fn in functions(tree):
            keys = m.get(mod + ':' + q)
            if not keys:
                continue
            random.seed(seed)
            n = len(sites(fn))
            idx = list(range(n))
            random.Random(seed * 7 + 1).shuffle(idx)
            idx = sorted(idx[:per])
            for z in range(0, len(idx), 6):
                jobs.append((rel, mod, q, idx[z:z + 6], keys, seed))
    print(len(jobs), 'jobs', sum(len(j[3]) for j in jobs), 'mutants', flush=True)
    cnt = {}
    with open(out, 'w') as g, mp.Pool(8, maxtasksperchild=4) as pool:
        for rs in pool.imap_unordered(guarded, jobs):
            for r in rs:
                cnt[r[3]] = cnt.get(r[3], 0) + 1
                if r[3] != 'KILLED':
                    g.write(json.dumps(r, ensure_ascii=False) + '\n')
                    g.flush()
    print(cnt)


def guarded(job):
    res = []
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(200000)
    threading.stack_size(256 * 1024 * 1024)

    def go():
        try:
            res.extend(work(job))
        except BaseException as e:
            print('JOB FAILED', job[:3], repr(e)[:200], flush=True)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res


if __name__ == '__main__':
    R.main_thread(main)
