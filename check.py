#!/usr/bin/env python3
"""Decide one property from /repo's current source.

usage: check.py ID      (tier and seed from VERIF_TIER / VERIF_SEED)

exit 0  every decided obligation holds (undecided ones are named)
exit 1  a construct breaks the property: VIOLATION line
exit 2  the analysis has no answer (an anchor is gone, or nothing could be decided)
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vg import run as R          # noqa: E402
from vg import compare as C      # noqa: E402
from vg import nodes as N        # noqa: E402
from vg import interp as I       # noqa: E402
from vg import rules             # noqa: E402
from vg.program import Program   # noqa: E402


def rel(path):
    return os.path.relpath(path, R.REPO) if path.startswith(R.REPO) else path


def loc(l):
    return '%s:%s (%s)' % (rel(l[0]), l[1], l[2])


def main(prop):
    t0 = time.time()
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    budget = 30000 if tier == 'thorough' else 3000
    limit = 600 if tier == 'thorough' else 240
    R.END[0] = t0 + limit
    listed = R.load_findings().get(prop, {})
    obs = R.load_obligations({prop})
    ip = R.mkinterp()
    viol, undec, known, broken = [], [], {}, []
    functions, rows = set(), []
    cases = discharged = nodes = splits = sites = 0
    for ob in obs:
        row = {'obligation': ob.key, 'title': ob.title, 'cases': 0, 'equal': 0, 'different': 0, 'undecided': 0}
        try:
            it = list(R.cases_of(ip, ob))
        except I.AnchorMissing as e:
            broken.append('%s: %s is gone' % (ob.key, e))
            rows.append(row)
            continue
        except (I.Unsupported, I.Budget, RecursionError) as e:
            undec.append({'obligation': ob.key, 'why': str(e)})
            rows.append(row)
            continue
        for case in it:
            label = {q: N.show(v) if isinstance(v, N.Node) else str(v) for q, v in case.items()}
            row['cases'] += 1
            cases += 1
            if time.time() - t0 > limit:
                undec.append({'obligation': ob.key, 'case': label, 'why': 'time limit'})
                row['undecided'] += 1
                continue
            try:
                o = R.run_case(ip, ob, case, budget)
            except I.AnchorMissing as e:
                broken.append('%s: %s is gone' % (ob.key, e))
                break
            except Exception as e:               # the analyser does not understand this code
                undec.append({'obligation': ob.key, 'case': label, 'why': 'analysis error %s: %s near %s' % (type(e).__name__, e, ip.curloc)})
                row['undecided'] += 1
                continue
            functions |= o.functions
            nodes += o.nodes
            splits += o.splits
            sites += o.sites
            if o.kind == C.EQ:
                discharged += 1
                row['equal'] += 1
            elif o.kind == C.DIFF:
                row['different'] += 1
                viol.append({'rule': ob.key, 'title': ob.title, 'case': label, 'what': o.text, 'note': o.note, 'where': [loc(l) for l in o.locs]})
            else:
                row['undecided'] += 1
                undec.append({'obligation': ob.key, 'case': label, 'why': o.note or o.text})
            for f, p in o.findings:
                known.setdefault(f, []).append({'rule': ob.key, 'case': label, 'what': p.text, 'where': [loc(l) for l in p.locs]})
        rows.append(row)
    # structural rules over the syntax tree and call graph
    for name, fn in rules.for_property(prop):
        row = {'obligation': name, 'title': (fn.__doc__ or '').strip().split('\n')[0]}
        try:
            res = fn(Program.of(R.REPO))
        except rules.AnchorMissing as e:
            broken.append('%s: %s is gone' % (name, e))
            rows.append(row)
            continue
        except Exception as e:
            undec.append({'obligation': name, 'why': 'analysis error %s: %s' % (type(e).__name__, e)})
            continue
        row.update({'cases': res.instances, 'equal': res.instances - len(res.violations), 'different': len(res.violations), 'undecided': len(res.undecided)})
        cases += res.instances
        sites += res.instances
        functions |= res.functions
        for v in res.violations:
            if v.get('finding') in listed:
                known.setdefault(v['finding'], []).append(v)
                row['different'] -= 1
            else:
                viol.append(dict(v, rule=name, title=row['title']))
        discharged += res.instances - len(res.violations)
        undec += [dict(u, obligation=name) for u in res.undecided]
        rows.append(row)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'The code reachable from the entry points named by each obligation is read from /repo and turned into a value graph '
                           '(calls inlined, control flow merged into selections, loops summarised); the graph of every output and effect must have '
                           'the same normal form as the graph of the reference definition for every case of the configuration. '
                           'Structural rules count the call sites, table entries and functions they examined.',
            'obligations': len(obs) + len(rules.for_property(prop)), 'cases': cases, 'discharged': discharged,
            'undecided': len(undec), 'functions_analysed': len(functions), 'call_sites_followed': sites, 'graph_nodes': nodes, 'case_splits': splits,
            'rules': rows, 'functions': sorted(functions), 'undecided_list': undec[:40], 'known_findings': {f: v[:3] for f, v in known.items()},
            'broken': broken,
        },
        'assumptions': ['real arithmetic: floating point rounding is not modelled', 'library calls behave as documented'],
        'wall_s': round(wall, 3), 'violations': len(viol),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%s: %d obligations, %d cases, %d discharged, %d undecided, %d functions, %.1f s' % (prop, len(rows), cases, discharged, len(undec), len(functions), wall))
    for u in undec[:10]:
        print('  undecided: %s %s: %s' % (u['obligation'], u.get('case', ''), str(u['why'])[:300]))
    for f in sorted(known):
        print('KNOWN-FINDING: property=%s %s %s' % (prop, f, listed[f]))
    replay = os.path.join(d, prop + '.violation.json')
    if os.path.exists(replay):
        os.remove(replay)
    if viol:
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'replay': 'python3 /verif/check.py ' + prop, 'violations': viol}, f, indent=1, ensure_ascii=False)
        for v in viol[:8]:
            print('  %s [%s] %s' % (v['rule'], v.get('title', ''), v.get('case') or ''))
            print('    %s %s' % (v['what'][:1500], v.get('note', '')))
            for w in v['where']:
                print('    at ' + w)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    for b in broken:
        print('  analysis broken: ' + b)
    if 2 * len(broken) > len(rows):
        return 2
    if not discharged:
        print('  nothing could be decided')
        return 2
    return 0


if __name__ == '__main__':
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    most = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (most if hard == resource.RLIM_INFINITY else min(most, hard), hard))
    code = []
    R.main_thread(lambda: code.append(main(sys.argv[1])))
    sys.stdout.flush()
    os._exit(code[0] if code else 3)
