"""Obligation runner: specification functions against the repository's code."""
import ast
import itertools
import json
import os
import sys
import time
import threading

from . import nodes as N
from . import interp as I
from . import compare as C
from .nodes import mk, k, num, TRUE, FALSE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(HERE, 'specs')
REPO = os.environ.get('VERIF_REPO', '/repo')


class Obligation:
    def __init__(self, file, cls, prop, title, params, opts):
        self.file = file
        self.cls = cls
        self.prop = prop
        self.title = title
        self.params = params
        self.opts = opts

    @property
    def key(self):
        return '%s.%s' % (self.file, self.cls)


def literal(n, env):
    if isinstance(n, ast.Name) and n.id in env:
        return env[n.id]
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        return literal(n.left, env) + literal(n.right, env)
    if isinstance(n, ast.List):
        return [literal(x, env) for x in n.elts]
    if isinstance(n, ast.Tuple):
        return tuple(literal(x, env) for x in n.elts)
    if isinstance(n, ast.Dict) and None not in n.keys:
        return {literal(k, env): literal(v, env) for k, v in zip(n.keys, n.values)}
    return ast.literal_eval(n)


def load_obligations(props=None):
    out = []
    for fn in sorted(os.listdir(SPECDIR)):
        if not fn.endswith('.py') or fn.startswith('_'):
            continue
        tree = ast.parse(open(os.path.join(SPECDIR, fn), encoding='utf-8').read(), fn)
        env = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                try:
                    env[n.targets[0].id] = literal(n.value, env)
                except ValueError:
                    pass
            if not isinstance(n, ast.ClassDef):
                continue
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'ob':
                    prop = ast.literal_eval(d.args[0])
                    title = ast.literal_eval(d.args[1])
                    kw = {q.arg: literal(q.value, env) for q in d.keywords}
                    opts = {q: kw.pop(q) for q in list(kw) if q.startswith('_')}
                    ps = prop if isinstance(prop, (list, tuple)) else [prop]
                    if opts.get('_fails') and 'X03' not in ps:
                        # what this reference rejects is also what X03 is about
                        if props is None or 'X03' in props:
                            out.append(Obligation(fn[:-3], n.name, 'X03', title, kw, dict(opts, _only_fails=True)))
                    if props is not None and 'X02' in props and 'X02' not in ps:
                        # in what this reference covers every name that is read has a value
                        out.append(Obligation(fn[:-3], n.name, 'X02', title, kw, dict(opts, _only_names=True)))
                    for p in ps:
                        if props is None or p in props:
                            out.append(Obligation(fn[:-3], n.name, p, title, kw, opts))
    return out


# failures that are mistakes of the program text and never a rejection
NAME_ERRORS = ('unbound', 'UnboundLocalError', 'NameError')


class Outcome:
    def __init__(self, ob, case):
        self.ob = ob
        self.case = case
        self.kind = None
        self.note = ''
        self.result = None
        self.functions = set()
        self.nodes = 0
        self.splits = 0
        self.sites = 0
        self.text = ''
        self.locs = []
        self.implcuts = set()
        self.speccuts = set()
        self.spec_error = False
        self.findings = []
        self.ifail_n = 0


def mkinterp(repo=None):
    return I.Interp(repo or REPO, SPECDIR)


class Fresh:
    """a structured constant, built anew for every run so that its heap cells belong to that run"""

    def __init__(self, v):
        self.v = v


def domain(ip, kind):
    """(label, value) choices for a parameter"""
    if isinstance(kind, list):
        return [(repr(v), Fresh(v) if isinstance(v, (dict, list, tuple)) else k(v)) for v in kind]
    if isinstance(kind, dict):
        if 'enum' in kind:
            c = ip.cls_by_name(kind['enum'])
            return [(m, v) for m, v in c.members.items() if 'only' not in kind or m in kind['only']]
        if 'const' in kind:
            return [(repr(kind['const']), k(kind['const']))]
    return None


def py_to_val(ip, v):
    if isinstance(v, dict):
        return ip.mkdict({k(a): py_to_val(ip, b) for a, b in v.items()})
    if isinstance(v, list):
        return ip.mklist([py_to_val(ip, x) for x in v])
    if isinstance(v, tuple):
        return I.Tup([py_to_val(ip, x) for x in v])
    return k(v)


def reset(ip):
    ip.st = I.St()
    for m in ip.mods.values():
        ip.st.heap.update(getattr(m, 'heap', {}))
    ip.orgs = {}
    ip.callsite = None
    ip.fails = []
    ip.functions = set()
    ip.steps = 0
    ip.stack = []
    ip.loops = []
    ip.depth = 0
    ip.sites = 0
    ip.lvn = 0
    ip.frame = None
    ip.curloc = None
    N.CUR[0] = None


def run_fn(ip, f, args):
    reset(ip)
    ip.frame = ip.new_frame()
    ip.mod = f.mod
    v = ip.call(f, args, {})
    return v


def norm_effects(ip):
    """effects as a frozen structure: (operation, arguments) with their guards"""
    out = []
    for e in ip.st.eff:
        cond, name, args, loc = e[0], e[1], e[2], e[3]
        loops = e[4] if len(e) > 4 else ()
        n = mk('effect', name, *args)
        for dom, ix in reversed(loops):
            n = mk('each', dom, ix, n)
        if cond is not TRUE:
            n = mk('guard', cond, n)
        out.append(n)
    for o in sorted((i for i in ip.st.heap if isinstance(i, N.Node)), key=lambda x: x.id):
        for q, v in sorted(ip.st.heap[o].items()):
            v = ip.freeze(v)
            if v is not N.attr(o, q):
                out.append(mk('effect', 'setattr', mk('tup', o, k(q)), v))
    return mk('list', *out)


def cut_names(n):
    return {x.args[0] for x in N.walk(n) if x.op == 'cut'}


def defined(ip, q):
    mod, _, fn = q.partition(':')
    m = ip.module(mod)
    if m is None:
        return False
    cls, _, meth = fn.rpartition('.')
    if cls:
        c = m.env.get(cls)
        return isinstance(c, I.ClassVal) and any(meth in z.attrs for z in c.mro())
    return isinstance(m.env.get(fn), I.FuncVal)


def load_findings(path=None):
    """open findings: {property: {finding id: text}}"""
    out = {}
    path = path or os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('open:'):
                continue
            w = line[5:].split(None, 2)
            prop = w[0].split('=', 1)[1]
            fid = w[1].split('=', 1)[1]
            out.setdefault(prop, {})[fid] = w[2] if len(w) > 2 else ''
    return out


FINDINGS = None
END = [float('inf')]        # when the whole check has to be done


def run_case(ip, ob, case, budget):
    """decide one case; listed findings select the documented deviating form of the reference"""
    global FINDINGS
    if FINDINGS is None:
        FINDINGS = load_findings()
    own = set(FINDINGS.get(ob.prop, {}))
    # a finding that belongs to another property is not judged here: either form of the reference is accepted
    listed = set().union(*FINDINGS.values()) if FINDINGS else set()
    ip.asked = set()
    ip.known = set(listed)
    o = run_case_listed(ip, ob, case, budget)
    asked = sorted(ip.asked & listed)
    o.findings = []
    if not asked:
        return o
    if o.kind == C.EQ:
        o.findings = confirmed(ip, ob, case, budget, listed, [f for f in asked if f in own])
        return o
    if o.kind == C.UNDEC:
        return o
    # some listed findings may have been repaired
    for r in range(len(asked), 0, -1):
        for off in itertools.combinations(asked, r):
            ip.known = listed - set(off)
            p = run_case_listed(ip, ob, case, budget)
            if p.kind == C.EQ:
                p.findings = confirmed(ip, ob, case, budget, listed - set(off), [f for f in asked if f in own and f not in off])
                return p
        if len(asked) > 3:
            break
    return o


def confirmed(ip, ob, case, budget, listed, candidates):
    """the findings without which the code would not match the reference"""
    out = []
    for f in candidates:
        ip.known = listed - {f}
        p = run_case_listed(ip, ob, case, budget)
        if p.kind == C.DIFF:
            out.append((f, p))
    return out


def run_case_listed(ip, ob, case, budget):
    cuts = ob.opts.get('_cut', [])
    o = run_case_cut(ip, ob, case, budget, cuts)
    if not cuts or o.kind != C.DIFF or ob.opts.get('_only_fails') or ob.opts.get('_only_names'):
        return o
    missing = o.speccuts - o.implcuts
    if not missing:
        return o
    # the code does not call a function the reference calls: decide with everything inlined
    p = run_case_cut(ip, ob, case, budget, [])
    if p.kind == C.UNDEC and all(defined(ip, q) for q in missing):
        return o
    return p


def sized(n, who, last, names, memo):
    """n where cutting a series of the object to the number of steps it has anyway is left out"""
    def series(x):
        return x.op == 'attr' and x.args[1] in names and x.args[0].op == 'sym' and x.args[0].args[0] == who

    def whole(s):
        return s.op == 'slice' and s.args[0] in (N.ZERO, N.NONE) and s.args[1] is last and s.args[2] is N.NONE

    def go(x):
        r = memo.get(x)
        if r is None:
            ch = N.children(x)
            nw = [go(c) for c in ch]
            r = x if all(p is q for p, q in zip(ch, nw)) else N.remake(x, nw)
            if r.op == 'at':
                b, s = r.args
                if whole(s) and b.op in ('at', 'select', 'filt') and series(b.args[0]):
                    r = b
                elif s.op == 'tup' and len(s.args) == 2 and whole(s.args[1]):
                    i = s.args[0]
                    if series(b):
                        r = b if I.is_full(i) else N.select(b, i) if N.is_boolish(i) else N.at(b, i)
                    elif I.is_full(i) and b.op in ('at', 'select', 'filt') and series(b.args[0]):
                        r = b
            memo[x] = r
        return r
    return go(n)


def run_case_cut(ip, ob, case, budget, cuts):
    o = Outcome(ob, case)
    ip.cuts = set(cuts)
    ip.acts = set(ob.opts.get('_acts', ()))
    ip.codes = bool(ob.opts.get('_only_fails'))
    ip.explicit = bool(ob.opts.get('_explicit'))
    ip.deadline = time.time() + 90
    N.DEADLINE[0] = min(time.time() + 120, max(END[0], time.time() + 5))
    N.MOST[0] = len(N._table) + 1000000
    mod = ip.module(ob.file)
    cls = mod.env[ob.cls]
    impl = cls.attrs.get('impl')
    spec = cls.attrs.get('spec')
    names = [a.arg for a in spec.node.args.args]
    inames = [a.arg for a in impl.node.args.args]
    assert names == inames, (ob.key, names, inames)

    def args():
        out = []
        for n in names:
            if n in case:
                out.append(py_to_val(ip, case[n].v) if isinstance(case[n], Fresh) else case[n])
            else:
                kd = ob.params.get(n, 'any')
                if isinstance(kd, dict) and 'py' in kd:
                    out.append(py_to_val(ip, kd['py']))
                else:
                    if kd == 'altitude':
                        n, kd = n + ' (altitude)', 'arr'
                        N.ALT.add(N.sym(n, kd))
                    out.append(N.sym(n, kd))
        return out
    N.PRESENT.clear()
    N.PRESENT.update(ob.opts.get('_present', ()))
    N.LOCS.clear()
    # implementation first so that source locations belong to it
    try:
        reset(ip)
        a = args()
        ip.frame = ip.new_frame()
        ip.mod = mod
        va = ip.call(impl, a, {})
        fa = ip.freeze(va)
        ea = norm_effects(ip)
        if ob.opts.get('_only_names'):
            ip.fails = [f for f in ip.fails if f[1].startswith(NAME_ERRORS)]
        ifail = N.OR(*[c for c, w, l in ip.fails]) if ip.fails else FALSE
        ifails = list(ip.fails)
        o.ifail_n = int(ifail is not FALSE)
        o.functions = set(ip.functions)
        o.sites = ip.sites
    except I.AnchorMissing:
        raise
    except (I.Unsupported, I.Budget, N.Timeout, RecursionError, MemoryError) as e:
        o.kind = C.UNDEC
        o.note = 'not analysable: %s (near %s)' % (e, ip.curloc)
        o.functions = set(ip.functions)
        return o
    if ob.opts.get('_only_names') and ifail is FALSE:
        o.kind = C.EQ
        return o
    N.CUR[0] = None
    reset(ip)
    a = args()
    ip.frame = ip.new_frame()
    ip.mod = mod
    try:
        vb = ip.call(spec, a, {})
        fb = ip.freeze(vb)
        eb = norm_effects(ip)
    except I.AnchorMissing:
        raise
    except (I.Unsupported, I.Budget, N.Timeout, RecursionError, MemoryError) as e:
        o.kind = C.UNDEC
        o.spec_error = True
        o.note = 'reference not evaluable against this code: %s (near %s)' % (e, ip.curloc)
        return o
    for who, (last, names_) in ob.opts.get('_sized', {}).items():
        memo = {}
        fa, ea, fb, eb = [sized(x, who, N.sym(last, ob.params[last]), names_, memo) for x in (fa, ea, fb, eb)]
    o.implcuts = cut_names(fa) | cut_names(ea)
    o.speccuts = cut_names(fb) | cut_names(eb)
    sfail = N.OR(*[c for c, w, l in ip.fails]) if ip.fails else FALSE
    o.nodes = len(set(N.walk(fa)))
    vocab = C.vocab_of([fb, eb] + [c for c, _, _ in ip.fails])
    only_names = ob.opts.get('_only_names')
    only_fails = ob.opts.get('_only_fails') or only_names

    def judge(fa, ea, ifail):
        cm = C.Comparer(vocab, ifail, sfail, budget)
        cm.failed_pairs = set()
        try:
            r = C.Result(C.EQ) if only_fails else cm.eqv(fa, fb)
        except (N.Timeout, MemoryError) as e:
            r = C.Result(C.UNDEC, note='comparison budget exhausted: %s' % e)
        if r.kind == C.UNDEC and 'budget' in r.note:
            try:
                N.DEADLINE[0] = min(time.time() + 40, max(END[0], time.time() + 5))
                r = cm.probe(fa, fb) or r
            except (N.Timeout, MemoryError):
                pass
        if r.kind == C.EQ and ob.opts.get('_effects') and not only_fails:
            r = compare_effects(cm, ea, eb)
        if r.kind == C.EQ and not only_names and (only_fails or ob.opts.get('_fails')):
            cm2 = C.Comparer(vocab | C.vocab_of([ifail]), FALSE, FALSE, budget)
            cm2.failed_pairs = set()
            if ob.opts.get('_only_fails') and ob.opts.get('_may_fail'):
                # at least what the reference rejects
                r = cm2.eqv(N.ite(N.AND(sfail, N.NOT(ifail)), N.ONE, N.ZERO), N.ZERO, path='<rejected inputs>')
            else:
                r = cm2.eqv(N.ite(ifail, N.ONE, N.ZERO), N.ite(sfail, N.ONE, N.ZERO), path='<rejected inputs>')
        elif r.kind == C.EQ and ifail is not FALSE and (only_names or not ob.opts.get('_may_fail')):
            # the code may reject only what the reference rejects
            extra = N.AND(ifail, N.NOT(sfail))
            if extra is not FALSE:
                cm2 = C.Comparer(vocab | C.vocab_of([extra]), FALSE, FALSE, budget)
                cm2.failed_pairs = set()
                r = cm2.eqv(N.ite(extra, N.ONE, N.ZERO), N.ZERO, path='<rejected inputs>')
        return r, cm.splits
    r, o.splits = judge(fa, ea, ifail)
    if r.kind == C.UNDEC and 'vocabulary' in r.note:
        for why, change in C.WITHOUT:
            memo = {}
            xa, xe, xf = [change(x, memo) for x in (fa, ea, ifail)]
            if xa is fa and xe is ea and xf is ifail:
                continue
            try:
                q, _ = judge(xa, xe, xf)
            except (N.Timeout, MemoryError):
                continue
            if q.kind == C.EQ:
                r = C.Result(C.DIFF, r.path, r.a, r.b, r.assume, why)
                break
    o.kind = r.kind
    o.result = r
    if r.kind == C.DIFF:
        describe(o, r, fa, fb, ifails)
    elif r.kind == C.UNDEC:
        o.note = r.note + ' at ' + r.path
        o.text = 'impl %s | spec %s' % (N.show(r.a) if r.a is not None else '-', N.show(r.b) if r.b is not None else '-')
    return o


def rowwise(e):
    """rows written one after the other are the rows written at once"""
    if e.op == 'guard':
        return mk('guard', e.args[0], rowwise(e.args[1]))
    if e.op != 'each':
        return mk(e.op, 'writerows', e.args[1], N.mklist(e.args[2]), *e.args[3:]) if e.args[0] == 'writerow' and len(e.args) > 2 else e
    b = rowwise(e.args[2])
    if b.op == 'each' or b.op == 'guard' or b.args[0] != 'writerows' or b.args[2].op != 'list' or len(b.args[2].args) != 1:
        return mk('each', e.args[0], e.args[1], b)
    row = b.args[2].args[0]
    if row.op == 'at' and row.args[1] is e.args[1] and e.args[0] is mk('len', row.args[0]) and not N.mentions(row.args[0], e.args[1]):
        return mk(b.op, 'writerows', b.args[1], row.args[0], *b.args[3:])
    return mk(b.op, 'writerows', b.args[1], N.mklist(mk('each', e.args[0], e.args[1], row)), *b.args[3:])


def compare_effects(cm, ea, eb):
    """effects are matched per (operation, first argument); order inside a group matters"""
    def group(n):
        g = {}
        for e in n.args:
            x = e = rowwise(e)
            while x.op in ('guard', 'each'):
                x = x.args[-1]
            g.setdefault((x.args[0], x.args[1] if len(x.args) > 1 else None), []).append(e)
        return g
    ga, gb = group(ea), group(eb)
    used = set()
    for q, lb in gb.items():
        la = ga.get(q)
        if la is None:
            # equal target under normalisation
            for q2 in ga:
                if q2 not in used and q2[0] == q[0] and q2[1] is not None and q[1] is not None and cm.eqv(q2[1], q[1]).kind == C.EQ:
                    la = ga[q2]
                    used.add(q2)
                    break
        else:
            used.add(q)
        if la is None:
            return C.Result(C.DIFF, 'effect %s' % q[0], mk('missing'), lb[0], C.Assume(), 'expected effect is missing')
        r = cm.eqv(effs(la), effs(lb), path='effect %s(%s)' % (q[0], N.show(q[1]) if q[1] is not None else ''))
        if r.kind == C.DIFF and len(la) < len(lb) and any(steers(e) for e in la):
            return C.Result(C.UNDEC, 'effect %s' % q[0], effs(la), effs(lb), C.Assume(), 'passes of several loops are made by one loop')
        if r.kind != C.EQ:
            return r
    for q in ga:
        if q not in used and q not in gb:
            return C.Result(C.DIFF, 'effect %s' % q[0], ga[q][0], mk('missing'), C.Assume(), 'unexpected effect')
    return C.Result(C.EQ)


def steers(e):
    """the loop decides from its own index what a pass does"""
    while e.op in ('guard', 'each'):
        if e.op == 'each' and any(x.op in ('lt0', 'le0', 'eq0', 'eq') and N.mentions(x, e.args[1]) for x in N.walk(e.args[2])):
            return True
        e = e.args[-1]
    return False


def effs(ls):
    def conv(e):
        if e.op == 'guard':
            return mk('guard', e.args[0], conv(e.args[1]))
        if e.op == 'each':
            return mk('each', e.args[0], e.args[1], conv(e.args[2]))
        return mk('tup', k(e.args[0]), *e.args[1:])
    return N.mklist(*[conv(e) for e in ls])


def ob_names(o):
    return bool(o.ob.opts.get('_only_names'))


def describe(o, r, fa, fb, ifails):
    a, b = r.a, r.b
    xa, xb = C.explain(a, b) if a is not None and b is not None else (a, b)
    locs = []

    def note(l):
        if l and l not in locs:
            locs.append(l)
    if r.path == '<rejected inputs>':
        why = []
        for c, w, l in ifails:
            if r.assume is None or r.assume.apply(c, True) is not FALSE:
                note(l)
                why.append('%s at %s:%s' % (w, os.path.basename(l[0]), l[1]) if l else w)
        o.locs = locs[:4]
        cond = ' and '.join(('' if v else 'not ') + '(' + N.show(c) + ')' for c, v in (r.assume.order if r.assume else ()))
        o.text = 'the code %s%s (%s)' % (
            'reads a name without a value' if ob_names(o) else 'rejects or accepts other inputs than the property says',
            (' when ' + cond[:400]) if cond else '', '; '.join(why[:4]) or 'it never stops')
        return
    if a is N.BOT or (r.note and 'fails' in r.note):
        for c, w, l in ifails:
            if r.assume.apply(c, True) is TRUE:
                note(l)
                o.note = 'raises %s' % w
    if xa is not None and xb is not None:
        sb = set(N.walk(b))
        only = [x for x in N.walk(xa) if x not in sb]
        only.sort(key=lambda x: C.sizeof(x))
        for x in only[:40]:
            note(N.LOCS.get(x))
        for x in N.walk(xa):
            if len(locs) >= 4:
                break
            note(N.LOCS.get(x))
        if not locs:
            for x in [y for y in N.walk(a) if y not in sb][:60]:
                note(N.LOCS.get(x))
    if not locs:
        for c, w, l in ifails:
            note(l)
    o.locs = locs[:4]
    cond = ' and '.join(('' if v else 'not ') + '(' + N.show(c) + ')' for c, v in (r.assume.order if r.assume else ()))
    o.text = 'output %s: the code computes %s where the property requires %s%s%s' % (
        r.path or '<result>', N.show(xa, lim=5)[:500] if xa is not None else '-', N.show(xb, lim=5)[:500] if xb is not None else '-',
        (' when ' + cond[:400]) if cond else '', (' [' + r.note + ']') if r.note else '')


def cases_of(ip, ob):
    doms = {}
    for n, kd in ob.params.items():
        d = domain(ip, kd)
        if d is not None:
            doms[n] = d
    names = list(doms)
    for combo in itertools.product(*[doms[n] for n in names]):
        yield {n: v for n, (l, v) in zip(names, combo)}


def run_obligation(ip, ob, budget=6000):
    outs = []
    for case in cases_of(ip, ob):
        outs.append(run_case(ip, ob, case, budget))
    return outs


def main_thread(fn):
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    res = {}

    def go():
        try:
            res['v'] = fn()
        except BaseException as e:
            import traceback
            res['e'] = e
            res['tb'] = traceback.format_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in res:
        sys.stderr.write(res['tb'])
        raise res['e']
    return res['v']


if __name__ == '__main__':
    def go():
        sel = sys.argv[1:]
        ip = mkinterp()
        obs = load_obligations()
        for ob in obs:
            if sel and not any(s in ob.key or s == ob.prop for s in sel):
                continue
            t = time.time()
            outs = run_obligation(ip, ob)
            kinds = [x.kind for x in outs]
            print('%-5s %-50s %s  cases=%d eq=%d diff=%d undec=%d  %.1fs fns=%d splits=%d' % (ob.prop, ob.key, ob.title[:40], len(outs), kinds.count('EQ'), kinds.count('DIFF'), kinds.count('UNDEC'), time.time() - t, len(set().union(*[x.functions for x in outs])), sum(x.splits for x in outs)))
            shown = 0
            for x in outs:
                if x.kind != 'EQ' and shown < int(os.environ.get('SHOW', '2')):
                    shown += 1
                    print('    ', x.kind, {q: N.show(v) if isinstance(v, N.Node) else str(v) for q, v in x.case.items()}, x.note)
                    print('     ', x.text[:2500])
                    print('     ', x.locs)
    main_thread(go)
