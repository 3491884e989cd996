"""Equality of two value graphs by case analysis on the conditions they contain.

EQ      every case reduces to the same normal form
DIFF    some feasible case leaves two different normal forms
UNDEC   the difference involves an operation the engine does not understand
"""
import random
import re
import time
from fractions import Fraction as F
from . import nodes as N
from .nodes import Node, TRUE, FALSE, NONE, ZERO, ONE, BOT, mk, num

EQ, DIFF, UNDEC = 'EQ', 'DIFF', 'UNDEC'

CORE = {'num', 'k', 'enum', 'sym', 'poly', 'ite', 'lt0', 'le0', 'eq0', 'eq', 'not', 'and', 'or', 'max', 'abs',
        'at', 'attr', 'sum', 'sum0', 'sum1', 'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
        'floor', 'int', 'round', 'sign', 'pow', 'mm', 'diag', 'inv', 'T', 'idx', 'iota', 'len', 'list', 'dict', 'inst',
        'tup', 'each', 'guard', 'cat', 'str', 'mean', 'pi', 'bot', 'eye', 'select', 'filt', 'smax', 'smin', 'ones', 'roll', 'arctan2', 'bv', 'lam', 'kw',
        'modfile', 'nan', 'inf', 'exc', 'in', 'concat', 'count', 'fmt', 'copysign', 'mean0', 'mean1', 'last', 'json', 'file', 'csvrows', 'wrap'}


class Budget(Exception):
    pass


# operations whose operands stay the same element (or record) as their result; every other operation mixes elements
SAME_ELEMENT = {
    'num', 'k', 'enum', 'sym', 'poly', 'ite', 'lt0', 'le0', 'eq0', 'eq', 'not', 'and', 'or', 'max', 'abs', 'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos',
    'arctan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'int', 'round', 'sign', 'pow', 'arctan2', 'copysign', 'in', 'bot', 'pi', 'nan', 'inf',
    'list', 'dict', 'inst', 'tup', 'each', 'guard', 'filt', 'cat', 'str', 'fmt', 'kw', 'lam', 'exc', 'attr', 'diag', 'file', 'json', 'spread', 'enumof', 'effect', 'setattr',
    'select', 'len', 'iota', 'idx', 'bv', 'ones', 'eye', 'rows', 'missing', 'last'}
LENGTHS = ('len', 'minlen', 'attr', 'at', 'sym')
LINEAR = {'sum', 'sum0', 'sum1', 'mean', 'mean0', 'mean1', 'mm'}
ARRAYS = ('arr', 'mat', 'vec', 'sym_mat')
_elem = {}


def elementwise(c):
    """a condition that may differ between the elements of an array"""
    if _elem.get(None) != len(N.COLS):
        _elem.clear()
        _elem[None] = len(N.COLS)
    r = _elem.get(c)
    if r is None:
        r = _elem[c] = _elementwise(c)
    return r


def _elementwise(c):
    if c in N.COLS:
        return True
    if c.op == 'sym':
        return c.args[1] in ARRAYS
    if c.op == 'iota':
        return True
    if c.op in ('sum', 'mean', 'smax', 'smin', 'count', 'len', 'any', 'all'):
        return False
    if c.op == 'attr':
        x = c.args[0]
        if x.op == 'sym' and str(x.args[1]).startswith('obj:'):
            return True
        return elementwise(x)
    if c.op == 'at' and N.is_col(c):
        return True
    return any(elementwise(x) for x in N.children(c))


class Assume:
    n = 0

    def __init__(self, facts=None, sub=None, bounds=None, order=(), lin=()):
        self.facts = facts or {}
        self.sub = sub or {}
        self.bounds = bounds or {}
        self.order = order
        self.lin = lin
        self.memo = {}
        self.bmemo = {}
        self.truths = {}    # truth of values that are not booleans themselves
        self.within = None

    def split_const(self, p):
        t = N.terms(p)
        c = t.get((), F(0))
        q = N.from_terms({m: v for m, v in t.items() if m})
        return q, c

    def cmp_value(self, n):
        """decide lt0/le0/eq0 from known bounds"""
        q, c = self.split_const(n.args[0])
        lead, qq = N.content(q)
        b = self.bounds.get(qq)
        if b is None:
            if n.op in ('lt0', 'le0', 'eq0') and nonneg(q):
                # q >= 0 always
                if n.op == 'lt0' and c >= 0:
                    return FALSE
                if n.op == 'le0' and c > 0:
                    return FALSE
                if n.op == 'eq0' and c > 0:
                    return FALSE
            return None
        lo, los, hi, his, ne = b
        # n: lead*qq + c  (<,<=,==) 0 ; lead > 0 for normalised comparisons (lead may be 1)
        v = -c / lead          # threshold for qq
        less = lead > 0
        def lt_(strict):
            # qq < v or qq <= v
            if hi is not None and (hi < v or (hi == v and (his or not strict))):
                return TRUE
            if lo is not None and (lo > v or (lo == v and (los or strict))):
                return FALSE
            if not strict and hi is not None and False:
                return None
            if lo is not None and lo == v and hi is not None and hi == v:
                return FALSE if strict else TRUE
            if strict and hi == v and hi is not None and v in ne:
                return TRUE
            if not strict and lo == v and lo is not None and v in ne:
                return FALSE
            return None

        def gt_(strict):
            r = lt_(not strict)
            return None if r is None else N.NOT(r)
        if n.op == 'eq0':
            if v in ne:
                return FALSE
            if lo is not None and (v < lo or (v == lo and los)):
                return FALSE
            if hi is not None and (v > hi or (v == hi and his)):
                return FALSE
            if lo is not None and lo == hi == v:
                return TRUE
            return None
        strict = n.op == 'lt0'
        return lt_(strict) if less else gt_(strict)

    def inner(self):
        """the assumptions that also hold for the other elements"""
        if self.within is None:
            if not any(elementwise(c) for c, v in self.order):
                self.within = self
            else:
                a = Assume()
                for c, v in self.order:
                    if not elementwise(c):
                        a = a.extend(c, v) or a
                self.within = a
                a.within = a
        return self.within

    def post(self, n):
        if n in self.facts:
            return self.facts[n]
        if n in self.sub:
            return self.sub[n]
        if n.op in ('lt0', 'le0', 'eq0'):
            r = self.cmp_value(n)
            if r is not None:
                return r
        elif n.op == 'max' and self.bounds:
            keep = list(n.args)
            for x in n.args:
                for y in n.args:
                    if x is y or x not in keep or y not in keep:
                        continue
                    c = N.le(x, y)
                    neg_ = False
                    if c.op == 'not':
                        c, neg_ = c.args[0], True
                    r = self.facts.get(c) or (self.cmp_value(c) if c.op in ('lt0', 'le0') else None)
                    if r is not None and neg_:
                        r = N.NOT(r)
                    if r is TRUE:
                        keep.remove(x)
            if len(keep) < len(n.args):
                return N.vmax(*keep)
        elif n.op == 'abs':
            c = N.lt0(n.args[0])
            neg_ = False
            if c.op == 'not':
                c, neg_ = c.args[0], True
            r = self.facts.get(c) or (self.cmp_value(c) if c.op in ('lt0', 'le0') else None)
            if r is not None:
                if neg_:
                    r = N.NOT(r)
                return N.neg(n.args[0]) if r is TRUE else n.args[0]
        elif n.op == 'eq' and n.args[0] in self.sub:
            return N.eq(self.sub[n.args[0]], n.args[1])
        return n

    def apply(self, n, truth=False):
        if not self.facts and not self.sub and not self.bounds and not self.truths:
            return n
        memo = self.memo
        bmemo = self.bmemo

        def cond(x):
            """x where only its truth matters"""
            if N.is_boolish(x) or x is BOT or x.op == 'ite':
                return go(x)
            r = bmemo.get(x)
            if r is None:
                r = self.truths.get(x)
                if r is None:
                    r = go(x)
                    r = self.truths.get(r, r)
                    if r.op == 'num':
                        r = TRUE if r.args[0] else FALSE
                    elif r.op == 'k':
                        r = TRUE if r.args[1] else FALSE
                    elif r.op == 'enum':
                        r = TRUE
                bmemo[x] = r
            return r

        def row(x):
            """what is stored into the row of an element is of that element"""
            if x.op == 'store':
                return N.remake(x, [row(x.args[0])] + [go(c) for c in x.args[1:]])
            if x.op == 'ite':
                c = cond(x.args[0])
                return row(x.args[1]) if c is TRUE else row(x.args[2]) if c is FALSE else N.ite(c, row(x.args[1]), row(x.args[2]))
            return go(x)

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            y = self.post(x)
            if y is not x:
                r = y if N.is_const(y) else go(y) if y.id < x.id or True else y
                memo[x] = r
                return r
            if x.op == 'ite':
                c = cond(x.args[0])
                if c is TRUE:
                    r = go(x.args[1])
                elif c is FALSE:
                    r = go(x.args[2])
                else:
                    r = N.ite(c, go(x.args[1]), go(x.args[2]))
            elif x.op == 'rows':
                r = N.remake(x, [row(x.args[0])] + [go(c) for c in N.children(x)[1:]])
            else:
                ch = N.children(x)
                if not ch:
                    r = x
                else:
                    if x.op in ('and', 'or', 'not'):
                        nw = [cond(c) for c in ch]
                    elif x.op in ('guard', 'filt'):
                        nw = [cond(ch[0])] + [go(c) for c in ch[1:]]
                    elif x.op not in SAME_ELEMENT and self.inner() is not self:
                        nw = [self.inner().apply(c) for c in ch]
                    else:
                        nw = [go(c) for c in ch]
                    r = x if all(p is q for p, q in zip(ch, nw)) else N.remake(x, nw)
                    if r.op == 'at' and N.is_const(r.args[0]) and r.args[1].op in ('bv', 'idx'):
                        r = r.args[0]       # every element is known to be this
            if r is not x:
                z = self.post(r)
                if z is not r:
                    r = z
            memo[x] = r
            return r
        return cond(n) if truth else go(n)

    def extend(self, c, val):
        a = Assume(dict(self.facts), dict(self.sub), dict(self.bounds), self.order + ((c, val),), self.lin)
        a.truths = dict(self.truths)
        if N.is_boolish(c):
            a.facts[c] = TRUE if val else FALSE
        else:
            a.truths[c] = TRUE if val else FALSE
            if val:
                a.facts[N.eq(c, NONE)] = FALSE
        if c.op == 'eq' and val and N.is_const(c.args[1]):
            a.sub[c.args[0]] = c.args[1]
        if c.op == 'sym' or c.op in ('attr', 'at'):
            pass
        if c.op in ('lt0', 'le0', 'eq0'):
            p = c.args[0]
            q, k0 = self.split_const(p)
            lead, qq = N.content(q)
            v = -k0 / lead
            lo, los, hi, his, ne = a.bounds.get(qq, (None, False, None, False, frozenset()))
            rel = {'lt0': '<', 'le0': '<=', 'eq0': '=='}[c.op]
            if not val:
                rel = {'<': '>=', '<=': '>', '==': '!='}[rel]
            if lead < 0:
                rel = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(rel, rel)
            if rel == '==':
                lo = hi = v
                los = his = False
                if len(N.terms(qq)) == 1 and qq.op != 'poly':
                    a.sub[qq] = num(v)
                else:
                    # solve for a leaf that occurs linearly
                    for m, cc in N.terms(p).items():
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'attr', 'at'):
                            x = m[0][0]
                            rest = N.sub(p, N.scale(x, cc))
                            if not N.mentions(rest, x):
                                a.sub[x] = N.scale(rest, -1 / cc)
                                break
            elif rel == '!=':
                ne = ne | {v}
            elif rel in ('<', '<='):
                s = rel == '<'
                if hi is None or v < hi or (v == hi and s):
                    hi, his = v, s
            else:
                s = rel == '>'
                if lo is None or v > lo or (v == lo and s):
                    lo, los = v, s
            a.bounds[qq] = (lo, los, hi, his, ne)
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (los or his or lo in ne))):
                return None
            if rel not in ('!=',):
                t = N.terms(p)
                sgn = 1 if rel in ('<', '<=', '==') and lead > 0 or (rel in ('>', '>=') and lead < 0) else -1
                if rel == '==':
                    a.lin = a.lin + ((tuple(t.items()), False), (tuple((m, -x) for m, x in t.items()), False))
                else:
                    # orient as expression (<|<=) 0
                    orig = {'lt0': '<', 'le0': '<='}[c.op]
                    if val:
                        e = (tuple(t.items()), orig == '<')
                    else:
                        e = (tuple((m, -x) for m, x in t.items()), orig == '<=')
                    a.lin = a.lin + (e,)
                if len(a.lin) > 1 and not fm_feasible(a.lin):
                    return None
        if val is False and c.op == 'eq':
            pass
        return a


def nonneg(q):
    t = N.terms(q)
    for m, c in t.items():
        if c < 0:
            return False
        for a, e in m:
            if a.op in ('abs', 'len', 'exp'):
                continue
            if e.denominator == 1 and e % 2 == 0:
                continue
            return False
    return bool(t)


def fm_feasible(lin, limit=400, last=12):
    """Fourier-Motzkin over monomials; constraints (terms, strict): expr < 0 or <= 0"""
    cs = []
    for t, strict in lin[-last:]:
        d = {m: v for m, v in t}
        cs.append((d, strict))
    for _ in range(30):
        # constants
        keep = []
        for d, s in cs:
            vs = [m for m in d if m and d[m]]
            if not vs:
                v = d.get((), F(0))
                if v > 0 or (v == 0 and s):
                    return False
            else:
                keep.append((d, s))
        cs = keep
        if not cs:
            return True
        counts = {}
        for d, s in cs:
            for m, v in d.items():
                if m and v:
                    p, n = counts.get(m, (0, 0))
                    counts[m] = (p + (v > 0), n + (v < 0))
        m = min(counts, key=lambda z: counts[z][0] * counts[z][1])
        pos = [(d, s) for d, s in cs if d.get(m, 0) > 0]
        neg_ = [(d, s) for d, s in cs if d.get(m, 0) < 0]
        rest = [(d, s) for d, s in cs if not d.get(m, 0)]
        if len(pos) * len(neg_) + len(rest) > limit:
            return True
        for d1, s1 in pos:
            for d2, s2 in neg_:
                a, b = d1[m], -d2[m]
                e = {}
                for z, v in d1.items():
                    e[z] = e.get(z, 0) + v / a
                for z, v in d2.items():
                    e[z] = e.get(z, 0) + v / b
                e[m] = F(0)
                rest.append(({z: v for z, v in e.items() if v}, s1 or s2))
        cs = rest
    return True


class Result:
    def __init__(self, kind, path='', a=None, b=None, assume=None, note=''):
        self.kind = kind
        self.path = path
        self.a = a
        self.b = b
        self.assume = assume
        self.note = note


STRUCT = {'list', 'dict', 'inst', 'tup'}
NONNUM = {'k', 'enum', 'list', 'dict', 'inst', 'tup', 'cat', 'str', 'lam', 'each', 'guard', 'exc', 'fmt', 'func', 'class', 'file', 'modfile', 'kw', 'spread', 'slice', 'concat', 'rows'}


def sizeof(n, _memo={}):
    r = _memo.get(n)
    if r is None:
        r = 1 + sum(sizeof(c) for c in N.children(n))
        if r > 10 ** 9:
            r = 10 ** 9
        _memo[n] = r
    return r


def contains_ite(n, _memo={}):
    r = _memo.get(n)
    if r is None:
        r = n.op in ('ite', 'guard', 'filt') or any(contains_ite(c) for c in N.children(n))
        _memo[n] = r
    return r


def cond_atoms(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            cond_atoms(x, out)
    elif c.op == 'ite':
        for x in c.args:
            cond_atoms(x, out)
    elif c is TRUE or c is FALSE or c is BOT:
        pass
    else:
        out.add(c)


def walk_in(ns):
    """every node, with whether it is inside an operation that mixes elements"""
    seen = set()
    stack = [(n, False) for n in ns]
    while stack:
        x, deep = stack.pop()
        if (x, deep) in seen:
            continue
        seen.add((x, deep))
        yield x, deep
        deep = deep or x.op not in SAME_ELEMENT
        stack.extend((y, deep) for y in N.children(x))


def find_conds(ns):
    """atomic conditions worth splitting on"""
    out = set()
    for x, deep in walk_in(ns):
        cs = set()
        if x.op == 'ite' or x.op == 'guard' or x.op == 'filt':
            cond_atoms(x.args[0], cs)
        elif x.op in ('and', 'or', 'not'):
            cond_atoms(x, cs)
        out |= {c for c in cs if not deep or not elementwise(c)}
    return out


def find_bounds(ns):
    """conditions that resolve a maximum or an absolute value"""
    for x, deep in walk_in(ns):
        if x.op == 'max':
            for i, p in enumerate(x.args):
                for q in x.args[i + 1:]:
                    c = N.lt(p, q)
                    if c.op == 'not':
                        c = c.args[0]
                    if c.op in ('lt0', 'le0') and not (deep and elementwise(c)):
                        yield c
        if x.op == 'abs':
            c = N.lt0(x.args[0])
            if c.op == 'not':
                c = c.args[0]
            if c.op in ('lt0', 'le0') and not (deep and elementwise(c)):
                yield c


def fvars(ns):
    out = set()
    seen = set()
    for n in ns:
        for x in N.walk(n, seen):
            if x.op in ('sym',):
                out.add(x)
    return out


class Comparer:
    def __init__(self, vocab, ifail=FALSE, sfail=FALSE, budget=6000):
        self.origin = {}
        self.vocab = vocab
        self.ifail = ifail
        self.sfail = sfail
        self.budget = budget
        self.deadline = time.time() + 30
        self.splits = 0
        self.memo = {}
        self.cut_short = False

    def eqv(self, a, b, A=None, path='', depth=0):
        A = A or Assume()
        a = A.apply(a)
        b = A.apply(b)
        if a is b:
            return Result(EQ)
        # a flag that was tested, where the other side has the literal
        if (b is TRUE or b is FALSE) and A.truths.get(a) is b or (a is TRUE or a is FALSE) and A.truths.get(b) is a:
            return Result(EQ)
        key = (a, b, id(A))
        r = self.memo.get(key)
        if r is not None:
            return r[0]
        self.budget -= 1
        if self.budget < 0 or (self.budget & 15 == 0 and time.time() > self.deadline):
            self.cut_short = True
            return Result(UNDEC, path, a, b, A, 'comparison budget exhausted')
        if depth > 60:
            self.cut_short = True
            return Result(UNDEC, path, a, b, A, 'comparison too deep')
        r = self._eqv(a, b, A, path, depth)
        self.memo[key] = (r, A)
        return r

    def _eqv(self, a, b, A, path, depth):
        # structured values
        if a.op == 'inst' and b.op in ('dict', 'inst'):
            da = dict(a.args[1].args)
            db = dict(b.args[1].args if b.op == 'inst' else b.args)
            return self.fields(da, db, A, path, depth, subset=True)
        if a.op == 'dict' and b.op == 'dict':
            return self.fields(dict(a.args), dict(b.args), A, path, depth)
        if a.op == b.op == 'lam':
            if a.args[0] != b.args[0]:
                return self.verdict(a, b, A, path)
            return self.eqv(a.args[1], b.args[1], A, path, depth + 1)
        if a.op == b.op == 'each':
            return self.each(a, b, A, path, depth)
        if a.op in ('tup', 'list') and b.op in ('tup', 'list') and not (a.op == 'tup') != (b.op == 'tup') or \
                (a.op in ('tup', 'list') and b.op in ('tup', 'list')):
            if len(a.args) == len(b.args):
                for i, (x, y) in enumerate(zip(a.args, b.args)):
                    r = self.eqv(x, y, A, '%s[%d]' % (path, i), depth + 1)
                    if r.kind != EQ:
                        # guards may realign: split on outer conditions first
                        if r.kind != EQ and (any(z.op == 'guard' for z in a.args) or any(z.op == 'guard' for z in b.args)):
                            break
                        return r
                else:
                    return Result(EQ)
            return self.split_or(a, b, A, path, depth)
        if a.op == b.op and a.op in ('guard', 'kw', 'call', 'file', 'cat', 'fmt', 'str', 'concat', 'rows', 'enumof', 'json', 'csvrows', 'slice', 'setattr') and len(a.args) == len(b.args):
            rs = self.args_eq(a, b, A, path, depth)
            if rs:
                return Result(EQ)
            return self.split_or(a, b, A, path, depth)
        if a is BOT or b is BOT:
            other = b if a is BOT else a
            if contains_ite(other):
                r = self.split_or(a, b, A, path, depth)
                return r
            return self.verdict(a, b, A, path)
        if N.is_boolish(a) or N.is_boolish(b):
            if not (a.op == 'sym' and b.op == 'sym'):
                return self.split_or(a, b, A, path, depth, bools=True)
        if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
            c = a.args[0]
            if c.op not in ('and', 'or', 'ite'):
                return self.on(c, a, b, A, path, depth)
        if a.op in NONNUM or b.op in NONNUM:
            return self.split_or(a, b, A, path, depth)
        if a.op == b.op and a.op not in ('num', 'poly', 'ite', 'sym') and len(a.args) == len(b.args) and self.args_eq(a, b, A, path, depth):
            return Result(EQ)
        d = N.sub(a, b)
        d = self.cleared(d)
        if d is ZERO:
            return Result(EQ)
        d2 = self.unify(d, a, b, A, path, depth)
        if d2 is not ZERO:
            d2 = self.gather(d2, A, path, depth)
        if d2 is ZERO:
            return Result(EQ)
        if N.has_trig(d2) and N.trig(d2) is ZERO:
            return Result(EQ)
        return self.split_or(a, b, A, path, depth, focus=[d2])

    def gather(self, d, A, path, depth):
        """drop groups of sums (or products) that add up to the sum of nothing"""
        if d.op != 'poly':
            return d
        for side in (-1, 0):
            groups = {}
            for m, c in d.args:
                ls = [(x, e) for x, e in m if x.op in LINEAR and e == 1]
                if len(ls) != 1:
                    continue
                x = ls[0][0]
                rest = tuple(z for z in m if z[0] is not x)
                i = side % len(x.args)
                groups.setdefault((x.op, rest, x.args[:i] + x.args[i + 1:]), []).append((m, c, x.args[i]))
            for key, ts in groups.items():
                if len(ts) < 2 or len(ts) > 30 or (side == 0 and key[0] != 'mm'):
                    continue
                total = N.add(*[N.scale(x, c) for m, c, x in ts])
                if self.eqv(total, ZERO, A.inner(), path, depth + 1).kind == EQ:
                    gone = {m for m, c, x in ts}
                    d = N.from_terms({m: c for m, c in d.args if m not in gone})
                    return self.gather(d, A, path, depth) if d is not ZERO else d
        return d

    # ---------------------------------------------------------------- single paths
    def parts(self, a, b, path=''):
        """the components of two results that are not the same value"""
        if a is b:
            return []
        if a.op in ('tup', 'list') and b.op in ('tup', 'list') and len(a.args) == len(b.args) and not any(z.op in ('each', 'guard', 'spread') for z in a.args + b.args):
            return [q for i, (x, y) in enumerate(zip(a.args, b.args)) for q in self.parts(x, y, '%s[%d]' % (path, i))]
        if a.op == 'dict' and b.op == 'dict':
            da, db = dict(a.args), dict(b.args)
            if set(da) == set(db) and all(q.op == 'k' for q in da):
                return [z for q in db for z in self.parts(da[q], db[q], '%s.%s' % (path, q.args[1]))]
        return [(path, a, b)]

    def probe(self, a, b, tries=10, seconds=20):
        """after an exhausted comparison: follow single paths down to unconditional expressions"""
        end = time.time() + seconds
        for seed in range(tries):
            rnd = random.Random(seed)
            A = Assume()
            self.budget, self.deadline, self.memo, self.failed_pairs, self.cut_short = 400, end, {}, set(), False
            for _ in range(60):
                if time.time() > end:
                    return None
                x, y = A.apply(a), A.apply(b)
                ps = self.parts(x, y)
                if not ps:
                    break
                path, x, y = ps[0]
                c = self.next_condition(x, y, A)
                if c is None:
                    r = self.eqv(x, y, A, path, 40)
                    if r.kind == DIFF and (not r.assume.lin or fm_feasible(r.assume.lin, 3000, len(r.assume.lin))):
                        return r
                    if r.kind == UNDEC or len(ps) == 1:
                        break
                    # this component agrees on the path: go on with the others
                    a, b = drop(a, path), drop(b, path)
                    continue
                v = rnd.random() < 0.5
                B = A.extend(c, v) or A.extend(c, not v)
                if B is None:
                    break
                A = B
        return None

    def next_condition(self, a, b, A):
        cs = [c for c in find_conds([a, b]) if c not in A.facts and c not in A.truths]
        if cs:
            return min(cs, key=lambda c: (contains_ite(c), sizeof(c), c.id))
        for c in find_bounds([a, b]):
            if c not in A.facts:
                return c
        return None

    # ---------------------------------------------------------------- pieces
    def fields(self, da, db, A, path, depth, subset=False):
        for q in db:
            p = '%s.%s' % (path, q.args[1] if q.op == 'k' else N.show(q))
            if q not in da:
                if db[q] is N.UNB:
                    continue
                if any(not N.is_const(z) for z in da) or not N.is_const(q):
                    # try a symbolic key that is equal
                    m = [z for z in da if not N.is_const(z) and z.op == q.op and self.args_eq(z, q, A, p, depth)]
                    if m:
                        r = self.eqv(da[m[0]], db[q], A, p, depth + 1)
                        if r.kind != EQ:
                            return r
                        continue
                    if any(self.unknowny(z) for z in da):
                        return Result(UNDEC, p, None, db[q], A, 'keys not comparable')
                if subset and not da:
                    return Result(UNDEC, p, None, db[q], A, 'no such field')
                return Result(DIFF if not subset else UNDEC, p, mk('missing'), db[q], A, 'missing entry')
            x = da[q]
            r = self.eqv(x, db[q], A, p, depth + 1)
            if r.kind != EQ:
                return r
        if not subset:
            for q in da:
                if q not in db and da[q] is not N.UNB:
                    if any(not N.is_const(z) for z in db) and not N.is_const(q):
                        continue
                    return Result(DIFF, '%s.%s' % (path, N.show(q)), da[q], mk('missing'), A, 'extra entry')
        return Result(EQ)

    def unknowny(self, n):
        return any(x.op == 'unknown' for x in N.walk(n))

    def each(self, a, b, A, path, depth):
        if a.args[1] is not b.args[1]:
            if len(a.args[1].args) != len(b.args[1].args):
                return self.verdict(a, b, A, path)
            m = {b.args[1]: a.args[1]}
            b = mk('each', N.subst(b.args[0], m), a.args[1], *[N.subst(x, m) for x in b.args[2:]])
        if a.args[0] is not b.args[0]:
            r = self.eqv(a.args[0], b.args[0], A, path + '(length)', depth + 1)
            if r.kind != EQ and not (a.args[0].op in LENGTHS and b.args[0].op in LENGTHS):
                return r
        x, y = a.args[2:], b.args[2:]
        if len(x) == len(y):
            for i, (p, q) in enumerate(zip(x, y)):
                r = self.eqv(p, q, A, path + '[*]', depth + 1)
                if r.kind != EQ:
                    if p.op == 'guard' or q.op == 'guard':
                        break
                    return r
            else:
                return Result(EQ)
        return self.split_or(N.mklist(*x), N.mklist(*y), A, path + '[*]', depth)

    def args_eq(self, a, b, A, path, depth):
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        if a.op not in SAME_ELEMENT:
            A = A.inner()
        for x, y in zip(a.args, b.args):
            if isinstance(x, Node) and isinstance(y, Node):
                if x is not y:
                    if self.eqv(x, y, A, path, depth + 1).kind != EQ:
                        return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return False
                for p, q in zip(x, y):
                    if isinstance(p, Node) and isinstance(q, Node):
                        if p is not q and self.eqv(p, q, A, path, depth + 1).kind != EQ:
                            return False
                    elif p != q:
                        return False
            elif x != y:
                return False
        return True

    def cleared(self, d):
        """multiply a difference through by its polynomial denominators"""
        for _ in range(6):
            if d is ZERO or d.op != 'poly':
                return d
            den = {}
            for m, c in d.args:
                for a, e in m:
                    if a.op == 'poly' and e < 0 and e.denominator == 1:
                        den[a] = min(den.get(a, 0), e)
            if not den:
                return d
            f = N.ONE
            mult = None
            out = N.ZERO
            for m, c in d.args:
                mm = {}
                for a, e in m:
                    mm[a] = e
                p = num(c)
                for a, e in den.items():
                    mm[a] = mm.get(a, F(0)) - e
                for a, e in mm.items():
                    if e:
                        p = N.mul2(p, N.power(a, num(e)))
                out = N.add(out, p)
            d = out
        return d

    def unify(self, d, a, b, A, path, depth):
        """merge atoms of the difference whose arguments are provably equal"""
        if d.op != 'poly' and d.op not in ('max', 'abs'):
            return d
        for _ in range(40):
            at_ = []
            for m, c in N.terms(d).items():
                for x, e in m:
                    if x not in at_:
                        at_.append(x)
            if len(at_) > 60:
                at_ = at_[:60]
            hit = None
            for i, x in enumerate(at_):
                for y in at_[i + 1:]:
                    if x.op == y.op and x.op not in ('sym', 'num', 'ite', 'attr', 'bv', 'idx', 'enum') and len(x.args) == len(y.args):
                        if x.op == 'at' and x.args[0] is not y.args[0] and x.args[1] is not y.args[1]:
                            continue
                        if (x, y, A) in self.failed_pairs:
                            continue
                        if x.op == 'poly':
                            ok = self.eqv(x, y, A, path, depth + 1).kind == EQ
                        elif x.op == 'max':
                            ok = self.max_eq(x, y, A, path, depth)
                        else:
                            ok = self.args_eq(x, y, A, path, depth + 1)
                        if ok:
                            hit = (x, y)
                            break
                        self.failed_pairs.add((x, y, A))
                if hit:
                    break
            if not hit:
                return d
            d = self.cleared(N.subst(d, {hit[1]: hit[0]}))
            if d is ZERO:
                return d
        return d

    failed_pairs = set()

    def max_eq(self, x, y, A, path, depth):
        ys = list(y.args)
        for p in x.args:
            for q in ys:
                if p is q or self.eqv(p, q, A, path, depth + 1).kind == EQ:
                    ys.remove(q)
                    break
            else:
                return False
        return not ys

    def same_conditions(self, a, b, A, path, depth):
        """conditions of b that are provably conditions of a written differently"""
        key = (a, b, id(A), 'conds')
        if key in self.memo or depth > 40:
            return {}
        self.memo[key] = (None, A)
        ca, cb = find_conds([a]), find_conds([b])
        xs = sorted((c for c in ca - cb if contains_ite(c)), key=sizeof)[:8]
        ys = sorted((c for c in cb - ca if contains_ite(c)), key=sizeof)[:8]
        out = {}
        for y in ys:
            for x in xs:
                if x.op == y.op and x not in out.values() and self.args_eq(x, y, A.inner(), path, depth + 1):
                    out[y] = x
                    # the values compared are the same ones wherever they occur
                    for p, q in zip(x.args, y.args):
                        if isinstance(q, Node) and p is not q and p.op == q.op and q.op in ('cut', 'at', 'call', 'attr'):
                            out[q] = p
                    break
        return out

    def on(self, c, a, b, A, path, depth):
        self.splits += 1
        for val in (True, False):
            B = A.extend(c, val)
            if B is None:
                continue
            r = self.eqv(a, b, B, path, depth + 1)
            if r.kind != EQ:
                return r
        return Result(EQ)

    def split_or(self, a, b, A, path, depth, focus=None, bools=False):
        cs = find_conds(focus or [a, b])
        if bools:
            cond_atoms(a, cs)
            cond_atoms(b, cs)
        cs = [c for c in cs if c not in A.facts and c not in A.truths]
        if cs:
            cs.sort(key=lambda c: (contains_ite(c), sizeof(c), c.id))
            c = cs[0]
            if contains_ite(c):
                m = self.same_conditions(a, b, A, path, depth)
                if m:
                    return self.eqv(a, N.subst(b, m), A, path, depth + 1)
            self.whose(c, a, b, find_conds)
            return self.on(c, a, b, A, path, depth)
        # expand max / abs as a last resort
        for c in find_bounds(focus or [a, b]):
            if c not in A.facts:
                self.whose(c, a, b, find_bounds)
                return self.on(c, a, b, A, path, depth)
        return self.verdict(a, b, A, path, focus)

    def whose(self, c, a, b, find):
        """note on which side a condition stands that may be written in two ways"""
        if opaque(c):
            self.origin.setdefault(c, set()).add((c in find([a]), c in find([b])))

    def one_sided(self, cs):
        """only one side has conditions that the other does not: they cannot be the same ones written differently"""
        o = set().union(*[self.origin.get(c, {(True, False), (False, True)}) for c in cs])
        o.discard((True, True))
        return len(o) <= 1 and (False, False) not in o

    def verdict(self, a, b, A, path, focus=None):
        # failing cases
        f = A.apply(about_same_elements(N.OR(self.ifail, self.sfail), A), True)
        if a is BOT or b is BOT:
            fi, fs = A.apply(self.ifail, True), A.apply(self.sfail, True)
            if (a is BOT or fi is TRUE) and (b is BOT or fs is TRUE):
                return Result(EQ)
            other = fs if a is BOT else fi
            if other is not TRUE and other is not FALSE:
                cs = set()
                cond_atoms(other, cs)
                cs = sorted((c for c in cs if c not in A.facts and c not in A.truths), key=lambda c: (sizeof(c), c.id))
                if cs:
                    return self.on(cs[0], a, b, A, path, 0)
            return Result(DIFF, path, a, b, A, 'fails on one side only')
        if f is TRUE:
            return Result(EQ)
        if f is not FALSE:
            cs = set()
            cond_atoms(f, cs)
            cs = sorted((c for c in cs if c not in A.facts and c not in A.truths), key=lambda c: (sizeof(c), c.id))
            if cs:
                return self.on(cs[0], a, b, A, path, 0)
            return Result(UNDEC, path, a, b, A, 'failure condition undecided')
        a = wrapped(a)
        if a is b:
            return Result(EQ)
        if fewer_turns(a, b):
            return Result(DIFF, path, a, b, A)
        only_a = set(N.walk(a)) - set(N.walk(b))
        only_b = set(N.walk(b)) - set(N.walk(a))
        for x in only_a | only_b:
            if x.op == 'unknown':
                return Result(UNDEC, path, a, b, A, 'unanalysed: %s' % x.args[0])
        for x in only_a:
            w = word(x)
            if x.op not in CORE and w not in self.vocab:
                if x.op == 'slice' and only_a_part(a, b):
                    continue
                return Result(UNDEC, path, a, b, A, 'operation %s not in the specification vocabulary' % w)
        # different calling convention of the same operation
        wa = {word(x): x for x in only_a if x.op == 'call' or x.op.startswith('m:')}
        for y in only_b:
            if word(y) in wa:
                x = wa[word(y)]
                if len(x.args) != len(y.args) or [kwname(z) for z in x.args] != [kwname(z) for z in y.args]:
                    return Result(UNDEC, path, a, b, A, 'same operation, different argument form: %s' % word(y))
        if self.cut_short:
            return Result(UNDEC, path, a, b, A, 'comparison budget exhausted')
        if not self.one_sided([c for c, v in A.order if opaque(c)]) or any(x.op == 'ite' and opaque(x.args[0]) for x in only_a | only_b):
            self.cut_short = True
            return Result(UNDEC, path, a, b, A, 'depends on a condition over the inverse of a choice of matrices')
        return Result(DIFF, path, a, b, A)


def wrapped(n):
    """n where an index modulo the length of a series is written as one operation"""
    if not any(x.op == 'shape' for x in N.walk(n)):
        return n
    m = {}
    for x in N.walk(n):
        if x.op != 'poly':
            continue
        for mono, c in x.args:
            if c == -1 and len(mono) == 2 and mono[0][1] == mono[1][1] == 1:
                f = [z for z, _ in mono if z.op == 'floor']
                ln = [z for z, _ in mono if z.op == 'len' or (z.op == 'at' and z.args[0].op == 'shape')]
                if len(f) == len(ln) == 1:
                    e = N.add(x, N.mul2(ln[0], f[0]))
                    if N.mul2(ln[0], f[0].args[0]) is e or N.div(e, ln[0]) is f[0].args[0]:
                        m[x] = e if e.op == 'sym' else mk('wrap', e)
    return N.subst(n, m) if m else n


def all_turns(a, memo=None):
    """a where no loop leaves out its first or last turns"""
    m = {}
    for x in N.walk(a):
        if x.op == 'rangelen' and x.args[2] is N.ONE and N.is_num(x.args[0]):
            lo, hi, _ = x.args
            c = N.terms(hi).get((), 0) if hi.op == 'poly' else 0
            if lo.args[0] >= 0 >= c and (lo.args[0] or c):
                m[x] = N.sub(hi, N.num(c))
    if not m:
        return a
    for x in N.walk(a):
        if x.op == 'idx' and len(x.args) == 2 and isinstance(x.args[1], Node) and x.args[1].op == 'range' and mk('rangelen', *x.args[1].args) in m:
            m[x] = N.idx(x.args[0])
    return N.subst(a, m)


def fewer_turns(a, b):
    """a is b but for a loop that leaves out its first or last turns"""
    x = all_turns(a)
    return x is not a and x is b


def strict(s):
    """a slice that leaves something out when there is enough"""
    if s.op != 'slice' or s.args[2] not in (N.NONE, N.ONE):
        return False
    lo, hi = s.args[:2]
    if lo is not N.NONE and lo is not N.ZERO:
        return N.is_num(lo) and lo.args[0] > 0 and hi is N.NONE
    if N.is_num(hi):
        return 0 < hi.args[0] <= 10 or hi.args[0] == -1
    return mask_counted(hi) is not None


def mask_counted(n):
    """m where n is the number of elements it chooses"""
    if n.op in ('sum', 'count') and len(n.args) == 1:
        c = n.args[0]
        if N.is_boolish(c):
            return c
        if c.op == 'ite' and c.args[1] is N.ONE and c.args[2] is N.ZERO:
            return c.args[0]
        if c.op == 'ite' and c.args[1] is N.ZERO and c.args[2] is N.ONE:
            return N.NOT(c.args[0])


def first_axis(s):
    if s.op == 'tup' and s.args and all(q.op == 'slice' for q in s.args) and all(q.args[0] is N.NONE and q.args[1] is N.NONE for q in s.args[1:]):
        return s.args[0]
    return s


def nothing_left_out(a, memo):
    """a where the whole of a series is used in place of its first or last part, or those elements a mask chooses in place of as many first ones"""
    def go(x):
        r = memo.get(x)
        if r is None:
            ch = N.children(x)
            nw = [go(c) for c in ch]
            r = x if all(p is q for p, q in zip(ch, nw)) else N.remake(x, nw)
            if x.op == 'at' and strict(first_axis(x.args[1])):
                m = mask_counted(first_axis(x.args[1]).args[1])
                r = go(x.args[0]) if m is None else N.select(go(x.args[0]), go(m))
            memo[x] = r
        return r
    return go(a)


UNORDERED = {'sum', 'sum0', 'mean', 'len', 'smax', 'smin', 'count', 'in', 'any', 'all', 'eq', 'unique'}


def not_sorted(a, memo):
    """a where the elements stay in the order they are in"""
    bare, ordered = set(), set()
    for x in N.walk(a):
        if x.op in UNORDERED or word(x) in ('call:sorted', 'call:set', 'call:frozenset'):
            bare |= set(N.children(x))
        else:
            ordered |= set(N.children(x))
    bare -= ordered             # nothing but the number or the sum of the elements is used

    def go(x):
        r = memo.get(x)
        if r is None:
            ch = N.children(x)
            nw = [go(c) for c in ch]
            r = x if all(p is q for p, q in zip(ch, nw)) else N.remake(x, nw)
            if word(x) in ('call:sorted', 'call:np.sort', 'call:reversed', 'call:np.flip') and x not in bare and ch:
                r = nw[0]
            memo[x] = r
        return r
    return go(a)


def with_repeats(a, memo):
    """a where a sum takes every element, not every value once"""
    def go(x):
        r = memo.get(x)
        if r is None:
            ch = N.children(x)
            if x.op == 'sum' and len(ch) == 1 and word(ch[0]) == 'call:set':
                r = N.asum(go(N.children(ch[0])[0]))
            else:
                nw = [go(c) for c in ch]
                r = x if all(p is q for p, q in zip(ch, nw)) else N.remake(x, nw)
            memo[x] = r
        return r
    return go(a)


WITHOUT = [
    ('equal but for elements of the same value, which a set holds once', with_repeats),
    ('equal but for elements that are left out', nothing_left_out),
    ('equal but for turns of a loop that are left out', lambda a, memo: all_turns(a)),
    ('equal but for the order of the elements', not_sorted),
]


def only_a_part(a, b):
    """a is b but for using only the first (or last) elements of something, where b uses all of it or those chosen by a mask"""
    masks = {x.args[1] for x in N.walk(b) if x.op == 'select'} | {x.args[1] for x in N.walk(b) if x.op == 'store' and x.args[1].op != 'slice'}
    for m in [None] + sorted(masks, key=lambda x: x.id)[:6]:
        memo = {}
        hit = []

        def go(x):
            r = memo.get(x)
            if r is None:
                ch = N.children(x)
                nw = [go(c) for c in ch]
                r = x if all(p is q for p, q in zip(ch, nw)) else N.remake(x, nw)
                if x.op in ('at', 'store'):
                    s = x.args[1]
                    if s.op == 'tup' and all(q.op == 'slice' for q in s.args) and all(q.args[0] is N.NONE and q.args[1] is N.NONE for q in s.args[1:]):
                        s = s.args[0]
                    if strict(s) and (m is None or not N.is_num(s.args[1])):
                        hit.append(x)
                        if x.op == 'at':
                            r = go(x.args[0]) if m is None else N.select(go(x.args[0]), m)
                        elif m is not None:
                            r = mk('store', go(x.args[0]), m, go(x.args[2]))
                memo[x] = r
            return r
        if go(a) is b and hit:
            return True
    return False


def about_same_elements(f, A):
    """a rejection that speaks of an element of a value whose elements the assumptions speak of as one"""
    wholes = {x for c, v in A.order for x in N.walk(c) if x.op in ('at', 'attr')}
    if not wholes:
        return f
    out = [f]
    for far in (False, True):
        m = {}
        for x in N.walk(f):
            y, hit = x, None
            while y.op == 'at' and y.args[1].op in ('bv', 'idx') and (hit is None or far):
                y = y.args[0]
                if y in wholes:
                    hit = y
            if hit is not None:
                m[x] = hit
        if m:
            g = N.subst(f, m)
            if g not in out:
                out.append(g)
    return N.OR(*out)


def opaque(c, _memo={}):
    r = _memo.get(c)
    if r is None:
        r = _memo[c] = any(x.op == 'inv' and contains_ite(x) for x in N.walk(c))
    return r


def drop(n, path):
    """n without the component at path"""
    if not path:
        return N.NONE
    m = re.match(r'\[(\d+)\]|\.([^.\[]+)', path)
    if m is None:
        return n
    rest = path[m.end():]
    if m.group(1) is not None and n.op in ('tup', 'list') and int(m.group(1)) < len(n.args):
        i = int(m.group(1))
        return mk(n.op, *[drop(x, rest) if j == i else x for j, x in enumerate(n.args)])
    if n.op == 'dict':
        return mk('dict', *[(q, drop(x, rest)) if q.op == 'k' and str(q.args[1]) == m.group(2) else (q, x) for q, x in n.args])
    return n


def kwname(z):
    return z.args[0] if isinstance(z, Node) and z.op == 'kw' else None


def word(x):
    if x.op in ('call', 'cut'):
        return x.op + ':' + str(x.args[0])
    return x.op


def vocab_of(nodes):
    v = set()
    seen = set()
    for n in nodes:
        for x in N.walk(n, seen):
            v.add(word(x))
    return v


def frontier(a, b):
    """smallest sub-expressions of a that do not occur in b"""
    sb = set(N.walk(b))
    sa = [x for x in N.walk(a) if x not in sb]
    out = [x for x in sa if all(c in sb for c in N.children(x))]
    out.sort(key=lambda x: sizeof(x))
    return out


def explain(a, b, depth=0):
    """(part of a, part of b) with the shared context stripped off"""
    if depth > 40 or a is b:
        return a, b
    if a.op == 'poly' or b.op == 'poly':
        ta, tb = N.terms(a), N.terms(b)
        ra = {m: c for m, c in ta.items() if tb.get(m) != c}
        rb = {m: c for m, c in tb.items() if ta.get(m) != c}
        if len(ra) == 1 and len(rb) == 1:
            (ma, ca), (mb, cb) = list(ra.items())[0], list(rb.items())[0]
            fa = [z for z in ma if z not in mb]
            fb = [z for z in mb if z not in ma]
            if ca == cb and len(fa) == 1 and len(fb) == 1 and fa[0][1] == fb[0][1]:
                return explain(fa[0][0], fb[0][0], depth + 1)
        return N.from_terms(ra), N.from_terms(rb)
    if a.op == b.op and len(a.args) == len(b.args):
        ca, cb = N.children(a), N.children(b)
        if len(ca) == len(cb):
            d = [(x, y) for x, y in zip(ca, cb) if x is not y]
            if len(d) == 1:
                return explain(d[0][0], d[0][1], depth + 1)
    return a, b
