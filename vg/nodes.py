"""Hash-consed value graph with a ring normal form.

Every value computed by the analysed source is a Node.  Two expressions that the
normal form identifies are the *same object*.  Numeric expressions are kept as
polynomials (exact rational coefficients) over atoms; everything else is an
uninterpreted operation over normalised arguments.
"""
import time
from fractions import Fraction as F

CAP = 1500            # largest product that is multiplied out


class Node:
    __slots__ = ('op', 'args', 'id')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_table = {}
LOCS = {}           # node -> (file, line) where the analysed program first built it
CUR = [None]        # current location, set by the interpreter (None: spec side)


class Timeout(Exception):
    """the expressions grow beyond what the analysis can hold"""


DEADLINE = [float('inf')]
MOST = [float('inf')]       # how many distinct expressions there may be


def mk(op, *args):
    key = (op,) + args
    n = _table.get(key)
    if n is None:
        if not len(_table) & 511 and (len(_table) > MOST[0] or time.time() > DEADLINE[0]):
            DEADLINE[0] = max(DEADLINE[0], time.time()) + 20          # let the caller clear up
            MOST[0] += 200000
            raise Timeout('expressions too large')
        n = Node()
        n.op = op
        n.args = args
        n.id = len(_table)
        _table[key] = n
    if CUR[0] is not None and n not in LOCS:
        LOCS[n] = CUR[0]
    return n


def num(v):
    if isinstance(v, float):
        if v != v:
            return mk('nan')
        if v in (float('inf'), float('-inf')):
            return mk('inf') if v > 0 else neg(mk('inf'))
        v = F(repr(v))
    return mk('num', F(v))


class K:
    """non-numeric constant wrapper (keeps True distinct from 1 in the table)"""
    __slots__ = ()


def k(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float, F)):
        return num(v)
    return mk('k', type(v).__name__, v)


NONE = mk('k', 'NoneType', None)
TRUE = mk('k', 'bool', True)
FALSE = mk('k', 'bool', False)
ZERO = num(0)
ONE = num(1)
BOT = mk('bot')           # value of an expression that fails (raises)
UNB = mk('unbound')


def sym(name, kind='any'):
    return mk('sym', name, kind)


def enum(cls, member, value):
    return mk('enum', cls, member, value)


def is_const(n):
    return n.op in ('num', 'k', 'enum')


def is_cidx(n):
    """a fully constant index: distinct ones address distinct elements"""
    if n.op == 'tup':
        return bool(n.args) and all(a.op == 'num' for a in n.args)
    return is_const(n)


def same_space(i, j):
    return (i.op == 'tup') == (j.op == 'tup') and (i.op != 'tup' or len(i.args) == len(j.args))


def is_num(n):
    return n.op == 'num'


BOOLOPS = {'lt0', 'le0', 'eq0', 'eq', 'not', 'and', 'or', 'in', 'isinst', 'any', 'all'}


def is_boolish(n):
    return n.op in BOOLOPS or n is TRUE or n is FALSE or (n.op == 'sym' and n.args[1] == 'bool')


# ------------------------------------------------------------------ polynomials
def terms(n):
    op = n.op
    if op == 'num':
        return {(): n.args[0]} if n.args[0] else {}
    if op == 'poly':
        return dict(n.args)
    if n is TRUE:
        return {(): F(1)}
    if n is FALSE:
        return {}
    if op in BOOLOPS:
        n = mk('ite', n, ONE, ZERO)
    return {((n, F(1)),): F(1)}


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_terms(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != 'poly':
            return m[0][0]
    return mk('poly', *sorted(d.items(), key=lambda t: mono_key(t[0])))


def absorbing(*ns):
    for n in ns:
        if n is BOT:
            return True
    return False


def add(*ns):
    if absorbing(*ns):
        return BOT
    if len(ns) == 2:
        if ns[0] is ZERO and not is_boolish(ns[1]):
            return ns[1]
        if ns[1] is ZERO and not is_boolish(ns[0]):
            return ns[0]
    d = {}
    for n in ns:
        for m, c in terms(n).items():
            d[m] = d.get(m, 0) + c
    return from_terms(d)


def scale(n, c):
    if n is BOT:
        return BOT
    c = F(c)
    if c == 1 and not is_boolish(n):
        return n
    return from_terms({m: v * c for m, v in terms(n).items()})


def neg(n):
    return scale(n, -1)


def sub(a, b):
    return add(a, neg(b))


def mono_mul(a, b):
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return d


def _finish(d, c):
    """product monomial given as atom->exp dict: may need expansion when a
    polynomial atom ends with a positive integer exponent"""
    simple = []
    extra = []
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == 'poly' and e.denominator == 1 and e > 0:
            extra.append((x, int(e)))
        elif x.op == 'num' and e.denominator == 1:
            c = c * x.args[0] ** int(e)
        else:
            simple.append((x, e))
    simple.sort(key=lambda t: (t[0].id, t[1]))
    return tuple(simple), c, extra


def mul2(a, b):
    if absorbing(a, b):
        return BOT
    if a is ONE and not is_boolish(b):
        return b
    if b is ONE and not is_boolish(a):
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    for x, y in ((a, b), (b, a)):
        if is_num(x) and y.op == 'concat' and all(z.op != 'kw' for z in y.args):
            return mk('concat', *[mk('list', *[mul2(x, w) for w in z.args]) if z.op == 'list' and not any(w.op in ('each', 'guard', 'spread') for w in z.args) else mul2(x, z) for z in y.args])
    ta, tb = terms(a), terms(b)
    if len(ta) * len(tb) > CAP:
        # keep factored; normalise content of each factor
        ca, pa = content(a)
        cb, pb = content(b)
        d = {}
        for x in (pa, pb):
            if x.op == 'poly':
                d[x] = d.get(x, 0) + F(1)
            else:
                for m, c in terms(x).items():
                    ca *= c
                    for y, e in m:
                        d[y] = d.get(y, 0) + e
        m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda t: (t[0].id, t[1])))
        return from_terms({m: ca * cb})
    out = {}
    late = []
    for ma, ca in ta.items():
        for mb, cb in tb.items():
            m, c, extra = _finish(mono_mul(ma, mb), ca * cb)
            if extra:
                p = from_terms({m: c})
                for x, e in extra:
                    for _ in range(e):
                        p = mul2(p, x)
                late.append(p)
            else:
                out[m] = out.get(m, 0) + c
    r = from_terms(out)
    if late:
        r = add(r, *late)
    return r


def mul(*ns):
    r = ONE
    for n in ns:
        r = mul2(r, n)
    return r


def content(n):
    """n = c * p with p having leading coefficient 1 (c may be negative)"""
    t = terms(n)
    if not t:
        return F(1), ZERO
    lead = min((m for m in t if m), key=mono_key, default=())
    c = t[lead]
    return c, from_terms({m: v / c for m, v in t.items()})


def _frac_pow(c, e):
    """c**e for positive rational c if exactly representable"""
    if e.denominator == 1:
        return F(c) ** int(e)
    if c == 1:
        return F(1)
    q = e.denominator
    def root(v):
        r = round(v ** (1.0 / q)) if v < 10 ** 15 else None
        if r is None:
            return None
        for t in (r - 1, r, r + 1):
            if t >= 0 and t ** q == v:
                return t
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is not None and b is not None and b:
        return F(a, b) ** e.numerator
    return None


def power(a, e):
    if absorbing(a, e):
        return BOT
    if not is_num(e):
        if is_num(a) and a.args[0] == 1:
            return ONE
        return mk('pow', a, e)
    ev = e.args[0]
    if ev == 0:
        return ONE
    if ev == 1:
        return add(a, ZERO) if is_boolish(a) else a
    t = terms(a)
    if not t:
        return ZERO if ev > 0 else mk('divzero')
    if len(t) == 1:
        (m, c), = t.items()
        d = {}
        coef = F(1)
        if c > 0:
            r = _frac_pow(c, ev)
            if r is not None:
                coef = r
            else:
                d[num(c)] = d.get(num(c), F(0)) + ev
        elif ev.denominator == 1:
            coef = F(c) ** int(ev)
        else:
            # negative base, fractional exponent: keep opaque
            return mk('pow', a, e)
        for x, xe in m:
            d[x] = d.get(x, F(0)) + xe * ev
        mm_, cc, extra = _finish(d, coef)
        r = from_terms({mm_: cc})
        for x, ee in extra:
            for _ in range(ee):
                r = mul2(r, x)
        return r
    if ev.denominator == 1 and 0 < ev <= 4 and len(t) ** int(ev) <= CAP:
        r = a
        for _ in range(int(ev) - 1):
            r = mul2(r, a)
        return r
    c, p = content(a)
    coef = F(1)
    d = {p: ev}
    if ev.denominator == 1:
        coef = c ** int(ev)
    elif c > 0:
        r = _frac_pow(c, ev)
        if r is None:
            d[num(c)] = ev
        else:
            coef = r
    else:
        r = _frac_pow(-c, ev)
        if r is None:
            d[num(-c)] = ev
        else:
            coef = r
        d = {(q if q.op == 'num' else neg(p)): x for q, x in d.items()}
    m = tuple(sorted(d.items(), key=lambda t: (t[0].id, t[1])))
    return from_terms({m: coef})


def div(a, b):
    return mul2(a, power(b, num(-1)))


# ------------------------------------------------------------------ booleans
def NOT(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return OR(*[NOT(x) for x in c.args])
    if c.op == 'or':
        return AND(*[NOT(x) for x in c.args])
    if c.op == 'ite':
        return ite(c.args[0], NOT(c.args[1]), NOT(c.args[2]))
    if c is BOT:
        return BOT
    return mk('not', c)


def _nary(op, unit, zero, cs):
    out = []
    seen = set()
    for c in cs:
        for x in (c.args if c.op == op else (c,)):
            if x is unit:
                continue
            if x is zero:
                return zero
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if NOT(x) in seen:
            return zero
    # absorption: and(x, or(x,y)) = x ; and(x, or(not x, y)) = and(x, y)
    dual = 'or' if op == 'and' else 'and'
    for x in out:
        if x.op == dual:
            rest = [y for y in x.args if NOT(y) not in seen]
            if any(y in seen for y in x.args):
                return _nary(op, unit, zero, [y for y in out if y is not x])
            if len(rest) < len(x.args):
                repl = (AND if dual == 'and' else OR)(*rest)
                return _nary(op, unit, zero, [repl if y is x else y for y in out])
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort()
    return mk(op, *out)


def AND(*cs):
    return _nary('and', TRUE, FALSE, cs)


def OR(*cs):
    return _nary('or', FALSE, TRUE, cs)


def _ite_push(n, f):
    """apply f to constant leaves of an ite whose leaves are all constants"""
    return ite(n.args[0], f(n.args[1]), f(n.args[2]))


def _const_leaves(n, d=0):
    if d > 12:
        return False
    if n.op == 'ite':
        return _const_leaves(n.args[1], d + 1) and _const_leaves(n.args[2], d + 1)
    return is_const(n) or n is BOT


ALT = set()           # symbols that stand for an altitude: an angle between -pi/2 and pi/2


def altitude(q):
    """the sine of an altitude has the sign of the altitude"""
    return q.args[0] if q.op == 'sin' and q.args[0] in ALT else q


def lt0(p):
    if p is BOT:
        return BOT
    if is_num(p):
        return TRUE if p.args[0] < 0 else FALSE
    if p.op == 'ite' and _const_leaves(p):
        return _ite_push(p, lt0)
    c, q = content(p)
    q = altitude(q)
    if c > 0:
        return mk('lt0', q)
    return NOT(mk('le0', q))


def le0(p):
    if p is BOT:
        return BOT
    if is_num(p):
        return TRUE if p.args[0] <= 0 else FALSE
    if p.op == 'ite' and _const_leaves(p):
        return _ite_push(p, le0)
    c, q = content(p)
    q = altitude(q)
    if c > 0:
        return mk('le0', q)
    return NOT(mk('lt0', q))


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def numeric_like(n):
    return n.op in ('num', 'poly') or n is TRUE or n is FALSE


def const_key(z):
    return is_const(z) or (z.op == 'tup' and all(const_key(x) for x in z.args))


PRESENT = set()     # keys of records under which there is always a value, never null



def always_there(a):
    while a.op == 'at':
        if a.args[1].op == 'k':
            return a.args[1].args[1] in PRESENT
        if a.args[1].op not in IDX:
            return False
        a = a.args[0]
    return False


def eq(a, b):
    if absorbing(a, b):
        return BOT
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == 'enum' and b.op != 'enum':
            return FALSE if not is_num(a.args[2]) else eq(a.args[2], b)
        if b.op == 'enum' and a.op != 'enum':
            return eq(b, a)
        na = {TRUE: ONE, FALSE: ZERO}.get(a, a)
        nb = {TRUE: ONE, FALSE: ZERO}.get(b, b)
        return TRUE if na is nb else FALSE
    if is_const(a):
        a, b = b, a
    if a.op == 'ite' and is_const(b) and _const_leaves(a):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if a.op == 'ite' and is_const(b) and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if is_const(b) and b.op in ('k', 'enum'):
        if b is TRUE:
            return a if is_boolish(a) else mk('eq', a, b)
        if b is FALSE:
            return NOT(a) if is_boolish(a) else mk('eq', a, b)
        if b is NONE and a.op in ('poly', 'list', 'dict', 'inst', 'cat', 'tup') or (b is NONE and is_boolish(a)):
            return FALSE
        if b is NONE and PRESENT and always_there(a):
            return FALSE
        if a.op == 'enumof' and b.op == 'enum':
            return eq(a.args[1], b.args[2])
        if a.op in ('poly',) and b.op in ('k', 'enum'):
            return FALSE
        return mk('eq', a, b)
    if a.op == 'enumof' and b.op == 'enumof' and a.args[0] == b.args[0]:
        return eq(a.args[1], b.args[1])
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        return AND(*[eq(x, y) for x, y in zip(a.args, b.args)])
    p = sub(a, b)
    if is_num(p):
        return TRUE if p.args[0] == 0 else FALSE
    if p.op == 'poly' and len(p.args) == 2:
        (m1, c1), (m2, c2) = p.args
        if c1 == -c2 and len(m1) == 1 == len(m2) and m1[0][1] == 1 == m2[0][1]:
            x, y = m1[0][0], m2[0][0]
            if (x.op in ('k', 'enum') or y.op in ('k', 'enum')):
                return eq(x, y)
    return mk('eq0', altitude(content(p)[1]))


# ------------------------------------------------------------------ selection
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite' :
        if is_boolish(c.args[1]) and is_boolish(c.args[2]):
            c2 = c
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if is_boolish(a) and b is FALSE:
        return AND(c, a)
    if is_boolish(b) and a is TRUE:
        return OR(c, b)
    if is_boolish(a) and b is TRUE:
        return OR(NOT(c), a)
    if is_boolish(b) and a is FALSE:
        return AND(NOT(c), b)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    # max/min recognition
    if c.op in ('lt0', 'le0') and not is_boolish(a) and not is_boolish(b) \
            and a.op not in ('k', 'enum', 'bot') and b.op not in ('k', 'enum', 'bot'):
        d = sub(a, b)
        if not is_num(d):
            cc, q = content(d)
            if q is c.args[0]:
                # c: q<0 (or <=0);  a-b = cc*q
                if cc > 0:      # a<b -> a : min
                    return vmin(a, b)
                return vmax(a, b)
    # ite(a==b, a, b) = b
    if c.op == 'eq0':
        cc, q = content(sub(a, b)) if not (is_boolish(a) or is_boolish(b) or a.op in ('k', 'enum', 'bot') or b.op in ('k', 'enum', 'bot')) else (0, None)
        if q is c.args[0]:
            return b
    if c.op in ('and', 'or') and len(c.args) > 6:
        pass
    return mk('ite', c, a, b)


def vmax(*ns):
    if absorbing(*ns):
        return BOT
    flat = []
    cst = None
    for n in ns:
        for x in (n.args if n.op == 'max' else (n,)):
            if is_num(x):
                cst = x.args[0] if cst is None else max(cst, x.args[0])
            elif x not in flat:
                flat.append(x)
    if not flat:
        return num(cst)
    if len(flat) == 1 and cst is None:
        return flat[0]
    # drop arguments that differ from another only by a constant
    keep = []
    for x in flat:
        dominated = False
        for y in flat:
            if y is not x:
                d = sub(x, y)
                if is_num(d) and d.args[0] < 0:
                    dominated = True
        if not dominated:
            keep.append(x)
    flat = keep
    # clip canonical form: max(lo, -max(-x,-hi)) -> -max(-max(x,lo),-hi) when lo<=hi
    if len(flat) == 1 and cst is not None:
        x = flat[0]
        t = terms(x)
        if len(t) == 1:
            (m, c), = t.items()
            if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'max':
                inner = [scale(z, c) for z in m[0][0].args]   # x = min(inner)
                cs = [z for z in inner if is_num(z)]
                if len(cs) == 1 and len(inner) == 2:
                    hi = cs[0].args[0]
                    if cst >= hi:
                        return num(cst)
                    xx = [z for z in inner if not is_num(z)][0]
                    if content(xx)[0] > 0:
                        return neg(vmax(neg(vmax(xx, num(cst))), num(-hi)))
        # redundant: max(c, max(..)) handled by flattening
    if len(flat) == 1 and cst is None:
        return flat[0]
    # common positive scale
    s = None
    first = sorted(flat)[0]
    c, _ = content(first)
    s = abs(c)
    args = [scale(x, 1 / s) for x in flat]
    if cst is not None:
        args.append(num(cst / s))
    args.sort()
    r = mk('max', *args)
    return scale(r, s) if s != 1 else r


def vmin(*ns):
    return neg(vmax(*[neg(n) for n in ns]))


def vabs(x):
    if x is BOT:
        return BOT
    if is_num(x):
        return num(abs(x.args[0]))
    t = terms(x)
    if len(t) == 1:
        (m, c), = t.items()
        if all(a.op in ('abs', 'len') or e.denominator == 1 and e % 2 == 0 for a, e in m):
            return scale(from_terms({m: F(1)}), abs(c))
    c, p = content(x)
    return scale(mk('abs', p), abs(c))


# ------------------------------------------------------------------ functions
PI = mk('pi')
ODD = {'sin', 'tan', 'arcsin', 'arctan', 'sinh', 'tanh', 'sign', 'cbrt', 'erf'}
EVEN = {'cos', 'cosh'}
UN_ZERO = {'sin': ZERO, 'tan': ZERO, 'arcsin': ZERO, 'arctan': ZERO, 'sinh': ZERO, 'tanh': ZERO,
           'cos': ONE, 'cosh': ONE, 'sign': ZERO}


def func(name, x):
    if x is BOT:
        return BOT
    if name == 'exp':
        t = terms(x)
        r = ONE
        for m, c in t.items():
            base = mk('exp', from_terms({m: F(1)}))
            r = mul2(r, power(base, num(c)))
        return r
    if name == 'log':
        t = terms(x)
        if len(t) == 1:
            (m, c), = t.items()
            if c > 0:
                parts = [scale(mk('log', a), e) for a, e in m]
                if c != 1:
                    parts.append(mk('log', num(c)))
                return add(*parts) if parts else ZERO
        return mk('log', x)
    if x is ZERO and name in UN_ZERO:
        return UN_ZERO[name]
    if (name, x.op) in (('cos', 'arccos'), ('sin', 'arcsin'), ('tan', 'arctan')):
        return x.args[0]
    if name in ODD or name in EVEN:
        t = terms(x)
        if t:
            lead = t[min(t, key=mono_key)]
            if lead < 0:
                r = func(name, neg(x))
                return neg(r) if name in ODD else r
    if name in ('floor', 'ceil', 'int', 'round') and is_num(x):
        import math
        v = x.args[0]
        if name == 'floor':
            return num(math.floor(v))
        if name == 'ceil':
            return num(math.ceil(v))
        if name == 'int':
            return num(int(v))
        return num(round(v))
    if name == 'ceil':                     # ceil(x) = -floor(-x)
        return neg(func('floor', neg(x)))
    if name == 'int' and x.op in ('int', 'floor', 'len', 'idx'):
        return x
    if name == 'floor' and x.op in ('floor', 'int', 'len', 'idx'):
        return x
    return mk(name, x)


# ------------------------------------------------------------------ arrays / records
IDX = ('idx', 'iota')


REALOPS = {'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sinh', 'cosh', 'tanh', 'pow', 'mm', 'inv', 'pi', 'mean', 'interp'}


COUNTED = {'id', 'ids', 'idx', 'index', 'indices', 'no', 'n', 'count', 'num', 'number', 'step', 'region', 'year', 'month', 'day', 'hour', 'week', 'flag', 'is',
           'mask', 'mode', 'type', 'kind', 'i', 'j', 'k', 'ix', 'key', 'group', 'idxs', 'gp', 'space', 'room', 'people', 'person', 'bdry', 'boundary', 'h', 'has', 'exists'}


def wholeness(n, _d=0):
    """'int' if n is a whole number, 'real' if it evidently need not be one, None if nothing is known"""
    if n.op == 'num':
        return 'int' if n.args[0].denominator == 1 else 'real'
    if n.op in ('idx', 'iota', 'len', 'int', 'floor', 'count', 'argmax', 'argmin', 'k', 'enum') or is_boolish(n):
        return 'int'
    if n.op == 'sym' and n.args[1] in ('int', 'str', 'bool', 'any', 'mask'):
        return 'int' if n.args[1] == 'int' else None
    if n.op in ('sym', 'attr', 'attr_s', 'at'):
        # a quantity read from somewhere: real unless it is a number of things or of a thing
        x = n
        while x.op == 'at' and (index_like(x.args[1]) or x.args[1].op == 'tup'):
            x = x.args[0]
        nm = x.args[0] if x.op == 'sym' else x.args[1]
        if isinstance(nm, Node):
            nm = nm.args[1] if nm.op == 'k' else None
        if not isinstance(nm, str):
            return None
        return None if set(nm.lower().strip('_').split('_')) & COUNTED else 'real'
    if n.op in REALOPS:
        return 'real'
    if n.op in ('select', 'T', 'store') and isinstance(n.args[0], Node):
        return wholeness(n.args[-1] if n.op == 'store' else n.args[0], _d + 1)
    if n.op == 'cut':
        nm = str(n.args[0]).split(':')[-1].lower()
        return None if set(nm.strip('_').split('_')) & COUNTED - {'is', 'i', 'n', 'h'} else 'real'
    if _d > 12:
        return None
    if n.op == 'poly':
        out = 'int'
        for m, c in n.args:
            if c.denominator != 1 or any(not isinstance(e, int) and getattr(e, 'denominator', 1) != 1 or e < 0 for _, e in m):
                return 'real'
            for a, _ in m:
                w = wholeness(a, _d + 1)
                if w == 'real':
                    return 'real'
                if w is None:
                    out = None
        return out
    if n.op in ('max', 'min', 'abs', 'sum', 'isum', 'ite'):
        ws = [wholeness(a, _d + 1) for a in (n.args[1:] if n.op == 'ite' else n.args) if isinstance(a, Node)]
        return 'real' if 'real' in ws else None if None in ws else 'int'
    return None


def index_like(n):
    return n.op in IDX or is_num(n)


def idx(depth, dom=None):
    return mk('idx', depth) if dom is None else mk('idx', depth, dom)


IOTA = mk('iota')


def at(x, i):
    if i.op == 'nonzero':
        return select(x, i.args[0])
    if absorbing(x, i):
        return BOT
    if x.op in ('num',):
        return x
    if i is IOTA:
        return x
    if x.op == 'select' and i.op == 'k' and isinstance(i.args[1], str):
        return select(at(x.args[0], i), x.args[1])
    if x.op == 'ite' and (x.args[1].op in ('dict', 'list', 'tup', 'num') or x.args[2].op in ('dict', 'list', 'tup', 'num')) and \
            not (i.op == 'idx' and array_like(x) and not is_scalar(x.args[0])):
        return ite(x.args[0], at(x.args[1], i), at(x.args[2], i))
    if x.op in ('list', 'tup') and is_num(i) and i.args[0].denominator == 1:
        j = int(i.args[0])
        if -len(x.args) <= j < len(x.args):
            return x.args[j]
        return BOT
    if x.op == 'list' and i.op == 'k' and isinstance(i.args[1], str):
        return mk('list', *[field(y, i) for y in x.args])
    if x.op == 'dict' and is_const(i):
        for kk, v in x.args:
            if kk is i:
                return v
        if x.args and all(is_const(kk) for kk, _ in x.args):
            return BOT
    if x.op == 'store':
        b, j, v = x.args
        if j is i:
            return v
        if is_cidx(i) and is_cidx(j) and same_space(i, j):
            return at(b, i)
        if not is_boolish(j) and is_const(j) != is_const(i) and (i.op == 'k') != (j.op == 'k'):
            pass
    if i.op == 'k' and x.op == 'at' and index_like(x.args[1]):
        return at(at(x.args[0], i), x.args[1])
    if index_like(i) and x.op == 'poly':
        ts = terms(x)
        if all(is_col(a) or is_scalar(a) for m in ts for a, _ in m):
            return rebuild_poly(x, lambda a: at(a, i) if is_col(a) else a)
    return mk('at', x, i)


def field(y, i):
    """one field of an entry of a list of records"""
    if y.op == 'each':
        return mk('each', y.args[0], y.args[1], *[field(z, i) for z in y.args[2:]])
    if y.op == 'guard':
        return mk('guard', y.args[0], *[field(z, i) for z in y.args[1:]])
    return at(y, i)


def present(n, memo=None):
    """condition under which no part of the value is missing"""
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    if n is BOT:
        r = FALSE
    elif n.op == 'ite':
        r = AND(present(n.args[0], memo), ite(n.args[0], present(n.args[1], memo), present(n.args[2], memo)))
    else:
        kids = []

        def take(a):
            if isinstance(a, Node):
                kids.append(a)
            elif isinstance(a, tuple):
                for z in a:
                    take(z)
        for a in n.args:
            take(a)
        r = AND(*[present(a, memo) for a in kids]) if kids else TRUE
        if n.op == 'each' and r is not TRUE:
            r = mk('all', n.args[0], r)
    memo[n] = r
    return r


def rebuild_poly(x, f):
    r = ZERO
    for m, c in terms(x).items():
        t = num(c)
        for a, e in m:
            t = mul2(t, power(f(a), num(e)))
        r = add(r, t)
    return r


COLS = set()      # values known to have one entry per turn of a loop


def note_columns(body, ix):
    for x in walk(body):
        if x.op == 'at' and x.args[1] is ix:
            COLS.add(x.args[0])


def is_col(n):
    """one field of every record of a list of records (parameters declared 'rows')"""
    while n.op == 'at' and n.args[1].op == 'k':
        n = n.args[0]
        if n.op == 'sym' and n.args[1] == 'rows':
            return True
    return False


def is_mask(i):
    return is_boolish(i) or (i.op == 'ite' and is_mask(i.args[1]) and is_mask(i.args[2]))


def array_like(n, _d=0):
    """leaves of a choice are numbers or numeric expressions, not collections"""
    if n.op == 'ite':
        return array_like(n.args[1]) and array_like(n.args[2])
    return n.op in ('num', 'poly', 'max', 'abs', 'exp', 'log', 'bot', 'enum', 'cut', 'cos', 'sin') or (n.op in ('sym', 'at', 'attr') and (n.op != 'sym' or n.args[1] in ('arr', 'mat')))


def attr(x, name):
    if x is BOT:
        return BOT
    if x.op == 'at' and index_like(x.args[1]):
        return at(attr(x.args[0], name), x.args[1])
    if x.op == 'select' and name not in ('size', 'shape', 'T', 'ndim', 'dtype'):
        return select(attr(x.args[0], name), x.args[1])
    if x.op == 'enum':
        if name == 'value':
            return x.args[2]
        if name == 'name':
            return k(x.args[1])
    if x.op == 'ite' and _const_leaves(x):
        return _ite_push(x, lambda n: attr(n, name))
    if x.op == 'enumof' and name == 'value':
        return x.args[1]
    return mk('attr', x, name)


def store(x, i, v):
    if i.op == 'nonzero':
        i = i.args[0]
    if is_mask(i):
        return ite(i, strip_select(v, i), x)
    if x.op == 'store' and x.args[1] is i:
        return store(x.args[0], i, v)
    if x.op == 'store' and is_cidx(i) and is_cidx(x.args[1]) and same_space(i, x.args[1]) and i < x.args[1]:
        # canonical order of disjoint constant stores
        return mk('store', store(x.args[0], i, v), x.args[1], x.args[2])
    return mk('store', x, i, v)


def select(x, m):
    if is_num(x):
        return x
    return mk('select', x, m)


ELEMENT_BY_ELEMENT = {
    'poly', 'ite', 'lt0', 'le0', 'eq0', 'eq', 'not', 'and', 'or', 'max', 'abs', 'exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan',
    'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'int', 'round', 'sign', 'pow', 'arctan2', 'copysign', 'select', 'in', 'enumof', 'trunc', 'f32'}


def strip_select(v, m):
    """what the elements chosen by m are, told as elements of the whole"""
    def rule(n):
        if n.op == 'select' and n.args[1] is m:
            return strip_select(n.args[0], m)
        if n.op in ELEMENT_BY_ELEMENT:
            return None
        if n.op == 'at' and n.args[1].op == 'tup' and n.args[1].args[0].op == 'slice' and all(y is NONE for y in n.args[1].args[0].args):
            return None
        return n
    return rebuild(v, rule)


SCALAR_OPS = {'len', 'sum', 'pi', 'count', 'num', 'smax', 'smin', 'mean', 'attr_s'}


def is_scalar(n, _d=0):
    if n.op in SCALAR_OPS:
        return True
    if n.op == 'sym':
        return n.args[1] in ('scalar', 'str', 'int')
    if _d > 25:
        return False
    if n.op == 'poly':
        return all(is_scalar(a, _d + 1) for m, _ in n.args for a, _e in m)
    if n.op in ('exp', 'log', 'sin', 'cos', 'tan', 'abs', 'floor', 'max', 'int', 'arcsin', 'arctan', 'sinh', 'cosh', 'lt0', 'le0', 'eq0', 'not', 'and', 'or', 'ite', 'pow', 'round'):
        return all(is_scalar(a, _d + 1) for a in n.args if isinstance(a, Node))
    if n.op in ('k', 'enum'):
        return True
    if n.op == 'eq':
        return not any(a.op == 'cut' or (a.op == 'sym' and a.args[1] in ('arr', 'mat')) for a in n.args)
    return False


def _split_scalar(n):
    """n as list of (scalar factor node, rest node or None)"""
    out = []
    for m, c in terms(n).items():
        s = [(a, e) for a, e in m if is_scalar(a)]
        r = [(a, e) for a, e in m if not is_scalar(a)]
        out.append((from_terms({tuple(s): c}), from_terms({tuple(r): F(1)}) if r else None))
    return out


def transpose(x):
    if x is BOT:
        return BOT
    if is_scalar(x):
        return x
    if x.op == 'T':
        return x.args[0]
    if x.op in ('lt0', 'le0', 'eq0', 'eq', 'not', 'and', 'or'):
        return transpose_c(x)
    if x.op == 'poly':
        r = ZERO
        for m, c in x.args:
            p = num(c)
            for a, e in m:
                p = mul2(p, power(transpose(a), num(e)))
            r = add(r, p)
        return r
    if x.op == 'mm':
        return mm(*[transpose(a) for a in reversed(x.args)])
    if x.op in ('diag', 'eye'):
        return x
    if x.op == 'sym' and x.args[1] == 'sym_mat':
        return x
    if x.op == 'ite':
        return mk('ite', transpose_c(x.args[0]), transpose(x.args[1]), transpose(x.args[2]))
    return mk('T', x)


def transpose_c(c):
    if is_scalar(c):
        return c
    if c.op in ('lt0', 'le0', 'eq0'):
        return {'lt0': lt0, 'le0': le0, 'eq0': lambda p: eq(p, ZERO)}[c.op](transpose(c.args[0]))
    if c.op == 'eq':
        return eq(*[x if is_const(x) else transpose(x) for x in c.args])
    if c.op == 'not':
        return NOT(transpose_c(c.args[0]))
    if c.op in ('and', 'or'):
        return (AND if c.op == 'and' else OR)(*[transpose_c(x) for x in c.args])
    return transpose(c)


EYE = mk('eye')


def mm(*fs):
    """matrix product; linear in each factor"""
    if absorbing(*fs):
        return BOT
    flat = []
    for f in fs:
        if f.op == 'mm':
            flat.extend(f.args)
        else:
            flat.append(f)
    for i, f in enumerate(flat):
        if f is ZERO:
            return ZERO
        need = f.op == 'poly' and (len(f.args) > 1 or f.args[0][1] != 1 or any(is_scalar(a) for a, _ in f.args[0][0]))
        if f.op == 'poly' and len(f.args) > 1 and len(flat) > 1 and len(f.args) > 40:
            need = False
        if need:
            r = ZERO
            for s, rest in _split_scalar(f):
                if rest is None:
                    rest = mk('ones')
                r = add(r, mul2(s, mm(*(flat[:i] + [rest] + flat[i + 1:]))))
            return r
    # row scaling pulls out of the leftmost factor
    if flat[0].op == 'diag' and len(flat) > 1:
        return mul2(flat[0].args[0], mm(*flat[1:]))
    flat2 = [f for f in flat if f is not EYE]
    if len(flat2) < len(flat):
        return mm(*flat2) if flat2 else EYE
    for i in range(1, len(flat)):
        if flat[i].op == 'diag':
            if i + 1 < len(flat):
                new = mul2(flat[i].args[0], flat[i + 1])
                return mm(*(flat[:i] + [new] + flat[i + 2:]))
            new = mul2(flat[i - 1], transpose(flat[i].args[0]))
            return mm(*(flat[:i - 1] + [new]))
        if flat[i].op == 'inv' and flat[i].args[0] is flat[i - 1]:
            return mm(*(flat[:i - 1] + flat[i + 1:])) if len(flat) > 2 else EYE
    if len(flat) == 1:
        return flat[0]
    return mk('mm', *flat)


def diag(x):
    if is_scalar(x):
        return mul2(x, EYE)
    if x.op == 'diag':
        return x.args[0]
    if x.op == 'poly' and len(x.args) <= 40 and not any(a.op == 'eye' for m, _ in x.args for a, _ in m):
        # linear: diagonal of a sum, matrix of a sum
        ds = [any(a.op == 'diag' for a, _ in m) for m, _ in x.args]
        if not any(ds) or all(ds):
            r = ZERO
            for s, rest in _split_scalar(x):
                r = add(r, mul2(s, EYE if rest is None else rest.args[0] if rest.op == 'diag' else mk('diag', rest)))
            return r
    return mk('diag', x)


def inv(x):
    if x.op == 'inv':
        return x.args[0]
    c, p = content(x)
    return scale(mk('inv', p), 1 / c)


def asum(x, axis=None):
    """np.sum; linear"""
    name = 'sum' if axis is None else 'sum%s' % axis
    if x is BOT:
        return BOT
    out = ZERO
    for s, rest in _split_scalar(x):
        if rest is None:
            rest = mk('ones')
        if name == 'sum' and rest.op in ('filt', 'select'):
            c, v = rest.args if rest.op == 'filt' else rest.args[1::-1]
            out = add(out, mul2(s, asum(ite(c, v, ZERO))))
            continue
        if name == 'sum' and rest.op in ('concat', 'list') and rest.args and not any(a.op == 'kw' for a in rest.args):
            if rest.op == 'concat':
                for a in rest.args:
                    out = add(out, mul2(s, asum(a)))
                continue
            t = total(rest.args)
            if t is not None:
                out = add(out, mul2(s, t))
                continue
        if name == 'sum1':
            # sum_j A[i,j] * x[j]  ==  A @ x   for a column vector x given as T(x)
            t = terms(rest)
            (m, c), = t.items()
            rows = [(a, e) for a, e in m if a.op == 'T' and a.args[0].op == 'sym' and a.args[0].args[1] == 'vec']
            if rows and len(rows) < len(m):
                others = from_terms({tuple((a, e) for a, e in m if (a, e) not in rows): F(1)})
                v = ONE
                for a, e in rows:
                    v = mul2(v, power(a.args[0], num(e)))
                out = add(out, mul2(s, mm(others, v)))
                continue
        out = add(out, mul2(s, mk(name, rest)))
    return out


def total(elts):
    """sum of the elements of a list; None where they are not numbers one by one"""
    t = ZERO
    for y in elts:
        if y.op == 'each':
            r = total(y.args[2:])
            r = None if r is None else isum(y.args[0], r, y.args[1])
        elif y.op == 'guard':
            r = total(y.args[1:])
            r = None if r is None else ite(y.args[0], r, ZERO)
        elif y.op == 'spread':
            r = asum(y.args[0])
        elif y.op == 'list':
            r = None
        else:
            r = y
        if r is None:
            return None
        t = add(t, r)
    return t


def isum(dom, body, bound):
    """sum over a comprehension: body depends on the bound index"""
    if body is BOT:
        return BOT
    out = ZERO
    for m, c in terms(body).items():
        free = tuple((a, e) for a, e in m if not mentions(a, bound))
        dep = tuple((a, e) for a, e in m if mentions(a, bound))
        s = from_terms({free: c})
        if dep:
            r = subst(from_terms({dep: F(1)}), {bound: iota_of(bound)})
            out = add(out, mul2(s, mk('sum', r)))
        else:
            out = add(out, mul2(s, dom))
    return out


def iota_of(i):
    return IOTA if len(i.args) == 1 else mk('iota', i.args[1])


def cat(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == 'cat' else (p,)):
            if out and q.op == 'k' and out[-1].op == 'k':
                out[-1] = k(out[-1].args[1] + q.args[1])
            elif q.op == 'k' and q.args[1] == '':
                continue
            else:
                out.append(q)
    if not out:
        return k('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


# ------------------------------------------------------------------ traversal
_mention_memo = {}


def mentions(n, x):
    key = (n, x)
    r = _mention_memo.get(key)
    if r is None:
        r = n is x or any(mentions(y, x) for y in children(n))
        _mention_memo[key] = r
    return r


def children(n):
    if n.op == 'poly':
        return [a for m, _ in n.args for a, _e in m]
    if n.op == 'dict':
        return [y for kv in n.args for y in kv]
    out = []
    for a in n.args:
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, tuple):
            out.extend(y for y in a if isinstance(y, Node))
    return out


def walk(n, seen=None):
    seen = set() if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def mklist(*items):
    out = []
    for x in items:
        if x.op == 'guard':
            if x.args[0] is TRUE:
                out.extend(mklist(*x.args[1:]).args)
                continue
            if x.args[0] is FALSE:
                continue
        if x.op == 'each':
            inner = mklist(*x.args[2:]).args
            if not inner:
                continue
            x = mk('each', x.args[0], x.args[1], *inner)
        if x.op == 'spread' and x.args[0].op == 'list':
            out.extend(x.args[0].args)
            continue
        out.append(x)
    return mk('list', *out)


def filt(c, x):
    if c is TRUE:
        return x
    if c is FALSE:
        return mk('list')
    return mk('filt', c, x)


CONS = {
    'list': mklist, 'filt': filt,
    'not': NOT, 'and': AND, 'or': OR, 'lt0': lt0, 'le0': le0, 'eq': eq,
    'eq0': lambda p: eq(p, ZERO), 'ite': ite, 'max': vmax, 'abs': vabs,
    'rows': lambda x: ZERO if x is ZERO else mk('rows', x),
    'at': at, 'attr': attr, 'store': store, 'select': select, 'T': transpose,
    'mm': mm, 'diag': diag, 'inv': inv, 'cat': cat, 'pow': power,
    'sum': lambda x: asum(x), 'sum0': lambda x: asum(x, 0), 'sum1': lambda x: asum(x, 1),
}
for _f in ('exp', 'log', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
           'sign', 'floor', 'ceil', 'int', 'round'):
    CONS[_f] = (lambda nm: lambda x, *r: func(nm, x) if not r else mk(nm, x, *r))(_f)


def has_trig(n, _memo={}):
    r = _memo.get(n)
    if r is None:
        r = _memo[n] = n.op in ('sin', 'cos') or any(has_trig(c) for c in children(n))
    return r


def trig(n, _memo={}):
    """sines and cosines of sums written out, squares of cosines as squares of sines"""
    r = _memo.get(n)
    if r is not None:
        return r
    ch = children(n)
    new = [trig(c) for c in ch]
    r = n if all(x is y for x, y in zip(ch, new)) else remake(n, new)
    if r.op in ('sin', 'cos'):
        t = [from_terms({m: c}) for m, c in sorted(terms(r.args[0]).items(), key=lambda z: mono_key(z[0]))]
        if 2 <= len(t) <= 4:
            s, c = func('sin', t[0]), func('cos', t[0])
            for x in t[1:]:
                sx, cx = func('sin', x), func('cos', x)
                s, c = add(mul2(s, cx), mul2(c, sx)), sub(mul2(c, cx), mul2(s, sx))
            r = s if r.op == 'sin' else c
    if r.op == 'poly':
        acc = []
        for m, c in r.args:
            p = num(c)
            for a, e in m:
                if a.op == 'cos' and e.denominator == 1 and e >= 2:
                    h = sub(ONE, power(func('sin', a.args[0]), num(2)))
                    p = mul2(p, power(h, num(int(e) // 2)))
                    if int(e) % 2:
                        p = mul2(p, a)
                else:
                    p = mul2(p, power(a, num(e)))
            acc.append(p)
        r = add(*acc)
    _memo[n] = r
    return r


def remake(n, new):
    """rebuild n with children list new (same order as children(n))"""
    op = n.op
    if op == 'poly':
        r = ZERO
        it = iter(new)
        acc = []
        for m, c in n.args:
            p = num(c)
            for a, e in m:
                p = mul2(p, power(next(it), num(e)))
            acc.append(p)
        return add(*acc) if acc else ZERO
    if op == 'dict':
        it = iter(new)
        return mk('dict', *[(next(it), next(it)) for _ in n.args])
    it = iter(new)
    args = []
    for a in n.args:
        if isinstance(a, Node):
            args.append(next(it))
        elif isinstance(a, tuple):
            args.append(tuple(next(it) if isinstance(y, Node) else y for y in a))
        else:
            args.append(a)
    f = CONS.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def rebuild(n, rule, memo=None):
    """bottom-up rewriting; rule(node) returns a replacement or None"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = rule(x)
        if r is None:
            ch = children(x)
            if not ch:
                r = x
            else:
                nw = [go(c) for c in ch]
                r = x if all(p is q for p, q in zip(ch, nw)) else remake(x, nw)
        memo[x] = r
        return r
    return go(n)


def subst(n, mapping, memo=None):
    if not mapping:
        return n
    return rebuild(n, lambda x: mapping.get(x), memo)


# ------------------------------------------------------------------ printing
def show(n, d=0, lim=6):
    if d > lim:
        return '…'
    op = n.op
    a = n.args
    if op == 'num':
        v = a[0]
        return str(v.numerator) if v.denominator == 1 else ('%.10g' % float(v))
    if op == 'k':
        return repr(a[1])
    if op == 'enum':
        return '%s.%s' % (a[0].split(':')[-1], a[1])
    if op == 'sym':
        return a[0]
    if op == 'poly':
        ts = []
        for m, c in a[:8]:
            fs = []
            if c != 1 or not m:
                fs.append(show(num(c)))
            for x, e in m:
                s = show(x, d + 1, lim)
                if x.op == 'poly':
                    s = '(' + s + ')'
                if e != 1:
                    s += '^%s' % e
                fs.append(s)
            ts.append('*'.join(fs))
        if len(a) > 8:
            ts.append('… %d more terms' % (len(a) - 8))
        return ' + '.join(ts)
    if op == 'attr':
        return show(a[0], d + 1, lim) + '.' + str(a[1])
    if op == 'at':
        return show(a[0], d + 1, lim) + '[' + show(a[1], d + 1, lim) + ']'
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d + 1, lim) for x in a)
    if op == 'idx':
        return 'i%s' % a[0]
    if op == 'lt0':
        return show(a[0], d + 1, lim) + ' < 0'
    if op == 'le0':
        return show(a[0], d + 1, lim) + ' <= 0'
    if op == 'eq0':
        return show(a[0], d + 1, lim) + ' == 0'
    if op == 'eq':
        return '%s == %s' % (show(a[0], d + 1, lim), show(a[1], d + 1, lim))
    if op == 'bot':
        return 'FAILS'
    parts = []
    for x in a[:10]:
        if isinstance(x, Node):
            parts.append(show(x, d + 1, lim))
        elif isinstance(x, tuple):
            parts.append('(' + ', '.join(show(y, d + 1, lim) if isinstance(y, Node) else str(y) for y in x) + ')')
        else:
            parts.append(str(x))
    return '%s(%s)' % (op, ', '.join(parts))
