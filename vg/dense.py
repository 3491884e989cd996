"""Arrays of a known shape, element by element.

Used by the obligations that ask for it (`_explicit=True`): the array is then a
node `xa` that carries its shape and its elements in row order, and the numpy
operations on it are carried out on the elements.  An operation that is not known
here falls back to the symbolic treatment of the whole array, which leaves the
comparison undecided.
"""
from . import nodes as N
from .nodes import Node, NONE, ZERO, ONE, mk, num


def make(shape, elems):
    if not shape:
        return elems[0]
    return mk('xa', 'x'.join(map(str, shape)), *elems)


def shape(x):
    if isinstance(x, Node) and x.op == 'xa':
        return tuple(int(d) for d in x.args[0].split('x'))
    return ()


def elems(x):
    return x.args[1:] if x.op == 'xa' else (x,)


def is_xa(x):
    return isinstance(x, Node) and x.op == 'xa'


def scalar(x):
    return isinstance(x, Node) and (x.op in ('num', 'poly') or N.is_scalar(x))


def size(sh):
    n = 1
    for d in sh:
        n *= d
    return n


def of(ip, v):
    """an explicit array from a value, or None"""
    from . import interp as I
    if isinstance(v, Node):
        if v.op == 'xa' or scalar(v):
            return v
        if v.op in ('list', 'tup'):
            return stack([of(ip, x) for x in v.args])
        return None
    if isinstance(v, I.Tup):
        return stack([of(ip, x) for x in v.items])
    if isinstance(v, I.Ref) and v.kind == 'list':
        sg = ip.get(v)
        if all(s[0] == 'i' for s in sg):
            return stack([of(ip, s[1]) for s in sg])
    return None


def stack(xs):
    if not xs or any(x is None for x in xs) or len({shape(x) for x in xs}) != 1:
        return None
    return make((len(xs),) + shape(xs[0]), [e for x in xs for e in elems(x)])


def dims(ip, v, total=None):
    from . import interp as I
    if isinstance(v, I.Tup):
        ds = [ip.nd(x) for x in v.items]
    elif isinstance(v, I.Ref) and v.kind == 'list':
        ds = [ip.nd(s[1]) if s[0] == 'i' else NONE for s in ip.get(v)]
    elif isinstance(v, Node) and v.op == 'tup':
        ds = list(v.args)
    else:
        ds = [ip.nd(v)]
    if total is not None and sum(N.is_num(d) and d.args[0] == -1 for d in ds) == 1:
        # one dimension is whatever the others leave
        rest = [d for d in ds if not (N.is_num(d) and d.args[0] == -1)]
        if all(N.is_num(d) and d.args[0].denominator == 1 and d.args[0] > 0 for d in rest):
            n = size(tuple(int(d.args[0]) for d in rest))
            if total % n == 0:
                ds = [N.num(total // n) if N.is_num(d) and d.args[0] == -1 else d for d in ds]
    if ds and all(N.is_num(d) and d.args[0].denominator == 1 and 0 < d.args[0] <= 64 for d in ds):
        sh = tuple(int(d.args[0]) for d in ds)
        return sh if size(sh) <= 400 else None
    return None


def fill(ip, v, x):
    sh = dims(ip, v)
    return make(sh, [x] * size(sh)) if sh else None


def broadcast(x, sh):
    """elements of x laid out over the shape sh"""
    s = shape(x)
    if s == sh:
        return list(elems(x))
    s2 = (1,) * (len(sh) - len(s)) + s
    if len(s2) != len(sh) or any(a != b and a != 1 for a, b in zip(s2, sh)):
        return None
    e = elems(x)
    out = []
    for n in range(size(sh)):
        pos = 0
        for a, i in zip(s2, unravel(n, sh)):
            pos = pos * a + (i if a != 1 else 0)
        out.append(e[pos])
    return out


def unravel(n, sh):
    out = []
    for d in reversed(sh):
        out.append(n % d)
        n //= d
    return tuple(reversed(out))


def ravel(ix, sh):
    p = 0
    for i, d in zip(ix, sh):
        p = p * d + i
    return p


def both(f, a, b):
    """f element by element, or None if one of the two is not explicit"""
    if not is_xa(a) and not is_xa(b):
        return None
    for x in (a, b):
        if not is_xa(x) and not scalar(x):
            return None
    sa, sb = shape(a), shape(b)
    n = max(len(sa), len(sb))
    sa, sb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
    if any(p != q and 1 not in (p, q) for p, q in zip(sa, sb)):
        return None
    sh = tuple(max(p, q) for p, q in zip(sa, sb))
    ea, eb = broadcast(a, sh), broadcast(b, sh)
    return make(sh, [f(p, q) for p, q in zip(ea, eb)])


def one(f, a):
    return make(shape(a), [f(e) for e in elems(a)]) if is_xa(a) else None


def merge(c, a, b):
    if is_xa(a) and is_xa(b) and shape(a) == shape(b) and N.is_scalar(c):
        return make(shape(a), [N.ite(c, p, q) for p, q in zip(elems(a), elems(b))])
    return None


def dot(a, b):
    if not is_xa(a) or not is_xa(b):
        return None
    sa, sb = shape(a), shape(b)
    if len(sa) > 2 or len(sb) > 2 or sa[-1] != sb[0]:
        return None
    m = sa[-1]
    rows = sa[0] if len(sa) == 2 else 1
    cols = sb[1] if len(sb) == 2 else 1
    ea, eb = elems(a), elems(b)
    out = [N.add(ZERO, *[N.mul2(ea[i * m + q], eb[q * cols + j]) for q in range(m)]) for i in range(rows) for j in range(cols)]
    return make(sa[:-1] + sb[1:], out)


def transpose(a):
    sh = shape(a)
    e = elems(a)
    new = tuple(reversed(sh))
    return make(new, [e[ravel(tuple(reversed(unravel(n, new))), sh)] for n in range(size(sh))])


def inv(a):
    sh = shape(a)
    if len(sh) != 2 or sh[0] != sh[1]:
        return None
    e = elems(a)
    if sh[0] == 1:
        return make(sh, [N.power(e[0], num(-1))])
    if sh[0] == 2:
        det = N.sub(N.mul2(e[0], e[3]), N.mul2(e[1], e[2]))
        return make(sh, [N.div(x, det) for x in (e[3], N.neg(e[1]), N.neg(e[2]), e[0])])
    return make(sh, [mk('at', mk('inv', a), mk('tup', *[num(i) for i in unravel(n, sh)])) for n in range(size(sh))])


def total(a, axis=None):
    sh, e = shape(a), elems(a)
    if axis is None:
        return N.add(ZERO, *e)
    if not isinstance(axis, int) or not -len(sh) <= axis < len(sh):
        return None
    axis %= len(sh)
    rest = sh[:axis] + sh[axis + 1:]
    out = []
    for n in range(size(rest)):
        u = unravel(n, rest) if rest else ()
        out.append(N.add(ZERO, *[e[ravel(u[:axis] + (i,) + u[axis:], sh)] for i in range(sh[axis])]))
    return make(rest, out)


def positions(j, sh):
    """(shape of the part, flat positions) picked by a constant index, or None"""
    parts = list(j.args) if j.op == 'tup' else [j]
    axes = []
    d = 0
    if sum(p.op == 'ellipsis' for p in parts) > 1:
        return None
    want = sum(p is not NONE and p.op != 'ellipsis' for p in parts)
    for p in parts:
        if p is NONE:
            axes.append((None, 1))
            continue
        if p.op == 'ellipsis':
            for _ in range(len(sh) - want):
                axes.append((list(range(sh[d])), sh[d]))
                d += 1
            continue
        if d >= len(sh):
            return None
        if N.is_num(p) and p.args[0].denominator == 1:
            i = int(p.args[0])
            if not -sh[d] <= i < sh[d]:
                return None
            axes.append(([i % sh[d]], 0))
        elif p.op == 'slice' and all(a is NONE or N.is_num(a) for a in p.args):
            r = range(sh[d])[slice(*[None if a is NONE else int(a.args[0]) for a in p.args])]
            axes.append((list(r), len(r)))
        else:
            return None
        d += 1
    for q in range(d, len(sh)):
        axes.append((list(range(sh[q])), sh[q]))
    new = tuple(n for _, n in axes if n != 0)
    if any(not a for a, n in axes if a is not None):
        return None
    pos = [()]
    for a, _ in axes:
        if a is None:
            continue
        pos = [p + (i,) for p in pos for i in a]
    return new, [ravel(p, sh) for p in pos]


def index(a, j):
    r = positions(j, shape(a))
    if r is None:
        return None
    e = elems(a)
    return make(r[0], [e[p] for p in r[1]])


def store(ip, a, j, v):
    r = positions(j, shape(a))
    x = of(ip, v)
    if r is None or x is None:
        return None
    y = broadcast(x, r[0]) if r[0] else (list(elems(x)) if size(shape(x)) == 1 else None)
    if y is None and len(shape(x)) > len(r[0]) and all(d == 1 for d in shape(x)[:len(shape(x)) - len(r[0])]):
        y = broadcast(make(shape(x)[len(shape(x)) - len(r[0]):], elems(x)), r[0])
    if y is None:
        return None
    e = list(elems(a))
    for p, q in zip(r[1], y):
        e[p] = q
    return make(shape(a), e)


def items(a):
    sh, e = shape(a), elems(a)
    n = size(sh[1:])
    return [make(sh[1:], e[i * n:(i + 1) * n]) for i in range(sh[0])]


def call(ip, name, args, kw, unary, binary, axis_of):
    """a numpy function on explicit arrays; None where it is not known here"""
    if name in ('zeros', 'empty', 'ones', 'full') and (args or 'shape' in kw):
        x = ZERO if name in ('zeros', 'empty') else ONE if name == 'ones' else ip.nd(args[1] if len(args) > 1 else kw['fill_value'])
        return fill(ip, args[0] if args else kw['shape'], x) if scalar(x) else None
    if name in ('eye', 'identity') and args:
        sh = dims(ip, args[0])
        return make(sh * 2, [ONE if i == j else ZERO for i in range(sh[0]) for j in range(sh[0])]) if sh and len(sh) == 1 else None
    xs = [of(ip, a) for a in args]
    if not xs or not any(is_xa(x) for x in xs):
        return None
    a = xs[0]
    if name in ('array', 'asarray', 'copy', 'ascontiguousarray', 'asanyarray'):
        return a
    if name in ('zeros_like', 'empty_like'):
        return one(lambda e: ZERO, a)
    if name == 'ones_like':
        return one(lambda e: ONE, a)
    if name in ('dot', 'matmul') and len(xs) == 2:
        return dot(*xs) if None not in xs else None
    if name == 'inv':
        return inv(a)
    if name == 'solve' and len(xs) == 2 and None not in xs:
        i = inv(a)
        return dot(i, xs[1]) if i is not None else None
    if name in ('sum', 'nansum') and is_xa(a):
        if set(kw) - {'axis'}:
            return None
        return total(a, axis_of(kw, args, 1))
    if name == 'transpose' and len(xs) == 1:
        return transpose(a)
    if name == 'linalg.multi_dot':
        return None
    if name in unary and len(xs) == 1:
        return one(unary[name], a)
    if name in binary and len(xs) == 2 and None not in xs:
        return both(binary[name], *xs)
    if name in ('ravel',):
        return make((size(shape(a)),), elems(a))
    if name == 'reshape' and len(args) == 2:
        sh = dims(ip, args[1], size(shape(a)))
        return make(sh, elems(a)) if sh and size(sh) == size(shape(a)) else None
    if name in ('vstack', 'stack') and is_xa(a):
        return a
    return None
