"""Models of the library operations the repository uses.

Anything not modelled becomes an uninterpreted pure call node (and a comparison
that depends on one that the specification does not use is left undecided).
"""
import re
from . import nodes as N
from .nodes import Node, TRUE, FALSE, NONE, ZERO, ONE, BOT, mk, k, num
from . import interp as I
from . import dense

BUILTINS = {
    'len', 'range', 'zip', 'enumerate', 'reversed', 'sorted', 'list', 'tuple', 'dict', 'set', 'int', 'float',
    'str', 'bool', 'round', 'abs', 'isinstance', 'type', 'print', 'open', 'map', 'filter', 'any', 'all',
    'sum', 'max', 'min', 'getattr', 'hasattr', 'setattr', 'super', 'Exception', 'ValueError', 'KeyError',
    'NotImplementedError', 'TypeError', 'IndexError', 'RuntimeError', 'AssertionError', 'object', 'callable',
    'pow', 'divmod', 'iter', 'next', 'slice', 'frozenset', 'id', 'repr', 'vars', 'property', 'staticmethod',
    'classmethod', 'FileNotFoundError', 'ArithmeticError', 'ZeroDivisionError', 'AttributeError', 'OSError',
    'StopIteration', 'UserWarning', 'DeprecationWarning', 'issubclass', 'complex', 'bytes', 'hash', 'format',
    'Warning', 'NotImplemented', 'LookupError'}


def is_builtin(n):
    return n in BUILTINS


NODE_ATTRS = {'T', 'shape', 'values', 'size', 'ndim', 'real', 'dtype'}

METHODS = set()

CONSTS = {'np.pi': N.PI, 'math.pi': N.PI, 'np.newaxis': NONE, 'math.e': N.func('exp', ONE),
          'np.e': N.func('exp', ONE), 'np.nan': mk('nan'), 'math.nan': mk('nan'),
          'np.inf': mk('inf'), 'math.inf': mk('inf')}


def attr(ip, path):
    if path in CONSTS:
        return CONSTS[path]
    return I.LibVal(path)


def node_attr(ip, o, name):
    if o.op == 'xa' and name in ('T', 'shape', 'size', 'ndim'):
        sh = dense.shape(o)
        return dense.transpose(o) if name == 'T' else mk('tup', *[num(d) for d in sh]) if name == 'shape' else num(dense.size(sh) if name == 'size' else len(sh))
    if name == 'T':
        return N.transpose(o)
    if name in ('values', 'real'):
        return o
    if name == 'shape':
        if o.op == 'T':
            return mk('tup', N.at(mk('shape', o.args[0]), ONE), mk('len', o.args[0]))
        return mk('shape', o)
    if name == 'size':
        return mk('len', o)
    return mk('attr', o, name)


def shape_of_index(o, j):
    return None


def index(ip, x, j):
    if x is BOT or j is BOT:
        return BOT
    if x.op == 'xa':
        r = dense.index(x, j)
        if r is not None:
            return r
    if j is NONE:
        return N.transpose(x)           # x[None, :] is x as a row
    if j.op == 'slice' and I.is_full(j):
        return x
    if j.op == 'ellipsis':
        return x
    if x.op == 'shape' and j is ZERO:
        return mk('len', x.args[0])
    if x.op == 'dict' and j.op == 'tup':
        r = BOT
        for kk, v in reversed(x.args):
            r = N.ite(ip.simp(N.eq(j, kk)), v, r)
        return r
    if j.op == 'tup':
        parts = list(j.args)
        if any(p is NONE for p in parts):
            if len(parts) == 2 and parts[0] is NONE:
                rest = parts[1]
                y = index(ip, x, rest)
                return N.transpose(y)
            return index(ip, x, ip.index_node(mk('tup', *[p for p in parts if p is not NONE])))
        parts = [p for p in parts if p.op != 'ellipsis']
        if all(I.is_full(p) for p in parts):
            return x
        if len(parts) == 2 and I.is_full(parts[0]):
            # one column, kept as a column
            q = parts[1]
            if q.op == 'list' and len(q.args) == 1 and q.args[0].op not in ('each', 'guard', 'spread') and not N.is_boolish(q.args[0]):
                parts[1] = q.args[0]
            elif q.op == 'slice' and q.args[2] is NONE and q.args[1] is not NONE and N.sub(q.args[1], ZERO if q.args[0] is NONE else q.args[0]) is ONE:
                parts[1] = ZERO if q.args[0] is NONE else q.args[0]
        if len(parts) == 1:
            return index(ip, x, parts[0])
        if N.is_num(x):
            return x
        if all(N.is_num(p) for p in parts) and x.op == 'list':
            y = x
            for p in parts:
                y = N.at(y, p)
            return y
        if x.op == 'store' and all(N.is_num(p) for p in parts):
            return N.at(x, mk('tup', *parts))
        if len(parts) == 2 and (N.index_like(parts[0]) or N.is_scalar(parts[0])) and parts[1].op == 'slice' and not N.is_boolish(parts[0]) \
                and not (parts[0].op == 'k' and isinstance(parts[0].args[1], str)):
            return index(ip, index(ip, x, parts[0]), parts[1])      # x[i, a:b] is x[i][a:b]
        if len(parts) == 2 and x.op in ('sym', 'attr', 'at') and all((N.index_like(p) or (p.op == 'sym' and p.args[1] == 'int')) for p in parts):
            return index(ip, index(ip, x, parts[0]), parts[1])
        return mk('at', x, mk('tup', *parts))
    if N.is_boolish(j) or (j.op == 'ite' and N.is_boolish(j.args[1])) or boolname(j):
        return N.select(x, j)
    if x.op == 'cat' or (x.op == 'k' and isinstance(x.args[1], str)):
        if x.op == 'k' and N.is_num(j):
            return k(x.args[1][int(j.args[0])])
        if x.op == 'k' and j.op == 'slice' and all(a is NONE or N.is_num(a) for a in j.args):
            g = lambda a: None if a is NONE else int(a.args[0])
            return k(x.args[1][g(j.args[0]):g(j.args[1]):g(j.args[2])])
        return mk('at', x, j)
    if x.op == 'dict' and not N.is_const(j):
        r = BOT
        for kk, v in reversed(x.args):
            r = N.ite(ip.simp(N.eq(j, kk)), v, r)
        return r
    if x.op == 'ite' and any(a.op in ('dict', 'list', 'tup') for a in x.args[1:]):
        return N.ite(x.args[0], index(ip, x.args[1], j), index(ip, x.args[2], j))
    if j.op == 'ite' and N._const_leaves(j) and x.op in ('list', 'tup'):
        return N._ite_push(j, lambda z: N.at(x, z))
    return N.at(x, j)


def boolname(j):
    if j.op == 'attr':
        return j.args[1].startswith('is_')
    if j.op == 'at' and j.args[1].op == 'k':
        return isinstance(j.args[1].args[1], str) and j.args[1].args[1].startswith('is_')
    if j.op == 'sym':
        return j.args[0].startswith('is_')
    return False


PATHLIKE = {'os.path.dirname', 'os.path.join', 'os.path.abspath', 'os.path.normpath', 'os.path.basename', 'os.getcwd', 'os.path.realpath'}


def to_str(x):
    if x.op == 'k' and isinstance(x.args[1], str):
        return x
    if x.op == 'num':
        v = x.args[0]
        return k(str(v.numerator)) if v.denominator == 1 else k(repr(float(v)))
    if x.op == 'k':
        return k(str(x.args[1]))
    if x.op in ('str', 'cat') or (x.op == 'sym' and x.args[1] == 'str'):
        return x
    if x.op == 'ite' and N._const_leaves(x):
        return N._ite_push(x, to_str)
    if x.op == 'modfile' or (x.op == 'call' and x.args[0] in PATHLIKE):
        return x
    return mk('str', x)


N.CONS['str'] = to_str


def axis_of(kw, args, pos):
    a = kw.get('axis')
    if a is None and len(args) > pos:
        a = args[pos]
    if a is None or a is NONE:
        return None
    return int(a.args[0]) if N.is_num(a) else a


def asum(ip, v, axis=None):
    if isinstance(v, I.Ref) and v.kind == 'list' and axis is None:
        return sum_segs(ip, ip.get(v))
    if isinstance(v, I.Tup) and axis is None:
        return N.add(ZERO, *[ip.nd(x) for x in v.items])
    if isinstance(v, I.IteVal):
        return N.ite(v.c, asum(ip, v.a, axis), asum(ip, v.b, axis))
    x = ip.nd(v)
    if axis is None and x.op == 'list':
        return sum_segs(ip, ip.unfreeze_segs(x.args))
    if axis == 0 and x.op == 'list' and not any(y.op in ('each', 'guard', 'spread') or N.is_boolish(y) for y in x.args):
        return N.add(ZERO, *x.args)
    if axis is None and x.op == 'filt':
        return N.asum(N.ite(x.args[0], x.args[1], ZERO))
    if axis is None and x.op == 'concat':
        return N.add(*[asum(ip, y) for y in x.args])
    if axis is None and x.op == 'select':
        return N.asum(N.ite(x.args[1], x.args[0], ZERO))
    return N.asum(x, axis)


def sum_segs(ip, segs):
    t = ZERO
    for s in segs:
        if s[0] == 'i':
            v = ip.nd(s[1])
            t = N.add(t, v)
        elif s[0] == 'g':
            t = N.add(t, N.ite(s[1], sum_segs(ip, s[2]), ZERO))
        elif s[0] == 'e':
            t = N.add(t, N.isum(s[1].dom, sum_segs(ip, s[2]), s[1].idx))
        else:
            t = N.add(t, N.asum(s[1]))
    return t


def reduce_(ip, v, name, f, axis=None):
    """max/min over a collection"""
    if isinstance(v, I.Ref) and v.kind == 'list' or isinstance(v, I.Tup):
        segs = ip.segs_of(v)
        if all(s[0] == 'i' for s in segs):
            return f(*[ip.nd(s[1]) for s in segs])
    x = ip.nd(v)
    if x.op in ('list', 'tup') and not any(y.op in ('each', 'guard', 'spread', 'list') for y in x.args):
        return f(*x.args)
    return mk(name if axis is None else name + str(axis), x)


def lam(ip, f):
    """representation of a function argument by its body over a bound symbol"""
    if isinstance(f, (I.FuncVal, I.Bound, I.Partial)):
        g = f.func if isinstance(f, (I.Bound, I.Partial)) else f
        n = None
        h = f
        if isinstance(f, I.FuncVal):
            a = f.node.args
            n = len(a.args) - len(f.defaults)
        elif isinstance(f, I.Bound) and isinstance(g, I.FuncVal):
            n = len(g.node.args.args) - 1 - len(g.defaults)
        if n is None:
            n = 1
        n = max(n, 1)
        ip.lamdepth = getattr(ip, 'lamdepth', 0) + 1
        try:
            vs = [mk('bv', ip.lamdepth, i) for i in range(n)]
            return mk('lam', n, ip.freeze(ip.call(h, vs, {})))
        finally:
            ip.lamdepth -= 1
    return ip.freeze(f)


def generic(ip, path, args, kw):
    def cv(a):
        if isinstance(a, (I.FuncVal, I.Bound, I.Partial)):
            return lam(ip, a)
        if isinstance(a, I.Ref) and a.kind == 'list':
            return ip.arr(a)
        return ip.freeze(a)
    return mk('call', path, *[cv(a) for a in args], *[mk('kw', q, cv(v)) for q, v in sorted(kw.items())])


UNARY = {'sqrt': lambda x: N.power(x, num(0.5)), 'exp': lambda x: N.func('exp', x),
         'abs': N.vabs, 'fabs': N.vabs, 'absolute': N.vabs,
         'radians': lambda x: N.div(N.mul2(x, N.PI), num(180)), 'deg2rad': lambda x: N.div(N.mul2(x, N.PI), num(180)),
         'degrees': lambda x: N.div(N.mul2(x, num(180)), N.PI), 'rad2deg': lambda x: N.div(N.mul2(x, num(180)), N.PI),
         'square': lambda x: N.power(x, num(2)), 'negative': N.neg,
         'reciprocal': lambda x: N.power(x, num(-1)),
         'log10': lambda x: N.div(N.func('log', x), N.func('log', num(10))),
         'log2': lambda x: N.div(N.func('log', x), N.func('log', num(2))),
         'exp2': lambda x: mk('pow', num(2), x)}
for _n, _m in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('arcsin', 'arcsin'), ('asin', 'arcsin'),
               ('arccos', 'arccos'), ('acos', 'arccos'), ('arctan', 'arctan'), ('atan', 'arctan'), ('sinh', 'sinh'),
               ('cosh', 'cosh'), ('tanh', 'tanh'), ('log', 'log'), ('floor', 'floor'), ('ceil', 'ceil'),
               ('sign', 'sign'), ('trunc', 'int'), ('rint', 'round'), ('fix', 'int')):
    UNARY[_n] = (lambda m: lambda x: N.func(m, x))(_m)

BINARY = {'add': N.add, 'subtract': N.sub, 'multiply': N.mul2, 'divide': N.div, 'true_divide': N.div,
          'power': N.power, 'maximum': N.vmax, 'minimum': N.vmin, 'fmax': N.vmax, 'fmin': N.vmin,
          'logical_and': lambda a, b: N.AND(a, b), 'logical_or': lambda a, b: N.OR(a, b),
          'less': N.lt, 'less_equal': N.le, 'greater': lambda a, b: N.lt(b, a), 'greater_equal': lambda a, b: N.le(b, a),
          'equal': N.eq, 'not_equal': lambda a, b: N.NOT(N.eq(a, b)),
          'bitwise_and': lambda a, b: N.AND(a, b), 'bitwise_or': lambda a, b: N.OR(a, b),
          'arctan2': lambda a, b: mk('arctan2', a, b), 'atan2': lambda a, b: mk('arctan2', a, b),
          'copysign': lambda a, b: mk('copysign', a, b), 'hypot': lambda a, b: N.power(N.add(N.power(a, num(2)), N.power(b, num(2))), num(0.5)),
          'pow': N.power, 'fmod': lambda a, b: mk('fmod', a, b), 'mod': lambda a, b: N.sub(a, N.mul2(b, N.func('floor', N.div(a, b)))),
          'floor_divide': lambda a, b: N.func('floor', N.div(a, b)), 'dot': lambda a, b: N.mm(a, b), 'matmul': lambda a, b: N.mm(a, b)}

IDENT = {'array', 'asarray', 'copy', 'squeeze', 'ravel', 'ascontiguousarray', 'atleast_1d', 'float64', 'float32',
         'float_', 'int64', 'int32', 'asanyarray', 'ascontiguous', 'nan_to_num_'}
FILL0 = {'zeros', 'zeros_like', 'empty', 'empty_like'}

EFFECT_METHODS = {'writerows', 'writerow', 'write', 'to_csv', 'to_excel', 'to_json', 'savefig', 'writelines', 'savetxt'}
IDENT_METHODS = {'flatten', 'ravel', 'astype', 'tolist', 'copy', 'to_numpy', 'squeeze', 'item', 'to_list', 'close', '__enter__'}


def is_dtype_int(d):
    if isinstance(d, I.LibVal):
        return d.path.split('.')[-1].startswith(('int', 'uint'))
    return isinstance(d, Node) and d.op == 'k' and isinstance(d.args[1], str) and d.args[1].startswith(('int', 'uint', 'i4', 'i8'))


def whole_part(ip, x):
    """a quantity that evidently has a fraction loses it"""
    return N.func('int', x) if isinstance(x, Node) and x.op != 'xa' and N.wholeness(x) == 'real' else x


def is_dtype_bool(kw, args, pos):
    d = kw.get('dtype') or (args[pos] if len(args) > pos else None)
    return isinstance(d, I.LibVal) and d.path in ('bool', 'np.bool', 'np.bool_')


def call(ip, path, args, kw, node=None):
    if path == 'known':
        fid = ip.nd(args[0]).args[1]
        ip.asked.add(fid)
        return k(fid in ip.known)
    if path == 'present':
        return N.present(ip.nd(args[0]))
    if path == 'readable':
        # what is computed from the file, with the contents of the file replaced by what the writer puts there
        v, source, written = [ip.nd(a) for a in args]
        if v is BOT or not any(x is source for x in N.walk(v)):
            return k(False)
        return N.present(N.subst(v, {source: written}))
    head, _, name = path.rpartition('.')
    if head in ('np', 'math', 'np.linalg', 'cmath', 'np.core', 'operator'):
        r = np_call(ip, head, name, args, kw)
        if r is not None:
            return r
        return generic(ip, path, args, kw)
    if head == '':
        r = builtin(ip, name, args, kw)
        if r is not None:
            return r
        return generic(ip, path, args, kw)
    if path in ('copy.deepcopy', 'copy.copy'):
        return deepcopy(ip, args[0], path.endswith('deepcopy'))
    if path == 'collections.namedtuple':
        return make_namedtuple(ip, args, kw)
    if path == 'os.path.join':
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(k('/'))
            parts.append(ip.nd(a))
        return N.cat(*parts)
    if path in ('json.dump', 'pickle.dump'):
        ip.effect('json.dump', args[1] if len(args) > 1 else kw['fp'], args[0])
        return NONE
    if path == 'json.load':
        return mk('json', ip.freeze(args[0]))
    if path == 'csv.reader':
        return mk('csvrows', ip.freeze(args[0]), *[mk('kw', q, ip.freeze(v)) for q, v in sorted(kw.items())])
    if path == 'csv.writer':
        return mk('csvwriter', ip.freeze(args[0]))
    if path == 'functools.partial':
        return I.Partial(args[0], 'partial', args[1:], kw)
    if path == 'functools.reduce':
        sg = ip.segs_of(args[1])
        if all(s[0] == 'i' for s in sg):
            items = [s[1] for s in sg]
            if len(args) > 2:
                items = [args[2]] + items
            acc = items[0]
            for x in items[1:]:
                acc = ip.call(args[0], [acc, x], {})
            return acc
    if path in ('itertools.chain', 'itertools.chain.from_iterable'):
        segs = ()
        for a in (args if path.endswith('chain') else [s[1] for s in ip.segs_of(args[0]) if s[0] == 'i']):
            segs += ip.rebind(ip.segs_of(a))
        return ip.new('list', segs)
    if path in ('math.fsum',):
        return asum(ip, args[0])
    if path in ('logging.getLogger', 'warnings.warn') or path.startswith('logging.') or path.startswith('pprint') or path.startswith('pp.'):
        return NONE
    if path.startswith('matplotlib') or path.startswith('plt.'):
        return NONE
    if path in ('os.makedirs', 'os.mkdir', 'os.remove', 'os.rename', 'os.rmdir', 'shutil.rmtree', 'os.chdir'):
        ip.effect(path, *args)
        return NONE
    if path == 'time.time':
        return mk('time')
    if path == 'enum.auto':
        return I.LibVal('enum.auto()')
    if path in ('typing.cast',):
        return args[1]
    if path == 'np.savetxt':
        ip.effect('savetxt', *args)
        return NONE
    if path.endswith('.newton') or path.endswith('optimize.fsolve') or path.endswith('optimize.brentq'):
        ip.solver_calls = getattr(ip, 'solver_calls', 0) + 1
        return generic(ip, path.split('.')[-1], args, kw)
    return generic(ip, path, args, kw)


def make_namedtuple(ip, args, kw):
    nm = ip.nd(args[0]).args[1]
    f = args[1]
    if isinstance(f, Node) and f.op == 'k':
        names = f.args[1].replace(',', ' ').split()
    else:
        names = [s[1].args[1] for s in ip.segs_of(f)]
    c = I.ClassVal(nm, ip.mod, [], None)
    c.namedtuple = True
    c.fields = [(n, None) for n in names]
    d = kw.get('defaults')
    I.CLASSES[c.qual] = c
    return c


def deepcopy(ip, v, deep=True):
    if isinstance(v, I.Ref):
        c = ip.get(v)
        if not deep:
            return ip.new(v.kind, c if v.kind == 'list' else dict(c), v.cls)
        if v.kind == 'list':
            return ip.new('list', tuple(copy_seg(ip, s) for s in c))
        return ip.new(v.kind, {q: deepcopy(ip, x) for q, x in c.items()}, v.cls)
    if isinstance(v, I.Tup):
        return I.Tup([deepcopy(ip, x) for x in v.items])
    if isinstance(v, I.IteVal):
        return I.IteVal(v.c, deepcopy(ip, v.a), deepcopy(ip, v.b))
    return v


def copy_seg(ip, s):
    if s[0] == 'i':
        return ('i', deepcopy(ip, s[1]))
    if s[0] in ('g', 'e'):
        return (s[0], s[1], tuple(copy_seg(ip, z) for z in s[2]))
    return s


def where(ip, c, a, b):
    if isinstance(a, Node) and isinstance(b, Node) or True:
        return N.ite(c, N.strip_select(ip.nd(a), c), N.strip_select(ip.nd(b), c))


# options of array functions that the rules below read (others leave the call opaque)
OPTIONS = {'axis', 'dtype', 'a', 'decimals', 'copy'}
OPTIONS_OF = {'select': {'default'}, 'clip': {'a_min', 'a_max', 'min', 'max'}, 'average': {'weights'}, 'full': {'fill_value', 'shape'}, 'full_like': {'fill_value', 'shape'},
              'zeros': {'shape', 'order'}, 'ones': {'shape', 'order'}, 'empty': {'shape', 'order'}, 'roll': {'shift'}, 'repeat': {'repeats'},
              'array': {'order', 'ndmin', 'subok', 'object'}, 'asarray': {'order'}}


def other_options(name, args, kw):
    """options that change what an array function computes and that no rule here reads: where=, out=, initial=, order=, ..."""
    if set(kw) - OPTIONS - OPTIONS_OF.get(name, set()):
        return True
    if name in BINARY and len(args) > 2 or name in UNARY and len(args) > 1 and name != 'log':
        return True                                         # the result is written into the last argument
    if name in ('ravel', 'flatten') and args[1 if name == 'ravel' else 0:]:
        o = args[-1]
        return not (isinstance(o, Node) and o.op == 'k' and o.args[1] in ('C', 'K', 'A'))
    if name in ('max', 'min', 'amax', 'amin') and len(args) > 2 or name in ('sum', 'mean', 'any', 'all') and len(args) > 3:
        return True
    return False


def np_call(ip, head, name, args, kw):
    nd = ip.nd
    if kw.get('keepdims') is TRUE and name in ('sum', 'mean', 'average', 'max', 'min', 'amax', 'amin') and axis_of(kw, args, 1) in (0, 1, -1):
        r = np_call(ip, head, name, args, {q: v for q, v in kw.items() if q != 'keepdims'})
        return r if r is None or axis_of(kw, args, 1) != 0 else N.transpose(ip.nd(r))
    if head in ('np', 'np.linalg') and (args or kw) and other_options(name, args, kw):
        if 'out' in kw or name in BINARY and len(args) > 2 or name in UNARY and len(args) > 1:
            raise I.Unsupported('result written into an argument')
        return None
    if ip.explicit and head in ('np', 'np.linalg'):
        r = dense.call(ip, name, args, kw, UNARY, BINARY, axis_of)
        if r is not None:
            return r
    if head == 'np.linalg':
        if name == 'inv':
            return N.inv(nd(args[0]))
        if name == 'solve':
            return N.mm(N.inv(nd(args[0])), nd(args[1]))
        if name == 'norm':
            return None
        return None
    if name in IDENT and args:
        v = args[0]
        d = kw.get('dtype') or (args[1] if len(args) > 1 else None)
        if is_dtype_int(d) or name in ('int64', 'int32'):
            return whole_part(ip, ip.arr(v))
        return ip.arr(v)
    if name in FILL0:
        b = is_dtype_bool(kw, args, 1)
        return FALSE if b else ZERO
    if name in ('ones', 'ones_like'):
        return TRUE if is_dtype_bool(kw, args, 1) else ONE
    if name in ('full', 'full_like'):
        return nd(args[1] if len(args) > 1 else kw['fill_value'])
    if name == 'where':
        if len(args) == 3:
            return where(ip, nd(args[0]), args[1], args[2])
        m = nd(args[0])
        return I.Tup([mk('nonzero', m)]) if len(args) == 1 and N.is_mask(m) else None
    if name in ('nonzero', 'flatnonzero') and len(args) == 1:
        m = nd(args[0])
        if N.is_mask(m):
            return mk('nonzero', m) if name == 'flatnonzero' else I.Tup([mk('nonzero', m)])
        return None
    if name == 'select':
        conds = [s[1] for s in ip.segs_of(args[0])]
        vals = [s[1] for s in ip.segs_of(args[1])]
        dflt = kw.get('default', args[2] if len(args) > 2 else ZERO)
        r = nd(dflt)
        for c, v in reversed(list(zip(conds, vals))):
            r = N.ite(nd(c), nd(v), r)
        return r
    if name == 'clip':
        x = nd(args[0])
        lo = kw.get('a_min', args[1] if len(args) > 1 else NONE)
        hi = kw.get('a_max', args[2] if len(args) > 2 else NONE)
        return clip(nd(x), nd(lo), nd(hi))
    if name in ('sum', 'nansum', 'fsum') and args:
        return asum(ip, args[0], axis_of(kw, args, 1))
    if name in ('max', 'amax'):
        return reduce_(ip, args[0], 'smax', N.vmax, axis_of(kw, args, 1))
    if name in ('min', 'amin'):
        return reduce_(ip, args[0], 'smin', N.vmin, axis_of(kw, args, 1))
    if name in ('mean', 'average'):
        ax = axis_of(kw, args, 1)
        w = kw.get('weights')
        x = nd(args[0])
        if w is not None and w is not NONE:
            w = nd(w)
            return N.div(N.asum(N.mul2(x, w), ax), N.asum(w, ax))
        return mean(ip, args[0], ax)
    if name in UNARY and args:
        if name == 'log' and len(args) == 2:
            return N.div(N.func('log', nd(args[0])), N.func('log', nd(args[1])))
        return UNARY[name](nd(args[0]))
    if name in BINARY and len(args) >= 2:
        if name in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or'):
            return BINARY[name](tr(ip, args[0]), tr(ip, args[1]))
        return BINARY[name](ip.unenum(nd(args[0])), ip.unenum(nd(args[1])))
    if name == 'logical_not' or name == 'invert':
        return N.NOT(tr(ip, args[0]))
    if name in ('logical_xor',):
        a, b = tr(ip, args[0]), tr(ip, args[1])
        return N.OR(N.AND(a, N.NOT(b)), N.AND(N.NOT(a), b))
    if name == 'count_nonzero':
        x = nd(args[0])
        return N.asum(N.ite(x, ONE, ZERO) if N.is_boolish(x) or boolname(x) else N.ite(N.NOT(N.eq(x, ZERO)), ONE, ZERO))
    if name in ('identity', 'eye'):
        return N.EYE
    if name == 'diag':
        return N.diag(nd(args[0]))
    if name == 'transpose':
        return N.transpose(nd(args[0]))
    if name in ('reshape',):
        return reshape(ip, nd(args[0]), args[1:])
    if name == 'expand_dims':
        ax = axis_of(kw, args, 1)
        return N.transpose(nd(args[0])) if ax == 0 else nd(args[0])
    if name == 'vectorize':
        return I.Partial(args[0], 'vectorize')
    if name == 'arange':
        a = [nd(x) for x in args]
        if len(a) == 1:
            return arange(ZERO, a[0], ONE)
        if len(a) == 2:
            return arange(a[0], a[1], ONE)
        return arange(a[0], a[1], a[2])
    if name in ('roll',):
        x = nd(args[0])
        s = nd(args[1] if len(args) > 1 else kw['shift'])
        ax = axis_of(kw, args, 2)
        return mk('roll', x, s, k(ax) if ax is not None else NONE)
    if name in ('concatenate', 'hstack', 'vstack', 'stack', 'append', 'column_stack', 'r_'):
        if name == 'append':
            vs = [args[0], args[1]]
        else:
            sg = ip.segs_of(args[0])
            if not all(s[0] == 'i' for s in sg):
                if name == 'concatenate' and axis_of(kw, args, 1) in (None, 0) and all(leaf_list(s) for s in sg):
                    return ip.arr_segs(tuple(flatten_seg(ip, sg)))
                if name == 'concatenate' and axis_of(kw, args, 1) in (None, 0) and all(s[0] == 'i' or s[0] == 'e' and len(s[2]) == 1 and s[2][0][0] == 'i' for s in sg):
                    return mk('concat', *[ip.arr(s[1]) if s[0] == 'i' else mk('each', s[1].dom, s[1].idx, ip.arr(s[2][0][1])) for s in sg])
                return None
            vs = [s[1] for s in sg]
        ax = axis_of(kw, args, 2 if name == 'append' else 1)
        parts = []
        for v in vs:
            y = ip.arr(v)
            if N.is_num(y):
                return None     # filled with one number: how many of them is not known here
            if name == 'append' and v is vs[1] and y.op in ('idx', 'attr', 'sym', 'at'):
                y = mk('list', y)
            parts.extend(y.args if y.op == 'concat' and len(y.args) and y.args[-1].op != 'kw' else [y])
        nm = 'concat' if name in ('concatenate', 'append', 'hstack') and ax in (None, 0) else name + ('' if ax is None else str(ax))
        return mk(nm, *parts)
    if name == 'unique':
        return mk('unique', nd(args[0]), *[mk('kw', q, ip.freeze(v)) for q, v in sorted(kw.items())])
    if name == 'repeat':
        return mk('repeat', nd(args[0]), nd(args[1] if len(args) > 1 else kw['repeats']), *([k(axis_of(kw, args, 2))] if axis_of(kw, args, 2) is not None else []))
    if name == 'any':
        return mk('any', nd(args[0])) if axis_of(kw, args, 1) is None else None
    if name == 'all':
        return mk('all', nd(args[0])) if axis_of(kw, args, 1) is None else None
    if name in ('round', 'around', 'round_'):
        x = nd(args[0])
        d = kw.get('decimals', args[1] if len(args) > 1 else ZERO)
        return round_(x, nd(d))
    if name == 'isclose' or name == 'allclose':
        return None
    if name in ('bool_', 'bool'):
        return ip.truth(args[0])
    if name == 'isnan':
        return mk('isnan', nd(args[0]))
    if name == 'fsum':
        return asum(ip, args[0])
    if head == 'operator' and name in ('add', 'sub', 'mul', 'truediv'):
        return {'add': N.add, 'sub': N.sub, 'mul': N.mul2, 'truediv': N.div}[name](nd(args[0]), nd(args[1]))
    return None


def round_(x, d):
    if N.is_num(x) and N.is_num(d):
        return num(round(float(x.args[0]), int(d.args[0])))
    if x.op == 'ite' and N._const_leaves(x):
        return N._ite_push(x, lambda y: round_(y, d))
    return mk('round', x, d)


def arange(lo, hi, st):
    if lo is ZERO and st is ONE and hi.op != 'num' and I.is_count(hi):
        return N.IOTA if False else mk('arange', hi)
    if all(N.is_num(x) for x in (lo, hi, st)) and st.args[0] and abs((hi.args[0] - lo.args[0]) / st.args[0]) <= 64:
        out = []
        v = lo.args[0]
        while (v < hi.args[0]) if st.args[0] > 0 else (v > hi.args[0]):
            out.append(num(v))
            v += st.args[0]
        return mk('list', *out)
    if all(N.is_num(x) for x in (lo, hi, st)) and lo is not ZERO:
        return N.add(lo, mk('arange', ZERO, N.sub(hi, lo), st))
    return mk('arange', lo, hi, st)


def tr(ip, v):
    x = ip.nd(v)
    return x


def clip(x, lo, hi):
    if lo is not NONE:
        x = N.vmax(x, lo)
    if hi is not NONE:
        x = N.vmin(x, hi)
    return x


def mean(ip, v, axis=None):
    if isinstance(v, (I.Tup,)) or isinstance(v, I.Ref) and v.kind == 'list':
        sg = ip.segs_of(v)
        if sg and all(s[0] == 'i' for s in sg):
            return N.div(asum(ip, v), num(len(sg)))
    x = ip.nd(v)
    name = 'mean' if axis is None else 'mean%s' % axis
    out = ZERO
    for s, rest in N._split_scalar(x):
        out = N.add(out, N.mul2(s, mk(name, rest)) if rest is not None else s)
    return out


def reshape(ip, x, dims):
    ds = []
    for d in dims:
        if isinstance(d, I.Tup):
            ds.extend(ip.nd(y) for y in d.items)
        elif isinstance(d, Node) and d.op == 'tup':
            ds.extend(d.args)
        else:
            ds.append(ip.nd(d))
    if len(ds) == 1:
        return x
    if len(ds) == 2:
        if ds[1] is ONE:
            return x
        if ds[0] is ONE:
            return N.transpose(x)
    return mk('reshape', x, *ds)


def builtin(ip, name, args, kw):
    nd = ip.nd
    if name == 'len':
        v = args[0]
        if isinstance(v, I.ClassVal) and v.is_enum:
            return num(len(v.members))
        return ip.length(v)
    if name == 'range':
        a = [ip.unenum(nd(x)) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = a + [ONE]
        return mk('range', *a)
    if name in ('zip', 'enumerate'):
        if name == 'enumerate':
            start = kw.get('start', args[1] if len(args) > 1 else ZERO)
            return enumerate_(ip, args[0], nd(start))
        return zip_(ip, args)
    if name in ('list', 'tuple', 'set', 'frozenset', 'iter'):
        if not args:
            return ip.mklist([]) if name != 'tuple' else I.Tup([])
        v = args[0]
        if isinstance(v, Node) and v.op not in ('list', 'tup', 'range', 'ite', 'k'):
            return v
        if name in ('set', 'frozenset'):
            # what is named twice is there once: a list only where its members are known to differ
            sg = ip.segs_of(v) if not isinstance(v, Node) or v.op in ('list', 'tup') else None
            consts = [s[1] for s in sg if s[0] == 'i' and isinstance(s[1], Node) and s[1].op in ('k', 'num')] if sg is not None else []
            if sg is not None and len(consts) == len(sg):
                sg = [s for n, s in enumerate(sg) if consts[n] not in consts[:n]]
                consts = [s[1] for s in sg]
            if sg is None or len(set(consts)) < len(sg):
                return mk('call', 'set', ip.arr(v) if isinstance(v, I.Ref) and v.kind == 'list' else nd(v))
            return ip.new('list', ip.rebind(sg))
        sg = ip.segs_of(v)
        if name == 'tuple' and all(s[0] == 'i' for s in sg):
            return I.Tup([s[1] for s in sg])
        return ip.new('list', ip.rebind(sg))
    if name == 'reversed':
        sg = ip.segs_of(args[0])
        if all(s[0] == 'i' for s in sg):
            return ip.new('list', tuple(reversed(sg)))
        return None
    if name == 'sorted':
        return None
    if name == 'dict':
        d = {}
        if args:
            if isinstance(args[0], I.Ref) and args[0].kind == 'dict':
                d.update(ip.get(args[0]))
            elif isinstance(args[0], Node):
                if kw:
                    x = args[0]
                    for q, v in kw.items():
                        x = N.store(x, k(q), ip.freeze(v))
                    return x
                return args[0]
            else:
                for s in ip.segs_of(args[0]):
                    if s[0] != 'i':
                        return None
                    p = ip.as_items(s[1], 2)
                    d[ip.freeze(p[0])] = p[1]
        for q, v in kw.items():
            d[k(q)] = v
        return ip.mkdict(d)
    if name == 'int':
        return N.func('int', ip.unenum(nd(args[0]))) if args else ZERO
    if name == 'float':
        x = ip.unenum(nd(args[0]))
        if x.op == 'k' and isinstance(x.args[1], str):
            try:
                return num(float(x.args[1]))
            except ValueError:
                ip.fail(TRUE, 'ValueError')
                return BOT
        return x
    if name == 'str':
        return to_str(nd(args[0])) if args else k('')
    if name == 'bool':
        return ip.truth(args[0])
    if name == 'round':
        return round_(nd(args[0]), nd(args[1]) if len(args) > 1 else ZERO)
    if name == 'abs':
        return N.vabs(nd(args[0]))
    if name == 'pow':
        return N.power(nd(args[0]), nd(args[1]))
    if name == 'sum':
        start = kw.get('start', args[1] if len(args) > 1 else ZERO)
        if isinstance(start, I.Ref):
            segs = ip.get(start)
            sg = ip.segs_of(args[0])
            return ip.new('list', segs + tuple(flatten_seg(ip, sg)))
        r = asum(ip, args[0])
        return N.add(r, nd(start)) if start is not ZERO else r
    if name in ('max', 'min'):
        f = N.vmax if name == 'max' else N.vmin
        if 'key' in kw:
            return None
        if len(args) > 1:
            return f(*[ip.unenum(nd(a)) for a in args])
        return reduce_(ip, args[0], 's' + name, f)
    if name in ('any', 'all'):
        v = args[0]
        if isinstance(v, (I.Ref, I.Tup)):
            return anyall(ip, ip.segs_of(v), name)
        return mk(name, nd(v))
    if name == 'isinstance':
        return isinst(ip, args[0], args[1])
    if name == 'type':
        v = args[0]
        if isinstance(v, I.Ref):
            if v.kind == 'inst':
                return v.cls
            return I.LibVal(v.kind)
        if isinstance(v, I.Tup):
            return I.LibVal('tuple')
        if isinstance(v, I.IteVal):
            return ip.on_ite(v, lambda x: builtin(ip, 'type', [x], {}))
        if isinstance(v, Node):
            c = ip.typeof(v)
            if c:
                return c
            if v.op == 'enum':
                return I.CLASSES.get(v.args[0])
            if v.op == 'k' and isinstance(v.args[1], str):
                return I.LibVal('str')
            if v.op == 'k':
                return I.LibVal(v.args[0])
            return mk('type', v)
        return None
    if name == 'print':
        return NONE
    if name == 'open':
        path = nd(args[0])
        mode = kw.get('mode', args[1] if len(args) > 1 else k('r'))
        m = nd(mode)
        return mk('file', path, m)
    if name == 'map':
        f = args[0]
        segs = zip_(ip, args[1:])
        sg = ip.segs_of(segs)
        return ip.new('list', map_segs(ip, sg, lambda t: ip.call(f, list(ip.as_items(t, len(args) - 1)), {})))
    if name == 'filter':
        f = args[0]
        sg = ip.rebind(ip.segs_of(args[1]))
        return ip.new('list', filter_segs(ip, sg, f))
    if name == 'getattr':
        n = nd(args[1])
        if n.op == 'k':
            return ip.getattr(args[0], n.args[1])
        return None
    if name == 'hasattr':
        n = nd(args[1])
        v = args[0]
        if isinstance(v, I.Ref) and v.kind == 'inst':
            return TRUE if n.args[1] in ip.get(v) or v.cls.find(n.args[1]) is not None else FALSE
        return None
    if name == 'setattr':
        n = nd(args[1])
        if isinstance(args[0], I.Ref) and n.op == 'k':
            ip.setattr(args[0], n.args[1], args[2], None)
            return NONE
        return None
    if name == 'callable':
        return TRUE if isinstance(args[0], (I.FuncVal, I.Bound, I.Partial, I.ClassVal, I.LibVal)) else FALSE
    if name == 'slice':
        a = [nd(x) for x in args]
        if len(a) == 1:
            a = [NONE, a[0]]
        while len(a) < 3:
            a.append(NONE)
        return I.SliceVal(*a)
    if name.endswith('Error') or name in ('Exception', 'object', 'StopIteration', 'Warning', 'UserWarning'):
        return mk('exc', name)
    if name == 'divmod':
        a, b = nd(args[0]), nd(args[1])
        import ast
        return I.Tup([ip.binop(ast.FloorDiv(), a, b), ip.binop(ast.Mod(), a, b)])
    return None


def flatten_seg(ip, sg):
    out = []
    for s in sg:
        if s[0] == 'i':
            out.extend(ip.rebind(ip.segs_of(s[1])))
        elif s[0] == 'g':
            out.append(('g', s[1], tuple(flatten_seg(ip, s[2]))))
        elif s[0] == 'e':
            ip.depth += 1
            sub = tuple(flatten_seg(ip, s[2]))
            ip.depth -= 1
            out.append(('e', s[1], sub))
        else:
            raise I.Unsupported('flatten')
    return out


def leaf_list(s):
    if s[0] == 'i':
        return isinstance(s[1], I.Tup) or isinstance(s[1], I.Ref) and s[1].kind == 'list'
    return s[0] in ('g', 'e') and all(leaf_list(x) for x in s[2])


def map_segs(ip, sg, f):
    out = []
    for s in sg:
        if s[0] == 'i':
            out.append(('i', f(s[1])))
        elif s[0] == 'g':
            out.append(('g', s[1], map_segs(ip, s[2], f)))
        elif s[0] == 'e':
            ip.depth += 1
            sub = map_segs(ip, s[2], f)
            ip.depth -= 1
            out.append(('e', s[1], sub))
        else:
            raise I.Unsupported('map')
    return tuple(out)


def filter_segs(ip, sg, f):
    out = []
    for s in sg:
        if s[0] == 'i':
            c = ip.truth(ip.call(f, [s[1]], {}) if f is not NONE else s[1])
            if c is TRUE:
                out.append(s)
            elif c is not FALSE:
                out.append(('g', c, (s,)))
        elif s[0] == 'g':
            out.append(('g', s[1], filter_segs(ip, s[2], f)))
        elif s[0] == 'e':
            ip.depth += 1
            sub = filter_segs(ip, s[2], f)
            ip.depth -= 1
            if sub:
                out.append(('e', s[1], sub))
    return tuple(out)


def anyall(ip, segs, name):
    cs = []
    for s in segs:
        if s[0] == 'i':
            cs.append(ip.truth(s[1]))
        elif s[0] == 'g':
            x = anyall(ip, s[2], name)
            cs.append(N.AND(s[1], x) if name == 'any' else N.OR(N.NOT(s[1]), x))
        elif s[0] == 'e':
            x = anyall(ip, s[2], name)
            cs.append(mk(name, s[1].dom, N.subst(x, {s[1].idx: N.iota_of(s[1].idx)})))
        else:
            cs.append(mk(name, s[1]))
    return (N.OR if name == 'any' else N.AND)(*cs)


def isinst(ip, v, c):
    cs = [x for x in c.items] if isinstance(c, I.Tup) else [c]
    rs = []
    for t in cs:
        if isinstance(v, I.IteVal):
            return N.ite(v.c, isinst(ip, v.a, c), isinst(ip, v.b, c))
        if isinstance(v, I.Ref) and v.kind == 'inst':
            rs.append(TRUE if isinstance(t, I.ClassVal) and t in v.cls.mro() else FALSE)
        elif isinstance(v, I.Ref) and isinstance(t, I.LibVal):
            rs.append(TRUE if t.path == v.kind else FALSE)
        elif isinstance(v, I.Tup):
            rs.append(TRUE if isinstance(t, I.LibVal) and t.path == 'tuple' else FALSE)
        elif isinstance(v, Node):
            if v.op == 'enum' and isinstance(t, I.ClassVal):
                rs.append(TRUE if v.args[0] == t.qual else FALSE)
            elif v.op == 'k' and isinstance(t, I.LibVal):
                rs.append(TRUE if t.path == v.args[0] else FALSE)
            elif v.op == 'num' and isinstance(t, I.LibVal) and t.path in ('str', 'dict', 'list'):
                rs.append(FALSE)
            else:
                cl = ip.typeof(v)
                if cl is not None and isinstance(t, I.ClassVal):
                    rs.append(TRUE if t in cl.mro() else FALSE)
                else:
                    rs.append(mk('isinst', v, t.qual if isinstance(t, I.ClassVal) else getattr(t, 'path', '?')))
        else:
            rs.append(mk('isinst', ip.freeze(v), '?'))
    return N.OR(*rs)


def enumerate_(ip, v, start):
    sg = ip.rebind(ip.segs_of(v))
    return ip.new('list', enum_segs(ip, sg, start))


def enum_segs(ip, sg, start):
    out = []
    off = start
    for s in sg:
        if s[0] == 'i':
            out.append(('i', I.Tup([off, s[1]])))
            off = N.add(off, ONE)
        elif s[0] == 'e' and len(s[2]) == 1 and s[2][0][0] == 'i':
            lp = s[1]
            out.append(('e', lp, (('i', I.Tup([N.add(off, lp.idx), s[2][0][1]])),)))
            off = N.add(off, lp.dom)
        elif s[0] == 'e':
            # one item per guarded alternative: position depends on the guards
            out.append(('e', s[1], tuple(renum(ip, z, s[1], off) for z in s[2])))
            off = N.add(off, ip.seglen((s,)))
        elif s[0] == 'g':
            sub = enum_segs(ip, s[2], off)
            out.append(('g', s[1], sub))
            off = N.add(off, ip.seglen((s,)))
        else:
            raise I.Unsupported('enumerate')
    return tuple(out)


def renum(ip, z, lp, off):
    if z[0] == 'i':
        return ('i', I.Tup([mk('pos', off, lp.idx), z[1]]))
    if z[0] == 'g':
        return ('g', z[1], tuple(renum(ip, y, lp, off) for y in z[2]))
    raise I.Unsupported('enumerate nested')


def zip_(ip, args):
    vs = [ip.rebind(ip.segs_of(a)) for a in args]
    r = zip_segs(ip, vs)
    if r is None:
        # finite against generic: index the symbolic ones
        fin = [v for v in vs if all(s[0] == 'i' for s in v)]
        if fin:
            n = min(len(v) for v in fin)
            rows = []
            for i in range(n):
                row = []
                for a, v in zip(args, vs):
                    if all(s[0] == 'i' for s in v):
                        row.append(v[i][1])
                    else:
                        row.append(ip.getitem(a, num(i)))
                rows.append(('i', I.Tup(row)))
            return ip.new('list', tuple(rows))
        if __import__('os').environ.get('VGDBG'):
            for v in vs: print('ZIP', [(q[0], str(q)[-300:]) for q in v]); 
        raise I.Unsupported('zip of differently shaped collections')
    return ip.new('list', r)


def zip_segs(ip, vs):
    if all(all(s[0] == 'i' for s in v) for v in vs):
        n = min(len(v) for v in vs) if vs else 0
        return tuple(('i', I.Tup([v[i][1] for v in vs])) for i in range(n))
    if len({len(v) for v in vs}) != 1:
        return None
    out = []
    for row in zip(*vs):
        kinds = {s[0] for s in row}
        if kinds == {'i'}:
            out.append(('i', I.Tup([s[1] for s in row])))
        elif kinds == {'e'}:
            sub = zip_segs(ip, [s[2] for s in row])
            if sub is None:
                return None
            idxs = {s[1].idx for s in row}
            lp = row[0][1]
            if len(idxs) > 1:
                return None
            doms = sorted({d for s in row for d in (s[1].dom.args if s[1].dom.op == 'minlen' else (s[1].dom,))}, key=lambda d: d.id)
            if len(doms) > 1:
                lp = I.Loop(mk('minlen', *doms), lp.idx)
            out.append(('e', lp, sub))
        elif kinds == {'g'}:
            if len({s[1] for s in row}) != 1:
                return None
            sub = zip_segs(ip, [s[2] for s in row])
            if sub is None:
                return None
            out.append(('g', row[0][1], sub))
        else:
            return None
    return tuple(out)


def method(ip, o, name, args, kw, node=None):
    nd = ip.nd
    if isinstance(o, Node) and o.op == 'xa':
        if name in ('copy', 'astype', 'tolist', 'squeeze') and (name != 'squeeze' or 1 not in dense.shape(o)):
            return o
        if name in ('flatten', 'ravel'):
            return dense.make((dense.size(dense.shape(o)),), dense.elems(o))
        if name in ('sum', 'dot', 'transpose', 'reshape'):
            a = args if name != 'reshape' or len(args) == 1 else [I.Tup(args)]
            r = dense.call(ip, name, [o] + list(a), kw, UNARY, BINARY, axis_of)
            if r is not None:
                return r
    if isinstance(o, I.Ref):
        c = ip.get(o)
        if o.kind == 'list':
            if name == 'append':
                ip.put(o, c + (('i', args[0]),))
                return NONE
            if name == 'extend':
                ip.put(o, c + ip.rebind(ip.segs_of(args[0])))
                return NONE
            if name == 'insert':
                j = nd(args[0])
                if N.is_num(j) and (j is ZERO or all(s[0] == 'i' for s in c)):
                    p = int(j.args[0])
                    ip.put(o, c[:p] + (('i', args[1]),) + c[p:])
                    return NONE
            if name == 'copy':
                return ip.new('list', c)
            if name == 'pop' and c and all(s[0] == 'i' for s in c):
                p = int(nd(args[0]).args[0]) if args else -1
                v = c[p][1]
                cc = list(c)
                del cc[p]
                ip.put(o, tuple(cc))
                return v
            if name == 'remove' and all(s[0] == 'i' for s in c):
                for n, s in enumerate(c):
                    e = ip.equals(s[1], args[0])
                    if e is TRUE:
                        ip.put(o, c[:n] + c[n + 1:])
                        return NONE
                    if e is not FALSE:
                        raise I.Unsupported('list.remove symbolic')
            if name == 'reverse' and all(s[0] == 'i' for s in c):
                ip.put(o, tuple(reversed(c)))
                return NONE
            if name == 'index' and all(s[0] == 'i' for s in c):
                r = BOT
                hits = []
                for n, s in reversed(list(enumerate(c))):
                    hits.append(ip.equals(s[1], args[0]))
                    r = N.ite(hits[-1], num(n), r)
                ip.soft_fail(N.NOT(N.OR(*hits)), 'ValueError')
                return r
            if name == 'count':
                t = ZERO
                for s in c:
                    if s[0] != 'i':
                        return mk('m:count', ip.arr(o), nd(args[0]))
                    t = N.add(t, N.ite(ip.equals(s[1], args[0]), ONE, ZERO))
                return t
            if name == 'tolist':
                return o
            return method(ip, ip.arr(o), name, args, kw, node)
        if o.kind == 'dict':
            if name == 'get':
                q = ip.freeze(args[0])
                d = args[1] if len(args) > 1 else NONE
                r = d
                for z in reversed(list(c)):
                    r = ip.mv(ip.simp(N.eq(q, z)), c[z], r)
                return r
            if name == 'keys':
                return dict_list(ip, c, lambda q, v: q)
            if name == 'values':
                return dict_list(ip, c, lambda q, v: v)
            if name == 'items':
                return dict_list(ip, c, lambda q, v: I.Tup([q, v]))
            if name == 'update':
                n = dict(c)
                if args:
                    a = args[0]
                    if isinstance(a, I.Ref) and a.kind == 'dict':
                        n.update(ip.get(a))
                    elif isinstance(a, (I.Tup, I.Ref)) and all(s[0] == 'i' and isinstance(s[1], I.Tup) and len(s[1].items) == 2
                                                               for s in ip.segs_of(a)):
                        for s in ip.segs_of(a):             # pairs of a key and a value
                            n[ip.freeze(s[1].items[0])] = s[1].items[1]
                    elif isinstance(a, I.IteVal):
                        ip.on_ite(a, lambda x: method(ip, o, name, [x], {}, node))
                        return NONE
                    else:
                        raise I.Unsupported('dict.update symbolic')
                for q, v in kw.items():
                    n[k(q)] = v
                ip.put(o, n)
                return NONE
            if name == 'copy':
                return ip.new('dict', dict(c))
            if name == 'pop':
                q = ip.freeze(args[0])
                n = dict(c)
                if q in n:
                    v = n.pop(q)
                    ip.put(o, n)
                    return v
                if len(args) > 1:
                    return args[1]
            if name == 'setdefault':
                q = ip.freeze(args[0])
                if q in c:
                    return c[q]
                n = dict(c)
                n[q] = args[1] if len(args) > 1 else NONE
                ip.put(o, n)
                return n[q]
            raise I.Unsupported('dict.%s' % name)
        if o.kind == 'inst':
            if o.cls and o.cls.namedtuple and o.cls.find(name) is None:
                c = ip.get(o)
                if name == '_asdict':
                    return ip.mkdict({k(n): c[n] for n, d in o.cls.fields})
                if name == '_replace':
                    n = dict(c)
                    n.update(kw)
                    return ip.new('inst', n, o.cls)
            f = ip.getattr(o, name)
            return ip.call(f, args, kw)
    if isinstance(o, I.Tup):
        if name == 'index' or name == 'count':
            return method(ip, ip.mklist(o.items), name, args, kw)
        if name == '_replace':
            raise I.Unsupported('_replace')
    if isinstance(o, Node):
        if o is BOT:
            return BOT
        x = o
        if name in EFFECT_METHODS:
            ip.effect(name, o, *args, *[mk('kw', q, ip.freeze(v)) for q, v in sorted(kw.items())])
            return NONE
        if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'flatten', 'ravel', 'dot') and \
                other_options(name, args if name in ('flatten',) else [x] + list(args), {q: v for q, v in kw.items() if q != 'keepdims'} if 'keepdims' in kw else kw):
            return mk('m:' + name, x, *[ip.freeze(a) for a in args], *[mk('kw', q, ip.freeze(v)) for q, v in sorted(kw.items())])
        if kw.get('keepdims') is TRUE and name in ('sum', 'mean', 'max', 'min') and axis_of(kw, args, 0) in (0, 1, -1):
            r = method(ip, o, name, args, {q: v for q, v in kw.items() if q != 'keepdims'}, node)
            return N.transpose(ip.nd(r)) if axis_of(kw, args, 0) == 0 else r
        if name in IDENT_METHODS:
            if name == 'astype' and is_dtype_int(kw.get('dtype') or (args[0] if args else None)):
                return whole_part(ip, x)
            return x
        if name == 'reshape':
            return reshape(ip, x, args)
        if name == 'transpose':
            return N.transpose(x)
        if name == 'sum':
            return asum(ip, x, axis_of(kw, args, 0))
        if name == 'mean':
            if x.op.startswith('m:') or x.op == 'call':
                return mk('m:mean', x)
            return mean(ip, x, axis_of(kw, args, 0))
        if name in ('max', 'min'):
            return reduce_(ip, x, 's' + name, N.vmax if name == 'max' else N.vmin, axis_of(kw, args, 0))
        if name == 'dot':
            return N.mm(x, nd(args[0]))
        if name == 'clip':
            lo = kw.get('min', kw.get('a_min', args[0] if args else NONE))
            hi = kw.get('max', kw.get('a_max', args[1] if len(args) > 1 else NONE))
            return clip(x, nd(lo), nd(hi))
        if name in ('any', 'all'):
            return mk(name, x)
        if name == 'round':
            return round_(x, nd(kw.get('decimals', args[0] if args else ZERO)))
        if name == 'repeat':
            return mk('repeat', x, nd(args[0] if args else kw['repeats']))
        if name == 'get':
            q = ip.freeze(args[0])
            d = args[1] if len(args) > 1 else NONE
            if x.op == 'dict':
                r = ip.freeze(d)
                for kk, v in reversed(x.args):
                    r = N.ite(N.eq(q, kk), v, r)
                return r
            c = ip.simp(mk('in', q, x))
            return ip.mv(c, N.at(x, q), d)
        if name == 'format' and x.op == 'k':
            return fmt(ip, x.args[1], args, kw)
        if x.op == 'k' and isinstance(x.args[1], str) and all(isinstance(a, Node) and a.op == 'k' for a in args) and \
                name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'capitalize', 'title', 'lstrip', 'rstrip'):
            return k(getattr(x.args[1], name)(*[a.args[1] for a in args]))
        if name == 'join' and x.op == 'k':
            sg = ip.segs_of(args[0])
            if all(s[0] == 'i' for s in sg):
                parts = []
                for n, s in enumerate(sg):
                    if n:
                        parts.append(x)
                    parts.append(ip.nd(s[1]))
                return N.cat(*parts)
        if name == 'fill':
            raise I.Unsupported('fill')
        if name in ('keys', 'items', 'values') and x.op == 'dict':
            c = dict(x.args)
            return dict_list(ip, c, {'keys': lambda q, v: q, 'values': lambda q, v: v, 'items': lambda q, v: I.Tup([q, v])}[name])
        if x.op == 'ite' and name in ('keys', 'items', 'values', 'format'):
            return ip.on_ite(I.IteVal(*x.args), lambda y: method(ip, y, name, args, kw, node))
        if name in ('append', 'extend', 'insert', 'update', 'sort', 'pop', 'remove', 'clear', 'setdefault'):
            ip.effect('mutate.' + name, o, *args)
            return mk('m:' + name, x, *[ip.freeze(a) for a in args])

        def cv(a):
            if isinstance(a, (I.FuncVal, I.Bound, I.Partial)):
                return lam(ip, a)
            if isinstance(a, I.Ref) and a.kind == 'list':
                return ip.arr(a)
            return ip.freeze(a)
        return mk('m:' + name, x, *[cv(a) for a in args], *[mk('kw', q, cv(v)) for q, v in sorted(kw.items())])
    if isinstance(o, I.IteVal):
        return ip.on_ite(o, lambda y: ip.call(ip.getm(y, name), args, kw, node))
    raise I.Unsupported('method %s of %s' % (name, type(o).__name__))


def dict_list(ip, c, f):
    segs = []
    for q, v in c.items():
        if q.op == 'eachkey':
            lp = I.Loop(q.args[0], q.args[1])
            segs.append(('e', lp, (('i', f(q.args[2], v)),)))
        else:
            segs.append(('i', f(q, v)))
    return ip.new('list', tuple(segs))


def fmt1(x, spec):
    """one value in the notation of str.format"""
    if spec.op == 'k' and spec.args[1] in ('', 's', 'd'):
        return to_str(x)            # what 'd' does not accept stops the program
    return mk('fmt', x, spec)


def percent(x, y):
    s = x.args[1]
    if not isinstance(s, str):
        return mk('fmt', x, y)
    vals = list(y.args) if y.op == 'tup' else [y]
    parts = []
    i = n = 0
    for m in re.finditer(r'%([-0#+ ]*)(\d*)(\.\d+)?([a-zA-Z%])', s):
        if '%' in s[i:m.start()]:
            return mk('fmt', x, y)
        parts.append(k(s[i:m.start()]))
        i = m.end()
        flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append(k('%'))
            continue
        if n >= len(vals):
            return mk('fmt', x, y)
        v = vals[n]
        n += 1
        if conv == 's' and not (flags or width or prec):
            parts.append(to_str(v))
        elif conv in 'di' and not (flags or width or prec):
            # '%d' cuts a fraction off; what is counted or stored as whole number is written as it is
            whole = v.op == 'idx' or (v.op == 'num' and v.args[0].denominator == 1) or (v.op == 'sym' and v.args[1] == 'int') or v.op in ('len', 'int')
            parts.append(to_str(v) if whole else mk('fmt', v, k('d')))
        elif set(flags) <= {'0', '+'} and conv in 'dfgeE':
            parts.append(mk('fmt', v, k(('+' if '+' in flags else '') + ('0' if '0' in flags else '') + width + (prec or '') + conv)))
        else:
            return mk('fmt', x, y)
    if n != len(vals) or '%' in s[i:]:
        return mk('fmt', x, y)
    parts.append(k(s[i:]))
    return N.cat(*parts)


def fmt(ip, s, args, kw):
    parts = []
    i = 0
    n = 0
    while i < len(s):
        if s[i] == '{':
            if s[i:i + 2] == '{{':
                parts.append(k('{'))
                i += 2
                continue
            j = s.index('}', i)
            key = s[i + 1:j]
            spec = None
            if ':' in key:
                key, spec = key.split(':', 1)
            if key == '':
                v = args[n]
                n += 1
            elif key.isdigit():
                v = args[int(key)]
            elif key in kw:
                v = kw[key]
            else:
                raise I.Unsupported('format')
            x = ip.nd(v)
            parts.append(to_str(x) if not spec else fmt1(x, k(spec)))
            i = j + 1
        else:
            j = i
            while j < len(s) and s[j] not in '{}':
                j += 1
            if j == i:
                parts.append(k(s[i]))
                i += 2
                continue
            parts.append(k(s[i:j]))
            i = j
    return N.cat(*parts)
