"""Abstract interpreter: turns Python source (never executed) into value graphs.

Control flow becomes selection nodes, calls to functions whose source is
available are followed into the callee, loops over unknown collections are
summarised as element-wise maps / sums / recurrences, and writes to files or
loggers are kept as an ordered effect list.
"""
import ast
import os
import time
from fractions import Fraction as F

from . import nodes as N
from . import dense
from .nodes import Node, TRUE, FALSE, NONE, ZERO, ONE, BOT, UNB, mk, k, num


class Unsupported(Exception):
    pass


class AnchorMissing(Exception):
    pass


class Budget(Exception):
    pass


# ---------------------------------------------------------------- values
class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Ref:
    __slots__ = ('kind', 'id', 'cls')
    n = 0

    def __init__(self, kind, cls=None):
        Ref.n += 1
        self.kind = kind
        self.id = Ref.n
        self.cls = cls


def generator_body(fn, _memo={}):
    """body of a generator function rewritten to build the list of what it yields"""
    if fn in _memo:
        return _memo[fn]

    class T(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Expr(self, n):
            v = n.value
            if isinstance(v, ast.Yield):
                meth, arg = 'append', v.value or ast.Constant(None)
            elif isinstance(v, ast.YieldFrom):
                meth, arg = 'extend', v.value
            else:
                return self.generic_visit(n)
            c = ast.Expr(ast.Call(ast.Attribute(ast.Name('__yielded__', ast.Load()), meth, ast.Load()), [arg], []))
            return ast.fix_missing_locations(ast.copy_location(c, n))

        def visit_Return(self, n):
            return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name('__yielded__', ast.Load())), n))

        def visit_Yield(self, n):
            raise Unsupported('yield used as a value')
    import copy
    b = [T().visit(copy.deepcopy(x)) for x in fn.body]
    first = ast.parse('__yielded__ = []').body[0]
    last = ast.parse('return __yielded__').body[0]
    for x in (first, last):
        ast.copy_location(x, fn.body[0])
        ast.fix_missing_locations(x)
    _memo[fn] = [first] + b + [last]
    return _memo[fn]


class FuncVal:
    __slots__ = ('node', 'mod', 'frame', 'defaults', 'kwdefaults', 'cls', 'name', 'kind', 'deco')

    def __init__(self, node, mod, frame, defaults, kwdefaults, cls=None, kind='func'):
        self.node = node
        self.mod = mod
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.kind = kind
        self.name = getattr(node, 'name', '<lambda>')


class ClassVal:
    def __init__(self, name, mod, bases, node):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.node = node
        self.attrs = {}
        self.is_enum = False
        self.dataclass = False
        self.fields = []          # dataclass / namedtuple fields [(name, default)]
        self.members = {}         # enum
        self.namedtuple = False

    @property
    def qual(self):
        return self.mod.name + ':' + self.name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None


class ModVal:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.env = {}
        self.loaded = False


class LibVal:
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path


class Bound:
    __slots__ = ('obj', 'func')

    def __init__(self, obj, func):
        self.obj = obj
        self.func = func


class Meth:
    """method of a non-class value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class IteVal:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class SliceVal:
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Partial:
    """vectorised / partially applied function"""
    __slots__ = ('func', 'kind', 'args', 'kw')

    def __init__(self, func, kind, args=(), kw=None):
        self.func = func
        self.kind = kind
        self.args = args
        self.kw = kw or {}


def one_row(v):
    """a vector, some of whose elements were stored one by one"""
    return v.op == 'store' or v.op == 'ite' and (one_row(v.args[1]) or one_row(v.args[2]))


class Loop:
    __slots__ = ('dom', 'idx')

    def __init__(self, dom, idx):
        self.dom = dom       # Node: number of elements / identity of the collection
        self.idx = idx       # bound index Node


class St:
    __slots__ = ('frames', 'heap', 'pc', 'eff')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.eff = ()

    def copy(self):
        s = St()
        s.frames = {f: dict(e) for f, e in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.eff = self.eff
        return s


def unknown(why):
    return mk('unknown', why)


# ---------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, repo, specdir=None, max_steps=3000000):
        self.repo = repo
        self.known = set()
        self.asked = set()
        self.deadline = float('inf')
        self.specdir = specdir
        self.mods = {}
        self.st = St()
        self.fid = 0
        self.stack = []            # call stack of FunctionDef nodes
        self.depth = 0             # generic loop depth
        self.loops = []
        self.once, self.partly = set(), set()
        self.fails = []            # (cond, exc name, loc)
        self.functions = set()     # analysed functions (qualified)
        self.steps = 0
        self.max_steps = max_steps
        self.cuts = {}
        self.orgs = {}
        self.whole = {}             # arrays that hold whole numbers (or truth values) only: what is stored is truncated
        self.callsite = None
        self.notes = []
        self.file = None
        self.sites = 0
        self.lvn = 0
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m:
            if not m.loaded:
                pass
            return m
        base = os.path.join(self.repo, *name.split('.'))
        path = None
        if os.path.isfile(base + '.py'):
            path = base + '.py'
        elif os.path.isfile(os.path.join(base, '__init__.py')):
            path = os.path.join(base, '__init__.py')
        elif self.specdir and os.path.isfile(os.path.join(self.specdir, name + '.py')):
            path = os.path.join(self.specdir, name + '.py')
        if path is None:
            return None
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        m = ModVal(name, path, tree)
        self.mods[name] = m
        self.load(m)
        return m

    def load(self, m):
        save = (self.st, self.file, self.loops, self.depth, self.stack, self.fails, N.CUR[0])
        self.st = St()
        self.stack = []
        self.loops = []
        self.depth = 0
        self.fails = []
        fid = self.new_frame()
        m.env = self.st.frames[fid]
        self.modframe = fid
        self.st.frames[fid]['__name__'] = k(m.name)
        self.st.frames[fid]['__file__'] = mk('modfile', m.name)
        oldmod = getattr(self, 'mod', None)
        oldframe = getattr(self, 'frame', None)
        self.mod = m
        self.frame = fid
        try:
            for s in m.tree.body:
                try:
                    out, ex = self.exec_block([s])
                except (Unsupported, RecursionError) as e:
                    self.notes.append('module %s line %d: %s' % (m.name, s.lineno, e))
            m.env = self.st.frames[fid]
            m.heap = self.st.heap
            m.loaded = True
        finally:
            self.mod = oldmod
            self.frame = oldframe
            self.st, self.file, self.loops, self.depth, self.stack, self.fails, N.CUR[0] = save
        self.st.heap.update(m.heap)

    def new_frame(self):
        self.fid += 1
        self.st.frames[self.fid] = {}
        return self.fid

    # ------------------------------------------------------------ heap
    def new(self, kind, content, cls=None):
        r = Ref(kind, cls)
        self.st.heap[r.id] = content
        return r

    def get(self, r):
        h = self.st.heap
        if r.id not in h:
            for m in self.mods.values():
                if r.id in getattr(m, 'heap', {}):
                    h[r.id] = m.heap[r.id]
                    break
        return h[r.id]

    def put(self, r, c):
        self.st.heap[r.id] = c

    def mklist(self, items):
        return self.new('list', tuple(('i', v) for v in items))

    def mkdict(self, d=None):
        return self.new('dict', dict(d or {}))

    # ------------------------------------------------------------ merging
    def mv(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Node) and isinstance(b, Node):
            return dense.merge(c, a, b) or N.ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.mv(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind:
            if a.id == b.id:
                return a
            if a.kind == 'inst' and a.cls is b.cls:
                return self.new('inst', self.merge_content(c, 'inst', self.get(a), self.get(b)), a.cls)
            if a.kind in ('list', 'dict'):
                r = self.merge_content(c, a.kind, self.get(a), self.get(b))
                return self.new(a.kind, r)
        if isinstance(a, (FuncVal, ClassVal, LibVal, ModVal)) and type(a) is type(b):
            if isinstance(a, FuncVal) and a.node is b.node and a.frame == b.frame:
                return a
            if isinstance(a, LibVal) and a.path == b.path:
                return a
        if isinstance(a, SliceVal) and isinstance(b, SliceVal):
            return SliceVal(self.mv(c, a.lo, b.lo), self.mv(c, a.hi, b.hi), self.mv(c, a.st, b.st))
        return IteVal(c, a, b)

    def merge_content(self, c, kind, x, y):
        if x is y:
            return x
        if kind in ('dict', 'inst'):
            out = {}
            keys = list(x) + [q for q in y if q not in x]
            for q in keys:
                if q in x and q in y:
                    out[q] = self.mv(c, x[q], y[q])
                elif q in x:
                    out[q] = self.mv(c, x[q], UNB)
                else:
                    out[q] = self.mv(c, UNB, y[q])
            return out
        if kind == 'list':
            p = 0
            while p < len(x) and p < len(y) and self.same_seg(x[p], y[p]):
                p += 1
            rx, ry = x[p:], y[p:]
            if len(rx) == len(ry) and all(s[0] == 'i' for s in rx + ry):
                return x[:p] + tuple(('i', self.mv(c, s[1], t[1])) for s, t in zip(rx, ry))
            if rx and ry and any(s[0] == 'o' and len(s) > 2 for s in rx + ry):
                n = self.seglen(rx)
                if n is self.seglen(ry):
                    return x[:p] + (('o', N.ite(c, self.arr_segs(rx), self.arr_segs(ry)), n),)
            out = x[:p]
            if rx:
                out += (('g', c, rx),)
            if ry:
                out += (('g', N.NOT(c), ry),)
            return out
        return x

    def same_seg(self, s, t):
        if s is t:
            return True
        if s[0] != t[0]:
            return False
        if s[0] == 'i':
            return s[1] is t[1] or (isinstance(s[1], Ref) and isinstance(t[1], Ref) and s[1].id == t[1].id)
        return False

    def merge(self, c, sa, sb, pc):
        """state that equals sa where c holds and sb elsewhere"""
        save = self.st
        out = sa.copy()
        self.st = out
        for i, v in sb.heap.items():
            if isinstance(i, Node):
                va = sa.heap.get(i) or {}
                if va is v:
                    continue
                out.heap[i] = {q: self.mv(c, va.get(q, N.attr(i, q)), v.get(q, N.attr(i, q))) for q in sorted(set(va) | set(v))}
            elif i not in out.heap:
                out.heap[i] = v
        for i, v in list(sa.heap.items()):
            if isinstance(i, Node):
                if i not in sb.heap:
                    out.heap[i] = {q: self.mv(c, v[q], N.attr(i, q)) for q in v}
                continue
            w = sb.heap.get(i)
            if w is not None and w is not v:
                kind = 'list' if isinstance(v, tuple) else 'dict'
                out.heap[i] = self.merge_content(c, kind, v, w)
        for f in set(sa.frames) | set(sb.frames):
            ea, eb = sa.frames.get(f), sb.frames.get(f)
            if ea is None or eb is None:
                out.frames[f] = dict(ea or eb)
                continue
            if ea == eb:
                continue
            env = {}
            for q in list(ea) + [z for z in eb if z not in ea]:
                a, b = ea.get(q, UNB), eb.get(q, UNB)
                env[q] = a if a is b else self.mv(c, a, b)
            out.frames[f] = env
        p = 0
        while p < len(sa.eff) and p < len(sb.eff) and sa.eff[p] is sb.eff[p]:
            p += 1
        out.eff = sa.eff[:p] + sa.eff[p:] + sb.eff[p:]
        out.pc = pc
        self.st = save
        return out

    def cond_since(self, pc, base):
        return N.AND(*pc[len(base):]) if len(pc) > len(base) else TRUE

    def simp(self, c):
        """simplify a condition with the current path condition"""
        if c is TRUE or c is FALSE or not self.st.pc:
            return c
        facts = set()
        eqs = {}
        for p in self.st.pc:
            for q in (p.args if p.op == 'and' else (p,)):
                facts.add(q)
                if q.op == 'eq' and N.is_const(q.args[1]):
                    eqs[q.args[0]] = q.args[1]

        def go(x):
            if x in facts:
                return TRUE
            if N.NOT(x) in facts:
                return FALSE
            if x.op == 'eq' and x.args[0] in eqs and N.is_const(x.args[1]):
                return N.eq(eqs[x.args[0]], x.args[1])
            if x.op == 'not':
                return N.NOT(go(x.args[0]))
            if x.op == 'and':
                return N.AND(*[go(y) for y in x.args])
            if x.op == 'or':
                return N.OR(*[go(y) for y in x.args])
            return x
        return go(c)

    def simp_top(self, n):
        while isinstance(n, Node) and n.op == 'ite':
            c = self.simp(n.args[0])
            if c is TRUE:
                n = n.args[1]
            elif c is FALSE:
                n = n.args[2]
            else:
                break
        return n

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Node):
            if v.op == 'num':
                return TRUE if v.args[0] else FALSE
            if v.op == 'k':
                return TRUE if v.args[1] else FALSE
            if v.op == 'enum':
                return TRUE
            if v.op == 'ite':
                return N.ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            if v.op in ('poly', 'len'):
                return N.NOT(N.eq(v, ZERO))
            if v.op in ('list', 'tup', 'dict'):
                return TRUE if v.args else FALSE
            return v
        if isinstance(v, Ref):
            if v.kind == 'inst':
                return TRUE
            c = self.get(v)
            if v.kind == 'dict':
                return TRUE if c else FALSE
            if not c:
                return FALSE
            if any(s[0] == 'i' for s in c):
                return TRUE
            return N.NOT(N.eq(self.length(v), ZERO))
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, IteVal):
            return N.ite(v.c, self.truth(v.a), self.truth(v.b))
        return TRUE

    # ------------------------------------------------------------ freezing
    def freeze(self, v, _d=0):
        if isinstance(v, Node):
            return v
        if _d > 40:
            return unknown('deep structure')
        f = lambda x: self.freeze(x, _d + 1)
        if isinstance(v, Tup):
            return mk('tup', *[f(x) for x in v.items])
        if isinstance(v, IteVal):
            return N.ite(v.c, f(v.a), f(v.b))
        if isinstance(v, Ref):
            c = self.get(v)
            if v.kind == 'list':
                return N.mklist(*self.freeze_segs(c, _d))
            if v.kind == 'dict':
                return mk('dict', *sorted(((q, f(x)) for q, x in c.items()), key=lambda t: t[0].id))
            if v.kind == 'inst':
                return mk('inst', v.cls.qual if v.cls else '?', mk('dict', *sorted(((k(q), f(x)) for q, x in c.items()), key=lambda t: t[0].id)))
            return mk('ref', v.kind, v.id)
        if isinstance(v, SliceVal):
            lo, hi, st = f(v.lo), f(v.hi), f(v.st)
            if st is ONE:
                st = NONE
            if lo is ZERO and st is NONE:
                lo = NONE           # x[0:n] is x[:n]
            return mk('slice', lo, hi, st)
        if isinstance(v, FuncVal):
            return mk('func', v.mod.name, v.name, v.node.lineno)
        if isinstance(v, ClassVal):
            return mk('class', v.qual)
        if isinstance(v, LibVal):
            return mk('lib', v.path)
        if isinstance(v, ModVal):
            return mk('mod', v.name)
        if isinstance(v, Bound):
            return mk('bound', f(v.obj), f(v.func))
        if isinstance(v, Meth):
            return mk('meth', f(v.obj), v.name)
        if isinstance(v, Partial):
            return mk('partial', f(v.func), v.kind)
        return unknown('value %s' % type(v).__name__)

    def freeze_segs(self, segs, _d=0):
        out = []
        for s in segs:
            if s[0] == 'i':
                out.append(self.freeze(s[1], _d + 1))
            elif s[0] == 'g':
                out.append(mk('guard', s[1], *self.freeze_segs(s[2], _d)))
            elif s[0] == 'e':
                out.append(mk('each', s[1].dom, s[1].idx, *self.freeze_segs(s[2], _d)))
            else:
                out.append(mk('spread', s[1]))
        return out

    explicit = False

    def arr(self, v):
        """numeric array view of a list value"""
        if self.explicit and not isinstance(v, Node):
            r = dense.of(self, v)
            if r is not None:
                return r
        if isinstance(v, Node):
            if v.op == 'list' and len(v.args) == 1 and v.args[0].op == 'each':
                e = v.args[0]
                if len(e.args) == 3 and e.args[2].op not in ('guard', 'each'):
                    return self.collapse(Loop(e.args[0], e.args[1]), e.args[2])
            return v
        if isinstance(v, IteVal):
            return N.ite(v.c, self.arr(v.a), self.arr(v.b))
        if isinstance(v, Tup):
            return mk('list', *[self.arr(x) for x in v.items])
        if isinstance(v, Ref) and v.kind == 'list':
            return self.arr_segs(self.get(v))
        return self.freeze(v)

    def collapse(self, loop, body):
        N.note_columns(body, loop.idx)
        r = N.subst(body, {loop.idx: N.iota_of(loop.idx)})
        return r

    def arr_segs(self, segs):
        if len(segs) == 1 and segs[0][0] == 'o':
            return segs[0][1]
        if len(segs) == 1 and segs[0][0] == 'e':
            _, loop, inner = segs[0]
            if len(inner) == 1 and inner[0][0] == 'i':
                b = inner[0][1]
                nested = isinstance(b, (Ref, Tup))
                body = self.arr(b)
                nested = nested or one_row(body)
                r = self.collapse(loop, body)
                if nested:
                    return mk('rows', r) if r.op != 'rows' else mk('rows', r)
                return r
            if len(inner) == 1 and inner[0][0] == 'g' and len(inner[0][2]) == 1 and inner[0][2][0][0] == 'i':
                c = inner[0][1]
                body = self.arr(inner[0][2][0][1])
                io = N.iota_of(loop.idx)
                N.note_columns(c, loop.idx)
                N.note_columns(body, loop.idx)
                return N.filt(N.subst(c, {loop.idx: io}), N.subst(body, {loop.idx: io}))
        parts = []
        plain = all(s[0] == 'i' for s in segs)
        if plain:
            return mk('list', *[self.arr(s[1]) for s in segs])
        run = []
        for s in segs:
            if s[0] == 'i':
                run.append(self.arr(s[1]))
                continue
            if run:
                parts.append(mk('list', *run))
                run = []
            if s[0] == 'g':
                parts.append(mk('guard', s[1], self.arr_segs(s[2])))
            elif s[0] == 'e':
                if len(s[2]) == 1:
                    parts.append(self.arr_segs((s,)) if s[2][0][0] in ('i', 'g') and not (s[2][0][0] == 'g' and not (len(s[2][0][2]) == 1 and s[2][0][2][0][0] == 'i'))
                                 else mk('each', s[1].dom, s[1].idx, self.arr_segs(s[2])))
                else:
                    parts.append(mk('each', s[1].dom, s[1].idx, self.arr_segs(s[2])))
            else:
                parts.append(s[1])
        if run:
            parts.append(mk('list', *run))
        return parts[0] if len(parts) == 1 else mk('concat', *parts)

    def nd(self, v):
        """value as Node in a numeric / comparison context"""
        if isinstance(v, Node):
            if v is UNB:
                return BOT
            if v.op == 'ite':
                return self.strip_unb(v)
            return v
        if isinstance(v, Ref) and v.kind == 'list':
            return self.arr(v)
        if isinstance(v, IteVal):
            return N.ite(v.c, self.nd(v.a), self.nd(v.b))
        return self.freeze(v)

    def strip_unb(self, v):
        if v.op == 'ite':
            a, b = v.args[1], v.args[2]
            if a is UNB:
                self.fail(v.args[0], 'unbound')
                return self.strip_unb(b)
            if b is UNB:
                self.fail(N.NOT(v.args[0]), 'unbound')
                return self.strip_unb(a)
            na, nb = self.strip_unb(a), self.strip_unb(b)
            if na is not a or nb is not b:
                return N.ite(v.args[0], na, nb)
        return v

    def fail(self, c, why):
        cond = N.AND(*(self.st.pc + (c,)))
        if cond is FALSE:
            return
        self.fails.append((cond, why, N.CUR[0] or self.curloc))

    codes = False

    def soft_fail(self, c, why):
        """a code that is in no table: counted where the property is about codes"""
        if self.codes:
            self.fail(c, why)

    curloc = None

    # ------------------------------------------------------------ lengths / iteration
    def length(self, v):
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, IteVal):
            return N.ite(v.c, self.length(v.a), self.length(v.b))
        if isinstance(v, Ref):
            if v.kind == 'dict':
                return num(len(self.get(v)))
            if v.kind == 'list':
                return self.seglen(self.get(v))
        if isinstance(v, Node):
            if v.op in ('list', 'tup') and not any(x.op in ('each', 'guard', 'spread') for x in v.args):
                return num(len(v.args))
            if v.op == 'xa':
                return num(dense.shape(v)[0])
            if v.op == 'k' and isinstance(v.args[1], str):
                return num(len(v.args[1]))
            if v.op == 'T':
                return N.at(mk('shape', v.args[0]), ONE)
            return mk('len', v)
        return mk('len', self.freeze(v))

    def seglen(self, segs):
        t = ZERO
        for s in segs:
            if s[0] == 'i':
                t = N.add(t, ONE)
            elif s[0] == 'g':
                t = N.add(t, N.mul2(N.ite(s[1], ONE, ZERO), self.seglen(s[2])))
            elif s[0] == 'e':
                t = N.add(t, N.isum(s[1].dom, self.seglen(s[2]), s[1].idx))
            else:
                t = N.add(t, s[2] if len(s) > 2 else mk('len', s[1]))
        return t

    def natural(self, dom):
        """whole-collection loop (any length): index carries no domain tag"""
        return Loop(dom, N.idx(self.depth))

    def segs_of(self, v):
        """iteration view of a value: tuple of segments"""
        if isinstance(v, Tup):
            return tuple(('i', x) for x in v.items)
        if isinstance(v, Ref):
            c = self.get(v)
            if v.kind == 'list':
                return c
            if v.kind == 'dict':
                return tuple(('i', q) for q in c)
            if v.kind == 'inst' and v.cls and v.cls.namedtuple:
                return tuple(('i', c[f]) for f, _ in v.cls.fields)
        if isinstance(v, ClassVal) and v.is_enum:
            return tuple(('i', m) for m in v.members.values())
        if isinstance(v, Node):
            if v.op in ('list', 'tup') and not any(x.op in ('each', 'guard', 'spread') for x in v.args):
                return tuple(('i', x) for x in v.args)
            if v.op == 'xa':
                return tuple(('i', x) for x in dense.items(v))
            if v.op == 'range':
                lo, hi, st = v.args
                if N.is_num(lo) and N.is_num(hi) and N.is_num(st) and abs(hi.args[0] - lo.args[0]) <= 400:
                    return tuple(('i', num(i)) for i in range(int(lo.args[0]), int(hi.args[0]), int(st.args[0])))
                if lo is ZERO and st is ONE and hi.op != 'poly' and hi.op != 'num':
                    lp = self.natural(hi)
                    return (('e', lp, (('i', lp.idx),)),)
                if lo is ZERO and st is ONE and is_count(hi):
                    lp = self.natural(hi)
                    return (('e', lp, (('i', lp.idx),)),)
                if N.is_num(lo) and st is ONE and (N.sub(hi, lo).op not in ('poly', 'num') or is_count(N.sub(hi, lo))):
                    lp = self.natural(N.sub(hi, lo))
                    return (('e', lp, (('i', N.add(lp.idx, lo)),)),)
                lp = Loop(mk('rangelen', lo, hi, st), mk('idx', self.depth, v))
                return (('e', lp, (('i', lp.idx),)),)
            if v.op == 'list':
                return self.unfreeze_segs(v.args)
            if v.op == 'ite' and not (N.array_like(v) and not N.is_scalar(v.args[0])):
                return (('g', v.args[0], self.segs_of(v.args[1])), ('g', N.NOT(v.args[0]), self.segs_of(v.args[2])))
            if v is BOT or v is NONE:
                return ()
            if v.op == 'filt':
                lp = self.natural(mk('len', v))
                return (('e', lp, (('i', N.at(v, lp.idx)),)),)
            if v.op == 'T':
                lp = self.natural(N.at(mk('shape', v.args[0]), ONE))
                return (('e', lp, (('i', N.at(v.args[0], mk('tup', mk('slice', NONE, NONE, NONE), lp.idx))),)),)
            lp = self.natural(mk('len', v))
            return (('e', lp, (('i', N.at(v, lp.idx)),)),)
        if isinstance(v, IteVal):
            return (('g', v.c, self.segs_of(v.a)), ('g', N.NOT(v.c), self.segs_of(v.b)))
        raise Unsupported('iterate over %s' % type(v).__name__)

    def unfreeze_segs(self, ns):
        out = []
        for x in ns:
            if x.op == 'each':
                out.append(('e', Loop(x.args[0], x.args[1]), self.unfreeze_segs(x.args[2:])))
            elif x.op == 'guard':
                out.append(('g', x.args[0], self.unfreeze_segs(x.args[1:])))
            elif x.op == 'spread':
                out.append(('o', x.args[0]))
            else:
                out.append(('i', x))
        return tuple(out)

    def rebind(self, segs):
        """rename bound indices so that generic segments use the current depth"""
        out = []
        for s in segs:
            if s[0] == 'e':
                lp = s[1]
                want = N.idx(self.depth, *lp.idx.args[1:])
                if lp.idx is not want:
                    out.append(('e', Loop(lp.dom, want), tuple(self.subst_seg(z, {lp.idx: want}) for z in s[2])))
                else:
                    out.append(s)
            elif s[0] == 'g':
                out.append(('g', s[1], self.rebind(s[2])))
            elif s[0] == 'o':
                lp = self.natural(s[2] if len(s) > 2 else mk('len', s[1]))
                out.append(('e', lp, (('i', N.at(s[1], lp.idx)),)))
            else:
                out.append(s)
        return tuple(out)

    def subst_seg(self, s, m):
        if s[0] == 'i':
            return ('i', self.subst_val(s[1], m))
        if s[0] == 'g':
            return ('g', N.subst(s[1], m), tuple(self.subst_seg(z, m) for z in s[2]))
        if s[0] == 'e':
            return ('e', Loop(N.subst(s[1].dom, m), s[1].idx), tuple(self.subst_seg(z, m) for z in s[2]))
        return ('o',) + tuple(N.subst(z, m) for z in s[1:])

    def subst_val(self, v, m):
        if isinstance(v, Node):
            return N.subst(v, m)
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, m) for x in v.items])
        if isinstance(v, IteVal):
            return IteVal(N.subst(v.c, m), self.subst_val(v.a, m), self.subst_val(v.b, m))
        if isinstance(v, Ref):
            c = self.get(v)
            if v.kind == 'list':
                n = tuple(self.subst_seg(s, m) for s in c)
            else:
                n = {q: self.subst_val(x, m) for q, x in c.items()}
            same = (n == c) if v.kind != 'list' else all(self.same_seg(x, y) for x, y in zip(n, c))
            if same:
                return v
            return self.new(v.kind, n, v.cls)
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """returns (falls_through: bool, exits) ; self.st is the fall-through state"""
        exits = []
        for i, s in enumerate(stmts):
            self.steps += 1
            if self.steps > self.max_steps or (self.steps & 255 == 0 and time.time() > self.deadline):
                raise Budget('step budget')
            fall, ex = self.exec_stmt(s)
            exits.extend(ex)
            if not fall:
                return False, exits
        return True, exits

    def setloc(self, node):
        self.curloc = (self.mod.path, getattr(node, 'lineno', 0), self.stack[-1].name if self.stack and hasattr(self.stack[-1], 'name') else '<module>')
        if self.mod.path.startswith(self.repo):
            N.CUR[0] = self.curloc
        else:
            N.CUR[0] = None

    def exec_stmt(self, s):
        self.setloc(s)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s)

    def x_Pass(self, s):
        return True, []

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return True, []
        self.ev(s.value)
        return True, []

    def x_Import(self, s):
        for a in s.names:
            nm = a.name
            if nm.split('.')[0] in ('heat_load_calc',) or self.is_local(nm):
                m = self.module(nm)
                if a.asname:
                    self.bind(a.asname, m)
                else:
                    self.bind(nm.split('.')[0], LibVal(nm.split('.')[0]))
            else:
                self.bind(a.asname or nm.split('.')[0], LibVal(ALIAS.get(nm, nm) if a.asname else nm.split('.')[0]))
        return True, []

    def is_local(self, nm):
        return bool(self.specdir) and os.path.isfile(os.path.join(self.specdir, nm + '.py'))

    def x_ImportFrom(self, s):
        modname = s.module or ''
        if s.level:
            parts = self.mod.name.split('.')[:-s.level]
            modname = '.'.join(parts + ([s.module] if s.module else []))
        local = modname.split('.')[0] == 'heat_load_calc' or self.is_local(modname)
        if not local:
            for a in s.names:
                if a.name == '*':
                    raise Unsupported('star import of library')
                self.bind(a.asname or a.name, LibVal(ALIAS.get(modname, modname) + '.' + a.name))
            return True, []
        m = self.module(modname)
        for a in s.names:
            if a.name == '*':
                for q, v in m.env.items():
                    if not q.startswith('_'):
                        self.bind(q, v)
                continue
            v = m.env.get(a.name) if m else None
            if v is None:
                v = self.module(modname + '.' + a.name)
            if v is None:
                if not self.mod.path.startswith(self.repo):
                    raise AnchorMissing('%s.%s' % (modname, a.name))
                raise Unsupported('cannot import %s.%s' % (modname, a.name))
            self.bind(a.asname or a.name, v)
        return True, []

    def bind(self, name, v):
        self.orgs.pop((self.frame, name), None)
        self.whole.pop((self.frame, name), None)
        self.st.frames[self.frame][name] = v

    def x_FunctionDef(self, s):
        f = self.make_func(s)
        deco = [self.deco_name(d) for d in s.decorator_list]
        for d in deco:
            if d in ('staticmethod', 'classmethod', 'property', 'abstractmethod', 'abc.abstractmethod'):
                if d in ('staticmethod', 'classmethod', 'property'):
                    f.kind = d
            elif d.endswith('.setter'):
                f.kind = 'setter'
                return True, []
            elif d in ('ob', 'functools.lru_cache', 'lru_cache', 'functools.wraps'):
                pass
            else:
                self.notes.append('decorator %s ignored' % d)
        self.bind(s.name, f)
        return True, []

    def deco_name(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        return ast.unparse(d)

    def make_func(self, s):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {p.arg: self.ev(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncVal(s, self.mod, self.frame, defaults, kwd)

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        cls = ClassVal(s.name, self.mod, bases, s)
        deco = [self.deco_name(d) for d in s.decorator_list]
        cls.dataclass = any(d.endswith('dataclass') for d in deco)
        for b in bases:
            if isinstance(b, LibVal) and b.path in ('enum.Enum', 'enum.IntEnum', 'Enum', 'IntEnum', 'enum.Flag'):
                cls.is_enum = True
            if isinstance(b, LibVal) and b.path.endswith('NamedTuple'):
                cls.namedtuple = True
                cls.dataclass = True
            if isinstance(b, ClassVal) and b.is_enum:
                cls.is_enum = True
        for b in reversed(cls.mro()[1:]):
            for f, dflt in b.fields:
                cls.fields = [x for x in cls.fields if x[0] != f] + [(f, dflt)]
        fid = self.new_frame()
        outer = self.frame
        env = self.st.frames[fid]
        env['__outer__'] = outer
        self.frame = fid
        auto = 0
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                self.exec_stmt(b)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                d = self.ev(b.value) if b.value is not None else None
                cls.fields.append((b.target.id, d))
                if d is not None:
                    env[b.target.id] = d
            elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            else:
                self.exec_stmt(b)
        env = dict(self.st.frames[fid])
        env.pop('__outer__', None)
        self.frame = outer
        for q, v in env.items():
            if isinstance(v, FuncVal):
                v.cls = v.cls or cls
                v.frame = outer if v.frame == fid else v.frame
            if cls.is_enum and not isinstance(v, FuncVal) and not q.startswith('_'):
                if isinstance(v, Node) and v.op == 'lib' or isinstance(v, LibVal):
                    auto += 1
                    v = num(auto)
                if isinstance(v, Node) and v.op == 'call' and 'auto' in str(v.args[0]):
                    auto += 1
                    v = num(auto)
                mem = N.enum(cls.qual, q, self.freeze(v))
                cls.members[q] = mem
                v = mem
            cls.attrs[q] = v
        CLASSES[cls.qual] = cls
        self.bind(s.name, cls)
        return True, []

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        return False, [(self.st, 'return', v)]

    def x_Assign(self, s):
        v = self.ev(s.value)
        whole = self.dtype_of(s.value)
        for t in s.targets:
            self.assign(t, v)
            if whole and isinstance(t, ast.Name):
                self.whole[(self.frame, t.id)] = whole
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                key = self.whole_key(t)
                self.whole.pop(key, None)
                if whole and key is not None:
                    self.whole[key] = whole
            if isinstance(t, ast.Name):
                self.note_alias(self.frame, t.id, self.frame, s.value, v)
            elif isinstance(t, ast.Attribute) and isinstance(s.value, ast.Name) and isinstance(v, Node):
                # obj.attr = x : later stores through x are seen through the attribute
                self.note_alias(self.frame, s.value.id, self.frame, t, v)
        return True, []

    def whole_key(self, t):
        if isinstance(t, ast.Name):
            return self.frame, t.id
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            o = self.st.frames[self.frame].get(t.value.id)
            if isinstance(o, Ref):
                return ('ref', o.id), t.attr
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'getattr' and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            o = self.st.frames[self.frame].get(t.args[0].id)
            q = self.ev(t.args[1])
            if isinstance(o, Ref) and isinstance(q, Node) and q.op == 'k':
                return ('ref', o.id), q.args[1]
        return None

    def dtype_of(self, e):
        """'int' or 'bool' if the expression makes an array which cannot hold fractions"""
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.whole.get(self.whole_key(e))
        if not isinstance(e, ast.Call):
            return None
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
        if name == 'copy' and isinstance(e.func, ast.Attribute) and not e.args:
            return self.dtype_of(e.func.value)
        at = {'zeros': 1, 'ones': 1, 'empty': 1, 'full': 2, 'zeros_like': 1, 'ones_like': 1, 'empty_like': 1, 'full_like': 2, 'array': 1, 'asarray': 1,
              'astype': 0}.get(name)
        if at is None:
            return None
        d = [q.value for q in e.keywords if q.arg == 'dtype'] or e.args[at:at + 1]
        if d:
            d = d[0]
            n = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else d.value if isinstance(d, ast.Constant) else ''
            n = str(n)
            return 'int' if n.startswith(('int', 'uint')) or n in ('i', 'i4', 'i8') else 'bool' if n in ('bool', 'bool_', '?') else None
        if name == 'full' or name in ('array', 'asarray'):
            x = e.args[1:2] if name == 'full' else e.args[:1]
            if not x:
                return None
            leaves = [c for c in ast.walk(x[0]) if not isinstance(c, (ast.List, ast.Tuple, ast.UnaryOp, ast.USub, ast.Load, ast.UAdd))]
            if leaves and all(isinstance(c, ast.Constant) and isinstance(c.value, int) for c in leaves):
                return 'bool' if all(isinstance(c.value, bool) for c in leaves) else 'int'
            return None
        if name.endswith('_like') and e.args:
            r = self.dtype_of(e.args[0])
            if r:
                return r
            if isinstance(e.args[0], ast.Name):
                v = self.st.frames[self.frame].get(e.args[0].id)
                if isinstance(v, Node) and v.op in N.BOOLOPS:
                    return 'bool'
        return None

    def cut_to(self, kind, v):
        """what is left of v when it is stored into an array of whole numbers"""
        w = N.wholeness(v)
        if w == 'real':
            return N.func('int', v) if kind == 'int' else N.NOT(N.eq0(v))
        if w is None and kind == 'int':
            raise Unsupported('store of a value of unknown type into an array of whole numbers')
        return v

    def note_alias(self, fid, name, ofid, expr, v):
        """fid:name holds the same array object as expr evaluated in frame ofid"""
        if isinstance(v, Node) and not N.is_const(v) and isinstance(expr, (ast.Name, ast.Attribute)):
            if isinstance(expr, ast.Attribute) and not isinstance(expr.value, ast.Name):
                return
            if (fid, name) != (ofid, getattr(expr, 'id', None)):
                self.orgs[(fid, name)] = (ofid, expr)

    def owner(self, name):
        """frame whose variable a name refers to"""
        fr = self.frame
        while fr is not None and fr in self.st.frames:
            if name in self.st.frames[fr]:
                return fr
            fr = self.st.frames[fr].get('__outer__')
        if name in self.mod.env and self.st.frames.get(self.frame) is not self.mod.env:
            raise Unsupported('in-place change of the module variable %s' % name)
        return self.frame

    def update_in_place(self, name, old, new):
        """an array changes: under the name it was changed by, and under every other"""
        save = self.frame
        self.frame = self.owner(name)
        org = self.orgs.get((self.frame, name))
        self.bind(name, new)
        if org is not None:
            self.orgs[(self.frame, name)] = org
        self.store_aliases(name, old, new)
        self.frame = save

    def store_aliases(self, name, old, new, seen=None):
        """an element store through a variable is visible through every other name of the array"""
        if not self.orgs:
            return
        seen = seen or {(self.frame, name)}
        me = (self.frame, name)
        todo = []
        o = self.orgs.get(me)
        if o is not None:
            todo.append(o)
        for key, (ofid, expr) in self.orgs.items():
            if ofid == self.frame and isinstance(expr, ast.Name) and expr.id == name and key not in seen:
                todo.append((key[0], ast.Name(id=key[1], ctx=ast.Load())))
        save = self.frame
        for fid, expr in todo:
            if fid not in self.st.frames:
                continue
            if isinstance(expr, ast.Name) and (fid, expr.id) in seen:
                continue
            if isinstance(expr, ast.Name):
                if self.st.frames[fid].get(expr.id) is not old:
                    continue
                seen.add((fid, expr.id))
                self.st.frames[fid][expr.id] = new
                self.frame = fid
                self.store_aliases(expr.id, old, new, seen)
                self.frame = save
            else:
                b = self.st.frames[fid].get(expr.value.id)
                if b is None:
                    continue
                try:
                    cur = self.getattr(b, expr.attr)
                except Unsupported:
                    continue
                if cur is old:
                    self.setattr(b, expr.attr, new, expr)
        self.frame = save

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
        return True, []

    def x_AugAssign(self, s):
        cur = self.ev(as_load(s.target))
        v = self.ev(s.value)
        if isinstance(cur, Ref) and cur.kind == 'list' and isinstance(s.op, ast.Add):
            self.put(cur, self.get(cur) + self.rebind(self.segs_of(v)))
            return True, []
        self.assign(s.target, self.binop(s.op, cur, v))
        return True, []

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            g = self.st.frames[self.frame].get('__nonlocal__')
            if g and t.id in g:
                fr = g[t.id]
                self.st.frames[fr][t.id] = v
                return
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            self.setitem(t, o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Call):
            o, q = self.ev(t.args[0]), self.ev(t.args[1])
            if not (isinstance(q, Node) and q.op == 'k' and isinstance(q.args[1], str)):
                raise Unsupported('in-place update of a computed attribute')
            self.setattr(o, q.args[1], v, t)
        else:
            raise Unsupported('assign target')

    def unpack(self, elts, v):
        n = len(elts)
        items = self.as_items(v, n)
        if items is None:
            raise Unsupported('unpack %s' % type(v).__name__)
        if any(isinstance(e, ast.Starred) for e in elts):
            p = [isinstance(e, ast.Starred) for e in elts].index(True)
            if isinstance(v, Node):
                raise Unsupported('starred unpack of symbolic')
            tail = n - p - 1
            mid = self.mklist(items[p:len(items) - tail])
            items = list(items[:p]) + [mid] + list(items[len(items) - tail:])
        for e, x in zip(elts, items):
            self.assign(e, x)

    def as_items(self, v, n):
        if isinstance(v, IteVal):
            a, b = self.as_items(v.a, n), self.as_items(v.b, n)
            if a is None or b is None:
                return None
            fit = lambda xs: xs if len(xs) == n else [BOT] * n
            return [self.mv(v.c, x, y) for x, y in zip(fit(a), fit(b))]
        if v is NONE:
            return [BOT] * n
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Ref) and v.kind == 'list' and all(s[0] == 'i' for s in self.get(v)):
            return [s[1] for s in self.get(v)]
        if isinstance(v, Ref) and v.kind == 'inst' and v.cls and v.cls.namedtuple:
            return [self.get(v)[f] for f, _ in v.cls.fields]
        if isinstance(v, Node):
            if v.op in ('tup', 'list') and not any(x.op in ('each', 'guard', 'spread') for x in v.args):
                return v.args
            if v.op == 'xa':
                return tuple(dense.items(v))
            if v.op == 'ite':
                a, b = self.as_items(v.args[1], n), self.as_items(v.args[2], n)
                if a is not None and b is not None:
                    fit = lambda xs: xs if len(xs) == n else [BOT] * n
                    return [N.ite(v.args[0], self.freeze(x), self.freeze(y)) for x, y in zip(fit(a), fit(b))]
            return [N.at(v, num(i)) for i in range(n)]
        return None

    def setattr(self, o, name, v, t):
        if isinstance(o, Ref) and o.kind == 'inst':
            c = dict(self.get(o))
            c[name] = v
            self.put(o, c)
        elif isinstance(o, Node):
            if o.op not in ('sym', 'attr', 'at'):
                raise Unsupported('attribute assignment on a computed value')
            for lp in self.loops:
                ix = getattr(lp, 'idx', None)
                if ix is not None and N.mentions(o, ix):
                    raise Unsupported('attribute assignment on an element of an unknown collection')
            ov = dict(self.st.heap.get(o) or {})
            ov[name] = v if isinstance(v, Ref) else self.freeze(v)
            self.st.heap[o] = ov
        elif isinstance(o, ClassVal):
            o.attrs[name] = v
            self.effect('setclassattr', k(o.qual), k(name), v)
        elif isinstance(o, IteVal):
            self.on_ite(o, lambda x: self.setattr(x, name, v, t))
        else:
            raise Unsupported('setattr on %s' % type(o).__name__)

    def setitem(self, t, o, i, v):
        if isinstance(o, Ref) and o.kind == 'dict':
            c = dict(self.get(o))
            c[self.freeze(i)] = v
            self.put(o, c)
            return
        if isinstance(o, Ref) and o.kind == 'list':
            c = self.get(o)
            i = self.freeze(i) if not isinstance(i, Node) else i
            if N.is_num(i) and all(s[0] == 'i' for s in c):
                j = int(i.args[0])
                if -len(c) <= j < len(c):
                    c = list(c)
                    c[j] = ('i', v)
                    self.put(o, tuple(c))
                    return
            self.put(o, (('o', N.store(self.arr(o), self.simp_top(i), self.nd(v)), self.seglen(c)),))
            return
        if isinstance(o, Ref) and o.kind == 'inst':
            raise Unsupported('item assignment on instance')
        if isinstance(o, (Node, IteVal)):
            b = self.nd(o)
            key = self.whole_key(t.value)
            kind = self.whole.get(key)
            if kind:
                v = self.cut_to(kind, self.nd(v))
            ii = self.simp_top(self.index_node(i))
            nv = dense.store(self, b, ii, v) if b.op == 'xa' else None
            if nv is not None:
                pass
            elif is_full(ii):
                nv = self.nd(v)
            else:
                nv = N.store(b, ii, self.nd(v))
            if isinstance(t.value, ast.Name):
                self.update_in_place(t.value.id, o, nv)
            else:
                self.assign(as_store(t.value), nv)
            if kind:
                self.whole[key] = kind
            return
        raise Unsupported('setitem on %s' % type(o).__name__)

    def index_node(self, i):
        """normalise an index expression"""
        n = i if isinstance(i, Node) else self.freeze(i)
        if n.op == 'tup':
            parts = list(n.args)
            while len(parts) > 1 and is_full(parts[-1]):
                parts.pop()
            if len(parts) == 1:
                return parts[0]
            return mk('tup', *parts)
        return n

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev_index(t.slice)
                if isinstance(o, Ref) and o.kind == 'dict':
                    c = dict(self.get(o))
                    c.pop(self.freeze(i), None)
                    self.put(o, c)
                    continue
                raise Unsupported('delete')
            elif isinstance(t, ast.Name):
                self.st.frames[self.frame].pop(t.id, None)
        return True, []

    def x_Global(self, s):
        raise Unsupported('global')

    def x_Nonlocal(self, s):
        env = self.st.frames[self.frame]
        g = dict(env.get('__nonlocal__') or {})
        for nm in s.names:
            fr = env.get('__outer__')
            while fr is not None and nm not in self.st.frames[fr]:
                fr = self.st.frames[fr].get('__outer__')
            if fr is None:
                raise Unsupported('nonlocal')
            g[nm] = fr
        env['__nonlocal__'] = g
        return True, []

    def x_Assert(self, s):
        c = self.simp(self.truth(self.ev(s.test)))
        self.fail(N.NOT(c), 'AssertionError')
        if c is not TRUE:
            self.st.pc = self.st.pc + (c,)
        return True, []

    def x_Raise(self, s):
        name = 'raise'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e)
        self.fail(TRUE, name)
        return False, []

    def x_Try(self, s):
        # handlers model abnormal paths the value graph does not follow
        n0 = len(self.fails)
        fall, ex = self.exec_block(s.body)
        if s.handlers and len(self.fails) > n0:
            raise Unsupported('try with reachable handler')
        if fall and s.orelse:
            fall, e2 = self.exec_block(s.orelse)
            ex = ex + e2
        if fall and s.finalbody:
            fall, e3 = self.exec_block(s.finalbody)
            ex = ex + e3
        return fall, ex

    def x_While(self, s):
        # bounded unrolling when the condition is decided
        exits = []
        for _ in range(500):
            c = self.simp(self.truth(self.ev(s.test)))
            if c is FALSE:
                return True, exits
            if c is not TRUE:
                raise Unsupported('while with undecided condition')
            fall, ex = self.exec_block(s.body)
            for st, kind, v in ex:
                if kind in ('break', 'continue'):
                    if not fall and len(ex) == 1:
                        self.st = st
                        if kind == 'break':
                            return True, exits
                        fall = True
                        continue
                    raise Unsupported('conditional break in while')
                exits.append((st, kind, v))
            if not fall:
                return False, exits
        raise Unsupported('while bound')

    def x_Break(self, s):
        return False, [(self.st, 'break', None)]

    def x_Continue(self, s):
        return False, [(self.st, 'continue', None)]

    def x_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.exec_block(s.body)

    def x_Match(self, s):
        subj = self.ev(s.subject)
        return self.match_cases(subj, s.cases)

    def match_cases(self, subj, cases):
        if not cases:
            return True, []
        c = cases[0]
        cond = self.pattern(subj, c.pattern)
        if c.guard is not None:
            cond = N.AND(cond, self.truth(self.ev(c.guard)))
        return self.branch(self.simp(cond), lambda: self.exec_block(c.body), lambda: self.match_cases(subj, cases[1:]))

    def pattern(self, subj, p):
        if isinstance(p, ast.MatchValue):
            return self.compare(ast.Eq(), subj, self.ev(p.value))
        if isinstance(p, ast.MatchSingleton):
            return N.eq(self.nd(subj), k(p.value))
        if isinstance(p, ast.MatchOr):
            return N.OR(*[self.pattern(subj, q) for q in p.patterns])
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.bind(p.name, subj)
            return TRUE
        raise Unsupported('match pattern')

    def x_If(self, s):
        c = self.simp(self.truth(self.ev(s.test)))
        return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, fa, fb):
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        if c is BOT:
            self.fail(TRUE, 'condition fails')
            return False, []
        base = self.st
        pc = base.pc
        frame = self.frame
        self.st = base.copy()
        self.st.pc = pc + (c,)
        falla, exa = fa()
        sa = self.st
        self.frame = frame
        self.st = base.copy()
        self.st.pc = pc + (N.NOT(c),)
        fallb, exb = fb()
        sb = self.st
        self.frame = frame
        ex = exa + exb
        if falla and fallb:
            ca, cb = self.cond_since(sa.pc, pc), self.cond_since(sb.pc, pc)
            extra = N.OR(ca, cb)
            self.st = self.merge(c, sa, sb, pc + ((extra,) if extra is not TRUE else ()))
            return True, ex
        if falla:
            self.st = sa
            return True, ex
        if fallb:
            self.st = sb
            return True, ex
        return False, ex

    # ------------------------------------------------------------ for loops
    def x_For(self, s):
        it = self.ev(s.iter)
        self.setloc(s)
        segs = self.rebind(self.segs_of(self.used(s.iter, it)))
        if s.orelse:
            raise Unsupported('for-else')
        return self.run_segs(segs, s, [])

    def run_segs(self, segs, s, exits):
        for n, sg in enumerate(segs):
            if sg[0] == 'i':
                self.assign(s.target, sg[1])
                fall, ex = self.exec_block(s.body)
                cont = [e for e in ex if e[1] == 'continue']
                brk = [e for e in ex if e[1] == 'break']
                exits.extend(e for e in ex if e[1] not in ('continue', 'break'))
                base = self.st.pc if fall else None
                if cont:
                    fall = self.join(fall, cont)
                if brk:
                    # remaining iterations run only on the fall-through path
                    if not fall:
                        self.join(False, brk)
                        return True, exits
                    st0 = self.st
                    f2, ex2 = self.run_segs(segs[n + 1:], s, exits)
                    if not f2:
                        self.join(False, brk)
                        return True, exits
                    self.join(True, brk)
                    return True, exits
                if not fall:
                    return False, exits
            elif sg[0] == 'g':
                c = self.simp(sg[1])
                ok, ex = self.branch(c, lambda: self.run_segs(sg[2], s, []), lambda: (True, []))
                exits.extend(ex)
                if not ok:
                    return False, exits
            elif sg[0] == 'e':
                self.generic_loop(sg, s)
        return True, exits

    def join(self, fall, others):
        """merge the states of exits into the fall-through state"""
        states = [o[0] for o in others]
        allst = ([self.st] if fall else []) + states
        # longest common pc prefix
        p = 0
        while all(len(x.pc) > p for x in allst) and len({id(x.pc[p]) for x in allst}) == 1:
            p += 1
        base = allst[0].pc[:p]
        acc = allst[0]
        for x in allst[1:]:
            acc = self.merge(self.cond_since(x.pc, base), x, acc, base)
        self.st = acc
        return True

    def generic_loop(self, sg, s):
        pre = self.st
        nf, nn = len(self.fails), len(self.notes)
        if self.generic_loop_(sg, s, True) is False:
            # names assumed to be one array came apart: keep them separate
            self.st = pre
            del self.fails[nf:]
            del self.notes[nn:]
            self.generic_loop_(sg, s, False)

    def generic_loop_(self, sg, s, share):
        loop, inner = sg[1], sg[2]
        pre = self.st
        shared = {}

        def fresh(v0, v1):
            if share and isinstance(v0, Node) and isinstance(v1, Node):
                if (v0, v1) in shared:
                    return shared[(v0, v1)]
                self.lvn += 1
                shared[(v0, v1)] = x = mk('lv', self.lvn)
                return x
            self.lvn += 1
            return mk('lv', self.lvn)
        idx = loop.idx
        # discovery pass: which names / heap cells does the body change?
        self.depth += 1
        self.loops.append(loop)
        nf, nn = len(self.fails), len(self.notes)
        try:
            self.st = pre.copy()
            self.body_once(inner, s)
            post = self.st
            fr = self.frame
            changed = []
            for f, env in post.frames.items():
                if f not in pre.frames:
                    continue
                for q, v in env.items():
                    if q in pre.frames[f] and pre.frames[f][q] is not v:
                        changed.append((f, q))
            targets = set(assigned_names(s.target))
            heap_changed = [i for i, v in post.heap.items() if i in pre.heap and pre.heap[i] is not v]
            del self.fails[nf:]
            # second pass with loop-carried symbols
            self.st = pre.copy()
            lv = {}
            orders = {}
            for n, (f, q) in enumerate(changed):
                v0 = pre.frames[f][q]
                if f == fr and q in targets:
                    continue
                if isinstance(v0, Node) or not isinstance(v0, (Ref, Tup)):
                    x = fresh(v0, post.frames[f][q])
                    lv[(f, q)] = x
                    self.st.frames[f][q] = x
                elif isinstance(v0, Tup):
                    items = []
                    for _ in v0.items:
                        self.lvn += 1
                        items.append(mk('lv', self.lvn))
                    lv[(f, q)] = Tup(items)
                    self.st.frames[f][q] = lv[(f, q)]
            marks = {}
            hl = {}
            for i in heap_changed:
                v0 = pre.heap[i]
                if isinstance(v0, tuple):
                    m = ('o', mk('lvlist', i))
                    marks[i] = m
                    self.st.heap[i] = (m,)
                else:
                    d = dict(v0)
                    for q, x in post.heap[i].items():
                        if q in v0 and v0[q] is not x and isinstance(v0[q], Node):
                            y = fresh(v0[q], x)
                            hl[(i, q)] = y
                            d[q] = y
                    self.st.heap[i] = d
            eff0 = len(self.st.eff)
            self.body_once(inner, s)
            post = self.st
        finally:
            self.depth -= 1
            self.loops.pop()
        out = pre.copy()
        self.st = out
        for i, v in post.heap.items():
            if i not in out.heap:
                out.heap[i] = v
        alllv = [x for x in lv.values() if isinstance(x, Node)] + [y for t in lv.values() if isinstance(t, Tup) for y in t.items] + list(hl.values())
        finals = {}
        inits = {}
        for key, x in lv.items():
            v1 = post.frames[key[0]][key[1]]
            v0 = pre.frames[key[0]][key[1]]
            if isinstance(x, Tup):
                its = v1.items if isinstance(v1, Tup) and len(v1.items) == len(x.items) else self.as_items(v1, len(x.items))
                if its is None:
                    its = [unknown('loop tuple')] * len(x.items)
                for a, b, c in zip(x.items, its, v0.items):
                    finals[a] = self.nd(b)
                    inits[a] = self.nd(c)
            else:
                w = self.nd(v1) if not isinstance(v1, Node) else v1
                if finals.get(x, w) is not w:
                    return False
                finals[x] = w
                inits[x] = self.freeze(v0) if not (isinstance(v0, Ref) and v0.kind == 'list') else self.arr(v0)
        for (i, q), y in hl.items():
            w = self.nd(post.heap[i][q])
            if finals.get(y, w) is not w:
                return False
            finals[y] = w
            inits[y] = self.nd(pre.heap[i][q])
        out.eff = post.eff[:eff0] + tuple(self.loop_effect(e, loop, finals, inits) for e in post.eff[eff0:])
        res = {y: self.summarise(y, finals, inits, loop) for y in finals}
        for key, x in lv.items():
            if isinstance(x, Tup):
                out.frames[key[0]][key[1]] = Tup([res[a] for a in x.items])
            else:
                out.frames[key[0]][key[1]] = res[x]
        # variables first bound inside the loop
        for f, env in post.frames.items():
            if f in out.frames:
                for q, v in env.items():
                    if q not in pre.frames[f]:
                        out.frames[f][q] = self.last_of(loop, v) if isinstance(v, Node) else v
        for i in heap_changed:
            v0, v1 = pre.heap[i], post.heap[i]
            if i in marks:
                m = marks[i]
                if v1 and v1[0] == m and not self.uses_lv(v1[1:], m[1]):
                    segs = v1[1:]
                    segs = self.lv_segs(segs, finals, inits, loop, alllv)
                    out.heap[i] = v0 + ((('e', loop, segs),) if segs else ())
                else:
                    out.heap[i] = (('o', unknown('list update in loop')),)
            else:
                d = dict(v0)
                for q, x in v1.items():
                    if (i, q) in hl:
                        d[q] = res[hl[(i, q)]]
                    elif q not in v0 or v0[q] is not x:
                        if isinstance(q, Node) and N.mentions(q, loop.idx):
                            d[mk('eachkey', loop.dom, loop.idx, q)] = x
                        else:
                            d[q] = self.last_of(loop, x) if isinstance(x, Node) else x
                out.heap[i] = d

    def loop_effect(self, e, loop, finals, inits):
        """an effect of one pass, with loop-carried values replaced by their recurrences"""
        m = {y: mk('rec', self.rec_key(y, finals, inits, loop), loop.idx) for y in finals
             if N.mentions(e[0], y) or any(N.mentions(a, y) for a in e[2])}
        c, args = e[0], e[2]
        if m:
            c, args = N.subst(c, m), tuple(N.subst(a, m) for a in args)
        return (c, e[1], args, e[3], e[4] + ((loop.dom, loop.idx),))

    def lv_segs(self, segs, finals, inits, loop, alllv):
        m = {}
        for y in alllv:
            if any(self.seg_mentions(s, y) for s in segs):
                m[y] = mk('rec', self.rec_key(y, finals, inits, loop), loop.idx)
        if not m:
            return segs
        return tuple(self.subst_seg(s, m) for s in segs)

    def seg_mentions(self, s, y):
        if s[0] == 'i':
            try:
                return N.mentions(self.freeze(s[1]), y)
            except Exception:
                return True
        if s[0] == 'g':
            return N.mentions(s[1], y) or any(self.seg_mentions(z, y) for z in s[2])
        if s[0] == 'e':
            return any(self.seg_mentions(z, y) for z in s[2])
        return N.mentions(s[1], y)

    def uses_lv(self, segs, mark):
        return any(self.seg_mentions(s, mark) for s in segs)

    def last_of(self, loop, v):
        if not N.mentions(v, loop.idx):
            return v
        return mk('last', loop.dom, loop.idx, v)

    def rec_key(self, y, finals, inits, loop):
        """canonical recurrence node for loop-carried value y"""
        order = []
        ren = {}

        def visit(z):
            if z in ren:
                return
            ren[z] = mk('lvc', self.depth, len(order))
            order.append(z)
            # discover in deterministic structural order
            for w in topo_lv(finals[z], finals):
                visit(w)
        visit(y)
        return mk('loop', loop.dom, loop.idx,
                  tuple(inits[z] for z in order),
                  tuple(N.subst(finals[z], ren) for z in order))

    def summarise(self, y, finals, inits, loop):
        e = finals[y]
        v0 = inits[y]
        lvs = [z for z in finals if N.mentions(e, z)]
        if e is y:
            return v0
        if not lvs:
            return self.last_of(loop, e)
        if lvs == [y]:
            # additive accumulator
            g = self.acc_delta(e, y)
            if g is not None and not N.mentions(g, y):
                return N.add(v0, N.isum(loop.dom, g, loop.idx))
            # element-wise store
            r = self.store_map(e, y, v0, loop)
            if r is not None:
                return r
            if v0 is ZERO:
                # a table whose row i is filled in turn i
                r = self.row_map(e, y, loop)
                if r is not None:
                    return N.CONS['rows'](self.collapse(loop, r))
            for op, unit in (('or', FALSE), ('and', TRUE)):
                if e.op == op and y in e.args:
                    rest = [x for x in e.args if x is not y]
                    if not any(N.mentions(x, y) for x in rest):
                        body = (N.OR if op == 'or' else N.AND)(*rest)
                        q = mk('any' if op == 'or' else 'all', loop.dom, N.subst(body, {loop.idx: N.iota_of(loop.idx)}))
                        return (N.OR if op == 'or' else N.AND)(v0, q)
        return mk('rec', self.rec_key(y, finals, inits, loop), mk('end'))

    def row_map(self, e, y, loop):
        """the row that turn i leaves, where the turn stores into row i only"""
        if e is y:
            return ZERO
        if e.op == 'ite' and not N.mentions(e.args[0], y):
            a, b = self.row_map(e.args[1], y, loop), self.row_map(e.args[2], y, loop)
            return None if a is None or b is None else N.ite(e.args[0], a, b)
        if e.op == 'store' and e.args[0] is y and e.args[1].op == 'tup' and len(e.args[1].args) == 2 and e.args[1].args[0] is loop.idx:
            q, v = e.args[1].args[1], e.args[2]
            if q.op != 'slice' and not N.mentions(q, y) and not N.mentions(v, y):
                return N.store(ZERO, q, v)
        return None

    def acc_delta(self, e, y):
        if e.op == 'ite' and not N.mentions(e.args[0], y):
            a, b = self.acc_delta(e.args[1], y), self.acc_delta(e.args[2], y)
            if a is not None and b is not None:
                return N.ite(e.args[0], a, b)
            return None
        if e is y:
            return ZERO
        if e.op == 'poly':
            d = N.sub(e, y)
            if not N.mentions(d, y):
                return d
        return None

    def store_map(self, e, y, v0, loop):
        idx = loop.idx

        def elem(x):
            if x is y:
                return N.at(v0, idx) if not N.is_num(v0) else v0
            if x.op == 'store' and x.args[1] is idx:
                if elem(x.args[0]) is None:
                    return None
                return x.args[2]
            if x.op == 'ite' and not N.mentions(x.args[0], y):
                a, b = elem(x.args[1]), elem(x.args[2])
                if a is None or b is None:
                    return None
                return N.ite(x.args[0], a, b)
            return None
        r = elem(e)
        if r is None:
            return None
        own = N.at(y, idx)
        r = N.subst(r, {own: (N.at(v0, idx) if not N.is_num(v0) else v0)})
        if N.mentions(r, y):
            return None
        return self.collapse(loop, r)

    def body_once(self, inner, s):
        fall, ex = self.run_segs(self.rebind_in(inner), s, [])
        if ex:
            raise Unsupported('return/break inside loop over unknown collection')
        if not fall:
            # every path raises: treat as no effect
            raise Unsupported('loop body never completes')

    def rebind_in(self, segs):
        return segs

    # ------------------------------------------------------------ effects
    def effect(self, name, *args):
        self.st.eff = self.st.eff + ((N.AND(*self.st.pc), name, tuple(self.freeze(a) for a in args), N.CUR[0] or self.curloc, ()),)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        self.sites += 1
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kw)
        if isinstance(f, LibVal):
            return self.lib.call(self, f.path, list(args), kw, node)
        if isinstance(f, Meth):
            return self.lib.method(self, f.obj, f.name, list(args), kw, node)
        if isinstance(f, Partial):
            if f.kind == 'vectorize':
                return self.call_vec(f.func, args, kw)
            return self.call(f.func, list(f.args) + list(args), dict(f.kw, **kw), node)
        if isinstance(f, IteVal):
            return self.on_ite(f, lambda x: self.call(x, args, kw, node))
        if isinstance(f, Ref) and f.kind == 'inst' and f.cls:
            m = f.cls.find('__call__')
            if m:
                return self.call(m, [f] + list(args), kw, node)
        if isinstance(f, Node):
            if f is BOT:
                return BOT
            if f.op == 'sym':
                return mk('app', f, *[self.nd(a) for a in args], *[mk('kw', q, self.nd(v)) for q, v in sorted(kw.items())])
            if f.op in ('attr', 'at'):
                return mk('app', f, *[self.nd(a) for a in args], *[mk('kw', q, self.nd(v)) for q, v in sorted(kw.items())])
            if f.op == 'ite':
                return self.on_ite(IteVal(*f.args), lambda x: self.call(x, args, kw, node))
        raise Unsupported('call of %s' % (f if isinstance(f, Node) else type(f).__name__))

    def call_vec(self, f, args, kw):
        return self.call(f, [self.arr(a) if isinstance(a, Ref) else a for a in args],
                         {q: (self.arr(a) if isinstance(a, Ref) else a) for q, a in kw.items()})

    def on_ite(self, v, fn):
        """apply fn to both alternatives under their condition"""
        c = self.simp(v.c)
        if c is TRUE:
            return fn(v.a)
        if c is FALSE:
            return fn(v.b)
        base = self.st
        pc = base.pc
        frame = self.frame
        self.st = base.copy()
        self.st.pc = pc + (c,)
        ra = fn(v.a) if v.a is not BOT else BOT
        sa = self.st
        self.st = base.copy()
        self.st.pc = pc + (N.NOT(c),)
        rb = fn(v.b) if v.b is not BOT else BOT
        sb = self.st
        self.frame = frame
        self.st = self.merge(c, sa, sb, pc)
        return self.mv(c, ra, rb)

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(names):])
                args = args[:len(names)]
            else:
                raise Unsupported('too many arguments for %s' % f.name)
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        for n_, v in zip(names, args):
            env[n_] = v
        extra = {}
        konly = [p.arg for p in a.kwonlyargs]
        for q, v in kw.items():
            if q in names or q in konly:
                if q in env:
                    raise Unsupported('duplicate argument %s' % q)
                env[q] = self.given(f, names, q, v)
            elif a.kwarg:
                extra[k(q)] = v
            else:
                raise Unsupported('unexpected argument %s for %s' % (q, f.name))
        if a.kwarg:
            env[a.kwarg.arg] = self.mkdict(extra)
        for n_, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            env.setdefault(n_, d)
        for q, d in f.kwdefaults.items():
            env.setdefault(q, d)
        for n_ in names + konly:
            if n_ not in env:
                raise Unsupported('missing argument %s for %s' % (n_, f.name))
        return env

    def given(self, f, names, q, v):
        """an argument from ** that is only there sometimes: its default otherwise"""
        if isinstance(v, IteVal):
            c, x, y = v.c, v.a, v.b
        elif isinstance(v, Node) and v.op == 'ite':
            c, x, y = v.args
        else:
            return v
        if x is not UNB and y is not UNB:
            return v
        at = len(f.defaults) - len(names) + names.index(q) if q in names else -1
        if at < 0 and q not in f.kwdefaults:
            return v
        d = f.defaults[at] if at >= 0 else f.kwdefaults[q]
        return self.mv(c, d if x is UNB else x, d if y is UNB else y)

    def call_func(self, f, args, kw):
        q = f.mod.name + ':' + ((f.cls.name + '.') if f.cls else '') + f.name
        if q + '!' in self.cuts:
            return mk('cut', q)
        if q in self.cuts and not self.in_cut:
            return self.call_cut(q, f, args, kw)
        if self.stack.count(f.node) >= 40 or len(self.stack) > 120:
            raise Unsupported('recursion in %s' % q)
        site, self.callsite = self.callsite, None
        env = self.bind_args(f, args, kw)
        env['__outer__'] = f.frame
        env['__class__'] = f.cls
        save = (self.mod, self.frame, self.curloc, N.CUR[0])
        self.mod = f.mod
        fid = self.new_frame()
        self.st.frames[fid].update(env)
        if site is not None and not isinstance(f.node, ast.Lambda):
            self.param_aliases(f, site, fid, env)
        self.frame = fid
        self.stack.append(f.node)
        if f.mod.path.startswith(self.repo):
            self.functions.add(q)
        base_pc = self.st.pc
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            body = f.node.body
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
                body = generator_body(f.node)
            fall, ex = self.exec_block(body)
            outs = []
            for st, kind, v in ex:
                if kind != 'return':
                    raise Unsupported('stray ' + kind)
                outs.append((st, v))
            if fall:
                outs.append((self.st, NONE))
            if not outs:
                # always fails
                self.st = self.st.copy()
                self.st.pc = base_pc
                return BOT
            # merge outcomes
            st, v = outs[-1]
            seen_neg = []
            acc_s, acc_v = st, v
            conds = []
            prior = []
            for s_, v_ in outs[:-1]:
                cs = []
                for x in s_.pc[len(base_pc):]:
                    if any(N.NOT(p) is x for p in prior):
                        continue
                    cs.append(x)
                c = N.AND(*cs)
                conds.append(c)
                prior.append(c)
            for (s_, v_), c in reversed(list(zip(outs[:-1], conds))):
                merged = self.merge(c, s_, acc_s, base_pc)
                sv = self.st
                self.st = merged
                acc_v = self.mv(c, v_, acc_v)
                acc_s = merged
            self.st = acc_s
            self.st.pc = base_pc
            if body is not f.node.body and isinstance(acc_v, Ref):
                self.once.add(acc_v.id)
            return acc_v
        finally:
            self.stack.pop()
            self.mod, self.frame, self.curloc, N.CUR[0] = save

    def param_aliases(self, f, site, fid, env):
        e, caller = site
        names = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        if any(isinstance(a, ast.Starred) for a in e.args):
            return
        pos = names[len(names) - len(names):]
        off = 1 if (f.cls is not None and f.kind != 'staticmethod' and names and isinstance(e.func, ast.Attribute)) else 0
        if off and not (isinstance(e.func.value, ast.Name) and False):
            # bound calls pass the receiver first
            if len(e.args) + len(e.keywords) + 1 > len(names) + 1:
                off = 0
        for n_, a in zip(pos[off:], e.args):
            self.note_alias(fid, n_, caller, a, env.get(n_))
        for q in e.keywords:
            if q.arg in names:
                self.note_alias(fid, q.arg, caller, q.value, env.get(q.arg))

    in_cut = False
    acts = ()

    def call_cut(self, q, f, args, kw):
        env = self.bind_args(f, args, kw)
        names = [p.arg for p in f.node.args.args]
        if q in self.acts:
            # a call that acts on its arguments: recorded with the state of the arguments at that moment
            self.effect('act', k('calls'), mk('cut', q, *[self.freeze(env[n_]) for n_ in names]))
        return mk('cut', q, *[self.nd(env[n_]) for n_ in names])

    def construct(self, c, args, kw):
        if c.is_enum:
            v = self.nd(args[0])
            if N.is_const(v):
                for m in c.members.values():
                    if m.args[2] is v or m is v:
                        return m
                self.fail(TRUE, 'ValueError')
                return BOT
            if v.op == 'ite' and N._const_leaves(v):
                return N._ite_push(v, lambda x: self.construct(c, [x], {}))
            if v.op == 'attr' and v.args[1] == 'value':
                return v.args[0]
            self.soft_fail(N.NOT(N.OR(*[self.simp(N.eq(v, m.args[2])) for m in c.members.values()])), 'ValueError')
            return mk('enumof', c.qual, v)
        r = self.new('inst', {}, c)
        init = c.find('__init__')
        if init is not None:
            self.call(init, [r] + list(args), kw)
            return r
        if c.fields:
            d = {}
            names = [f for f, _ in c.fields]
            for n_, v in zip(names, args):
                d[n_] = v
            for q, v in kw.items():
                if q not in names:
                    raise Unsupported('unexpected field %s of %s' % (q, c.name))
                d[q] = v
            for n_, dv in c.fields:
                if n_ not in d:
                    if dv is None:
                        raise Unsupported('missing field %s of %s' % (n_, c.name))
                    d[n_] = dv
            self.put(r, d)
            post = c.find('__post_init__')
            if post:
                self.call(post, [r], {})
        return r

    # ------------------------------------------------------------ attribute access
    def getattr(self, o, name, node=None):
        if isinstance(o, ModVal):
            if name in o.env:
                return o.env[name]
            m = self.module(o.name + '.' + name)
            if m:
                return m
            if not self.mod.path.startswith(self.repo):
                raise AnchorMissing('%s.%s' % (o.name, name))
            raise Unsupported('no attribute %s in module %s' % (name, o.name))
        if isinstance(o, LibVal):
            p = o.path + '.' + name
            if o.path == 'heat_load_calc' or o.path.startswith('heat_load_calc.'):
                m = self.module(p)
                if m:
                    return m
            return self.lib.attr(self, p)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return k(o.name)
            if o.is_enum and name in o.members:
                return o.members[name]
            v = o.find(name)
            if v is None:
                if name == '__members__':
                    return self.mkdict({k(a): b for a, b in o.members.items()})
                if name == '_fields' and o.namedtuple:
                    return Tup([k(n) for n, d in o.fields])
                raise Unsupported('no attribute %s in class %s' % (name, o.name))
            if isinstance(v, FuncVal) and v.kind == 'classmethod':
                return Bound(o, v)
            return v
        if isinstance(o, Ref):
            if o.kind == 'inst':
                c = self.get(o)
                if name in c:
                    v = c[name]
                    return self.strip_unb(v) if isinstance(v, Node) and v.op == 'ite' else v
                if name == '__class__':
                    return o.cls
                if o.cls:
                    v = o.cls.find(name)
                    if v is not None:
                        if isinstance(v, FuncVal):
                            if v.kind == 'property':
                                return self.call(v, [o], {})
                            if v.kind == 'staticmethod':
                                return v
                            if v.kind == 'classmethod':
                                return Bound(o.cls, v)
                            return Bound(o, v)
                        return v
                if name == '__dict__':
                    return self.mkdict({k(q): v for q, v in c.items()})
                if o.cls and o.cls.namedtuple and name in ('_asdict', '_replace', 'index', 'count', '_fields'):
                    return self.getattr(o.cls, name) if name == '_fields' else Meth(o, name)
                if name.startswith('__'):
                    raise Unsupported(name)
                self.fail(TRUE, 'AttributeError %s' % name)
                return BOT
            if o.kind in ('list',) and name in ('T', 'shape', 'values', 'size', 'ndim'):
                return self.getattr(self.arr(o), name)
            return Meth(o, name)
        if isinstance(o, Bound) and name in ('__self__',):
            return o.obj
        if isinstance(o, IteVal):
            # methods on alternatives are resolved at call time
            return self.on_ite(o, lambda x: self.getattr(x, name))
        if isinstance(o, Node):
            if o is BOT:
                return BOT
            ov = self.st.heap.get(o)
            if ov is not None and name in ov:
                return ov[name]
            cls = self.typeof(o)
            if cls is not None:
                v = cls.find(name)
                if isinstance(v, FuncVal):
                    if v.kind == 'property':
                        return self.call(v, [o], {})
                    if v.kind == 'staticmethod':
                        return v
                    if v.kind == 'classmethod':
                        return Bound(cls, v)
                    return Bound(o, v)
                return N.attr(o, name)
            if o.op == 'enum':
                c = CLASSES.get(o.args[0])
                v = c.find(name) if c else None
                if isinstance(v, FuncVal):
                    if v.kind == 'property':
                        return self.call(v, [o], {})
                    return Bound(o, v)
                return N.attr(o, name)
            if o.op == 'enumof' and name == 'value':
                return N.attr(o, name)
            if name in self.lib.NODE_ATTRS:
                return self.lib.node_attr(self, o, name)
            if o.op == 'ite' and N._const_leaves(o) and any(x.op == 'enum' for x in (o.args[1], o.args[2])):
                return self.on_ite(IteVal(*o.args), lambda x: self.getattr(x, name))
            if name in self.lib.METHODS or self.as_method:
                return Meth(o, name)
            if o.op == 'ite' and (o.args[1] is NONE or o.args[2] is NONE):
                return self.on_ite(IteVal(*o.args), lambda x: self.getattr(x, name))
            if o is NONE:
                self.fail(TRUE, 'AttributeError on None')
                return BOT
            return N.attr(o, name)
        if isinstance(o, FuncVal) and name == '__name__':
            return k(o.name)
        if isinstance(o, Tup):
            return Meth(o, name)
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))

    as_method = False

    def typeof(self, n):
        if n.op == 'sym' and n.args[1].startswith('obj:'):
            return self.cls_by_name(n.args[1][4:])
        if n.op == 'at' and n.args[0].op == 'sym' and n.args[0].args[1].startswith('list:'):
            return self.cls_by_name(n.args[0].args[1][5:])
        return None

    def cls_by_name(self, q):
        c = CLASSES.get(q)
        if c is None:
            m, cn = q.split(':')
            mod = self.module(m)
            c = mod.env.get(cn) if mod else None
            if not isinstance(c, ClassVal):
                raise AnchorMissing('class ' + q)
        return c

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.max_steps or (self.steps & 1023 == 0 and time.time() > self.deadline):
            raise Budget('step budget')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        if hasattr(e, 'lineno'):
            if N.CUR[0] is not None and N.CUR[0][1] != e.lineno:
                N.CUR[0] = (N.CUR[0][0], e.lineno, N.CUR[0][2])
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, (bytes, complex)):
            raise Unsupported('constant')
        if v is Ellipsis:
            return mk('ellipsis')
        return k(v)

    def lookup(self, name):
        fr = self.frame
        while fr is not None:
            env = self.st.frames.get(fr)
            if env is None:
                break
            if name in env:
                return env[name]
            fr = env.get('__outer__')
        if name in self.mod.env:
            return self.mod.env[name]
        if self.lib.is_builtin(name):
            return LibVal(name)
        if name in ('known', 'readable', 'present') and not self.mod.path.startswith(self.repo):
            return LibVal(name)
        return None

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is None:
            self.fail(TRUE, 'NameError %s' % e.id)
            return BOT
        if v is UNB:
            self.fail(TRUE, 'UnboundLocalError %s' % e.id)
            return BOT
        if isinstance(v, Node) and v.op == 'ite':
            return self.strip_unb(v)
        if isinstance(v, IteVal):
            if v.a is UNB:
                self.fail(v.c, 'unbound')
                return v.b
            if v.b is UNB:
                self.fail(N.NOT(v.c), 'unbound')
                return v.a
        return v

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr, e)

    def ev_index(self, s):
        return self.ev(s)

    def e_Slice(self, e):
        return SliceVal(*[self.ev(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e):
        return Tup(self.ev_items(e.elts))

    def ev_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.used(x.value, self.ev(x.value))
                sg = self.segs_of(v)
                if not all(s[0] == 'i' for s in sg):
                    raise Unsupported('starred symbolic')
                out.extend(s[1] for s in sg)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.rebind(self.segs_of(self.used(x.value, self.ev(x.value)))))
            else:
                segs.append(('i', self.ev(x)))
        return self.new('list', tuple(segs))

    def e_Set(self, e):
        return self.lib.builtin(self, 'set', [self.e_List(e)], {})

    def e_Dict(self, e):
        d = {}
        for q, v in zip(e.keys, e.values):
            if q is None:
                o = self.ev(v)
                if isinstance(o, Ref) and o.kind == 'dict':
                    d.update(self.get(o))
                    continue
                raise Unsupported('dict unpack of symbolic')
            kk = self.freeze(self.ev(q))
            d[kk] = self.ev(v)
        return self.mkdict(d)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(k(v.value))
            else:
                x = self.nd(self.ev(v.value))
                if v.format_spec is not None:
                    parts.append(self.lib.fmt1(x, self.nd(self.ev(v.format_spec))))
                else:
                    parts.append(self.lib.to_str(x))
        return N.cat(*parts)

    def e_IfExp(self, e):
        c = self.simp(self.truth(self.ev(e.test)))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        return self.on_ite(IteVal(c, e.body, e.orelse), self.ev)

    def e_Lambda(self, e):
        return FuncVal(e, self.mod, self.frame, [self.ev(d) for d in e.args.defaults],
                       {p.arg: self.ev(d) for p, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_BoolOp(self, e):
        # python semantics: value of the deciding operand; conditions in practice
        vals = e.values
        cur = self.ev(vals[0])
        for nx in vals[1:]:
            c = self.simp(self.truth(cur))
            if isinstance(e.op, ast.And):
                if c is FALSE:
                    return cur
                if c is TRUE:
                    cur = self.ev(nx)
                    continue
                v = self.under(c, nx)
                if boolval(cur) and boolval(v):
                    cur = N.AND(c, self.truth(v))
                else:
                    cur = self.mv(c, v, cur)
            else:
                if c is TRUE:
                    return cur
                if c is FALSE:
                    cur = self.ev(nx)
                    continue
                v = self.under(N.NOT(c), nx)
                if boolval(cur) and boolval(v):
                    cur = N.OR(c, self.truth(v))
                else:
                    cur = self.mv(c, cur, v)
        return cur

    def under(self, c, e):
        pc = self.st.pc
        self.st.pc = pc + (c,)
        try:
            return self.ev(e)
        finally:
            self.st.pc = pc

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return N.NOT(self.truth(v))
        x = self.nd(v)
        if isinstance(e.op, ast.USub):
            return N.neg(x)
        if isinstance(e.op, ast.UAdd):
            return x
        if isinstance(e.op, ast.Invert):
            return N.NOT(x)
        raise Unsupported('unary')

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            la = isinstance(a, Ref) and a.kind == 'list'
            lb = isinstance(b, Ref) and b.kind == 'list'
            if la and lb:
                return self.new('list', self.get(a) + self.get(b))
            if (la and isinstance(b, Node) and b.op not in ('num', 'poly')) and self.listy(b):
                return self.new('list', self.get(a) + (('o', b),))
            if (lb and isinstance(a, Node) and a.op not in ('num', 'poly')) and self.listy(a):
                return self.new('list', (('o', a),) + self.get(b))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, IteVal) and (isinstance(a.a, (Ref, Tup)) or isinstance(a.b, (Ref, Tup))):
                return self.on_ite(a, lambda x: self.binop(op, x, b))
            if isinstance(b, IteVal) and (isinstance(b.a, (Ref, Tup)) or isinstance(b.b, (Ref, Tup))):
                return self.on_ite(b, lambda x: self.binop(op, a, x))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and x.kind == 'list':
                    y = self.nd(y)
                    if N.is_num(y):
                        return self.new('list', self.get(x) * int(y.args[0]))
                    c = self.get(x)
                    if len(c) == 1 and c[0][0] == 'i':
                        lp = Loop(y, N.idx(self.depth))
                        return self.new('list', (('e', lp, c),))
                    raise Unsupported('list repetition')
                if isinstance(x, Tup):
                    y = self.nd(y)
                    if N.is_num(y):
                        return Tup(x.items * int(y.args[0]))
        x, y = self.unenum(self.nd(a)), self.unenum(self.nd(b))
        if x.op == 'xa' or y.op == 'xa':
            p, q = dense.of(self, x), dense.of(self, y)
            if p is not None and q is not None:
                if isinstance(op, ast.MatMult):
                    r = dense.dot(p, q)
                else:
                    r = dense.both(lambda m, n: self.binop(op, m, n), p, q)
                if r is not None:
                    return r
        if isinstance(op, ast.Add):
            if x.op in ('k', 'cat') and x is not TRUE and x is not FALSE or y.op in ('k', 'cat') and y is not TRUE and y is not FALSE or x.op == 'str' or y.op == 'str' \
                    or (x.op == 'sym' and x.args[1] == 'str') or (y.op == 'sym' and y.args[1] == 'str'):
                if x is NONE or y is NONE:
                    self.fail(TRUE, 'TypeError')
                    return BOT
                return N.cat(x, y)
            return N.add(x, y)
        if isinstance(op, ast.Sub):
            return N.sub(x, y)
        if isinstance(op, ast.Mult):
            return N.mul2(x, y)
        if isinstance(op, ast.Div):
            return N.div(x, y)
        if isinstance(op, ast.MatMult):
            return N.mm(x, y)
        if isinstance(op, ast.Pow):
            if N.is_num(x) and not N.is_num(y):
                return mk('pow', x, y)
            return N.power(x, y)
        if isinstance(op, ast.FloorDiv):
            if N.is_num(x) and N.is_num(y) and y.args[0]:
                return num(x.args[0] // y.args[0])
            return N.func('floor', N.div(x, y))
        if isinstance(op, ast.Mod):
            if x.op == 'k':
                return self.lib.percent(x, y)
            if N.is_num(x) and N.is_num(y) and y.args[0]:
                return num(x.args[0] % y.args[0])
            return N.sub(x, N.mul2(y, N.func('floor', N.div(x, y))))
        if isinstance(op, ast.BitAnd):
            return N.AND(x, y)
        if isinstance(op, ast.BitOr):
            return N.OR(x, y)
        if isinstance(op, ast.BitXor):
            return N.OR(N.AND(x, N.NOT(y)), N.AND(N.NOT(x), y))
        raise Unsupported('binary op %s' % type(op).__name__)

    def unenum(self, x):
        if x.op == 'enum' and N.is_num(x.args[2]):
            return x.args[2]
        return x

    def listy(self, n):
        if n.op == 'sym':
            return n.args[1].startswith('list') or n.args[1] in ('any', 'rows')
        return n.op in ('at', 'attr', 'list', 'segs', 'call', 'm:tolist')

    def e_Compare(self, e):
        left = self.ev(e.left)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            cs.append(self.compare(op, left, right))
            left = right
        return N.AND(*cs) if len(cs) > 1 else cs[0]

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else N.NOT(r)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            r = self.equals(a, b)
            return r if isinstance(op, (ast.Eq, ast.Is)) else N.NOT(r)
        x, y = self.unenum(self.nd(a)), self.unenum(self.nd(b))
        if isinstance(op, ast.Lt):
            return N.lt(x, y)
        if isinstance(op, ast.LtE):
            return N.le(x, y)
        if isinstance(op, ast.Gt):
            return N.lt(y, x)
        if isinstance(op, ast.GtE):
            return N.le(y, x)
        raise Unsupported('compare')

    def equals(self, a, b):
        if isinstance(a, Node) and isinstance(b, Node):
            return N.eq(self.nd(a), self.nd(b))
        if isinstance(a, ClassVal) and isinstance(b, ClassVal):
            return TRUE if a is b else FALSE
        if isinstance(a, LibVal) and isinstance(b, LibVal):
            return TRUE if a.path == b.path else FALSE
        if isinstance(a, (ClassVal, LibVal)) and isinstance(b, (ClassVal, LibVal)):
            return FALSE
        if isinstance(a, IteVal):
            return N.ite(a.c, self.equals(a.a, b), self.equals(a.b, b))
        if isinstance(b, IteVal):
            return self.equals(b, a)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return TRUE
        if (a is NONE or b is NONE) and (isinstance(a, (Ref, Tup)) or isinstance(b, (Ref, Tup))):
            return FALSE
        if all(isinstance(x, Tup) or (isinstance(x, Ref) and x.kind == 'list') for x in (a, b)):
            sa, sb = self.segs_of(a), self.segs_of(b)
            if all(s[0] == 'i' for s in sa) and all(s[0] == 'i' for s in sb):
                # two sequences of known length
                if len(sa) != len(sb):
                    return FALSE
                return N.AND(*[self.equals(x[1], y[1]) for x, y in zip(sa, sb)])
        return N.eq(self.freeze(a), self.freeze(b))

    def contains(self, a, b):
        if isinstance(b, Ref) and b.kind == 'dict':
            x = self.freeze(a)
            return N.OR(*[N.eq(x, q) for q in self.get(b)])
        if isinstance(b, (Ref, Tup)) or (isinstance(b, ClassVal) and b.is_enum):
            sg = self.segs_of(b)
            if all(s[0] == 'i' for s in sg):
                return N.OR(*[self.equals(a, s[1]) for s in sg])
            return mk('in', self.freeze(a), self.freeze(b))
        if isinstance(b, IteVal):
            return N.ite(b.c, self.contains(a, b.a), self.contains(a, b.b))
        y = self.nd(b)
        x = self.freeze(a)
        if y.op == 'k' and x.op == 'k' and isinstance(y.args[1], str):
            return TRUE if x.args[1] in y.args[1] else FALSE
        if y.op in ('list', 'tup') and not any(z.op in ('each', 'guard', 'spread') for z in y.args):
            return N.OR(*[N.eq(x, z) for z in y.args])
        if y.op == 'dict':
            return N.OR(*[N.eq(x, q) for q, _ in y.args])
        if y.op == 'call' and y.args[0] == 'set' and len(y.args) == 2:
            return self.contains(a, y.args[1])
        if y.op == 'ite':
            return N.ite(y.args[0], self.contains(a, y.args[1]), self.contains(a, y.args[2]))
        return mk('in', x, y)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev_index(e.slice)
        return self.getitem(o, i)

    def getitem(self, o, i):
        if isinstance(o, IteVal):
            return self.on_ite(o, lambda x: self.getitem(x, i))
        if isinstance(i, IteVal):
            return self.on_ite(i, lambda x: self.getitem(o, x))
        if isinstance(o, Ref) and o.kind == 'dict':
            c = self.get(o)
            q = self.freeze(i)
            if q in c:
                v = c[q]
                if isinstance(v, Node):
                    return self.strip_unb(v)
                if isinstance(v, IteVal) and (v.a is UNB or v.b is UNB):
                    self.fail(v.c if v.a is UNB else N.NOT(v.c), 'KeyError')
                    return v.b if v.a is UNB else v.a
                return v
            if q.op == 'ite' and N._const_leaves(q):
                return self.on_ite(IteVal(*q.args), lambda x: self.getitem(o, x))
            if N.const_key(q):
                # maybe an enum/num alias
                for z in c:
                    if z.op == q.op == 'enum':
                        continue
                    if N.const_key(z) and N.eq(z, q) is TRUE:
                        return c[z]
                if all(N.const_key(z) for z in c):
                    self.fail(TRUE, 'KeyError %s' % N.show(q))
                    return BOT
            r = BOT
            hits = []
            for z in reversed(list(c)):
                cond = self.simp(N.eq(q, z))
                hits.append(cond)
                r = self.mv(cond, c[z], r)
            if all(N.const_key(z) for z in c):
                self.soft_fail(N.NOT(N.OR(*hits)), 'KeyError')
            return r
        if isinstance(o, Tup) or (isinstance(o, Ref) and o.kind == 'list') or \
                (isinstance(o, Ref) and o.kind == 'inst' and o.cls and o.cls.namedtuple):
            sg = self.segs_of(o)
            if isinstance(i, SliceVal):
                lo, hi, st = [x if isinstance(x, Node) else self.nd(x) for x in (i.lo, i.hi, i.st)]
                if all(s[0] == 'i' for s in sg) and all(x is NONE or N.is_num(x) for x in (lo, hi, st)):
                    g = lambda x: None if x is NONE else int(x.args[0])
                    items = sg[g(lo):g(hi):g(st)]
                    return Tup([s[1] for s in items]) if isinstance(o, Tup) else self.new('list', items)
                return self.getitem(self.arr(o), i)
            j = self.nd(i)
            if N.is_num(j):
                jj = int(j.args[0])
                if all(s[0] == 'i' for s in sg):
                    if -len(sg) <= jj < len(sg):
                        return sg[jj][1]
                    self.fail(TRUE, 'IndexError')
                    return BOT
                if jj >= 0 and all(s[0] == 'i' for s in sg[:jj + 1]) and len(sg) > jj:
                    return sg[jj][1]
                if jj < 0 and all(s[0] == 'i' for s in sg[jj:]):
                    return sg[jj][1]
            if len(sg) == 1 and sg[0][0] == 'e' and len(sg[0][2]) == 1 and sg[0][2][0][0] == 'i':
                lp = sg[0][1]
                if len(lp.idx.args) == 1 and not N.is_boolish(j) and j.op not in ('tup', 'slice'):
                    return self.subst_val(sg[0][2][0][1], {lp.idx: j})
            if all(s[0] == 'i' for s in sg) and sg and j.op not in ('tup', 'slice') and not all(isinstance(s[1], Node) for s in sg) and not N.is_boolish(j):
                r = BOT
                for n, s in reversed(list(enumerate(sg))):
                    r = self.mv(N.eq(j, num(n)), s[1], r)
                return r
            return self.lib.index(self, self.arr(o), j)
        if isinstance(o, Node):
            if o is BOT:
                return BOT
            if o.op == 'enumcls':
                raise Unsupported('enum class index')
            j = self.index_node(self.freeze(i) if not isinstance(i, Ref) else self.arr(i))
            return self.lib.index(self, o, j)
        if isinstance(o, ClassVal) and o.is_enum:
            q = self.nd(i)
            if q.op == 'k' and q.args[1] in o.members:
                return o.members[q.args[1]]
            r = BOT
            for nm, m in o.members.items():
                r = N.ite(N.eq(q, k(nm)), m, r)
            return r
        if isinstance(o, (LibVal, ClassVal)):
            return o           # typing subscript
        raise Unsupported('subscript of %s' % type(o).__name__)

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            cls = None
            fr = self.frame
            env = self.st.frames[fr]
            cls = env.get('__class__')
            first = self.stack[-1].args.args[0].arg
            selfv = env[first]
            actual = selfv.cls if isinstance(selfv, Ref) else selfv if isinstance(selfv, ClassVal) else cls
            mro = actual.mro() if actual else cls.mro()
            pos = mro.index(cls) if cls in mro else 0
            f = None
            for c in mro[pos + 1:]:
                if e.func.attr in c.attrs:
                    f = c.attrs[e.func.attr]
                    break
            args = self.ev_items(e.args)
            kw = self.ev_kw(e.keywords)
            if f is None:
                if e.func.attr == '__init__':
                    return NONE
                raise Unsupported('super attribute %s' % e.func.attr)
            if isinstance(f, FuncVal) and f.kind == 'property':
                return self.call(f, [selfv], {})
            return self.call(f, [selfv] + args, kw, e)
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value)
            if isinstance(o, IteVal):
                args = self.ev_items(e.args)
                kw = self.ev_kw(e.keywords)
                return self.on_ite(o, lambda x: self.call(self.getm(x, e.func.attr), args, kw, e))
            f = self.getm(o, e.func.attr)
            if isinstance(f, Meth) and isinstance(f.obj, Node) and self.inplace(e, o):
                return NONE
        else:
            f = self.ev(e.func)
        args = self.ev_items(e.args)
        kw = self.ev_kw(e.keywords)
        self.callsite = (e, self.frame)
        if self.once and isinstance(f, (LibVal, Meth)) and not any(isinstance(x, ast.Starred) for x in e.args):
            name = f.path if isinstance(f, LibVal) else f.name
            if name not in ('isinstance', 'type', 'id', 'print', 'repr'):
                args = [self.used(x, v, name in ('any', 'all', 'next')) for x, v in zip(e.args, args)]
                kw = {q.arg: self.used(q.value, kw[q.arg]) for q in e.keywords} if all(q.arg for q in e.keywords) else kw
        r = self.call(f, args, kw, e)
        if isinstance(r, Ref) and r.kind == 'list' and isinstance(f, LibVal) and f.path in ('zip', 'map', 'filter', 'enumerate', 'iter', 'reversed'):
            self.once.add(r.id)
        return r

    def used(self, e, v, part=False):
        """what a consumer sees of v: a generator held in a variable is empty afterwards"""
        if isinstance(v, Ref) and v.id in self.once and isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            if v.id in self.partly:
                raise Unsupported('generator that was used in part')
            if part:
                self.partly.add(v.id)
                return v
            r = self.new('list', self.get(v))
            self.st.heap[v.id] = ()
            return r
        return v

    def e_GeneratorExp(self, e):
        r = self.e_ListComp(e)
        self.once.add(r.id)
        return r

    def inplace(self, e, o):
        """mutating method called on a symbolic value held in a variable"""
        nm = e.func.attr
        if nm == 'append' and len(e.args) == 1 and not isinstance(o, Ref):
            if o.op in ('num', 'k'):
                return False
            v = self.ev(e.args[0])
            r = self.new('list', (('o', o), ('i', v)))
            try:
                self.assign(as_store(e.func.value), r)
                self.effect('append', o, v)
                return True
            except Unsupported:
                return False
        return False

    def getm(self, o, name):
        save = self.as_method
        self.as_method = True
        try:
            return self.getattr(o, name)
        finally:
            self.as_method = save

    def ev_kw(self, kws):
        out = {}
        for q in kws:
            if q.arg is None:
                d = self.ev(q.value)
                if isinstance(d, Ref) and d.kind == 'dict':
                    for kk, v in self.get(d).items():
                        out[kk.args[1]] = v
                    continue
                raise Unsupported('** of symbolic')
            out[q.arg] = self.ev(q.value)
        return out

    # comprehension
    def comp(self, gens, elt):
        fid = self.new_frame()
        self.st.frames[fid]['__outer__'] = self.frame
        self.st.frames[fid]['__class__'] = self.st.frames[self.frame].get('__class__')
        save = self.frame
        self.frame = fid
        try:
            return self.comp_gen(gens, 0, elt)
        finally:
            self.frame = save

    def comp_gen(self, gens, n, elt):
        if n == len(gens):
            return (('i', elt()),)
        g = gens[n]
        it = self.used(g.iter, self.ev(g.iter))
        return self.comp_segs(self.rebind(self.segs_of(it)), gens, n, elt)

    def comp_segs(self, segs, gens, n, elt):
        g = gens[n]
        out = []
        for s in segs:
            if s[0] == 'i':
                self.assign(g.target, s[1])
                c = TRUE
                for t in g.ifs:
                    c = N.AND(c, self.simp(self.truth(self.ev(t))))
                if c is FALSE:
                    continue
                pc = self.st.pc
                if c is not TRUE:
                    self.st.pc = pc + (c,)
                sub = self.comp_gen(gens, n + 1, elt)
                self.st.pc = pc
                if c is TRUE:
                    out.extend(sub)
                else:
                    out.append(('g', c, sub))
            elif s[0] == 'g':
                pc = self.st.pc
                c = self.simp(s[1])
                if c is FALSE:
                    continue
                if c is not TRUE:
                    self.st.pc = pc + (c,)
                sub = self.comp_segs(s[2], gens, n, elt)
                self.st.pc = pc
                if c is TRUE:
                    out.extend(sub)
                else:
                    out.append(('g', c, sub))
            elif s[0] == 'e':
                self.depth += 1
                self.loops.append(s[1])
                try:
                    sub = self.comp_segs(s[2], gens, n, elt)
                finally:
                    self.depth -= 1
                    self.loops.pop()
                if sub:
                    out.append(('e', s[1], sub))
        return tuple(out)

    def e_ListComp(self, e):
        return self.new('list', self.comp(e.generators, lambda: self.ev(e.elt)))

    def e_SetComp(self, e):
        return self.lib.builtin(self, 'set', [self.e_ListComp(e)], {})

    def e_DictComp(self, e):
        segs = self.comp(e.generators, lambda: Tup([self.ev(e.key), self.ev(e.value)]))
        d = {}
        for s in segs:
            if s[0] == 'i':
                d[self.freeze(s[1].items[0])] = s[1].items[1]
            elif s[0] == 'e' and len(s[2]) == 1 and s[2][0][0] == 'i':
                t = s[2][0][1]
                d[mk('eachkey', s[1].dom, s[1].idx, self.freeze(t.items[0]))] = t.items[1]
            else:
                raise Unsupported('dict comprehension')
        return self.mkdict(d)


ALIAS = {'numpy': 'np', 'pandas': 'pd', 'os.path': 'os.path'}
CLASSES = {}


def boolval(v):
    return isinstance(v, Node) and N.is_boolish(v)


def is_count(n):
    """a plain collection size (sum of lengths), not an offset one"""
    if n.op == 'poly':
        return all(m and c == 1 and all(is_count(a) and e == 1 for a, e in m) for m, c in n.args)
    return n.op in ('len', 'attr', 'at', 'sym', 'sum', 'count', 'shape')


def is_full(n):
    return n.op == 'slice' and all(x is NONE for x in n.args)


def as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def as_store(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, 'ctx'):
        t.ctx = ast.Store()
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'getattr' and len(t.args) == 2 and not t.keywords:
        return t
    if not isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
        raise Unsupported('in-place update of a temporary')
    return t


def assigned_names(t):
    for x in ast.walk(t):
        if isinstance(x, ast.Name):
            yield x.id


def own_nodes(f):
    stack = list(f.body) if isinstance(f.body, list) else [f.body]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield x
        stack.extend(ast.iter_child_nodes(x))


def topo_lv(n, finals):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x in finals:
            out.append(x)
            return
        for c in N.children(x):
            go(c)
    go(n)
    return out
