"""Which functions change objects they were given, and where hidden state could live.

An object is *given* when it is a parameter, or reached from one by attribute, item or slice.  A function
changes a given object by storing into it (attribute, item, slice), by an in-place operator on an array or
list, or by a method or library call that works in place.  Changes are propagated to callers through the
call graph: a caller that hands over its own parameter changes it too; a caller that hands over an object
it just built does not.  What remains are changes which outlive the function that makes them.
"""
import ast

from vg.program import dotted, own_nodes, locals_of, Fn, Cls

INPLACE = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
           'fill', 'itemset', 'put', 'resize', 'partition', 'setflags', 'appendleft', 'extendleft', 'popleft', '__setitem__', '__delitem__'}
NP_INPLACE = {'numpy.fill_diagonal', 'numpy.put', 'numpy.place', 'numpy.copyto', 'numpy.putmask', 'numpy.put_along_axis', 'numpy.random.shuffle', 'random.shuffle'}
SAME = {'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.transpose', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.asanyarray',
        'numpy.broadcast_to', 'numpy.swapaxes', 'numpy.expand_dims', 'iter', 'reversed', 'enumerate', 'zip'}
SAME_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'items', 'values', 'get', 'setdefault'}
ARRAYS = ('ndarray', 'List', 'list', 'Dict', 'dict', 'Series', 'DataFrame', 'Set', 'set', 'ArrayLike', 'NDArray')


def is_array(ann):
    if ann is None:
        return False
    t = ast.unparse(ann)
    return any(w in t for w in ARRAYS)


class Change:
    def __init__(self, fn, root, path, node, how, via=()):
        self.fn, self.root, self.path, self.node, self.how, self.via = fn, root, path, node, how, via


class Analysis:
    def __init__(self, prog):
        self.p = prog
        self.returns = {}            # Fn -> what given objects its result may be (a part of)
        self.methods = {}            # name -> methods of that name
        for f in prog.fns:
            if f.cls is not None and f.bound and not f.static and not f.classm:
                self.methods.setdefault(f.name, []).append(f)
        for _ in range(4):
            self.changes = {}            # Fn -> {(root, path): Change}
            self.calls = {}              # Fn -> [(node, callee, {param: alias set}, receiver aliases)]
            before = {f: set(v) for f, v in self.returns.items()}
            for f in prog.fns:
                self.changes[f] = {}
                self.calls[f] = []
                Walk(self, f)
            if self.returns == before:
                break
        self.called = set()
        for f in prog.fns:
            for _, c, _ in self.calls[f]:
                self.called.add(c)
        self.propagate()

    def propagate(self):
        again = True
        while again:
            again = False
            for f in self.p.fns:
                for node, callee, args in self.calls[f]:
                    for (root, path), ch in list(self.changes[callee].items()):
                        for r, pa, exact in args.get(root, ()):
                            key = (r, (pa + path)[:3])
                            if key not in self.changes[f]:
                                self.changes[f][key] = Change(f, r, key[1], node, 'through ' + callee.qual, (ch,) + ch.via)
                                again = True


class Walk:
    """abstract interpretation of one function: which names stand for (parts of) given objects"""
    def __init__(self, an, f):
        self.an, self.f, self.p = an, f, an.p
        self.loc = locals_of(f)
        self.ann = dict(f.annot)
        self.arrays = set()          # local names that certainly stand for an array or list
        a = f.node.args
        env = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = {(x.arg, (), True)}
        for s in ast.walk(f.node):
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann[s.target.id] = s.annotation
        # module-level objects
        for n, bs in f.mod.globals.items():
            if n not in self.loc and any(b[0] == 'var' for b in bs):
                env[n] = {('global ' + n, (), True)}
        for n, bs in f.mod.globals.items():
            if n not in self.loc and all(b[0] in ('mod',) for b in bs):
                env[n] = {('module ' + n, (), True)}
        if f.cls is not None and f.cls.name not in self.loc:
            env[f.cls.name] = {('class ' + f.cls.name, (), True)}
        # default values that are mutable live as long as the module
        self.block(f.node.body, env)

    # -- aliases -----------------------------------------------------------
    def alias(self, e, env):
        """set of (root, path, exact) an expression may stand for"""
        if isinstance(e, ast.Name):
            return env.get(e.id, set())
        if isinstance(e, ast.Attribute):
            return {(r, pa + ('.' + e.attr,), x) for r, pa, x in self.alias(e.value, env)} if e.attr not in ('T',) else self.alias(e.value, env)
        if isinstance(e, ast.Subscript):
            b = self.alias(e.value, env)
            s = e.slice
            exact = simple_index(s, self.ints())
            return {(r, pa + ('[]',), x and exact) for r, pa, x in b}
        if isinstance(e, ast.IfExp):
            return self.alias(e.body, env) | self.alias(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.alias(v, env)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.alias(e.value, env)
        if isinstance(e, (ast.Starred, ast.Await)):
            return self.alias(e.value, env)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in SAME_METHODS:
                return self.alias(e.func.value, env)
            d = self.ext(e.func)
            if d in SAME:
                out = set()
                for x in e.args:
                    out |= self.alias(x, env)
                return out
            # what a function of the package hands back of what it was given
            out = set()
            for callee, args in self.callees(e, env):
                for r, pa, x in self.an.returns.get(callee, ()):
                    for r2, pa2, x2 in args.get(r, ()):
                        out.add((r2, (pa2 + pa)[:3], x and x2))
            return out
        return set()

    def ints(self):
        """names that are integers: annotated so, or counted by range()"""
        if not hasattr(self, '_ints'):
            out = {n for n, a in self.ann.items() if isinstance(a, ast.Name) and a.id == 'int'}
            for s in ast.walk(self.f.node):
                if isinstance(s, (ast.For, ast.comprehension)) and isinstance(s.iter, ast.Call) and isinstance(s.target, ast.Name) and dotted(s.iter.func) == 'range':
                    out.add(s.target.id)
            self._ints = out
        return self._ints

    def ext(self, func):
        r = self.p.resolve(self.f.mod, func, self.loc)
        if r and r[0] in ('ext', 'builtin'):
            return r[1]
        return None

    # -- statements ---------------------------------------------------------
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            env[s.name] = set()
            return
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e, env)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.bind(t, s.value, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, s.value, env)
        elif isinstance(s, ast.AugAssign):
            t = s.target
            if isinstance(t, ast.Name):
                known = is_array(self.ann.get(t.id)) or t.id in self.arrays
                for r, pa, x in env.get(t.id, ()):
                    if x and known:
                        self.change(r, pa, s, 'changes %s in place' % t.id)
            else:
                self.store(t, s, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.store(t, s, env)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.bind_elem(s.target, s.iter, env)
            for _ in (0, 1):
                e2 = copy(env)
                self.block(s.body, e2)
                merge(env, e2)
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in (0, 1):
                e2 = copy(env)
                self.block(s.body, e2)
                merge(env, e2)
            self.block(s.orelse, env)
        elif isinstance(s, ast.If):
            e1, e2 = copy(env), copy(env)
            self.block(s.body, e1)
            self.block(s.orelse, e2)
            env.clear()
            env.update(e1)
            merge(env, e2)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.kill(i.optional_vars, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Try):
            self.block(s.body, env)
            for h in s.handlers:
                e2 = copy(env)
                self.block(h.body, e2)
                merge(env, e2)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Match):
            base = copy(env)
            for c in s.cases:
                e2 = copy(base)
                self.block(c.body, e2)
                merge(env, e2)
        elif isinstance(s, ast.Return) and s.value is not None:
            out = self.an.returns.setdefault(self.f, set())
            out |= {(r, pa[:3], x) for r, pa, x in self.alias(s.value, env) if not r.startswith(('module ', 'class '))}
        elif isinstance(s, ast.Global):
            for n in s.names:
                self.change('global ' + n, (), s, 'declares %s global' % n)

    def bind(self, t, value, env):
        if isinstance(t, ast.Name):
            env[t.id] = self.alias(value, env)
            (self.arrays.add if self.arrayish(value) else self.arrays.discard)(t.id)
            if t.id not in self.f.annot:
                pass
            elif not (isinstance(value, ast.Name) or self.arrayish(value)):
                self.ann.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + value.elts):
                got = [self.alias(v, env) for v in value.elts]
                for x, g in zip(t.elts, got):
                    if isinstance(x, ast.Name):
                        env[x.id] = g
                    else:
                        self.bind(x, ast.Constant(None), env)
            else:
                a = {(r, pa + ('[]',), x) for r, pa, x in self.alias(value, env)}
                for x in t.elts:
                    if isinstance(x, ast.Name):
                        env[x.id] = set(a)
                    elif isinstance(x, ast.Starred):
                        self.kill(x, env)
                    else:
                        self.bind(x, ast.Constant(None), env)
        elif isinstance(t, ast.Starred):
            self.kill(t, env)
        else:
            self.store(t, t, env)

    def arrayish(self, e):
        """an expression that is an array (or list), as far as the source tells"""
        if isinstance(e, ast.Subscript):
            parts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            return any(isinstance(x, ast.Slice) for x in parts)
        if isinstance(e, ast.Attribute):
            c = self.class_of(e.value)
            if c is not None:
                for k in c.node.body:
                    if isinstance(k, ast.AnnAssign) and isinstance(k.target, ast.Name) and k.target.id == e.attr:
                        return is_array(k.annotation)
            return e.attr == 'T'
        if isinstance(e, ast.Name):
            return e.id in self.arrays or is_array(self.ann.get(e.id))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return e.func.attr in ('reshape', 'ravel', 'view', 'transpose', 'squeeze') or self.ext(e.func) in SAME
        return False

    def bind_elem(self, t, it, env):
        a = {(r, pa + ('[]',), x) for r, pa, x in self.alias(it, env)}
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                env[x.id] = set(a)

    def kill(self, t, env):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                env[x.id] = set()

    def store(self, t, s, env):
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            for r, pa, x in self.alias(t.value, env):
                part = '.' + t.attr if isinstance(t, ast.Attribute) else '[]'
                strong = isinstance(t, ast.Attribute) or isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str)
                if x or strong:
                    self.change(r, pa + (part,), s, 'stores into ' + ast.unparse(t))

    def change(self, root, path, node, how):
        key = (root, path[:3])
        self.an.changes[self.f].setdefault(key, Change(self.f, root, key[1], node, how))

    # -- expressions -----------------------------------------------------------
    def expr(self, e, env):
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = copy(env)
            for g in e.generators:
                self.expr(g.iter, e2)
                self.bind_elem(g.target, g.iter, e2)
                for i in g.ifs:
                    self.expr(i, e2)
            for fld in ('elt', 'key', 'value'):
                if getattr(e, fld, None) is not None:
                    self.expr(getattr(e, fld), e2)
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, ast.Call):
            self.call(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, env)

    def call(self, e, env):
        for k in e.keywords:
            if k.arg == 'out':
                for r, pa, x in self.alias(k.value, env):
                    if x:
                        self.change(r, pa, e, 'writes the result of a call into ' + ast.unparse(k.value))
            if k.arg == 'inplace' and isinstance(k.value, ast.Constant) and k.value.value and isinstance(e.func, ast.Attribute):
                for r, pa, x in self.alias(e.func.value, env):
                    self.change(r, pa, e, 'works in place on ' + ast.unparse(e.func.value))
        d = self.ext(e.func)
        if d in NP_INPLACE and e.args:
            for r, pa, x in self.alias(e.args[0], env):
                if x:
                    self.change(r, pa, e, 'works in place on ' + ast.unparse(e.args[0]))
        if d in ('setattr', 'delattr') and e.args:
            for r, pa, x in self.alias(e.args[0], env):
                self.change(r, pa + ('.*',), e, 'sets an attribute of ' + ast.unparse(e.args[0]))
        if isinstance(e.func, ast.Attribute):
            base = e.func.value
            target = self.p.resolve(self.f.mod, e.func, self.loc)
            if not (target and target[0] in ('ext', 'fn')) and e.func.attr in INPLACE:
                c = self.class_of(base)
                if c is None or not self.p.method(c, e.func.attr):
                    for r, pa, x in self.alias(base, env):
                        if r.startswith('module ') and not pa:
                            continue
                        if x or e.func.attr in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'sort', 'reverse', 'setdefault', 'add', 'discard'):
                            self.change(r, pa, e, 'calls %s() on %s' % (e.func.attr, ast.unparse(base)))
        for callee, args in self.callees(e, env):
            self.an.calls[self.f].append((e, callee, args))

    def callees(self, e, env):
        """functions of the package a call may reach, with what it hands over"""
        target = self.p.resolve(self.f.mod, e.func, self.loc)
        if target and target[0] == 'fn':
            return [self.handed(e, target[1], env, None)]
        if isinstance(e.func, ast.Name):
            if self.f.outer is None:
                g = next((g for g in self.p.fns if g.outer is self.f and g.name == e.func.id), None)
                if g is not None:
                    return [self.handed(e, g, env, None)]
            return []
        if isinstance(e.func, ast.Attribute) and not (target and target[0] in ('ext', 'builtin', 'cls')):
            recv = self.alias(e.func.value, env)
            c = self.class_of(e.func.value)
            if c is not None:
                ms = [self.p.method(k, e.func.attr) for k in [c] + [s for s in self.p.all_subs(c) if s is not c]]
                ms = [m for m in ms if m is not None and not m.static and not m.classm]
            elif e.func.attr not in INPLACE | SAME_METHODS:
                ms = self.an.methods.get(e.func.attr, [])       # the class of the object is not known
            else:
                ms = []
            return [self.handed(e, m, env, recv) for m in dict.fromkeys(ms)]
        return []

    def class_of(self, e):
        """class of an expression, from annotations and constructors"""
        f = self.f
        if isinstance(e, ast.Name):
            if f.bound and f.params and e.id == f.params[0] and f.cls is not None and not f.classm:
                return f.cls
            a = self.ann.get(e.id)
            if a is not None:
                r = self.p.resolve(f.mod, a)
                if r and r[0] == 'cls':
                    return r[1]
            for s in own_nodes(f.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id and isinstance(s.value, ast.Call):
                    r = self.p.resolve(f.mod, s.value.func, self.loc)
                    if r and r[0] == 'cls':
                        return r[1]
        return None

    def handed(self, e, callee, env, receiver):
        args = {}
        params = list(callee.params)
        if callee.bound:
            if receiver is not None and not callee.classm:
                args[params[0]] = receiver
            first = 1
            if receiver is None and not callee.classm and callee.cls is not None:      # Class.method(obj, …)
                first = 0
        else:
            first = 0
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred):
                break
            if first + i < len(params):
                args[params[first + i]] = self.alias(a, env)
        for k in e.keywords:
            if k.arg:
                args[k.arg] = self.alias(k.value, env)
        return callee, args


def simple_index(s, ints=()):
    """an index that gives a part of the object, not a copy of some of its elements"""
    if isinstance(s, ast.Constant):
        return True
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Name):
        return s.id in ints
    if isinstance(s, ast.BinOp):
        return simple_index(s.left, ints) and simple_index(s.right, ints)
    if isinstance(s, ast.Tuple):
        return all(simple_index(x, ints) for x in s.elts)
    if isinstance(s, ast.UnaryOp):
        return simple_index(s.operand, ints)
    return False


def copy(env):
    return {k: set(v) for k, v in env.items()}


def merge(env, other):
    for k, v in other.items():
        env[k] = env.get(k, set()) | v
