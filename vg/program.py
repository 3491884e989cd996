"""A model of the package for structural rules: modules, scopes, classes, calls, mutations."""
import ast
import builtins
import os
import symtable

PACKAGE = 'heat_load_calc'

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__class__', '__annotations__', '__spec__', '__loader__'}
OPEN_BASES = {'object', 'ABC', 'abc.ABC', 'NamedTuple', 'typing.NamedTuple', 'Enum', 'enum.Enum', 'IntEnum', 'Generic', 'Protocol'}
ENUM_ATTRS = {'name', 'value', '_value_', '_name_'}
TUPLE_ATTRS = {'_asdict', '_replace', '_fields', '_make', 'count', 'index', '_field_defaults'}
OBJECT_ATTRS = set(dir(object)) | {'__dict__', '__annotations__', '__mro__', '__name__', '__qualname__', '__module__', '__members__', '__subclasses__'}


class Module:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, rel)
        self.globals = {}            # name -> list of bindings
        self.star = False


class Fn:
    """A function or method (or the lambda-free body of one)."""
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = node.name
        self.qual = (outer.qual + '.' if outer else (cls.name + '.' if cls else '')) + node.name
        decos = {dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list}
        self.static = 'staticmethod' in decos
        self.classm = 'classmethod' in decos
        self.prop = bool(decos & {'property', 'cached_property', 'functools.cached_property'}) or any(d.endswith('.setter') for d in decos if d)
        self.plain = not (decos - {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'abc.abstractmethod'})
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.annot = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.bound = bool(cls) and not self.static and not outer

    def where(self, node=None):
        return '%s:%d (%s)' % (self.mod.rel, (node or self.node).lineno, self.qual)

    def __repr__(self):
        return self.mod.name + ':' + self.qual


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.bases = node.bases
        self.fields = []             # class level annotated or assigned names in order
        self.required = []
        self.attrs = set()
        self.subs = []
        self.decos = {dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr
    return None


class Program:
    _cache = {}

    @classmethod
    def of(cls, repo):
        if repo not in cls._cache:
            cls._cache[repo] = cls(repo)
        return cls._cache[repo]

    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.fns = []
        self.classes = []
        base = os.path.join(repo, PACKAGE)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    r = os.path.relpath(p, repo)
                    n = r[:-3].replace(os.sep, '.')
                    if n.endswith('.__init__'):
                        n = n[:-9]
                    self.modules[n] = Module(n, p, r)
        for m in self.modules.values():
            self.bind(m)
        for c in self.classes:
            for b in self.base_classes(c, own=True):
                if isinstance(b, Cls):
                    b.subs.append(c)
        self.call_edges = None

    # -- bindings ---------------------------------------------------------
    def bind(self, m):
        def add(n, b):
            m.globals.setdefault(n, []).append(b)

        def target(t, value):
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    add(x.id, ('var', value))

        def visit(body, top=True):
            for s in body:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            add(a.asname, ('mod', a.name))
                        else:
                            add(a.name.split('.')[0], ('mod', a.name.split('.')[0]))
                elif isinstance(s, ast.ImportFrom):
                    src = s.module or ''
                    if s.level:
                        parts = m.name.split('.')
                        if not m.path.endswith('__init__.py'):
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (s.level - 1)]
                        src = '.'.join(parts + ([s.module] if s.module else []))
                    for a in s.names:
                        if a.name == '*':
                            m.star = True
                        elif src + '.' + a.name in self.modules or self.is_module_file(src + '.' + a.name):
                            add(a.asname or a.name, ('mod', src + '.' + a.name))
                        else:
                            add(a.asname or a.name, ('from', src, a.name, s))
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn(m, s)
                    self.fns.append(f)
                    add(s.name, ('fn', f))
                    self.nested(f)
                elif isinstance(s, ast.ClassDef):
                    c = self.make_class(m, s)
                    add(s.name, ('cls', c))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        target(t, s.value)
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                    target(s.target, s.value)
                elif isinstance(s, (ast.For, ast.AsyncFor)):
                    target(s.target, None)
                    visit(s.body, False)
                    visit(s.orelse, False)
                elif isinstance(s, ast.While):
                    visit(s.body, False)
                    visit(s.orelse, False)
                elif isinstance(s, ast.If):
                    visit(s.body, False)
                    visit(s.orelse, False)
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    for i in s.items:
                        if i.optional_vars is not None:
                            target(i.optional_vars, None)
                    visit(s.body, False)
                elif isinstance(s, ast.Try):
                    visit(s.body, False)
                    for h in s.handlers:
                        if h.name:
                            add(h.name, ('var', None))
                        visit(h.body, False)
                    visit(s.orelse, False)
                    visit(s.finalbody, False)
                for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(x, ast.NamedExpr):
                        add(x.target.id, ('var', x.value))
        visit(m.tree.body)
        for x in ast.walk(m.tree):               # names a function declares global
            if isinstance(x, ast.Global):
                for n in x.names:
                    add(n, ('var', None))

    def is_module_file(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        return os.path.exists(p + '.py') or os.path.exists(os.path.join(p, '__init__.py'))

    def nested(self, f):
        for x in f.node.body:
            self._nested(f, x)

    def _nested(self, f, x):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = Fn(f.mod, x, f.cls, f)
            self.fns.append(g)
            self.nested(g)
        elif isinstance(x, ast.ClassDef):
            pass
        else:
            for y in ast.iter_child_nodes(x):
                self._nested(f, y)

    def make_class(self, m, s):
        c = Cls(m, s)
        self.classes.append(c)
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(m, b, c)
                self.fns.append(f)
                c.methods.setdefault(b.name, f)
                c.attrs.add(b.name)
                self.nested(f)
                selfn = f.params[0] if f.bound and f.params else None
                for x in ast.walk(b):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in (selfn, c.name):
                        c.attrs.add(x.attr)
                    if isinstance(x, ast.Call) and dotted(x.func) in ('setattr', 'object.__setattr__') and len(x.args) > 1:
                        if isinstance(x.args[1], ast.Constant):
                            c.attrs.add(x.args[1].value)
                        else:
                            c.open = True
                    if isinstance(x, ast.Attribute) and x.attr == '__dict__':
                        c.open = True
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.attrs.add(b.target.id)
                c.fields.append(b.target.id)
                if b.value is None:
                    c.required.append(b.target.id)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            c.attrs.add(x.id)
                            c.fields.append(x.id)
            elif isinstance(b, ast.ClassDef):
                c.attrs.add(b.name)
            elif not isinstance(b, (ast.Expr, ast.Pass)):
                c.open = True
        if {'__getattr__', '__getattribute__'} & set(c.methods):
            c.open = True
        return c

    # -- resolution --------------------------------------------------------
    def global_of(self, m, name):
        """the single binding of a module-level name: ('fn',Fn) ('cls',Cls) ('mod',name) ('ext',dotted) or None"""
        bs = m.globals.get(name)
        if not bs:
            return ('builtin', name) if name in BUILTINS and not m.star else None
        if len(bs) != 1:
            ks = {(b[0], b[1] if b[0] == 'mod' else id(b)) for b in bs}
            if len(ks) != 1:
                return ('many', bs)
        b = bs[0]
        if b[0] == 'from':
            src = self.modules.get(b[1])
            if src is not None:
                return self.global_of(src, b[2]) or (('missing', b[1] + '.' + b[2]) if not src.star else None)
            return ('ext', b[1] + '.' + b[2])
        return b

    def resolve(self, m, e, local=()):
        """what an expression made of names and attributes denotes"""
        if isinstance(e, ast.Name):
            if e.id in local:
                return None
            return self.global_of(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value, local)
            if b is None:
                return None
            if b[0] == 'mod':
                full = b[1] + '.' + e.attr
                if b[1] in self.modules:
                    mm = self.modules[b[1]]
                    if e.attr in mm.globals:
                        return self.global_of(mm, e.attr)
                    if full in self.modules:
                        return ('mod', full)
                    if e.attr in ('__name__', '__file__', '__doc__', '__path__', '__dict__') or mm.star:
                        return None
                    return ('missing', full)
                if full in self.modules:
                    return ('mod', full)
                return ('ext', full)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'cls':
                f = self.method(b[1], e.attr)
                if f is not None:
                    return ('fn', f)
                return ('attr', b[1], e.attr)
        return None

    def base_classes(self, c, own=False):
        out = []
        for b in c.bases:
            r = self.resolve(c.mod, b.value if isinstance(b, ast.Subscript) else b)
            if r and r[0] == 'cls':
                out.append(r[1])
            elif r and r[0] in ('ext', 'builtin'):
                out.append(r[1].split('.')[-1])
            else:
                out.append('?')
        return out

    def mro(self, c, seen=None):
        seen = seen or []
        if c in seen:
            return
        seen.append(c)
        yield c
        if isinstance(c, Cls):
            for b in self.base_classes(c):
                for x in self.mro(b, seen):
                    yield x

    def method(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.methods:
                return k.methods[name]
        return None

    def closed(self, c):
        """every attribute of the class is known from the source"""
        for k in self.mro(c):
            if isinstance(k, Cls):
                if getattr(k, 'open', False) or (k.decos - {'dataclass', 'dataclasses.dataclass'}):
                    return False
                if any(w.arg == 'metaclass' and dotted(w.value) not in ('ABCMeta', 'abc.ABCMeta') for w in k.node.keywords):
                    return False
            elif k not in ('object', 'ABC', 'NamedTuple', 'Enum', 'IntEnum', 'Generic', 'Protocol'):
                return False
        return True

    def kind(self, c):
        for k in self.mro(c):
            if k in ('NamedTuple', 'Enum', 'IntEnum'):
                return k
        if any('dataclass' in (d or '') for d in c.decos):
            return 'dataclass'
        return 'class'

    def has_attr(self, c, name, subs=True):
        if name in OBJECT_ATTRS:
            return True
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.attrs:
                return True
        kind = self.kind(c)
        if kind in ('Enum', 'IntEnum') and name in ENUM_ATTRS or kind == 'NamedTuple' and name in TUPLE_ATTRS:
            return True
        return subs and any(self.has_attr(s, name) for s in c.subs)

    def all_subs(self, c):
        out = [c]
        for s in c.subs:
            out += self.all_subs(s)
        return out

    # -- scopes --------------------------------------------------------------
    def unbound_globals(self, m):
        """(function name, line of the scope, name) of names that nothing binds"""
        if m.star:
            return []
        out = []

        def walk(t):
            for s in t.get_symbols():
                n = s.get_name()
                if s.is_global() and s.is_referenced() and n not in m.globals and n not in BUILTINS:
                    out.append((t.get_name(), t.get_lineno(), n))
            for c in t.get_children():
                walk(c)
        top = symtable.symtable(m.text, m.rel, 'exec')
        for c in top.get_children():
            walk(c)
        for s in top.get_symbols():
            n = s.get_name()
            if s.is_referenced() and not s.is_assigned() and not s.is_imported() and not s.is_namespace() and n not in m.globals and n not in BUILTINS:
                out.append(('module', 1, n))
        return out


def locals_of(f):
    """names bound in a function (not in functions nested in it)"""
    a = f.node.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    gl = set()

    def visit(x):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(x.name)
            return
        if isinstance(x, ast.Lambda):
            return
        if isinstance(x, ast.Global):
            gl.update(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            names.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                names.add(al.asname or al.name.split('.')[0])
        if isinstance(x, ast.ExceptHandler) and x.name:
            names.add(x.name)
        for y in ast.iter_child_nodes(x):
            visit(y)
    for s in f.node.body:
        visit(s)
    if f.outer:
        names |= locals_of(f.outer)
    return names - gl


def terminates(body):
    """True when control cannot run off the end of the statements"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, (ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.If) and s.orelse and terminates(s.body) and terminates(s.orelse):
            return True
        if isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and s.test.value and terminates(s.body):
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)) and terminates(s.body):
            return True
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not has_break(s.body):
            return True
        if isinstance(s, ast.Try):
            if s.finalbody and terminates(s.finalbody):
                return True
            ends = terminates(s.body) or bool(s.orelse) and terminates(s.orelse)
            if ends and all(terminates(h.body) for h in s.handlers):
                return True
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return True
        if isinstance(s, ast.Match):
            last = s.cases[-1]
            if isinstance(last.pattern, ast.MatchAs) and last.pattern.pattern is None and last.guard is None and all(terminates(c.body) for c in s.cases):
                return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and dotted(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
            return True
    return False


def has_break(body):
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if has_break(getattr(s, 'orelse', [])):
                return True
            continue
        for fld in ('body', 'orelse', 'finalbody'):
            if has_break(getattr(s, fld, []) or []):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if has_break(h.body):
                return True
        for c in getattr(s, 'cases', []) or []:
            if has_break(c.body):
                return True
    return False


def own_nodes(fn_node):
    """nodes of a function without those of functions and classes nested in it"""
    stack = list(reversed(fn_node.body))
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(x))))
