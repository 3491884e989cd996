"""Structural rules: syntax-tree and call-graph queries over the repository's source."""
import ast
import csv
import json
import os
import re

from vg.program import (Program, Cls, Fn, dotted, own_nodes, locals_of, terminates, BUILTINS)
from vg.mutation import Analysis

PACKAGE = 'heat_load_calc'


class AnchorMissing(Exception):
    pass


class Res:
    def __init__(self):
        self.instances = 0
        self.violations = []
        self.undecided = []
        self.functions = set()

    def bad(self, where, what, **kw):
        self.violations.append(dict({'where': where if isinstance(where, list) else [where], 'what': what}, **kw))

    def unsure(self, why, **kw):
        self.undecided.append(dict({'why': why}, **kw))


RULES = {}


def rule(*props):
    def deco(fn):
        for p in props:
            RULES.setdefault(p, []).append((fn.__name__, fn))
        return fn
    return deco


def for_property(p):
    return RULES.get(p, [])


def main_block(m):
    """lines of the code that only runs when the module is the program"""
    out = set()
    for s in m.tree.body:
        if isinstance(s, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(s.test)):
            out.update(range(s.lineno, s.end_lineno + 1))
    return out


def finding(res, key, table):
    return {'finding': table[key]} if key in table else {}


def analysis(prog):
    if not hasattr(prog, '_analysis'):
        prog._analysis = Analysis(prog)
    return prog._analysis


# -- C09: no hidden state ------------------------------------------------------

STATEFUL = ('random', 'secrets', 'uuid', 'time', 'datetime', 'os.environ', 'os.getenv', 'os.getcwd', 'os.urandom', 'os.getpid', 'os.times',
            'numpy.random', 'socket', 'platform', 'getpass', 'locale', 'threading', 'multiprocessing', 'concurrent', 'asyncio',
            'tempfile', 'inspect', 'gc', 'weakref', 'sys.argv', 'sys.stdin', 'scipy.stats', 'pandas.Timestamp.now', 'pandas.Timestamp.today', 'numpy.datetime64')
STATEFUL_BUILTIN = {'id', 'hash', 'input', 'globals', 'vars', 'exec', 'eval', 'compile', '__import__'}
STATELESS = {'datetime.timedelta', 'datetime.date', 'datetime.datetime.strptime', 'datetime.datetime', 'datetime.timezone', 'inspect.signature'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property', 'functools.singledispatch'}


@rule('C09')
def given_objects_unchanged(prog):
    """no function changes an object it was given, a module-level object or a class, beyond its own caller's fresh objects"""
    res = Res()
    an = analysis(prog)
    for f in prog.fns:
        res.instances += 1
        res.functions.add(repr(f))
        for (root, path), ch in sorted(an.changes[f].items(), key=str):
            selfn = f.params[0] if f.bound and f.params else None
            if root == selfn and not f.classm:
                if f.name in ('__init__', '__new__', '__setattr__', '__post_init__') or f.name in an.called or f in an.called:
                    # what the receiver is, is judged where the method is called
                    continue
                if any(g.name == f.name and g in an.called for g in prog.fns):
                    continue
            elif not root.startswith(('global ', 'module ', 'class ')):
                if f.outer is not None or (f in an.called and not public_entry(f)):
                    continue                       # judged at the callers
            chain = [ch.fn.where(ch.node)] + [v.fn.where(v.node) for v in ch.via]
            label = root + ''.join(path)
            res.bad(chain, '%s %s, which was handed to it%s' % (f.qual, ch.how, '' if ' ' not in root else ' or outlives it') + ' (%s)' % label)
    return res


def public_entry(f):
    """functions which users of the package call themselves"""
    return (f.mod.name.split('.')[-1], f.name) in ENTRIES


ENTRIES = {('core', 'calc'), ('initializer', 'make_house'), ('weather', 'make_weather'), ('pre_calc_parameters', 'make_pre_calc_parameters'), ('log', 'record'),
           ('convert_indices_to_lv2_info', 'convert_spec'), ('convert_lv2_to_lv3', 'convert_spec'), ('convert_lv3_to_lv4', 'convert_spec')}


@rule('C09')
def parameters_constant_over_steps(prog):
    """what a loop hands to a function in every round is not changed by it where it also reads it, except as the result it hands on"""
    res = Res()
    an = analysis(prog)
    for f in prog.fns:
        loops = [x for x in own_nodes(f.node) if isinstance(x, (ast.For, ast.While))]
        for lp in loops:
            inside = {id(y) for s in lp.body for y in ast.walk(s)}
            stored = {y.id for s in lp.body for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            if isinstance(lp, ast.For):
                stored |= {y.id for y in ast.walk(lp.target) if isinstance(y, ast.Name)}
            for call, callee, args in an.calls[f]:
                if id(call) not in inside:
                    continue
                res.instances += 1
                for (root, path), ch in an.changes[callee].items():
                    e = argument(callee, call, root)
                    if not isinstance(e, ast.Name) or e.id in stored or not path or not path[0].startswith('.'):
                        continue
                    if reads_attr(callee, root, path[0][1:]):
                        chain = [ch.fn.where(ch.node)] + [v.fn.where(v.node) for v in ch.via] + [f.where(call)]
                        res.bad(chain, '%s %s, which the next round of %s reads again' % (callee.qual, ch.how, f.qual))
    return res


def reads_attr(f, root, attr):
    """the function uses the attribute of its parameter otherwise than to store into it"""
    targets = set()
    for x in own_nodes(f.node):
        ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) else []
        for t in ts:
            y = t
            while isinstance(y, (ast.Attribute, ast.Subscript)):
                y = y.value
                targets.add(id(y))
    for x in own_nodes(f.node):
        if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id == root and id(x) not in targets and isinstance(x.ctx, ast.Load):
            return True
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and x.target.attr == attr:
            return True
    return False


@rule('C09')
def no_defaults_kept(prog):
    """no mutable default argument is changed or handed out, so no call sees what an earlier one left"""
    res = Res()
    an = analysis(prog)
    for f in prog.fns:
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            res.instances += 1
            mutable = isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and dotted(d.func) in ('list', 'dict', 'set', 'np.array', 'np.zeros', 'np.ones', 'np.full')
            if not mutable:
                continue
            for (root, path), ch in an.changes[f].items():
                if root == p.arg:
                    res.bad(ch.fn.where(ch.node), '%s %s, the default value of its parameter %s, which every later call shares' % (f.qual, ch.how, p.arg))
                    break
    return res


@rule('C09')
def same_inputs_same_results(prog):
    """nothing a result depends on comes from the clock, chance, the environment, uninitialised memory or the order of a set"""
    res = Res()
    for m in prog.modules.values():
        skip = main_block(m)
        for x in ast.walk(m.tree):
            if getattr(x, 'lineno', 0) in skip:
                continue
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load):
                r = prog.resolve(m, x)
                d = r[1] if r and r[0] in ('ext', 'mod', 'builtin') and isinstance(r[1], str) else None
                if d is None:
                    continue
                res.instances += 1
                if r[0] == 'builtin':
                    continue
                hit = next((s for s in STATEFUL if d == s or d.startswith(s + '.')), None)
                if hit and d not in STATELESS and not any(d == y.split('.')[0] or y.startswith(d + '.') for y in STATELESS) and not is_prefix_use(x, m):
                    res.bad('%s:%d' % (m.rel, x.lineno), '%s is read, which differs between two runs on the same inputs' % d)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in STATEFUL_BUILTIN and x.func.id not in m.globals:
                res.bad('%s:%d' % (m.rel, x.lineno), '%s() makes the result depend on more than the inputs' % x.func.id)
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for deco in x.decorator_list:
                    r = prog.resolve(m, deco.func if isinstance(deco, ast.Call) else deco)
                    if r and r[0] == 'ext' and r[1] in CACHES:
                        f = next((g for g in prog.fns if g.node is x), None)
                        if f is not None and reads_files(prog, f):
                            res.bad('%s:%d (%s)' % (m.rel, x.lineno, x.name), '%s keeps what it read from a file for later calculations' % x.name)
                        else:
                            res.unsure('%s:%d %s remembers its results' % (m.rel, x.lineno, x.name))
        for f in [f for f in prog.fns if f.mod is m and f.outer is None]:
            sets_in_order(prog, f, res)
    return res


def is_prefix_use(x, m):
    """an inner part of a longer dotted name is judged with the whole name"""
    if not hasattr(m, 'inner'):
        m.inner = {id(y.value) for y in ast.walk(m.tree) if isinstance(y, ast.Attribute)}
    return id(x) in m.inner


def reads_files(prog, f, seen=None):
    seen = seen or set()
    if f in seen:
        return False
    seen.add(f)
    loc = locals_of(f)
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call):
            r = prog.resolve(f.mod, x.func, loc)
            if r and r[0] in ('builtin', 'ext') and (r[1] == 'open' or r[1].split('.')[-1] in ('read_csv', 'loadtxt', 'genfromtxt', 'read_excel', 'load', 'fromfile')):
                if not any(isinstance(y, ast.Name) and y.id == '__file__' for y in ast.walk(f.node)):
                    return True
            if r and r[0] == 'fn' and reads_files(prog, r[1], seen):
                return True
    return False


def sets_in_order(prog, f, res):
    """the order of a set of strings changes from process to process"""
    names = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            if is_set(x.value, names):
                names.add(x.targets[0].id)
            else:
                names.discard(x.targets[0].id)
    for x in ast.walk(f.node):
        it = None
        if isinstance(x, (ast.For, ast.comprehension)):
            it = x.iter
        elif isinstance(x, ast.Call) and dotted(x.func) in ('list', 'tuple', 'enumerate', 'zip', 'np.array', 'map', 'iter') and x.args:
            it = x.args[0]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'join' and x.args:
            it = x.args[0]
        if it is not None:
            res.instances += 1
            if is_set(it, names) and not numbers_only(it):
                if harmless(x, f):
                    continue
                res.bad(f.where(it), '%s runs through a set, whose order differs from process to process' % f.qual)


def harmless(x, f):
    """the elements only go into something without order"""
    if isinstance(x, ast.comprehension):
        for y in ast.walk(f.node):
            if isinstance(y, (ast.SetComp, ast.DictComp)) and x in y.generators:
                return True
            if isinstance(y, ast.Call) and dotted(y.func) in ('set', 'frozenset', 'any', 'all', 'min', 'max', 'sorted', 'len') and y.args and getattr(y.args[0], 'generators', None) and x in y.args[0].generators:
                return True
    if isinstance(x, (ast.comprehension, ast.For)):
        return isinstance(x, ast.For) and all(isinstance(s, (ast.If, ast.Raise, ast.Assert, ast.Pass)) and not any(isinstance(y, (ast.Assign, ast.AugAssign, ast.Call)) and not in_raise(s, y) for y in ast.walk(s)) for s in x.body)
    if isinstance(x, ast.Call):
        for y in ast.walk(f.node):
            if isinstance(y, ast.Call) and dotted(y.func) in ('sorted', 'set', 'len', 'any', 'all', 'min', 'max') and x in y.args:
                return True
    return False


def in_raise(s, y):
    for z in ast.walk(s):
        if isinstance(z, (ast.Raise, ast.Assert)) and any(w is y for w in ast.walk(z)):
            return True
    return False


def is_set(e, names):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call) and dotted(e.func) in ('set', 'frozenset'):
        return True
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, names) or is_set(e.right, names) and not isinstance(e.op, ast.Sub)
    return False


def numbers_only(e):
    return isinstance(e, ast.Set) and all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)


# -- X01: effects on the outside world -------------------------------------------

WRITES = {'to_csv': 0, 'to_json': 0, 'to_excel': 0, 'to_pickle': 0, 'to_parquet': 0, 'to_hdf': 0, 'to_feather': 0, 'to_html': 0, 'write_text': None, 'write_bytes': None, 'tofile': 0, 'unlink': None,
          'rmdir': None, 'touch': None, 'savefig': 0}
EXT_WRITES = {'numpy.save': 0, 'numpy.savetxt': 0, 'numpy.savez': 0, 'os.mkdir': 0, 'os.makedirs': 0, 'os.remove': 0, 'os.unlink': 0, 'os.rmdir': 0, 'os.removedirs': 0, 'os.rename': 1, 'os.replace': 1,
              'shutil.copy': 1, 'shutil.copyfile': 1, 'shutil.copytree': 1, 'shutil.move': 1, 'shutil.rmtree': 0, 'os.truncate': 0, 'os.chmod': 0, 'os.symlink': 1, 'os.link': 1, 'os.open': 0}
FORBIDDEN = ('subprocess', 'os.system', 'os.popen', 'os.exec', 'os.spawn', 'os.fork', 'os.kill', 'os.chdir', 'os.putenv', 'os.setuid', 'os.umask', 'socket', 'urllib', 'requests', 'http', 'ftplib',
             'smtplib', 'ctypes', 'multiprocessing', 'signal', 'atexit', 'sys.exit', 'os._exit', 'pickle.load', 'marshal', 'importlib', 'runpy', 'webbrowser')
FORBIDDEN_BUILTIN = {'exec', 'eval', 'exit', 'quit', 'input', 'breakpoint', '__import__', 'compile'}


def path_roots(prog, f, e):
    """what the text of a path is made of, over all its alternatives: ('param', name) and ('file',)"""
    return set().union(*path_alternatives(prog, f, e))


def path_alternatives(prog, f, e, given=None, depth=0):
    """the possible texts of a path, each as the set of what it is made of"""
    given = given or {}
    loc = locals_of(f)

    def join(parts):
        out = [frozenset()]
        for ps in parts:
            out = list(dict.fromkeys(x | y for x in out for y in ps))
            if len(out) > 32:
                return [frozenset().union(*out)]
        return out

    def empty(x):
        return isinstance(x, ast.Constant) and x.value in (None, '', False)

    def go(x):
        if isinstance(x, ast.IfExp):
            return list(dict.fromkeys(z for y in (x.body, x.orelse) if not empty(y) for z in go(y))) or [frozenset()]
        if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or):
            return list(dict.fromkeys(z for y in x.values if not empty(y) for z in go(y))) or [frozenset()]
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            return name(x.id)
        if isinstance(x, ast.Call) and depth < 12:
            r = prog.resolve(f.mod, x.func, loc)
            g = r[1] if r and r[0] == 'fn' else None
            if g is None and isinstance(x.func, ast.Name):
                g = next((h for h in prog.fns if h.name == x.func.id and h.outer in (f, f.outer) and h.outer is not None), None)
            if g is None and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and f.bound and f.params and x.func.value.id == f.params[0] and f.cls:
                g = prog.method(f.cls, x.func.attr)
            back = [y.value for y in own_nodes(g.node) if isinstance(y, ast.Return) and y.value is not None and not empty(y.value)] if g is not None else []
            if back:
                # what the function makes of its arguments, next to the arguments themselves
                env = {q: go(a) if a is not None else [frozenset()] for q, a in ((q, argument(g, x, q)) for q in (g.params[1:] if g.bound and not g.static else g.params))}
                made = [z for y in back for z in path_alternatives(prog, g, y, env, depth + 4)]
                return list(dict.fromkeys(made))
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return [frozenset().union(*join([go(y) for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)]))]
        return join([go(y) for y in ast.iter_child_nodes(x) if isinstance(y, (ast.expr, ast.keyword))])

    def name(n):
        if n in given:
            return given[n]
        base = [frozenset([('param', n)])] if n in f.annot or f.outer and n in f.outer.annot else []
        if n == '__file__':
            return [frozenset([('file',)])]
        if n in loc or base:
            later, own = list(base), []
            if depth < 12:
                for s in ast.walk(f.node):
                    v = None
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n and isinstance(t.ctx, ast.Store) for y in s.targets for t in ast.walk(y)):
                        v = s.value
                    elif isinstance(s, (ast.AnnAssign, ast.NamedExpr)) and isinstance(s.target, ast.Name) and s.target.id == n:
                        v = s.value
                    elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == n:
                        own.append(ast.BinOp(ast.Name(n, ast.Load()), s.op, s.value))
                    elif isinstance(s, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == n for t in ast.walk(s.target)):
                        v = s.iter
                    elif isinstance(s, ast.withitem) and s.optional_vars is not None and any(isinstance(t, ast.Name) and t.id == n for t in ast.walk(s.optional_vars)):
                        v = s.context_expr
                    if v is None or empty(v):
                        continue
                    if any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(v)):
                        own.append(v)
                    else:
                        later += path_alternatives(prog, f, v, dict(given, **{n: [frozenset()]}), depth + 1)
                start = [frozenset().union(*later)] if later else [frozenset()]
                for v in own:
                    later += path_alternatives(prog, f, v, dict(given, **{n: start}), depth + 1)
            return list(dict.fromkeys(later)) or [frozenset()]
        for b in f.mod.globals.get(n, ()):
            if b[0] == 'var' and b[1] is not None and any(isinstance(y, ast.Name) and y.id == '__file__' for y in ast.walk(b[1])):
                return [frozenset([('file',)])]
        return [frozenset()]
    return go(e)


def effects(prog):
    """(function or None, module, node, kind, path expression) of every effect on the outside world"""
    owners = {}
    for f in prog.fns:
        for x in own_nodes(f.node):
            owners[id(x)] = f
    for m in prog.modules.values():
        skip = main_block(m)
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call) or x.lineno in skip:
                continue
            f = owners.get(id(x))
            loc = locals_of(f) if f else ()
            r = prog.resolve(m, x.func, loc)
            d = r[1] if r and r[0] in ('ext', 'builtin', 'mod') else None
            if d == 'open' or d in ('io.open', 'codecs.open'):
                mode = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == 'mode'), None)
                p = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == 'file'), None)
                if mode is None or isinstance(mode, ast.Constant) and not set(str(mode.value)) & set('wax+'):
                    yield f, m, x, 'read', p
                else:
                    yield f, m, x, 'write', p
            elif d in EXT_WRITES:
                i = EXT_WRITES[d]
                yield f, m, x, 'write', x.args[i] if len(x.args) > i else next((k.value for k in x.keywords if k.arg in ('path', 'dst', 'fname', 'file', 'name')), None)
            elif d and (any(d == s or d.startswith(s + '.') or (s.endswith(('exec', 'spawn')) and d.startswith(s)) for s in FORBIDDEN) or r[0] == 'builtin' and d in FORBIDDEN_BUILTIN):
                yield f, m, x, 'forbidden', None
            elif d is None and isinstance(x.func, ast.Attribute) and x.func.attr in WRITES and not (r and r[0] == 'fn'):
                i = WRITES[x.func.attr]
                if i is None:
                    yield f, m, x, 'write', x.func.value
                elif x.args or any(k.arg in ('path_or_buf', 'path', 'excel_writer', 'fname', 'buf') for k in x.keywords):
                    yield f, m, x, 'write', x.args[0] if x.args else next(k.value for k in x.keywords if k.arg in ('path_or_buf', 'path', 'excel_writer', 'fname', 'buf'))
            elif d and d.split('.')[0] in ('pandas', 'numpy') and d.split('.')[-1] in ('read_csv', 'loadtxt', 'genfromtxt', 'read_excel', 'read_json', 'load', 'fromfile'):
                yield f, m, x, 'read', x.args[0] if x.args else None


def callers_of(prog):
    if not hasattr(prog, '_callers'):
        prog._callers = {}
        for f in prog.fns:
            loc = locals_of(f)
            for x in own_nodes(f.node):
                if isinstance(x, ast.Call):
                    r = prog.resolve(f.mod, x.func, loc)
                    g = r[1] if r and r[0] == 'fn' else None
                    if r and r[0] == 'cls':
                        g = prog.method(r[1], '__init__')
                    if g is None and isinstance(x.func, ast.Name):
                        g = next((h for h in prog.fns if h.name == x.func.id and h.outer in (f, f.outer) and h.outer is not None), None)
                    if g is None and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and f.bound and f.params and x.func.value.id == f.params[0] and f.cls:
                        g = prog.method(f.cls, x.func.attr)
                    if g is not None:
                        prog._callers.setdefault(g, []).append((f, x))
    return prog._callers


def argument(g, call, name):
    """the expression a call passes for a parameter"""
    for k in call.keywords:
        if k.arg == name:
            return k.value
    ps = g.params[1:] if g.bound and not g.static else g.params
    if name in ps:
        i = ps.index(name)
        if i < len(call.args):
            return call.args[i]
    a = g.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == name and d is not None:
            return d
    return None


def comes_from(prog, f, e, accept, seen=()):
    """None when the path is made from a parameter of every entry that leads here, else why not"""
    for roots in path_alternatives(prog, f, e):
        w = rooted(prog, f, roots, accept, seen)
        if w is not None:
            return w
    return None


def rooted(prog, f, roots, accept, seen):
    if ('file',) in roots:
        return None if accept == 'read' else 'the path lies in the package itself'
    ps = {r[1] for r in roots if r[0] == 'param'}
    if not ps:
        return 'the path is fixed'
    cs = callers_of(prog).get(f, [])
    if not cs or f in seen:
        return None
    why = None
    for p in ps:
        if p in (f.params[0:1] if f.bound else []):
            return None
        for g, call in cs:
            a = argument(f, call, p)
            if a is None:
                return None
            if isinstance(a, ast.Constant) or not path_roots(prog, g, a):
                continue
            w = comes_from(prog, g, a, accept, seen + (f,))
            if w is None:
                return None
            why = w
    return why or 'every caller passes a fixed path'


@rule('X01')
def effects_stay_in_given_directory(prog):
    """every file that is written lies in a directory the caller named, and nothing else leaves the process"""
    res = Res()
    n = 0
    for f, m, x, kind, p in effects(prog):
        res.instances += 1
        where = f.where(x) if f else '%s:%d' % (m.rel, x.lineno)
        if f:
            res.functions.add(repr(f))
        if kind == 'forbidden':
            res.bad(where, 'the calculation calls %s' % ast.unparse(x.func))
        elif kind == 'write':
            n += 1
            if f is None:
                res.bad(where, 'a file is written when the module is imported')
                continue
            if p is None:
                res.unsure('path of %s at %s' % (ast.unparse(x.func), where))
                continue
            w = comes_from(prog, f, p, 'write')
            if w:
                res.bad(where, '%s writes outside of the directory it was given: %s' % (f.qual, w))
        elif kind == 'read':
            if f is None or p is None:
                continue
            w = comes_from(prog, f, p, 'read')
            if w:
                res.bad(where, '%s reads a file that does not depend on the directory it was given: %s' % (f.qual, w))
    if n == 0:
        res.unsure('no written file was found')
    return res


@rule('X01')
def importing_does_nothing(prog):
    """importing a module defines things and does nothing else"""
    res = Res()
    for m in prog.modules.values():
        skip = main_block(m)
        for s in m.tree.body:
            res.instances += 1
            if s.lineno in skip:
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                d = dotted(s.value.func) or ''
                if d.split('.')[0] in ('warnings', 'np', 'numpy', 'pd', 'logging', 'matplotlib', 'plt'):
                    if d in ('np.seterr', 'numpy.seterr', 'np.random.seed'):
                        res.unsure('%s:%d %s' % (m.rel, s.lineno, d))
                    continue
                if d in ('print', 'pprint.pprint', 'sys.setrecursionlimit'):
                    continue
                res.bad('%s:%d' % (m.rel, s.lineno), 'importing the module runs %s' % ast.unparse(s.value)[:80])
    return res


# -- X02: nothing undefined is used ----------------------------------------------

KNOWN_CALLS = {('heat_load_calc.initializer.building_part_summarize', 'BoundarySimple', 'with the argument n_root, which it does not take'): 'F09'}
KNOWN_NAMES = {('heat_load_calc/convert/convert_lv4_to_h_hlc.py', 'rooms'): 'F08'}


@rule('X02')
def names_are_bound(prog):
    """every name a function reads is bound by it, by its module or by the language"""
    res = Res()
    for m in prog.modules.values():
        res.instances += sum(isinstance(x, ast.Name) for x in ast.walk(m.tree))
        seen = set()
        for fn, line, n in prog.unbound_globals(m):
            if (fn, n) in seen:
                continue
            seen.add((fn, n))
            res.bad('%s:%d (%s)' % (m.rel, line, fn), '%s reads %s, which nothing defines' % (fn, n), **finding(res, (m.rel, n), KNOWN_NAMES))
    return res


@rule('X02')
def imports_exist(prog):
    """every name taken from a module of the package is defined there"""
    res = Res()
    for m in prog.modules.values():
        for n, bs in m.globals.items():
            for b in bs:
                res.instances += 1
                if b[0] == 'from' and b[1] in prog.modules:
                    r = prog.global_of(m, n)
                    if r and r[0] == 'missing':
                        res.bad('%s:%d' % (m.rel, b[3].lineno), '%s imports %s, which does not exist' % (m.name, r[1]))
                if b[0] == 'mod' and b[1].split('.')[0] == PACKAGE and b[1] not in prog.modules and not prog.is_module_file(b[1]):
                    res.bad(m.rel, '%s imports %s, which does not exist' % (m.name, b[1]))
        loc = {}
        for f in [f for f in prog.fns if f.mod is m]:
            loc = locals_of(f)
            for x in own_nodes(f.node):
                if isinstance(x, ast.Attribute):
                    res.instances += 1
                    r = prog.resolve(m, x, loc)
                    if r and r[0] == 'missing':
                        res.bad(f.where(x), '%s uses %s, which does not exist' % (f.qual, r[1]))
                    elif r and r[0] == 'attr' and not isinstance(x.ctx, ast.Store) and prog.closed(r[1]) and not prog.has_attr(r[1], r[2]):
                        res.bad(f.where(x), '%s uses %s.%s, which does not exist' % (f.qual, r[1].name, r[2]))
    return res


def value_class(prog, f, e, an):
    """(class, exact) of an expression: exact when it was just constructed"""
    if isinstance(e, ast.Name):
        if f.bound and f.params and e.id == f.params[0] and f.cls is not None and not f.classm and not f.outer:
            return f.cls
        stores = [s for s in own_nodes(f.node) if isinstance(s, ast.Name) and s.id == e.id and isinstance(s.ctx, (ast.Store, ast.Del))]
        if e.id in f.annot:
            if stores:
                return None
            a = f.annot[e.id]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                try:
                    a = ast.parse(a.value, mode='eval').body
                except SyntaxError:
                    return None
            r = prog.resolve(f.mod, a) if a is not None else None
            return r[1] if r and r[0] == 'cls' else None
        if len(stores) == 1:
            for s in own_nodes(f.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Call):
                    t = s.targets[0]
                    if t is stores[0]:
                        return made_by(prog, f, s.value, an, None)
                    if isinstance(t, ast.Tuple) and any(x is stores[0] for x in t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                        return made_by(prog, f, s.value, an, [x is stores[0] for x in t.elts].index(True))
    return None


def made_by(prog, f, call, loc, index, depth=0):
    """class of what a call returns (or of one element of the tuple it returns)"""
    r = prog.resolve(f.mod, call.func, loc)
    if r and r[0] == 'cls':
        return r[1] if index is None and prog.kind(r[1]) not in ('Enum', 'IntEnum') else None
    if not r or r[0] != 'fn' or depth > 3 or not r[1].plain:
        return None
    g = r[1]
    gl = locals_of(g)
    out = set()
    for x in own_nodes(g.node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(x, ast.Return):
            v = x.value
            if index is not None:
                if not isinstance(v, ast.Tuple) or len(v.elts) <= index or any(isinstance(y, ast.Starred) for y in v.elts):
                    return None
                v = v.elts[index]
            if isinstance(v, ast.Call):
                c = made_by(prog, g, v, gl, None, depth + 1)
            elif isinstance(v, ast.Name) and v.id not in g.annot:
                c = value_class(prog, g, v, gl)
            else:
                c = None
            if c is None:
                return None
            out.add(c)
    return out.pop() if len(out) == 1 else None


@rule('X02')
def attributes_exist(prog):
    """every attribute read from an object of a class of the package is one the class or a class derived from it has"""
    res = Res()
    for f in prog.fns:
        loc = locals_of(f)
        for x in own_nodes(f.node):
            if not isinstance(x, ast.Attribute) or isinstance(x.ctx, ast.Store):
                continue
            c = value_class(prog, f, x.value, loc)
            if c is None:
                continue
            res.instances += 1
            res.functions.add(repr(f))
            if not all(prog.closed(k) for k in prog.all_subs(c)):
                continue
            if is_interface(prog, c, x.attr):
                continue
            if not prog.has_attr(c, x.attr):
                res.bad(f.where(x), '%s reads %s of a %s, which has no such attribute' % (f.qual, x.attr, c.name))
    return res


def is_interface(prog, c, name):
    """mix-in classes read attributes which the classes that use them define"""
    def below(k):
        return any(prog.has_attr(b, name) for s in k.subs for b in prog.mro(s) if isinstance(b, Cls)) or any(below(s) for s in k.subs)
    return below(c)


def signature(prog, target):
    """(positional names, required names, keyword names, *args, **kwargs) of what is called, or None"""
    if target[0] == 'fn':
        f = target[1]
        if not f.plain:
            return None
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        drop = 1 if f.bound else 0
        req = pos[:len(pos) - len(a.defaults)]
        kwreq = [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return pos, req, kwreq, [k.arg for k in a.kwonlyargs], bool(a.vararg), bool(a.kwarg), drop
    if target[0] == 'cls':
        c = target[1]
        kind = prog.kind(c)
        if not prog.closed(c) or kind in ('Enum', 'IntEnum'):
            return None
        init = prog.method(c, '__init__')
        if init is not None:
            if prog.method(c, '__new__'):
                return None
            return signature(prog, ('fn', init))
        if kind in ('NamedTuple', 'dataclass'):
            fields = []
            req = []
            for k in reversed([k for k in prog.mro(c) if isinstance(k, Cls)]):
                fields += [x for x in k.fields if x not in fields]
                req += [x for x in k.required if x not in req]
            return ['self'] + fields, ['self'] + req, [], [], False, False, 1
        if prog.method(c, '__new__'):
            return None
        return ['self'], ['self'], [], [], False, False, 1
    return None


@rule('X02')
def calls_fit(prog):
    """every call of a function, method or class of the package passes arguments which it takes, and all it needs"""
    res = Res()
    owners = []
    for f in prog.fns:
        loc = locals_of(f)
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call):
                owners.append((f, x, loc))
    for m in prog.modules.values():
        inside = {id(x) for f in prog.fns if f.mod is m for x in ast.walk(f.node)}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and id(x) not in inside:
                owners.append((m, x, ()))
    for f, x, loc in owners:
        m = f if not isinstance(f, Fn) else f.mod
        where = f.where(x) if isinstance(f, Fn) else '%s:%d' % (m.rel, x.lineno)
        name = f.qual if isinstance(f, Fn) else m.name
        targets = []
        r = prog.resolve(m, x.func, loc)
        bound = None
        if r and r[0] in ('fn', 'cls'):
            targets = [r]
            bound = r[0] == 'cls' or isinstance(r[1], Fn) and r[1].classm
        elif isinstance(f, Fn) and isinstance(x.func, ast.Name):
            g = [h for h in prog.fns if h.outer is not None and h.name == x.func.id and h.outer in (f, f.outer)]
            stores = [s for s in ast.walk(f.node) if isinstance(s, ast.Name) and s.id == x.func.id and isinstance(s.ctx, ast.Store)]
            if len(g) == 1 and not stores:
                targets = [('fn', g[0])]
                bound = False
            elif f.classm and f.params and x.func.id == f.params[0] and f.cls is not None:
                targets = [('cls', f.cls)]
                bound = True
        elif isinstance(f, Fn) and isinstance(x.func, ast.Attribute):
            c = value_class(prog, f, x.func.value, loc)
            if c is not None:
                own = prog.method(c, x.func.attr)
                cand = [own] if own is not None else []
                if isinstance(x.func.value, ast.Name) and not (own is not None and not c.subs):
                    cand = [k.methods[x.func.attr] for k in prog.all_subs(c) if x.func.attr in k.methods] + cand
                targets = [('fn', g) for g in dict.fromkeys(cand) if not g.prop]
                bound = True
            elif isinstance(x.func.value, ast.Call) and dotted(x.func.value.func) == 'super' and f.cls is not None:
                for b in prog.base_classes(f.cls):
                    if isinstance(b, Cls):
                        g = prog.method(b, x.func.attr)
                        if g is not None:
                            targets = [('fn', g)]
                            bound = True
                            break
            elif f.classm and isinstance(x.func.value, ast.Name) and f.params and x.func.value.id == f.params[0] and f.cls is not None:
                g = prog.method(f.cls, x.func.attr)
                if g is not None and not g.bound or g is not None and g.classm:
                    targets = [('fn', g)]
                    bound = True
        if not targets:
            continue
        sigs = [(t, signature(prog, t)) for t in targets]
        if any(s is None for _, s in sigs):
            continue
        res.instances += 1
        if isinstance(f, Fn):
            res.functions.add(repr(f))
        problems = []
        for t, s in sigs:
            p = misfit(x, s, bound)
            problems.append(p)
        if all(problems):
            g = targets[0][1]
            gname = getattr(g, 'qual', None) or g.name
            res.bad([where, g.where() if isinstance(g, Fn) else '%s:%d (%s)' % (g.mod.rel, g.node.lineno, g.name)], '%s calls %s %s' % (name, gname, problems[0]),
                    **finding(res, (f.mod.name if isinstance(f, Fn) else name, gname, problems[0]), KNOWN_CALLS))
    return res


def misfit(call, sig, bound):
    pos, req, kwreq, kwonly, var, kw, drop = sig
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    names = pos[drop:] if bound and drop else pos
    need = [r for r in req if r in names]
    n = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if n > len(names) and not var:
        return 'with %d positional arguments where it takes %d' % (n, len(names))
    given = set(names[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'with %s given twice' % k.arg
        if k.arg not in names and k.arg not in kwonly and not kw:
            return 'with the argument %s, which it does not take' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [r for r in need + kwreq if r not in given]
        if miss:
            return 'without the argument %s' % ', '.join(miss)
    return None


@rule('X02')
def locals_are_assigned(prog):
    """no local variable is read where no path has given it a value"""
    res = Res()
    for f in prog.fns:
        loc = {x.id for x in own_nodes(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        gl = {n for x in own_nodes(f.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        loc -= gl
        a = f.node.args
        have = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        ev = Reach(f, loc, res)
        ev.block(f.node.body, set(have))
    return res


class Reach:
    """names which some path may have assigned"""
    def __init__(self, f, loc, res):
        self.f, self.loc, self.res, self.told = f, loc, res, set()

    def block(self, body, have):
        for s in body:
            have = self.stmt(s, have)
            if have is None:
                return None
        return have

    def read(self, e, have):
        if e is None:
            return
        inner = set()
        for x in ast.walk(e):
            if isinstance(x, ast.comprehension):
                inner |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            if isinstance(x, ast.NamedExpr):
                have.add(x.target.id)
            if isinstance(x, ast.Lambda):
                inner |= {y.arg for y in x.args.args} | {y.id for y in ast.walk(x.body) if isinstance(y, ast.Name)}
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.res.instances += 1
                if x.id in self.loc and x.id not in have and x.id not in inner and x.id not in self.told:
                    self.told.add(x.id)
                    self.res.bad(self.f.where(x), '%s reads %s before any path has given it a value' % (self.f.qual, x.id))

    def put(self, t, have):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,)):
                have.add(x.id)
        for x in ast.walk(t):
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                self.read(x, have)

    def stmt(self, s, have):
        have = set(have)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            have.add(s.name)
            return have
        if isinstance(s, ast.Assign):
            self.read(s.value, have)
            for t in s.targets:
                self.put(t, have)
        elif isinstance(s, ast.AnnAssign):
            self.read(s.value, have)
            if s.value is not None:
                self.put(s.target, have)
        elif isinstance(s, ast.AugAssign):
            self.read(s.value, have)
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), have)
            self.put(s.target, have)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.read(e, have)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            return have
        elif isinstance(s, ast.If):
            self.read(s.test, have)
            a, b = self.block(s.body, set(have)), self.block(s.orelse, set(have))
            if a is None and b is None:
                return None
            return (a or set()) | (b or set())
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.read(s.iter, have)
            self.put(s.target, have)
            later = {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            a = self.block(s.body, have | later)         # a later round sees what an earlier one assigned
            have |= (a or later)
            have = self.block(s.orelse, have) or have
        elif isinstance(s, ast.While):
            self.read(s.test, have)
            later = {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            a = self.block(s.body, have | later)
            have |= (a or later)
            have = self.block(s.orelse, have) or have
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.read(i.context_expr, have)
                if i.optional_vars is not None:
                    self.put(i.optional_vars, have)
            return self.block(s.body, have)
        elif isinstance(s, ast.Try):
            a = self.block(s.body, set(have))
            mid = set(have) | {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            outs = [self.block(s.orelse, a) if a is not None else None]
            for h in s.handlers:
                hh = set(mid)
                if h.name:
                    hh.add(h.name)
                outs.append(self.block(h.body, hh))
            live = [o for o in outs if o is not None]
            out = set().union(*live) if live else set(mid)
            fin = self.block(s.finalbody, out)
            return fin if live and fin is not None else (None if not live else fin)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                have.add(al.asname or al.name.split('.')[0])
        elif isinstance(s, ast.Match):
            self.read(s.subject, have)
            outs = [have]
            for c in s.cases:
                hh = set(have) | {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                outs.append(self.block(c.body, hh) or set())
            return set().union(*outs)
        elif isinstance(s, ast.Delete):
            pass
        else:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.read(e, have)
        return have


# -- X03: nothing falls through ------------------------------------------------------

@rule('X03')
def every_path_answers(prog):
    """a function that returns a value returns one on every path or rejects the input"""
    res = Res()
    called = callers_of(prog)
    for f in prog.fns:
        nodes = list(own_nodes(f.node))
        rets = [x for x in nodes if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None)]
        if not rets or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in nodes):
            continue
        res.instances += 1
        res.functions.add(repr(f))
        if terminates(f.node.body):
            continue
        last = f.node.body[-1]
        optional = f.node.returns is not None and 'Optional' in ast.unparse(f.node.returns) or f.node.returns is not None and 'None' in ast.unparse(f.node.returns)
        explicit = any(isinstance(x, ast.Return) and (x.value is None or isinstance(x.value, ast.Constant) and x.value.value is None) for x in nodes)
        if optional or explicit:
            continue
        if unasked(f, called) and not (isinstance(last, ast.If) and last.orelse):
            continue
        res.bad(f.where(last), '%s ends without an answer on some path, so its caller goes on with nothing instead of a rejected input' % f.qual)
    return res


def unasked(f, called):
    """nobody calls the function, or only a function that hands it on and that nobody calls"""
    by = called.get(f, ())
    return all(forwards(g) and g is not f and not called.get(g) for g, _ in by)


def forwards(f):
    body = [s for s in f.node.body if not isinstance(s, (ast.Expr, ast.Assert, ast.Pass, ast.Import, ast.ImportFrom))]
    if len(body) == 2 and isinstance(body[0], ast.Assign) and isinstance(body[0].targets[0], ast.Name) and isinstance(body[1], ast.Return) and isinstance(body[1].value, ast.Name):
        return body[1].value.id == body[0].targets[0].id and isinstance(body[0].value, ast.Call)
    return len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call)


@rule('X03')
def errors_are_not_swallowed(prog):
    """no error of a calculation is caught and passed over"""
    res = Res()
    for m in prog.modules.values():
        skip = main_block(m)
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Raise, ast.Try)):
                res.instances += 1
            if isinstance(x, ast.ExceptHandler) and x.lineno not in skip:
                broad = x.type is None or dotted(x.type) in ('Exception', 'BaseException')
                silent = not any(isinstance(y, ast.Raise) for y in ast.walk(x))
                passed = all(isinstance(s, (ast.Pass, ast.Continue, ast.Break)) or isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Call)) and (isinstance(s.value, ast.Constant) or dotted(s.value.func) in ('print', 'warnings.warn', 'logging.warning', 'logging.info', 'logging.error')) for s in x.body)
                if silent and (broad or passed):
                    res.bad('%s:%d' % (m.rel, x.lineno), 'an error is caught and the calculation goes on')
                elif silent:
                    res.unsure('%s:%d handles an error' % (m.rel, x.lineno))
            if isinstance(x, ast.Call) and dotted(x.func) in ('contextlib.suppress', 'suppress', 'np.errstate', 'warnings.filterwarnings', 'np.seterr') and x.lineno not in skip:
                if dotted(x.func) in ('contextlib.suppress', 'suppress'):
                    res.bad('%s:%d' % (m.rel, x.lineno), 'errors are suppressed')
    return res


@rule('X03')
def errors_are_raised(prog):
    """an error object that is made is also raised"""
    res = Res()
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                d = dotted(x.value.func)
                res.instances += 1
                if d and re.match(r'^[A-Z]\w*(Error|Exception)$', d.split('.')[-1]):
                    res.bad('%s:%d' % (m.rel, x.lineno), '%s is made but not raised' % d)
            if isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and re.match(r'^[A-Z]\w*(Error|Exception)$', (dotted(x.value.func) or '').split('.')[-1]):
                res.bad('%s:%d' % (m.rel, x.lineno), '%s is returned but not raised' % dotted(x.value.func))
            if isinstance(x, ast.Raise) and x.exc is not None:
                c = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                r = prog.resolve(m, c)
                if r and r[0] == 'cls' and not any(isinstance(b, str) and (b.endswith('Error') or b.endswith('Exception') or b == '?') for b in prog.mro(r[1])):
                    res.bad('%s:%d' % (m.rel, x.lineno), '%s is raised, which is no error' % r[1].name)
    return res


# -- X04: bundled data ------------------------------------------------------------------

KINDS = ('number_of_people', 'heat_generation_appliances', 'heat_generation_lighting', 'heat_generation_cooking', 'vapor_generation_cooking', 'local_vent_amount', 'is_temp_limit_set')
ROOMS = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room')
DAYS = ('平日', '休日在', '休日外')


@rule('X04')
def schedules_are_whole(prog):
    """every household size, room, day type and quantity has a day of 96 quarter hours that people can live"""
    res = Res()
    p = os.path.join(prog.repo, PACKAGE, 'initializer', 'schedules.json')
    if not os.path.exists(p):
        raise AnchorMissing('schedules.json')
    with open(p, encoding='utf-8') as f:
        d = json.load(f)
    w = 'heat_load_calc/initializer/schedules.json'
    cal = d.get('calendar', [])
    res.instances += 1
    if len(cal) != 365 or set(cal) - set(DAYS):
        res.bad(w + ' calendar', 'the calendar has %d days of the kinds %s' % (len(cal), sorted(set(cal))))
    for k in '1234':
        for day in DAYS:
            people = [0] * 96
            for room in ROOMS:
                at = '%s daily_schedule/%s/%s/%s' % (w, k, room, day)
                s = d.get('daily_schedule', {}).get(k, {}).get(room, {}).get(day)
                if s is None:
                    res.bad(at, 'the schedule is missing')
                    continue
                for kind in KINDS:
                    res.instances += 1
                    v = s.get(kind)
                    if not isinstance(v, list) or len(v) != 96:
                        res.bad(at + '/' + kind, 'the schedule of a day has %s values' % (len(v) if isinstance(v, list) else 'no'))
                    elif any(isinstance(x, bool) or not isinstance(x, (int, float)) or not x >= 0 for x in v):
                        res.bad(at + '/' + kind, 'the schedule has a negative or missing value')
                v = s.get('is_temp_limit_set') or []
                if set(v) - {0, 1}:
                    res.bad(at + '/is_temp_limit_set', 'demand for conditioning is neither 0 nor 1')
                n = s.get('number_of_people') or []
                for i, x in enumerate(n[:96]):
                    people[i] += x
                h, x = s.get('heat_generation_cooking') or [], s.get('vapor_generation_cooking') or []
                if [a > 0 for a in h] != [a > 0 for a in x]:
                    res.bad(at, 'heat and moisture of cooking do not come at the same time')
                if day in s:
                    res.bad(at, 'nested day')
            if max(people) > int(k):
                res.bad('%s daily_schedule/%s/*/%s/number_of_people' % (w, k, day), '%s persons are in a house of %s' % (max(people), k))
    return res


@rule('X04')
def weather_is_whole(prog):
    """every region has a weather file of 8760 consecutive hours with values that can occur"""
    res = Res()
    base = os.path.join(prog.repo, PACKAGE, 'weather', 'expanded_amedas')
    names = set()
    m = prog.modules.get('heat_load_calc.weather.weather_data')
    if m is not None:
        names = {x.value for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith('.csv') and len(x.value) > 4}
    have = set(os.listdir(base)) if os.path.isdir(base) else set()
    for n in sorted(names):
        res.instances += 1
        if n not in have:
            res.bad('heat_load_calc/weather/weather_data.py', 'the weather file %s does not exist' % n)
    limits = ((-45, 45, 'air temperature'), (0, 1400, 'direct radiation'), (0, 1000, 'sky radiation'), (0, 300, 'night radiation'), (0, 35, 'humidity'))
    days = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
    stamps = [('%d月%d日' % (mo + 1, dd + 1), h + 1) for mo in range(12) for dd in range(days[mo]) for h in range(24)]
    for n in sorted(have):
        if not n.endswith('.csv'):
            continue
        w = 'heat_load_calc/weather/expanded_amedas/' + n
        with open(os.path.join(base, n), encoding='utf-8-sig', newline='') as f:
            rows = list(csv.reader(f))
        body = [r for r in rows[2:] if r]
        res.instances += len(body)
        if len(body) != 8760:
            res.bad(w, '%d hours of weather instead of 8760' % len(body))
            continue
        for i, r in enumerate(body):
            if len(r) < 7:
                res.bad('%s:%d' % (w, i + 3), 'the hour has %d columns' % len(r))
                break
            if (r[0], int(r[1])) != stamps[i]:
                res.bad('%s:%d' % (w, i + 3), 'the hour %s %s follows out of order' % (r[0], r[1]))
                break
            try:
                v = [float(x) for x in r[2:7]]
            except ValueError:
                res.bad('%s:%d' % (w, i + 3), 'a value is missing')
                break
            off = [t for x, (a, b, t) in zip(v, limits) if not a <= x <= b]
            if off:
                res.bad('%s:%d' % (w, i + 3), '%s cannot occur' % off[0])
                break
            if (int(r[1]) <= 3 or int(r[1]) >= 21) and v[1] > 0:
                res.bad('%s:%d' % (w, i + 3), 'the sun shines at night')
                break
    return res
