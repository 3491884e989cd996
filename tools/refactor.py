"""Behaviour-preserving rewrites of the package, to see that no check raises an alarm on them (developer aid, not a check).

usage: refactor.py TREE NAME [--frac F] [--seed S] [FILE-SUBSTRING...]     rewrites TREE/heat_load_calc in place
"""
import ast
import copy
import glob
import os
import random
import sys

PURE_CTX = (ast.Load,)


def locals_of(fn):
    out = set(a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            out |= {a.arg for a in n.args.args}
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
    return out


def has_scope(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn)


class Base:
    def __init__(self, rng, frac):
        self.rng, self.frac, self.count, self.n = rng, frac, 0, 0

    def yes(self):
        if self.rng.random() < self.frac:
            self.count += 1
            return True
        return False

    def fresh(self, p='tmp'):
        self.n += 1
        return '_%s_%d' % (p, self.n)

    def module(self, tree):
        self.tree = tree
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        self.function(f, n)
        for f in tree.body:
            if isinstance(f, ast.FunctionDef):
                self.function(f, None)
        self.finish(tree)
        return tree

    def finish(self, tree):
        pass

    def function(self, fn, cls):
        fn.body = self.block(fn.body, fn)

    def block(self, body, fn):
        out = []
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(b, fn))
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    h.body = self.block(h.body, fn)
            r = self.stmt(s, fn)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s, fn):
        return s


def hoistable(e):
    """sub-expressions evaluated unconditionally, innermost last"""
    if isinstance(e, (ast.BinOp,)):
        return [e.left, e.right]
    if isinstance(e, ast.Call):
        return [a for a in e.args if not isinstance(a, ast.Starred)]
    return []


class ExtractVar(Base):
    def stmt(self, s, fn):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
            pre = []

            def go(e, depth):
                if isinstance(e, ast.BinOp):
                    if depth < 3:
                        e.left = go(e.left, depth + 1)
                        e.right = go(e.right, depth + 1)
                    if depth and self.yes():
                        t = self.fresh('t')
                        pre.append(ast.Assign(targets=[ast.Name(t, ast.Store())], value=e))
                        return ast.Name(t, ast.Load())
                    return e
                if isinstance(e, ast.Call):
                    e.args = [go(a, depth + 1) if not isinstance(a, ast.Starred) else a for a in e.args]
                    for k in e.keywords:
                        k.value = go(k.value, depth + 1)
                    if depth and self.yes():
                        t = self.fresh('t')
                        pre.append(ast.Assign(targets=[ast.Name(t, ast.Store())], value=e))
                        return ast.Name(t, ast.Load())
                    return e
                if isinstance(e, (ast.IfExp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.BoolOp)):
                    return e
                return e
            s.value = go(s.value, 0)
            return pre + [s]
        return s


class InlineVar(Base):
    """x = e; next statement uses x once and nobody else does"""
    def function(self, fn, cls):
        if has_scope(fn):
            return
        uses = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, []).append(n)
        self.uses = uses
        fn.body = self.blk(fn.body)

    def blk(self, body):
        body = list(body)
        for s in body:
            for f in ('body', 'orelse'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, f, self.blk(b))
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(b, (ast.Assign, ast.Return)) and b.value is not None:
                x = a.targets[0].id
                us = self.uses.get(x, [])
                loads = [u for u in us if isinstance(u.ctx, ast.Load)]
                lazy = set()
                for n in ast.walk(b):
                    if isinstance(n, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                        lazy |= {id(m) for m in ast.walk(n)}
                inb = [n for n in ast.walk(b.value) if isinstance(n, ast.Name) and n.id == x]
                if len(us) == 2 and len(loads) == 1 and len(inb) == 1 and id(inb[0]) not in lazy and self.yes():
                    class R(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return a.value if n.id == x and isinstance(n.ctx, ast.Load) else n
                    body[i + 1] = R().visit(b)
                    del body[i]
                    continue
            i += 1
        return body


class NegateIf(Base):
    def stmt(self, s, fn):
        if isinstance(s, ast.If) and s.orelse and self.yes():
            return ast.If(test=ast.UnaryOp(ast.Not(), s.test), body=s.orelse, orelse=s.body)
        return s


class Ternary(Base):
    """x = a if c else b  <->  if statement"""
    def stmt(self, s, fn):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and self.yes():
            e = s.value

            def w(v):
                t = copy.copy(s)
                t.value = v
                return t
            return ast.If(test=e.test, body=[w(e.body)], orelse=[w(e.orelse)])
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and len(s.body[0].targets) == 1 and self.yes():
            return ast.Assign(targets=s.body[0].targets, value=ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) \
                and s.body[0].value is not None and s.orelse[0].value is not None and self.yes():
            return ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        return s


class CompToLoop(Base):
    def stmt(self, s, fn):
        comps = []
        if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None:
            return s
        lc = s.value
        wrap = None
        if isinstance(lc, ast.Call) and len(lc.args) == 1 and isinstance(lc.args[0], ast.ListComp):
            wrap, lc = lc, lc.args[0]
        if not isinstance(lc, ast.ListComp) or not self.yes():
            return s
        lc = copy.deepcopy(lc)
        names = {n.id for g in lc.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        m = {x: self.fresh('it') for x in names}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name(m[n.id], n.ctx) if n.id in m else n
        # the first iterable is evaluated outside
        first = lc.generators[0].iter
        lc = R().visit(lc)
        lc.generators[0].iter = first
        acc = self.fresh('acc')
        inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [lc.elt], []))
        for g in reversed(lc.generators):
            for c in reversed(g.ifs):
                inner = ast.If(c, [inner], [])
            inner = ast.For(target=g.target, iter=g.iter, body=[inner], orelse=[], type_comment=None)
        v = ast.Name(acc, ast.Load())
        if wrap is not None:
            wrap.args = [v]
            v = wrap
        s.value = v
        return [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), inner, s]


class LoopToComp(Base):
    def block(self, body, fn):
        body = super().block(body, fn)
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(a.targets[0], ast.Name) and isinstance(b, ast.For) and not b.orelse:
                x = a.targets[0].id
                gens = [ast.comprehension(b.target, b.iter, [], 0)]
                cur = b.body
                while len(cur) == 1 and isinstance(cur[0], (ast.For, ast.If)) and not cur[0].orelse:
                    if isinstance(cur[0], ast.For):
                        gens.append(ast.comprehension(cur[0].target, cur[0].iter, [], 0))
                    else:
                        gens[-1].ifs.append(cur[0].test)
                    cur = cur[0].body
                if len(cur) == 1 and isinstance(cur[0], ast.Expr) and isinstance(cur[0].value, ast.Call) and isinstance(cur[0].value.func, ast.Attribute) \
                        and cur[0].value.func.attr == 'append' and isinstance(cur[0].value.func.value, ast.Name) and cur[0].value.func.value.id == x \
                        and not any(isinstance(n, ast.Name) and n.id == x for g in gens for n in ast.walk(g.iter)) and self.yes():
                    a.value = ast.ListComp(cur[0].value.args[0], gens)
                    del body[i + 1]
            i += 1
        return body


class Rename(Base):
    def function(self, fn, cls):
        if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef)) for n in ast.walk(fn) if n is not fn):
            return
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        names = locals_of(fn) - params
        m = {x: x + '_v' for x in names if self.yes()}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]


class ElseReturn(Base):
    """if c: return a else: B  ->  if c: return a; B        (and the other way round)"""
    def block(self, body, fn):
        body = super().block(body, fn)
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.yes():
                out.append(ast.If(s.test, s.body, []))
                out.extend(s.orelse)
            else:
                out.append(s)
        return out


class ReturnElse(Base):
    def block(self, body, fn):
        body = super().block(body, fn)
        for i in range(len(body) - 2, -1, -1):
            s = body[i]
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.yes():
                s.orelse = body[i + 1:]
                body = body[:i + 1]
        return body


class ExtractFunction(Base):
    def module(self, tree):
        self.new = []
        return super().module(tree)

    def stmt(self, s, fn):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and isinstance(s.value, (ast.BinOp, ast.Call, ast.ListComp, ast.IfExp, ast.Dict)):
            if any(isinstance(n, (ast.Await, ast.Yield, ast.NamedExpr)) for n in ast.walk(s.value)) or has_scope(fn):
                return s
            if any(isinstance(n, ast.Name) and n.id in ('super', '__class__') for n in ast.walk(s.value)):
                return s
            if any(isinstance(n, ast.Attribute) and n.attr.startswith('__') for n in ast.walk(s.value)):
                return s
            bound = {n.id for c in ast.walk(s.value) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
            loc = locals_of(fn)
            # a name bound by a comprehension only is no local of the function
            free = []
            for n in ast.walk(s.value):
                if isinstance(n, ast.Name) and n.id in loc and n.id not in bound and n.id not in free:
                    free.append(n.id)
            if bound & {n.id for st in ast.walk(fn) if isinstance(st, (ast.Assign, ast.For)) for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) for n in ast.walk(t) if isinstance(n, ast.Name)}:
                return s
            if not self.yes():
                return s
            h = self.fresh('helper')
            self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), [ast.Return(s.value)], [], None))
            s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in free], [])
        return s

    def finish(self, tree):
        tree.body.extend(self.new)


class ExtractMethod(ExtractFunction):
    """if-blocks and loops that only assign names: moved to a helper that returns them"""
    def stmt(self, s, fn):
        if isinstance(s, (ast.If, ast.For)) and not has_scope(fn):
            if any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield)) for n in ast.walk(s)):
                return s
            stored = []
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in stored:
                    stored.append(n.id)
            comp = {n.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
            if comp or not stored:
                return s
            # both branches assign the same names, unconditionally
            if not isinstance(s, ast.If) or not s.orelse:
                return s

            def always(b):
                r = set()
                for q in b:
                    if isinstance(q, ast.Assign):
                        r |= {n.id for t in q.targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    elif isinstance(q, ast.If) and q.orelse:
                        r |= always(q.body) & always(q.orelse)
                    elif isinstance(q, ast.Raise):
                        return set(stored)
                return r
            if set(stored) - (always(s.body) & always(s.orelse)):
                return s
            loc = locals_of(fn)
            free = []
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in free:
                    free.append(n.id)
            if set(free) & set(stored):
                return s
            if not self.yes():
                return s
            h = self.fresh('branch')
            ret = ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in stored], ast.Load()) if len(stored) > 1 else ast.Name(stored[0], ast.Load()))
            self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), [s, ret], [], None))
            tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in stored], ast.Store()) if len(stored) > 1 else ast.Name(stored[0], ast.Store())
            return ast.Assign([tgt], ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in free], []))
        return s


class Commute(Base):
    def module(self, tree):
        me = self
        numeric = lambda e: not any(isinstance(n, (ast.List, ast.ListComp)) or isinstance(n, ast.Constant) and isinstance(n.value, str) for n in ast.walk(e))

        class V(ast.NodeTransformer):
            def visit_BinOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.Mult) and numeric(n) and me.yes():
                    n.left, n.right = n.right, n.left
                return n

            def visit_Compare(self, n):
                self.generic_visit(n)
                sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
                if len(n.ops) == 1 and type(n.ops[0]) in sw and me.yes():
                    return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
                return n
        return V().visit(tree)


class Keywords(Base):
    """positional arguments of functions and methods of the same module become keywords"""
    def module(self, tree):
        me = self
        defs = {}
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                defs[n.name] = [a.arg for a in n.args.args] if not n.args.vararg else None

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and defs.get(n.func.id) and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and me.yes():
                    ps = defs[n.func.id]
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                    n.args = []
                return n
        return V().visit(tree)


class Positional(Base):
    def module(self, tree):
        me = self
        defs = {}
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and not n.args.vararg and not n.args.kwonlyargs:
                defs[n.name] = [a.arg for a in n.args.args]

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and defs.get(n.func.id) and n.keywords and all(k.arg for k in n.keywords) and me.yes():
                    ps = defs[n.func.id]
                    kw = {k.arg: k.value for k in n.keywords}
                    rest = ps[len(n.args):]
                    while rest and rest[0] in kw:
                        n.args.append(kw.pop(rest.pop(0)))
                    n.keywords = [k for k in n.keywords if k.arg in kw]
                return n
        return V().visit(tree)


class Wrap(Base):
    """f becomes _f_impl and f calls it"""
    def module(self, tree):
        for owner in [tree] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
            new = []
            for f in owner.body:
                if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and not f.name.startswith('__') \
                        and not any(isinstance(d, (ast.Attribute, ast.Call)) or isinstance(d, ast.Name) and d.id in ('abstractmethod', 'property') for d in f.decorator_list) \
                        and not any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(f)) and self.yes():
                    g = copy.deepcopy(f)
                    g.name = '_' + f.name.lstrip('_') + '_impl'
                    args = [a.arg for a in f.args.args]
                    deco = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
                    if owner is tree:
                        callee, rest = ast.Name(g.name, ast.Load()), args
                    elif 'staticmethod' in deco:
                        callee, rest = ast.Attribute(ast.Name(owner.name, ast.Load()), g.name, ast.Load()), args
                    else:
                        callee, rest = ast.Attribute(ast.Name(args[0], ast.Load()), g.name, ast.Load()), args[1:]
                    doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                    f.body = doc + [ast.Return(ast.Call(callee, [ast.Name(a, ast.Load()) for a in rest], []))]
                    g.args.defaults = []
                    new.append(f)
                    new.append(g)
                else:
                    new.append(f)
            owner.body = new
        return tree


class Enumerate(Base):
    def stmt(self, s, fn):
        if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ('enumerate', 'range')) and self.yes():
            s.target = ast.Tuple([ast.Name(self.fresh('i'), ast.Store()), s.target], ast.Store())
            s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], [])
        return s


class Reorder(Base):
    def block(self, body, fn):
        body = super().block(body, fn)
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            ok = all(isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) for s in (a, b))
            if ok:
                na = {n.id for n in ast.walk(a) if isinstance(n, ast.Name)}
                nb = {n.id for n in ast.walk(b) if isinstance(n, ast.Name)}
                if a.targets[0].id not in nb and b.targets[0].id not in na and self.yes():
                    body[i], body[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return body


class DictBuild(Base):
    def stmt(self, s, fn):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Dict) and s.value.keys and all(isinstance(k, ast.Constant) for k in s.value.keys) and self.yes():
            d = self.fresh('d')
            out = [ast.Assign([ast.Name(d, ast.Store())], ast.Dict([], []))]
            for k, v in zip(s.value.keys, s.value.values):
                out.append(ast.Assign([ast.Subscript(ast.Name(d, ast.Load()), k, ast.Store())], v))
            s.value = ast.Name(d, ast.Load())
            return out + [s]
        return s


class DictCall(Base):
    """{'a': 1} -> dict(a=1)"""
    def module(self, tree):
        me = self

        class V(ast.NodeTransformer):
            def visit_Dict(self, n):
                self.generic_visit(n)
                if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and not __import__('keyword').iskeyword(k.value) for k in n.keys) and me.yes():
                    return ast.Call(ast.Name('dict', ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
                return n
        return V().visit(tree)


class ReturnVar(Base):
    def stmt(self, s, fn):
        if isinstance(s, ast.Return) and s.value is not None and self.yes():
            r = self.fresh('result')
            return [ast.Assign([ast.Name(r, ast.Store())], s.value), ast.Return(ast.Name(r, ast.Load()))]
        return s


class Constants(Base):
    """float literals inside functions become module constants"""
    def module(self, tree):
        me = self
        new = []

        class V(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, float) and me.yes():
                    c = '_C%d' % (len(new) + 1)
                    new.append(ast.Assign([ast.Name(c, ast.Store())], ast.Constant(n.value)))
                    return ast.Name(c, ast.Load())
                return n

        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef):
                f.body = [V().visit(s) if not isinstance(s, ast.FunctionDef) else s for s in f.body]
        pos = 0
        for i, s in enumerate(tree.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                pos = i + 1
        tree.body[pos:pos] = new
        return tree


class InList(Base):
    """x in [a, b] -> (x == a or x == b); x == a or x == b -> x in (a, b)"""
    def module(self, tree):
        me = self

        class V(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and len(n.comparators[0].elts) > 1 and me.yes():
                    vs = [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts]
                    r = ast.BoolOp(ast.Or(), vs)
                    return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
                return n

            def visit_BoolOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.Or) and all(isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], ast.Eq) for v in n.values) \
                        and len({ast.dump(v.left) for v in n.values}) == 1 and me.yes():
                    return ast.Compare(n.values[0].left, [ast.In()], [ast.Tuple([v.comparators[0] for v in n.values], ast.Load())])
                return n
        return V().visit(tree)


class NpStyle(Base):
    """equivalent spellings of library calls"""
    def module(self, tree):
        me = self

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                f = n.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np':
                    if f.attr == 'dot' and len(n.args) == 2 and not n.keywords and me.yes():
                        return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
                    if f.attr == 'sqrt' and len(n.args) == 1 and me.yes():
                        return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
                    if f.attr == 'maximum' and me.yes():
                        a, b = n.args
                        return ast.Call(ast.Attribute(f.value, 'where', ast.Load()), [ast.Compare(a, [ast.Gt()], [b]), copy.deepcopy(a), copy.deepcopy(b)], [])
                    if f.attr == 'where' and len(n.args) == 3 and me.yes():
                        return ast.Call(f, [ast.Call(ast.Attribute(f.value, 'logical_not', ast.Load()), [n.args[0]], []), n.args[2], n.args[1]], [])
                    if f.attr == 'sum' and len(n.args) == 1 and isinstance(n.args[0], (ast.Name, ast.Attribute)) and not n.keywords and me.yes():
                        return n
                    if f.attr == 'clip' and len(n.args) == 3 and me.yes() and not any(isinstance(a, ast.Constant) and a.value is None for a in n.args):
                        return ast.Call(ast.Attribute(f.value, 'minimum', ast.Load()), [ast.Call(ast.Attribute(f.value, 'maximum', ast.Load()), [n.args[0], n.args[1]], []), n.args[2]], [])
                    if f.attr == 'logical_and' and len(n.args) == 2 and me.yes():
                        return ast.BinOp(n.args[0], ast.BitAnd(), n.args[1])
                return n

            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n.attr == 'T' and isinstance(n.ctx, ast.Load) and me.yes():
                    return ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'transpose', ast.Load()), [n.value], [])
                return n

            def visit_BinOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and me.yes():
                    return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
                if isinstance(n.op, ast.Div) and me.yes():
                    return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1), ast.Div(), n.right))
                if isinstance(n.op, ast.Sub) and me.yes():
                    return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
                return n
        if not any(isinstance(s, ast.Import) and any(a.asname == 'np' for a in s.names) for s in tree.body):
            return tree
        return V().visit(tree)


class Noop(Base):
    def function(self, fn, cls):
        i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        if self.yes():
            k = self.rng.randrange(4)
            s = [ast.parse('_unused = None').body, ast.parse('if False:\n    pass').body, ast.parse('import logging\nlogging.getLogger(__name__).debug("here")').body,
                 ast.parse('assert True').body][k]
            fn.body[i:i] = s


class ReplaceElif(Base):
    """if x == 'a': return A elif x == 'b': return B else: raise -> early returns in reverse nesting; also match-free dict dispatch"""
    def stmt(self, s, fn):
        if not isinstance(s, ast.If):
            return s
        arms, cur = [], s
        while True:
            t = cur.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Constant) and isinstance(t.left, ast.Name)
                    and len(cur.body) == 1 and isinstance(cur.body[0], ast.Return) and isinstance(cur.body[0].value, ast.Constant)):
                return s
            arms.append((t.left.id, t.comparators[0], cur.body[0].value))
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
                continue
            rest = cur.orelse
            break
        if len({a[0] for a in arms}) != 1 or len(arms) < 2 or not self.yes():
            return s
        t = self.fresh('table')
        x = ast.Name(arms[0][0], ast.Load())
        return [ast.Assign([ast.Name(t, ast.Store())], ast.Dict([a[1] for a in arms], [a[2] for a in arms])),
                ast.If(ast.Compare(x, [ast.In()], [ast.Name(t, ast.Load())]), [ast.Return(ast.Subscript(ast.Name(t, ast.Load()), x, ast.Load()))], rest)]


class DictToIf(Base):
    """return {'a': 1, ...}[x] -> if chain ending in raise KeyError"""
    def stmt(self, s, fn):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Dict) and isinstance(s.value.slice, ast.Name) and self.yes():
            d, x = s.value.value, s.value.slice
            top = [ast.Raise(ast.Call(ast.Name('KeyError', ast.Load()), [x], []), None)]
            for k, v in reversed(list(zip(d.keys, d.values))):
                t = copy.copy(s)
                t.value = v
                top = [ast.If(ast.Compare(x, [ast.Eq()], [k]), [t], top)]
            return top
        return s


class SplitTuple(Base):
    """a, b = e, f -> two statements; a, b = call -> t = call; a = t[0]; b = t[1]"""
    def stmt(self, s, fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) \
                and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and self.yes():
            t = self.fresh('pair')
            return [ast.Assign([ast.Name(t, ast.Store())], s.value)] + [
                ast.Assign([e], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i), ast.Load())) for i, e in enumerate(s.targets[0].elts)]
        return s


class ArrayMask(Base):
    """x = np.array([f(..) for ..]) -> np.fromiter style? (kept simple: list first, array second)"""
    def stmt(self, s, fn):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'array' \
                and s.value.args and isinstance(s.value.args[0], ast.ListComp) and self.yes():
            t = self.fresh('list')
            a = s.value.args[0]
            s.value.args[0] = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], a), s]
        return s


class MoveFunctions(Base):
    """module functions move to a sibling module _NAME_parts and are imported back"""
    pass


KINDS = {c.__name__: c for c in (ExtractVar, InlineVar, NegateIf, Ternary, CompToLoop, LoopToComp, Rename, ElseReturn, ReturnElse, ExtractFunction, ExtractMethod, Commute,
                                 Keywords, Positional, Wrap, Enumerate, Reorder, DictBuild, DictCall, ReturnVar, Constants, InList, NpStyle, Noop, ReplaceElif, DictToIf,
                                 SplitTuple, ArrayMask)}


def main():
    args = sys.argv[1:]
    tree, names = args[0], args[1].split('+')
    frac, seed, files = 1.0, 1, []
    rest = args[2:]
    while rest:
        a = rest.pop(0)
        if a == '--frac':
            frac = float(rest.pop(0))
        elif a == '--seed':
            seed = int(rest.pop(0))
        else:
            files.append(a)
    total = 0
    rng = random.Random(seed)
    for f in sorted(glob.glob(tree + '/heat_load_calc/**/*.py', recursive=True)):
        if files and not any(x in f for x in files):
            continue
        src = open(f).read()
        t = ast.parse(src)
        n = 0
        for name in names:
            k = KINDS[name](rng, frac)
            t = k.module(t)
            ast.fix_missing_locations(t)
            n += k.count
        if n:
            new = ast.unparse(t)
            compile(new, f, 'exec')
            open(f, 'w').write(new + '\n')
        total += n
    print('%s: %d rewrites' % (args[1], total))


main()
