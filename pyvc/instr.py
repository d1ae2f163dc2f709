"""Mechanical extraction: the source of /repo is parsed on every run and compiled with hooks.

What is rewritten (nothing else is changed; the statements, their order and control flow are the repository's):
  * `for`/`while` loops get a loop-head hook (invariant check / havoc / assume); iteration is through the hook
  * comprehensions and generator expressions become loops in a local function
  * `is`, `in`, `not`, subscripts, displays, f-strings and method calls are routed through the hook object so
    that they accept logical values
  * every `except` clause first lets the engine's own control exceptions pass
Dropped: annotations and docstrings."""
import ast

H = "__h__"


class _Stores(ast.NodeVisitor):
    """names stored in a statement list of one scope"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)      # the bound name is deleted at the end of the handler


def stores(stmts):
    v = _Stores()
    for s in stmts:
        v.visit(s)
    return v.names


def nonlocals_of(fn):
    r = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.Nonlocal, ast.Global)):
            r.update(x.names)
    return r


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def hcall(m, *args, keywords=None):
    return ast.Call(func=ast.Attribute(value=name(H), attr=m, ctx=ast.Load()), args=list(args), keywords=keywords or [])


def const(v):
    return ast.Constant(value=v)


def thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


EAGER = {"list", "set", "tuple", "sorted", "dict", "sum", "min", "max", "frozenset", "enumerate"}


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.cls = []
        self.n = 0
        self.loops = [0]
        self.hoist = [[]]       # stack of hoisted defs per function scope
        self.infunc = 0
        self.globals_decl = [set()]

    def uid(self):
        self.n += 1
        return self.n

    # ---- scopes
    def visit_Module(self, n):
        n.body = self.stmts(n.body)
        hoisted = self.hoist.pop()
        n.body = self._after_imports(n.body, hoisted)
        return n

    def _after_imports(self, body, hoisted):
        if not hoisted:
            return body
        i = 0
        for j, s in enumerate(body):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                i = j + 1
        return body[:i] + hoisted + body[i:]

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.qual.append(n.name)
        self.cls.append(n.name)
        n.body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        n.body = self.stmts(n.body) or [ast.Pass()]
        self.cls.pop()
        self.qual.pop()
        return n

    def _func(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        n.returns = None
        self.qual.append(n.name)
        self.hoist.append([])
        self.loops.append(0)
        self.infunc += 1
        self.globals_decl.append(nonlocals_of(n))
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            body = body[1:]
        body = self.stmts(body) or [ast.Pass()]
        h = self.hoist.pop()
        decl = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
        rest = [s for s in body if not isinstance(s, (ast.Global, ast.Nonlocal))]
        n.body = decl + h + rest
        if not n.body:
            n.body = [ast.Pass()]
        if a.vararg or a.kwarg:
            pre = []
            if a.vararg:
                pre.append(ast.Assign(targets=[name(a.vararg.arg, ast.Store())], value=hcall("varargs", name(a.vararg.arg))))
            if a.kwarg:
                pre.append(ast.Assign(targets=[name(a.kwarg.arg, ast.Store())], value=hcall("kwargs", name(a.kwarg.arg))))
            n.body = decl + pre + h + rest
        self.globals_decl.pop()
        self.infunc -= 1
        self.loops.pop()
        self.qual.pop()
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, n):
        if any(isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(n.body)):
            nm = f"__lam{self.uid()}__"
            f = ast.FunctionDef(name=nm, args=n.args, body=[ast.Return(value=n.body)], decorator_list=[], returns=None,
                                type_params=[])
            ast.copy_location(f, n)
            ast.fix_missing_locations(f)
            if n.args.defaults or n.args.kw_defaults:
                raise SyntaxError("lambda with defaults and comprehension")
            self.hoist[-1].append(self._func(f))
            return ast.copy_location(name(nm), n)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n

    # ---- annotations
    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    # ---- loops
    def _loop(self, n, test, it, target, is_async=False):
        if not self.infunc:
            raise SyntaxError("loop at module level")
        self.loops[-1] += 1
        lid = f"{self.mod}:{'.'.join(self.qual)}#{self.loops[-1]}"
        u = self.uid()
        lp, el = f"__lp{u}__", f"__el{u}__"
        mods = stores(n.body) + ([m for m in stores([ast.Assign(targets=[target], value=const(0))])] if target is not None else [])
        for x in ast.walk(test) if test is not None else []:
            if isinstance(x, ast.NamedExpr):
                mods.append(x.target.id)
        mods = [m for m in dict.fromkeys(mods) if not m.startswith("__lp") and not m.startswith("__el")]
        gdecl = self.globals_decl[-1]
        local_mods = [m for m in mods if m not in gdecl] + [m for m in mods if m in gdecl]
        pre = [ast.Assign(targets=[name(lp, ast.Store())],
                          value=hcall("loop", const(lid), const(n.lineno), it if it is not None else const(None),
                                      const("for" if it is not None else "while"),
                                      ast.Tuple(elts=[const(m) for m in local_mods], ctx=ast.Load()))),
               ast.Assign(targets=[name(el, ast.Store())], value=const(False))]
        body = []
        asg = []
        for m in local_mods:
            asg.append(ast.If(test=ast.Call(func=ast.Attribute(value=name(lp), attr="hasv", ctx=ast.Load()),
                                            args=[const(m)], keywords=[]),
                              body=[ast.Assign(targets=[name(m, ast.Store())],
                                               value=ast.Call(func=ast.Attribute(value=name(lp), attr="getv", ctx=ast.Load()),
                                                              args=[const(m)], keywords=[]))], orelse=[]))
        body.append(ast.If(test=ast.Call(func=ast.Attribute(value=name(lp), attr="head", ctx=ast.Load()),
                                         args=[ast.Call(func=name("locals"), args=[], keywords=[])], keywords=[]),
                           body=asg or [ast.Pass()], orelse=[]))
        ex = [ast.Assign(targets=[name(el, ast.Store())], value=const(True)), ast.Break()]
        if it is not None:
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(
                func=ast.Attribute(value=name(lp), attr="more", ctx=ast.Load()), args=[], keywords=[])), body=ex, orelse=[]))
            body.append(ast.Assign(targets=[target], value=ast.Call(
                func=ast.Attribute(value=name(lp), attr="item", ctx=ast.Load()), args=[], keywords=[])))
        else:
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=ex, orelse=[]))
        body.extend(self.stmts(n.body))
        w = ast.While(test=const(True), body=body, orelse=[])
        res = pre + [w]
        if n.orelse:
            res.append(ast.If(test=name(el), body=self.stmts(n.orelse), orelse=[]))
        for r in res:
            ast.copy_location(r, n)
            ast.fix_missing_locations(r)
        return res

    def visit_For(self, n):
        it = self.visit(n.iter)
        t = self._target(n.target)
        return self._loop(n, None, it, t)

    def _target(self, t):
        return t if not any(isinstance(x, ast.Subscript) for x in ast.walk(t)) else self._bad("subscript loop target")

    def _bad(self, m):
        raise SyntaxError(m)

    def visit_While(self, n):
        return self._loop(n, self.visit(n.test), None, None)

    # ---- comprehensions
    def _comp(self, n, kind, elt):
        """returns a call expression evaluating the comprehension through a hoisted local function"""
        u = self.uid()
        nm = f"__comp{u}__"
        acc = "__acc__"
        early = None
        if kind == "list":
            init = ast.List(elts=[], ctx=ast.Load())
            inner = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(acc), attr="append", ctx=ast.Load()),
                                             args=[elt], keywords=[]))]
        elif kind == "set":
            init = hcall("mkset", ast.List(elts=[], ctx=ast.Load()))
            inner = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(acc), attr="add", ctx=ast.Load()),
                                             args=[elt], keywords=[]))]
        elif kind == "dict":
            init = ast.Dict(keys=[], values=[])
            inner = [ast.Assign(targets=[ast.Subscript(value=name(acc), slice=elt[0], ctx=ast.Store())], value=elt[1])]
        elif kind == "any":
            init = const(False)
            inner = [ast.If(test=elt, body=[ast.Return(value=const(True))], orelse=[])]
        elif kind == "all":
            init = const(True)
            inner = [ast.If(test=elt, body=[], orelse=[ast.Return(value=const(False))])]
            inner[0].body = [ast.Pass()]
        elif kind == "next":
            init = ast.Attribute(value=name(H), attr="NOITEM", ctx=ast.Load())
            inner = [ast.Return(value=elt)]
        body = inner
        gens = n.generators
        for gi in range(len(gens) - 1, -1, -1):
            g = gens[gi]
            if g.is_async:
                raise SyntaxError("async comprehension")
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            it = name("__it0__") if gi == 0 else g.iter
            body = [ast.For(target=g.target, iter=it, body=body, orelse=[], lineno=n.lineno, col_offset=0)]
        full = [ast.Assign(targets=[name(acc, ast.Store())], value=init)] + body + [ast.Return(value=name(acc))]
        f = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__it0__")], kwonlyargs=[],
                                                        kw_defaults=[], defaults=[]),
                            body=full, decorator_list=[], returns=None, type_params=[])
        ast.copy_location(f, n)
        ast.fix_missing_locations(f)
        first = self.visit(gens[0].iter)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            raise SyntaxError("walrus in comprehension")
        self.hoist[-1].append(self._func(f))
        if len(self.hoist) == 1 or self.cls and not self.infunc:
            pass
        return ast.copy_location(ast.Call(func=name(nm), args=[first], keywords=[]), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", n.elt)

    def visit_SetComp(self, n):
        return self._comp(n, "set", n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, "dict", (n.key, n.value))

    def visit_GeneratorExp(self, n):
        # evaluated eagerly (assumption: its elements have no effects that interleave with the consumer)
        return hcall("eager", self._comp(n, "list", n.elt))

    # ---- calls
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and len(n.args) >= 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            g = n.args[0]
            if n.func.id in ("any", "all") and len(n.args) == 1:
                return self._comp(g, n.func.id, g.elt)
            if n.func.id == "next":
                c = self._comp(g, "next", g.elt)
                if len(n.args) == 2:
                    return ast.copy_location(hcall("nextd", c, thunk(self.visit(n.args[1]))), n)
                return ast.copy_location(hcall("nextd", c), n)
        if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Call) and
                                                      isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super"):
            attr = n.func.attr
            if attr.startswith("__") and not attr.endswith("__") and self.cls:
                attr = "_" + self.cls[-1].lstrip("_") + attr
            args = [self.visit(a) for a in n.args]
            kws = [ast.keyword(arg=k.arg, value=self.visit(k.value) if k.arg is not None else hcall("unkw", self.visit(k.value))) for k in n.keywords]
            return ast.copy_location(hcall("callm", self.visit(n.func.value), const(attr), *args, keywords=kws), n)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars", "eval", "exec"):
            raise SyntaxError("use of " + n.func.id)
        self.generic_visit(n)
        if not (isinstance(n.func, ast.Name) and n.func.id == "super"):
            n.keywords = [k if k.arg is not None else ast.keyword(arg=None, value=hcall("unkw", k.value)) for k in n.keywords]
        return n

    # ---- operators
    def visit_Compare(self, n):
        special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
        if not any(isinstance(o, special) for o in n.ops):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                m = "eq_" if isinstance(n.ops[0], ast.Eq) else "ne_"
                return ast.copy_location(hcall(m, n.left, n.comparators[0]), n)
            return n
        if len(n.ops) != 1:
            # a OP b OP c  with simple middle operands
            parts = []
            left = n.left
            for o, c in zip(n.ops, n.comparators):
                if not isinstance(c, (ast.Name, ast.Constant, ast.Attribute)) and c is not n.comparators[-1]:
                    raise SyntaxError("chained comparison")
                parts.append(self.visit(ast.copy_location(ast.Compare(left=left, ops=[o], comparators=[c]), n)))
                left = c
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), n)
        a, b = self.visit(n.left), self.visit(n.comparators[0])
        o = n.ops[0]
        m = {ast.Is: "is_", ast.IsNot: "isnot_", ast.In: "in_", ast.NotIn: "notin_"}[type(o)]
        return ast.copy_location(hcall(m, a, b), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(hcall("not_", n.operand), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(hcall("mod", n.left, n.right), n)
        return n

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            v = self.visit(n.value)
            return ast.copy_location(hcall("getitem", v, self._slice(n.slice)), n)
        self.generic_visit(n)
        return n

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else const(None)
            return hcall("slice", f(s.lower), f(s.upper), f(s.step))
        return self.visit(s)

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(value=hcall("setitem", self.visit(t.value), self._slice(t.slice), n.value)), n)
        if any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)):
            u = f"__t{self.uid()}__"
            out = [ast.Assign(targets=[name(u, ast.Store())], value=n.value)]
            for t in n.targets:
                out.extend(self._assign_to(t, name(u)))
            for o in out:
                ast.copy_location(o, n)
                ast.fix_missing_locations(o)
            return out
        new = []
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)):
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    raise SyntaxError("starred assignment")
                if len(n.targets) == 1:
                    n.value = hcall("unpackn", n.value, const(len(t.elts)))
            new.append(self.visit(t) if not isinstance(t, (ast.Tuple, ast.List)) else self._tt(t))
        n.targets = new
        return n

    def _tt(self, t):
        t.elts = [self._tt(e) if isinstance(e, (ast.Tuple, ast.List)) else (self.visit(e) if isinstance(e, ast.Attribute) else e)
                  for e in t.elts]
        return t

    def _assign_to(self, t, val):
        if isinstance(t, ast.Subscript):
            return [ast.Expr(value=hcall("setitem", self.visit(t.value), self._slice(t.slice), val))]
        if isinstance(t, (ast.Tuple, ast.List)):
            u = f"__t{self.uid()}__"
            out = [ast.Assign(targets=[name(u, ast.Store())], value=hcall("unpackn", val, const(len(t.elts))))]
            for i, e in enumerate(t.elts):
                out.extend(self._assign_to(e, ast.Subscript(value=name(u), slice=const(i), ctx=ast.Load())))
            return out
        return [ast.Assign(targets=[t], value=val)]

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Subscript):
            o, i = f"__o{self.uid()}__", f"__i{self.uid()}__"
            out = [ast.Assign(targets=[name(o, ast.Store())], value=self.visit(n.target.value)),
                   ast.Assign(targets=[name(i, ast.Store())], value=self._slice(n.target.slice)),
                   ast.Assign(targets=[name("v" + o, ast.Store())], value=hcall("getitem", name(o), name(i))),
                   ast.AugAssign(target=name("v" + o, ast.Store()), op=n.op, value=n.value),
                   ast.Expr(value=hcall("setitem", name(o), name(i), name("v" + o)))]
            for x in out:
                ast.copy_location(x, n)
                ast.fix_missing_locations(x)
            return out
        if isinstance(n.target, ast.Attribute):
            n.target.value = self.visit(n.target.value)
        return n

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=hcall("delitem", self.visit(t.value), self._slice(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    # ---- displays
    def visit_List(self, n):
        if isinstance(n.ctx, ast.Load):
            if any(isinstance(e, ast.Starred) for e in n.elts):
                parts = [hcall("star", self.visit(e.value)) if isinstance(e, ast.Starred)
                         else ast.List(elts=[self.visit(e)], ctx=ast.Load()) for e in n.elts]
                return ast.copy_location(hcall("starlist", *parts), n)
            return ast.copy_location(hcall("mklist", ast.List(elts=[self.visit(e) for e in n.elts], ctx=ast.Load())), n)
        return n

    def visit_Set(self, n):
        return ast.copy_location(hcall("mkset", ast.List(elts=[self.visit(e) for e in n.elts], ctx=ast.Load())), n)

    def visit_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(ast.Tuple(elts=[ast.Attribute(value=name(H), attr="STARKEY", ctx=ast.Load()), self.visit(v)], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
        return ast.copy_location(hcall("mkdict", ast.List(elts=items, ctx=ast.Load())), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(hcall("fstr", ast.List(elts=parts, ctx=ast.Load())), n)

    def visit_Starred(self, n):
        n.value = hcall("star", self.visit(n.value))
        return n

    # ---- statements
    def visit_Try(self, n):
        n.body = self.stmts(n.body)
        hs = []
        if n.handlers:
            hs.append(ast.ExceptHandler(type=ast.Attribute(value=name(H), attr="Control", ctx=ast.Load()), name=None,
                                        body=[ast.Raise(exc=None, cause=None)]))
        for h in n.handlers:
            nm = h.name or f"__exc{self.uid()}__"
            t = self.visit(h.type) if h.type is not None else name("BaseException")
            hs.append(ast.ExceptHandler(type=t, name=nm,
                                        body=[ast.Expr(value=hcall("caught", name(nm)))] + self.stmts(h.body)))
        n.handlers = hs
        n.orelse = self.stmts(n.orelse)
        n.finalbody = self.stmts(n.finalbody)
        ast.fix_missing_locations(n)
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.stmts(n.body) or [ast.Pass()]
        n.orelse = self.stmts(n.orelse)
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        n.body = self.stmts(n.body) or [ast.Pass()]
        return n

    visit_AsyncWith = visit_With

    def visit_AsyncFor(self, n):
        raise SyntaxError("async for")

    def visit_Expr(self, n):
        n.value = self.visit(n.value)
        return n


def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
