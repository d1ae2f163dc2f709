"""Loads the repository's modules (instrumented, from the working tree) and the contract modules."""
import ast
import builtins
import enum
import os
import types
from . import core, instr
from .core import *


def contract(*functions, **opts):
    """marks a contract: the functions of /repo it is about, and options"""
    def deco(f):
        f.vc_functions = functions
        f.vc_opts = opts
        return f
    return deco


class Prog:
    def __init__(self, repo="/repo", contracts="/verif/contracts"):
        self.repo, self.contracts = repo, contracts
        self.loaded = {}
        self.errors = {}
        self.sources = {}
        self.nonlocals = set()
        self.baseline = None
        from . import lib
        self.lib = lib
        self.bi = dict(builtins.__dict__)
        self.bi.update(lib.builtin_overrides())
        self.bi["__import__"] = self.imp
        self.bi["contract"] = contract
        self.pkg = types.ModuleType("booktest")
        self.names = {}
        self.pkgdir = os.path.join(repo, "booktest")
        self.pkg.__path__ = [self.pkgdir]
        self._scan_init()
        self.pkg.__getattr__ = self._pkg_attr

    # -- package namespace, from the import statements of __init__.py
    def _scan_init(self):
        tree = ast.parse(open(os.path.join(self.pkgdir, "__init__.py")).read())
        for n in tree.body:
            if isinstance(n, ast.ImportFrom) and n.module:
                m = n.module if n.level == 0 else "booktest." + n.module
                for a in n.names:
                    self.names[a.asname or a.name] = (m, a.name)

    def _pkg_attr(self, n):
        if n in self.names:
            m, a = self.names[n]
            return getattr(self.load(m), a)
        if os.path.exists(os.path.join(self.pkgdir, n + ".py")):
            return self.load("booktest." + n)
        raise AttributeError(n)

    def path_of(self, modname):
        return os.path.join(self.repo, *modname.split(".")) + ".py"

    def modules(self):
        return sorted("booktest." + f[:-3] for f in os.listdir(self.pkgdir)
                      if f.endswith(".py") and f not in ("__init__.py", "__main__.py"))

    def load(self, modname, path=None):
        if modname in self.loaded:
            return self.loaded[modname]
        if modname in self.errors:
            raise Unsupported(self.errors[modname])
        path = path or self.path_of(modname)
        if not os.path.exists(path):
            raise ModuleNotFoundError(modname)
        src = open(path).read()
        self.sources[modname] = src
        try:
            code = instr.instrument(src, modname, path)
        except SyntaxError as ex:
            self.errors[modname] = f"{modname}: outside the verified subset: {ex}"
            raise Unsupported(self.errors[modname])
        for x in ast.walk(ast.parse(src)):
            if isinstance(x, ast.Nonlocal):
                self.nonlocals.update(x.names)
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.bi
        m.__dict__["__h__"] = self.lib.HOOK
        if not modname.startswith("booktest"):
            m.__dict__["__vc__"] = True
        self.loaded[modname] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.loaded[modname]
            raise
        if core.ENG is not None and self.baseline is not None:
            raise Unsupported(f"module {modname} loaded during exploration")
        return m

    def load_contracts(self, name):
        """contracts of a property: name -> function"""
        self.load("pyvc.prelude", os.path.join(os.path.dirname(__file__), "prelude.py"))
        m = self.load("contracts." + name, os.path.join(self.contracts, name + ".py"))
        return {n: f for n, f in m.__dict__.items() if "vc_functions" in getattr(f, "__dict__", {})}

    def load_all(self):
        """import every module of the package; remember failures"""
        for m in self.modules():
            try:
                self.load(m)
            except Unsupported as ex:
                self.errors.setdefault(m, str(ex))
            except Exception as ex:
                self.errors[m] = f"{m}: import failed: {type(ex).__name__}: {ex}"

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = "booktest" + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "booktest":
            if name == "booktest":
                return self.pkg
            m = self.load(name)
            return m if fromlist else self.pkg
        if top == "contracts":
            n = name.split(".")[1]
            m = self.load(name, os.path.join(self.contracts, n + ".py"))
            return m
        if top in ("z3", "pyvc", "vclib", "hints"):
            return builtins.__import__(name, {}, {}, fromlist or (), 0)
        m = self.lib.external(name)
        if fromlist or "." not in name:
            return m
        return self.lib.external(top)

    def is_repo_class(self, c):
        return isinstance(c, type) and (c.__module__ in self.loaded)

    # -- state between paths
    def freeze(self):
        """remember the state of module globals, class attributes and everything mutable reachable from them"""
        base = []
        seen = {}

        def visit(v):
            if id(v) in seen:
                return
            seen[id(v)] = v
            if isinstance(v, VList) or isinstance(v, VSet):
                base.append(("t", v, v.copy()))
                for x in v.conc or [] if isinstance(v, VList) else []:
                    visit(x)
            elif isinstance(v, VDict):
                base.append(("t", v, v.copy()))
                for k, x in v.conc or []:
                    visit(x)
            elif isinstance(v, types.FunctionType):
                base.append(("d", v.__dict__, dict(v.__dict__)))
                for c in v.__closure__ or ():
                    try:
                        visit(c.cell_contents)
                    except ValueError:
                        pass
            elif isinstance(v, type):
                if self.is_repo_class(v) and not issubclass(v, enum.Enum):
                    base.append(("c", v, dict(v.__dict__)))
                    for x in list(v.__dict__.values()):
                        visit(x)
            elif isinstance(v, types.ModuleType):
                return
            elif self.is_repo_class(type(v)) or getattr(type(v), "_vc_inst", False):
                base.append(("d", v.__dict__, dict(v.__dict__)))
                for x in list(v.__dict__.values()):
                    visit(x)

        for m in self.loaded.values():
            base.append(("d", m.__dict__, dict(m.__dict__)))
            for n, v in list(m.__dict__.items()):
                if not n.startswith("__"):
                    visit(v)
        for s in self.lib.stub_states():
            base.append(("d", s.__dict__, dict(s.__dict__)))
        self.baseline = base

    def reset(self, eng):
        if self.baseline is None:
            self.freeze()
            return
        for k, o, v in self.baseline:
            if k == "t":
                o.assign(v)
                o.frozen = None
                if isinstance(o, VDict):
                    o.conc = [list(x) for x in v.conc] if v.conc is not None else None
            elif k == "d":
                if o.keys() != v.keys() or any(o[n] is not v[n] for n in v):
                    o.clear()
                    o.update(v)
            else:
                cur = dict(o.__dict__)
                for n in cur:
                    if n not in v and n not in ("__dict__", "__weakref__"):
                        if n == "__new__":
                            # a deleted __new__ leaves object.__new__ strict about arguments
                            o.__new__ = staticmethod(lambda cls, *a, **k: object.__new__(cls))
                        else:
                            delattr(o, n)
                for n in v:
                    if n not in ("__dict__", "__weakref__") and (n not in cur or cur[n] is not v[n]):
                        setattr(o, n, v[n])
