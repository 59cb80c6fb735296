"""Symbolic interpreter over the AST of the repository's current source."""
from __future__ import annotations
import ast
import types
import builtins
import copy
import os
import enum as _enum
from fractions import Fraction
import numpy as np
import z3
from . import sym, vec
from .sym import (Poly, Poison, PoisonUse, SymBool, Unsupported, PyRaise, PathAbort, P, ctx, b_and, b_or, b_not,
                  b_implies, is_num, ite)
from .vec import Vec, Mat, MatT, Had, HadMat, LenArr, TileRow

REPO = os.environ.get("PYVC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(HERE, "stubs")
MODEL_SRC = os.path.join(HERE, "models_src")

_AST_CACHE = {}


def parse_file(path):
    if path not in _AST_CACHE:
        with open(path) as f:
            src = f.read()
        _AST_CACHE[path] = (ast.parse(src, path), src)
    return _AST_CACHE[path]


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "module", "globals_")

    def __init__(self, parent, module):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = ()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return self.module.get(n)

    def set(self, n, v):
        self.vars[n] = v


class RepoModule:
    def __init__(self, interp, name, path):
        self.interp, self.name, self.path = interp, name, path
        self.tree, self.src = parse_file(path)
        self.vals = {}
        self.defs = {}
        self._loading = set()
        for st in self._flat(self.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs[a.asname or a.name] = ("from", st.module, a.name, st.level)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = st
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = st

    def _flat(self, body):
        for st in body:
            if isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                    continue
                yield from self._flat(st.body)
                yield from self._flat(st.orelse)
            elif isinstance(st, ast.Try):
                yield from self._flat(st.body)
            else:
                yield st

    def get(self, n):
        if n in self.vals:
            return self.vals[n]
        if n in self.defs:
            d = self.defs[n]
            if isinstance(d, ast.FunctionDef):
                v = RepoFunc(self.interp, self, d, d.name, None)
                v = self.interp.decorate(v, d, Env(None, self))
            elif isinstance(d, ast.ClassDef):
                v = self.interp.make_class(d, self)
            elif isinstance(d, tuple) and d[0] == "import":
                v = self.interp.import_module(d[1])
            elif isinstance(d, tuple):
                v = self.interp.import_from(d[1], d[2], self, d[3])
            else:
                if n in self._loading:
                    raise Unsupported(f"recursive module constant {n}")
                self._loading.add(n)
                env = Env(None, self)
                env.vars = self.vals
                self.interp.exec_stmt(d, env)
                self._loading.discard(n)
                return self.vals[n]
            self.vals[n] = v
            return v
        return self.interp.builtin(n)


class ExtModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"


class ExtRef:
    """An external thing without a model."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<unmodelled {self.name}>"

    def __deepcopy__(self, memo):
        return self


class ModelFunc:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<model {self.name}>"

    def __deepcopy__(self, memo):
        return self


class RepoFunc:
    def __init__(self, interp, module, node, qual, cls, closure=None):
        self.interp, self.module, self.node, self.qual, self.cls = interp, module, node, qual, cls
        self.closure = closure
        self.static = self.classm = self.prop = False

    @property
    def fullname(self):
        return f"{self.module.name}:{self.qual}"

    def __repr__(self):
        return f"<repo {self.fullname}>"

    def __deepcopy__(self, memo):
        return self


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __deepcopy__(self, memo):
        return BoundMethod(self.func, copy.deepcopy(self.self_, memo))


class RepoClass:
    def __init__(self, interp, module, node, bases):
        self.interp, self.module, self.node, self.bases = interp, module, node, bases
        self.name = node.name
        self.attrs = {}
        self.dataclass = False
        self.eq_fields = False
        self.fields = []
        self.is_enum = False
        self.enum_members = {}

    def __repr__(self):
        return f"<class {self.name}>"

    def __deepcopy__(self, memo):
        return self

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, RepoClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.attrs:
                return c.attrs[n]
        return None

    def issub(self, o):
        if self is o:
            return True
        return any((b is o) or (isinstance(b, RepoClass) and b.issub(o)) or
                   (isinstance(b, ExtRef) and isinstance(o, ExtRef) and b.name == o.name) for b in self.bases)

    def ext_bases(self):
        out = []
        for b in self.bases:
            if isinstance(b, RepoClass):
                out += b.ext_bases()
            else:
                out.append(b)
        return out


class SymObj:
    """Instance of a repository class (or an abstract object with contract-given methods)."""

    def __init__(self, cls, fields=None, name=None, methods=None):
        self.cls = cls
        self.f = fields or {}
        self.name = name
        self.m = methods or {}     # name -> python callable(I, *args, **kw): assumed contract
        self.frozen = False

    def __repr__(self):
        return f"<obj {self.name or (self.cls.name if self.cls else '?')}>"

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        o = SymObj(self.cls, None, self.name, self.m)
        memo[id(self)] = o
        o.f = {k: copy.deepcopy(v, memo) for k, v in self.f.items()}
        return o


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"

    def __deepcopy__(self, memo):
        return self


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class SuperProxy:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


NATIVE_MODULES = {"networkx"}
NOOP_CALLS = {"print", "breakpoint"}


def exc_matches(name, wanted):
    a = getattr(builtins, name, None)
    b = getattr(builtins, wanted, None)
    if a is None or b is None:
        return name == wanted or wanted in ("Exception", "BaseException")
    return issubclass(a, b)


class Interp:
    def __init__(self, contracts=None, models=None, verify_target=None, unroll=8, inline_only=()):
        from . import npmodel
        self.modules = {}
        self.models = dict(npmodel.MODELS)
        if models:
            self.models.update(models)
        self.contracts = contracts or {}
        self.target = verify_target
        self.depth = 0
        self.unroll = unroll
        self.bounded_notes = set()
        self.call_hook = None
        self.native_vals = {}
        self.shared_defaults = {}

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        rel = name.replace(".", "/")
        for root in (REPO, STUBS, MODEL_SRC):
            for p in (os.path.join(root, rel + ".py"), os.path.join(root, rel, "__init__.py")):
                if os.path.exists(p):
                    return p
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = self.module_path(name)
        if p is not None:
            m = RepoModule(self, name, p)
        elif name.split(".")[0] in NATIVE_MODULES:
            m = __import__(name)
        else:
            m = ExtModule(name)
        self.modules[name] = m
        return m

    def import_from(self, mod, n, cur, level):
        if level:
            base = cur.name.split(".")
            if not cur.path.endswith("__init__.py"):
                base = base[:-1]
            if level > 1:
                base = base[:-(level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        full = f"{mod}.{n}"
        if full in self.models:
            return self.ext_attr(full)
        if mod in ("typing", "typing_extensions", "__future__", "collections.abc", "numpy.typing"):
            return ExtRef(full)
        m = self.import_module(mod)
        if isinstance(m, RepoModule):
            if n in m.defs or n in m.vals:
                return m.get(n)
            sub = self.module_path(full)
            if sub:
                return self.import_module(full)
            return ExtRef(full)
        if isinstance(m, ExtModule):
            return self.ext_attr(full)
        return getattr(m, n)

    def ext_attr(self, full):
        from . import npmodel
        if full in self.models:
            v = self.models[full]
            if callable(v) and not isinstance(v, npmodel.Const):
                return ModelFunc(full, v)
            return v.get() if isinstance(v, npmodel.Const) else v
        if any(k.startswith(full + ".") for k in self.models):
            return ExtModule(full)
        return ExtRef(full)

    def load(self, fullname):
        mod, qual = fullname.split(":")
        m = self.import_module(mod)
        if not isinstance(m, RepoModule):
            raise Unsupported(f"module {mod} not found")
        parts = qual.split(".")
        if parts[0] not in m.defs:
            raise Unsupported(f"{fullname} not found in the current source")
        v = m.get(parts[0])
        for p in parts[1:]:
            if isinstance(v, RepoClass):
                nv = v.lookup(p)
                if nv is None:
                    raise Unsupported(f"{fullname} not found in the current source")
                v = nv
        return v

    # ------------------------------------------------------------ builtins
    def builtin(self, n):
        if "builtins." + n in self.models:
            return ModelFunc(n, self.models["builtins." + n])
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        b = getattr(builtins, n, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return b
        if b in (int, float, bool, str, list, tuple, dict, set, object, type, frozenset, complex):
            return b
        if n in ("staticmethod", "classmethod", "property"):
            return b
        if n == "__name__":
            return "module"
        if n == "NotImplemented":
            return NotImplemented
        raise PyRaise(ExcVal("NameError", (n,)))

    def make_class(self, node, module):
        env = Env(None, module)
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            try:
                bases.append(self.eval(b, env))
            except (Unsupported, PyRaise):
                bases.append(ExtRef(ast.unparse(b)))
        c = RepoClass(self, module, node, bases)
        for b in bases:
            if isinstance(b, ExtRef) and b.name.startswith("enum."):
                c.is_enum = True
        for d in node.decorator_list:
            dn = ast.unparse(d)
            if "dataclass" in dn:
                c.dataclass = True
                c.eq_fields = not (isinstance(d, ast.Call) and any(
                    k.arg == "eq" and isinstance(k.value, ast.Constant) and not k.value.value for k in d.keywords))
        if c.dataclass:
            for b in bases:
                if isinstance(b, RepoClass):
                    c.fields += b.fields
        cenv = Env(None, module)
        cenv.vars = c.attrs
        autov = 1
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = RepoFunc(self, module, st, f"{node.name}.{st.name}", c)
                for d in st.decorator_list:
                    dn = ast.unparse(d)
                    if dn == "staticmethod":
                        f.static = True
                    elif dn == "classmethod":
                        f.classm = True
                    elif dn in ("property", "cached_property", "functools.cached_property"):
                        f.prop = True
                    elif dn.endswith(".setter"):
                        f.prop = "setter"
                    elif dn.endswith(".deleter"):
                        f.prop = "deleter"
                    elif dn in ("abstractmethod", "abc.abstractmethod", "override"):
                        pass
                    else:
                        f.prop = f.prop
                if f.prop == "setter":
                    c.attrs[st.name + ".setter"] = f
                elif f.prop == "deleter":
                    pass
                else:
                    c.attrs[st.name] = f
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name):
                    isclassvar = "ClassVar" in ast.unparse(st.annotation)
                    if st.value is not None:
                        c.attrs[st.target.id] = ("lazy", st.value, cenv)
                    if c.dataclass and not isclassvar:
                        c.fields = [x for x in c.fields if x[0] != st.target.id] + [(st.target.id, st.value)]
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if c.is_enum:
                            try:
                                val = self.eval(st.value, env)
                            except Unsupported:
                                val = autov
                            if isinstance(val, ExtRef):
                                val = autov
                            autov += 1
                            c.enum_members[t.id] = EnumMember(c, t.id, val)
                            c.attrs[t.id] = c.enum_members[t.id]
                        else:
                            c.attrs[t.id] = ("lazy", st.value, cenv)
            elif isinstance(st, ast.ClassDef):
                c.attrs[st.name] = self.make_class(st, module)
        return c

    def class_attr(self, c, n):
        for k in c.mro():
            if n in k.attrs:
                v = k.attrs[n]
                if isinstance(v, tuple) and len(v) == 3 and v[0] == "lazy":
                    v = self.eval(v[1], v[2])
                    k.attrs[n] = v
                return v
        return None

    def decorate(self, f, node, env):
        for d in reversed(node.decorator_list):
            dn = ast.unparse(d)
            if dn in ("staticmethod",):
                f.static = True
            elif dn.startswith(("functools.", "lru_cache", "cache", "overload", "njit", "jit")):
                pass
            else:
                raise Unsupported(f"decorator {dn}")
        return f

    # ------------------------------------------------------------ attributes
    def getattr(self, o, n):
        from . import npmodel
        if isinstance(o, SymObj):
            if n in o.f:
                return o.f[n]
            if n in o.m:
                fn = o.m[n]
                return ModelFunc(f"{o}.{n}", lambda I, *a, **k: fn(I, o, *a, **k))
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.f
            if o.cls is not None:
                v = self.class_attr(o.cls, n)
                if v is not None:
                    if isinstance(v, RepoFunc):
                        if v.prop is True:
                            return self.call_func(v, [o], {})
                        if v.static:
                            return v
                        if v.classm:
                            return BoundMethod(v, o.cls)
                        return BoundMethod(v, o)
                    if isinstance(v, RepoClass) or not isinstance(v, ModelFunc):
                        return v
                    return v
                m = self.ext_method(o.cls, n)
                if m is not None:
                    return ModelFunc(n, lambda I, *a, **k: m(I, o, *a, **k))
            if n in getattr(o, "absent", ()):
                raise PyRaise(ExcVal("AttributeError", (n,)))
            if o.cls is None or (o.cls.ext_bases() and any(isinstance(b, ExtRef) and not b.name.startswith(("typing", "abc", "Protocol"))
                                                           for b in o.cls.ext_bases())):
                raise Unsupported(f"attribute {n} of {o} (external base class)")
            raise PyRaise(ExcVal("AttributeError", (n,)))
        if isinstance(o, RepoClass):
            if n == "__name__":
                return o.name
            v = self.class_attr(o, n)
            if v is not None:
                if isinstance(v, RepoFunc) and v.classm:
                    return BoundMethod(v, o)
                return v
            raise PyRaise(ExcVal("AttributeError", (n,)))
        if isinstance(o, RepoModule):
            return o.get(n)
        if isinstance(o, ExtModule):
            r = self.ext_attr(f"{o.name}.{n}")
            return r
        if isinstance(o, EnumMember):
            if n in ("name", "value"):
                return getattr(o, n)
            return self.getattr(o.cls, n)
        if isinstance(o, SuperProxy):
            mro = o.self_.cls.mro() if isinstance(o.self_, SymObj) else o.self_.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if n in c.attrs:
                    v = self.class_attr(c, n)
                    if isinstance(v, RepoFunc):
                        if v.prop is True:
                            return self.call_func(v, [o.self_], {})
                        return BoundMethod(v, o.self_)
                    return v
            m = self.ext_method(o.cls, n)
            if m is not None:
                return ModelFunc(n, lambda I, *a, **k: m(I, o.self_, *a, **k))
            if n == "__init__":
                exts = [b for b in o.cls.ext_bases() if isinstance(b, ExtRef)
                        and not b.name.startswith(("typing", "abc", "enum"))]
                if not exts or all(b is object for b in o.cls.ext_bases()):
                    return ModelFunc("object.__init__", lambda I, *a, **k: None)
            raise Unsupported(f"super().{n}")
        if isinstance(o, ExcVal):
            if n == "args":
                return o.args
        if isinstance(o, ExtRef):
            raise Unsupported(f"attribute {n} of unmodelled {o.name}")
        if o is None:
            raise PyRaise(ExcVal("AttributeError", ("None." + n,)))
        if isinstance(o, LoopVar):
            raise Unsupported("attribute of a loop summary")
        r = npmodel.value_attr(self, o, n)
        if r is not npmodel.MISSING:
            return r
        if type(o).__module__.split(".")[0] in NATIVE_MODULES or isinstance(o, (dict, list, set, str, tuple)) \
                or isinstance(o, types.ModuleType):
            try:
                return getattr(o, n)
            except AttributeError:
                raise PyRaise(ExcVal("AttributeError", (n,)))
        raise Unsupported(f"attribute {n} of {type(o).__name__}")

    def ext_method(self, cls, n):
        """Models of methods provided by external base classes."""
        for b in cls.ext_bases():
            if isinstance(b, ExtRef):
                k = f"{b.name}.{n}"
                if k in self.models:
                    return self.models[k]
        return None

    def setattr(self, o, n, v):
        if isinstance(o, SymObj):
            if o.cls is not None:
                s = o.cls.lookup(n + ".setter")
                if isinstance(s, RepoFunc):
                    self.call_func(s, [o, v], {})
                    return
                p = o.cls.lookup(n)
                if isinstance(p, RepoFunc) and p.prop is True:
                    raise PyRaise(ExcVal("AttributeError", (n,)))
            if o.frozen and n not in o.f:
                ctx().notes.add(f"new attribute {n}")
            o.f[n] = v
            return
        if isinstance(o, RepoClass):
            o.attrs[n] = v
            return
        if isinstance(o, np.ndarray) and n == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, RepoFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ModelFunc):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, RepoClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, SymObj):
            c = f.m.get("__call__") or (f.cls and f.cls.lookup("__call__"))
            if isinstance(c, RepoFunc):
                return self.call_func(c, [f] + list(args), kwargs)
            if c:
                return c(self, f, *args, **kwargs)
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
            try:
                return f(*args, **kwargs)          # a named tuple of the repository
            except TypeError as e:
                raise PyRaise(ExcVal("TypeError", e.args))
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f.__name__, tuple(args))
        if isinstance(f, type) and f.__module__.split(".")[0] not in NATIVE_MODULES:
            from . import npmodel
            return npmodel.call_type(self, f, args, kwargs)
        if isinstance(f, ExtRef):
            raise Unsupported(f"call of unmodelled external {f.name}")
        if callable(f) and (getattr(f, "__self__", None) is not None or
                            type(f).__module__.split(".")[0] in NATIVE_MODULES or
                            getattr(f, "__module__", "").split(".")[0] in NATIVE_MODULES):
            try:
                return f(*args, **kwargs)
            except (Unsupported, PyRaise, PathAbort, PoisonUse):
                raise
            except Exception as e:
                raise PyRaise(ExcVal(type(e).__name__, e.args))
        if isinstance(f, PyClosure):
            return f(self, args, kwargs)
        raise PyRaise(ExcVal("TypeError", (f"{f!r} not callable",)))

    def default(self, node, env):
        """mutable default values are created once and shared between calls"""
        if not isinstance(node, (ast.List, ast.Dict, ast.Set, ast.Call)):
            return self.eval(node, env)
        if id(node) not in self.shared_defaults:
            self.shared_defaults[id(node)] = self.eval(node, env)
        return self.shared_defaults[id(node)]

    def bind(self, node, args, kwargs, env_defaults, module):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(ExcVal("TypeError", ("too many arguments",)))
        for n, v in zip(names, args):
            bound[n] = v
        if a.vararg:
            bound[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in konly:
                if k in bound:
                    raise PyRaise(ExcVal("TypeError", (f"multiple values for {k}",)))
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(ExcVal("TypeError", (f"unexpected keyword {k}",)))
        if a.kwarg:
            bound[a.kwarg.arg] = extra
        d = a.defaults
        for n, dv in zip(names[len(names) - len(d):], d):
            if n not in bound:
                bound[n] = self.default(dv, env_defaults)
        for n, dv in zip(konly, a.kw_defaults):
            if n not in bound:
                if dv is None:
                    raise PyRaise(ExcVal("TypeError", (f"missing {n}",)))
                bound[n] = self.default(dv, env_defaults)
        for n in names:
            if n not in bound:
                raise PyRaise(ExcVal("TypeError", (f"missing argument {n}",)))
        return bound

    def call_func(self, f, args, kwargs, force_inline=False):
        c = ctx()
        con = self.contracts.get(f.fullname)
        if con is not None and not force_inline and f.fullname != self.target and con.modular:
            bound = self.bind(f.node, args, kwargs, Env(f.closure, f.module), f.module)
            r = con.apply(self, bound)
            if r is not NotImplemented:
                c.used_contracts.add(con.name)
                return r
        if self.depth > 60:
            raise Unsupported("recursion")
        if os.path.abspath(f.module.path).startswith(STUBS):
            c.assumed.add(f.fullname)
        else:
            c.used_funcs.add(f.fullname)
        env = Env(f.closure, f.module)
        env.vars = self.bind(f.node, args, kwargs, Env(f.closure, f.module), f.module)
        if f.cls is not None:
            env.vars["__class__"] = f.cls
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.walk_own(f.node)):
            env.vars["__yield__"] = []
            self.depth += 1
            try:
                self.exec_body(f.node.body, env)
            except ReturnEx:
                pass
            finally:
                self.depth -= 1
            return env.vars["__yield__"]
        self.depth += 1
        try:
            self.exec_body(f.node.body, env)
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def walk_own(self, node):
        st = list(node.body) if isinstance(node.body, list) else [node.body]
        while st:
            n = st.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))

    def instantiate(self, cls, args, kwargs):
        if cls.is_enum:
            for m in cls.enum_members.values():
                if m.value == args[0]:
                    return m
            raise PyRaise(ExcVal("ValueError", ("enum",)))
        o = SymObj(cls)
        init = cls.lookup("__init__")
        new = self.models.get(f"{cls.module.name}:{cls.name}.__init__")
        if new is not None:
            new(self, o, *args, **kwargs)
            return o
        if isinstance(init, RepoFunc):
            self.call_func(init, [o] + list(args), kwargs)
        elif cls.dataclass:
            names = [n for n, _ in cls.fields]
            if len(args) > len(names):
                raise PyRaise(ExcVal("TypeError", ("too many arguments",)))
            vals = dict(zip(names, args))
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    raise PyRaise(ExcVal("TypeError", (f"unexpected {k}",)))
                vals[k] = v
            for n, d in cls.fields:
                if n not in vals:
                    if d is None:
                        raise PyRaise(ExcVal("TypeError", (f"missing {n}",)))
                    if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                        for kw in d.keywords:
                            if kw.arg == "default_factory":
                                vals[n] = self.call(self.eval(kw.value, Env(None, cls.module)), [], {})
                            elif kw.arg == "default":
                                vals[n] = self.eval(kw.value, Env(None, cls.module))
                        if n not in vals:
                            raise PyRaise(ExcVal("TypeError", (f"missing {n}",)))
                    else:
                        vals[n] = self.eval(d, Env(None, cls.module))
            o.f.update(vals)
            pi = cls.lookup("__post_init__")
            if isinstance(pi, RepoFunc):
                self.call_func(pi, [o], {})
        else:
            m = self.ext_method(cls, "__init__")
            if m is not None:
                m(self, o, *args, **kwargs)
            elif args or kwargs:
                raise Unsupported(f"constructor of {cls.name}")
        return o

    # ------------------------------------------------------------ statements
    def exec_body(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        c = ctx()
        c.steps += 1
        if c.steps > 200000:
            raise Unsupported("interpretation budget")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        try:
            m(st, env)
        except Unsupported as e:
            if not getattr(e, "located", False):
                e.located = True
                e.args = (f"{e.args[0] if e.args else ''} [{env.module.name if env.module else '?'}:{st.lineno}]",)
            raise

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            env.set(a.asname or a.name.split(".")[0],
                    self.import_module(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env.set(a.asname or a.name, self.import_from(st.module, a.name, env.module, st.level))

    def s_Global(self, st, env):
        raise Unsupported("global statement")

    def s_Nonlocal(self, st, env):
        env.globals_ = tuple(st.names)

    def s_FunctionDef(self, st, env):
        f = RepoFunc(self, env.module, st, st.name, None, closure=env)
        env.set(st.name, self.decorate(f, st, env))

    def s_ClassDef(self, st, env):
        raise Unsupported("local class")

    def s_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise BreakEx()

    def s_Continue(self, st, env):
        raise ContinueEx()

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, SymObj) and t.attr in o.f:
                    del o.f[t.attr]
                else:
                    raise PyRaise(ExcVal("AttributeError", (t.attr,)))
            else:
                raise Unsupported("del")

    def delitem(self, o, k):
        if isinstance(o, SymObj):
            d = o.cls.lookup("__delitem__")
            return self.call_func(d, [o, k], {})
        if isinstance(k, Poly):
            k = int(k)
        try:
            del o[k]
        except (KeyError, IndexError, TypeError) as e:
            raise PyRaise(ExcVal(type(e).__name__, e.args))

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise(ExcVal("AssertionError", ()))

    def s_Raise(self, st, env):
        if st.exc is None:
            raise PyRaise(env.get("__exc__"))
        v = self.eval(st.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v.__name__)
        if isinstance(v, RepoClass):
            v = ExcVal(v.name)
        if isinstance(v, SymObj):
            v = ExcVal(v.cls.name)
        if isinstance(v, ExtRef):
            v = ExcVal(v.name.split(".")[-1])
        raise PyRaise(v)

    def s_Try(self, st, env):
        try:
            try:
                self.exec_body(st.body, env)
            except PyRaise as e:
                exc = e.exc if isinstance(e.exc, ExcVal) else ExcVal(e.exc[0], e.exc[1:])
                for h in st.handlers:
                    names = []
                    if h.type is None:
                        names = ["BaseException"]
                    else:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        names = [ast.unparse(t).split(".")[-1] for t in ts]
                    if any(exc_matches(exc.name, w) for w in names):
                        if h.name:
                            env.set(h.name, exc)
                        env.set("__exc__", exc)
                        self.exec_body(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_body(st.finalbody, env)

    def s_With(self, st, env):
        for it in st.items:
            n = ast.unparse(it.context_expr)
            if n.startswith(("np.errstate", "numpy.errstate", "warnings.catch_warnings")):
                continue
            raise Unsupported("with statement")
        self.exec_body(st.body, env)

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)

    def truth(self, v):
        if isinstance(v, (bool, int, str, tuple, list, dict, set, frozenset)) or v is None:
            return bool(v)
        if isinstance(v, (SymBool, Poly, Fraction, float)):
            return bool(v)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(v.flat[0])
            raise PyRaise(ExcVal("ValueError", ("ambiguous truth value",)))
        if isinstance(v, LenArr):
            if v.kind == "list":
                return bool(v.length() != 0 if isinstance(v.length(), Poly) else v.length() != 0)
            raise Unsupported("truth value of a symbolic array")
        if isinstance(v, (Vec, Mat)):
            raise PyRaise(ExcVal("ValueError", ("ambiguous truth value",)))
        if isinstance(v, SymObj):
            m = v.cls.lookup("__bool__") if v.cls else None
            if isinstance(m, RepoFunc):
                return self.truth(self.call_func(m, [v], {}))
            m = v.cls.lookup("__len__") if v.cls else None
            if isinstance(m, RepoFunc):
                return self.truth(self.call_func(m, [v], {}) != 0)
            return True
        if isinstance(v, (RepoFunc, RepoClass, EnumMember, ModelFunc, BoundMethod)):
            return True
        if isinstance(v, Poison):
            raise PoisonUse(v.why)
        if type(v).__module__.split(".")[0] in NATIVE_MODULES:
            return bool(v)
        try:
            return bool(v)
        except Exception:
            raise Unsupported(f"truth value of {type(v).__name__}")

    def s_While(self, st, env):
        n = 0
        while True:
            if not self.truth(self.eval(st.test, env)):
                self.exec_body(st.orelse, env)
                return
            n += 1
            if n > 64:
                raise Unsupported("while loop without a bound")
            try:
                self.exec_body(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue

    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        seq = self.iterate(it)
        if isinstance(seq, LenArr):
            from .loops import summarize_for
            return summarize_for(self, st, env, seq)
        for v in seq:
            self.assign(st.target, v, env)
            try:
                self.exec_body(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_body(st.orelse, env)

    def iterate(self, it):
        """concrete python list/iterator, or a LenArr"""
        from . import npmodel
        if isinstance(it, LenArr):
            if it.guard is not None:
                return it
            n = sym.normal(sym.renorm(it.n))
            if is_num(n):
                return [it.at(P(i)) for i in range(int(n))]
            return it
        if isinstance(it, np.ndarray):
            if it.ndim == 1:
                return list(it)
            return [it[i] for i in range(it.shape[0])]
        if isinstance(it, MatT):
            return list(it.m.cols)
        if isinstance(it, (list, tuple, range, str)):
            # live iteration over lists, as python does
            return it
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, (set, frozenset)):
            return sorted(it, key=repr) if not all(isinstance(x, int) for x in it) else list(it)
        if isinstance(it, SymObj):
            m = it.m.get("__iter__")
            if m:
                return self.iterate(m(self, it))
            f = it.cls.lookup("__iter__") if it.cls else None
            if isinstance(f, RepoFunc):
                return self.iterate(self.call_func(f, [it], {}))
            f = it.cls.lookup("__getitem__") if it.cls else None
            if isinstance(f, RepoFunc):
                out = []
                for i in range(64):
                    try:
                        out.append(self.call_func(f, [it, i], {}))
                    except PyRaise as e:
                        if exc_name(e) == "IndexError":
                            return out
                        raise
        if isinstance(it, RepoClass) and it.is_enum:
            return list(it.enum_members.values())
        if hasattr(it, "__iter__") and type(it).__module__.split(".")[0] in NATIVE_MODULES | {"builtins", "itertools", "collections"}:
            return list(it)
        if isinstance(it, (Vec, Mat)):
            raise Unsupported("iteration over an abstract vector")
        if it is None or isinstance(it, (int, Fraction, Poly)):
            raise PyRaise(ExcVal("TypeError", ("not iterable",)))
        raise Unsupported(f"iteration over {type(it).__name__}")

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        from . import npmodel
        op = st.op
        t = st.target
        if isinstance(t, ast.Name):
            cur = env.get(t.id)
            env_set(env, t.id, self.inplace(op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            v = self.eval(st.value, env)
            if isinstance(cur, (Vec, Mat)) or isinstance(cur, (list,)):
                r = self.inplace(op, cur, v)
                if not (isinstance(cur, Vec) and r is cur):
                    self.setitem(o, k, r)
            else:
                self.setitem(o, k, self.binop(op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, Vec):
            r = self.binop(op, cur, v)
            if isinstance(r, Vec):
                cur.t = r.t
                return cur
            if isinstance(r, Poison):
                raise PoisonUse(r.why)
            raise Unsupported("in-place vector operation")
        if isinstance(cur, Mat):
            r = self.binop(op, cur, v)
            if isinstance(r, Mat):
                for a, b in zip(cur.cols, [x.copy() if isinstance(x, Vec) else x for x in r.cols]):
                    if not isinstance(b, Vec):
                        raise PoisonUse("undefined matrix")
                    a.t = b.t
                return cur
            raise Unsupported("in-place matrix operation")
        if isinstance(cur, np.ndarray):
            r = self.binop(op, cur, v)
            if isinstance(r, np.ndarray) and r.shape == cur.shape:
                if cur.dtype != object:
                    raise Unsupported("typed array")
                cur[...] = r
                return cur
            raise PyRaise(ExcVal("ValueError", ("non-broadcastable output",)))
        if isinstance(cur, LenArr) and cur.kind == "array":
            r = self.binop(op, cur, v)
            cur.set_from(r)
            return cur
        if isinstance(cur, list) and isinstance(op, ast.Add):
            cur.extend(list(self.iterate(v)))
            return cur
        if isinstance(cur, LenArr) and cur.kind == "list" and isinstance(op, ast.Add):
            raise Unsupported("list extension of symbolic length")
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env_set(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, LenArr):
                n = sym.normal(sym.renorm(v.n))
                if not is_num(n):
                    if len(t.elts) and ctx().prove_quick(P(v.n) == len(t.elts)):
                        vals = [v.at(P(i)) for i in range(len(t.elts))]
                    else:
                        raise Unsupported("unpacking a symbolic length sequence")
                else:
                    vals = [v.at(P(i)) for i in range(int(n))]
            elif isinstance(v, Vec):
                if v.dim.lo == len(t.elts):
                    raise Unsupported("unpacking an abstract vector")
                raise Unsupported("unpacking an abstract vector")
            else:
                vals = list(self.iterate(v))
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                k = len(t.elts) - 1
                if len(vals) < k:
                    raise PyRaise(ExcVal("ValueError", ("unpack",)))
                mid = len(vals) - k
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, list(vals[i:i + mid]), env)
                for e, x in zip(t.elts[i + 1:], vals[i + mid:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise PyRaise(ExcVal("ValueError", ("unpack",)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            # the source text of the literal, read as an exact decimal
            f = Fraction(repr(v))
            return f
        return v

    def e_Name(self, e, env):
        return env.get(e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_JoinedStr(self, e, env):
        return "<fstring>"

    def e_Tuple(self, e, env):
        return tuple(self.seq_elts(e.elts, env))

    def e_List(self, e, env):
        return self.seq_elts(e.elts, env)

    def seq_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(list(self.iterate(self.eval(x.value, env))))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Set(self, e, env):
        return set(self.seq_elts(e.elts, env))

    def e_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.eval(v, env))
            else:
                out[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return out

    def hashable(self, k):
        if isinstance(k, Poly):
            return int(k)
        if isinstance(k, np.ndarray):
            raise PyRaise(ExcVal("TypeError", ("unhashable",)))
        return k

    def e_Lambda(self, e, env):
        return RepoFunc(self, env.module, e, "<lambda>", None, closure=env)

    def e_IfExp(self, e, env):
        return self.eval(e.body, env) if self.truth(self.eval(e.test, env)) else self.eval(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env_set(env, e.target.id, v)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_Yield(self, e, env):
        env.get("__yield__").append(self.eval(e.value, env) if e.value else None)
        return None

    def e_YieldFrom(self, e, env):
        env.get("__yield__").extend(list(self.iterate(self.eval(e.value, env))))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (SymBool,)) else False
            if not isand and t:
                return v if not isinstance(v, (SymBool,)) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool):
                return b_not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, np.ndarray):
                return v * (-1)
            if isinstance(v, SymBool):
                return -v.as_poly()
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, (SymBool, bool)):
                return b_not(v)
            if isinstance(v, np.ndarray):
                return npmap(b_not, v)
            if isinstance(v, LenArr):
                return v.map(b_not)
            return ~v
        raise Unsupported("unary operator")

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%",
           ast.FloorDiv: "//", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
    DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow",
              ast.MatMult: "matmul", ast.Mod: "mod", ast.FloorDiv: "floordiv", ast.BitAnd: "and", ast.BitOr: "or"}

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        from . import npmodel
        if isinstance(a, SymObj) or isinstance(b, SymObj):
            dn = self.DUNDER.get(type(op))
            if isinstance(a, SymObj) and a.cls:
                m = a.cls.lookup(f"__{dn}__")
                if isinstance(m, RepoFunc):
                    return self.call_func(m, [a, b], {})
            if isinstance(b, SymObj) and b.cls:
                m = b.cls.lookup(f"__r{dn}__")
                if isinstance(m, RepoFunc):
                    return self.call_func(m, [b, a], {})
            raise Unsupported("operator on object")
        return npmodel.binop(self, self.OPS.get(type(op)), a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, (SymBool, bool)) and isinstance(v, (SymBool, bool)):
                    res = b_and(res, v)
                else:
                    raise Unsupported("chained array comparison")
            if len(e.ops) > 1 and res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            if isinstance(a, (SymBool, Poly)) or isinstance(b, (SymBool, Poly)):
                if a is None or b is None:
                    r = False
                else:
                    raise Unsupported("identity of symbolic values")
            else:
                r = (a is b) or (isinstance(a, EnumMember) and a is b)
                if isinstance(a, (bool, int, str)) and type(a) is type(b):
                    r = a == b
            return r if t is ast.Is else not r
        if t is ast.In or t is ast.NotIn:
            r = self.contains(b, a)
            return r if t is ast.In else b_not(r)
        s = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[t]
        if isinstance(a, SymObj) or isinstance(b, SymObj):
            if s in ("==", "!=") :
                m = a.cls.lookup("__eq__") if isinstance(a, SymObj) and a.cls else None
                if isinstance(m, RepoFunc):
                    r = self.call_func(m, [a, b], {})
                    return r if s == "==" else b_not(r)
                if isinstance(a, SymObj) and isinstance(b, SymObj) and a.cls is b.cls and a.cls and a.cls.eq_fields:
                    r = a is b or self.equal_fields(a, b)
                    return r if s == "==" else not r
                return (a is b) if s == "==" else (a is not b)
            raise Unsupported("object comparison")
        return npmodel.compare(self, s, a, b)

    def equal_fields(self, a, b):
        """generated equality of dataclasses: field by field (an identical field counts as equal)"""
        self.depth += 1
        try:
            if self.depth > 60:
                raise PyRaise(ExcVal("RecursionError", ("comparison of linked dataclasses",)))
            for n, _ in a.cls.fields:
                x, y = a.f.get(n), b.f.get(n)
                if not (x is y or self.truth(self.compare(ast.Eq(), x, y))):
                    return False
            return True
        finally:
            self.depth -= 1

    def contains(self, c, x):
        if isinstance(c, SymObj):
            m = c.cls.lookup("__contains__")
            if isinstance(m, RepoFunc):
                return self.call_func(m, [c, x], {})
            raise Unsupported("membership test")
        if isinstance(c, (dict,)):
            return self.hashable(x) in c
        if isinstance(c, str):
            return x in c
        if isinstance(c, LenArr):
            return vec.lany(c.map(lambda v: self.compare(ast.Eq(), v, x)))
        if type(c).__module__.split(".")[0] in NATIVE_MODULES:
            return x in c
        out = False
        for v in self.iterate(c):
            if v is x:
                return True
            if isinstance(v, tuple) and isinstance(x, tuple):
                eq = v == x
            elif isinstance(v, (str, tuple, type(None))) or isinstance(x, (str, tuple, type(None))):
                eq = v == x
            else:
                eq = self.compare(ast.Eq(), v, x)
            if isinstance(eq, (SymBool, bool)):
                out = b_or(out, eq)
            else:
                raise PyRaise(ExcVal("ValueError", ("ambiguous",)))
        return out

    def e_Call(self, e, env):
        fe = e.func
        if isinstance(fe, ast.Name):
            if fe.id in NOOP_CALLS and fe.id not in env.vars:
                return None
            if fe.id == "super":
                if e.args:
                    return SuperProxy(self.eval(e.args[0], env), self.eval(e.args[1], env))
                cls = env.get("__class__")
                fn = env
                first = next(iter(env.vars.values()))
                return SuperProxy(cls, first)
            if fe.id == "locals":
                raise Unsupported("locals()")
        if isinstance(fe, ast.Attribute):
            txt = ast.unparse(fe)
            if txt.startswith(("warnings.warn", "logging.", "logger.", "warnings.")):
                return None
        f = self.eval(fe, env)
        args = self.seq_elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, env))
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, (ExtRef, type)) or (isinstance(o, RepoClass) and not o.is_enum):
            return o
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Slice(self, e, env):
        return self.eval_index(e, env)

    def getitem(self, o, k):
        from . import npmodel
        if isinstance(o, SymObj):
            m = o.m.get("__getitem__")
            if m:
                return m(self, o, k)
            f = o.cls.lookup("__getitem__") if o.cls else None
            if isinstance(f, RepoFunc):
                return self.call_func(f, [o, k], {})
            raise Unsupported("subscript of object")
        if isinstance(o, RepoClass) and o.is_enum:
            return o.enum_members[k]
        return npmodel.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import npmodel
        if isinstance(o, SymObj):
            f = o.cls.lookup("__setitem__") if o.cls else None
            if isinstance(f, RepoFunc):
                return self.call_func(f, [o, k, v], {})
            raise Unsupported("subscript assignment of object")
        return npmodel.setitem(self, o, k, v)

    # comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda en: self.eval(e.elt, en))

    def e_SetComp(self, e, env):
        r = self.comp(e, env, lambda en: self.eval(e.elt, en))
        return set(self.hashable(x) for x in r)

    def e_DictComp(self, e, env):
        r = self.comp(e, env, lambda en: (self.hashable(self.eval(e.key, en)), self.eval(e.value, en)))
        return dict(r)

    def comp(self, e, env, fn):
        cenv = Env(env, env.module)
        out = []

        def rec(i):
            if i == len(e.generators):
                out.append(fn(cenv))
                return
            g = e.generators[i]
            seq = self.iterate(self.eval(g.iter, cenv))
            if isinstance(seq, LenArr):
                if len(e.generators) == 1:
                    raise _SymComp(seq, g)
                raise Unsupported("nested comprehension over symbolic length")
            for v in seq:
                self.assign(g.target, v, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    rec(i + 1)
        try:
            rec(0)
        except _SymComp as s:
            from .loops import symbolic_comp
            return symbolic_comp(self, s.seq, s.gen, cenv, fn)
        return out


class _SymComp(Exception):
    def __init__(self, seq, gen):
        self.seq, self.gen = seq, gen


class LoopVar:
    pass


class PyClosure:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, I, args, kwargs):
        return self.fn(I, *args, **kwargs)


def env_set(env, n, v):
    if n in env.globals_:
        e = env.parent
        while e is not None:
            if n in e.vars:
                e.vars[n] = v
                return
            e = e.parent
    env.set(n, v)


def exc_name(e):
    x = e.exc
    return x.name if isinstance(x, ExcVal) else x[0]


def npmap(f, *arrs):
    arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs])
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(arrs[0].shape):
        out[i] = f(*[a[i] for a in arrs])
    return out
