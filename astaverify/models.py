""" Models of builtins and of the libraries the package uses. """
import ast
import abc
import builtins
import collections
import collections.abc
import contextlib
import copy
import dataclasses
import functools
import importlib
import inspect
import itertools
import operator
import types
import typing
import warnings

from .values import (
    ELL, FALSE, NONE, TRUE, ADict, AList, ASet, Bound, Cls, Exc, Ext, Fn, Gen,
    Inst, K, Mod, Native, Obj, Opaque, Scope, Spread, SuperV, Sym, Tup, Val, Wrap,
    kbool,
)
from .ops import EXT_ALIASES, EXT_BASES, ADictView, raise_un, TYPING_GENERIC

PURE_MODULES = {
    "typing", "types", "inspect", "collections", "collections.abc", "abc", "functools",
    "itertools", "operator", "datetime", "enum", "dataclasses", "contextlib", "copy",
    "numbers", "string", "textwrap", "re", "math", "builtins", "__future__", "warnings",
    "typing_extensions", "fractions", "decimal", "keyword", "weakref", "traceback",
}

# Functions of external libraries without effects: equal arguments, equal results.
PURE_EXT = (
    "numpy.dtype", "sympy.", "os.path.", "torch.Size", "tensorflow.TensorShape",
    "numpy.result_type", "numpy.shape", "numpy.ndim", "numpy.array_equal",
)

BOOL_EXT = {"os.path.isfile", "os.path.exists", "os.path.isdir", "os.path.isabs"}
STR_EXT = {"os.path.abspath", "os.path.join", "os.path.dirname", "os.path.realpath",
           "os.path.expanduser", "os.getcwd", "os.path.basename", "os.path.normpath"}

IMPURE_NAMES = {"io", "random", "time", "uuid"}


def library(name):
    """ The value of an imported library module. """
    if name in PURE_MODULES:
        return K(importlib.import_module(name))
    if name in ("io",):
        return K(importlib.import_module(name))
    return Ext(EXT_ALIASES.get(name, name))


class Stop(Exception):
    """ Ends the consumption of a generator. """


BUILTIN = {}


def builtin(*objs):
    def deco(fn):
        for o in objs:
            BUILTIN[o] = fn
        return fn
    return deco


def want(args, i, kwargs=None, name=None, default=None):
    if len(args) > i:
        return args[i]
    if kwargs and name in kwargs:
        return kwargs[name]
    return default


class ModelsMixin:
    """ Builtin functions, methods, and libraries. """

    def module_attr(self, v, name):
        mod = v.v
        if mod is importlib.import_module("io") and name == "open":
            return Ext("io.open")
        try:
            obj = getattr(mod, name)
        except AttributeError:
            full = f"{mod.__name__}.{name}"
            if full in PURE_MODULES:
                return K(importlib.import_module(full))
            return self._ABSENT
        return K(obj)

    def ext_attr(self, v, name):
        if v.path in EXT_BASES:
            if name in ("__name__", "__qualname__"):
                return K(v.path.rsplit(".", 1)[1])
            if name == "__module__":
                return K(v.path.rsplit(".", 1)[0])
            if name == "__class__":
                return K(type)
            if name in ("__args__", "__origin__", "_fields", "__annotations__", "_is_protocol", "_is_runtime_protocol",
                        "__extra__", "kind", "__union_params__", "__result__"):
                return self._ABSENT
        path = f"{v.path}.{name}"
        path = EXT_ALIASES.get(path, path)
        hook = self.engine.ext_attrs.get(path)
        if hook is not None:
            return hook
        if v.path == "sys" and name == "modules":
            return Ext("sys.modules")
        return Ext(path)

    def ext_inst_attr(self, v, name):
        cls = v.cls
        if cls == Ext("inspect.Signature"):
            if name == "bind":
                return Native("bind", lambda it, a, k, n: it.sig_bind(v, a, k))
            if name == "bind_partial":
                return Native("bind_partial", lambda it, a, k, n: it.sig_bind(v, a, k))
            if name == "empty":
                return K(inspect.Signature.empty)
        if cls == Ext("inspect.Parameter"):
            if hasattr(inspect.Parameter, name):
                return K(getattr(inspect.Parameter, name))
        if cls == Ext("inspect.BoundArguments"):
            if name == "apply_defaults":
                return Native(name, lambda it, a, k, n: it.apply_defaults(v))
            if name in ("args", "kwargs"):
                return self.bound_parts(v, name)
        if cls == Ext("typing._GenericAlias"):
            if name == "copy_with":
                return Native(name, lambda it, a, k, n: it.alias(
                    v.attrs["base"], v.attrs["__origin__"], a[0]))
            if name in ("__module__",):
                return K("typing")
            if name.startswith("__") or name == "_fields":
                return self._ABSENT
            return self._ABSENT
        if cls == Ext("iterator") and name == "__next__":
            return Native(name, lambda it, a, k, n: it.b_next([v], {}, n))
        if cls == Ext("iterator") and name == "__iter__":
            return Native(name, lambda it, a, k, n: v)
        if isinstance(cls, Ext) and cls.path in ("types.UnionType",):
            return self._ABSENT
        if cls == Ext("functools.partial"):
            if name == "func":
                return v.attrs["func"]
        return self._ABSENT

    # -- calls of constants ---------------------------------------------------

    def call_const(self, func, args, kwargs, node):
        f = func.v
        try:
            model = BUILTIN.get(f)
        except TypeError:
            model = None
        if model is not None:
            return model(self, args, kwargs, node)
        if isinstance(f, type) and issubclass(f, BaseException):
            return self.alloc(Exc(func, args), node)
        if isinstance(f, (types.BuiltinMethodType, types.MethodType)) and \
                getattr(f, "__self__", None) is not None and not isinstance(f.__self__, types.ModuleType):
            if isinstance(f.__self__, (dict, list, set)):
                raw = [self.unlift(a) for a in args]
                if None not in raw:
                    try:
                        return self.lift(f(*[r[0] for r in raw]))
                    except Exception as err:  # pylint: disable=broad-except
                        self.raise_(type(err).__name__, K(str(err)))
        if isinstance(f, types.MethodDescriptorType) or isinstance(f, types.WrapperDescriptorType):
            if args:
                if f.__name__ == "__new__":
                    return self.alloc(Inst(args[0]), node)
                return self.call_builtin_method(args[0], f.__name__, args[1:], kwargs, node)
        if f is object.__new__ or getattr(f, "__name__", "") == "__new__":
            return self.alloc(Inst(args[0]), node)
        raw = [self.unlift(a) for a in args]
        rawkw = {k: self.unlift(v) for k, v in kwargs.items() if k != "**"}
        module = getattr(f, "__module__", None)
        if None not in raw and None not in rawkw.values() and "**" not in kwargs and (
                module in PURE_MODULES or module in ("_operator", "_functools", None, "builtins",
                                                     "math", "itertools")):
            if f in (builtins.open, builtins.input, builtins.exec, builtins.eval,
                     builtins.compile, builtins.__import__):
                raise_un(f"call of {f!r}")
            try:
                return self.lift(f(*[r[0] for r in raw], **{k: r[0] for k, r in rawkw.items()}))
            except Exception as err:  # pylint: disable=broad-except
                if isinstance(err, (TypeError, ValueError, KeyError, AttributeError, IndexError,
                                    ArithmeticError, StopIteration)):
                    self.raise_(type(err).__name__, K(str(err)))
                raise_un(f"call of {f!r}: {err}")
        if f is builtins.open:
            return self.call_ext(Ext("open"), args, kwargs, node)
        if isinstance(f, (typing.TypeVar,)) or f is typing.TypeVar:
            return K(typing.TypeVar("T"))
        if isinstance(f, TYPING_GENERIC):
            return self.call(K(f.__origin__), args, kwargs, node)
        if isinstance(f, type) and f.__module__ in ("datetime",):
            return Sym("call", func, *[self.freeze(a) for a in args])
        raise_un(f"call of {func!r} with {args!r}")

    def is_pure(self, path):
        return any(path == p or (p.endswith(".") and path.startswith(p)) for p in PURE_EXT)

    def call_ext(self, func, args, kwargs, node):
        path = func.path
        model = self.engine.ext_models.get(path) or EXT_MODELS.get(path)
        if model is not None:
            res = model(self, args, kwargs, node)
            if res is not NotImplemented:
                return res
        if path in EXT_BASES and path.startswith("sympy"):
            path = path
        kind = None
        if path in BOOL_EXT:
            kind = "bool"
        elif path in STR_EXT:
            kind = "str"
        elif path.startswith("sympy.") and not path.endswith("solve"):
            kind = "expr"
        frozen = self.frozen_call(args, kwargs)
        ev = self.event("call", name=path, func=func, args=tuple(args), kwargs=dict(kwargs),
                        frozen=frozen)
        self.maybe_raise(path)
        if self.is_pure(path):
            parts = list(frozen[0]) + [Tup([K(k), v]) for k, v in frozen[1]]
            ret = Sym("call", func, *parts, kind=kind)
        else:
            ret = Sym("ret", func, K(self.fresh(("ret", path))), kind=kind)
        ev.data["ret"] = ret
        return ret

    # -- builtin functions ------------------------------------------------------

    @builtin(isinstance)
    def b_isinstance(self, args, kwargs, node):
        return self.isinstance(args[0], args[1], node)

    @builtin(issubclass)
    def b_issubclass(self, args, kwargs, node):
        a, b = args
        if isinstance(b, K) and isinstance(b.v, types.UnionType):
            b = Tup([K(x) for x in b.v.__args__])
        if isinstance(a, (Cls,)) or isinstance(a, K) and isinstance(a.v, type) or \
                isinstance(a, Ext) or isinstance(a, Opaque) and a.isclass:
            targets = b.items if isinstance(b, Tup) else [b]
            preds = []
            for t in targets:
                raw = self.class_of_alias(t)
                if isinstance(raw, K) and not isinstance(raw.v, type):
                    self.raise_("TypeError", K("issubclass() arg 2 must be a class"))
                if isinstance(a, Opaque) and a.subclasses is not None and raw in a.subclasses:
                    preds.append(kbool(a.subclasses[raw]))
                    continue
                res = self.protocol_check(t, a, True) if self.is_protocol(t) else self.issub(a, t)
                if res:
                    preds.append(TRUE)
                    if len(preds) == 1:
                        return TRUE
                    break
                if res is None:
                    preds.append(Sym("issubclass", self.freeze(a), self.freeze(raw), kind="bool"))
            return self.or_(preds)
        if isinstance(a, (Sym, Opaque)):
            pt = self.pytype(a)
            if pt is not None and not (isinstance(pt, K) and pt.v is type) and a.op != "typeof" \
                    if isinstance(a, Sym) else (a.isclass is False):
                self.raise_("TypeError", K("issubclass() arg 1 must be a class"))
            targets = b.items if isinstance(b, Tup) else [b]
            return self.or_([
                Sym("issubclass", a, self.class_of_alias(t), kind="bool") for t in targets])
        self.raise_("TypeError", K("issubclass() arg 1 must be a class"))

    @builtin(callable)
    def b_callable(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, (Fn, Bound, Native, Cls, Ext)):
            return TRUE
        if isinstance(v, K):
            return kbool(callable(v.v))
        if isinstance(v, Inst):
            return kbool(isinstance(v.cls, Cls) and self.find_attr(v.cls, "__call__") is not None)
        if isinstance(v, Opaque) and v.callable is not None:
            return kbool(v.callable)
        if isinstance(v, (Opaque, Sym)):
            pt = self.pytype(v)
            if isinstance(pt, K) and pt.v in (int, str, tuple, list, dict, set, float):
                return FALSE
            return Sym("callable", v, kind="bool")
        return FALSE

    @builtin(len)
    def b_len(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, ADictView):
            return self.length(v.d)
        pt = self.pytype(v)
        if isinstance(v, (Opaque, Sym)) and isinstance(pt, K) and isinstance(pt.v, type) \
                and not hasattr(pt.v, "__len__"):
            self.raise_("TypeError", K("object has no len()"))
        return self.length(v)

    @builtin(getattr)
    def b_getattr(self, args, kwargs, node):
        obj, name = args[0], args[1]
        default = args[2] if len(args) > 2 else None
        if not isinstance(name, K):
            has = Sym("hasattr", self.freeze(obj), self.freeze(name), kind="bool")
            if isinstance(obj, Inst) and isinstance(obj.cls, Cls):
                getter = self.find_attr(obj.cls, "__getattr__")
                if getter is not None:
                    return self.call(getter, [obj, name], {}, node)
            if default is not None:
                if not self.test(has):
                    return default
            elif self.handlers:
                if not self.test(has):
                    self.raise_("AttributeError", name)
            return Sym("attr", self.freeze(obj), self.freeze(name))
        if isinstance(obj, (Opaque, Sym)) and self.opaque_attr(obj, name.v) is None:
            if default is not None or self.handlers:
                if not self.test(Sym("hasattr", obj, name, kind="bool")):
                    if default is None:
                        self.raise_("AttributeError", name)
                    return default
        if default is not None:
            # An AttributeError raised by a property or __getattr__ counts too.
            try:
                return self.getattr(obj, name.v, default)
            except self.AbsRaiseT as err:
                if self.exc_matches(err.exc, K(AttributeError)):
                    return default
                raise
        return self.getattr(obj, name.v)

    @builtin(hasattr)
    def b_hasattr(self, args, kwargs, node):
        obj, name = args
        if not isinstance(name, K):
            return Sym("hasattr", self.freeze(obj), self.freeze(name), kind="bool")
        return self.hasattr(obj, name.v)

    @builtin(type.__setattr__, object.__setattr__)
    def b_raw_setattr(self, args, kwargs, node):
        self.raw_set(args[0], args[1].v, args[2])
        return NONE

    @builtin(setattr)
    def b_setattr(self, args, kwargs, node):
        obj, name, value = args
        if isinstance(name, K):
            self.setattr(obj, name.v, value)
        else:
            self.event("write", target=obj, attr=name, value=self.freeze(value), what="dynamic")
        return NONE

    @builtin(delattr)
    def b_delattr(self, args, kwargs, node):
        self.delattr(args[0], args[1].v)
        return NONE

    @builtin(print)
    def b_print(self, args, kwargs, node):
        self.event("print", args=tuple(self.to_str(a) for a in args), kwargs=dict(kwargs))
        return NONE

    @builtin(type)
    def b_type(self, args, kwargs, node):
        if len(args) == 3:
            name, bases, ns = args
            attrs = {}
            for e in self.dict_entries(ns):
                if isinstance(e, Spread):
                    raise_un("type() with an unknown namespace")
                attrs[e[0].v] = e[1]
            module = attrs.get("__module__", K(self.pos[0]))
            qual = attrs.get("__qualname__", name)
            return self.build_class(
                name.v if isinstance(name, K) else "?", list(self.elements(bases)), attrs, None,
                module.v if isinstance(module, K) else "?",
                qual.v if isinstance(qual, K) else "?", node)
        pt = self.pytype(args[0])
        return pt if pt is not None else Sym("typeof", self.freeze(args[0]), kind="class")

    @builtin(repr, ascii)
    def b_repr(self, args, kwargs, node):
        return self.to_repr(args[0])

    @builtin(str)
    def b_str(self, args, kwargs, node):
        if not args:
            return K("")
        return self.to_str(args[0])

    @builtin(format)
    def b_format(self, args, kwargs, node):
        return self.to_str(args[0])

    @builtin(hash)
    def b_hash(self, args, kwargs, node):
        v = args[0]
        self.check_hashable(v)
        if isinstance(v, (Inst, Cls)):
            res = self.user_dunder(v, "__hash__")
            if res is not None:
                return res
            return Sym("identity_hash", v, kind="int")
        return Sym("hash", self.freeze(v), kind="int")

    @builtin(id)
    def b_id(self, args, kwargs, node):
        return Sym("id", self.freeze(args[0]) if not isinstance(args[0], Obj) else args[0], kind="int")

    @builtin(bool)
    def b_bool(self, args, kwargs, node):
        if not args:
            return FALSE
        known = self.known_truth(args[0])
        if known is not None:
            return kbool(known)
        if isinstance(args[0], Sym) and args[0].kind == "bool":
            return args[0]
        return kbool(self.truth(args[0]))

    @builtin(operator.truth)
    def b_truth(self, args, kwargs, node):
        return self.b_bool(args, kwargs, node)

    @builtin(operator.not_)
    def b_not(self, args, kwargs, node):
        return self.not_(args[0])

    @builtin(int)
    def b_int(self, args, kwargs, node):
        if not args:
            return K(0)
        v = args[0]
        if isinstance(v, K):
            try:
                return K(int(v.v))
            except (TypeError, ValueError) as err:
                self.raise_(type(err).__name__, K(str(err)))
        if self.is_int(v):
            return v
        if isinstance(v, Opaque) and "__int__" in v.attrs:
            return v.attrs["__int__"]
        self.maybe_raise("int()")
        return Sym("int", self.freeze(v), kind="int")

    @builtin(float, complex)
    def b_float(self, args, kwargs, node):
        if not args:
            return K(0.0)
        if isinstance(args[0], K):
            try:
                return K(float(args[0].v))
            except (TypeError, ValueError) as err:
                self.raise_(type(err).__name__, K(str(err)))
        return Sym("float", self.freeze(args[0]), kind="float")

    @builtin(abs)
    def b_abs(self, args, kwargs, node):
        if isinstance(args[0], K):
            return K(abs(args[0].v))
        return Sym("abs", self.freeze(args[0]), kind="int" if self.is_int(args[0]) else None)

    @builtin(divmod)
    def b_divmod(self, args, kwargs, node):
        return Tup([self.binop("floordiv", *args), self.binop("mod", *args)])

    @builtin(round)
    def b_round(self, args, kwargs, node):
        if all(isinstance(a, K) for a in args):
            return K(round(*[a.v for a in args]))
        return Sym("round", *[self.freeze(a) for a in args])

    @builtin(tuple)
    def b_tuple(self, args, kwargs, node):
        if not args:
            return Tup(())
        v = args[0]
        if isinstance(v, Tup):
            return v
        if isinstance(v, (Sym, Opaque)) and self.pytype(v) == K(tuple):
            return v
        hook = getattr(v, "attrs", {}).get("__as_tuple__") if isinstance(v, Opaque) else None
        if hook is not None:
            return hook
        return Tup(self.spread(v, node))

    @builtin(list)
    def b_list(self, args, kwargs, node):
        if not args:
            return self.alloc(AList(()), node)
        return self.alloc(AList(self.spread(args[0], node)), node)

    @builtin(set)
    def b_set(self, args, kwargs, node):
        if not args:
            return self.make_set((), node)
        return self.make_set(self.spread(args[0], node), node)

    @builtin(frozenset)
    def b_frozenset(self, args, kwargs, node):
        if not args:
            return self.make_set((), node, frozen=True)
        return self.make_set(self.spread(args[0], node), node, frozen=True)

    @builtin(dict, collections.OrderedDict)
    def b_dict(self, args, kwargs, node):
        d = self.alloc(ADict(()), node)
        d.birth = Obj.serial
        if args:
            self.dict_update(d, args[0])
        for k, v in kwargs.items():
            if k == "**":
                for part in v.items:
                    self.setcontent(d, d.content + (part,))
            else:
                self.dict_set(d, K(k), v)
        return d

    @builtin(object)
    def b_object(self, args, kwargs, node):
        return self.alloc(Inst(K(object)), node)

    @builtin(collections.defaultdict)
    def b_defaultdict(self, args, kwargs, node):
        d = self.b_dict(args[1:], kwargs, node)
        d.default_factory = args[0] if args else NONE
        raise_un("defaultdict")

    @builtin(iter)
    def b_iter(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, (Gen,)):
            return v
        if isinstance(v, Inst) and v.cls == Ext("iterator"):
            return v
        parts = AList(self.elements(v, node))
        return self.alloc(Inst(Ext("iterator"), {"entries": parts}), node)

    @builtin(next)
    def b_next(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Gen):
            if getattr(v, "consumed", False):
                raise_un("a generator consumed step by step")
            v.consumed = True
            got = []

            def on_yield(x):
                got.append(x)
                raise Stop()

            try:
                v.run(on_yield)
            except Stop:
                return got[0]
            if len(args) > 1:
                return args[1]
            self.raise_("StopIteration")
        if isinstance(v, Inst) and v.cls == Ext("iterator"):
            parts = v.attrs["entries"].content
            if not parts:
                if len(args) > 1:
                    return args[1]
                self.raise_("StopIteration")
            if isinstance(parts[0], Spread):
                base, make = self.element_maker(parts[0].term)
                if not self.test(self.nonempty_pred(base)):
                    self.setcontent(v.attrs["entries"], parts[1:])
                    return self.b_next(args, kwargs, node)
                raise_un("next() on an unknown iterator")
            self.setcontent(v.attrs["entries"], parts[1:])
            return parts[0]
        if isinstance(v, Inst) and isinstance(v.cls, Cls):
            return self.call_method(v, "__next__", [])
        if isinstance(v, (Opaque, Sym)):
            return self.call_opaque(Sym("attr", v, "__next__"), [], {}, node)
        self.raise_("TypeError", K("not an iterator"))

    def consume(self, v, fn, node=None):
        """ Call ``fn`` for each element; ``Stop`` ends it early (True). """
        def body(x):
            fn(x)
            return NONE

        try:
            self.iterate(v, body, node or _NODE)
        except Stop:
            return True
        return False

    @builtin(any)
    def b_any(self, args, kwargs, node):
        def check(x):
            if self.truth(x):
                raise Stop()
        return kbool(self.consume(args[0], check, node))

    @builtin(all)
    def b_all(self, args, kwargs, node):
        def check(x):
            if not self.truth(x):
                raise Stop()
        return kbool(not self.consume(args[0], check, node))

    @builtin(sum)
    def b_sum(self, args, kwargs, node):
        total = want(args, 1, kwargs, "start", K(0))
        parts = self.spread(args[0], node)
        for p in parts:
            if isinstance(p, Spread):
                kind = self.kind(total) if isinstance(total, (Tup, AList)) else "int"
                if isinstance(total, Tup):
                    total = Tup(total.items + (Spread(Sym("flat", p.term, kind="tuple")),))
                else:
                    total = self.binop("add", total, Sym("sum", p.term, kind=kind))
            else:
                total = self.binop("add", total, p)
        return total

    def extremum(self, args, kwargs, node, op, name):
        vals = args if len(args) > 1 else self.spread(args[0], node)
        vals = list(vals)
        key = kwargs.get("key")
        if key is not None or any(isinstance(v, Spread) for v in vals):
            return Sym(name, *[self.freeze(v) for v in vals], kind="int")
        if not vals:
            if "default" in kwargs:
                return kwargs["default"]
            self.raise_("ValueError", K("empty sequence"))
        best = vals[0]
        for v in vals[1:]:
            if self.truth(self.compare_order(op, v, best)):
                best = v
        return best

    @builtin(max)
    def b_max(self, args, kwargs, node):
        return self.extremum(args, kwargs, node, "Gt", "max")

    @builtin(min)
    def b_min(self, args, kwargs, node):
        return self.extremum(args, kwargs, node, "Lt", "min")

    @builtin(sorted)
    def b_sorted(self, args, kwargs, node):
        parts = list(self.spread(args[0], node))
        raw = [self.unlift(p) if not isinstance(p, Spread) else None for p in parts]
        if None not in raw and "key" not in kwargs:
            try:
                rev = kwargs.get("reverse", FALSE).v
                return self.alloc(AList([self.lift(x) for x in sorted((r[0] for r in raw), reverse=rev)]), node)
            except TypeError as err:
                self.raise_("TypeError", K(str(err)))
        return self.alloc(AList(self.sort_parts(args[0], parts, kwargs)), node)

    def sort_parts(self, source, parts, kwargs):
        """ The elements in the order of an unknown or computed key. """
        if any(isinstance(p, Spread) for p in parts):
            return [Spread(Sym("sorted", p.term)) if isinstance(p, Spread) else p for p in parts]
        rev = kwargs.get("reverse", FALSE)
        key = kwargs.get("key", NONE)
        if isinstance(rev, K):
            raw = [self.unlift(self.call(key, [p], {}, None) if key != NONE else p)
                   for p in parts]
            if None not in raw:
                try:
                    order = sorted(range(len(parts)), key=lambda i: raw[i][0], reverse=rev.v)
                except TypeError as err:
                    self.raise_("TypeError", K(str(err)))
                return [parts[i] for i in order]
        if isinstance(source, ASet) or len(parts) < 2:
            return parts
        # An order which depends on unknown keys.
        if len(parts) <= 3 and not self.setup_mode:
            orders = list(itertools.permutations(parts))
            return list(orders[self.choose(len(orders), "sorted order")])
        if self.setup_mode:
            return parts
        return [parts, parts[::-1]][self.choose(2, "sorted order")]

    @builtin(reversed)
    def b_reversed(self, args, kwargs, node):
        parts = self.spread(args[0], node)
        out = [Spread(Sym("reversed", p.term)) if isinstance(p, Spread) else p
               for p in reversed(parts)]
        return AList(out)

    @builtin(range)
    def b_range(self, args, kwargs, node):
        if all(isinstance(a, K) for a in args):
            try:
                return K(range(*[a.v for a in args]))
            except TypeError as err:
                self.raise_("TypeError", K(str(err)))
        if len(args) == 1:
            args = [K(0), args[0]]
        if len(args) == 2:
            args = list(args) + [K(1)]
        return Sym("range", *[self.freeze(a) for a in args])

    @builtin(enumerate)
    def b_enumerate(self, args, kwargs, node):
        start = want(args, 1, kwargs, "start", K(0))
        src = args[0]
        if isinstance(src, Gen):
            def run(on_yield):
                count = [start]

                def emit(x):
                    i = count[0]
                    count[0] = self.lin_add(i, K(1))
                    return on_yield(Tup([i, x]))
                src.run(emit)
                return NONE
            return Gen(run, "enumerate")
        parts = self.elements(src, node)
        out = []
        pos = start
        for p in parts:
            if isinstance(p, Spread):
                out.append(Spread(Sym("enumerate", p.term, pos)))
                pos = self.lin_add(pos, self.length(p.term))
            else:
                out.append(Tup([pos, p]))
                pos = self.lin_add(pos, K(1))
        return AList(out)

    @builtin(zip)
    def b_zip(self, args, kwargs, node):
        if not args:
            return AList(())
        lists = [list(self.spread(a, node)) for a in args]
        endless = {}
        for i, parts in enumerate(lists):
            if len(parts) == 1 and isinstance(parts[0], Spread) and \
                    isinstance(parts[0].term, Sym) and parts[0].term.op in ("forever", "countof"):
                endless[i] = parts[0].term
        if endless:
            if len(endless) == len(lists):
                raise_un("zip of endless sequences")
            rest = self.b_zip([AList(p) for i, p in enumerate(lists) if i not in endless], {}, node)
            out = []
            pos = K(0)
            for part in rest.content:
                spread = isinstance(part, Spread)
                if spread:
                    items = list(part.term.args)
                    now = {i: t if t.op == "forever" else
                           Sym("countof", self.lin_add(t.args[0], pos))
                           for i, t in endless.items()}
                else:
                    items = list(part.items)
                    now = {i: t.args[0] if t.op == "forever" else self.lin_add(t.args[0], pos)
                           for i, t in endless.items()}
                for i in sorted(now):
                    items.insert(i, now[i])
                out.append(Spread(Sym("zip", *items)) if spread else Tup(items))
                step = self.length(part.term.args[0]) if spread else K(1)
                pos = self.lin_add(pos, step)
            return AList(out)
        out = []
        while all(lists):
            heads = [p[0] for p in lists]
            spreads = [isinstance(h, Spread) for h in heads]
            if not any(spreads):
                out.append(Tup(heads))
                for p in lists:
                    p.pop(0)
                continue
            if all(spreads):
                out.append(Spread(Sym("zip", *[h.term for h in heads])))
                if all(len(p) == 1 for p in lists):
                    break
                raise_un("zip of unknown sequences")
            # One unknown sequence against exact ones.
            for p, is_spread in zip(lists, spreads):
                if is_spread:
                    term = p[0].term
                    if isinstance(term, Sym) and term.op in ("enumerate", "zip", "items"):
                        raise_un("zip of unknown sequences")
                    done = getattr(term, "_", None)
                    del done
                    if not self.test(self.nonempty_pred(term)):
                        p.pop(0)
                        break
                    first = self.sym_item(term, K(0))
                    rest = Sym("slice", term, K(1), NONE, NONE, kind=self.kind(term))
                    self.facts_len(rest, term)
                    p[0:1] = [first, Spread(rest)]
                    break
        return AList(out)

    def facts_len(self, rest, term):
        """ ``len(rest) = len(term) - 1``. """
        lo, hi = self.int_bounds(self.length(term))
        self.bounds[Sym("len", rest, kind="int")] = (
            max(lo - 1, 0) if lo is not None else 0, None if hi is None else hi - 1)

    @builtin(map)
    def b_map(self, args, kwargs, node):
        func, srcs = args[0], args[1:]

        def run(on_yield):
            src = srcs[0] if len(srcs) == 1 else self.b_zip(list(srcs), {}, node)
            self.iterate(src, lambda x: on_yield(self.call(
                func, [x] if len(srcs) == 1 else list(self.spread(x)), {}, node)), node or _NODE)
            return NONE

        return Gen(run, "map")

    @builtin(filter, itertools.filterfalse)
    def b_filter(self, args, kwargs, node):
        func, src = args

        def run(on_yield):
            def body(x):
                keep = self.truth(x if func == NONE else self.call(func, [x], {}, node))
                if keep:
                    on_yield(x)
            self.iterate(src, body, node or _NODE)
            return NONE

        return Gen(run, "filter")

    @builtin(itertools.chain)
    def b_chain(self, args, kwargs, node):
        out = []
        for a in args:
            out.extend(self.spread(a, node))
        return AList(out)

    @builtin(itertools.chain.from_iterable)
    def b_chain_from(self, args, kwargs, node):
        out = []
        for a in self.spread(args[0], node):
            if isinstance(a, Spread):
                out.append(Spread(Sym("flat", a.term)))
            else:
                out.extend(self.spread(a, node))
        return AList(out)

    @builtin(itertools.count)
    def b_count(self, args, kwargs, node):
        if len(args) > 1 or "step" in kwargs:
            raise_un("itertools.count with a step")
        return AList([Spread(Sym("countof", want(args, 0, kwargs, "start", K(0))))])

    @builtin(itertools.repeat)
    def b_repeat(self, args, kwargs, node):
        n = want(args, 1, kwargs, "times")
        if n is None:
            return AList([Spread(Sym("forever", self.freeze(args[0])))])
        return self.binop("mul", AList([args[0]]), n, node)

    @builtin(itertools.zip_longest)
    def b_zip_longest(self, args, kwargs, node):
        fill = kwargs.get("fillvalue", NONE)
        lists = [list(self.spread(a, node)) for a in args]
        if any(isinstance(p, Spread) for parts in lists for p in parts):
            raise_un("zip_longest of unknown sequences")
        size = max([len(parts) for parts in lists], default=0)
        return AList([Tup([parts[i] if i < len(parts) else fill for parts in lists])
                      for i in range(size)])

    @builtin(itertools.islice)
    def b_islice(self, args, kwargs, node):
        src = args[0]
        lo, hi = (K(0), args[1]) if len(args) == 2 else (args[1], args[2])
        lst = AList(self.spread(src, node))
        return self.seq_item(lst, Sym("sliceobj", lo, hi, NONE, kind="slice"), node)

    @builtin(itertools.takewhile)
    def b_takewhile(self, args, kwargs, node):
        func, src = args

        def run(on_yield):
            def body(x):
                if not self.truth(self.call(func, [x], {}, node)):
                    raise Stop()
                on_yield(x)
            try:
                self.iterate(src, body, node or _NODE)
            except Stop:
                pass
            return NONE

        return Gen(run, "takewhile")

    @builtin(functools.reduce)
    def b_reduce(self, args, kwargs, node):
        func, src = args[0], args[1]
        parts = list(self.spread(src, node))
        if len(args) > 2:
            acc = args[2]
        elif not parts:
            self.raise_("TypeError", K("reduce() of empty iterable with no initial value"))
        else:
            acc = parts.pop(0)
        if isinstance(acc, Spread):
            raise_un("reduce over an unknown sequence")
        if any(isinstance(p, Spread) for p in parts):
            loop = self.load("_functional").scope.vars["reduce"]
            return self.call(loop, [func, AList(parts), acc], {}, node)
        for p in parts:
            acc = self.call(func, [acc, p], {}, node)
        return acc

    @builtin(functools.partial)
    def b_partial(self, args, kwargs, node):
        return self.alloc(Inst(Ext("functools.partial"), {
            "func": args[0], "pargs": list(args[1:]), "kw": dict(kwargs)}), node)

    @builtin(functools.wraps)
    def b_wraps(self, args, kwargs, node):
        wrapped = args[0]
        return Native("wraps", lambda it, a, k, n: it.b_update_wrapper([a[0], wrapped], {}, n))

    @builtin(functools.update_wrapper)
    def b_update_wrapper(self, args, kwargs, node):
        wrapper, wrapped = args[0], args[1]
        for name in ("__module__", "__name__", "__qualname__", "__doc__"):
            val = self.getattr(wrapped, name, NONE)
            self.raw_set(wrapper, name, val)
        anno = self.lookup_attr(wrapped, "__annotations__")
        if anno is not self._ABSENT:
            self.raw_set(wrapper, "__annotations__", anno)
        self.raw_set(wrapper, "__wrapped__", wrapped)
        return wrapper

    @builtin(functools.lru_cache, functools.cache)
    def b_cache(self, args, kwargs, node):
        def make(func):
            cache = self.alloc(ADict(()), node)
            cache.is_cache = True

            def run(it, a, k, n):
                key = Tup(list(a) + [Tup([K(x), y]) for x, y in sorted(k.items())])
                it.check_hashable(key)
                hit = it.dict_get(cache, key)
                if hit is not None:
                    it.event("cache_hit", func=func)
                    return hit
                res = it.call(func, a, k, n)
                it.dict_set(cache, key, res)
                return res

            return Native(f"cached {func!r}", run, data={"wrapped": func, "methods": {
                "cache_clear": Native("cache_clear", lambda it, a, k, n: (it.setcontent(cache, ()), NONE)[1])}})

        if len(args) == 1 and isinstance(args[0], (Fn, Native, Bound)):
            return make(args[0])
        return Native("lru_cache", lambda it, a, k, n: make(a[0]))

    @builtin(operator.add)
    def b_add(self, args, kwargs, node):
        return self.binop("add", args[0], args[1], node)

    @builtin(operator.sub)
    def b_sub(self, args, kwargs, node):
        return self.binop("sub", args[0], args[1], node)

    @builtin(operator.eq)
    def b_eq(self, args, kwargs, node):
        return self.compare_eq(args[0], args[1])

    @builtin(operator.ne)
    def b_ne(self, args, kwargs, node):
        return self.compare("NotEq", args[0], args[1])

    @builtin(operator.or_)
    def b_or(self, args, kwargs, node):
        return self.binop("or_", args[0], args[1], node)

    @builtin(operator.is_)
    def b_is(self, args, kwargs, node):
        return self.is_(args[0], args[1])

    @builtin(operator.contains)
    def b_contains(self, args, kwargs, node):
        return self.contains(args[0], args[1])

    @builtin(operator.attrgetter)
    def b_attrgetter(self, args, kwargs, node):
        return Native("attrgetter", lambda it, a, k, n: it.getattr(a[0], args[0].v))

    @builtin(operator.itemgetter)
    def b_itemgetter(self, args, kwargs, node):
        return Native("itemgetter", lambda it, a, k, n: it.getitem(a[0], args[0]))

    @builtin(set.union, frozenset.union)
    def b_union(self, args, kwargs, node):
        return self.call_builtin_method(args[0], "union", args[1:], kwargs, node)

    @builtin(vars)
    def b_vars(self, args, kwargs, node):
        return self.getattr(args[0], "__dict__")

    @builtin(globals)
    def b_globals(self, args, kwargs, node):
        mod = self.engine.modules.get(self.pos[0])
        if mod is None:
            raise_un("globals() outside a module")
        return self.lookup_attr(mod, "__dict__")

    @builtin(dir)
    def b_dir(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Cls):
            names = []
            for c in v.mro:
                if isinstance(c, Cls):
                    names += [n for n in c.attrs if n not in names]
            return AList([K(n) for n in sorted(names)])
        return Sym("dir", self.freeze(v), kind="list")

    @builtin(super)
    def b_super(self, args, kwargs, node):
        return SuperV(args[0], args[1])

    @builtin(property)
    def b_property(self, args, kwargs, node):
        extra = {}
        if len(args) > 1:
            extra["setter"] = args[1]
        return Wrap("property", args[0] if args else kwargs.get("fget"), extra)

    @builtin(classmethod)
    def b_classmethod(self, args, kwargs, node):
        return Wrap("classmethod", args[0])

    @builtin(staticmethod)
    def b_staticmethod(self, args, kwargs, node):
        return Wrap("staticmethod", args[0])

    @builtin(typing.runtime_checkable)
    def b_runtime_checkable(self, args, kwargs, node):
        if isinstance(args[0], Cls):
            args[0].attrs["_is_runtime_protocol"] = TRUE
        return args[0]

    @builtin(abc.abstractmethod, typing.no_type_check, typing.final, typing.overload)
    def b_identity(self, args, kwargs, node):
        return args[0]

    @builtin(typing.cast)
    def b_cast(self, args, kwargs, node):
        return args[1]

    @builtin(typing.TypeVar)
    def b_typevar(self, args, kwargs, node):
        return K(typing.TypeVar("T"))

    @builtin(typing.get_origin)
    def b_get_origin(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, K):
            return K(typing.get_origin(v.v))
        if isinstance(v, Inst) and v.cls == Ext("types.UnionType"):
            return K(types.UnionType)
        if isinstance(v, Inst) and v.cls == Ext("typing._GenericAlias"):
            return v.attrs["__origin__"]
        if isinstance(v, Opaque) and "__origin__" in v.attrs and not v.isclass:
            return v.attrs["__origin__"]
        return NONE

    @builtin(typing.get_args)
    def b_get_args(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, K):
            return self.lift(typing.get_args(v.v))
        if isinstance(v, Inst) and "__args__" in v.attrs:
            return v.attrs["__args__"]
        if isinstance(v, Opaque) and "__args__" in v.attrs:
            return v.attrs["__args__"]
        return Tup(())

    @builtin(eval)
    def b_eval(self, args, kwargs, node):
        text = args[0]
        if not isinstance(text, K) or not isinstance(text.v, str):
            raise_un("eval of an unknown text")
        scope = getattr(args[1], "live_scope", None) if len(args) > 1 else None
        if scope is None or len(args) > 2 and args[2] != args[1] and args[2] != NONE:
            raise_un("eval in an unknown scope")
        try:
            tree = ast.parse(text.v.strip(), mode="eval")
        except SyntaxError as err:
            self.raise_("SyntaxError", K(str(err)))
        return self.ev(tree.body, scope)

    def hint(self, x, scope, node):
        """ What typing.get_type_hints makes of an annotation. """
        if isinstance(x, K) and isinstance(x.v, str):
            d = ADict([])
            d.live_scope = scope
            x = self.b_eval([x, d], {}, node)
        return K(type(None)) if x == NONE else x

    @builtin(typing.get_type_hints)
    def b_get_type_hints(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, K):
            return self.lift(typing.get_type_hints(v.v))
        if isinstance(v, Cls):
            out = self.alloc(ADict(()), node)
            for c in reversed(v.mro):
                if isinstance(c, Cls):
                    d = self.lookup_attr(c, "__annotations__")
                    for k, x in d.content:
                        x = K(type(None)) if x == NONE else x
                        self.setcontent(out, tuple(e for e in out.content if e[0] != k) + ((k, x),))
            return out
        anno = self.lookup_attr(v, "__annotations__")
        if isinstance(anno, ADict):
            mod = self.engine.modules.get(v.module) if isinstance(v, Fn) else None
            if len(args) > 1 and hasattr(args[1], "live_scope"):
                scope = args[1].live_scope
            else:
                scope = mod.scope if mod is not None else None
            out = self.alloc(ADict(tuple(
                (k, self.hint(x, scope, node)) for k, x in anno.content)), node)
            return out
        return Sym("type_hints", self.freeze(v), kind="dict")

    @builtin(inspect.isclass)
    def b_isclass(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Opaque):
            if v.isclass is not None:
                return kbool(v.isclass)
            if v.pytype is not None or v.kind is not None:
                return kbool(bool(self.issub(self.pytype(v), K(type))))
        if isinstance(v, Ext):
            if v.path in EXT_BASES:
                return TRUE
        return self.isinstance(v, K(type), node)

    @builtin(inspect.isfunction)
    def b_isfunction(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Native):
            return TRUE
        if isinstance(v, Opaque) and v.function is not None:
            return kbool(v.function)
        return self.isinstance(v, K(types.FunctionType), node)

    @builtin(inspect.ismethod)
    def b_ismethod(self, args, kwargs, node):
        return self.isinstance(args[0], K(types.MethodType), node)

    @builtin(inspect.isroutine)
    def b_isroutine(self, args, kwargs, node):
        if isinstance(args[0], (Fn, Bound, Native)):
            return TRUE
        return self.isinstance(args[0], K(types.FunctionType), node)

    def b_inspect_is(self, fn, v):
        what = fn.__name__
        if isinstance(v, K):
            return kbool(fn(v.v))
        if isinstance(v, Bound):
            v = v.fn
        if isinstance(v, Fn):
            if what.endswith("function"):
                gen = self.is_generator(v)
                coro = isinstance(v.node, ast.AsyncFunctionDef)
                return kbool({"isgeneratorfunction": gen and not coro,
                              "iscoroutinefunction": coro and not gen,
                              "isasyncgenfunction": gen and coro}[what])
            return FALSE
        if isinstance(v, (Opaque, Sym, Ext)):
            return kbool(self.test(Sym(what, v, kind="bool")))
        return FALSE

    @builtin(inspect.ismodule)
    def b_ismodule(self, args, kwargs, node):
        return self.isinstance(args[0], K(types.ModuleType), node)

    @builtin(inspect.unwrap)
    def b_unwrap(self, args, kwargs, node):
        v = args[0]
        while True:
            w = self.lookup_attr(v, "__wrapped__")
            if w is self._ABSENT:
                return v
            v = w

    @builtin(inspect.getmembers)
    def b_getmembers(self, args, kwargs, node):
        v = args[0]
        names = self.b_dir([v], {}, node)
        out = []
        for n in names.content:
            val = self.getattr(v, n.v)
            if len(args) < 2 or self.truth(self.call(args[1], [val], {}, node)):
                out.append(Tup([n, val]))
        return self.alloc(AList(out), node)

    @builtin(inspect.signature, inspect.Signature.from_callable)
    def b_signature(self, args, kwargs, node):
        v = args[0]
        skip = 0
        if isinstance(v, Bound):
            skip, v = 1, v.fn
        seen = 0
        while isinstance(v, Fn) and "__wrapped__" in v.attrs and seen < 9:
            v = v.attrs["__wrapped__"]
            seen += 1
        if isinstance(v, Opaque):
            sig = v.attrs.get("__signature__")
            if sig is not None:
                self.event("call", name="inspect.signature", args=(v,), kwargs={}, func=K(inspect.signature),
                           frozen=((v,), ()))
                self.maybe_raise("inspect.signature")
                return sig
            self.maybe_raise("inspect.signature")
            if not self.test(Sym("has_signature", v, kind="bool")):
                # A callable implemented elsewhere need not tell its signature.
                self.raise_("ValueError", K("no signature found"))
            return Sym("signature", v)
        if isinstance(v, K):
            try:
                inspect.signature(v.v)
            except (TypeError, ValueError) as err:
                self.raise_(type(err).__name__, K(str(err)))
        if not isinstance(v, Fn):
            self.maybe_raise("inspect.signature")
            return Sym("signature", self.freeze(v))
        a = v.node.args
        anno = {k.v: x for k, x in self.getattr(v, "__annotations__").content
                if not isinstance(k, Spread)}
        P = inspect.Parameter
        entries = []
        pos = a.posonlyargs + a.args
        for i, p in enumerate(pos):
            d = i - (len(pos) - len(v.defaults))
            entries.append((p.arg, P.POSITIONAL_ONLY if p in a.posonlyargs else P.POSITIONAL_OR_KEYWORD,
                            v.defaults[d] if d >= 0 else K(P.empty)))
        if a.vararg:
            entries.append((a.vararg.arg, P.VAR_POSITIONAL, K(P.empty)))
        for p, d in zip(a.kwonlyargs, v.kwdefaults):
            entries.append((p.arg, P.KEYWORD_ONLY, d if d is not None else K(P.empty)))
        if a.kwarg:
            entries.append((a.kwarg.arg, P.VAR_KEYWORD, K(P.empty)))
        entries = entries[skip:]
        params = ADict([(K(n), Inst(Ext("inspect.Parameter"), {
            "name": K(n), "kind": K(kind), "default": d,
            "annotation": anno.get(n, K(P.empty))})) for n, kind, d in entries])
        return Inst(Ext("inspect.Signature"), {
            "parameters": params, "fn": v, "skip": skip,
            "return_annotation": anno.get("return", K(inspect.Signature.empty))})

    @builtin(inspect.getfullargspec)
    def b_getfullargspec(self, args, kwargs, node):
        v = args[0]
        fn = v.fn if isinstance(v, Bound) else v
        if not isinstance(fn, Fn):
            raise_un("getfullargspec")
        a = fn.node.args
        return Inst(Ext("inspect.FullArgSpec"), {
            "args": AList([K(p.arg) for p in a.posonlyargs + a.args]),
            "varargs": K(a.vararg.arg) if a.vararg else NONE,
            "varkw": K(a.kwarg.arg) if a.kwarg else NONE,
            "defaults": Tup(fn.defaults) if fn.defaults else NONE,
            "kwonlyargs": AList([K(p.arg) for p in a.kwonlyargs]),
            "kwonlydefaults": self.fn_attr(fn, "__kwdefaults__"),
            "annotations": self.fn_annotations(fn)})

    @builtin(inspect.getcallargs)
    def b_getcallargs(self, args, kwargs, node):
        fn = args[0]
        rest = list(args[1:])
        if isinstance(fn, Bound):
            rest, fn = [fn.self_] + rest, fn.fn
        out = self.bind_args(fn, rest, kwargs)
        if out is None:
            self.raise_("TypeError", K("arguments do not fit"))
        return self.alloc(ADict([(K(k), x) for k, x in out.items()]), node)

    def sig_bind(self, sig, args, kwargs):
        fn, skip = sig.attrs["fn"], sig.attrs["skip"]
        pre = [Opaque("<self>")] * skip
        full = self.bind_args(fn, pre + list(args), kwargs, defaults=False)
        if full is None:
            self.event("bind_failed")
            self.raise_("TypeError", K("arguments do not fit the signature"))
        a = fn.node.args
        order = [p.arg for p in a.posonlyargs + a.args][skip:]
        order += [a.vararg.arg] if a.vararg else []
        order += [p.arg for p in a.kwonlyargs]
        order += [a.kwarg.arg] if a.kwarg else []
        entries = []
        for n in order:
            if n not in full:
                continue
            v = full[n]
            if a.vararg and n == a.vararg.arg and isinstance(v, Tup) and not v.items:
                continue
            if a.kwarg and n == a.kwarg.arg and isinstance(v, ADict) and not v.content:
                continue
            entries.append((K(n), v))
        return Inst(Ext("inspect.BoundArguments"), {
            "arguments": self.alloc(ADict(entries)), "signature": sig, "order": order})

    def apply_defaults(self, ba):
        sig = ba.attrs["signature"]
        have = dict((k.v, v) for k, v in ba.attrs["arguments"].content)
        out = []
        for k, p in sig.attrs["parameters"].content:
            if k.v in have:
                out.append((k, have[k.v]))
                continue
            kind = p.attrs["kind"].v
            if p.attrs["default"] != K(inspect.Parameter.empty):
                out.append((k, p.attrs["default"]))
            elif kind is inspect.Parameter.VAR_POSITIONAL:
                out.append((k, Tup(())))
            elif kind is inspect.Parameter.VAR_KEYWORD:
                out.append((k, self.alloc(ADict(()))))
        new = self.alloc(ADict(out))
        self.write(ba, ("attr", "arguments"), new)
        return NONE

    def bound_parts(self, ba, name):
        sig = ba.attrs["signature"]
        have = dict((k.v, v) for k, v in ba.attrs["arguments"].content)
        P = inspect.Parameter
        args, kwargs = [], []
        for k, p in sig.attrs["parameters"].content:
            if k.v not in have:
                continue
            kind, v = p.attrs["kind"].v, have[k.v]
            if kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD):
                args.append(v)
            elif kind is P.VAR_POSITIONAL:
                args.extend(v.items)
            elif kind is P.KEYWORD_ONLY:
                kwargs.append((k, v))
            else:
                kwargs.extend(v.content)
        return Tup(args) if name == "args" else self.alloc(ADict(kwargs))

    @builtin(copy.copy)
    def b_copy(self, args, kwargs, node):
        return self.clone(args[0], False, node)

    @builtin(copy.deepcopy)
    def b_deepcopy(self, args, kwargs, node):
        return self.clone(args[0], True, node)

    def clone(self, v, deep, node):
        sub = (lambda x: self.clone(x, True, node)) if deep else (lambda x: x)

        def part(p):
            if isinstance(p, Spread):
                return p
            if isinstance(p, tuple):
                return (sub(p[0]), sub(p[1]))
            return sub(p)

        if isinstance(v, (AList, ASet, ADict)):
            new = AList() if isinstance(v, AList) else ASet((), v.frozen) if isinstance(v, ASet) else ADict()
            new.content = tuple(part(p) for p in v.content)
            return self.alloc(new, node)
        if isinstance(v, Tup):
            return Tup([part(p) for p in v.items])
        if isinstance(v, Inst):
            new = Inst(v.cls, {k: sub(x) if isinstance(x, Val) else x for k, x in v.attrs.items()})
            return self.alloc(new, node)
        return v

    @builtin(contextlib.contextmanager)
    def b_contextmanager(self, args, kwargs, node):
        fn = args[0]
        return Native("contextmanager", lambda it, a, k, n: it.call(fn, a, k, n),
                      data={"wrapped": fn})

    @builtin(contextlib.suppress)
    def b_suppress(self, args, kwargs, node):
        return Inst(Ext("contextlib.suppress"), {"excs": Tup(args)})

    @builtin(contextlib.nullcontext)
    def b_nullcontext(self, args, kwargs, node):
        return Opaque("nullcontext")

    @builtin(dataclasses.dataclass)
    def b_dataclass(self, args, kwargs, node):
        def make(cls):
            fields = []
            for c in reversed(cls.mro):
                if isinstance(c, Cls):
                    for n, _ in c.annos[0]:
                        if n not in fields:
                            fields.append(n)

            def init(it, a, k, n):
                self_, a = a[0], list(a[1:])
                for f in fields:
                    if a:
                        val = a.pop(0)
                    elif f in k:
                        val = k[f]
                    else:
                        val = it.find_attr(cls, f)
                        if val is None:
                            it.raise_("TypeError", K("missing argument"))
                        if isinstance(val, Inst) and val.cls == Ext("field"):
                            val = it.call(val.attrs["factory"], [], {}, n)
                    it.write(self_, ("attr", f), val)
                return NONE

            self.write(cls, ("attr", "__init__"), Native("__init__", init))
            return cls

        if args:
            return make(args[0])
        return Native("dataclass", lambda it, a, k, n: make(a[0]))

    @builtin(dataclasses.field)
    def b_field(self, args, kwargs, node):
        if "default" in kwargs:
            return kwargs["default"]
        return Inst(Ext("field"), {"factory": kwargs.get("default_factory", K(list))})

    @builtin(warnings.warn)
    def b_warn(self, args, kwargs, node):
        self.event("call", name="warnings.warn", func=K(warnings.warn), args=tuple(args),
                   kwargs={}, frozen=((), ()))
        return NONE

    @builtin(slice)
    def b_slice(self, args, kwargs, node):
        parts = [NONE, args[0], NONE] if len(args) == 1 else (list(args) + [NONE])[:3]
        return Sym("sliceobj", *parts, kind="slice")

    @builtin(types.SimpleNamespace)
    def b_namespace(self, args, kwargs, node):
        return self.alloc(Inst(K(types.SimpleNamespace), dict(kwargs)), node)

    @builtin(types.MethodType)
    def b_methodtype(self, args, kwargs, node):
        return Bound(args[0], args[1])

    @builtin(collections.deque)
    def b_deque(self, args, kwargs, node):
        return self.b_list(args, kwargs, node)

    @builtin(types.MappingProxyType)
    def b_proxy(self, args, kwargs, node):
        return args[0]

    # -- methods of builtin types --------------------------------------------

    def call_builtin_method(self, v, name, args, kwargs, node):
        if isinstance(v, Inst):
            hook = getattr(self, "inst_" + name, None)
            if hook is not None:
                return hook(v, args, kwargs, node)
            if name in ("__setattr__",):
                self.raw_set(v, args[0].v, args[1])
                return NONE
            if name == "__init__":
                return NONE
            if name == "__getattribute__":
                return self.getattr(v, args[0].v)
            if name == "__hash__":
                return Sym("identity_hash", v, kind="int")
            if name == "__eq__":
                return self.is_(v, args[0])
            raise_un(f"method {name} of {v!r}")
        if isinstance(v, Cls):
            if name == "__hash__":
                return Sym("identity_hash", v, kind="int")
            if name == "__eq__":
                return self.is_(v, args[0])
            if name == "__instancecheck__":
                return self.plain_isinstance(args[0], v)
            if name == "__repr__":
                return Sym("str", K(repr(v)), kind="str")
            if name == "__init__":
                return NONE
            if name == "__setattr__":
                self.raw_set(v, args[0].v, args[1])
                return NONE
            if name == "__call__":
                return self.instantiate_plain(v, args, kwargs, node)
            raise_un(f"method {name} of {v!r}")
        dunder = {"__contains__": lambda: self.contains(v, args[0]),
                  "__len__": lambda: self.length(v),
                  "__iter__": lambda: self.b_iter([v], {}, node),
                  "__getitem__": lambda: self.getitem(v, args[0], node),
                  "__eq__": lambda: self.compare_eq(v, args[0]),
                  "__ne__": lambda: self.not_(self.compare_eq(v, args[0])),
                  "__add__": lambda: self.binop("add", v, args[0], node),
                  "__hash__": lambda: self.b_hash([v], {}, node),
                  "__repr__": lambda: self.b_repr([v], {}, node),
                  "__str__": lambda: self.to_str(v)}
        if name in dunder:
            return dunder[name]()
        if name == "__setitem__":
            self.setitem(v, args[0], args[1])
            return NONE
        if name == "__delitem__":
            self.delitem(v, args[0])
            return NONE
        if isinstance(v, Gen):
            if name == "close":
                return NONE
            raise_un(f"generator method {name}")
        if isinstance(v, ADict):
            return self.dict_method(v, name, args, kwargs, node)
        if isinstance(v, AList):
            return self.list_method(v, name, args, kwargs, node)
        if isinstance(v, ASet):
            return self.set_method(v, name, args, kwargs, node)
        if isinstance(v, Tup):
            return self.tuple_method(v, name, args, kwargs, node)
        if isinstance(v, K):
            return self.k_method(v, name, args, kwargs, node)
        if isinstance(v, (Sym, Opaque)):
            return self.sym_method(v, name, args, kwargs, node)
        raise_un(f"method {name} of {v!r}")

    def dict_method(self, v, name, args, kwargs, node):
        if name in ("items", "keys", "values"):
            return ADictView(v, name)
        if name == "get":
            return self.dict_get(v, args[0], want(args, 1, default=NONE))
        if name == "copy":
            return self.alloc(ADict(v.content), node)
        if name == "update":
            if args:
                self.dict_update(v, args[0])
            for k, x in kwargs.items():
                if k == "**":
                    for p in x.items:
                        self.mutated(v, "update")
                        self.setcontent(v, v.content + (p,))
                else:
                    self.dict_set(v, K(k), x)
            return NONE
        if name == "setdefault":
            got = self.dict_get(v, args[0])
            if got is not None:
                return got
            val = want(args, 1, default=NONE)
            self.dict_set(v, args[0], val)
            return val
        if name == "pop":
            got = self.dict_get(v, args[0])
            if got is None:
                if len(args) > 1:
                    return args[1]
                self.raise_("KeyError", args[0])
            self.mutated(v, "pop")
            self.setcontent(v, [e for e in v.content if isinstance(e, Spread)
                                or not self.key_same(e[0], args[0])])
            return got
        if name == "clear":
            self.mutated(v, "clear")
            self.setcontent(v, ())
            return NONE
        if name == "popitem":
            if not v.content or isinstance(v.content[-1], Spread):
                raise_un("popitem")
            self.mutated(v, "popitem")
            last = v.content[-1]
            self.setcontent(v, v.content[:-1])
            return Tup(last)
        if name == "move_to_end":
            return NONE
        if name == "fromkeys":
            d = self.alloc(ADict(()), node)
            for k in self.spread(args[0]):
                self.dict_set(d, k, want(args, 1, default=NONE))
            return d
        raise_un(f"dict.{name}")

    def list_method(self, v, name, args, kwargs, node):
        if name == "append":
            self.mutated(v, name)
            self.setcontent(v, v.content + (args[0],))
            return NONE
        if name in ("extend",):
            parts = tuple(self.spread(args[0], node))
            self.mutated(v, name)
            self.setcontent(v, v.content + parts)
            return NONE
        if name == "copy":
            return self.alloc(AList(v.content), node)
        if name == "insert":
            self.mutated(v, name)
            if isinstance(args[0], K) and not any(isinstance(p, Spread) for p in v.content):
                content = list(v.content)
                content.insert(args[0].v, args[1])
                self.setcontent(v, content)
            elif args[0] == K(0):
                self.setcontent(v, (args[1],) + v.content)
            else:
                raise_un("list.insert")
            return NONE
        if name == "appendleft":
            self.mutated(v, name)
            self.setcontent(v, (args[0],) + v.content)
            return NONE
        if name in ("pop", "popleft"):
            idx = K(0) if name == "popleft" else want(args, 0, default=K(-1))
            self.mutated(v, name)
            if not v.content:
                self.raise_("IndexError", K("pop from empty list"))
            end = v.content[0] if idx == K(0) else v.content[-1] if idx == K(-1) else None
            if any(isinstance(p, Spread) for p in v.content):
                if end is None or isinstance(end, Spread):
                    raise_un("list.pop")
                self.setcontent(v, v.content[1:] if idx == K(0) else v.content[:-1])
                return end
            content = list(v.content)
            try:
                got = content.pop(idx.v)
            except IndexError:
                self.raise_("IndexError")
            self.setcontent(v, content)
            return got
        if name == "clear":
            self.mutated(v, name)
            self.setcontent(v, ())
            return NONE
        if name == "remove":
            self.mutated(v, name)
            for i, p in enumerate(v.content):
                if isinstance(p, Spread):
                    raise_un("list.remove")
                if self.truth(self.compare_eq(p, args[0])):
                    self.setcontent(v, v.content[:i] + v.content[i + 1:])
                    return NONE
            self.raise_("ValueError")
        if name == "reverse":
            self.mutated(v, name)
            self.setcontent(v, self.b_reversed([v], {}, node).content)
            return NONE
        if name == "sort":
            self.mutated(v, name)
            self.setcontent(v, self.b_sorted([v], kwargs, node).content)
            return NONE
        return self.tuple_method(v, name, args, kwargs, node)

    def tuple_method(self, v, name, args, kwargs, node):
        parts = v.items if isinstance(v, Tup) else v.content
        if name == "index":
            for i, p in enumerate(parts):
                if isinstance(p, Spread):
                    raise_un("index")
                if self.truth(self.compare_eq(p, args[0])):
                    return K(i)
            self.raise_("ValueError")
        if name == "count":
            if any(isinstance(p, Spread) for p in parts):
                return Sym("count", self.freeze(v), self.freeze(args[0]), kind="int")
            return K(sum(1 for p in parts if self.truth(self.compare_eq(p, args[0]))))
        raise_un(f"sequence method {name}")

    def set_method(self, v, name, args, kwargs, node):
        if name == "add":
            self.check_hashable(args[0])
            self.mutated(v, name)
            if args[0] not in v.content:
                self.setcontent(v, v.content + (args[0],))
            return NONE
        if name in ("update", "__ior__"):
            parts = []
            for a in args:
                parts += self.spread(a, node)
            for p in parts:
                if not isinstance(p, Spread):
                    self.check_hashable(p)
            self.mutated(v, name)
            self.setcontent(v, v.content + tuple(
                p for i, p in enumerate(parts) if p not in v.content and p not in parts[:i]))
            return NONE
        if name in ("union", "__or__"):
            out = v
            for a in args:
                out = self.set_op("or_", out, a, node)
            return out if args else self.make_set(v.content, node)
        if name in ("difference", "__sub__"):
            out = v
            for a in args:
                out = self.set_op("sub", out, self.asset(a), node)
            return out
        if name in ("intersection", "__and__"):
            out = v
            for a in args:
                out = self.set_op("and_", out, self.asset(a), node)
            return out
        if name in ("symmetric_difference",):
            return self.set_op("xor", v, self.asset(args[0]), node)
        if name == "copy":
            return self.make_set(v.content, node, v.frozen)
        if name in ("discard", "remove"):
            self.check_hashable(args[0])
            self.mutated(v, name)
            out = []
            found = False
            for p in v.content:
                if not found and not isinstance(p, Spread) and (
                        p == args[0] or self.truth(self.compare_eq(p, args[0]))):
                    found = True
                    continue
                if isinstance(p, Spread) and not found:
                    p = Spread(Sym("without", p.term, self.freeze(args[0]), kind="set"))
                out.append(p)
            if name == "remove" and not found and not any(isinstance(p, Spread) for p in out):
                self.raise_("KeyError")
            self.setcontent(v, out)
            return NONE
        if name == "clear":
            self.mutated(v, name)
            self.setcontent(v, ())
            return NONE
        if name == "pop":
            self.mutated(v, name)
            if not v.content:
                self.raise_("KeyError")
            if isinstance(v.content[0], Spread):
                raise_un("set.pop")
            got = v.content[0]
            self.setcontent(v, v.content[1:])
            return got
        if name == "issubset":
            return self.set_order("LtE", v, self.asset(args[0]))
        if name == "issuperset":
            return self.set_order("GtE", v, self.asset(args[0]))
        if name == "isdisjoint":
            return kbool(not any(self.truth(self.contains(v, p)) for p in self.spread(args[0])))
        if name in ("difference_update", "intersection_update"):
            op = "sub" if name[0] == "d" else "and_"
            self.mutated(v, name)
            self.setcontent(v, self.set_op(op, v, self.asset(args[0])).content)
            return NONE
        raise_un(f"set.{name}")

    def asset(self, v):
        return v if isinstance(v, ASet) else ASet(self.spread(v))

    def k_method(self, v, name, args, kwargs, node):
        raw = [self.unlift(a) for a in args]
        rawkw = {k: self.unlift(x) for k, x in kwargs.items()}
        if None not in raw and None not in rawkw.values() and isinstance(
                v.v, (str, bytes, tuple, int, float, frozenset, complex)):
            try:
                return self.lift(getattr(v.v, name)(*[r[0] for r in raw],
                                                   **{k: r[0] for k, r in rawkw.items()}))
            except Exception as err:  # pylint: disable=broad-except
                self.raise_(type(err).__name__, K(str(err)))
        if isinstance(v.v, str):
            if name == "join":
                parts = []
                for i, p in enumerate(self.spread(args[0], node)):
                    if i:
                        parts.append(v)
                    parts.append(Sym("str", p.term, kind="str") if isinstance(p, Spread) else p)
                return self.strcat(parts)
            if name == "format":
                if not any(isinstance(a, Spread) for a in args):
                    try:
                        res = self.str_format(v.v, args, kwargs)
                    except ValueError as err:
                        self.raise_("ValueError", K(str(err)))
                    if res is not None:
                        return res
                return Sym("s_format", v, *[self.freeze(a) for a in args],
                           *[self.freeze(x) for x in kwargs.values()], kind="str")
            return self.str_method(v, name, args, kwargs, node)
        if isinstance(v.v, (frozenset, set)):
            return self.set_method(ASet([K(x) for x in v.v], frozen=True), name, args, kwargs, node)
        if isinstance(v.v, tuple):
            return self.tuple_method(Tup([K(x) for x in v.v]), name, args, kwargs, node)
        raise_un(f"method {name} of {v!r}")

    def str_method(self, v, name, args, kwargs, node):
        frozen = [self.freeze(a) for a in args]
        if name in ("startswith", "endswith", "isidentifier", "isdigit", "islower", "isupper"):
            if frozen and isinstance(frozen[0], Tup):
                return self.or_([Sym(name, self.freeze(v), x, kind="bool") for x in frozen[0].items])
            return Sym(name, self.freeze(v), *frozen, kind="bool")
        if name in ("split", "rsplit", "splitlines"):
            return Sym(name, self.freeze(v), *frozen, kind="list")
        if name in ("find", "index", "count", "rfind"):
            return Sym(name, self.freeze(v), *frozen, kind="int")
        if name == "replace" and len(frozen) == 3 and isinstance(frozen[2], K) and \
                isinstance(v, Sym) and v.op == "str" and all(
                    isinstance(a, K) and isinstance(a.v, str) for a in frozen[:2]):
            left, out = frozen[2].v, []
            for p in v.args:
                if isinstance(p, K) and isinstance(p.v, str):
                    n = p.v.count(frozen[0].v)
                    out.append(K(p.v.replace(frozen[0].v, frozen[1].v, left)))
                    left = max(0, left - n) if left >= 0 else left
                else:
                    out.append(self.replaced(p, *frozen[:2]))
            return self.strcat(out)
        if name == "replace" and len(frozen) == 2 and isinstance(v, Sym) and v.op == "str" and all(
                isinstance(a, K) and isinstance(a.v, str) for a in frozen):
            return self.strcat([
                K(p.v.replace(frozen[0].v, frozen[1].v)) if isinstance(p, K) and
                isinstance(p.v, str) else self.replaced(p, *frozen) for p in v.args])
        if name in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "format", "join",
                    "title", "capitalize", "ljust", "rjust", "center", "casefold", "removeprefix",
                    "removesuffix", "encode"):
            return Sym("s_" + name, self.freeze(v), *frozen, kind="str")
        if name == "partition":
            return Tup([Sym("partition", self.freeze(v), *frozen, K(i), kind="str") for i in range(3)])
        raise_un(f"str.{name}")

    def replaced(self, part, old, new):
        """ An unknown part of a text with a replacement done in it. """
        if part.kind == "int" and not any(c.isdigit() or c == "-" for c in old.v):
            return part
        return Sym("s_replace", part if part.kind == "str" else Sym("str", part, kind="str"), old,
                   new, kind="str")

    def sym_method(self, v, name, args, kwargs, node):
        pt = self.pytype(v)
        kind = pt.v.__name__ if isinstance(pt, K) else None
        if kind == "str":
            return self.str_method(v, name, args, kwargs, node)
        if kind == "dict":
            if name in ("items", "keys", "values"):
                return Sym(name, v)
            if name == "get":
                hook = getattr(v, "getitem", None)
                if self.test(Sym("in", self.freeze(args[0]), v, kind="bool")):
                    return hook(self, v, args[0]) if hook else self.sym_item(v, self.freeze(args[0]))
                return want(args, 1, default=NONE)
            if name == "copy":
                return self.alloc(ADict((Spread(v),)), node)
            self.event("mutate", target=v, method=name, args=tuple(self.freeze(a) for a in args))
            return Sym("ret", v, name, K(self.fresh((v, name))))
        if kind in ("list", "tuple"):
            if name == "index":
                return Sym("index", v, self.freeze(args[0]), kind="int")
            if name == "count":
                return Sym("count", v, self.freeze(args[0]), kind="int")
            if name == "copy":
                return self.alloc(AList((Spread(v),)), node)
            self.event("mutate", target=v, method=name, args=tuple(self.freeze(a) for a in args))
            return Sym("ret", v, name, K(self.fresh((v, name))))
        if kind in ("set", "frozenset"):
            if name in ("union", "difference", "intersection", "copy", "issubset", "issuperset",
                        "isdisjoint", "symmetric_difference"):
                return self.set_method(ASet((Spread(v),)), name, args, kwargs, node)
            self.event("mutate", target=v, method=name, args=tuple(self.freeze(a) for a in args))
            return NONE
        if kind == "int":
            if name == "is_integer":
                return TRUE
            return Sym("i_" + name, v)
        raise_un(f"method {name} of {v!r}")


class _Node:
    lineno = 0
    col_offset = 0


_NODE = _Node()

EXT_MODELS = {}


def ext_model(*paths):
    def deco(fn):
        for p in paths:
            EXT_MODELS[p] = fn
        return fn
    return deco


@ext_model("numpy.array_equal")
def _array_equal(it, args, kwargs, node):
    if len(args) != 2 or kwargs:
        return NotImplemented
    # One verdict on all elements.
    pred = it.compare_eq(*args)
    return pred if isinstance(pred, K) else K(it.test(pred))


for _fn in (inspect.isgenerator, inspect.iscoroutine, inspect.isawaitable, inspect.isasyncgen,
            inspect.isbuiltin, inspect.isgeneratorfunction, inspect.iscoroutinefunction,
            inspect.isasyncgenfunction, inspect.isabstract, inspect.istraceback,
            inspect.isframe, inspect.iscode, inspect.isdatadescriptor,
            inspect.ismethoddescriptor):
    BUILTIN[_fn] = lambda it, args, kwargs, node, _fn=_fn: it.b_inspect_is(_fn, args[0])


@ext_model("os.environ.get", "os.getenv")
def m_environ_get(it, args, kwargs, node):
    env = Ext("os.environ")
    if it.truth(it.contains(env, args[0])):
        return it.sym_item(env, args[0])
    return want(args, 1, kwargs, "default", NONE)


@ext_model("sys.stdout.write")
def m_write(it, args, kwargs, node):
    it.event("print", args=tuple(it.to_str(a) for a in args), kwargs={"end": K("")})
    return NONE


@ext_model("os.environ.keys", "os.environ.copy")
def m_environ_keys(it, args, kwargs, node):
    return Ext("os.environ")


@ext_model("torch.Size", "tensorflow.TensorShape")
def m_shape(it, args, kwargs, node):
    return NotImplemented


@ext_model("os.path.join")
def m_join(it, args, kwargs, node):
    import posixpath
    if all(isinstance(a, K) for a in args):
        return K(posixpath.join(*[a.v for a in args]))
    return NotImplemented
