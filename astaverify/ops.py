""" Operations on abstract values: facts, comparison, attributes, items, calls. """
import ast
import builtins
import collections.abc
import re
import string
import types
import typing

from .values import (
    ELL, FALSE, NONE, TRUE, ADict, AList, ASet, Bound, Cls, Exc, Ext, Fn, Gen,
    Inst, K, Mod, Native, Obj, Opaque, Scope, Spread, SuperV, Sym, Tup, Val, Wrap,
    kbool,
)

TYPING_GENERIC = (typing._GenericAlias, typing._SpecialGenericAlias, types.GenericAlias)

KIND_TYPES = {
    "int": K(int), "str": K(str), "bool": K(bool), "tuple": K(tuple), "list": K(list),
    "dict": K(dict), "set": K(set), "slice": K(slice), "class": K(type),
    "expr": Ext("sympy.core.expr.Expr"), "float": K(float),
}

# The classes of the libraries which matter here: path -> bases.
ARRAYS = (Ext("numpy.ndarray"), Ext("torch.Tensor"))
EXT_BASES = {
    "numpy.ndarray": [], "numpy.dtype": [], "numpy.generic": [],
    "torch.Tensor": [], "torch.Size": [K(tuple)], "torch.dtype": [],
    "tensorflow.Tensor": [], "tensorflow.TensorShape": [],
    "tensorflow.dtypes.DType": [],
    "sympy.core.basic.Basic": [],
    "sympy.core.expr.Expr": [Ext("sympy.core.basic.Basic")],
    "sympy.core.symbol.Symbol": [Ext("sympy.core.expr.Expr")],
    "sympy.core.add.Add": [Ext("sympy.core.expr.Expr")],
    "sympy.core.numbers.Number": [Ext("sympy.core.expr.Expr")],
    "sympy.core.numbers.Rational": [Ext("sympy.core.numbers.Number")],
    "sympy.core.numbers.Integer": [Ext("sympy.core.numbers.Rational")],
    "sympy.core.numbers.Float": [Ext("sympy.core.numbers.Number")],
    "inspect.Signature": [], "inspect.Parameter": [], "inspect.BoundArguments": [],
    "typing._GenericAlias": [], "types.UnionType": [],
    "functools.partial": [], "contextlib.suppress": [],
}
for _np in ("datetime64", "timedelta64", "int64", "int32", "int8", "int16", "float64",
            "float32", "float16", "uint8", "uint16", "uint32", "uint64", "bool_", "complex64",
            "complex128", "longdouble", "str_", "bytes_", "object_", "void", "integer", "floating", "number"):
    EXT_BASES["numpy." + _np] = [Ext("numpy.generic")]

EXT_ALIASES = {
    "sympy.Expr": "sympy.core.expr.Expr", "sympy.Symbol": "sympy.core.symbol.Symbol",
    "sympy.core.Expr": "sympy.core.expr.Expr", "sympy.core.Symbol": "sympy.core.symbol.Symbol",
    "sympy.Number": "sympy.core.numbers.Number", "sympy.Integer": "sympy.core.numbers.Integer",
    "sympy.Rational": "sympy.core.numbers.Rational", "sympy.Add": "sympy.core.add.Add",
    "sympy.Basic": "sympy.core.basic.Basic", "sympy.core.Integer": "sympy.core.numbers.Integer",
    "sympy.core.Number": "sympy.core.numbers.Number",
    "sympy.solve": "sympy.solvers.solvers.solve", "sympy.solvers.solve": "sympy.solvers.solvers.solve",
    "sympy.core.symbol.symbols": "sympy.symbols",
    "sympy.simplify.simplify": "sympy.simplify",
    "tensorflow.DType": "tensorflow.dtypes.DType",
    "torch.tensor.Tensor": "torch.Tensor",
}

# Attributes of library classes which asta types inherit from.
EXT_ATTRS = {"shape", "dtype", "T", "ndim", "device", "name", "op", "graph"}

NO_ATTRS = {"__union_params__", "__result__", "__extra__"}

# Builtins of which no object can be an instance of two.
SOLID = (int, float, complex, str, bytes, bytearray, tuple, list, dict, set, frozenset,
         type, type(None), type(Ellipsis), slice, range, types.FunctionType,
         types.ModuleType, BaseException)


class OpsMixin:
    """ Operations of the interpreter. """

    # -- facts ------------------------------------------------------------

    def test(self, pred):
        """ The truth of a predicate, on this path. """
        if isinstance(pred, K):
            return bool(pred.v)
        if pred.op == "not":
            return not self.truth(pred.args[0])
        if pred.op in ("and", "or"):
            is_and = pred.op == "and"
            for arg in pred.args:
                if self.truth(arg) != is_and:
                    return not is_and
            return is_and
        known = self.decide(pred)
        if known is not None:
            return known
        if self.engine.on_predicate is not None:
            forced = self.engine.on_predicate(self, pred)
            if forced is not None:
                self.assume(pred, forced)
                return forced
        if self.setup_mode and pred.op == "in" and pred.args[1] == Ext("os.environ"):
            # Modules are loaded under an empty environment.
            return False
        value = self.choose(2, pred) == 0
        self.assume(pred, value)
        return value

    def assume(self, pred, value):
        self.facts[pred] = value
        self.factlist.append((pred, value, self.pos))
        if pred.op == "ge0":
            const, terms = self.lin_of(pred.args[0])
            if len(terms) == 1:
                (term, coef), = terms.items()
                # coef*t + const >= 0 (or <= -1 if false)
                if not value:
                    coef, const = -coef, -const - 1
                lo, hi = self.int_bounds(term)
                if coef > 0:
                    new = -(const // coef)  # t >= ceil(-const/coef)
                    new = -((const) // coef) if const % coef == 0 else -(const // coef)
                    lo = new if lo is None else max(lo, new)
                else:
                    new = const // (-coef)
                    hi = new if hi is None else min(hi, new)
                self.narrow(term, lo, hi)
        elif pred.op == "eq":
            a, b = pred.args
            if isinstance(b, K) and isinstance(b.v, int) and not isinstance(b.v, bool) \
                    and self.is_int(a):
                if value:
                    self.bounds[a] = (b.v, b.v)
                else:
                    lo, hi = self.int_bounds(a)
                    if b.v in (lo, hi):
                        self.narrow(a, lo, hi)

    def narrow(self, term, lo, hi):
        """ The integer lies between these, and is none of those excluded. """
        while lo is not None and (hi is None or lo <= hi) and \
                self.facts.get(Sym("eq", term, K(lo))) is False:
            lo += 1
        while hi is not None and (lo is None or lo <= hi) and \
                self.facts.get(Sym("eq", term, K(hi))) is False:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            from .core import Prune
            raise Prune()
        self.bounds[term] = (lo, hi)

    def decide(self, pred):
        """ What the facts say about a predicate (None: nothing). """
        if pred in self.facts:
            return self.facts[pred]
        op = pred.op
        if op == "ge0":
            lo, hi = self.int_bounds(pred.args[0])
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        elif op == "eq0":
            lo, hi = self.int_bounds(pred.args[0])
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if lo == hi == 0:
                return True
        elif op == "isinstance":
            return self.decide_isinstance(*pred.args)
        elif op == "eq":
            a, b = pred.args
            if isinstance(b, K):
                for (p, v) in list(self.facts.items()):
                    if v and p.op == "eq" and isinstance(p.args[1], K) and p.args[0] == a \
                            and p.args[1] != b:
                        return False
                if isinstance(b.v, bool) or b.v is None:
                    t = self.facts.get(Sym("truth", a, kind="bool"))
                    if t is not None and bool(b.v) != t:
                        return False
            if self.facts.get(Sym("is", a, b, kind="bool")):
                return True
        elif op == "is":
            a, b = pred.args
            if isinstance(b, K):
                for (p, v) in list(self.facts.items()):
                    if v and p.op == "is" and p.args[0] == a and isinstance(p.args[1], K) \
                            and p.args[1] != b:
                        return False
                if b.v is None or isinstance(b.v, bool):
                    t = self.facts.get(Sym("truth", a, kind="bool"))
                    if t is not None and bool(b.v) != t:
                        return False
        elif op == "truth":
            a = pred.args[0]
            for (p, v) in list(self.facts.items()):
                if v and p.op in ("is", "eq") and p.args[0] == a and isinstance(p.args[1], K) \
                        and isinstance(p.args[1].v, (bool, type(None), int, str)):
                    return bool(p.args[1].v)
        return None

    def decide_isinstance(self, term, cls):
        for (p, v) in list(self.facts.items()):
            if p.op != "isinstance" or p.args[0] != term:
                continue
            other = p.args[1]
            if v:
                if self.issub(other, cls):
                    return True
                if self.disjoint(other, cls):
                    return False
            elif self.issub(cls, other):
                return False
        return None

    def disjoint(self, a, b):
        """ Can no object be an instance of both classes? """
        def solid(c):
            if isinstance(c, K) and isinstance(c.v, type):
                for s in SOLID:
                    if issubclass(c.v, s):
                        return s
            if isinstance(c, Ext):
                for e in self.ext_mro(c):
                    if isinstance(e, K) and e.v in SOLID:
                        return e.v
                if c.path in EXT_BASES:
                    top = self.ext_mro(c)
                    return top[-1] if isinstance(top[-1], Ext) else None
            if isinstance(c, Cls):
                return None
            return None

        x, y = solid(a), solid(b)
        return x is not None and y is not None and x != y

    def known_truth(self, val):
        """ The truth value if decided by what is known. """
        if isinstance(val, K):
            try:
                return bool(val.v)
            except Exception:  # pylint: disable=broad-except
                return None
        if isinstance(val, (Tup, AList, ASet, ADict)):
            return self.known_nonempty(val)
        if isinstance(val, Sym):
            if val.op == "not":
                known = self.known_truth(val.args[0])
                return None if known is None else not known
            if val.op in ("and", "or"):
                vals = [self.known_truth(a) for a in val.args]
                if val.op == "and":
                    return False if False in vals else True if all(vals) else None
                return True if True in vals else False if vals == [False] * len(vals) else None
            if val.kind == "bool":
                return self.decide(val)
            pred = self.truth_pred(val)
            return self.known_truth(pred) if isinstance(pred, K) else self.decide(pred)
        if isinstance(val, Opaque):
            if val.truthy is not None:
                return val.truthy
            if val.kind == "bool" and val in self.facts:
                return self.facts[val]
            pred = self.truth_pred(val)
            return self.known_truth(pred) if isinstance(pred, K) else self.decide(pred)
        if isinstance(val, Inst):
            if isinstance(val.cls, Cls):
                if self.find_attr(val.cls, "__bool__") is not None or \
                        self.find_attr(val.cls, "__len__") is not None:
                    return None
            return True
        return True

    def truth_pred(self, val):
        """ The canonical predicate for the truth of a symbolic value. """
        if fixed(val) is not val:
            return kbool(bool(val.parts) or val.pytype.path.startswith("tensorflow"))
        kind = val.kind
        if kind == "int":
            return Sym("not", self.eq_int(val, K(0)), kind="bool")
        if kind in ("tuple", "list", "dict", "set"):
            return self.nonempty_pred(val)
        pt = self.pytype(val)
        if isinstance(pt, K) and isinstance(pt.v, type):
            if issubclass(pt.v, (tuple, list, dict, set, frozenset)):
                return self.nonempty_pred(val)
            if issubclass(pt.v, int) and pt.v is not bool:
                return Sym("not", self.eq_int(val, K(0)), kind="bool")
        return Sym("truth", val, kind="bool")

    def truth(self, val):
        known = self.known_truth(val)
        if known is not None:
            return known
        if isinstance(val, Sym) and val.kind == "bool":
            array = self.array_compared(val)
            if array is not None and self.test(Sym("several elements", array, kind="bool")):
                self.raise_("ValueError", K("The truth value of an array is ambiguous"))
            return self.test(val)
        if isinstance(val, (Tup, AList, ASet, ADict)):
            return self.test(self.nonempty_pred(val))
        if isinstance(val, Inst):
            if self.find_attr(val.cls, "__bool__") is not None:
                return self.truth(self.call_method(val, "__bool__", []))
            n = self.call_method(val, "__len__", [])
            return self.truth(n)
        return self.test(self.truth_pred(val))

    def array_compared(self, pred):
        """ The library array whose elementwise comparison is taken for one truth. """
        if pred.op in ("or", "and", "not"):
            for a in pred.args:
                res = self.array_compared(a) if isinstance(a, Sym) else None
                if res is not None:
                    return res
        if pred.op == "eq":
            for a in pred.args:
                if isinstance(a, Opaque) and a.pytype in ARRAYS:
                    return a
        return None

    def known_nonempty(self, val):
        if isinstance(val, (Tup, AList, ASet, ADict)):
            content = val.items if isinstance(val, Tup) else val.content
            if any(not isinstance(p, Spread) for p in content):
                return True
            if not content:
                return False
        pred = self.nonempty_pred(val)
        if isinstance(pred, K):
            return bool(pred.v)
        return self.decide(pred)

    def nonempty_pred(self, val):
        return self.ge0(self.binop("sub", self.length(val), K(1)))

    # -- integers -----------------------------------------------------------

    def is_int(self, v):
        if isinstance(v, K):
            return isinstance(v.v, int)
        if isinstance(v, (Sym, Opaque)):
            if v.kind == "int":
                return True
            if isinstance(v, Opaque) and v.pytype == K(int):
                return True
            return bool(self.facts.get(Sym("isinstance", v, K(int), kind="bool")))
        return False

    def lin_of(self, v):
        if isinstance(v, K):
            if isinstance(v.v, int):
                return int(v.v), {}
            return None
        if isinstance(v, Sym) and v.op == "lin":
            return v.args[0].v, dict(v.args[1])
        if self.is_int(v):
            return 0, {v: 1}
        return None

    def mk_lin(self, const, terms):
        terms = {t: c for t, c in terms.items() if c}
        if not terms:
            return K(const)
        if const == 0 and len(terms) == 1:
            (t, c), = terms.items()
            if c == 1:
                return t
        items = tuple(sorted(terms.items(), key=lambda tc: repr(tc[0])))
        return Sym("lin", K(const), items, kind="int")

    def lin_sub(self, a, b):
        x, y = self.lin_of(a), self.lin_of(b)
        if x is None or y is None:
            return None
        terms = dict(x[1])
        for t, c in y[1].items():
            terms[t] = terms.get(t, 0) - c
        return self.mk_lin(x[0] - y[0], terms)

    def lin_add(self, a, b):
        x, y = self.lin_of(a), self.lin_of(b)
        if x is None or y is None:
            return None
        terms = dict(x[1])
        for t, c in y[1].items():
            terms[t] = terms.get(t, 0) + c
        return self.mk_lin(x[0] + y[0], terms)

    def term_bounds(self, t):
        if t in self.bounds:
            return self.bounds[t]
        if isinstance(t, Opaque) and t.lo is not None:
            return t.lo, None
        if isinstance(t, Sym):
            if t.op in ("len", "idx", "count", "abs"):
                return 0, None
        return None, None

    def int_bounds(self, v):
        if isinstance(v, K) and isinstance(v.v, int):
            return int(v.v), int(v.v)
        if v in self.bounds:
            return self.bounds[v]
        lin = self.lin_of(v)
        if lin is None:
            return None, None
        lo = hi = lin[0]
        for t, c in lin[1].items():
            tlo, thi = self.term_bounds(t)
            if c < 0:
                tlo, thi = thi, tlo
            lo = None if lo is None or tlo is None else lo + c * tlo
            hi = None if hi is None or thi is None else hi + c * thi
        return lo, hi

    def int_step(self, start, cur):
        if isinstance(start, (tuple,)) or isinstance(cur, tuple):
            return None
        if isinstance(start, K) and isinstance(start.v, bool):
            return None
        if not (isinstance(start, Val) and isinstance(cur, Val)):
            return None
        diff = self.lin_sub(cur, start) if self.is_int(start) and self.is_int(cur) else None
        if isinstance(diff, K):
            return diff.v
        return None

    def ge0(self, lin):
        """ The predicate ``lin >= 0``. """
        if isinstance(lin, K):
            return kbool(lin.v >= 0)
        return Sym("ge0", lin, kind="bool")

    def eq_int(self, a, b):
        diff = self.lin_sub(a, b)
        if isinstance(diff, K):
            return kbool(diff.v == 0)
        const, terms = self.lin_of(diff)
        if len(terms) == 1:
            (t, c), = terms.items()
            if const % c:
                return FALSE
            return self.decided(Sym("eq", t, K(-const // c), kind="bool"), t, -const // c)
        neg = self.mk_lin(-const, {t: -c for t, c in terms.items()})
        pick = min((diff, neg), key=repr)
        return Sym("eq0", pick, kind="bool")

    def decided(self, pred, t, n):
        lo, hi = self.int_bounds(t)
        if lo is not None and n < lo or hi is not None and n > hi:
            return FALSE
        if lo == hi == n:
            return TRUE
        return pred

    def length(self, v):
        if isinstance(v, (Tup, AList, ASet, ADict)):
            content = v.items if isinstance(v, Tup) else v.content
            total = K(0)
            for part in content:
                total = self.lin_add(
                    total, self.length(part.term) if isinstance(part, Spread) else K(1)
                )
            return total
        if isinstance(v, K):
            try:
                return K(len(v.v))
            except TypeError:
                self.raise_("TypeError", K("object has no len()"))
        if isinstance(v, Opaque) and v.length is not None:
            return v.length
        if isinstance(v, Sym):
            if v.op in ("enumerate", "items", "keys", "values", "reversed", "sorted", "aslist"):
                return self.length(v.args[0])
            if v.op == "str":
                return Sym("len", v, kind="int")
            if v.op == "repeat":
                return v.args[1]
        if isinstance(v, Inst):
            return self.call_method(v, "__len__", [])
        if isinstance(v, Cls):
            return self.call_method(v, "__len__", [])
        if isinstance(v, (Gen,)):
            self.raise_("TypeError", K("object has no len()"))
        return Sym("len", self.freeze(v), kind="int")

    # -- terms ----------------------------------------------------------------

    def freeze_parts(self, parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                out.append(tuple(self.freeze(x) for x in p))
            elif isinstance(p, Spread):
                out.append(Spread(self.freeze(p.term)))
            else:
                out.append(self.freeze(p))
        return tuple(out)

    def freeze(self, v):
        """ An immutable snapshot of a value. """
        if isinstance(v, AList):
            return Sym("list", self.freeze_parts(v.content), kind="list")
        if isinstance(v, ADictView):
            parts = self.freeze_parts(v.parts(self))
            if v.which == "keys":
                return Sym("set", tuple(sorted(parts, key=repr)), kind="set")
            return Sym("list", parts, kind="list")
        if isinstance(v, ASet):
            parts = self.freeze_parts(v.content)
            return Sym("set", tuple(sorted(parts, key=repr)), kind="set")
        if isinstance(v, ADict):
            return Sym("dict", self.freeze_parts(v.content), kind="dict")
        if isinstance(v, Tup):
            return Tup(self.freeze_parts(v.items))
        if isinstance(v, Spread):
            return Spread(self.freeze(v.term))
        return v

    def kind(self, v):
        if isinstance(v, (K,)):
            for k, t in KIND_TYPES.items():
                if isinstance(t, K) and type(v.v) is t.v:
                    return k
            return None
        return getattr(v, "kind", None)

    # -- types ------------------------------------------------------------------

    def pytype(self, v):
        """ The class of a value, if known. """
        if isinstance(v, K):
            return K(type(v.v))
        if isinstance(v, Tup):
            return K(tuple)
        if isinstance(v, AList):
            return K(list)
        if isinstance(v, ASet):
            return K(frozenset if v.frozen else set)
        if isinstance(v, ADict):
            return K(dict)
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Exc):
            return v.cls
        if isinstance(v, Cls):
            return v.meta
        if isinstance(v, Fn):
            return K(types.FunctionType)
        if isinstance(v, Bound):
            return K(types.MethodType)
        if isinstance(v, Native):
            return K(types.FunctionType)
        if isinstance(v, Wrap):
            return K({"classmethod": classmethod, "staticmethod": staticmethod,
                      "property": property}[v.which])
        if isinstance(v, Mod):
            return K(types.ModuleType)
        if isinstance(v, Gen):
            return K(types.GeneratorType)
        if isinstance(v, Opaque):
            if v.pytype is not None:
                return v.pytype
            if v.kind in KIND_TYPES:
                return KIND_TYPES[v.kind]
            if v.isclass:
                return K(type)
            return self.type_from_facts(v)
        if isinstance(v, Sym):
            if v.kind in KIND_TYPES:
                return KIND_TYPES[v.kind]
            if v.op == "attr" and v.args[1] == "__class__":
                return None
            return self.type_from_facts(v)
        if isinstance(v, Ext):
            if v.path in EXT_BASES:
                return K(type)
            return self.ext_type(v)
        return None

    def type_from_facts(self, v):
        best = None
        for (p, val) in self.facts.items():
            if val and p.op == "isinstance" and p.args[0] == v and isinstance(p.args[1], K) \
                    and p.args[1].v in (int, str, tuple, list, dict, set, float, complex, bytes):
                best = p.args[1]
        return best

    def ext_type(self, v):
        path = v.path
        parts = path.split(".")
        if parts[0] == "torch" and len(parts) == 2 and parts[1] in (
                "int32", "float32", "bool", "uint8", "int64", "float64", "int16", "int8",
                "float16", "half", "double", "complex64", "complex128", "bfloat16"):
            return Ext("torch.dtype")
        if parts[0] == "tensorflow" and len(parts) == 2 and parts[1] in (
                "int32", "float32", "bool", "uint8", "int64", "float64", "int16", "int8",
                "float16", "half", "double", "complex64", "complex128", "string", "bfloat16",
                "complex", "qint16", "qint32", "qint8", "quint16", "quint8", "resource",
                "uint16", "uint32", "uint64", "variant"):
            return Ext("tensorflow.dtypes.DType")
        return None

    def ext_mro(self, c):
        out = [c]
        for b in EXT_BASES.get(c.path, []):
            out += self.ext_mro(b) if isinstance(b, Ext) else [b]
        return out

    def class_of_alias(self, cls):
        """ The runtime class behind a ``typing`` alias. """
        if isinstance(cls, K) and not isinstance(cls.v, type) and \
                getattr(cls.v, "__origin__", None) is not None:
            return K(cls.v.__origin__)
        return cls

    def issub(self, a, b):
        """ Is class ``a`` a subclass of ``b`` (None: unknown)? """
        b = self.class_of_alias(b)
        if isinstance(b, Tup):
            res = [self.issub(a, x) for x in b.items]
            return True if True in res else None if None in res else False
        if a == b:
            return True
        if b == K(object):
            return True
        if a == Ext("types.UnionType") and isinstance(b, K):
            return self.issub(K(types.UnionType), b)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return issubclass(a.v, b.v)
            except TypeError:
                return False
        if isinstance(a, Cls):
            if isinstance(b, Cls):
                return b in a.mro
            if isinstance(b, K):
                if b.v in (collections.abc.Callable, collections.abc.Sized,
                           collections.abc.Hashable, collections.abc.Iterable,
                           collections.abc.Container):
                    name = {"Callable": "__call__", "Sized": "__len__", "Hashable": "__hash__",
                            "Iterable": "__iter__", "Container": "__contains__"}[b.v.__name__]
                    for c in a.mro:
                        if isinstance(c, Cls) and name in c.attrs:
                            return c.attrs[name] != NONE
            unknown = False
            for c in a.mro:
                if isinstance(c, K) and isinstance(b, K):
                    try:
                        if issubclass(c.v, b.v):
                            return True
                    except TypeError:
                        pass
                elif isinstance(c, Ext):
                    res = self.issub(c, b)
                    if res:
                        return True
                elif isinstance(c, Opaque):
                    unknown = True
            return None if unknown else False
        if isinstance(b, Cls):
            if isinstance(a, Opaque):
                if a.bases is not None:
                    res = [self.issub(x, b) for x in a.bases]
                    return True if True in res else None if None in res else False
                return None
            return False if isinstance(a, (K, Ext)) else None
        if isinstance(a, Ext) and a.path in EXT_BASES:
            mro = self.ext_mro(a)
            if b in mro:
                return True
            if isinstance(b, K):
                for c in mro:
                    if isinstance(c, K):
                        try:
                            if issubclass(c.v, b.v):
                                return True
                        except TypeError:
                            pass
                if b.v is collections.abc.Hashable:
                    return True
                if b.v in (collections.abc.Iterable, collections.abc.Sized) and \
                        a.path in ("numpy.ndarray", "torch.Tensor", "tensorflow.Tensor"):
                    return True
                return False
            if isinstance(b, Ext):
                return False
            return None
        if isinstance(b, Ext) and b.path in EXT_BASES and isinstance(a, K):
            return False
        if isinstance(a, Opaque) and a.bases is not None:
            res = [self.issub(x, b) for x in a.bases]
            return True if True in res else None if None in res else False
        return None

    def is_protocol(self, cls):
        return isinstance(cls, Cls) and cls.attrs.get("_is_protocol") == TRUE

    def protocol_members(self, cls):
        """ Names demanded by a protocol: its methods, and its data members. """
        methods, data = set(), set()
        for c in cls.mro:
            if self.is_protocol(c):
                own = {n for n in c.attrs if not n.startswith(("_is_", "__"))
                       or isinstance(c.attrs[n], Fn)}
                methods |= {n for n in own if isinstance(c.attrs[n], (Fn, Wrap))}
                data |= own - methods
                data |= {n for n, _ in getattr(c, "annos", ([], None))[0]}
        return methods, data - methods

    def protocol_check(self, cls, subject, of_class):
        """ Structural check against a protocol (None: unknown). """
        if self.getattr(cls, "_is_runtime_protocol") != TRUE:
            self.raise_("TypeError", K("Instance and class checks can only be used with "
                                       "@runtime_checkable protocols"))
        methods, data = self.protocol_members(cls)
        if of_class and data:
            self.raise_("TypeError", K("Protocols with non-method members don't support "
                                       "issubclass()"))
        kind = subject if of_class else self.pytype(subject)
        if isinstance(kind, Cls) and cls in kind.mro:
            return True
        if isinstance(subject, (Opaque, Sym)) and not of_class and kind is None or kind is None:
            return None
        verdict = True
        for n in sorted(methods | data):
            has = self.hasattr(kind, n)
            if has == FALSE and not of_class:
                has = self.hasattr(subject, n)
            if has == FALSE:
                return False
            if has != TRUE:
                verdict = None
        return verdict

    def isinstance(self, v, cls, node=None):
        """ ``isinstance(v, cls)`` as a value. """
        if self.is_protocol(cls):
            res = self.protocol_check(cls, v, False)
            return Sym("isinstance", self.freeze(v), cls, kind="bool") if res is None else kbool(res)
        if isinstance(cls, Tup):
            preds = []
            for c in cls.items:
                res = self.isinstance(v, c)
                if res == TRUE:
                    if not preds:
                        return TRUE
                    preds.append(res)
                    break
                if res != FALSE:
                    preds.append(res)
            return self.or_(preds)
        if isinstance(cls, K) and isinstance(cls.v, types.UnionType):
            return self.isinstance(v, Tup([K(a) for a in cls.v.__args__]))
        if isinstance(cls, Inst) and cls.cls == Ext("types.UnionType"):
            return self.isinstance(v, cls.attrs["__args__"])
        orig = cls
        cls = self.class_of_alias(cls)
        if isinstance(orig, K) and not isinstance(orig.v, type) and cls is orig:
            self.raise_("TypeError", K("isinstance() arg 2 must be a type"))
        if isinstance(orig, Inst) and orig.cls == Ext("typing._GenericAlias"):
            self.raise_("TypeError", K("isinstance() argument 2 cannot be a parameterized generic"))
        if isinstance(v, Opaque) and v.instances is not None:
            key = cls
            if key in v.instances:
                return kbool(v.instances[key])
        if isinstance(cls, Cls) and isinstance(cls.meta, Cls):
            check = self.find_attr(cls.meta, "__instancecheck__")
            if check is not None:
                if self.pytype(v) == cls:
                    return TRUE
                return self.tobool(self.call(check, [cls, v], {}, node))
        if isinstance(cls, (Opaque, Sym)):
            if isinstance(cls, Opaque) and cls.instancecheck is not None:
                return cls.instancecheck(self, cls, v)
            pt = self.pytype(v)
            if pt is not None and pt == cls:
                return TRUE
            if isinstance(v, Obj) and not isinstance(v, (Exc,)):
                return Sym("isinstance", self.freeze(v), cls, kind="bool")
            return Sym("isinstance", self.freeze(v), cls, kind="bool")
        if isinstance(v, Opaque) and v.isclass and cls == K(type):
            return TRUE
        pt = self.pytype(v)
        if isinstance(v, (Sym, Opaque)) and v.kind is None and getattr(v, "pytype", None) is None:
            pt = None
        if pt is not None:
            res = self.issub(pt, cls)
            if res is not None:
                return kbool(res)
        if isinstance(v, (Sym, Opaque)):
            if isinstance(v, Opaque) and v.isclass is False and cls == K(type):
                return FALSE
            res = self.decide_isinstance(v, cls)
            if res is not None:
                return kbool(res)
            if isinstance(cls, K) and cls.v is collections.abc.Callable and \
                    isinstance(v, Opaque) and v.callable is not None:
                return kbool(v.callable)
            return Sym("isinstance", v, cls, kind="bool")
        if isinstance(v, Ext):
            return Sym("isinstance", v, cls, kind="bool")
        if isinstance(v, Obj):
            return FALSE
        return Sym("isinstance", self.freeze(v), cls, kind="bool")

    def or_(self, preds):
        if TRUE in preds and preds[0] == TRUE:
            return TRUE
        preds = [p for p in preds if p != FALSE]
        if not preds:
            return FALSE
        if len(preds) == 1:
            return preds[0]
        return Sym("or", *preds, kind="bool")

    def and_(self, preds):
        preds = [p for p in preds if p != TRUE]
        if not preds:
            return TRUE
        if FALSE in preds and preds[0] == FALSE:
            return FALSE
        if len(preds) == 1:
            return preds[0]
        return Sym("and", *preds, kind="bool")

    def tobool(self, v):
        if isinstance(v, K):
            return kbool(bool(v.v))
        if isinstance(v, Sym) and v.kind == "bool":
            return v
        return kbool(self.truth(v))

    # -- comparison -------------------------------------------------------------

    def is_(self, a, b):
        if a is b:
            return TRUE
        if isinstance(a, K) and isinstance(b, K):
            return kbool(a == b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if isinstance(a, Bound) and isinstance(b, Bound):
                return FALSE
            return FALSE
        if isinstance(a, Obj) or isinstance(b, Obj):
            other = b if isinstance(a, Obj) else a
            if isinstance(other, (K, Ext, Opaque, Tup)):
                return FALSE
        if isinstance(a, Ext) and isinstance(b, Ext):
            return kbool(a == b)
        if a == b and not isinstance(a, Tup):
            return TRUE
        if isinstance(a, Tup) and isinstance(b, Tup) and not a.items and not b.items:
            return TRUE
        if isinstance(a, Tup) or isinstance(b, Tup):
            other = b if isinstance(a, Tup) else a
            if isinstance(other, (K, Ext, Opaque)) and not (
                isinstance(other, Opaque) and other.kind == "tuple"
            ):
                return FALSE
        if isinstance(a, K):
            a, b = b, a
        if isinstance(a, Ext) and isinstance(b, K):
            return FALSE
        if isinstance(a, Opaque) and isinstance(b, (K, Ext)):
            if a.eqs is not None:
                return kbool(a.eqs.get(b, False))
            if self.type_excludes(a, b):
                return FALSE
            if a.isclass and not self.is_classlike(b):
                return FALSE
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.eqs is not None or b.eqs is not None:
                return FALSE
        if isinstance(a, Sym) and isinstance(b, K):
            if self.type_excludes(a, b) or b.v is None and self.is_numpy_dtype(a):
                return FALSE
            if isinstance(b.v, bool) and self.kind(a) == "bool":
                return a if b.v else self.not_(a)
        if isinstance(a, (Sym, Opaque)) and isinstance(b, (Sym, Opaque)):
            if repr(b) < repr(a):
                a, b = b, a
        return Sym("is", self.freeze(a), self.freeze(b), kind="bool")

    def type_excludes(self, a, b):
        """ Does the known type of ``a`` rule out that it is the constant? """
        pt = self.pytype(a)
        if pt is None:
            for (p, v) in self.facts.items():
                if p.op == "isinstance" and p.args[0] == a and isinstance(b, K):
                    c = self.class_of_alias(p.args[1])
                    if isinstance(c, K) and isinstance(c.v, type):
                        try:
                            if v != isinstance(b.v, c.v):
                                return True
                        except TypeError:
                            pass
            return False
        if isinstance(b, Ext):
            return False
        if isinstance(pt, K):
            return pt.v is not type(b.v) and not (
                isinstance(pt.v, type) and issubclass(type(b.v), pt.v)
            ) and not (pt.v is int and isinstance(b.v, (bool, float)))
        return True

    def is_classlike(self, v):
        return isinstance(v, Cls) or isinstance(v, K) and isinstance(v.v, type) or \
            isinstance(v, Ext) and v.path in EXT_BASES or isinstance(v, Opaque) and v.isclass

    def compare(self, op, left, right):
        if op == "Is":
            return self.is_(left, right)
        if op == "IsNot":
            return self.not_(self.is_(left, right))
        if op == "Eq":
            return self.compare_eq(left, right)
        if op == "NotEq":
            ne = self.user_dunder(left, "__ne__", right)
            if ne is not None:
                return ne
            return self.not_(self.compare_eq(left, right))
        if op == "In":
            return self.contains(right, left)
        if op == "NotIn":
            return self.not_(self.contains(right, left))
        return self.compare_order(op, left, right)

    def compare_order(self, op, a, b):
        if isinstance(a, K) and isinstance(b, K):
            try:
                x, y = a.v, b.v
                return kbool({"Lt": lambda: x < y, "LtE": lambda: x <= y,
                              "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]())
            except TypeError as err:
                self.raise_("TypeError", K(str(err)))
        a, b = self.setview(a), self.setview(b)
        if isinstance(a, ASet) or isinstance(b, ASet):
            return self.set_order(op, a, b)
        if op in ("Gt", "LtE"):
            big, small = (a, b) if op == "Gt" else (b, a)
        else:
            big, small = (a, b) if op == "GtE" else (b, a)
        diff = self.lin_sub(big, small)
        if diff is not None:
            if op in ("Gt", "Lt"):
                diff = self.lin_sub(diff, K(1))
            return self.ge0(diff)
        if isinstance(a, Inst) or isinstance(b, Inst):
            name = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            res = self.user_dunder(a, name, b)
            if res is not None:
                return res
        # canonical: lt(small, big)
        if op in ("Gt", "Lt"):
            return Sym("lt", self.freeze(small), self.freeze(big), kind="bool")
        return Sym("not", Sym("lt", self.freeze(big), self.freeze(small), kind="bool"), kind="bool")

    def set_order(self, op, a, b):
        pa, pb = list(self.elements(a)), list(self.elements(b))
        if any(isinstance(p, Spread) for p in pa + pb):
            return Sym("setcmp", K(op), self.freeze(a), self.freeze(b), kind="bool")
        if op in ("Gt", "GtE"):
            pa, pb = pb, pa
        sub = all(self.truth(self.contains(Tup(pb), x)) for x in pa)
        if op in ("Lt", "Gt"):
            return kbool(sub and len(pa) < len(pb))
        return kbool(sub)

    def user_dunder(self, obj, name, *args):
        """ Call a special method defined in analysed code. """
        cls = obj.cls if isinstance(obj, Inst) else obj.meta if isinstance(obj, Cls) else None
        if not isinstance(cls, Cls):
            return None
        fn = self.find_attr(cls, name)
        if fn is None or isinstance(fn, K):
            return None
        res = self.call(fn, [obj] + list(args), {}, None)
        return None if res == K(NotImplemented) else res

    def eq_family(self, v):
        """ A tag such that values with different tags are never equal. """
        pt = self.pytype(v)
        if isinstance(v, K) and v.v is None:
            return "none"
        if v == ELL:
            return "ellipsis"
        if isinstance(pt, K) and isinstance(pt.v, type):
            t = pt.v
            if issubclass(t, (int, float, complex)):
                return "number"
            for base, tag in ((str, "str"), (bytes, "bytes"), (tuple, "tuple"),
                              (list, "list"), (dict, "dict"), (set, "set"),
                              (frozenset, "set"), (types.FunctionType, "func"),
                              (types.ModuleType, "mod")):
                if issubclass(t, base):
                    return tag
            if t is type:
                return "class"
        if isinstance(pt, Ext):
            if pt.path in ("sympy.core.numbers.Number", "sympy.core.numbers.Integer",
                           "sympy.core.numbers.Rational", "sympy.core.numbers.Float"):
                return "number"
            if self.issub(pt, Ext("sympy.core.basic.Basic")):
                return "sympy"
            if pt.path in ("torch.dtype", "inspect.Parameter"):
                return pt.path
            if pt.path == "torch.Size":
                return "tuple"
        if isinstance(v, Cls):
            return "class"
        if isinstance(v, (Fn, Native, Bound)):
            return "func"
        if isinstance(v, Inst) and isinstance(v.cls, Cls):
            return ("inst", v.cls)
        return None

    def is_numpy_dtype(self, v):
        if isinstance(v, Sym):
            return v.op == "call" and v.args[0] == Ext("numpy.dtype")
        return self.pytype(v) == Ext("numpy.dtype")

    def setview(self, v):
        """ A dictionary's keys and items compare like sets. """
        if isinstance(v, ADictView) and v.which in ("keys", "items"):
            return ASet(v.parts(self))
        if isinstance(v, Sym) and v.op == "keys":
            return ASet((Spread(v),))
        return v

    def compare_eq(self, a, b):
        if isinstance(a, (Cls, Inst)):
            res = self.user_dunder(a, "__eq__", b)
            if res is not None:
                return res
        if isinstance(b, (Cls, Inst)):
            res = self.user_dunder(b, "__eq__", a)
            if res is not None:
                return res
        if a is b:
            return TRUE
        a, b = self.setview(fixed(a)), self.setview(fixed(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and x.pytype == Ext("numpy.ndarray") and isinstance(y, K):
                # Numpy compares element by element, whatever the other operand.
                return Sym("eq", x, y, kind="bool")
        if isinstance(a, K) and isinstance(b, K):
            try:
                return kbool(bool(a.v == b.v))
            except Exception:  # pylint: disable=broad-except
                return FALSE
        if self.is_int(a) and self.is_int(b):
            return self.eq_int(a, b)
        if isinstance(a, (AList, Tup, ASet, ADict)) and isinstance(b, (AList, Tup, ASet, ADict)):
            return self.eq_containers(a, b)
        if isinstance(a, (Sym, Opaque, Ext)) and a == b:
            return TRUE
        fa, fb = self.eq_family(a), self.eq_family(b)
        if fa is not None and fb is not None and fa != fb:
            if not ({"sympy", "number"} == {fa, fb}):
                return FALSE
        if isinstance(a, (Inst, Cls, Fn, Bound, Native, Exc)) or \
                isinstance(b, (Inst, Cls, Fn, Bound, Native, Exc)):
            if isinstance(a, (Bound,)) and isinstance(b, Bound):
                return kbool(a.fn is b.fn and a.self_ is b.self_)
            other = b if isinstance(a, Obj) else a
            if isinstance(other, (Obj, K, Tup)) or isinstance(other, Ext):
                return FALSE
            if isinstance(other, Opaque) and other.eqs is not None:
                return FALSE
        if isinstance(a, Ext) and isinstance(b, Ext):
            return FALSE
        if isinstance(a, K):
            a, b = b, a
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.eqs is not None and b.eqs is not None:
                return FALSE
            if a.eqs is not None and b in a.eqs:
                return kbool(a.eqs[b])
            if b.eqs is not None and a in b.eqs:
                return kbool(b.eqs[a])
        if isinstance(a, Opaque) and a.eqs is not None:
            if isinstance(b, (K, Ext)):
                return kbool(a.eqs.get(b, False))
            if isinstance(b, Opaque) and b in a.eqs:
                return kbool(a.eqs[b])
        if isinstance(a, Tup) or isinstance(b, Tup):
            t, o = (a, b) if isinstance(a, Tup) else (b, a)
            if isinstance(o, K):
                return FALSE
            if not t.items and isinstance(o, (Sym, Opaque)) and (
                    o.kind == "tuple" or self.pytype(o) == K(tuple)):
                return self.not_(self.nonempty_pred(o))
        if isinstance(a, Ext) and isinstance(b, K) and isinstance(b.v, (str, int, type(None))) \
                and a.path in EXT_BASES:
            return FALSE
        if isinstance(a, Ext) and isinstance(b, K) and (
                isinstance(b.v, type) or b.v is None or b.v is Ellipsis):
            return FALSE
        if isinstance(a, (Sym, Opaque)) and isinstance(b, K):
            if b.v is None and self.is_numpy_dtype(a):
                # Numpy takes None for its default dtype.
                if isinstance(a, Sym) and len(a.args) == 2 and isinstance(a.args[1], K):
                    return kbool(a.args[1] in (K(float), K("float64"), K(None)))
            elif b.v is None or b.v is Ellipsis:
                if self.eq_family(a) is None:
                    return self.is_(a, b)
            if isinstance(b.v, bool) and self.kind(a) == "bool":
                return a if b.v else self.not_(a)
        fa, fb = self.freeze(a), self.freeze(b)
        if fa == fb:
            return TRUE
        if not isinstance(fb, K) and (isinstance(fa, K) or repr(fb) < repr(fa)):
            fa, fb = fb, fa
        return Sym("eq", fa, fb, kind="bool")

    def eq_containers(self, a, b):
        ta, tb = self.pytype(a), self.pytype(b)
        fam = {tuple: "t", list: "l", set: "s", frozenset: "s", dict: "d"}
        if fam[ta.v] != fam[tb.v]:
            return FALSE
        if isinstance(a, (AList, Tup)):
            xs = a.items if isinstance(a, Tup) else a.content
            ys = b.items if isinstance(b, Tup) else b.content
            return self.eq_seq(xs, ys)
        if self.freeze(a) == self.freeze(b):
            return TRUE
        if any(isinstance(p, Spread) for p in a.content + b.content):
            fa, fb = sorted((self.freeze(a), self.freeze(b)), key=repr)
            return Sym("eq", fa, fb, kind="bool")
        if isinstance(a, ASet):
            if len(a.content) != len(b.content):
                return FALSE
            return self.and_([self.contains(b, x) for x in a.content])
        if len(a.content) != len(b.content):
            return FALSE
        preds = []
        for k, v in a.content:
            found = [w for (kk, w) in b.content if kk == k]
            if not found:
                if isinstance(k, K) and all(isinstance(kk, K) for kk, _ in b.content):
                    return FALSE
                if all(isinstance(kk, (K, Obj)) for kk, _ in b.content) and isinstance(k, (K, Obj)):
                    return FALSE
                fa, fb = sorted((self.freeze(a), self.freeze(b)), key=repr)
                return Sym("eq", fa, fb, kind="bool")
            preds.append(self.compare_eq(v, found[0]))
        if FALSE in preds:
            return FALSE
        return self.and_(preds)

    def eq_seq(self, xs, ys):
        xs, ys = list(xs), list(ys)
        preds = []
        while xs and ys and not isinstance(xs[0], Spread) and not isinstance(ys[0], Spread):
            preds.append(self.compare_eq(xs.pop(0), ys.pop(0)))
            if preds[-1] == FALSE:
                return FALSE
        while xs and ys and not isinstance(xs[-1], Spread) and not isinstance(ys[-1], Spread):
            preds.append(self.compare_eq(xs.pop(), ys.pop()))
            if preds[-1] == FALSE:
                return FALSE
        if not xs and not ys:
            return self.and_(preds)
        if self.freeze_parts(xs) == self.freeze_parts(ys):
            return self.and_(preds)
        if not xs or not ys:
            rest = Tup(xs or ys)
            if any(not isinstance(p, Spread) for p in rest.items):
                return FALSE
            preds.append(self.not_(self.nonempty_pred(rest)))
            return self.and_(preds)
        a, b = sorted((Tup(self.freeze_parts(xs)), Tup(self.freeze_parts(ys))), key=repr)
        preds.append(Sym("eq", a, b, kind="bool"))
        return self.and_(preds)

    def contains(self, cont, item):
        """ ``item in cont`` as a value. """
        cont = fixed(cont)
        if isinstance(cont, Inst):
            if isinstance(cont.cls, Cls) and self.find_attr(cont.cls, "__contains__") is not None:
                return self.tobool(self.call_method(cont, "__contains__", [item]))
            if isinstance(cont.cls, Cls) and self.find_attr(cont.cls, "__iter__") is not None:
                cont = self.to_list(cont)
        if isinstance(cont, Gen):
            found = []

            class Stop(Exception):
                pass

            def on_yield(v):
                if self.truth(self.or_([self.is_(v, item), self.compare_eq(v, item)])):
                    raise Stop()
                return NONE

            try:
                cont.run(on_yield)
            except Stop:
                return TRUE
            return kbool(bool(found))
        if isinstance(cont, K) and isinstance(item, K):
            try:
                return kbool(item.v in cont.v)
            except TypeError as err:
                self.raise_("TypeError", K(str(err)))
        if isinstance(cont, (ASet, ADict)):
            self.check_hashable(item)
            handler = getattr(cont, "live_scope", None)
            if handler is not None and isinstance(item, K):
                return kbool(item.v in handler.vars)
        if isinstance(cont, (Tup, AList, ASet, ADict)) or (
                isinstance(cont, K) and isinstance(cont.v, (tuple, list, set, frozenset, dict))):
            parts = list(self.elements(cont))
            hashed = isinstance(cont, (ASet, ADict))
            preds = []
            for part in parts:
                if isinstance(part, Spread):
                    preds.append(Sym("in", self.freeze(item), self.freeze(part.term), kind="bool"))
                    continue
                if part is item or (isinstance(part, K) and part == item):
                    return TRUE
                if hashed and isinstance(part, (Opaque, Sym)) and part == item:
                    return TRUE
                pred = self.compare_eq(part, item)
                if pred == TRUE:
                    return TRUE if not preds else self.or_(preds + [TRUE])
                if pred != FALSE:
                    preds.append(pred)
            if hashed and preds:
                name = "in"
                if not any(isinstance(p, Spread) for p in parts) and len(preds) > 1:
                    return self.or_(preds)
                del name
            return self.or_(preds)
        if isinstance(cont, Mod) or isinstance(cont, Cls):
            res = self.user_dunder(cont, "__contains__", item)
            if res is not None:
                return self.tobool(res)
        if isinstance(cont, Sym) and cont.op == "keys":
            cont = cont.args[0]
        return Sym("in", self.freeze(item), self.freeze(cont), kind="bool")

    # -- arithmetic ---------------------------------------------------------------

    DUNDER = {
        "add": ("__add__", "__radd__"), "sub": ("__sub__", "__rsub__"),
        "mul": ("__mul__", "__rmul__"), "truediv": ("__truediv__", "__rtruediv__"),
        "floordiv": ("__floordiv__", "__rfloordiv__"), "mod": ("__mod__", "__rmod__"),
        "pow": ("__pow__", "__rpow__"), "or_": ("__or__", "__ror__"),
        "and_": ("__and__", "__rand__"), "xor": ("__xor__", "__rxor__"),
        "lshift": ("__lshift__", "__rlshift__"), "rshift": ("__rshift__", "__rrshift__"),
        "matmul": ("__matmul__", "__rmatmul__"),
    }

    def iop(self, op, left, right, node=None):
        if isinstance(left, AList) and op == "add":
            self.mutated(left, "__iadd__")
            self.setcontent(left, left.content + tuple(self.spread(right)))
            return left
        if isinstance(left, ASet) and not left.frozen and op in ("or_", "sub", "and_"):
            self.mutated(left, "__ior__")
            new = self.set_op(op, left, right)
            self.setcontent(left, new.content)
            return left
        if isinstance(left, ADict) and op == "or_":
            self.dict_update(left, right)
            return left
        if isinstance(left, (Opaque, Sym)) and self.kind(left) in ("list", "set", "dict"):
            self.event("mutate", target=left, method="i" + op)
        elif isinstance(left, Opaque) and self.pytype(left) in (
                Ext("numpy.ndarray"), Ext("torch.Tensor")):
            self.event("mutate", target=left, method="i" + op)
            return left
        if isinstance(left, Inst):
            res = self.user_dunder(left, self.DUNDER[op][0].replace("__", "__i", 1), right)
            if res is not None:
                return res
        return self.binop(op, left, right, node)

    def binop(self, op, a, b, node=None):
        import operator as _op
        a, b = fixed(a), fixed(b)
        fwd, rev = self.DUNDER[op]
        for obj, other, name in ((a, b, fwd), (b, a, rev)):
            if isinstance(obj, (Inst, Cls)):
                res = self.user_dunder(obj, name, other)
                if res is not None:
                    return res
        if op == "or_" and (self.is_annotation(a) and self.is_annotation(b)) and not (
                isinstance(a, ADict)):
            return self.make_union([a, b], pep604=True)
        if isinstance(a, K) and isinstance(b, K):
            if op == "mul" and isinstance(a.v, (str, list, tuple)) and isinstance(b.v, int) \
                    and b.v > 100000:
                return Sym("str", K("?"), kind="str")
            try:
                return K(getattr(_op, op)(a.v, b.v))
            except Exception as err:  # pylint: disable=broad-except
                self.raise_(type(err).__name__, K(str(err)))
        if op == "add":
            res = self.lin_add(a, b)
            if res is not None:
                return res
            ka, kb = self.seqkind(a), self.seqkind(b)
            if ka == kb == "tuple":
                return Tup(tuple(self.seq_parts(a)) + tuple(self.seq_parts(b)))
            if ka == kb == "list":
                return self.alloc(AList(tuple(self.seq_parts(a)) + tuple(self.seq_parts(b))), node)
            if ka == kb == "str":
                return self.strcat([a, b])
            if ka and kb and ka != kb or (ka and isinstance(b, K)) or (kb and isinstance(a, K)):
                self.raise_("TypeError", K("can only concatenate"))
        if op == "sub":
            res = self.lin_sub(a, b)
            if res is not None:
                return res
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, K) and isinstance(y.v, int):
                    lin = self.lin_of(x)
                    if lin is not None:
                        return self.mk_lin(lin[0] * y.v, {t: c * y.v for t, c in lin[1].items()})
                    if isinstance(x, Tup):
                        return Tup(x.items * y.v)
                    if isinstance(x, AList):
                        return self.alloc(AList(x.content * y.v), node)
                if isinstance(x, (Tup, AList)) and self.is_int(y):
                    parts = list(self.seq_parts(x))
                    lo = self.int_bounds(y)[0]
                    if len(parts) == 1 and not isinstance(parts[0], Spread) and \
                            lo is not None and lo >= 0:
                        make = Tup if isinstance(x, Tup) else AList
                        return self.remake(make, [Spread(Sym(
                            "repeat", self.freeze(parts[0]), y,
                            kind="tuple" if make is Tup else "list"))])
            if self.seqkind(a) == "str" or self.seqkind(b) == "str":
                return Sym("str", self.freeze(a), self.freeze(b), kind="str")
        if op == "mod" and self.seqkind(a) == "str":
            return self.percent(a, b)
        if op in ("or_", "and_", "sub", "xor"):
            if self.is_setlike(a) and self.is_setlike(b):
                return self.set_op(op, a, b, node)
            if op == "or_" and isinstance(a, ADict):
                new = self.alloc(ADict(a.content), node)
                self.dict_update(new, b)
                return new
            if self.kind(a) == "bool" and self.kind(b) == "bool" and op != "sub":
                if op == "and_":
                    return self.and_([a, b]) if isinstance(a, (K, Sym)) else Sym("and", a, b, kind="bool")
                if op == "or_":
                    return self.or_([a, b])
        kind = None
        if self.is_int(a) and self.is_int(b) and op in ("mul", "floordiv", "mod"):
            kind = "int"
        expr = Ext("sympy.core.expr.Expr")
        for x in (a, b):
            pt = self.pytype(x)
            if pt is not None and self.issub(pt, expr):
                kind = "expr"
        return Sym(op, self.freeze(a), self.freeze(b), kind=kind)

    def seqkind(self, v):
        if isinstance(v, (Tup,)):
            return "tuple"
        if isinstance(v, AList):
            return "list"
        pt = self.pytype(v)
        if isinstance(pt, K) and pt.v in (tuple, list, str):
            return pt.v.__name__
        return None

    def seq_parts(self, v):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, AList):
            return v.content
        if isinstance(v, K):
            return [K(x) for x in v.v]
        if isinstance(v, Sym) and v.op == "list":
            return v.args[0]
        return [Spread(v)]

    def is_setlike(self, v):
        if isinstance(v, ASet):
            return True
        if isinstance(v, Sym) and (v.kind == "set" or v.op in ("keys",)):
            return True
        pt = self.pytype(v)
        if isinstance(pt, K) and pt.v in (set, frozenset):
            return True
        return isinstance(v, ADictView)

    def set_op(self, op, a, b, node=None):
        pa, pb = list(self.spread(a)), list(self.spread(b))
        frozen = isinstance(a, ASet) and a.frozen
        if op == "or_":
            out = list(pa) + [p for p in pb if p not in pa]
            return self.make_set(out, node, frozen)
        if any(isinstance(p, Spread) for p in pa + pb):
            if op == "sub" and not any(isinstance(p, Spread) for p in pb):
                out = [Spread(Sym("sub", p.term, self.freeze(ASet(pb)), kind="set"))
                       if isinstance(p, Spread) else p for p in pa
                       if isinstance(p, Spread) or not self.truth(self.contains(Tup(pb), p))]
                return self.make_set(out, node, frozen)
            return Sym("set" + op, self.freeze(a), self.freeze(b), kind="set")
        if op == "sub":
            out = [p for p in pa if not self.truth(self.contains(Tup(pb), p))]
        elif op == "and_":
            out = [p for p in pa if self.truth(self.contains(Tup(pb), p))]
        else:
            out = [p for p in pa if not self.truth(self.contains(Tup(pb), p))]
            out += [p for p in pb if not self.truth(self.contains(Tup(pa), p))]
        return self.make_set(out, node, frozen)

    # -- strings ------------------------------------------------------------------

    def strcat(self, parts):
        flat = []
        for p in parts:
            if isinstance(p, Sym) and p.op == "str":
                flat.extend(p.args)
            else:
                flat.append(self.freeze(p))
        out = []
        for p in flat:
            if isinstance(p, K) and out and isinstance(out[-1], K) and isinstance(p.v, str) \
                    and isinstance(out[-1].v, str):
                out[-1] = K(out[-1].v + p.v)
            elif p == K(""):
                continue
            else:
                out.append(p)
        if not out:
            return K("")
        if len(out) == 1 and isinstance(out[0], K) and isinstance(out[0].v, str):
            return out[0]
        return Sym("str", *out, kind="str")

    def to_str(self, v):
        if isinstance(v, K):
            if isinstance(v.v, (str, int, float, bool, type(None))):
                return K(str(v.v))
            return Sym("str", v, kind="str")
        if isinstance(v, Sym) and v.kind == "str":
            return v
        if isinstance(v, Inst):
            res = self.user_dunder(v, "__str__")
            if res is None:
                res = self.user_dunder(v, "__repr__")
            if res is not None:
                return res
        if isinstance(v, Cls):
            res = self.user_dunder(v, "__repr__")
            if res is not None:
                return res
        if isinstance(v, (Tup, AList, ADict)):
            return self.to_repr(v)
        return Sym("str", self.freeze(v), kind="str")

    def formatted(self, v, spec):
        """ The text of ``format(v, spec)``. """
        if spec == K("") or spec == K("s"):
            return self.to_str(v)
        if isinstance(v, K) and isinstance(spec, K):
            try:
                return K(format(v.v, spec.v))
            except (TypeError, ValueError) as err:
                self.raise_(type(err).__name__, K(str(err)))
        if spec == K("d") and self.is_int(v):
            return self.to_str(v)
        return Sym("s_format", self.freeze(v), self.freeze(spec), kind="str")

    def percent(self, a, b):
        """ The text of ``a % b``. """
        args = [b]
        if isinstance(b, Tup):
            args = list(b.items)
        elif not isinstance(b, (K, Opaque, Sym, Inst, Cls, AList)) or self.pytype(b) is None or \
                isinstance(b, ADict):
            return Sym("str", a, self.freeze(b), kind="str")
        if not isinstance(a, K) or any(isinstance(x, Spread) for x in args):
            return Sym("s_percent", self.freeze(a), self.freeze(b), kind="str")
        parts = []
        for p in re.split(r"(%[^%a-zA-Z]*[a-zA-Z%])", a.v):
            if p == "%%":
                parts.append(K("%"))
            elif p.startswith("%"):
                if not args:
                    self.raise_("TypeError", K("not enough arguments for format string"))
                x = args.pop(0)
                if p == "%s" or p == "%d" and self.is_int(x):
                    parts.append(self.to_str(x))
                elif p in ("%r", "%a"):
                    parts.append(self.to_repr(x))
                else:
                    parts.append(Sym("s_percent", K(p), self.freeze(x), kind="str"))
            else:
                parts.append(K(p))
        if args:
            self.raise_("TypeError", K("not all arguments converted during string formatting"))
        return self.strcat(parts)

    def str_format(self, text, args, kwargs):
        """ The text of ``text.format(*args, **kwargs)``, or None. """
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(text):
            parts.append(K(lit))
            if field is None:
                continue
            if field == "":
                field, auto = str(auto), auto + 1
            if spec and "{" in spec:
                return None
            head = re.match(r"\w+", field)
            if head is None:
                return None
            head, rest = head.group(0), field[head.end():]
            if head.isdigit():
                if int(head) >= len(args):
                    self.raise_("IndexError", K("Replacement index out of range"))
                v = args[int(head)]
            else:
                if head not in kwargs:
                    self.raise_("KeyError", K(head))
                v = kwargs[head]
            while rest:
                step = re.match(r"\.(\w+)|\[(\w+)\]", rest)
                if step is None:
                    return None
                if step.group(1):
                    v = self.getattr(v, step.group(1))
                else:
                    key = step.group(2)
                    v = self.getitem(v, K(int(key) if key.isdigit() else key))
                rest = rest[step.end():]
            if conv in ("r", "a"):
                v = self.to_repr(v)
            elif conv == "s":
                v = self.to_str(v)
            parts.append(self.formatted(v, K(spec or "")))
        return self.strcat(parts)

    def to_repr(self, v, depth=0):
        """ The text of ``repr(v)``; that of a container is made of those of its elements. """
        if isinstance(v, K):
            if isinstance(v.v, (str, int, float, bool, type(None), bytes)) or v == ELL:
                return K(repr(v.v))
            return Sym("repr", v, kind="str")
        if isinstance(v, (Inst, Cls)):
            res = self.user_dunder(v, "__repr__")
            if res is not None:
                return res
        if isinstance(v, (Tup, AList, ADict)) and depth < 8:
            items = v.items if isinstance(v, Tup) else v.content
            if not any(isinstance(x, Spread) for x in items):
                first, last = "()" if isinstance(v, Tup) else "[]" if isinstance(v, AList) else "{}"
                parts = [K(first)]
                for i, x in enumerate(items):
                    if i:
                        parts.append(K(", "))
                    if isinstance(v, ADict):
                        parts += [self.to_repr(x[0], depth + 1), K(": "),
                                  self.to_repr(x[1], depth + 1)]
                    else:
                        parts.append(self.to_repr(x, depth + 1))
                if isinstance(v, Tup) and len(items) == 1:
                    parts.append(K(","))
                return self.strcat(parts + [K(last)])
        if isinstance(v, Val) and v.kind == "int":
            return self.to_str(v)
        return Sym("repr", self.freeze(v), kind="str")

    # -- classes --------------------------------------------------------------------

    def find_attr(self, cls, name):
        """ Look a name up along the mro (raw; analysed classes only). """
        for c in cls.mro:
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name]
        return None

    def compute_mro(self, cls):
        seqs = []
        for b in cls.bases:
            if isinstance(b, Cls):
                seqs.append(list(b.mro))
            elif isinstance(b, K) and isinstance(b.v, type):
                seqs.append([K(c) for c in b.v.__mro__])
            elif isinstance(b, Ext):
                seqs.append(self.ext_mro(b) + [K(object)])
            else:
                seqs.append([b, K(object)])
        seqs.append(list(cls.bases))
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                head = s[0]
                if not any(head in t[1:] for t in seqs):
                    break
            else:
                self.raise_("TypeError", K("Cannot create a consistent method resolution order (MRO)"))
            out.append(head)
            seqs = [[x for x in s if x != head] for s in seqs]
            seqs = [s for s in seqs if s]
        if K(object) not in out:
            out.append(K(object))
        return out

    def build_class(self, name, bases, ns, meta, module, qualname, node):
        real = []
        for b in bases:
            if isinstance(b, K) and not isinstance(b.v, type):
                res = getattr(b.v, "__mro_entries__", None)
                if res is not None:
                    real.extend(K(x) for x in res((b.v,)))
                    continue
            if isinstance(b, Inst) and b.cls == Ext("typing._GenericAlias"):
                org = b.attrs.get("__origin__")
                real.append(org if org is not None else K(typing.Generic))
                continue
            real.append(b)
        bases = real
        if meta is None:
            meta = K(type)
            for b in bases:
                bm = b.meta if isinstance(b, Cls) else K(type(b.v)) if isinstance(b, K) else K(type)
                if bm != meta and (self.issub(bm, meta) or meta == K(type)):
                    meta = bm
        attrs = dict(ns)
        if isinstance(meta, Cls):
            new = self.find_attr(meta, "__new__")
            if new is not None:
                raise_un(f"metaclass {meta!r} with __new__")
        if any(b == K(typing.Protocol) or isinstance(b, K) and getattr(b.v, "_is_protocol", False)
               or isinstance(b, Cls) and self.is_protocol(b) for b in bases):
            attrs.setdefault("_is_protocol", kbool(K(typing.Protocol) in bases))
        return self.finish_class(name, bases, attrs, meta, module, qualname, node)

    def finish_class(self, name, bases, attrs, meta, module, qualname, node):
        bases = tuple(bases) if bases else (K(object),)
        cls = Cls(name, bases, attrs, meta, module, qualname, node)
        self.alloc(cls, node)
        cls.mro = self.compute_mro(cls)
        cls.annos = ([], None)
        # __init_subclass__ of the bases.
        for c in cls.mro[1:]:
            if isinstance(c, Cls) and "__init_subclass__" in c.attrs:
                hook = c.attrs["__init_subclass__"]
                if isinstance(hook, Wrap):
                    hook = hook.fn
                self.call(hook, [cls], {}, node)
                break
        if isinstance(meta, Cls):
            init = self.find_attr(meta, "__init__")
            if init is not None:
                d = ADict([(K(k), v) for k, v in attrs.items()])
                self.call(init, [cls, K(name), Tup(bases), d], {}, node)
        return cls

    # -- attributes --------------------------------------------------------------------

    _ABSENT = object()

    def getattr(self, v, name, default=None):
        res = self.lookup_attr(v, name)
        if res is self._ABSENT:
            if default is not None:
                return default
            self.raise_("AttributeError", K(name))
        return res

    def hasattr(self, v, name):
        if isinstance(v, (Opaque, Sym)) and self.opaque_attr(v, name) is None:
            return Sym("hasattr", v, K(name), kind="bool")
        try:
            return kbool(self.lookup_attr(v, name) is not self._ABSENT)
        except self.AbsRaiseT as err:
            if self.exc_matches(err.exc, K(AttributeError)):
                return FALSE
            raise

    def bind(self, fn, self_, cls):
        """ Descriptor protocol for a function found on a class. """
        if isinstance(fn, (Fn, Native)):
            return Bound(fn, self_)
        if isinstance(fn, Wrap):
            if fn.which == "classmethod":
                return Bound(fn.fn, cls)
            if fn.which == "staticmethod":
                return fn.fn
            if fn.which == "property":
                return self.call(fn.fn, [self_], {}, None)
        return fn

    def lookup_attr(self, v, name):
        """ The attribute, or ``_ABSENT``. """
        # pylint: disable=too-many-return-statements, too-many-branches
        if isinstance(v, Mod):
            if name in v.scope.vars:
                return v.scope.vars[name]
            if name == "__dict__":
                d = ADict([(K(k), x) for k, x in v.scope.vars.items()])
                d.live_scope = v.scope
                return d
            sub = f"{v.name}.{name}"
            if sub in self.engine.modules:
                mod = self.engine.modules[sub]
                return mod.replaced or mod
            getter = v.scope.vars.get("__getattr__")
            if getter is not None:
                try:
                    return self.call(getter, [K(name)], {}, None)
                except self.AbsRaiseT as err:
                    if self.exc_matches(err.exc, K(AttributeError)):
                        return self._ABSENT
                    raise
            return self._ABSENT
        if isinstance(v, K):
            return self.k_attr(v, name)
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, Inst):
            return self.inst_attr(v, name)
        if isinstance(v, Cls):
            return self.cls_attr(v, name)
        if isinstance(v, Fn):
            return self.fn_attr(v, name)
        if isinstance(v, Bound):
            if name == "__func__":
                return v.fn
            if name == "__self__":
                return v.self_
            return self.lookup_attr(v.fn, name)
        if isinstance(v, Native):
            if name in ("__name__", "__qualname__"):
                return K(v.name)
            if name == "__wrapped__" and isinstance(v.data, dict) and "wrapped" in v.data:
                return v.data["wrapped"]
            if isinstance(v.data, dict) and name in v.data.get("methods", {}):
                return v.data["methods"][name]
            if name == "__module__":
                return K("builtins")
            return self._ABSENT
        if isinstance(v, Wrap):
            if name in ("__func__", "__wrapped__") and v.which != "property":
                return v.fn
            if v.which == "property" and name in ("fget",):
                return v.fn
            if v.which == "property" and name in ("setter", "getter", "deleter"):
                return Native(name, lambda it, a, k, n: Wrap("property", v.fn, {name: a[0]}))
            return self.lookup_attr(v.fn, name)
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, Exc):
            if name == "args":
                return Tup(v.args)
            if name == "__class__":
                return v.cls
            if name in ("with_traceback",):
                return Native(name, lambda it, a, k, n: v)
            if name in ("__cause__", "__context__", "__traceback__"):
                return NONE
            if isinstance(v.cls, Cls):
                res = self.find_attr(v.cls, name)
                if res is not None:
                    return self.bind(res, v, v.cls)
            return self._ABSENT
        if isinstance(v, Gen):
            return self.method(v, name)
        if isinstance(v, (Tup, AList, ASet, ADict)):
            if name == "__class__":
                return self.pytype(v)
            if hasattr(self.pytype(v).v, name):
                return self.method(v, name)
            return self._ABSENT
        if isinstance(v, (Opaque, Sym)):
            res = self.opaque_attr(v, name)
            if res is not None:
                return res
            if name == "__class__":
                pt = self.pytype(v)
                return pt if pt is not None else Sym("typeof", v)
            has = self.facts.get(Sym("hasattr", v, K(name), kind="bool"))
            if has is False:
                return self._ABSENT
            if isinstance(v, Sym):
                pt = self.pytype(v)
                if isinstance(pt, K) and pt.v in (str, tuple, list, dict, set, int, bool) \
                        and hasattr(pt.v, name):
                    return self.method(v, name)
            kind = None
            if name == "shape" and isinstance(v, Opaque):
                kind = None
            return Sym("attr", v, name, kind=kind)
        raise_un(f"attribute {name} of {v!r}")

    def opaque_attr(self, v, name):
        key = (v, name)
        if key in self.opaque_overlay:
            return self.opaque_overlay[key]
        if isinstance(v, Opaque):
            if name in v.attrs:
                res = v.attrs[name]
                if callable(res) and not isinstance(res, Val):
                    return res(self, v)
                return res
            pt = self.pytype(v)
            if isinstance(pt, K) and pt.v in (str, tuple, list, dict, set, int, bool, float,
                                              frozenset) and hasattr(pt.v, name):
                return self.method(v, name)
            if name == "__class__" and v.pytype is not None:
                return v.pytype
            if isinstance(v.pytype, Cls):
                res = self.find_attr(v.pytype, name)
                if res is not None:
                    return self.bind(res, v, v.pytype)
            if v.closed:
                return self._ABSENT
        elif isinstance(v, Sym):
            if v.op == "typeof" and name in ("__name__", "__qualname__", "__module__"):
                return Sym("attr", v, name, kind="str")
            if name in NO_ATTRS and False:
                return self._ABSENT
        return None

    def method(self, v, name):
        return Native(name, lambda it, args, kwargs, node: it.call_builtin_method(
            v, name, args, kwargs, node), data={"self": v, "method": name})

    def k_attr(self, v, name):
        if isinstance(v.v, types.ModuleType):
            return self.module_attr(v, name)
        if isinstance(v.v, (str, bytes, int, float, tuple, frozenset, complex)) and not \
                isinstance(v.v, type) and callable(getattr(v.v, name, None)) and name != "__class__":
            return self.method(v, name)
        try:
            res = getattr(v.v, name)
        except AttributeError:
            return self._ABSENT
        except Exception:  # pylint: disable=broad-except
            return self._ABSENT
        return self.lift(res)

    def lift(self, obj):
        if isinstance(obj, Val):
            return obj
        if type(obj) is tuple:
            return Tup([self.lift(x) for x in obj])
        if type(obj) is dict:
            return ADict([(self.lift(k), self.lift(x)) for k, x in obj.items()])
        if type(obj) is list:
            return AList([self.lift(x) for x in obj])
        if isinstance(obj, types.MappingProxyType):
            return Opaque(f"dict of {id(obj)}", kind="dict")
        return K(obj)

    def inst_attr(self, v, name):
        cls = v.cls
        if isinstance(cls, Cls):
            raw = self.find_attr(cls, name)
            if isinstance(raw, Wrap) and raw.which == "property":
                return self.bind(raw, v, cls)
            if name in v.attrs:
                return v.attrs[name]
            if name == "__dict__":
                d = ADict([(K(k), x) for k, x in v.attrs.items()])
                d.live_obj = v
                return d
            if raw is not None:
                return self.bind(raw, v, cls)
            if name == "__class__":
                return cls
            for c in cls.mro:
                if isinstance(c, K) and c.v is not object and hasattr(c.v, name):
                    return self.method(v, name)
                if isinstance(c, Ext) and name in EXT_ATTRS:
                    return Sym("attr", v, name)
            if name == "__setattr__":
                return Native(name, lambda it, a, k, n: (it.inst_set(v, a[0].v, a[1]), NONE)[1])
            if name in ("__init__", "__repr__", "__str__", "__eq__", "__hash__", "__ne__"):
                return Native(name, lambda it, a, k, n: NONE)
            if name == "__module__":
                return K(cls.module)
            if name == "__doc__":
                return NONE
            getter = self.find_attr(cls, "__getattr__")
            if getter is not None:
                try:
                    return self.call(getter, [v, K(name)], {}, None)
                except self.AbsRaiseT as err:
                    if self.exc_matches(err.exc, K(AttributeError)):
                        return self._ABSENT
                    raise
            return self._ABSENT
        if name in v.attrs:
            return v.attrs[name]
        if name == "__class__":
            return cls
        return self.ext_inst_attr(v, name)

    def super_attr(self, v, name):
        obj = v.self_
        mro = (obj.mro if isinstance(obj, Cls) and v.cls in obj.mro else
               obj.cls.mro if isinstance(obj, Inst) else obj.meta.mro)
        i = mro.index(v.cls)
        for c in mro[i + 1:]:
            if isinstance(c, Cls) and name in c.attrs:
                raw = c.attrs[name]
                if name == "__new__" and isinstance(raw, Fn):
                    return raw
                return self.bind(raw, obj, obj if isinstance(obj, Cls) else obj.cls)
        if name == "__init__" or name == "__init_subclass__":
            return Native(name, lambda it, a, k, n: NONE)
        if name == "__setattr__":
            return Native(name, lambda it, a, k, n: (it.raw_set(obj, a[0].v, a[1]), NONE)[1])
        if name == "__getattribute__":
            return Native(name, lambda it, a, k, n: it.getattr(obj, a[0].v))
        if name == "__new__":
            return Native(name, lambda it, a, k, n: it.alloc(Inst(a[0]), n))
        if name == "__hash__":
            return Native(name, lambda it, a, k, n: Sym("identity_hash", obj, kind="int"))
        if name == "__repr__":
            return Native(name, lambda it, a, k, n: Sym("str", K("<object>"), kind="str"))
        if name == "__eq__":
            return Native(name, lambda it, a, k, n: it.is_(obj, a[0]))
        if name == "__ne__":
            return Native(name, lambda it, a, k, n: it.not_(it.compare_eq(obj, a[0])))
        if name == "__instancecheck__":
            return Native(name, lambda it, a, k, n: it.plain_isinstance(a[0], obj))
        if name == "__call__" and isinstance(obj, Cls):
            return Native(name, lambda it, a, k, n: it.instantiate_plain(obj, a, k, n))
        if name == "__dir__":
            return Native(name, lambda it, a, k, n: Sym("dir", obj, kind="list"))
        return self._ABSENT

    def plain_isinstance(self, v, cls):
        pt = self.pytype(v)
        if pt is not None:
            res = self.issub(pt, cls)
            if res is not None:
                return kbool(res)
        return Sym("isinstance", self.freeze(v), cls, kind="bool")

    def cls_attr(self, v, name):
        meta = v.meta
        if isinstance(meta, Cls):
            raw = self.find_attr(meta, name)
            if isinstance(raw, Wrap) and raw.which == "property":
                return self.bind(raw, v, meta)
        if name == "__dict__":
            d = ADict([(K(k), x) for k, x in v.attrs.items()])
            d.live_obj = v
            return d
        raw = self.find_attr(v, name)
        if name == "__annotations__":
            if "__annotations__" in v.attrs:
                return v.attrs["__annotations__"]
            annos, scope = v.annos
            if scope is None:
                return ADict(())
            return ADict([(K(n), self.ev(a, scope)) for n, a in annos])
        if raw is not None:
            if isinstance(raw, Wrap):
                return self.bind(raw, None, v) if raw.which != "property" else raw
            return raw
        if isinstance(meta, Cls):
            raw = self.find_attr(meta, name)
            if raw is not None:
                return self.bind(raw, v, meta)
        simple = {
            "__name__": K(v.name), "__qualname__": K(v.qualname), "__module__": K(v.module),
            "__bases__": Tup(v.bases), "__mro__": Tup(v.mro), "__class__": v.meta, "__doc__": NONE,
        }
        if name in simple:
            return simple[name]
        for c in v.mro:
            if isinstance(c, Ext) and name in EXT_ATTRS:
                return Sym("attr", c, name)
            if isinstance(c, K) and c.v is not object and name in vars(c.v):
                return K(getattr(c.v, name)) if not callable(getattr(c.v, name)) else \
                    K(getattr(c.v, name))
            if isinstance(c, Opaque):
                return Sym("attr", c, name)
        if name == "mro":
            return Native("mro", lambda it, a, k, n: AList(v.mro))
        if name in ("__new__", "__init__", "__hash__", "__eq__", "__repr__", "__setattr__",
                    "__instancecheck__", "__subclasscheck__", "__call__"):
            return Native(name, lambda it, a, k, n: raise_un(f"{name} of {v!r}"))
        if isinstance(meta, Cls):
            getter = self.find_attr(meta, "__getattr__")
            if getter is not None:
                try:
                    return self.call(getter, [v, K(name)], {}, None)
                except self.AbsRaiseT as err:
                    if self.exc_matches(err.exc, K(AttributeError)):
                        return self._ABSENT
                    raise
        return self._ABSENT

    def fn_annotations(self, v):
        if "__annotations__" not in v.attrs:
            d = ADict(())
            if not isinstance(v.node, ast.Lambda):
                a = v.node.args
                pairs = []
                # The compiler's order: positional-only parameters come second.
                params = a.args + a.posonlyargs
                params += [a.vararg] if a.vararg else []
                params += a.kwonlyargs
                params += [a.kwarg] if a.kwarg else []
                for p in params:
                    if p.annotation is not None:
                        pairs.append((K(p.arg), self.ev(p.annotation, v.scope)))
                if v.node.returns is not None:
                    pairs.append((K("return"), self.ev(v.node.returns, v.scope)))
                d = ADict(pairs)
            # Not journalled: a lazily computed constant.
            v.attrs["__annotations__"] = d
            d.birth = v.birth
        return v.attrs["__annotations__"]

    def fn_attr(self, v, name):
        if name == "__annotations__":
            return self.fn_annotations(v)
        if name in v.attrs:
            return v.attrs[name]
        if name == "__name__":
            return K(v.name)
        if name == "__qualname__":
            return K(v.qualname)
        if name == "__module__":
            return K(v.module)
        if name == "__doc__":
            doc = ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None
            return K(doc)
        if name == "__dict__":
            d = ADict([(K(k), x) for k, x in v.attrs.items() if not k.startswith("__")])
            d.live_obj = v
            return d
        if name == "__defaults__":
            return Tup(v.defaults) if v.defaults else NONE
        if name == "__kwdefaults__":
            pairs = [(K(a.arg), d) for a, d in zip(v.node.args.kwonlyargs, v.kwdefaults)
                     if d is not None]
            return ADict(pairs) if pairs else NONE
        if name == "__code__":
            a = v.node.args
            pos = [p.arg for p in a.posonlyargs + a.args]
            kwo = [p.arg for p in a.kwonlyargs]
            names = pos + kwo
            flags = 0
            if a.vararg:
                names.append(a.vararg.arg)
                flags |= 4
            if a.kwarg:
                names.append(a.kwarg.arg)
                flags |= 8
            return Inst(Ext("code"), {
                "co_varnames": Tup([K(n) for n in names]), "co_argcount": K(len(pos)),
                "co_kwonlyargcount": K(len(kwo)), "co_flags": K(flags),
                "co_posonlyargcount": K(len(a.posonlyargs)), "co_name": K(v.name),
            })
        if name == "__globals__":
            return self.lookup_attr(self.engine.modules[v.module], "__dict__")
        if name == "__call__":
            return v
        if name == "__class__":
            return K(types.FunctionType)
        if name == "__get__":
            return Native("__get__", lambda it, a, k, n: it.bind(v, a[0], None)
                          if a[0] != NONE else v)
        if name in ("__closure__", "__type_params__"):
            return NONE
        return self._ABSENT

    def setattr(self, v, name, value):
        if isinstance(v, Inst):
            if isinstance(v.cls, Cls):
                raw = self.find_attr(v.cls, "__setattr__")
                if raw is not None:
                    self.call(raw, [v, K(name), value], {}, None)
                    return
                prop = self.find_attr(v.cls, name)
                if isinstance(prop, Wrap) and prop.which == "property":
                    setter = prop.extra.get("setter")
                    if setter is None:
                        self.raise_("AttributeError", K(name))
                    self.call(setter, [v, value], {}, None)
                    return
            self.inst_set(v, name, value)
            return
        if isinstance(v, Cls):
            if isinstance(v.meta, Cls):
                raw = self.find_attr(v.meta, "__setattr__")
                if raw is not None:
                    self.call(raw, [v, K(name), value], {}, None)
                    return
            self.event("write", target=v, attr=name, value=self.freeze(value), what="class")
            self.write(v, ("attr", name), value)
            return
        self.raw_set(v, name, value)

    def inst_set(self, v, name, value):
        self.event("write", target=v, attr=name, value=self.freeze(value), what="instance")
        self.write(v, ("attr", name), value)

    def raw_set(self, v, name, value):
        if isinstance(v, Inst):
            self.inst_set(v, name, value)
        elif isinstance(v, Cls):
            self.event("write", target=v, attr=name, value=self.freeze(value), what="class")
            self.write(v, ("attr", name), value)
        elif isinstance(v, Fn):
            self.event("write", target=v, attr=name, value=self.freeze(value), what="function")
            self.write(v, ("attr", name), value)
        elif isinstance(v, Mod):
            self.event("write", target=v.scope, attr=name, value=self.freeze(value), what="global")
            self.setvar(v.scope, name, value)
        elif isinstance(v, (Opaque, Sym, Ext)):
            self.event("write", target=v, attr=name, value=self.freeze(value), what="opaque")
            self.opaque_overlay = dict(self.opaque_overlay)
            self.opaque_overlay[(v, name)] = value
        elif isinstance(v, K):
            if isinstance(v.v, type):
                self.raise_("TypeError", K("cannot set attribute of immutable type"))
            self.event("write", target=v, attr=name, value=self.freeze(value), what="opaque")
        elif isinstance(v, Exc):
            pass
        else:
            self.raise_("AttributeError", K(name))

    def delattr(self, v, name):
        self.event("write", target=v, attr=name, value=NONE, what="delete")
        if isinstance(v, (Inst, Cls, Fn)):
            if name not in v.attrs:
                self.raise_("AttributeError", K(name))
            self.write(v, ("attr", name), self._MISSING)
        elif isinstance(v, Mod):
            self.write(v.scope, ("var", name), self._MISSING)

    def mutated(self, obj, method):
        self.event("mutate", target=obj, method=method)

    # -- items ----------------------------------------------------------------------

    def is_annotation(self, v):
        """ May the value stand on either side of ``X | Y``? """
        if isinstance(v, K):
            return v.v is None or isinstance(v.v, (type,) + TYPING_GENERIC) or \
                isinstance(v.v, types.UnionType)
        if isinstance(v, (Cls,)):
            return True
        if isinstance(v, Ext):
            return v.path in EXT_BASES
        if isinstance(v, Inst):
            return v.cls in (Ext("typing._GenericAlias"), Ext("types.UnionType"))
        return isinstance(v, Opaque) and v.isclass is True

    def unlift(self, v):
        """ The Python object of a constant annotation (or None). """
        if isinstance(v, K):
            return (v.v,)
        if isinstance(v, Tup):
            parts = [self.unlift(x) for x in v.items]
            if None in parts:
                return None
            return (tuple(p[0] for p in parts),)
        if isinstance(v, AList):
            parts = [self.unlift(x) for x in v.content]
            if None in parts:
                return None
            return ([p[0] for p in parts],)
        return None

    def make_union(self, members, pep604=False):
        flat = []
        for m in members:
            if m == NONE:
                m = K(type(None))
            if isinstance(m, K) and isinstance(m.v, types.UnionType):
                flat.extend(K(a) for a in m.v.__args__)
            elif isinstance(m, Inst) and m.attrs.get("__origin__") == K(typing.Union):
                flat.extend(m.attrs["__args__"].items)
            elif isinstance(m, Inst) and m.cls == Ext("types.UnionType"):
                flat.extend(m.attrs["__args__"].items)
            else:
                flat.append(m)
        uniq = []
        for m in flat:
            if m not in uniq:
                uniq.append(m)
        if pep604:
            real = [self.unlift(m) for m in uniq]
            if None not in real and all(isinstance(m, K) for m in uniq):
                try:
                    out = real[0][0]
                    for r in real[1:]:
                        out = out | r[0]
                    return K(out)
                except TypeError:
                    pass
            return Inst(Ext("types.UnionType"), {"__args__": Tup(uniq)})
        return self.alias(K(typing.Union), K(typing.Union), Tup(uniq))

    def alias(self, base, origin, args):
        return Inst(Ext("typing._GenericAlias"), {
            "__origin__": origin, "__args__": args, "base": base,
            "__name__": K(getattr(base.v, "__name__", getattr(base.v, "_name", "?"))),
            "_name": K(getattr(base.v, "_name", "?")),
        })

    def getitem(self, base, idx, node=None):
        if isinstance(base, Cls):
            if isinstance(base.meta, Cls):
                raw = self.find_attr(base.meta, "__getitem__")
                if raw is not None:
                    return self.call(raw, [base, idx], {}, node)
            raw = self.find_attr(base, "__class_getitem__")
            if raw is not None:
                fn = raw.fn if isinstance(raw, Wrap) else raw
                return self.call(fn, [base, idx], {}, node)
            for c in base.mro:
                if isinstance(c, K) and hasattr(c.v, "__class_getitem__"):
                    return self.alias(K(typing.Generic), base, idx if isinstance(idx, Tup) else Tup([idx]))
            self.raise_("TypeError", K("class is not subscriptable"))
        if isinstance(base, K):
            if isinstance(base.v, (type,) + TYPING_GENERIC) or base.v in (
                    typing.Union, typing.Optional, typing.Literal, typing.Any, typing.ClassVar,
                    typing.Final, typing.Required, typing.NotRequired):
                return self.subscript_typing(base, idx)
            return self.k_item(base, idx, node)
        base = fixed(base)
        if isinstance(base, (Tup, AList)):
            return self.seq_item(base, idx, node)
        if isinstance(base, ADict):
            return self.dict_get(base, idx, raising=True)
        if isinstance(base, Inst):
            if isinstance(base.cls, Cls):
                if self.find_attr(base.cls, "__getitem__") is not None:
                    return self.call_method(base, "__getitem__", [idx])
                for c in base.cls.mro:
                    if isinstance(c, K) and c.v is not object and hasattr(c.v, "__getitem__"):
                        return Sym("item", base, self.freeze(idx))
            self.raise_("TypeError", K("object is not subscriptable"))
        if isinstance(base, (Sym, Opaque, Ext)):
            return self.sym_item(base, idx, node)
        if isinstance(base, ASet) or isinstance(base, Gen):
            self.raise_("TypeError", K("object is not subscriptable"))
        raise_un(f"item of {base!r}")

    def subscript_typing(self, base, idx):
        raw = self.unlift(idx)
        if raw is not None:
            try:
                return K(base.v[raw[0]])
            except TypeError as err:
                self.raise_("TypeError", K(str(err)))
        args = idx if isinstance(idx, Tup) else Tup([idx])
        if base.v is typing.Union:
            if len(args.items) == 1:
                return args.items[0]
            return self.make_union(args.items)
        if base.v is typing.Optional:
            return self.make_union([idx, NONE])
        if base.v is typing.Literal:
            return self.alias(base, base, args)
        if base.v is typing.Annotated:
            out = self.alias(base, args.items[0], Tup(args.items[:1]))
            out.attrs["__metadata__"] = Tup(args.items[1:])
            return out
        origin = getattr(base.v, "__origin__", base.v)
        return self.alias(base, K(origin), args)

    def k_item(self, base, idx, node):
        raw = self.unlift(idx)
        if isinstance(idx, Sym) and idx.op == "sliceobj":
            parts = [self.unlift(a) for a in idx.args]
            if None not in parts:
                raw = (slice(*[p[0] for p in parts]),)
        if raw is not None:
            try:
                return self.lift(base.v[raw[0]])
            except (KeyError, IndexError, TypeError) as err:
                self.raise_(type(err).__name__, K(str(err)))
        if isinstance(base.v, dict):
            return Sym("item", base, self.freeze(idx))
        return Sym("item", base, self.freeze(idx), kind="str" if isinstance(base.v, str) else None)

    def seq_item(self, base, idx, node):
        content = base.items if isinstance(base, Tup) else base.content
        make = Tup if isinstance(base, Tup) else AList
        if isinstance(idx, Sym) and idx.op == "sliceobj":
            return self.seq_slice(base, content, make, idx)
        if isinstance(idx, K) and isinstance(idx.v, int):
            i = int(idx.v)
            seq = content if i >= 0 else tuple(reversed(content))
            n = i if i >= 0 else -i - 1
            for j, part in enumerate(seq):
                if isinstance(part, Spread):
                    if j == 0 and len(seq) == 1:
                        return self.sym_item(part.term, idx, node)
                    known = self.known_nonempty(part.term)
                    if known is False:
                        continue
                    if not self.test(self.nonempty_pred(part.term)):
                        rest = [p for p in content if p is not part]
                        return self.seq_item(make(rest), idx, node)
                    return self.sym_item(part.term, K(n if i >= 0 else -n - 1), node)
                if n == 0:
                    return part
                n -= 1
            self.raise_("IndexError", K("index out of range"))
        if isinstance(idx, K):
            self.raise_("TypeError", K("indices must be integers"))
        # Symbolic index.
        if isinstance(idx, Sym) and idx.op == "idx":
            if len(content) == 1 and isinstance(content[0], Spread):
                return self.sym_item(content[0].term, idx, node)
        if not any(isinstance(p, Spread) for p in content) and self.is_int(idx) and content:
            options = []
            for i, part in enumerate(content):
                if self.test(self.eq_int(idx, K(i))):
                    return part
            for i, part in enumerate(content):
                if self.test(self.eq_int(idx, K(i - len(content)))):
                    return part
            del options
            self.raise_("IndexError", K("index out of range"))
        return Sym("item", self.freeze(base), self.freeze(idx))

    def seq_slice(self, base, content, make, idx):
        lo, hi, step = idx.args
        spreads = [i for i, p in enumerate(content) if isinstance(p, Spread)]
        if not spreads and all(isinstance(x, K) for x in (lo, hi, step)):
            return self.remake(make, content[slice(lo.v, hi.v, step.v)])
        if step in (NONE, K(1)):
            if lo in (NONE, K(0)) and hi == NONE:
                return self.remake(make, content)
            # A constant prefix or suffix cut off.
            first = spreads[0] if spreads else len(content)
            last = spreads[-1] if spreads else -1
            if isinstance(lo, K) and (lo.v is None or 0 <= lo.v <= first) and hi == NONE:
                return self.remake(make, content[lo.v or 0:])
            if lo in (NONE, K(0)) and isinstance(hi, K) and hi.v is not None and 0 <= hi.v <= first:
                return self.remake(make, content[:hi.v])
            if isinstance(hi, K) and hi.v is not None and hi.v < 0 and \
                    -hi.v <= len(content) - 1 - last and lo in (NONE, K(0)):
                return self.remake(make, content[:hi.v])
            if isinstance(lo, K) and lo.v is not None and lo.v < 0 and hi == NONE and \
                    -lo.v <= len(content) - 1 - last:
                return self.remake(make, content[lo.v:])
            if isinstance(hi, Sym) or isinstance(lo, Sym) or isinstance(hi, Opaque) \
                    or isinstance(lo, Opaque):
                if not spreads:
                    n = len(content)
                    los = self.pick_index(lo, n, 0)
                    his = self.pick_index(hi, n, n)
                    return self.remake(make, content[los:his])
        if step == K(-1) and lo == NONE and hi == NONE:
            out = [Spread(Sym("reversed", p.term)) if isinstance(p, Spread) else p
                   for p in reversed(content)]
            return self.remake(make, out)
        if len(content) == 1 and spreads:
            kind = "tuple" if make is Tup else "list"
            return self.remake(make, [Spread(self.sym_slice(content[0].term, lo, hi, step, kind))])
        kind = "tuple" if make is Tup else "list"
        return self.remake(make, [Spread(Sym("slice", self.freeze(base), lo, hi, step, kind=kind))])

    def pick_index(self, v, n, default):
        if v == NONE:
            return default
        if isinstance(v, K):
            return v.v
        for i in range(n):
            if self.test(self.eq_int(v, K(i))):
                return i
        if self.test(self.ge0(self.lin_sub(v, K(n)))):
            return n
        for i in range(1, n + 1):
            if self.test(self.eq_int(v, K(-i))):
                return -i
        return -n - 1

    def remake(self, make, content):
        if make is Tup:
            return Tup(content)
        return self.alloc(AList(content))

    def sym_slice(self, term, lo, hi, step, kind):
        if step in (NONE, K(1)) and lo in (NONE, K(0)) and hi == NONE:
            return term
        return Sym("slice", term, lo, hi, step, kind=kind)

    def sym_item(self, base, idx, node=None):
        if isinstance(idx, Sym) and idx.op == "sliceobj":
            pt = self.pytype(base)
            kind = self.kind(base) or (pt.v.__name__ if isinstance(pt, K) and pt.v in (
                tuple, list, str) else None)
            lo, hi, step = (self.freeze(a) for a in idx.args)
            return self.sym_slice(base, lo, hi, step, kind)
        if isinstance(base, Sym) and base.op == "repeat":
            return base.args[0]
        hook = getattr(base, "getitem", None)
        if hook is not None:
            return hook(self, base, idx)
        if isinstance(idx, Sym) and idx.op == "idx" and idx.args[0] == base:
            return Sym("elem", base, idx.args[1])
        if isinstance(idx, Sym) and idx.op == "key" and idx.args[0] == base:
            return Sym("val", base, idx.args[1])
        if isinstance(idx, Sym) and idx.op == "phi":
            info = self.engine.phiinfo.get(idx)
            if info is not None and info[0] == K(0) and info[1] == (1,):
                length = self.length(base)
                if self.known_truth(self.ge0(self.lin_sub(self.lin_sub(length, idx), K(1)))):
                    return Sym("elem", base, K(idx))
        if base.__class__ is Sym and base.op == "keys":
            pass
        return Sym("item", base, self.freeze(idx),
                   kind="str" if base == Ext("os.environ") else None)

    def setitem(self, base, idx, value):
        if isinstance(base, ADict):
            self.dict_set(base, idx, value)
            return
        if isinstance(base, AList):
            self.mutated(base, "__setitem__")
            if isinstance(idx, K) and isinstance(idx.v, int) and not any(
                    isinstance(p, Spread) for p in base.content):
                content = list(base.content)
                try:
                    content[idx.v] = value
                except IndexError:
                    self.raise_("IndexError")
                self.setcontent(base, content)
                return
            if isinstance(idx, Sym) and idx.op == "sliceobj" and idx.args == (NONE, NONE, NONE):
                self.setcontent(base, self.spread(value))
                return
            raise_un("assignment to a list item")
        if isinstance(base, Inst):
            if isinstance(base.cls, Cls) and self.find_attr(base.cls, "__setitem__") is not None:
                self.call_method(base, "__setitem__", [idx, value])
                return
            self.event("mutate", target=base, method="__setitem__")
            return
        if isinstance(base, K) and isinstance(base.v, (str, tuple)) or isinstance(base, Tup):
            self.raise_("TypeError", K("object does not support item assignment"))
        if isinstance(base, Opaque) and base.on_setitem is not None:
            base.on_setitem(self, base, idx, value)
            return
        if base == Ext("sys.modules") and isinstance(idx, K) and idx.v in self.engine.modules:
            mod = self.engine.modules[idx.v]
            if self.setup_mode:
                mod.replaced = value
                return
        self.event("mutate", target=base, method="__setitem__", args=(self.freeze(idx), self.freeze(value)))

    def delitem(self, base, idx):
        if isinstance(base, ADict):
            self.mutated(base, "__delitem__")
            content = [e for e in base.content if isinstance(e, Spread) or e[0] != idx]
            if len(content) == len(base.content) and not any(isinstance(e, Spread) for e in content):
                self.raise_("KeyError", idx)
            self.setcontent(base, content)
            return
        if isinstance(base, AList) and isinstance(idx, K) and isinstance(idx.v, int):
            self.mutated(base, "__delitem__")
            content = list(base.content)
            try:
                del content[idx.v]
            except IndexError:
                self.raise_("IndexError")
            self.setcontent(base, content)
            return
        self.event("mutate", target=base, method="__delitem__")

    # -- dictionaries -------------------------------------------------------------------

    def check_hashable(self, v):
        if isinstance(v, (AList, ADict)) or isinstance(v, ASet) and not v.frozen:
            self.raise_("TypeError", K(f"unhashable type: '{self.pytype(v).v.__name__}'"))
        if isinstance(v, K):
            try:
                hash(v.v)
            except TypeError as err:
                self.raise_("TypeError", K(str(err)))
        if isinstance(v, Tup):
            for x in v.items:
                if not isinstance(x, Spread):
                    self.check_hashable(x)
        if isinstance(v, Opaque) and v.unhashable:
            self.raise_("TypeError", K("unhashable type"))
        if isinstance(v, Cls) and isinstance(v.meta, Cls):
            for c in v.meta.mro:
                if isinstance(c, Cls) and ("__hash__" in c.attrs or "__eq__" in c.attrs):
                    if "__hash__" not in c.attrs or c.attrs["__hash__"] == NONE:
                        self.raise_("TypeError", K("unhashable type"))
                    break

    def key_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, K) and isinstance(b, K):
            try:
                return a.v == b.v
            except Exception:  # pylint: disable=broad-except
                return False
        return a == b

    def dict_set(self, d, key, value):
        self.check_hashable(key)
        self.mutated(d, "__setitem__")
        scope = getattr(d, "live_scope", None)
        if scope is not None and isinstance(key, K):
            self.event("write", target=scope, attr=key.v, value=self.freeze(value), what="global")
            self.setvar(scope, key.v, value)
        obj = getattr(d, "live_obj", None)
        if obj is not None and isinstance(key, K):
            self.raw_set(obj, key.v, value)
        content = []
        done = False
        for e in d.content:
            if not isinstance(e, Spread) and not done and self.key_same(e[0], key):
                content.append((e[0], value))
                done = True
            else:
                content.append(e)
        if not done:
            content.append((key, value))
        self.setcontent(d, content)

    def dict_entries(self, d):
        if isinstance(d, ADict):
            return list(d.content)
        if isinstance(d, K) and isinstance(d.v, dict):
            return [(self.lift(k), self.lift(v)) for k, v in d.v.items()]
        if isinstance(d, (Sym, Opaque)):
            return [Spread(d)]
        if isinstance(d, Inst) and isinstance(d.cls, Cls):
            keys = self.call_method(d, "keys", [])
            return [(k, self.getitem(d, k)) for k in self.spread(keys)]
        if isinstance(d, (Inst,)) and "entries" in d.attrs:
            return list(d.attrs["entries"].content)
        raise_un(f"mapping {d!r}")

    def dict_update(self, d, other):
        if isinstance(other, (AList, Tup, Gen, ASet)):
            for pair in self.spread(other):
                if isinstance(pair, Spread):
                    self.mutated(d, "update")
                    self.setcontent(d, d.content + (pair,))
                else:
                    k, v = self.spread(pair)
                    self.dict_set(d, k, v)
            return
        for e in self.dict_entries(other):
            if isinstance(e, Spread):
                self.mutated(d, "update")
                self.setcontent(d, d.content + (e,))
            else:
                self.dict_set(d, e[0], e[1])

    def dict_get(self, d, key, default=None, raising=False):
        self.check_hashable(key)
        scope = getattr(d, "live_scope", None)
        if scope is not None and isinstance(key, K):
            if key.v in scope.vars:
                return scope.vars[key.v]
            if raising:
                self.raise_("KeyError", key)
            return default
        unknown = []
        for e in reversed(d.content):
            if isinstance(e, Spread):
                if self.test(Sym("in", self.freeze(key), e.term, kind="bool")):
                    return self.sym_item(e.term, key)
                continue
            if self.key_same(e[0], key):
                return e[1]
            if isinstance(key, (Sym, Opaque)) and not isinstance(e[0], Obj) or \
                    isinstance(e[0], (Sym, Opaque)) and not isinstance(key, Obj):
                pred = self.compare_eq(e[0], key)
                if pred == TRUE:
                    return e[1]
                if pred != FALSE:
                    unknown.append((pred, e[1]))
            elif isinstance(key, Cls) and isinstance(e[0], Cls) or \
                    isinstance(key, Tup) and isinstance(e[0], Tup):
                pred = self.compare_eq(e[0], key)
                if pred != FALSE:
                    unknown.append((pred, e[1]))
        for pred, val in unknown:
            if self.truth(pred):
                return val
        if raising:
            self.raise_("KeyError", key)
        return default

    # -- iteration ----------------------------------------------------------------------

    def elements(self, v, node=None):
        """ The parts (values and Spreads) of an iterable value. """
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, (AList, ASet)):
            return v.content
        if isinstance(v, ADict):
            scope = getattr(v, "live_scope", None)
            del scope
            return tuple(
                Spread(Sym("keys", e.term)) if isinstance(e, Spread) else e[0] for e in v.content
            )
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes, tuple, list, dict, set, frozenset, range)):
                if isinstance(v.v, range) and len(v.v) > 64:
                    return [Spread(Sym("range", K(v.v.start), K(v.v.stop), K(v.v.step)))]
                return [self.lift(x) for x in v.v]
            if isinstance(v.v, type) and issubclass(v.v, __import__("enum").Enum):
                return [K(x) for x in v.v]
            self.raise_("TypeError", K(f"'{type(v.v).__name__}' object is not iterable"))
        if isinstance(v, Gen):
            return self.to_list(v).content
        if isinstance(v, Inst):
            if isinstance(v.cls, Cls):
                if self.find_attr(v.cls, "__iter__") is not None:
                    return self.elements(self.call_method(v, "__iter__", []))
                for c in v.cls.mro:
                    if isinstance(c, K) and hasattr(c.v, "__iter__"):
                        return [Spread(Sym("elements", v))]
            if "entries" in v.attrs:
                return self.elements(v.attrs["entries"])
            self.raise_("TypeError", K("object is not iterable"))
        if isinstance(v, ADictView):
            return v.parts(self)
        if isinstance(v, Cls):
            res = self.user_dunder(v, "__iter__")
            if res is not None:
                return self.elements(res)
            self.raise_("TypeError", K("type object is not iterable"))
        if isinstance(v, Opaque):
            if v.parts is not None:
                return v.parts
            pt = self.pytype(v)
            if isinstance(pt, K) and isinstance(pt.v, type) and not hasattr(pt.v, "__iter__"):
                self.raise_("TypeError", K("object is not iterable"))
            if v.not_iterable:
                self.raise_("TypeError", K("object is not iterable"))
            return [Spread(v)]
        if isinstance(v, Sym):
            if v.op == "list":
                return v.args[0]
            if v.op == "set":
                return v.args[0]
            if v.op == "dict":
                return tuple(Spread(Sym("keys", e.term)) if isinstance(e, Spread) else e[0]
                             for e in v.args[0])
            return [Spread(v)]
        if isinstance(v, Ext):
            return [Spread(v)]
        if isinstance(v, (Fn, Native, Bound, Mod, Exc)):
            self.raise_("TypeError", K("object is not iterable"))
        raise_un(f"iteration over {v!r}")

    def element_maker(self, term):
        """ The collection a derived iterable runs over, and its elements. """
        if isinstance(term, Sym):
            op = term.op
            if op == "enumerate":
                base, make = self.element_maker(term.args[0])
                start = term.args[1]

                def enum(uid):
                    index = Sym("idx", base, K(uid), kind="int")
                    # the index is less than the length
                    self.facts[self.ge0(self.lin_sub(self.lin_sub(self.length(base), index), K(1)))] = True
                    pos = self.lin_add(index, start)
                    return Tup([pos, make(uid)])

                return base, enum
            if op == "zip":
                pairs = []
                for t in term.args:
                    if isinstance(t, Sym) and t.op in ("forever", "countof"):
                        pairs.append((None, t))
                    elif isinstance(t, (Tup,)) or isinstance(t, Sym) and t.op == "list":
                        pairs.append(self.part_maker(t))
                    else:
                        pairs.append(self.element_maker(t))
                base = next(b for b, _ in pairs if b is not None)

                def endless(t):
                    if t.op == "forever":
                        return lambda uid: t.args[0]
                    counter = self.element_maker(Sym("enumerate", base, t.args[0]))[1]
                    return lambda uid: counter(uid).items[0]

                pairs = [(b, endless(m) if b is None else m) for b, m in pairs]
                return base, lambda uid: Tup([m(uid) for _, m in pairs])
            if op == "items":
                t = term.args[0]
                return t, lambda uid: Tup([Sym("key", t, K(uid)), Sym("val", t, K(uid))])
            if op == "keys":
                t = term.args[0]
                return t, lambda uid: Sym("key", t, K(uid))
            if op == "values":
                t = term.args[0]
                return t, lambda uid: Sym("val", t, K(uid))
            if op == "range":
                lo, hi, step = (list(term.args) + [K(1)])[:3]
                return self.range_maker(term, lo, hi, step)
            if op in ("reversed", "sorted", "aslist"):
                return self.element_maker(term.args[0])
            if op == "repeat":
                item, n = term.args
                base = n.args[0] if isinstance(n, Sym) and n.op == "len" else term
                return base, lambda uid: item
            if op == "slice" and len(term.args) == 4:
                pass
        pt = self.pytype(term)
        if isinstance(pt, K) and pt.v is dict:
            return term, lambda uid: Sym("key", term, K(uid))
        hook = getattr(term, "element", None)
        if hook is not None:
            return term, lambda uid: hook(self, term, uid)
        kind = getattr(term, "elemkind", None)
        return term, lambda uid: Sym("elem", term, K(uid), kind=kind)

    def part_maker(self, t):
        parts = list(self.elements(t))
        if len(parts) == 1 and isinstance(parts[0], Spread):
            return self.element_maker(parts[0].term)
        frozen = self.freeze(t)
        return frozen, lambda uid: Sym("elem", frozen, K(uid))

    def range_maker(self, term, lo, hi, step):
        # ``range(len(T))``: the index runs over T's indices.
        if isinstance(hi, Sym) and hi.op == "len" and lo == K(0) and step == K(1):
            base = hi.args[0]

            def make(uid):
                index = Sym("idx", base, K(uid), kind="int")
                self.facts[self.ge0(self.lin_sub(self.lin_sub(hi, index), K(1)))] = True
                return index

            return base, make

        def make2(uid):
            var = Sym("idx", term, K(uid), kind="int")
            low = self.int_bounds(lo)[0]
            high = self.int_bounds(hi)[1]
            if low is not None:
                self.bounds[var] = (low, None if high is None else high - 1)
            for p in (self.ge0(self.lin_sub(var, lo)),
                      self.ge0(self.lin_sub(self.lin_sub(hi, var), K(1)))):
                if isinstance(p, Sym):
                    self.facts[p] = True
            return var

        marker = Opaque(f"range({lo!r}, {hi!r})", length=self.lin_sub(hi, lo))
        return marker, make2

    def to_list(self, v, node=None):
        out = self.alloc(AList(()), node)
        if isinstance(v, Gen):
            def on_yield(x):
                self.setcontent(out, out.content + (x,))
                return NONE
            v.run(on_yield)
            return out
        out.content = tuple(self.elements(v, node))
        return out

    # -- calls -------------------------------------------------------------------------

    def call_method(self, v, name, args, kwargs=None, node=None):
        return self.call(self.getattr(v, name), list(args), kwargs or {}, node)

    def call(self, func, args, kwargs, node=None):
        """ Call a value. """
        if isinstance(func, Fn):
            return self.call_fn(func, args, kwargs, node)
        if isinstance(func, Bound):
            return self.call(func.fn, [func.self_] + list(args), kwargs, node)
        if isinstance(func, Native):
            return func.fn(self, list(args), dict(kwargs), node)
        if isinstance(func, Cls):
            return self.instantiate(func, args, kwargs, node)
        if isinstance(func, K):
            return self.call_const(func, list(args), dict(kwargs), node)
        if isinstance(func, Ext):
            return self.call_ext(func, list(args), dict(kwargs), node)
        if isinstance(func, Inst):
            if isinstance(func.cls, Cls):
                raw = self.find_attr(func.cls, "__call__")
                if raw is not None:
                    return self.call(raw, [func] + list(args), kwargs, node)
            elif func.cls == Ext("functools.partial"):
                merged = dict(func.attrs["kw"])
                merged.update(kwargs)
                return self.call(func.attrs["func"], list(func.attrs["pargs"]) + list(args), merged, node)
            elif "call" in func.attrs:
                return self.call(func.attrs["call"], args, kwargs, node)
            self.raise_("TypeError", K("object is not callable"))
        if isinstance(func, Wrap) and func.which == "staticmethod":
            return self.call(func.fn, args, kwargs, node)
        if isinstance(func, (Opaque, Sym)):
            return self.call_opaque(func, args, kwargs, node)
        self.raise_("TypeError", K("object is not callable"))

    def frozen_call(self, args, kwargs):
        return (tuple(self.freeze(a) for a in args),
                tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items())))

    def call_opaque(self, func, args, kwargs, node):
        if isinstance(func, Opaque) and func.call is not None:
            return func.call(self, func, args, kwargs, node)
        ev = self.event("call", name=repr(func), func=func, args=tuple(args), kwargs=dict(kwargs),
                        frozen=self.frozen_call(args, kwargs))
        n = self.fresh(("ret", repr(func)))
        ret = Sym("ret", func, K(n))
        self.maybe_raise(repr(func))
        ev.data["ret"] = ret
        return ret

    def maybe_raise(self, what):
        """ An external call inside a ``try`` of the same function may raise. """
        if not self.handlers or not self.engine.catch_decisions:
            return
        node, scope = self.handlers[-1]
        if not self.frames or len(self.frames[-1]) < 3:
            return
        cur = self.frames[-1][2]
        while cur is not None and cur.skind == "comp":
            cur = cur.parent
        if cur is not scope:
            return
        options = []
        for h in node.handlers:
            if h.type is None:
                options.append(K(Exception))
                break
            t = self.ev(h.type, scope)
            for c in (t.items if isinstance(t, Tup) else [t]):
                if isinstance(c, (K, Ext, Cls)):
                    options.append(c)
                    break
        for c in options:
            if self.choose(2, f"{what} raises {c!r}") == 1:
                self.factlist.append((Sym("raises", K(what), c, kind="bool"), True, self.pos))
                from .core import AbsRaise
                raise AbsRaise(Exc(c, (K("external"),)), self.pos)

    def call_fn(self, fn, args, kwargs, node):
        key = f"{fn.module}:{fn.qualname}"
        stub = self.engine.stubs.get(key)
        if stub is not None:
            res = stub(self, fn, args, kwargs, node)
            if res is not NotImplemented:
                return res
        depth = sum(1 for f in self.frames if f[0] == key)
        if depth > 24:
            raise_un(f"recursion in {key}")
        if depth >= self.engine.max_nesting and any(
                elem_depth(a) > self.engine.max_nesting for a in args):
            # Unknown values are followed down to a bounded level of nesting.
            from .core import Prune
            self.engine.bounded[key] = self.engine.bounded.get(key, 0) + 1
            raise Prune()
        self.engine.functions[key] = self.engine.functions.get(key, 0) + 1
        scope = Scope(fn.scope, fn.qualname, fn.module)
        scope.fn = fn
        self.bind_params(fn, args, kwargs, scope)
        pos_params = fn.node.args.posonlyargs + fn.node.args.args
        scope.self_ = scope.vars.get(pos_params[0].arg) if pos_params else None
        if isinstance(fn.node, ast.Lambda):
            self.frames.append((key, self.site(node), scope))
            try:
                return self.ev(fn.node.body, scope)
            finally:
                self.frames.pop()
        if self.is_generator(fn):
            def run(on_yield):
                scope.on_yield = on_yield
                self.run_body(fn, key, scope, node)
                return NONE
            return Gen(run, key)
        return self.run_body(fn, key, scope, node)

    def run_body(self, fn, key, scope, node):
        from .core import ReturnFn
        saved = self.pos
        self.frames.append((key, (saved[0], saved[1], getattr(node, "col_offset", 0)), scope))
        handlers, self.handlers = self.handlers, []
        loops = self.loops
        try:
            self.exec_block(fn.node.body, scope)
            return NONE
        except ReturnFn as ret:
            return ret.value
        finally:
            self.handlers = handlers
            self.loops = loops
            self.frames.pop()
            self.pos = saved

    def is_generator(self, fn):
        cached = getattr(fn.node, "_isgen", None)
        if cached is None:
            cached = False
            stack = list(fn.node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    cached = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            fn.node._isgen = cached
        return cached

    def bind_params(self, fn, args, kwargs, scope):
        """ Python's rules for binding arguments (TypeError if they don't fit). """
        spec = self.bind_args(fn, args, kwargs)
        if spec is None:
            self.raise_("TypeError", K(f"{fn.name}() arguments do not fit"))
        scope.vars.update(spec)

    def bind_args(self, fn, args, kwargs, defaults=True):
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        posonly = {p.arg for p in a.posonlyargs}
        args = list(args)
        kwargs = dict(kwargs)
        spread = kwargs.pop("**", None)
        out = {}
        i = 0
        while i < len(params) and args and not isinstance(args[0], Spread):
            out[params[i]] = args.pop(0)
            i += 1
        if args and i < len(params):
            # A spread meets plain parameters.
            if all(isinstance(p, Spread) for p in args) and len(args) == 1:
                term = args[0].term
                rest = params[i:]
                fits = self.lin_sub(self.length(term), K(len(rest)))
                if not self.truth(self.tobool(self.compare_eq(fits, K(0))) if a.vararg is None
                                  else self.ge0(fits)):
                    return None
                for j, p in enumerate(rest):
                    out[p] = self.sym_item(term, K(j))
                args = [] if a.vararg is None else [Spread(Sym("slice", term, K(len(rest)), NONE, NONE, kind="tuple"))]
                i = len(params)
            else:
                raise_un("spread arguments meet parameters")
        if args:
            if a.vararg is None:
                if all(isinstance(p, Spread) for p in args):
                    if self.test(self.nonempty_pred(Tup(args))):
                        return None
                    args = []
                else:
                    return None
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(args)
        kwo = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in params and k not in posonly or k in kwo:
                if k in out:
                    return None
                out[k] = v
            elif a.kwarg is not None:
                extra.append((K(k), v))
            else:
                return None
        if spread is not None:
            if a.kwarg is None:
                if self.test(self.nonempty_pred(spread)):
                    raise_un("spread keyword arguments meet parameters")
            else:
                extra.extend(spread.items)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(ADict(extra))
        ndef = len(fn.defaults)
        for j, p in enumerate(params):
            if p not in out:
                d = j - (len(params) - ndef)
                if d < 0:
                    return None
                if defaults:
                    out[p] = fn.defaults[d]
        for p, d in zip(kwo, fn.kwdefaults):
            if p not in out:
                if d is None:
                    return None
                if defaults:
                    out[p] = d
        return out

    def instantiate(self, cls, args, kwargs, node):
        if isinstance(cls.meta, Cls):
            raw = self.find_attr(cls.meta, "__call__")
            if raw is not None:
                return self.call(raw, [cls] + list(args), kwargs, node)
        return self.instantiate_plain(cls, args, kwargs, node)

    def instantiate_plain(self, cls, args, kwargs, node):
        if any(isinstance(c, K) and c.v is type for c in cls.mro):
            # A metaclass called: make a class.
            name, bases, ns = args[:3]
            attrs = {k.v: v for k, v in self.dict_entries(ns)}
            return self.finish_class(name.v, list(self.elements(bases)), attrs, cls,
                                     self.pos[0], name.v, node)
        if any(isinstance(c, K) and isinstance(c.v, type) and issubclass(c.v, BaseException)
               for c in cls.mro):
            init = self.find_attr(cls, "__init__")
            exc = self.alloc(Exc(cls, tuple(args)), node)
            del init
            return exc
        new = self.find_attr(cls, "__new__")
        if new is not None:
            fn = new.fn if isinstance(new, Wrap) else new
            obj = self.call(fn, [cls] + list(args), kwargs, node)
            if not (isinstance(obj, Inst) and obj.cls == cls):
                return obj
        else:
            if any(isinstance(c, (Ext, Opaque)) for c in cls.mro):
                self.event("instantiate", cls=cls)
            obj = self.alloc(Inst(cls), node)
        init = self.find_attr(cls, "__init__")
        if init is not None:
            self.call(init, [obj] + list(args), kwargs, node)
        elif (args or kwargs) and all(isinstance(c, Cls) or c == K(object) for c in cls.mro) \
                and new is None:
            dc = getattr(cls, "dataclass_fields", None)
            if dc is None:
                self.raise_("TypeError", K(f"{cls.name}() takes no arguments"))
        return obj


class ADictView(Obj):
    """ ``d.items()``, ``d.keys()``, ``d.values()`` of an exact dictionary (live). """

    def __init__(self, d, which):
        super().__init__(None)
        self.d = d
        self.which = which

    def parts(self, it):
        out = []
        for e in self.d.content:
            if isinstance(e, Spread):
                out.append(Spread(Sym(self.which, e.term)))
            elif self.which == "items":
                out.append(Tup(e))
            else:
                out.append(e[0] if self.which == "keys" else e[1])
        return tuple(out)

    def __repr__(self):
        return f"{self.which} of {self.d!r}"


def fixed(v):
    """ A library's shape with known sizes, as a tuple. """
    if isinstance(v, Opaque) and v.parts is not None and isinstance(v.pytype, Ext) and \
            v.pytype.path in ("torch.Size", "tensorflow.TensorShape"):
        return Tup(v.parts)
    return v


def elem_depth(v):
    depth = 0
    while isinstance(v, Sym) and v.op in ("elem", "item", "key", "val") and v.args:
        v = v.args[0]
        depth += 1
    return depth


def raise_un(msg):
    from .core import Unsupported
    raise Unsupported(msg)
