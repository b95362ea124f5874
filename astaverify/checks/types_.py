""" The asta types: subscripts, verdicts, equality (C16-C19, C26, C28, C29). """
import itertools
import types as pytypes

from .common import *
from .shapes import (
    EXPR, Solver, compatible, distinct, equal_pair, expression, integer, is_expr, is_int,
    shape_match, solvable, sub_simplify, ShapeWorld,
)

DATETIME = K(__import__("datetime").datetime)
TIMEDELTA = K(__import__("datetime").timedelta)


class Family:
    """ One of Array, Tensor, TFTensor. """

    def __init__(self, w, name):
        self.name = name
        self.w = w
        self.module = {"Array": "asta.array", "Tensor": "asta.tensor",
                       "TFTensor": "asta.tftensor"}[name]
        self.cls = w.get(self.module, name)
        self.dtype_type = {"Array": Ext("numpy.dtype"), "Tensor": Ext("torch.dtype"),
                           "TFTensor": Ext("tensorflow.dtypes.DType")}[name]
        self.inst_type = {"Array": Ext("numpy.ndarray"), "Tensor": Ext("torch.Tensor"),
                          "TFTensor": Ext("tensorflow.Tensor")}[name]
        self.kinds = name == "Array"

    def dtype(self, name):
        return Opaque(name, pytype=self.dtype_type, truthy=True)

    def mapped(self, t):
        """ (dtype, kind) for a Python type; None: a TypeError. """
        if self.name == "Array":
            kind = {bytes: "S", str: "U", object: "O"}.get(t.v if isinstance(t, K) else None, "")
            if t == DATETIME:
                t = Ext("numpy.datetime64")
            elif t == TIMEDELTA:
                t = Ext("numpy.timedelta64")
            return Sym("call", Ext("numpy.dtype"), t), kind
        if not isinstance(t, K):
            return None
        if self.name == "Tensor":
            name = {int: "int32", float: "float32", bool: "bool", bytes: "uint8"}.get(t.v)
            return None if name is None else (Ext("torch." + name), "")
        name = {int: "int32", float: "float32", complex: "complex128", bool: "bool",
                bytes: "string", str: "string"}.get(t.v)
        return None if name is None else (Ext("tensorflow." + name), "")

    def anchor(self, meth=None):
        names = {"Array": ("asta._array", "_Array", "_ArrayMeta"),
                 "Tensor": ("asta._tensor", "_Tensor", "_TensorMeta"),
                 "TFTensor": ("asta._tftensor", "_TFTensor", "_TFTensorMeta")}[self.name]
        for cls in (names[2], names[1]):
            try:
                c = self.w.get(names[0], cls)
            except Anchor:
                continue
            if meth in c.attrs:
                return anchor_text(c.attrs[meth])
            if meth is not None and cls == names[1]:
                break
        try:
            if meth is not None:
                m = self.w.eng.setup(lambda it: it.find_attr(self.cls.meta, meth))
                if m is not None:
                    return anchor_text(m)
        except Unsupported:
            pass
        return f"{names[0].replace('.', '/')}.py in {names[1]}"


def make_world(torch=True, tensorflow=True):
    w = World(torch=torch, tensorflow=tensorflow)
    Solver(w)
    w.pin_rules.append(sub_simplify)
    w.pin_rules.append(pin)
    return w


def pin(it, pred):
    if pred.op == "truth" and isinstance(pred.args[0], Sym) and pred.args[0].op == "call" and \
            pred.args[0].args[0] == Ext("numpy.dtype"):
        return True
    if pred.op in ("truth",) and isinstance(pred.args[0], Ext):
        return True
    if pred.op in ("eq", "is"):
        a, b = pred.args
        made = [is_made_dtype(x) for x in (a, b)]
        if all(made) and a != b and all(x.args[1] in DISTINCT for x in (a, b)):
            return False
        if any(made) and NONE in pred.args:
            # Numpy takes None for its default dtype.
            return pred.op == "eq" and any(is_made_dtype(x) and x.args[1] == K(float)
                                           for x in (a, b))
        for x, y in ((a, b), (b, a)):
            # A hash is zero only by accident; the verdicts do not rest on it.
            if isinstance(x, Sym) and x.op in ("hash", "call") and y == K(0) and (
                    x.op == "hash" or x.args[0] == K(hash)):
                return False
    if pred.op == "eq":
        a, b = pred.args
        for x, y in ((a, b), (b, a)):
            # No library dtype equals a class of this package or a shape.
            if is_dtype(x) and y == NONE and x.pytype.path == "numpy.dtype" and \
                    "object" not in x.name and "str" not in x.name:
                return None     # It equals None if it is numpy's default dtype.
            if is_dtype(x) and (isinstance(y, (Cls, Tup)) or y == NONE):
                if isinstance(y, Cls) and isinstance(x, Opaque) and "object" in x.name:
                    return True
                return False
    return ShapeWorld.pin(it, pred)


DISTINCT = [K(t) for t in (int, float, bool, complex, str, bytes, object)] + [
    Ext("numpy.datetime64"), Ext("numpy.timedelta64")]


def is_made_dtype(v):
    return isinstance(v, Sym) and v.op == "call" and v.args[0] == Ext("numpy.dtype")


def is_dtype(v):
    return isinstance(v, Opaque) and isinstance(v.pytype, Ext) and (
        v.pytype.path.endswith(".dtype") or v.pytype.path.endswith(".DType"))


# -- subscripts ----------------------------------------------------------------------------

class Part:
    """ An item of a subscript with what it means: an update of the parts. """

    def __init__(self, text, item, **parts):
        self.text = text
        self.item = item      # callable(it) -> value
        self.parts = parts    # dtype, kind, shape, kwattrs


NUMBERED = {}


def const_item(v):
    return lambda it: v


def placeholder(it, name):
    cls = it.engine.modules["asta.placeholder"].scope.vars["Placeholder"]
    return it.call(cls, [K(name)], {}, None)


def attrs_dict(kind):
    def make(it):
        entries = {"plain": [(K("ndim"), K(2))], "expr": [(K("ndim"), expression("k0"))],
                   "two": [(K("ndim"), Opaque("v0", closed=True)), (K("device"), K("cpu"))],
                   "none": []}[kind]
        return it.alloc(ADict(entries))
    return make


class Attrs:
    """ Stands for the dictionary given in the subscript. """

    def __init__(self, kind):
        self.kind = kind


def dims_items(fam):
    """ Dimension parts: text, list of dimension values, the shape they mean. """
    n0, n1, e0 = integer("n0"), integer("n1"), expression("e0")
    out = [
        ("3", [K(3)], (K(3),)),
        ("n", [n0], (n0,)),
        ("-1", [K(-1)], (K(-1),)),
        ("0", [K(0)], (K(0),)),
        ("...", [ELL], (ELL,)),
        ("X", [e0], (e0,)),
        ("None", [NONE], (NONE,)),
        ("n, ..., X", [n0, ELL, e0], (n0, ELL, e0)),
        ("..., -1", [ELL, K(-1)], (ELL, K(-1))),
        ("2, 3, 4", [K(2), K(3), K(4)], (K(2), K(3), K(4))),
        ("1, ..., n, ..., 2", [K(1), ELL, n1, ELL, K(2)], (K(1), ELL, n1, ELL, K(2))),
        ("0, 0", [K(0), K(0)], (K(0), K(0))),
        ("None, None", [NONE, NONE], (NONE, NONE)),
    ]
    return out


def subscripts(fam, it_scalar):
    """ Subscripts made of an optional dtype, optional dimensions, optional attributes. """
    out = []
    dtypes = [("", None, {})]
    for t in (int, float, str, bytes, bool):
        m = fam.mapped(K(t))
        if m is not None:
            dtypes.append((t.__name__, K(t), {"dtype": m[0], "kind": m[1]}))
    lib = fam.dtype("lib.dtype")
    dtypes.append(("lib dtype", lib, {"dtype": lib, "kind": ""}))
    dims = [("", None, {})]
    for text, items, shape in dims_items(fam):
        dims.append((text, items, {"shape": shape}))
    dims.append(("Scalar", ["scalar"], {"shape": ()}))
    dims.append(("()", [Tup([])], {"shape": ()}))
    dims.append(("(2, n)", [Tup([K(2), integer("n0")])], {"shape": (K(2), integer("n0"))}))
    dims.append(("(5,)", [Tup([K(5)])], {"shape": (K(5),)}))
    dims.append(("placeholder", ["placeholder"], {"shape": ("placeholder",)}))
    dims.append(("3, placeholder", [K(3), "placeholder"], {"shape": (K(3), "placeholder")}))
    if fam.name in ("Tensor", "TFTensor"):
        path = "torch.Size" if fam.name == "Tensor" else "tensorflow.TensorShape"
        size = Opaque("libshape", pytype=Ext(path), parts=[K(7), K(8)], length=K(2))
        dims.append((path, [size], {"shape": (K(7), K(8))}))
    attrs = [("", None, {}), ("{ndim: 2}", "plain", {"kwattrs": "plain"}),
             ("{ndim: X}", "expr", {"kwattrs": "expr"}), ("{}", "none", {"kwattrs": "none"})]
    for d, (ddt, ddv, ddp) in enumerate(dtypes):
        for s, (st, sv, sp) in enumerate(dims):
            for a, (at, av, ap) in enumerate(attrs):
                if ddv is None and sv is None and av is None:
                    continue
                # All pairs, not all triples.
                if d > 1 and s > 1 and a > 0 and (d + s + a) % 4:
                    continue
                text = ", ".join(x for x in (ddt, st, at) if x)
                out.append(Subscript(text, ddv, sv, av, {**ddp, **sp, **ap}, it_scalar))
    return out


class Subscript:
    def __init__(self, text, dtype, dims, attrs, parts, scalar):
        self.text, self.dtype, self.dims, self.attrs = text, dtype, dims, attrs
        self.parts, self.scalar = parts, scalar

    def build(self, it):
        """ (item, the parts it mentions with their values). """
        parts = dict(self.parts)
        items = []
        if self.dtype is not None:
            items.append(self.dtype)
        if self.dims is not None:
            ph = placeholder(it, "P") if "placeholder" in self.dims else None
            items.extend(self.scalar if d == "scalar" else ph if d == "placeholder" else d
                         for d in self.dims)
            parts["shape"] = Tup([ph if d == "placeholder" else d for d in parts["shape"]])
        if self.attrs is not None:
            parts["kwattrs"] = attrs_dict(self.attrs)(it)
            items.append(parts["kwattrs"])
        return (items[0] if len(items) == 1 else Tup(items)), parts


def read_parts(it, fam, cls):
    out = {"dtype": it.getattr(cls, "dtype"), "shape": it.getattr(cls, "shape"),
           "kwattrs": it.getattr(cls, "kwattrs")}
    if fam.kinds:
        out["kind"] = it.getattr(cls, "kind")
    return out


def as_tuple(it, shape):
    if shape == NONE or isinstance(shape, Tup):
        return shape
    return it.call(K(tuple), [shape], {}, None)


DTYPE_NAMES = {
    K(int): "int64", K(float): "float64", K(complex): "complex128", K(bool): "bool",
    K(str): "str", K(bytes): "bytes", K(object): "object", Ext("numpy.datetime64"): "datetime64",
    Ext("numpy.timedelta64"): "timedelta64", K("datetime64"): "datetime64",
    K("timedelta64"): "timedelta64", K("int64"): "int64", K("float64"): "float64",
    K("M8"): "datetime64", K("m8"): "timedelta64", K("complex128"): "complex128",
    K("O"): "object", K("S"): "bytes", K("U"): "str", K("?"): "bool", K("bool"): "bool",
    Ext("numpy.int64"): "int64", Ext("numpy.float64"): "float64", Ext("numpy.bool_"): "bool",
    Ext("numpy.str_"): "str", Ext("numpy.bytes_"): "bytes", Ext("numpy.complex128"): "complex128",
    K("<i8"): "int64", K("<f8"): "float64",
}


def canonical_dtype(v):
    if isinstance(v, Sym) and v.op == "call" and v.args[0] == Ext("numpy.dtype") and \
            len(v.args) == 2:
        if v.args[1] in DTYPE_NAMES:
            return ("numpy", DTYPE_NAMES[v.args[1]])
        if isinstance(v.args[1], K) and not isinstance(v.args[1].v, type):
            raise Undecided(f"unknown dtype {v!r}")
        return ("numpy", v.args[1])
    if isinstance(v, Ext):
        head, _, last = v.path.partition(".")
        return (head, last.rsplit(".", 1)[-1])
    return v


def same_parts(it, got, want):
    """ None, or which part differs. """
    for key, w in want.items():
        if key not in got:
            continue
        g = got[key]
        if key == "dtype":
            if g == w or canonical_dtype(g) == canonical_dtype(w):
                continue
            return f"dtype is {g!r} instead of {w!r}"
        if key == "kind":
            if g == (K(w) if isinstance(w, str) else w):
                continue
            return f"kind is {g!r} instead of {w!r}"
        if key == "shape":
            g = as_tuple(it, g)
            if g == w or isinstance(g, Tup) and isinstance(w, Tup) and \
                    len(g.items) == len(w.items) and all(same_dim(a, b) for a, b in
                                                         zip(g.items, w.items)):
                continue
            return f"shape is {g!r} instead of {w!r}"
        if key == "kwattrs":
            if g is w or it.freeze(g) == it.freeze(w) or \
                    isinstance(g, ADict) and isinstance(w, ADict) and \
                    set(map(repr, g.content)) == set(map(repr, w.content)):
                continue
            return f"attributes are {g!r} instead of {w!r}"
    return None


def same_dim(a, b):
    return a is b or a == b


EMPTY = {"dtype": NONE, "kind": "", "shape": NONE, "kwattrs": NONE}


@check("C18")
def c18(rep, tier):
    """ Subscripts applied to plain and to subscripted types, against the composition rule. """
    rep.rule("compose", "on every path the result is a new type whose dtype, kind, shape and "
             "attributes are those mentioned, and otherwise those of the subscripted type; no "
             "exception")
    rep.rule("keep", "the subscripted type and an earlier derivative keep all their parts")
    w = make_world()
    scalar = w.get("asta.scalar", "Scalar")
    for name in ("Array", "Tensor", "TFTensor"):
        fam = Family(w, name)
        subs = subscripts(fam, scalar)
        bases = [None] + pick_bases(subs)
        for b, base in enumerate(bases):
            for i, sub in enumerate(subs):
                if b > 0 and tier == "quick" and (i + b) % 7:
                    continue

                def run(it):
                    return compose(it, fam, base, sub)

                def judge(out):
                    if out.kind == "raise":
                        return f"raises {errname(out)}"
                    return out.value.v

                text = f"{name}[{base.text}]" if base else name
                scenario(rep, w, f"{text}[{sub.text}]", "compose",
                         fam.anchor("_after_subscription"), run, judge)
    rep.engine(w.eng)


def pick_bases(subs):
    want = ("int", "lib dtype", "str", "n, ..., X", "Scalar", "{ndim: 2}", "int, n, {ndim: 2}",
            "str, 3, {ndim: X}", "()", "int, 3, {ndim: 2}", "float, 3, {ndim: 2}", "bytes")
    return [s for s in subs if s.text in want]


def compose(it, fam, base, sub):
    cls = fam.cls
    parts = dict(EMPTY)
    if base is not None:
        item, mentioned = base.build(it)
        cls = it.getitem(cls, item)
        parts.update(mentioned)
    sibling_item = K(99)
    sibling = it.getitem(cls, sibling_item)
    sibling_want = {**parts, "shape": Tup([sibling_item])}
    before = read_parts(it, fam, cls)
    shared = list(before["kwattrs"].content) if isinstance(before["kwattrs"], ADict) else None
    item, mentioned = sub.build(it)
    new = it.getitem(cls, item)
    if new is cls or new is sibling or new is fam.cls:
        return K("the result is not a new type")
    if not isinstance(new, Cls):
        raise Undecided("the result is not a known class")
    msg = same_parts(it, read_parts(it, fam, new), {**parts, **mentioned})
    if msg:
        return K(msg)
    msg = same_parts(it, read_parts(it, fam, cls), parts)
    if msg:
        return K("of the subscripted type: " + msg)
    msg = same_parts(it, read_parts(it, fam, sibling), sibling_want)
    if msg:
        return K("of another derived type: " + msg)
    if shared is not None and list(before["kwattrs"].content) != shared:
        return K("the attributes of the subscripted type are changed")
    if isinstance(mentioned.get("kwattrs"), ADict):
        want = attrs_dict(sub.attrs)(it)
        if it.freeze(want) != it.freeze(mentioned["kwattrs"]):
            return K("the dictionary given as attributes is changed")
    return K(None)


# -- C19 -----------------------------------------------------------------------------------

@check("C19")
def c19(rep, tier):
    """ Subscripts with one offending part in every position. """
    rep.rule("malformed", "subscripting raises a TypeError on every path; for an invalid "
             "dimension its message mentions it")
    w = make_world()
    scalar = w.get("asta.scalar", "Scalar")
    stranger = Opaque("stranger", closed=True)

    npint = Opaque("np.int64(3)", pytype=Ext("numpy.int64"))

    def pin_stranger(it, pred):
        if pred.op == "isinstance" and pred.args[0] == stranger:
            return pred.args[1] == K(object)
        if pred.op in ("is", "eq") and npint in pred.args:
            return False
        if pred.op in ("is", "eq") and (stranger in pred.args or
                                        Sym("typeof", stranger) in pred.args):
            return False
        return None

    w.pin_rules.append(pin_stranger)
    bad = [("'a'", const_item(K("a"))), ("''", const_item(K(""))), ("1.5", const_item(K(1.5))),
           ("2.0", const_item(K(2.0))), ("True", const_item(TRUE)), ("False", const_item(FALSE)),
           ("a numpy integer", const_item(npint)), ("b'x'", const_item(K(b"x"))),
           ("1j", const_item(K(1j))),
           ("[1, 2]", lambda it: it.alloc(AList([K(1), K(2)]))),
           ("[]", lambda it: it.alloc(AList([]))),
           ("{1}", lambda it: it.make_set([K(1)])),
           ("slice", const_item(K(slice(1, 2)))),
           ("an object", const_item(stranger)),
           ("a function", const_item(K(len)))]
    later = bad + [("int", const_item(K(int))), ("{ndim: 2}", attrs_dict("plain"))]
    for name in ("Array", "Tensor", "TFTensor"):
        fam = Family(w, name)
        lib = fam.dtype("lib.dtype")
        anchor = fam.anchor("_after_subscription")
        cases = []
        for text, make in bad:
            cases.append((text, make, lambda x: x))
            for pre in ((), (K(int),), (K(3),), (ELL,), (lib,), (K(int), K(3)), (K(3), ELL)):
                for post in ((), (K(2),)):
                    if pre or post:
                        cases.append((f"{list(pre)}, {text}, {list(post)}", make,
                                      lambda x, a=pre, b=post: Tup(a + (x,) + b)))
            cases.append((f"int, (3, {text})", make, lambda x: Tup([K(int), Tup([K(3), x])])))
            cases.append((f"int, ({text}, 3)", make, lambda x: Tup([K(int), Tup([x, K(3)])])))
            cases.append((f"({text}, 3), 2", make, lambda x: Tup([Tup([x, K(3)]), K(2)])))
        for text, make in later[len(bad):]:
            for pre in ((K(3),), (K(int), K(3)), (ELL, K(2))):
                for post in ((), (K(2),)):
                    if text.startswith("{") and not post:
                        continue
                    cases.append((f"{list(pre)}, {text}, {list(post)}", make,
                                  lambda x, a=pre, b=post: Tup(a + (x,) + b)))
        if name != "Array":
            dt = Opaque("np.dtype", pytype=Ext("numpy.dtype"), truthy=True)
            odt = Opaque("object np.dtype", pytype=Ext("numpy.dtype"), truthy=True)
            for d in (dt, odt):
                cases.append((d.name, const_item(d), lambda x: x))
                cases.append((d.name + ", 3", const_item(d), lambda x: Tup([x, K(3)])))
                cases.append(("3, " + d.name, const_item(d), lambda x: Tup([K(3), x])))
        for text, make, wrap in cases:
            def run(it):
                x = make(it)
                it.event("bad", item=x)
                return it.getitem(fam.cls, wrap(x))

            def judge(out):
                if not is_type_error(out):
                    return f"accepted (as {out.value!r})" if out.kind == "return" else \
                        f"raises {errname(out)}"
                return names_it(out)

            scenario(rep, w, f"{name}[{text}]", "malformed", anchor, run, judge)
        mixed = [("..., ...", Tup([ELL, ELL])), ("3, ..., ...", Tup([K(3), ELL, ELL])),
                 ("..., ..., 3", Tup([ELL, ELL, K(3)])),
                 ("int, ..., ...", Tup([K(int), ELL, ELL])),
                 ("int, (..., ...)", Tup([K(int), Tup([ELL, ELL])])),
                 ("n, ..., ..., X", Tup([integer("n0"), ELL, ELL, expression("e0")])),
                 ("..., 2, ..., ...", Tup([ELL, K(2), ELL, ELL])),
                 ("..., ..., ...", Tup([ELL, ELL, ELL])),
                 ("lib dtype, ..., ...", Tup([lib, ELL, ELL]))]
        for s, sv in (("Scalar", scalar), ("()", Tup([]))):
            for other in (K(3), ELL, K(-1), expression("e0"), integer("n0")):
                mixed += [(f"{s}, {other!r}", Tup([sv, other])), (f"{other!r}, {s}", Tup([other, sv])),
                          (f"int, {s}, {other!r}", Tup([K(int), sv, other])),
                          (f"lib dtype, {other!r}, {s}", Tup([lib, other, sv])),
                          (f"int, ({other!r}, {s})", Tup([K(int), Tup([other, sv])]))]
            for t, tv in (("Scalar", scalar), ("()", Tup([]))):
                mixed += [(f"{s}, {t}", Tup([sv, tv])), (f"int, {s}, {t}", Tup([K(int), sv, tv]))]
        for text, item in mixed:
            def run(it):
                return it.getitem(fam.cls, item)

            def judge(out):
                if not is_type_error(out):
                    return f"accepted (as {out.value!r})" if out.kind == "return" else \
                        f"raises {errname(out)}"
                return None

            scenario(rep, w, f"{name}[{text}]", "malformed", anchor, run, judge)
    rep.engine(w.eng)


def names_it(out):
    """ Whether the message of the TypeError mentions the offending item. """
    item = out.events("bad")[-1].item
    args = out.value.args
    for a in args:
        if isinstance(a, K) and isinstance(item, K):
            if str(item.v) in str(a.v):
                return None
        elif any(t == item or isinstance(item, Obj) and isinstance(t, Val) and
                 t == out.it.freeze(item) for t in subterms(a) if isinstance(t, Val)):
            return None
        elif not isinstance(a, K):
            texts = " ".join(str(t.v) for t in subterms(a) if isinstance(t, K))
            if isinstance(item, K) and str(item.v) in texts:
                return None
            if isinstance(item, Obj) or not isinstance(item, (K, Opaque)):
                return None  # cannot be said
    return f"the message {args!r} does not name {item!r}"


# -- C28 -----------------------------------------------------------------------------------

@check("C28")
def c28(rep, tier):
    """ Every Python type of the documentation, others, and library dtypes. """
    rep.rule("dtype", "on every path the resulting type has the documented dtype and kind, or "
             "a TypeError is raised where the type stands for none")
    for torch, tensorflow in ((True, True), (True, False), (False, True), (False, False)):
        dtypes_of(rep, torch, tensorflow)


def dtypes_of(rep, torch, tensorflow):
    w = make_world(torch, tensorflow)
    userclass = Opaque("UserClass", isclass=True, pytype=K(type), bases=[K(object)], closed=True,
                       truthy=True)
    w.pin_rules.append(lambda it, p: False if p.op in ("is", "eq") and userclass in p.args else None)
    listed = [K(t) for t in (int, float, complex, bool, str, bytes, object)] + [DATETIME, TIMEDELTA]
    others = [K(list), K(dict), K(tuple), K(type(None)), K(bytearray), K(memoryview), K(set),
              K(__import__("datetime").date), K(__import__("decimal").Decimal), userclass]
    names = ["Array"] + ["Tensor"] * torch + ["TFTensor"] * tensorflow
    for name in names:
        fam = Family(w, name)
        anchor = fam.anchor("get_dtype")
        cases = [(repr(t), t, fam.mapped(t)) for t in listed]
        if name == "Array":
            for t in ("float32", "int8", "uint8", "float16", "complex64"):
                cases.append((f"numpy.{t}", Ext(f"numpy.{t}"),
                              (Sym("call", Ext("numpy.dtype"), Ext(f"numpy.{t}")), "")))
            cases.append((repr(userclass), userclass,
                          (Sym("call", Ext("numpy.dtype"), userclass), "")))
        else:
            cases += [(repr(t), t, None) for t in others]
            for t in ("float32", "int64"):
                cases.append((f"numpy.{t}", Ext(f"numpy.{t}"), None))
            dt = Opaque("np.dtype", pytype=Ext("numpy.dtype"), truthy=True)
            cases.append(("a numpy dtype", dt, None))
            odt = Opaque("object np.dtype", pytype=Ext("numpy.dtype"), truthy=True)
            cases.append(("the object numpy dtype", odt, None))
        lib = fam.dtype("lib.dtype")
        cases.append(("a library dtype", lib, (lib, "")))
        for text, t, want in cases:
            for form, make in (("{}", lambda t: t), ("{}, 3", lambda t: Tup([t, K(3)])),
                               ("{}, ...", lambda t: Tup([t, ELL])),
                               ("{}, ()", lambda t: Tup([t, Tup([])])),
                               ("{}, {{ndim: 2}}", None)):
                def run(it):
                    item = make(t) if make else Tup([t, attrs_dict("plain")(it)])
                    new = it.getitem(fam.cls, item)
                    parts = read_parts(it, fam, new)
                    return K(same_parts(it, parts, {"dtype": want[0], "kind": want[1]})) \
                        if want else K(f"accepted with dtype {parts['dtype']!r}")

                def judge(out):
                    if want is None:
                        if out.kind == "return":
                            return out.value.v
                        return None if is_type_error(out) else f"raises {errname(out)}"
                    if out.kind == "raise":
                        return f"raises {errname(out)}"
                    return out.value.v

                scenario(rep, w, f"{name}[{form.format(text)}] (torch {torch}, tensorflow "
                         f"{tensorflow})", "dtype", anchor, run, judge)
    rep.engine(w.eng)


# -- C29 -----------------------------------------------------------------------------------

@check("C29")
def c29(rep, tier):
    """ Calls of plain and subscripted types with several argument lists. """
    rep.rule("instantiate", "every path of a call raises a TypeError")
    w = make_world()
    scalar = w.get("asta.scalar", "Scalar")
    for name in ("Array", "Tensor", "TFTensor"):
        fam = Family(w, name)
        subs = [None] + pick_bases(subscripts(fam, scalar))
        arglists = [([], {}), ([Opaque("a")], {}), ([Tup([K(2), K(3)])], {}),
                    ([Opaque("a"), Opaque("b")], {}), ([Spread(Opaque("args", kind="tuple"))], {}),
                    ([], {"shape": Tup([K(2)])}), ([Opaque("a")], {"dtype": K(int)})]
        for sub in subs:
            for args, kwargs in arglists:
                def run(it):
                    cls = fam.cls
                    if sub is not None:
                        cls = it.getitem(cls, sub.build(it)[0])
                    it.event("begin")
                    return it.call(cls, list(args), dict(kwargs), None)

                def judge(out):
                    if out.kind == "return":
                        return f"makes {out.value!r}"
                    return None if is_type_error(out) else f"raises {errname(out)}"

                text = f"{name}[{sub.text}]" if sub else name
                scenario(rep, w, f"{text}({len(args)} arguments, {sorted(kwargs)})",
                         "instantiate", fam.anchor("__new__"), run, judge)
    rep.engine(w.eng)


# -- C16 -----------------------------------------------------------------------------------

class Instance:
    """ A value to be checked: an array of a rank with unknown sizes and attributes. """

    def __init__(self, text, fam, rank=None, structured=False, sizes=None, stranger=None,
                 tag=""):
        self.text = text
        self.array = stranger is None
        if stranger is not None:
            self.value = stranger
            return
        self.sizes = sizes if sizes is not None else [integer(f"s{i}{tag}") for i in range(rank)]
        dattrs = {"name": Opaque(f"inst{tag}.dtype.name", kind="str")}
        if fam.name == "Array":
            names = Tup([K("a"), K("b")]) if structured else NONE
            dattrs.update({
                "names": names, "fields": Opaque(f"inst{tag}.dtype.fields", truthy=True) if structured
                else NONE,
                "kind": K("V") if structured else Opaque(f"inst{tag}.dtype.kind", kind="str"),
            })
        self.dtype = Opaque(f"inst{tag}.dtype", pytype=fam.dtype_type, truthy=True, attrs=dattrs)
        shape = Tup(self.sizes)
        if fam.name == "TFTensor":
            shape = Opaque(f"inst{tag}.shape", pytype=Ext("tensorflow.TensorShape"),
                           parts=list(self.sizes), length=K(len(self.sizes)))
        self.shape = shape
        self.structured = structured
        self.value = Opaque(f"inst{tag}", pytype=fam.inst_type, attrs={"shape": shape,
                                                                  "dtype": self.dtype})


def attribute_match(it, inst, kwattrs):
    """ (match, equations) by the definition. """
    eqs = set()
    if not isinstance(kwattrs, ADict):
        return True, eqs
    for key, val in kwattrs.content:
        known = it.opaque_attr(inst, key.v) if isinstance(inst, Opaque) else None
        if known is None and not it.test(Sym("hasattr", inst, key, kind="bool")):
            return False, eqs
        attr = it.getattr(inst, key.v)
        if is_expr(val):
            eqs.add(equal_pair(val, it.freeze(attr)))
        elif not it.truth(it.compare_eq(attr, val)):
            return False, eqs
    return True, eqs


def expected_verdict(it, fam, parts, inst):
    """ The definition of isinstance: True, False or None (not specified). """
    system = expected_system(it, fam, parts, inst)
    return system if system is None or system is False else solvable(it, system)


def expected_system(it, fam, parts, inst):
    """ The equations of a match; False without a match, None if not specified. """
    if not inst.array:
        return False
    if fam.name == "Array":
        if inst.structured:
            return False
        if parts["kind"]:
            if not it.truth(it.compare_eq(inst.dtype.attrs["kind"], K(parts["kind"]))):
                return False
        elif parts["dtype"] != NONE:
            if not it.truth(it.compare_eq(parts["dtype"], inst.dtype)):
                return False
    elif parts["dtype"] != NONE:
        if not it.truth(it.compare_eq(parts["dtype"], inst.dtype)):
            return False
    systems = [frozenset()]
    if parts["shape"] != NONE:
        pattern = list(parts["shape"].items)
        found = shape_match(it, pattern, list(inst.sizes))
        if not found:
            return False
        systems = {frozenset(e for e in eqs if e) for eqs in found}
        if frozenset() in systems:
            systems = [frozenset()]
    good, eqs = attribute_match(it, inst.value, parts["kwattrs"])
    if not good:
        return False
    if len(systems) > 1:
        return None
    return frozenset(next(iter(systems)) | eqs)


def instance_pins(w):
    non = w.eng.modules["asta.constants"].scope.vars.get("NonInstanceType")

    def pin_inst(it, pred):
        if pred.op in ("is", "eq") and non is not None and any(a == non for a in pred.args):
            return False
        if pred.op == "eq" and K(0) in pred.args:
            # The attributes of values are no symbolic expressions.
            for a in pred.args:
                if isinstance(a, Sym) and a.op == "sub" and any(map(is_expr, a.args)) and any(
                        isinstance(x, Sym) and x.op == "attr" for x in a.args):
                    return False
        return None

    w.pin_rules.insert(0, pin_inst)


def no_instance(values):
    """ Values of some class which nothing in the repository knows. """
    def rule(it, pred):
        if pred.op == "isinstance" and pred.args[0] in values:
            return pred.args[1] == K(object)
        return None

    return rule


LIBRARY = [Ext("numpy.ndarray"), Ext("torch.Tensor"), Ext("tensorflow.Tensor")]


def no_array(values):
    """ Values which may be instances of anything but arrays. """
    def rule(it, pred):
        if pred.op == "isinstance" and pred.args[0] in values and pred.args[1] in LIBRARY:
            return False
        return None

    return rule


def lookalikes():
    """ Values which have a shape and a dtype, such as numpy scalars. """
    out = []
    for rank in range(2):
        shape = Tup([integer(f"s{i}") for i in range(rank)])
        dtype = Opaque(f"alike{rank}.dtype", truthy=True, attrs={
            "names": NONE, "kind": Opaque(f"alike{rank}.dtype.kind", kind="str"), "fields": NONE,
            "name": Opaque(f"alike{rank}.dtype.name", kind="str")})
        out.append(Opaque(f"alike{rank}", attrs={"shape": shape, "dtype": dtype, "ndim": K(rank)}))
    return out


def type_cases(fam):
    """ Types as (text, list of (dims items or None), ...). """
    n0, n1, e0 = integer("n0"), integer("n1"), expression("e0")
    shapes = [("", None, NONE), ("()", Tup([]), Tup([]))]
    for text, items in (("n", [n0]), ("0", [K(0)]), ("-1", [K(-1)]), ("...", [ELL]), ("X", [e0]),
                        ("None", [NONE]),
                        ("n, n", [n0, n1]), ("n, X", [n0, e0]), ("X, -1", [e0, K(-1)]),
                        ("..., n", [ELL, n0]), ("n, ...", [n0, ELL]), ("..., X", [ELL, e0]),
                        ("X, X", [e0, e0]), ("X, Y", [e0, expression("e1")]),
                        ("n, ..., n", [n0, ELL, n1])):
        shapes.append((text, Tup(items), Tup(items)))
    return shapes


@check("C16")
def c16(rep, tier):
    """ Verdicts of the three families over types and instances with unknown parts. """
    rep.rule("verdict", "on every path the verdict equals that of the definition (library, dtype "
             "or kind, shape, attributes, joint solvability); never raises")
    w = make_world()
    w.get("asta.constants", "NonInstanceType")
    instance_pins(w)
    strangers = [Opaque("stranger", closed=True)]
    w.pin_rules.append(no_instance(strangers + [Opaque(f"v{i}") for i in range(3)]))
    fams = {n: Family(w, n) for n in ("Array", "Tensor", "TFTensor")}
    alike = lookalikes()
    w.pin_rules.append(no_array(alike))
    for name, fam in fams.items():
        lib = fam.dtype("lib.dtype")
        dtypes = [("", None, NONE, ""), ("lib dtype", lib, lib, "")]
        for t in (int, float, bool) + ((str, bytes, object) if fam.kinds else (bytes,)):
            m = fam.mapped(K(t))
            dtypes.append((t.__name__, K(t), m[0], m[1]))
        if fam.kinds:
            m = fam.mapped(DATETIME)
            dtypes.append(("datetime", DATETIME, m[0], m[1]))
        others = [f for f in fams.values() if f is not fam]
        odd = [Instance("an object", fam, stranger=strangers[0]),
               Instance("None", fam, stranger=NONE), Instance("5", fam, stranger=K(5)),
               Instance("(2, 3)", fam, stranger=Tup([K(2), K(3)])),
               Instance("a list", fam, stranger=Opaque("list", kind="list", pytype=K(list)))]
        odd += [Instance("a value with a shape and a dtype", fam, stranger=v) for v in alike]
        odd += [Instance("an instance of " + f.name, fam, stranger=Instance("", f, 1).value)
                for f in others]
        for d, (dt, dv, dp, kind) in enumerate(dtypes):
            for s, (st, sv, sp) in enumerate(type_cases(fam)):
                for a, attrs in enumerate((None, "plain", "expr", "two", "none")):
                    if d > 1 and s > 1 and (d + s + a) % (5 if tier == "quick" else 2):
                        continue
                    if a > 0 and s > 4 and (d + s + a) % (3 if tier == "quick" else 1):
                        continue
                    rank = 0 if sv is None else len(sv.items)
                    insts = [Instance(f"rank {r}", fam, r) for r in
                             sorted({0, 1, rank, rank + 1} if tier != "quick" or d < 2
                                    else {rank, 1})]
                    if fam.kinds and (s < 4 or a == 0):
                        insts.append(Instance("structured", fam, rank, structured=True))
                    if s < 3 or a == 0:
                        insts += odd
                    if fam.name == "TFTensor" and rank:
                        insts.append(Instance("unknown size", fam,
                                              sizes=[NONE] + [integer("s1")] * (rank - 1)))
                    text = ", ".join(x for x in (dt, st, attrs and "{%s}" % attrs or "") if x)
                    for inst in insts:
                        one_verdict(rep, w, fam, text, dv, sv, attrs,
                                    {"dtype": dp, "kind": kind, "shape": sp}, inst)
    rep.engine(w.eng)


def one_verdict(rep, w, fam, text, dv, sv, attrs, parts, inst):
    def run(it):
        cls = fam.cls
        items = [x for x in (dv,) if x is not None]
        kw = NONE
        if sv is not None:
            items.append(sv if not sv.items or dv is not None else sv)
        if attrs is not None:
            kw = attrs_dict(attrs)(it)
            items.append(kw)
        it.event("kwattrs", value=kw)
        if len(items) == 1:
            cls = it.getitem(cls, items[0])
        elif items:
            cls = it.getitem(cls, Tup(items))
        it.event("begin")
        return it.isinstance(inst.value, cls)

    def judge(out):
        if not out.events("begin"):
            raise Undecided("the type could not be made")
        if out.kind == "raise":
            return f"raises {errname(out)}"
        it = out.it
        got = it.truth(out.value)
        p = dict(parts)
        p["kwattrs"] = out.events("kwattrs")[-1].value
        want = expected_verdict(it, fam, p, inst)
        if want is not None and want != got:
            return f"isinstance gives {got}"
        return None

    compared(rep, w, f"isinstance({inst.text}, {fam.name}[{text}])", "verdict",
             fam.anchor("__instancecheck__"), run, judge)


# -- C26 -----------------------------------------------------------------------------------

@check("C26")
def c26(rep, tier):
    """ isinstance(x, Scalar) over all kinds of values. """
    rep.rule("scalar", "on every path the verdict equals that of the definition; never raises")
    import datetime
    import decimal
    import fractions
    generic = [K(t) for t in (bool, int, float, complex, bytes, str, datetime.datetime,
                              datetime.timedelta)]
    for torch, tensorflow in ((True, True), (False, False), (True, False), (False, True)):
        w = World(torch=torch, tensorflow=tensorflow)
        scalar = w.get("asta.scalar", "Scalar")
        meta = scalar.meta if isinstance(scalar.meta, Cls) else None
        anchor = anchor_text(meta.attrs["__instancecheck__"]) if meta is not None and \
            "__instancecheck__" in meta.attrs else "asta/scalar.py in Scalar"
        stranger = Opaque("stranger", closed=True)
        w.pin_rules.append(lambda it, p: p.args[1] == K(object)
                           if p.op == "isinstance" and p.args[0] == stranger else None)
        cases = []
        for t in (bool, int, float, complex, bytes, str, datetime.datetime, datetime.timedelta):
            cases.append((f"a {t.__name__}", Opaque(f"some {t.__name__}", pytype=K(t)), True))
        for v in (0, 1.5, "", "abc", b"", False, True, 2j):
            cases.append((repr(v), K(v), True))
        for t in (list, dict, set, frozenset, bytearray, memoryview, fractions.Fraction,
                  decimal.Decimal, datetime.date, datetime.time):
            cases.append((f"a {t.__name__}", Opaque(f"some {t.__name__}", pytype=K(t)), False))
        for v in (None, Ellipsis, int, len):
            cases.append((repr(v), K(v), False))
        cases.append(("()", Tup([]), False))
        cases.append(("(1,)", Tup([K(1)]), False))
        cases.append(("an object", stranger, False))
        cases.append(("Scalar itself", scalar, False))
        alike = lookalikes()
        w.pin_rules.append(no_array(alike))
        w.pin_rules.append(lambda it, p, alike=alike: False if p.op == "isinstance" and
                           p.args[0] in alike and p.args[1] in generic else None)
        cases += [(f"a value of rank {v.attrs['ndim'].v} of another library", v, False)
                  for v in alike]
        libs = [("numpy.ndarray", None)]
        if torch:
            libs.append(("torch.Tensor", None))
        if tensorflow:
            libs.append(("tensorflow.Tensor", "tensorflow.TensorShape"))
        for path, shapetype in libs:
            for rank in range(4):
                sizes = [integer(f"s{i}") for i in range(rank)]
                shape = Tup(sizes) if shapetype is None else Opaque(
                    "inst.shape", pytype=Ext(shapetype), parts=sizes, length=K(rank))
                inst = Opaque("inst", pytype=Ext(path),
                              attrs={"shape": shape, "ndim": K(rank)})
                cases.append((f"{path} of rank {rank}", inst, rank == 0))
            sizes = [K(1)]
            shape = Tup(sizes) if shapetype is None else Opaque(
                "inst.shape", pytype=Ext(shapetype), parts=sizes, length=K(1))
            cases.append((f"{path} of shape (1,)", Opaque(
                "inst", pytype=Ext(path), attrs={"shape": shape, "ndim": K(1)}), False))
            if shapetype is None:
                shape = Opaque("inst.shape", kind="tuple", pytype=K(tuple))
                cases.append((f"{path} of any shape", Opaque(
                    "inst", pytype=Ext(path), attrs={"shape": shape, "ndim": Sym(
                        "len", shape, kind="int")}), shape))
        for text, val, want in cases:
            def run(it):
                return it.isinstance(val, scalar)

            def judge(out):
                if out.kind == "raise":
                    return f"raises {errname(out)}"
                it = out.it
                got = it.truth(out.value)
                ok = want if isinstance(want, bool) else not it.truth(want)
                return None if got == ok else f"isinstance gives {got}"

            compared(rep, w, f"{text} (torch {torch}, tensorflow {tensorflow})", "scalar",
                     anchor, run, judge)
        rep.engine(w.eng)


# -- C17 -----------------------------------------------------------------------------------

def route(it, fam, steps):
    """ A type made by successive subscripts; 'hash' hashes the type made so far. """
    cls = fam.cls
    for s in steps:
        if s == "hash":
            it.call(K(hash), [cls], {}, None)
        else:
            cls = it.getitem(cls, s(it) if callable(s) else s)
    return cls


def routes(fam, lib, made):
    """ Types by several routes, grouped by their parts. """
    attrs2, attrsx = attrs_dict("plain"), attrs_dict("expr")

    def two(order):
        def make(it):
            entries = [(K("ndim"), K(2)), (K("device"), K("cpu"))]
            return it.alloc(ADict(entries if order else entries[::-1]))
        return make

    def tup(*xs):
        return lambda it: Tup([x(it) if callable(x) else x for x in xs])

    e0, n0 = expression("e0"), integer("n0")
    groups = {
        "plain": [[], ["hash"]],
        "lib": [[lib], [3, lib], ["hash", lib], [tup(lib, K(3)), "hash", K(3)]][:1] +
               [["hash", lib], [lib, "hash", lib]],
        "3": [[K(3)], [K(4), K(3)], [K(4), "hash", K(3)], [tup(K(3))], ["hash", tup(Tup([K(3)]))]],
        "2, n": [[tup(K(2), n0)], [K(5), "hash", tup(K(2), n0)]],
        "X": [[e0], ["hash", e0], [K(3), "hash", e0]],
        "...": [[ELL], [K(3), "hash", ELL]],
        "()": [[Tup([])], [tup(Tup([]))], [K(3), "hash", Tup([])], ["hash", Tup([])]],
        "lib, 3": [[tup(lib, K(3))], [lib, K(3)], [lib, "hash", K(3)], [K(3), "hash", lib],
                   [tup(lib, Tup([K(3)]))]],
        "lib, ()": [[tup(lib, Tup([]))], [lib, "hash", Tup([])]],
        "{ndim: 2}": [[attrs2], ["hash", attrs2], [attrsx, "hash", attrs2]],
        "{ndim: X}": [[attrsx], [attrs2, attrsx]],
        "3, {ndim: 2}": [[tup(K(3), attrs2)], [K(3), attrs2], [K(3), "hash", attrs2],
                         [attrs2, "hash", K(3)]],
        "{2}": [[two(True)], [two(False)], [attrs2, "hash", two(False)]],
        "lib, 3, {ndim: 2}": [[tup(lib, K(3), attrs2)], [lib, "hash", K(3), "hash", attrs2]],
        "lib, 3, {ndim: X}": [[tup(lib, K(3), attrsx)]],
    }
    if fam.kinds:
        groups.update({
            "str": [[K(str)], [K(int), "hash", K(str)]],
            "bytes": [[K(bytes)]],
            "str, 3": [[tup(K(str), K(3))], [K(str), "hash", K(3)], [K(3), K(str)]],
            "object": [[K(object)], [K(int), "hash", K(object)]],
            "O dtype": [[made[object]], ["hash", made[object]], [K(object), made[object]]],
            "U dtype": [[made[str]], [K(str), "hash", made[str]]],
            "U dtype, 3": [[made[str], K(3)], [K(str), K(3), made[str]]],
            "str, 3, {}": [[tup(K(str), K(3), attrs_dict("none"))]],
        })
    groups["int"] = [[K(int)], ["hash", K(int)], [K(float), "hash", K(int)]]
    groups["float"] = [[K(float)]]
    groups["3, 3"] = [[tup(K(3), K(3))]]
    groups["..., 3"] = [[tup(ELL, K(3))]]
    return groups


@check("C17")
def c17(rep, tier):
    """ Types made by several routes, compared and hashed pairwise. """
    rep.rule("equal", "types with equal parts are equal both ways round; types which differ in a "
             "part, and a type and anything outside its family, are unequal; comparing never "
             "raises")
    rep.rule("hash", "types with equal parts have the same hash term; hashing never raises")
    w = make_world()
    fams = {n: Family(w, n) for n in ("Array", "Tensor", "TFTensor")}
    stranger = Opaque("stranger", closed=True)
    w.pin_rules.append(no_instance([stranger]))
    for name, fam in fams.items():
        lib = fam.dtype("lib.dtype")

        made = {t: fam.dtype(f"dtype of {t.__name__}") for t in (object, str)} \
            if fam.kinds else {}

        def pin_dtype(it, pred, lib=lib, made=made):
            if pred.op not in ("eq", "is"):
                return None
            if lib in pred.args:
                if NONE in pred.args and pred.op == "eq":
                    return pin(it, pred)
                return False
            for t, dtype in made.items():
                if dtype in pred.args:
                    term = Sym("call", Ext("numpy.dtype"), K(t))
                    return pred.op == "eq" and any(repr(a) == repr(term) for a in pred.args)
            return None

        w.pin_rules.insert(0, pin_dtype)
        groups = routes(fam, lib, made)
        flat = [(g, i, r) for g, rs in groups.items() for i, r in enumerate(rs)]
        for a, (ga, ia, ra) in enumerate(flat):
            for b, (gb, ib, rb) in enumerate(flat):
                if ga != gb and (ia or ib):
                    continue
                if ga == gb and a > b:
                    continue

                def run(it):
                    x, y = route(it, fam, ra), route(it, fam, rb)
                    res = [it.truth(it.compare("Eq", x, y)), it.truth(it.compare("Eq", y, x)),
                           not it.truth(it.compare("NotEq", x, y))]
                    if ga == gb:
                        hx = it.call(K(hash), [x], {}, None)
                        hy = it.call(K(hash), [y], {}, None)
                        return Tup([kbool(r) for r in res] + [it.freeze(hx), it.freeze(hy)])
                    return Tup([kbool(r) for r in res])

                def judge(out):
                    if out.kind == "raise":
                        return f"raises {errname(out)}"
                    want = ga == gb
                    if any(v.v != want for v in out.value.items[:3]):
                        return f"compare {'un' if want else ''}equal: {out.value.items[:3]}"
                    if want and out.value.items[3] != out.value.items[4]:
                        return f"hashes differ: {out.value.items[3]!r} and {out.value.items[4]!r}"
                    return None

                scenario(rep, w, f"{name}: [{ga}] by route {ia} and [{gb}] by route {ib}",
                         "hash" if ga == gb else "equal", fam.anchor("__eq__"), run, judge)
        outside = [("an object", stranger), ("None", NONE), ("()", Tup([])), ("int", K(int)),
                   ("3", K(3)), ("'Array'", K("Array")), ("the library class", fam.inst_type),
                   ("dtype", lib)]
        outside += [(f.name, f.cls) for f in fams.values() if f is not fam]
        for g in groups:
            for text, other in outside:
                def run(it):
                    x = route(it, fam, groups[g][0])
                    return Tup([it.compare("Eq", x, other), it.compare("NotEq", x, other)])

                def judge(out):
                    if out.kind == "raise":
                        return f"raises {errname(out)}"
                    it = out.it
                    if it.truth(out.value.items[0]) or not it.truth(out.value.items[1]):
                        return "compares equal"
                    return None

                compared(rep, w, f"{name}[{g}] and {text}", "equal", fam.anchor("__eq__"),
                         run, judge)
            for other in fams.values():
                if other is fam or g not in ("3", "...", "{ndim: 2}", "()", "X"):
                    continue

                def run(it):
                    x = route(it, fam, groups[g][0])
                    y = route(it, other, groups[g][0])
                    return Tup([it.compare("Eq", x, y), it.compare("Eq", y, x)])

                def judge(out):
                    if out.kind == "raise":
                        return f"raises {errname(out)}"
                    if any(out.it.truth(v) for v in out.value.items):
                        return "compares equal"
                    return None

                compared(rep, w, f"{name}[{g}] and {other.name}[{g}]", "equal",
                         fam.anchor("__eq__"), run, judge)
    rep.engine(w.eng)
