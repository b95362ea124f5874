""" What users get to read: the banner, representations, names and messages (C33-C36). """
from .common import *
from .harness import ENV_SET, ENV_VALUE
from .optional import combo_text
from .shapes import integer
from .stores import stores_world
from .symbolic import SYMBOL
from .types_ import Family, Instance
from . import resolve as R


ENVS = (None, "1", "0", "", "yes")


@check("C33")
def c33(rep, tier):
    """ The banner. """
    rep.rule("banner", "importing asta prints something exactly if checking is on (the option "
             "`on`, and ASTA_TYPECHECK unset or 1) and `print-passes` is off, for every "
             "configuration, every kind of value of ASTA_TYPECHECK, and with and without the "
             "libraries; and it says that type checking is enabled")
    for torch, tensorflow in ((False, False), (True, True)):
        for env in ENVS:
            for on in (True, False):
                for passes in (True, False):
                    for others in (True, False):
                        banner(rep, torch, tensorflow, env, on, passes, others)


def banner(rep, torch, tensorflow, env, on, passes, others):
    """ One import. """
    if not rep.ahead():
        return
    w = World(torch=torch, tensorflow=tensorflow, options={
        "on": on, "print_passes": passes, "raise_errors": others, "check_non_asta_types": others,
        "check_all_sequence_elements": not others})
    w.eng.skip_bodies = set()
    w.eng.extra_sources["vt_user"] = "import asta\n"
    w.pins[ENV_SET] = env is not None

    def environment(it, pred):
        if pred.op == "eq" and ENV_VALUE in pred.args:
            other = [a for a in pred.args if a != ENV_VALUE]
            if len(other) == 1 and isinstance(other[0], K):
                return other[0].v == env
        if pred.op == "truth" and pred.args[0] == ENV_VALUE:
            return bool(env)
        return None

    w.pin_rules.append(environment)
    wanted = on and env in (None, "1") and not passes

    def run(it):
        it.load("vt_user")
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)} at {site_text(out.site)}"
        said = out.events("print")
        if wanted and not said:
            return "importing prints nothing, although checking is on and passes are not printed"
        if said and not wanted:
            return "importing prints something, although " + (
                "passes are printed" if on and env in (None, "1") else "checking is off")
        if wanted:
            words = " ".join(text_of(a) for e in said for a in e.data["args"]).upper()
            if "TYPECHECKING IS ENABLED" not in words.replace("TYPE CHECKING", "TYPECHECKING"):
                return "what is printed does not say that type checking is enabled"
        return None

    text = f"import asta ({combo_text(torch, tensorflow)}, on={on}, print-passes={passes}, " \
           f"ASTA_TYPECHECK {'unset' if env is None else repr(env)})"
    scenario(rep, w, text, "banner", "asta/warning.py", run, judge)
    rep.engine(w.eng)


def text_of(v):
    """ The known characters of a piecewise text. """
    if isinstance(v, K):
        return str(v.v)
    if isinstance(v, Sym):
        return "".join(text_of(a) for a in v.args)
    return "?"


# -- C35 -----------------------------------------------------------------------------------

NAMES = '''
from asta import dims, shapes, symbols

def read(where, name):
    return getattr(where, name)

def probe(where, name):
    return getattr(where, name, MISSING)

def put(where, name, value):
    setattr(where, name, value)
'''

MODULE_ATTRS = ("__all__", "__name__", "__doc__", "__package__", "__loader__", "__spec__",
                "__annotations__", "__builtins__", "__file__", "__cached__")
PLAIN = ("X", "x", "batch", "n_1", "_p", "W0", "pi", "E", "S", "name", "file", "sys",
         "__x", "value")


@check("C35")
def c35(rep, tier):
    """ What the names of dims, shapes and symbols stand for. """
    rep.rule("symbol", "asta.symbols.NAME is sympy's plain symbol of exactly that name, for names "
             "of every form, also after a dimension or shape of that name has been given a value")
    rep.rule("own", "the attributes python itself keeps on a module are never symbols or "
             "placeholders in dims, shapes and symbols: each is the module's own or an "
             "AttributeError, also after other names were read and set")
    missing = Opaque("MISSING", closed=True, truthy=True)
    w = stores_world(torch=False, tensorflow=False)
    w.eng.extra_sources["vt_names"] = NAMES
    w.eng.program_globals["vt_names"] = {"MISSING": missing}
    prog = w.load("vt_names")
    fn = prog.scope.vars
    n, m = integer("n0"), integer("m0")
    before = {
        "": [],
        ", after dims are set": [("dims", "X", n), ("dims", "batch", K(3)), ("dims", "S", K(0))],
        ", after shapes are set": [("shapes", "X", Tup([n, m])), ("shapes", "S", Tup([]))],
    }

    for where in ("dims", "shapes", "symbols"):
        anchor = f"asta/{where}.py"
        for text, sets in before.items():
            for name in PLAIN if where == "symbols" else ():
                for again in (False, True):
                    def run(it, name=name, sets=sets, again=again):
                        if again:
                            it.call(fn["read"], [fn["symbols"], K(name)], {}, None)
                            it.call(fn["read"], [fn["symbols"], K("X" + name)], {}, None)
                        for s, key, v in sets:
                            it.call(fn["put"], [fn[s], K(key), v], {}, None)
                        return it.call(fn["read"], [fn["symbols"], K(name)], {}, None)

                    def judge(out, name=name):
                        if out.kind == "raise":
                            return f"raises {errname(out)} at {site_text(out.site)}"
                        if out.value != w.sympy.symbol(name):
                            return f"is {out.value!r}"
                        return None

                    scenario(rep, w, f"symbols.{name}{text}" + (" (read before)" if again else ""),
                             "symbol", anchor, run, judge)
            for name in MODULE_ATTRS:
                def run(it, name=name, sets=sets, where=where):
                    for s, key, v in sets:
                        it.call(fn["read"], [fn[s], K(key)], {}, None)
                        it.call(fn["put"], [fn[s], K(key), v], {}, None)
                    return it.call(fn["probe"], [fn[where], K(name)], {}, None)

                def judge(out, name=name):
                    if out.kind == "raise":
                        return f"raises {errname(out)} at {site_text(out.site)}"
                    it = out.it
                    if out.value == missing or out.value == NONE:
                        return None
                    v = out.value
                    kind = it.pytype(v)
                    if hasattr(v, "model") or kind == SYMBOL or isinstance(kind, Cls) and \
                            kind.name == "Placeholder":
                        return f"is a dimension or shape: {v!r}"
                    if name == "__name__" and v != K(f"asta.{where}"):
                        return f"is {v!r}"
                    if name in ("__loader__", "__spec__", "__builtins__", "__cached__") and \
                            v != Opaque(f"asta.{where}.{name}", closed=True, truthy=True):
                        return f"is {v!r}"
                    if isinstance(v, Sym):
                        raise Undecided(f"{v!r}")
                    return None

                scenario(rep, w, f"{where}.{name}{text}", "own", anchor, run, judge)
    rep.engine(w.eng)


# -- C34 -----------------------------------------------------------------------------------

SHOWN = '''
from asta.scalar import Scalar

def get(t, item):
    return t[item]

def rep(t):
    return repr(t)

def text(t):
    return str(t)

def formatted(t):
    return f"{t}"
'''


def flat(v, out=None):
    """ The pieces of a text: known characters, ("of", term): what str() of a term gives,
    ("repr", term), and ("odd", term): unknown text. """
    if out is None:
        out = []
        flat(v, out)
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            elif p != "":
                res.append(p)
        return res
    if isinstance(v, K) and isinstance(v.v, str):
        out.append(v.v)
    elif isinstance(v, Sym) and v.op == "str":
        for a in v.args:
            if isinstance(a, K) and isinstance(a.v, str) or isinstance(a, Sym) and \
                    a.op in ("str", "repr", "s_replace"):
                flat(a, out)
            elif isinstance(a, K):
                out.append(str(a.v) if not isinstance(a.v, type) and a != ELL else ("of", a))
            else:
                out.append(("of", a))
    elif isinstance(v, Sym) and v.op == "repr":
        a = v.args[0]
        out.append(("of" if a.kind in ("int", "expr") or hasattr(a, "model") else "repr", a))
    elif isinstance(v, Sym) and v.op == "s_replace":
        n = len(out)
        flat(v.args[0], out)
        if any(isinstance(p, str) for p in out[n:]):
            out[n:] = [("odd", v)]
    else:
        out.append(("odd", v) if isinstance(v, Sym) and v.kind == "str" else ("of", v))
    return out


def spell(pieces):
    """ Pieces, for a message. """
    return "".join(p if isinstance(p, str) else f"{{{p[1]!r}}}" for p in pieces)


def text_problem(got, want, what="it reads"):
    """ What is wrong with a text. """
    got = flat(got)
    if got == want or composite(got, want):
        return None
    if any(not isinstance(p, str) and p[0] == "odd" for p in got):
        raise Undecided(f"an unknown text: {spell(got)}")
    return f"{what} {spell(got)!r}, not {spell(want)!r}"


def composite(got, want):
    """ Is this the wanted text, where composite placeholders show at least their parts? """
    if not any(not isinstance(p, str) and p[0] == "parts" for p in want):
        return False
    at, off = 0, 0

    def find(p, anywhere):
        nonlocal at, off
        while at < len(got):
            q = got[at]
            if isinstance(p, str) and isinstance(q, str):
                i = q.find(p, off)
                if i >= 0 and (anywhere or i == off):
                    off = i + len(p)
                    return True
            elif p == q:
                at, off = at + 1, 0
                return True
            elif not anywhere and not (isinstance(q, str) and off == len(q)):
                return False
            at, off = at + 1, 0
        return False

    loose = False
    for p in want:
        if not isinstance(p, str) and p[0] == "parts":
            for q in placeholder_parts(p[1]):
                if not find(q, True):
                    return False
            loose = True
        else:
            if not find(p, loose):
                return False
            loose = False
    return at == len(got) or at == len(got) - 1 and off == len(got[at])


def placeholder_parts(v):
    """ What the text of a composite placeholder has to show, in order. """
    contents = v.attrs.get("contents")
    if not isinstance(contents, AList):
        raise Undecided("a placeholder of unknown contents")
    out = []
    for x in contents.content:
        if isinstance(x, Inst) and not isinstance(x.attrs.get("name"), K):
            raise Undecided("a placeholder of an unknown name")
        if isinstance(x, Inst) and x.attrs["name"] == NONE:
            out += placeholder_parts(x)
        elif isinstance(x, Tup):
            out += [p for y in x.items for p in shown_term(y)]
        else:
            out += shown_term(x)
    return out


def shown_term(v):
    """ Pieces of an element of a shape. """
    if v == ELL:
        return ["..."]
    if v == NONE:
        return ["None"]
    if isinstance(v, Tup):
        return shown_tuple(v.items)
    if isinstance(v, K):
        return [repr(v.v)]
    if isinstance(v, Inst):
        name = v.attrs.get("name")
        if isinstance(name, K) and isinstance(name.v, str):
            return ["#" + name.v]
        return [("parts", v)]
    return [("of", v)]


def shown_tuple(items):
    """ Pieces of a tuple. """
    out = ["("]
    for i, x in enumerate(items):
        if i:
            out.append(", ")
        out += shown_term(x)
    return out + [",)" if len(items) == 1 else ")"]


def glue(pieces):
    """ Join adjacent characters. """
    out = []
    for p in pieces:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def shown_type(it, fam, dtype, shape, attrs):
    """ Pieces of the representation of an asta type. """
    parts = []
    if dtype is not None:
        if fam.name == "Array":
            parts.append(["np."] + flat(it.to_str(it.getattr(dtype, "name"))))
        else:
            parts.append(flat(it.to_repr(dtype)))
    if shape is not None:
        parts.append(["shape="] + shown_tuple(shape))
    if attrs is not None:
        body = ["attrs={"]
        for i, (k, v) in enumerate(attrs):
            body += [", " if i else "", repr(k), ": "] + flat(it.to_repr(v))
        parts.append(body + ["}"])
    out = [f"<asta.{fam.name}["]
    for i, p in enumerate(parts):
        if i:
            out.append(", ")
        out += p
    return glue(out + ["]>"])


def shown_shapes():
    """ (text, items or None). """
    n, m = R.const("n", integer("n0")), R.const("m", integer("m0"))
    out = [("", None), ("()", []), ("n", [n]), ("0", [R.const("0", K(0))]), ("n, m", [n, m]),
           ("n, m, n", [n, m, n]), ("...", [R.DOTS]), ("n, ...", [n, R.DOTS]),
           ("..., m", [R.DOTS, m]), ("n, ..., m", [n, R.DOTS, m]), ("-1, n", [R.ANY, n]),
           ("X", [R.X]), ("X, S, X + 1", [R.X, R.S, R.XP1]), ("X * Y, ...", [R.XY, R.DOTS]),
           ("P", [R.P]), ("P, n", [R.P, n]), ("n, ..., X, P", [n, R.DOTS, R.X, R.P]),
           ("(n, X), P", [R.nested(n, R.X), R.P]), ("None", [R.const("None", NONE)]),
           ("..., n, ..., X", [R.DOTS, n, R.DOTS, R.X]), ("P + Q", [R.plus(R.P, R.Q)]), ("P + (n, X)", [R.plus(R.P, R.nested(n, R.X))]),
           ("(n,) + P, m", [R.plus(R.nested(n), R.P), m])]
    return out


@check("C34")
def c34(rep, tier):
    """ Representations of asta types. """
    rep.rule("text", "on every path repr(), str() and formatting of a type read "
             "<asta.NAME[dtype, shape=(...), attrs={...}]>: the family's own name, and of dtype "
             "(numpy's as np.NAME), shape (elements in order, ... for ellipses) and attributes "
             "exactly those the type has, for dimensions, dtypes and attribute values unknown")
    rep.rule("total", "they raise nothing for any type that subscripting accepts")
    for torch, tensorflow in ((True, True), (False, False)):
        cw = R.CallWorld(torch=torch, tensorflow=tensorflow)
        w = cw.w
        w.eng.extra_sources["vt_shown"] = SHOWN
        prog = w.load("vt_shown").scope.vars
        for name in ("Array", "Tensor", "TFTensor") if torch else ("Array",):
            fam = Family(w, name)
            for how in ("rep", "text", "formatted"):
                shown_family(rep, cw, fam, prog, how, tier)
        rep.engine(w.eng)


def shown_family(rep, cw, fam, prog, how, tier):
    """ The types of one family. """
    w = cw.w
    lib = fam.dtype("lib.dtype")
    anchor = fam.anchor("__repr__")
    dtypes = [("", None, None), ("dtype", lib, lib)]
    for t in (int, float, bool, bytes) + ((str, object) if fam.kinds else ()):
        dtypes.append((t.__name__, K(t), fam.mapped(K(t))[0]))
    attrs = [("", None), ("device", [("device", K("cpu"))]),
             ("two", [("device", Opaque("v0", kind="str", pytype=K(str))), ("b", integer("n5"))])]
    for d, (dt, dv, dp) in enumerate(dtypes):
        for s, (st, items) in enumerate(shown_shapes()):
            for a, (at, kw) in enumerate(attrs):
                if how != "rep" and (d > 1 or (s + a) % 4) or d > 1 and (d + s + a) % 3:
                    continue

                def make(it, dv=dv, items=items, kw=kw):
                    its = None if items is None else [i.make(cw, it) for i in items]
                    sub = [dv] if dv is not None else []
                    if its is not None:
                        sub += its or [Tup([])]
                    if kw is not None:
                        sub.append(it.alloc(ADict([(K(k), v) for k, v in kw])))
                    if not sub:
                        return fam.cls, its
                    item = sub[0] if len(sub) == 1 else Tup(sub)
                    return it.call(prog["get"], [fam.cls, item], {}, None), its

                def run(it, make=make, dp=dp, kw=kw):
                    t, its = make(it)
                    shape = its
                    if its is not None and len(its) == 1 and its[0] == NONE:
                        shape = [NONE]
                    got = it.call(prog[how], [t], {}, None)
                    want = shown_type(it, fam, dp, shape, kw)
                    it.event("shown", msg=text_problem(got, want))
                    return NONE

                def judge(out):
                    if out.kind == "raise":
                        return f"raises {errname(out)} at {site_text(out.site)}"
                    return out.events("shown")[-1].data["msg"]

                inner = ", ".join(x for x in (dt, st, at and "{" + at + "}") if x)
                scenario(rep, w, f"{how} of {fam.name}[{inner}]", "text", anchor, run, judge)


# -- C36 -----------------------------------------------------------------------------------

NESTS = '''
from typing import (Any, Callable, Dict, List, Mapping, NamedTuple, Optional, Protocol, Sequence,
                    Set, Tuple, Type, TypedDict, Union, TextIO, BinaryIO, IO, runtime_checkable)
from asta.decorators import typechecked

def list_of(a):
    return List[a]

def sequence_of(a):
    return Sequence[a]

def homogeneous(a):
    return Tuple[a, ...]

def triple(a):
    return Tuple[a, a, a]

def dict_of(k, v):
    return Dict[k, v]

def set_of(a):
    return Set[a]

def optional(a):
    return Union[a, None]

def named(a):
    class Point(NamedTuple):
        first: a
        second: a
    return Point

def point(cls, a, b):
    return cls(a, b)

def typed(a):
    class Movie(TypedDict):
        one: a
        two: a
    return Movie

@runtime_checkable
class Duck(Protocol):
    def quack(self) -> int:
        ...

class Goose:
    pass

def goose():
    return Goose()

def only(annotation, body):
    @typechecked
    def checked(a: annotation):
        return body(a)
    return checked

def weighted(first, annotation, body):
    @typechecked
    def checked(a: first, weights: annotation):
        return body(a)
    return checked

def keyword(first, annotation, body):
    @typechecked
    def checked(a: first, *, mask_2: annotation):
        return body(a)
    return checked

def by_keyword(fn, a, b):
    return fn(a=a, mask_2=b)

def result(annotation, body):
    @typechecked
    def checked() -> annotation:
        return body()
    return checked

class Layer:
    pass

def method(annotation, body):
    class Model:
        @typechecked
        def forward(self, inputs: annotation):
            return body(inputs)
    return Model().forward
'''


class Nest:
    """ A way to nest an annotation and a value: what the report calls the value. """

    def __init__(self, text, ann, val, path, options=(), hashed=False):
        self.text = text
        self.ann = ann        # (it, prog, annotation) -> annotation
        self.val = val        # (it, prog, annotation, good, bad) -> value
        self.path = path
        self.options = options
        self.hashed = hashed  # is the value put where it has to be hashable?


def prog_call(name):
    return lambda it, prog, *args: it.call(prog[name], list(args), {}, None)


def nests():
    """ Ways to nest. """
    def lst(*picks):
        return lambda it, prog, ann, good, bad: it.alloc(AList(
            [bad if p else good for p in picks]))

    def tup(*picks):
        return lambda it, prog, ann, good, bad: Tup([bad if p else good for p in picks])

    def dct(*pairs):
        return lambda it, prog, ann, good, bad: it.alloc(ADict(
            [(k, bad if p else good) for k, p in pairs]))

    one, two = K("one"), K("two")
    text = K(str)
    out = [
        Nest("itself", lambda it, prog, a: a, lambda it, prog, ann, good, bad: bad, ""),
        Nest("List, 1st", prog_call("list_of"), lst(1, 0), "[0]"),
        Nest("List, 3rd", prog_call("list_of"), lst(0, 0, 1), "[2]"),
        Nest("Sequence, 2nd", prog_call("sequence_of"), tup(0, 1), "[1]"),
        Nest("Tuple[X, ...], 2nd", prog_call("homogeneous"), tup(0, 1), "[1]"),
        Nest("Tuple, 1st", prog_call("triple"), tup(1, 0, 0), "[0]"),
        Nest("Tuple, 3rd", prog_call("triple"), tup(0, 0, 1), "[2]"),
        Nest("Dict value", lambda it, prog, a: it.call(prog["dict_of"], [text, a], {}, None),
             dct((one, 0), (two, 1)), "[two]"),
        Nest("Dict key", lambda it, prog, a: it.call(prog["dict_of"], [a, text], {}, None),
             lambda it, prog, ann, good, bad: it.alloc(ADict([(bad, K("x"))])), ".<key>",
             hashed=True),
        Nest("Set", prog_call("set_of"), lambda it, prog, ann, good, bad: it.make_set([bad]),
             ".<set_element>", hashed=True),
        Nest("NamedTuple, 2nd", prog_call("named"),
             lambda it, prog, ann, good, bad: it.call(prog["point"], [ann, good, bad], {}, None),
             ".second"),
        Nest("TypedDict", prog_call("typed"), dct((one, 1), (two, 0)), "[one]"),
        Nest("Optional", prog_call("optional"), lambda it, prog, ann, good, bad: bad, ""),
    ]
    inner = {n.text: n for n in out}

    def within(outer, name, pick, path):
        n = inner[name]

        def ann(it, prog, a):
            return outer.ann(it, prog, n.ann(it, prog, a))

        def val(it, prog, an, good, bad):
            return pick(it, n.val(it, prog, n_ann(it, prog, an), good, bad),
                        n.val(it, prog, n_ann(it, prog, an), good, good))

        def n_ann(it, prog, an):
            return an

        return Nest(f"{outer.text} of {name}", ann, val, path + n.path, hashed=n.hashed)

    out.append(within(inner["List, 1st"], "List, 3rd",
                      lambda it, bad, good: it.alloc(AList([good, bad])), "[1]"))
    out.append(within(inner["List, 1st"], "Dict value",
                      lambda it, bad, good: it.alloc(AList([bad])), "[0]"))
    out.append(within(inner["Dict value"], "Tuple, 3rd",
                      lambda it, bad, good: it.alloc(ADict([(K("k"), good), (K("w"), bad)])),
                      "[w]"))
    out.append(within(inner["Tuple[X, ...], 2nd"], "Set",
                      lambda it, bad, good: Tup([good, bad]), "[1]"))
    out.append(within(inner["Sequence, 2nd"], "Optional",
                      lambda it, bad, good: it.alloc(AList([good, bad])), "[1]"))
    return out


PLACES = {"argument": "a", "second": "weights", "keyword": "mask_2", "result": "return",
          "method": "inputs"}


def place(it, prog, where, ann, val, good_ann, good, body, cw):
    """ Call a function annotated at one place: (exception, result, events). """
    if where == "argument":
        return R.attempt(it, it.call(prog["only"], [ann, body], {}, None), [val])
    if where == "second":
        fn = it.call(prog["weighted"], [good_ann, ann, body], {}, None)
        return R.attempt(it, fn, [good, val])
    if where == "keyword":
        fn = it.call(prog["keyword"], [good_ann, ann, body], {}, None)
        return R.attempt(it, prog["by_keyword"], [fn, good, val])
    if where == "result":
        return R.attempt(it, it.call(prog["result"], [ann, cw.body(val)], {}, None), [])
    return R.attempt(it, it.call(prog["method"], [ann, body], {}, None), [val])


def messages(exc, events, word):
    """ The texts reported, as pieces. """
    out = []
    if exc is not None and isinstance(exc, Exc) and exc.args:
        out.append(flat(exc.args[0]))
    for e in events:
        if e.kind == "print":
            for a in e.data["args"]:
                out.append(flat(a))
    return [m for m in out if any(isinstance(p, str) and word in p for p in m)]


def names(pieces, path):
    """ Does a text name this value (and not a part or the whole of it)? """
    import re
    text = "".join(p if isinstance(p, str) else "\0" for p in pieces)
    pattern = r"(?<![\w.\]\[])" + re.escape(path) + r"(?![\w\[.<]|\.\w)"
    return re.search(pattern, text) is not None


def shows(pieces, want):
    """ Do these pieces appear in a text, together and in order? """
    want = glue(want)
    for i in range(len(pieces) - len(want) + 1):
        ok = True
        for j, w in enumerate(want):
            p = pieces[i + j]
            if isinstance(w, str) != isinstance(p, str):
                ok = False
            elif not isinstance(w, str):
                ok = p == w
            elif len(want) == 1:
                ok = w in p
            elif j == 0:
                ok = p.endswith(w)
            elif j == len(want) - 1:
                ok = p.startswith(w)
            else:
                ok = p == w
            if not ok:
                break
        if ok:
            return True
    return False


def position(pieces, word):
    """ The pieces after a word. """
    for i, p in enumerate(pieces):
        if isinstance(p, str) and word.lower() in p.lower():
            at = p.lower().index(word.lower()) + len(word)
            return [p[at:]] + pieces[i + 1:]
    return None


def odd(pieces):
    return any(not isinstance(p, str) and p[0] == "odd" for p in pieces)


def identify_world(raising, passes, other=False):
    cw = R.CallWorld(raising=raising, passes=passes, check_all_sequence_elements=True,
                     check_non_asta_types=other)
    cw.w.eng.extra_sources["vt_nests"] = NESTS
    return cw, cw.w.load("vt_nests").scope.vars


PATTERNS = ([R.N0], [R.X, R.N0], [R.DOTS, R.S], [R.P], [R.plus(R.P, R.nested(R.X))], [R.XP1],
            [])


def value_shown(it, fam, inst):
    """ What a report has to show of a value: lists of pieces. """
    if fam.name == "Array":
        dtype = ["np."] + flat(it.to_str(it.getattr(inst.dtype, "name")))
    else:
        dtype = flat(it.to_repr(inst.dtype))
    return [dtype, glue(["shape="] + shown_tuple(inst.sizes))]


@check("C36")
def c36_asta(rep, tier):
    """ What failures and passes say. """
    rep.rule("which", "on every path of a decorated call on which a value (an argument, a result, "
             "or an element nested in one) fails the check of its asta annotation, every failure "
             "reported (raised or printed) names that value: the parameter's name, or `return`, "
             "followed by the element's path")
    rep.rule("what", "it shows the annotation with the sizes its dimensions and shapes stand for "
             "at the call after `Expected type`, and the dtype and the shape of the value itself "
             "(or the class of a value which is no array) after `Actual type`")
    rep.rule("pass", "with print-passes on a value which matches is reported the same way")
    store = R.stores(0)
    ways = nests()
    for raising in (True, False):
        for passes in (True, False):
            cw, prog = identify_world(raising, passes, raising == passes)
            fams = [Family(cw.w, n) for n in ("Array", "Tensor", "TFTensor")]
            anchor = anchor_text(cw.w.get("asta.origins", "check_annotation"))
            for f, fam in enumerate(fams):
                for i, items in enumerate(PATTERNS):
                    for n, nest in enumerate(ways):
                        for p, where in enumerate(PLACES):
                            for b, kind in enumerate(("rank", "object", "match")):
                                if kind == "match" and (not passes or "Optional" in nest.text or
                                                        nest.hashed):
                                    continue
                                if nest.hashed and kind != "object":
                                    continue
                                if tier == "quick" and (f + i + n + p + b + raising) % 4 and not (
                                        f == 0 and i == 1 and p in (0, 3)):
                                    continue
                                identify(rep, cw, prog, fam, fams[f - 1], items, nest, where,
                                         kind, store, anchor)
                    for where in ("argument", "result", "method"):
                        for parts in ("dtype", "attrs", "both", "type"):
                            identify(rep, cw, prog, fam, fams[f - 1], items, ways[0], where,
                                     "object", store, anchor, parts)
            rep.engine(cw.w.eng)


def identify(rep, cw, prog, fam, other, items, nest, where, kind, store, anchor, parts=""):
    """ One call with a value which fails, or matches. """
    text = ", ".join([parts] * bool(parts) + [i.text for i in items])
    path = PLACES[where] + nest.path
    lib = fam.dtype("lib.dtype")
    dv, dtype = {"dtype": (lib, lib), "both": (lib, lib),
                 "type": (K(float), fam.mapped(K(float))[0])}.get(parts, (None, None))
    attrs = [("device", K("cpu")), ("layout", Opaque("v0", kind="str", pytype=K(str)))] \
        if parts in ("attrs", "both") else None

    def run(it):
        R.touch(cw.w, it, store)
        own = [i.make(cw, it) for i in items]
        if attrs:
            own.append(it.alloc(ADict([(K(k), v) for k, v in attrs])))
        ann = R.annotate(it, fam.cls, ([dv] if dv is not None else []) + own)
        R.fill(cw.w, it, store)
        sizes, problems = [], set()
        for i in items:
            got, bad = i.resolve(cw, it, store)
            sizes += got
            problems |= bad
        if problems:
            it.event("named", msg=None)
            return NONE
        exact = [K(4) if s == ELL or hasattr(s, "model") and s.model[1] else s
                 for s in sizes]
        good = Instance("", fam, sizes=exact)
        if kind == "rank":
            bad = Instance("", fam if items else other, sizes=exact + [K(7)], tag="'")
        elif kind == "object":
            bad = Instance("", fam, stranger=K(5))
        else:
            bad = Instance("", fam, sizes=exact, tag="'")
        if kind == "rank" and ELL in sizes:
            bad = Instance("", other, sizes=exact + [K(7)], tag="'")
        whole = nest.ann(it, prog, ann)
        val = nest.val(it, prog, whole, good.value, bad.value)
        exc, _, events = place(it, prog, where, whole, val, ann, good.value, cw.body(), cw)
        if any(p.op == "solvable" and not v for p, v in it.facts.items()):
            # S = 4 has a solution.
            it.event("named", msg=None)
            return NONE
        it.event("named", msg=named_problem(it, cw, fam, bad, sizes if items else None, exc,
                                            events, path, kind, nest, dtype, attrs))
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)} at {site_text(out.site)}"
        return out.events("named")[-1].data["msg"]

    scenario(rep, cw.w, f"{where}, {nest.text}: {fam.name}[{text}] with "
             f"{ {'rank': 'an array of another rank', 'object': '5', 'match': 'a match'}[kind]}, "
             f"raise-errors={cw.raising}", {"match": "pass"}.get(kind, "which"), anchor, run, judge)


def named_problem(it, cw, fam, bad, sizes, exc, events, path, kind, nest, dtype=None, attrs=None):
    """ What is wrong with the reports of a call. """
    if exc is not None and (not is_type_error(Outcome("raise", exc, it)) or kind == "match"):
        return f"raises {errname(Outcome('raise', exc, it))} {exc.args!r}"
    found = messages(exc, events, "FAILED" if kind != "match" else "PASSED")
    if kind == "match":
        found = [m for m in found if names(m, path)]
        if not found:
            return f"no pass names {path!r}"
    if not found:
        return "no failure is reported"
    for m in found:
        if not names(m, path):
            if odd(m):
                raise Undecided(f"an unknown text: {spell(m)}")
            return f"a report does not name {path!r}: {spell(m)!r}"
        after = position(m, "actual type")
        if after is None:
            return f"a report does not show the actual type: {spell(m)!r}"
        if "Optional" in nest.text:
            continue
        if bad.array:
            owner = fam if it.pytype(bad.value) == fam.inst_type else next(
                Family(cw.w, n) for n in ("Array", "Tensor", "TFTensor")
                if Family(cw.w, n).inst_type == it.pytype(bad.value))
            for want in value_shown(it, owner, bad):
                if not shows(after, want):
                    if odd(m):
                        raise Undecided(f"an unknown text: {spell(m)}")
                    return f"a report does not show {spell(want)!r} of the value: {spell(m)!r}"
        elif not any(p == ("repr", K(int)) or p == ("of", K(int)) or isinstance(p, str) and
                     "int" in p for p in after):
            return f"a report does not show the class of the value: {spell(m)!r}"
        shown = shown_type(it, fam, dtype, sizes, attrs)
        before = position(m, "expected type") if kind != "match" else m
        if before is None or not shows(before, shown):
            if odd(m):
                raise Undecided(f"an unknown text: {spell(m)}")
            return f"a report does not show the annotation as {spell(shown)!r}: {spell(m)!r}"
    return None


@check("C36")
def c36_unset(rep, tier):
    """ Annotations which cannot be resolved. """
    rep.rule("unset", "a call whose annotation has a dimension or shape that was never set is "
             "reported (raised, or printed) with the name of that dimension or shape")
    store = R.stores(0)
    cases = [([R.Z], "Z"), ([R.N0, R.Z], "Z"), ([R.U], "U"), ([R.U, R.N0], "U"),
             ([R.nested(R.Z)], "Z"), ([R.X, R.Z], "Z"), ([R.P, R.U], "U"),
             ([R.plus(R.P, R.U)], "U"), ([R.plus(R.U, R.nested(R.X))], "U"),
             ([R.Z, R.DOTS], "Z"), ([R.nested(R.U)], "U"), ([R.star(R.U)], "U")]
    for raising in (True, False):
        cw, prog = identify_world(raising, False)
        fams = [Family(cw.w, n) for n in ("Array", "Tensor", "TFTensor")]
        anchor = anchor_text(cw.w.get("asta.substitution", "substitute"))
        for fam in fams:
            for items, name in cases:
                for where in PLACES:
                    unset(rep, cw, prog, fam, items, name, where, store, anchor)
        rep.engine(cw.w.eng)


def unset(rep, cw, prog, fam, items, name, where, store, anchor):
    """ One call. """
    def run(it):
        R.touch(cw.w, it, store)
        ann = R.annotate(it, fam.cls, [i.make(cw, it) for i in items])
        R.fill(cw.w, it, store)
        val = Instance("", fam, 2).value
        exc, _, events = place(it, prog, where, ann, val, fam.cls, val, cw.body(), cw)
        found = messages(exc, events, "FAILED")
        msg = None
        if not found:
            msg = "no failure is reported"
        elif not any(names(m, name) or shows_term(m, name) for m in found):
            if any(odd(m) for m in found):
                raise Undecided("an unknown text")
            msg = f"no report names {name}: {[spell(m) for m in found]!r}"
        it.event("named", msg=msg)
        return NONE

    def shows_term(m, name):
        return any(not isinstance(p, str) and hasattr(p[1], "model") and
                   (p[1].model[0] == ("sym", name) or name in p[1].model[1]) for p in m)

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)} at {site_text(out.site)}"
        return out.events("named")[-1].data["msg"]

    scenario(rep, cw.w, f"{where}: {fam.name}[{', '.join(i.text for i in items)}], "
             f"raise-errors={cw.raising}", "unset", anchor, run, judge)


PLAIN_KINDS = '''
import io
from typing import (Any, Callable, Dict, FrozenSet, List, Literal, Mapping, Optional, Sequence,
                    Set, Tuple, Type, Union, TextIO, BinaryIO, IO)
from vt_nests import Duck, Goose, only, result, weighted, by_keyword, keyword, method, named, typed

LIST = List[int]
SEQUENCE = Sequence[int]
DICT = Dict[str, int]
SET = Set[int]
PAIR = Tuple[int, int]
MANY = Tuple[int, ...]
EMPTY = Tuple[()]
UNION = Union[int, str]
OPTIONAL = Optional[int]
CALL = Callable[[int], int]
CLASS = Type[int]
LITERAL = Literal[1, 2]
MOVIE = typed(int)
POINT = named(int)
TEXT = TextIO
BINARY = BinaryIO
STREAM = IO
'''


@check("C36")
def c36_plain(rep, tier):
    """ Other annotations. """
    rep.rule("plain", "with check-non-asta-types on, a value of the wrong kind for each kind of "
             "annotation is reported with its name and path and its own class (the value for a "
             "literal)")
    rep.rule("length", "a tuple of the wrong length is reported with its own length first, and "
             "the annotation's length as the expected one")
    rep.rule("protocol", "a value which does not implement a protocol is reported with its own "
             "type as the one that is not compatible and the protocol as the protocol")
    for raising in (True, False):
        cw, prog = identify_world(raising, False, True)
        w = cw.w
        w.eng.extra_sources["vt_plain"] = PLAIN_KINDS
        kinds = w.load("vt_plain").scope.vars
        anchor = anchor_text(w.get("asta.origins", "check_annotation"))
        anns = [("int", K(int), "x"), ("str", K(str), 5), ("float", K(float), "x"),
                ("complex", K(complex), "x"), ("bytes", K(bytes), 5), ("bool", K(bool), "x")]
        anns += [(n, kinds[n], 5) for n in ("LIST", "SEQUENCE", "DICT", "SET", "PAIR", "MANY",
                                            "EMPTY", "CALL", "CLASS", "MOVIE", "POINT", "TEXT",
                                            "BINARY", "STREAM")]
        anns += [("UNION", kinds["UNION"], 1.5), ("OPTIONAL", kinds["OPTIONAL"], "x"),
                 ("LITERAL", kinds["LITERAL"], 5), ("list", K(list), 5), ("dict", K(dict), 5),
                 ("tuple", K(tuple), 5), ("set", K(set), 5)]
        for text, ann, v in anns:
            for nest in nests():
                if nest.text not in ("itself", "List, 3rd", "Dict value", "NamedTuple, 2nd",
                                     "Tuple, 3rd", "TypedDict"):
                    continue
                for where in PLACES:
                    plain_report(rep, cw, prog, text, ann, K(v), nest, where, anchor)
        for where in PLACES:
            for n in (0, 1, 3, 5):
                length_report(rep, cw, prog, kinds["PAIR"], n, where, anchor)
            protocol_report(rep, cw, prog, where, anchor)
        rep.engine(w.eng)


def reported_texts(it, cw, prog, where, ann, val):
    exc, _, events = place(it, prog, where, ann, val, K(int), K(3), cw.body(), cw)
    if exc is not None and not is_type_error(Outcome("raise", exc, it)):
        return None, f"raises {errname(Outcome('raise', exc, it))}"
    found = messages(exc, events, "FAILED")
    return found, None if found else "no failure is reported"


def plain_report(rep, cw, prog, text, ann, value, nest, where, anchor):
    """ One value of the wrong kind. """
    path = PLACES[where] + nest.path

    def run(it):
        whole = nest.ann(it, prog, ann)
        if nest.text == "itself":
            val = value
        elif nest.text == "NamedTuple, 2nd":
            val = it.call(prog["point"], [whole, value, value], {}, None)
        else:
            val = nest.val(it, prog, whole, value, value)
        found, msg = reported_texts(it, cw, prog, where, whole, val)
        if msg is None:
            named = [m for m in found if names(m, path)]
            if not named:
                if any(odd(m) for m in found) and not cw.raising:
                    raise Undecided("an unknown text")
                # The first failure is raised.
                first = {"List, 3rd": "[0]", "Dict value": "[one]", "Tuple, 3rd": "[0]",
                         "NamedTuple, 2nd": ".first"}.get(nest.text)
                named = [m for m in found if cw.raising and first and
                         names(m, PLACES[where] + first)]
            if not named:
                msg = f"no report names {path!r}: {[spell(m) for m in found]!r}"
            else:
                word = repr(value.v) if text == "LITERAL" else type(value.v).__name__
                for m in named:
                    after = position(m, "actual") or []
                    if not any(word in p if isinstance(p, str) else
                               p[1] == K(type(value.v)) for p in after):
                        if odd(m):
                            raise Undecided("an unknown text")
                        msg = f"a report does not show {word!r} as the actual one: {spell(m)!r}"
        it.event("named", msg=msg)
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)} at {site_text(out.site)}"
        return out.events("named")[-1].data["msg"]

    scenario(rep, cw.w, f"{where}, {nest.text}: {text} with {value.v!r}, "
             f"raise-errors={cw.raising}", "plain", anchor, run, judge)


def numbers(m):
    """ The numbers a text shows outside of quotes, in order. """
    import re
    text = "".join(p if isinstance(p, str) else "?" for p in m)
    text = re.sub("\033\\[[0-9;]*m", "", text)
    return re.findall(r"(?<![\w.])\d+(?![\w.]|\.\d)", re.sub(r"'[^']*'", "", text))


def length_report(rep, cw, prog, ann, n, where, anchor):
    """ A tuple of n elements for a pair. """
    def run(it):
        val = Tup([K(3)] * n)
        found, msg = reported_texts(it, cw, prog, where, ann, val)
        if msg is None:
            for m in found:
                if odd(m):
                    raise Undecided("an unknown text")
                if not names(m, PLACES[where]):
                    msg = f"a report does not name {PLACES[where]!r}: {spell(m)!r}"
                elif numbers(m) != [str(n), "2"]:
                    msg = f"a tuple of {n} elements for a pair is reported as {spell(m)!r}"
        it.event("named", msg=msg)
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)} at {site_text(out.site)}"
        return out.events("named")[-1].data["msg"]

    scenario(rep, cw.w, f"{where}: Tuple[int, int] with {n} elements, raise-errors={cw.raising}",
             "length", anchor, run, judge)


def protocol_report(rep, cw, prog, where, anchor):
    """ A goose is no duck. """
    def run(it):
        val = it.call(prog["goose"], [], {}, None)
        found, msg = reported_texts(it, cw, prog, where, prog["Duck"], val)
        if msg is None:
            for m in found:
                text = "".join(p if isinstance(p, str) else "?" for p in m)
                if not names(m, PLACES[where]):
                    msg = f"a report does not name {PLACES[where]!r}: {text!r}"
                elif "Goose" not in text or "Duck" not in text or \
                        text.index("Goose") > text.index("Duck"):
                    if odd(m):
                        raise Undecided("an unknown text")
                    msg = f"a Goose which is no Duck is reported as {text!r}"
        it.event("named", msg=msg)
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)} at {site_text(out.site)}"
        return out.events("named")[-1].data["msg"]

    scenario(rep, cw.w, f"{where}: a protocol, raise-errors={cw.raising}", "protocol", anchor, run,
             judge)
