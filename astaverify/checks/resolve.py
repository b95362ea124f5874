""" Resolution of annotations at check time, in decorated calls (C22, C27). """
import itertools

from .common import *
from .harness import ENV_SET
from .shapes import integer, is_expr, solvable
from .stores import anchor_of, stores_world, util
from .types_ import (
    Family, Instance, attribute_match, attrs_dict, expected_system, expected_verdict,
    instance_pins, no_instance,
)
from .shapes import shape_match
from ..core import AbsRaise

CALLS = '''
from typing import List, Tuple, Union
from asta.decorators import typechecked
from asta import dims, shapes

def star(placeholder):
    return (*placeholder,)

def make(annotation, body):
    @typechecked
    def checked(a: annotation):
        return body(a)
    return checked

def make_two(first, second, body):
    @typechecked
    def checked(a: first, b: second):
        return body(a, b)
    return checked

def make_return(first, result, body):
    @typechecked
    def checked(a: first) -> result:
        return body(a)
    return checked

def make_result(result, body):
    @typechecked
    def checked() -> result:
        return body()
    return checked

def listed(annotation):
    return List[annotation]

def maybe(annotation):
    return Union[annotation, None]

def maybe_first(annotation):
    return Union[None, annotation]

def paired(annotation, other):
    return Tuple[annotation, other]

def either(annotation, other):
    return Union[annotation, other]

def either_pair(a, b, c, d):
    return Union[Tuple[a, b], Tuple[c, d]]

def either_list(a, b):
    return Union[List[a], List[b]]

def add(a, b):
    return a + b
'''

UNSET = "uninitialized"
NONINT = "no integer"


class CallWorld:
    """ Decorated functions with asta annotations over stored dimensions and shapes. """

    def __init__(self, raising=None, passes=None, torch=True, tensorflow=True, **more):
        options = {"on": True, **more}
        if raising is not None:
            options["raise_errors"] = raising
        if passes is not None:
            options["print_passes"] = passes
        self.raising = raising
        self.w = w = stores_world(torch=torch, tensorflow=tensorflow, options=options)
        w.pins[ENV_SET] = False
        w.get("asta.constants", "NonInstanceType")
        instance_pins(w)
        w.eng.extra_sources["vt_calls"] = CALLS
        self.prog = w.load("vt_calls")
        w.get("asta.decorators", "typechecked")

    def fn(self, name):
        return self.prog.scope.vars[name]

    def body(self, result=None):
        res = result if result is not None else Opaque("BODY.result")

        def call(it, func, args, kwargs, node):
            it.event("body", args=tuple(args))
            return res

        return Opaque("BODY", callable=True, call=call, truthy=True)


class Store:
    """ What dims and shapes hold: name -> value (None: read but never set). """

    def __init__(self, dims, shapes):
        self.dims = dims
        self.shapes = shapes


def stores(n):
    """ Stores with distinct unknown values, and with extreme ones. """
    if n == 0:
        return Store({"X": integer("nX"), "Y": integer("nY"), "Z": None, "W": integer("nW")},
                     {"P": Tup([integer("np0"), integer("np1")]), "Q": Tup([integer("nq0")]),
                      "U": None})
    if n == 1:
        return Store({"X": K(0), "Y": K(-1), "Z": None, "W": K(2)},
                     {"P": Tup([]), "Q": Tup([K(0)]), "U": None})
    return Store({"X": integer("nX2"), "Y": integer("nY"), "Z": None, "W": integer("nW2")},
                 {"P": Tup([integer("np2")]), "Q": Tup([K(-1), integer("nq2")]), "U": None})


class Item:
    """ An element of an annotation: how to write it and what it stands for. """

    def __init__(self, text, make, symbols=(), base=None, parts=None, shape=None):
        self.text = text
        self.make = make          # callable(cw, it) -> value
        self.symbols = symbols    # of a symbolic item
        self.base = base
        self.parts = parts        # items it is made of (nested, composite)
        self.shape = shape        # the name of a stored shape

    def resolve(self, cw, it, store):
        """ The sizes it stands for: (list, set of problems). """
        if self.parts is not None:
            out, bad = [], set()
            for p in self.parts:
                got, problems = p.resolve(cw, it, store)
                out += got
                bad |= problems
            return out, bad
        if self.shape is not None:
            val = store.shapes.get(self.shape)
            return ([], {UNSET}) if val is None else (list(val.items), set())
        if self.base is not None:
            sym = cw.w.sympy
            known = {s: store.dims[s] for s in self.symbols if s in store.dims}
            if any(v is None for v in known.values()):
                return [], {UNSET}
            left = frozenset(s for s in self.symbols if s not in known)
            done = frozenset(known.items())
            if left:
                return [sym.term(self.base, left, done)], set()
            val = sym.value_of(it, self.base, done)
            return ([], {NONINT}) if val is None else ([val], set())
        return [self.make(cw, it)], set()


def const(text, v):
    return Item(text, lambda cw, it: v)


def sym(*names):
    if len(names) == 1:
        return Item(names[0], lambda cw, it: cw.w.sympy.symbol(names[0]), names,
                    ("sym", names[0]))
    raise ValueError


def expr(text, *names):
    return Item(text, lambda cw, it: cw.w.sympy.expr(text, names), names, ("expr", text))


def shape(name):
    return Item(name, lambda cw, it: it.call(util(cw.w, "get_shape"), [K(name)], {}, None),
                shape=name)


def star(item):
    def make(cw, it):
        res = it.call(cw.fn("star"), [item.make(cw, it)], {}, None)
        if not isinstance(res, Tup) or len(res.items) != 1:
            raise Undecided("an unpacked placeholder is not one item")
        return res.items[0]
    return Item("*" + item.text, make, parts=[item])


def nested(*items):
    return Item("(" + ", ".join(i.text for i in items) + ",)",
                lambda cw, it: Tup([i.make(cw, it) for i in items]), parts=list(items))


def plus(a, b):
    return Item(f"{a.text} + {b.text}", lambda cw, it: it.call(
        cw.fn("add"), [a.make(cw, it), b.make(cw, it)], {}, None), parts=[a, b])


N0, N1 = const("n", integer("n0")), const("k", integer("n1"))
X, Y, Z, S = (sym(n) for n in "XYZS")
XP1, XY, XS, XZ = expr("X + 1", "X"), expr("X * Y", "X", "Y"), expr("X + S", "X", "S"), \
    expr("X * Z", "X", "Z")
XYZ, XYP = expr("X + Y + Z", "X", "Y", "Z"), expr("X + Y * W", "X", "Y", "W")
P, Q, U = (shape(n) for n in "PQU")
DOTS, ANY = const("...", ELL), const("-1", K(-1))


def patterns(tier):
    one = [X, Z, S, XP1, XY, XS, XZ, P, U, star(P), star(U), plus(P, Q), plus(Q, P),
           plus(P, nested(N0)), plus(nested(X), P), plus(nested(X, N0), Q), plus(P, U), plus(P, nested(Z)), plus(nested(XP1), Q),
           nested(X), nested(P), nested(Q, N0), nested(nested(X), N0), nested(Z),
           nested(plus(Q, nested(Y))), nested(star(Q)), plus(plus(Q, nested(X)), P)]
    out = [[i] for i in one]
    firsts = [X, XP1, P, star(Q), plus(Q, nested(X)), nested(X, N0), S, Z, U]
    seconds = [Y, XY, Q, star(Q), N0, DOTS, ANY, nested(Y), XZ, S]
    for i, a in enumerate(firsts):
        for j, b in enumerate(seconds):
            if tier == "quick" and (i + j) % 2 and not (i < 3 and j < 4):
                continue
            out.append([a, b])
            if (i * 3 + j) % 3 == 0 or tier != "quick":
                out.append([b, a])
    out += [[Z, plus(P, Q)], [U, plus(P, Q)], [Z, nested(X)], [U, nested(P)], [Z, X], [XZ, P],
            [U, X], [plus(P, U), plus(Q, P)], [nested(Z), nested(X)], [Z, S], [XYZ], [XYP],
            [N0, XYP]]
    out += [[X, N0, Y], [N0, X, DOTS], [DOTS, X, Y], [P, X, Q], [X, P, DOTS],
            [star(P), N0, star(Q)], [nested(X, Y), N0, Q], [Y, X, X], [XP1, DOTS, XP1],
            [Z, X, N0], [X, N0, XZ], [Q, star(Q), Q]]
    return out


def touch(w, it, store):
    """ Read every dimension and shape, as writing an annotation does. """
    for name in store.dims:
        it.call(util(w, "get_dim"), [K(name)], {}, None)
    for name in store.shapes:
        it.call(util(w, "get_shape"), [K(name)], {}, None)


def fill(w, it, store):
    """ Bring the stores into a state (dims which are None were read only). """
    for name, v in store.dims.items():
        if v is not None:
            it.call(util(w, "set_dim"), [K(name), v], {}, None)
    for name, v in store.shapes.items():
        if v is not None:
            it.call(util(w, "set_shape"), [K(name), v], {}, None)


def annotate(it, cls, items):
    if not items:
        return cls
    return it.getitem(cls, items[0] if len(items) == 1 else Tup(items))


def attempt(it, fn, args):
    """ (exception or None, result, events) of a call. """
    start = len(it.trace)
    try:
        res, exc = it.call(fn, args, {}, None), None
    except AbsRaise as err:
        res, exc = None, err.exc
    return exc, res, it.trace[start:]


def printed(events, word):
    """ How many reports of this kind were printed. """
    n = 0
    for e in events:
        if e.kind == "print" and any(isinstance(t, K) and isinstance(t.v, str) and word in t.v
                                     for a in e.args for t in subterms(a)):
            n += 1
    return n


def judge_call(it, cw, exc, events, accepted, reports=None):
    """ What is wrong with how a call was judged. """
    ran = sum(1 for e in events if e.kind == "body")
    if exc is not None:
        out = Outcome("raise", exc, it)
        if not is_type_error(out):
            return f"raises {errname(out)}"
        if cw.raising is False:
            return "raises although failures are only printed"
        if accepted:
            return "the call is rejected"
        if ran:
            return "the body ran although the check failed"
        return None
    if cw.raising:
        if not accepted:
            return "the call is accepted"
        return None if ran == 1 else f"the body ran {ran} times"
    failed, passed = printed(events, "FAILED"), printed(events, "PASSED")
    if ran != 1:
        return f"the body ran {ran} times"
    if accepted and failed:
        return "a failure is reported"
    if not accepted and not failed:
        return "no failure is reported"
    if reports is not None and passed != reports:
        return f"{passed} passes are reported, not {reports}"
    return None


@check("C22")
def c22(rep, tier):
    """ Annotations with symbols, expressions and placeholders, in decorated calls. """
    rep.rule("resolution", "a decorated call accepts its argument exactly if the definition of "
             "the verdict holds for the shape in which every dimension, expression and shape "
             "placeholder is replaced, in place and in order, by what the stores hold at the "
             "time of the call (two calls, with the stores changed in between)")
    rep.rule("unresolved", "an annotation with an uninitialized dimension or placeholder, or an "
             "expression that comes out as no integer, is a failure (raised, or printed with no "
             "pass reported)")
    for raising in (True, False):
        cw = CallWorld(raising=raising, passes=True)
        anchor = anchor_text(cw.w.get("asta.origins", "check_asta")) \
            if "check_asta" in cw.w.eng.modules["asta.origins"].scope.vars else "asta/origins.py"
        fams = [Family(cw.w, n) for n in ("Array", "Tensor", "TFTensor")]
        for f, fam in enumerate(fams):
            for n, items in enumerate(patterns(tier)):
                if tier == "quick" and (f or not raising) and (n + f + raising) % 5:
                    continue
                if tier != "quick" and f and (n + f + raising) % 2:
                    continue
                for first, second in ((0, 2), (1, 0)):
                    if tier == "quick" and first and n % 3:
                        continue
                    resolved_calls(rep, cw, fam, items, [stores(first), stores(second)], anchor)
        rep.engine(cw.w.eng)


def rank_of(cw, it, items, store):
    return len([1 for i in items for _ in i.resolve(cw, it, store)[0]])


def resolved_calls(rep, cw, fam, items, states, anchor):
    text = ", ".join(i.text for i in items)
    sizes = set()
    for st in states:
        n, dots = 0, False
        for i in items:
            for leaf in leaves(i):
                if leaf.shape is not None:
                    v = st.shapes.get(leaf.shape)
                    n += len(v.items) if v is not None else 1
                elif leaf is DOTS:
                    dots = True
                else:
                    n += 1
        sizes |= {n, n + 1} if dots else {n}
    sizes.add(max(min(sizes) - 1, 0))
    for rank in sorted(sizes):
        inst = Instance(f"rank {rank}", fam, rank)

        def run(it):
            touch(cw.w, it, states[0])
            cls = annotate(it, fam.cls, [i.make(cw, it) for i in items])
            fn = it.call(cw.fn("make"), [cls, cw.body()], {}, None)
            calls = []
            for n, st in enumerate(states):
                fill(cw.w, it, st)
                calls.append(attempt(it, fn, [inst.value]))
            it.event("calls", calls=calls)
            return NONE

        def judge(out):
            if out.kind == "raise":
                return f"raises {errname(out)}"
            it = out.it
            for n, (st, (exc, _, events)) in enumerate(zip(
                    states, out.events("calls")[-1].calls)):
                sizes_, bad = [], set()
                for i in items:
                    got, problems = i.resolve(cw, it, st)
                    sizes_ += got
                    bad |= problems
                if bad:
                    msg = judge_call(it, cw, exc, events, False, 0)
                else:
                    want = expected_verdict(it, fam, {
                        "dtype": NONE, "kind": "", "kwattrs": NONE, "shape": Tup(sizes_)}, inst)
                    if want is None:
                        continue
                    msg = judge_call(it, cw, exc, events, want, int(want))
                if msg:
                    why = ", ".join(sorted(bad)) or f"resolved to {sizes_!r}"
                    return f"call {n + 1}: {msg} ({why})"
            return None

        compared(rep, cw.w, f"{fam.name}[{text}] and {inst.text}, raise-errors={cw.raising}",
                 "resolution", anchor, run, judge)


def leaves(item):
    return [item] if item.parts is None else [x for p in item.parts for x in leaves(p)]


# -- C27 -----------------------------------------------------------------------------------

def dtype_cases(fam):
    lib = fam.dtype("lib.dtype")
    out = [("", None, NONE, ""), ("lib dtype", lib, lib, "")]
    for t in (int,) + ((str, bytes, object) if fam.kinds else (bytes,)):
        m = fam.mapped(K(t))
        out.append((t.__name__, K(t), m[0], m[1]))
    return out


@check("C27")
def c27(rep, tier):
    """ Decorated calls over dtypes, shapes with placeholders, and attributes together. """
    rep.rule("agree", "a decorated call accepts its argument exactly if the definition of the "
             "isinstance verdict holds for the annotated dtype or kind, the attributes, and the "
             "shape with the placeholders replaced; it raises nothing but a TypeError")
    rep.rule("isinstance", "and exactly if isinstance holds for the type subscripted with the "
             "values themselves")
    shapes = [None, [], [X], [P], [N0, X], [XP1, DOTS], [DOTS, Q], [nested(X, N0)], [ANY, X],
              [plus(nested(Y), Q)], [S], [S, X]]
    stranger = Opaque("stranger", closed=True)
    store = stores(0)
    for raising in (True, False):
        cw = CallWorld(raising=raising, passes=raising)
        w = cw.w
        w.pin_rules.append(no_instance([stranger] + [Opaque(f"v{i}") for i in range(3)]))
        anchor = anchor_text(w.get("asta.decorators", "typechecked"))
        fams = {n: Family(w, n) for n in ("Array", "Tensor", "TFTensor")}
        for f, fam in enumerate(fams.values()):
            others = [o for o in fams.values() if o is not fam]
            odd = [Instance("an object", fam, stranger=stranger),
                   Instance("None", fam, stranger=NONE), Instance("5", fam, stranger=K(5)),
                   Instance("(2,)", fam, stranger=Tup([K(2)]))]
            odd += [Instance("an instance of " + o.name, fam,
                             stranger=Instance("", o, 1).value) for o in others]
            for d, (dt, dv, dp, kind) in enumerate(dtype_cases(fam)):
                for s, items in enumerate(shapes):
                    for a, attrs in enumerate((None, "plain", "expr", "two")):
                        if tier == "quick" and (d + 2 * s + a + f + raising) % 4:
                            continue
                        rank = 1 if items is None else len(
                            [1 for i in items for _ in resolve_static(i, store)])
                        insts = [Instance(f"rank {rank}", fam, rank)]
                        if fam.kinds and not s % 4:
                            insts.append(Instance("structured", fam, rank, structured=True))
                        if (d + s + a) % 3 == 0:
                            insts.append(odd[(d + s + f) % len(odd)])
                            insts.append(odd[(d + s + a + f + 1) % len(odd)])
                        for inst in insts:
                            agreeing(rep, cw, fam, dt, dv, items, attrs,
                                     {"dtype": dp, "kind": kind}, inst, store, anchor)
        rep.engine(w.eng)


def resolve_static(item, store):
    out = []
    for leaf in leaves(item):
        if leaf.shape is not None:
            out += list(store.shapes[leaf.shape].items)
        elif leaf is not DOTS:
            out.append(leaf)
    return out


def agreeing(rep, cw, fam, dt, dv, items, attrs, parts, inst, store, anchor):
    shape_text = None if items is None else ", ".join(i.text for i in items) or "()"
    text = ", ".join(x for x in (dt, shape_text, attrs and "{%s}" % attrs or "") if x)

    def run(it):
        touch(cw.w, it, store)
        sub = [] if dv is None else [dv]
        if items is not None:
            sub += [i.make(cw, it) for i in items] or [Tup([])]
        kw = NONE
        if attrs is not None:
            kw = attrs_dict(attrs)(it)
            sub.append(kw)
        cls = annotate(it, fam.cls, sub)
        fn = it.call(cw.fn("make"), [cls, cw.body()], {}, None)
        fill(cw.w, it, store)
        it.event("judged", got=attempt(it, fn, [inst.value]), kw=kw)
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)}"
        it = out.it
        ev = out.events("judged")[-1]
        exc, _, events = ev.got
        sizes, bad = [], set()
        for i in items or ():
            got, problems = i.resolve(cw, it, store)
            sizes += got
            bad |= problems
        if bad:
            return judge_call(it, cw, exc, events, False)
        p = dict(parts)
        p["kwattrs"] = ev.kw
        p["shape"] = NONE if items is None else Tup(sizes)
        want = expected_verdict(it, fam, p, inst)
        if want is None:
            return None
        msg = judge_call(it, cw, exc, events, want)
        if msg:
            return msg
        sub = [] if dv is None else [dv]
        if items is not None:
            sub += [Tup(sizes)] if not sizes or dv is not None else sizes
        if ev.kw != NONE:
            sub.append(ev.kw)
        got = it.truth(it.isinstance(inst.value, annotate(it, fam.cls, sub)))
        return None if got == want else f"isinstance says {got} for the replaced type"

    compared(rep, cw.w, f"{fam.name}[{text}] and {inst.text}, raise-errors={cw.raising}",
             "agree", anchor, run, judge)


# -- the joint system of a call (C01, C02, C08) ---------------------------------------------

class Ann:
    """ An annotation made of items, with an attribute part. """

    def __init__(self, text, items=None, attr=None):
        self.text = text
        self.items = items
        self.attr = attr      # an item: the value of the attribute "ndim"

    def make(self, cw, it, fam):
        sub = [i.make(cw, it) for i in self.items or ()]
        if self.attr is not None:
            sub.append(it.alloc(ADict([(K("ndim"), self.attr.make(cw, it))])))
        return annotate(it, fam.cls, sub)

    def system(self, cw, it, fam, inst, store):
        sizes = []
        for i in self.items or ():
            got, bad = i.resolve(cw, it, store)
            if bad:
                return False
            sizes += got
        kw = NONE
        if self.attr is not None:
            kw = ADict([(K("ndim"), self.attr.make(cw, it))])
        return expected_system(it, fam, {
            "dtype": NONE, "kind": "", "kwattrs": kw,
            "shape": NONE if self.items is None else Tup(sizes)}, inst)


T = sym("T")
SP1, ST = expr("S + 1", "S"), expr("S * T", "S", "T")
A_S, A_ST, A_SS = Ann("S", [S]), Ann("S, T", [S, T]), Ann("S, S", [S, S])
A_S1, A_XS, A_DS = Ann("S + 1", [SP1]), Ann("X, S", [X, S]), Ann("..., S", [DOTS, S])
A_AT, A_SAT, A_NO = Ann("{ndim: S}", None, S), Ann("S, {ndim: T}", [S], T), Ann("")
A_T, A_STM, A_N = Ann("T", [T]), Ann("S * T", [ST]), Ann("n", [N0])


def joint_pairs(tier):
    pairs = [(A_S, A_S), (A_ST, A_T), (A_S, A_S1), (A_SS, A_S), (A_S, A_AT), (A_AT, A_S),
             (A_SAT, A_T), (A_T, A_SAT), (A_XS, A_S), (A_STM, A_ST), (A_S, A_DS), (A_S, A_N),
             (A_NO, A_AT), (A_AT, A_AT), (A_S, A_NO), (A_DS, A_DS)]
    return pairs


def joint(rep, rule, form, tier):
    """ Two asta annotations in one call: arguments, a container, or argument and result. """
    for raising in (True, False):
        cw = CallWorld(raising=raising, passes=False)
        w = cw.w
        anchor = anchor_text(w.get("asta.decorators", "typechecked"))
        fams = [Family(w, n) for n in ("Array", "Tensor", "TFTensor")]
        for p, (first, second) in enumerate(joint_pairs(tier)):
            for f in range(3):
                if tier == "quick" and f != p % 3 and not (f == 0 and raising):
                    continue
                fam, other = fams[f], fams[(f + p) % 3 if form != "list" else f]
                joint_call(rep, cw, rule, form, fam, other, first, second, anchor)
        rep.engine(w.eng)


def joint_call(rep, cw, rule, form, fam, other, first, second, anchor):
    store = stores(0)

    def inst_for(f, ann, tag):
        rank = 1 if ann.items is None else len(resolve_static_all(ann.items, store)) + (
            ann is A_DS)
        return Instance("", f, rank, tag=tag)

    one, two = inst_for(fam, first, "a"), inst_for(other, second, "b")

    def run(it):
        touch(cw.w, it, store)
        a, b = first.make(cw, it, fam), second.make(cw, it, other)
        body = cw.body(two.value if form == "return" else None)
        if form == "arguments":
            fn, args = it.call(cw.fn("make_two"), [a, b, body], {}, None), [one.value, two.value]
        elif form == "return":
            fn, args = it.call(cw.fn("make_return"), [a, b, body], {}, None), [one.value]
        else:
            if form == "tuple":
                ann = it.call(cw.fn("paired"), [a, b], {}, None)
                val = Tup([one.value, two.value])
            else:
                ann = it.call(cw.fn("listed"), [a], {}, None)
                val = it.alloc(AList([one.value, two.value]))
            fn, args = it.call(cw.fn("make"), [ann, body], {}, None), [val]
        fill(cw.w, it, store)
        it.event("judged", got=attempt(it, fn, args))
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)}"
        it = out.it
        exc, res, events = out.events("judged")[-1].got
        anns = [first, first if form == "list" else second]
        systems = [a.system(cw, it, f, i, store)
                   for a, f, i in zip(anns, (fam, other), (one, two))]
        if form == "list" and not it.truth(it.getattr(cw.w.ox, "check_all_sequence_elements")):
            systems = systems[:1]
        if any(s is None for s in systems):
            return None
        good = [s is not False and solvable(it, s) for s in systems]
        matched = [s for s, g in zip(systems, good) if g]
        total = solvable(it, frozenset().union(*matched)) if matched else True
        if form == "return":
            ran = sum(1 for e in events if e.kind == "body")
            if ran != (1 if good[0] or not cw.raising else 0):
                return f"the body ran {ran} times"
            if ran and cw.raising:
                fine = all(good) and total
                if exc is not None:
                    if not is_type_error(Outcome("raise", exc, it)):
                        return "raises something else"
                    return "the result is rejected" if fine else None
                return None if fine else "the result is handed over"
        return judge_call(it, cw, exc, events, all(good) and total)

    compared(rep, cw.w, f"{form}: {fam.name}[{first.text}] and {other.name}[{second.text}], "
             f"raise-errors={cw.raising}", rule, anchor, run, judge)


def resolve_static_all(items, store):
    return [x for i in items for x in resolve_static(i, store)]


JOINT = ("for two arguments (elements, argument and result) annotated with asta types the call "
         "is accepted exactly if each matches by definition and the equations of both, from "
         "shapes and attributes, are solvable together")


@check("C01")
def c01_joint(rep, tier):
    """ Two asta-annotated arguments against the definition of the joint system. """
    rep.rule("joint", JOINT)
    joint(rep, "joint", "arguments", tier)


@check("C02")
def c02_joint(rep, tier):
    """ An asta-annotated argument and result against the definition of the joint system. """
    rep.rule("joint", JOINT)
    joint(rep, "joint", "return", tier)


@check("C08")
def c08_joint(rep, tier):
    """ Tuples and lists of arrays against the definition of the joint system. """
    rep.rule("joint", JOINT)
    joint(rep, "joint", "tuple", tier)
    joint(rep, "joint", "list", tier)


# -- reports of asta annotations (C09, C10) --------------------------------------------------

FORMS = ("argument", "result", "listed", "maybe", "maybe_first")


def reported(rep, rule, raisings, tier):
    """ What a call prints for values which match and for values which do not. """
    store = stores(0)
    stranger = Opaque("stranger", closed=True)
    anns = [[], [N0], [S], [X, N0], [DOTS, S], [P], [U], [Z]]
    for raising in raisings:
        for passes in (True, False):
            cw = CallWorld(raising=raising, passes=passes)
            cw.w.pin_rules.append(no_instance([stranger]))
            anchor = anchor_text(cw.w.get("asta.decorators", "typechecked"))
            fams = [Family(cw.w, n) for n in ("Array", "Tensor", "TFTensor")]
            for f, fam in enumerate(fams):
                for n, items in enumerate(anns):
                    rank = 1 if items == [U] else len(resolve_static_all(items, store))
                    insts = [Instance(f"rank {rank}", fam, rank),
                             Instance(f"rank {rank + 2}", fam, rank + 2),
                             Instance("an object", fam, stranger=stranger),
                             Instance("5", fam, stranger=K(5)),
                             Instance("None", fam, stranger=NONE),
                             Instance("an instance of " + fams[f - 1].name, fam,
                                      stranger=Instance("", fams[f - 1], rank or 1).value)]
                    for i, inst in enumerate(insts):
                        for m, form in enumerate(FORMS):
                            if tier == "quick" and f and (f + n + i + m) % 3:
                                continue
                            reported_call(rep, cw, rule, fam, items, inst, form, passes, store,
                                          anchor)
            rep.engine(cw.w.eng)


def reported_call(rep, cw, rule, fam, items, inst, form, passes, store, anchor):
    text = ", ".join(i.text for i in items)

    def run(it):
        touch(cw.w, it, store)
        ann = annotate(it, fam.cls, [i.make(cw, it) for i in items])
        if form not in ("argument", "result"):
            ann = it.call(cw.fn(form), [ann], {}, None)
        val = it.alloc(AList([inst.value])) if form == "listed" else inst.value
        if form == "result":
            fn = it.call(cw.fn("make_result"), [ann, cw.body(val)], {}, None)
        else:
            fn = it.call(cw.fn("make"), [ann, cw.body()], {}, None)
        fill(cw.w, it, store)
        it.event("judged", got=attempt(it, fn, [] if form == "result" else [val]))
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)}"
        it = out.it
        exc, _, events = out.events("judged")[-1].got
        sizes, bad = [], set()
        for i in items:
            got, problems = i.resolve(cw, it, store)
            sizes += got
            bad |= problems
        none = form.startswith("maybe") and (
            inst.value == NONE or it.facts.get(Sym("is", inst.value, NONE, kind="bool")))
        if none:
            want = True
        elif bad:
            want = False
        else:
            want = expected_verdict(it, fam, {
                "dtype": NONE, "kind": "", "kwattrs": NONE,
                "shape": Tup(sizes) if items else NONE}, inst)
            if want is None:
                return None
        ran = sum(1 for e in events if e.kind == "body")
        if form == "result" and ran != 1:
            return f"the body ran {ran} times"
        if exc is not None:
            res = Outcome("raise", exc, it)
            if not is_type_error(res):
                return f"raises {errname(res)}"
            if not cw.raising:
                return "raises although failures are only printed"
            if want:
                return "the call is rejected"
            if ran and form != "result":
                return "the body ran although the check failed"
        elif cw.raising and not want:
            return "the call is accepted"
        elif ran != 1:
            return f"the body ran {ran} times"
        failed, passed = printed(events, "FAILED"), printed(events, "PASSED")
        if failed != (0 if want or cw.raising else 1):
            return f"{failed} failures are printed"
        if passed != (1 if want and passes and not none else 0) and not (none and passes):
            return f"{passed} passes are printed"
        return None

    compared(rep, cw.w, f"{form}: {fam.name}[{text}] and {inst.text}, raise-errors={cw.raising}, "
             f"print-passes={passes}", rule, anchor, run, judge)


@check("C09")
def c09_asta(rep, tier):
    """ What calls print for asta annotations. """
    rep.rule("C09.asta", "a decorated call with an asta annotation (of an argument, a result, a "
             "list element, an alternative) prints one pass if the value matches by definition "
             "and print-passes is on, and else none; a mismatch is raised, or printed once, as "
             "raise-errors says")
    reported(rep, "C09.asta", (True, False), tier)


@check("C10")
def c10_asta(rep, tier):
    """ Calls with asta annotations go on whatever the value. """
    rep.rule("C10.asta", "with raise-errors off a call with an asta annotation runs the function "
             "once whatever the value, and prints exactly one failure if it does not match")
    reported(rep, "C10.asta", (False,), tier)


# -- unions of asta annotations in the joint system (C13) ------------------------------------

def union_joint(rep, tier):
    """ An argument annotated with a union of tuples or lists of arrays, and another. """
    cases = [
        ("either_pair", (A_S, A_T, A_S1, A_N), A_S), ("either_pair", (A_S, A_N, A_T, A_S), A_S),
        ("either_pair", (A_S, A_SS, A_T, A_ST), A_T), ("either_pair", (A_ST, A_S, A_XS, A_S), A_T),
        ("either_pair", (A_S, A_S, A_S, A_T), A_S), ("either", (A_S, A_ST), A_S),
        ("either", (A_S, A_S1), A_S), ("either", (A_SAT, A_XS), A_T),
        ("either", (A_ST, A_SS), A_S), ("either_list", (A_S, A_ST), A_S),
        ("either_list", (A_SS, A_ST), A_T), ("either", (A_N, A_S), A_S),
    ]
    for raising in (True, False):
        cw = CallWorld(raising=raising, passes=False)
        anchor = anchor_text(cw.w.get("asta.decorators", "typechecked"))
        fams = [Family(cw.w, n) for n in ("Array", "Tensor", "TFTensor")]
        for n, (form, anns, second) in enumerate(cases):
            ranks = (1, 2)
            shapes = [(r, q) for r in ranks for q in ranks] if form != "either" else [(1,), (2,)]
            for r in shapes:
                for f, fam in enumerate(fams):
                    if tier == "quick" and f != (n + len(r)) % 3 and not (f == 0 and raising):
                        continue
                    union_call(rep, cw, fam, form, anns, second, r, anchor)
        rep.engine(cw.w.eng)


def union_call(rep, cw, fam, form, anns, second, ranks, anchor):
    store = stores(0)
    parts = [Instance("", fam, r, tag="abc"[i]) for i, r in enumerate(ranks)]
    last = Instance("", fam, 2 if second.items and len(second.items) == 2 else 1, tag="z")
    groups = {"either": [[0], [1]], "either_pair": [[0, 1], [2, 3]],
              "either_list": [[0, 0], [1, 1]]}[form]

    def run(it):
        touch(cw.w, it, store)
        ann = it.call(cw.fn(form), [a.make(cw, it, fam) for a in anns], {}, None)
        val = parts[0].value if form == "either" else Tup([p.value for p in parts])
        if form == "either_list":
            val = it.alloc(AList([p.value for p in parts]))
        fn = it.call(cw.fn("make_two"), [ann, second.make(cw, it, fam), cw.body()], {}, None)
        fill(cw.w, it, store)
        it.event("judged", got=attempt(it, fn, [val, last.value]))
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)}"
        it = out.it
        exc, _, events = out.events("judged")[-1].got
        members = parts
        if form == "either_list" and not it.truth(
                it.getattr(cw.w.ox, "check_all_sequence_elements")):
            members = parts[:1]
        matching = []
        for group in groups:
            systems = [anns[a].system(cw, it, fam, m, store) for a, m in zip(group, members)]
            if any(s is None for s in systems):
                return None
            if all(s is not False and solvable(it, s) for s in systems):
                matching.append(frozenset().union(*systems))
        other = second.system(cw, it, fam, last, store)
        if other is None:
            return None
        fits = other is not False and solvable(it, other)
        if len(matching) > 1:
            # Which of them counts is not said.
            return None
        if not cw.raising and not matching:
            return judge_call(it, cw, exc, events, False)
        rest = [m for m in matching] + ([other] if fits else [])
        total = solvable(it, frozenset().union(*rest)) if rest else True
        return judge_call(it, cw, exc, events, bool(matching) and fits and total)

    text = ", ".join(a.text or "any" for a in anns)
    compared(rep, cw.w, f"{form} of {fam.name}[{text}] given ranks {ranks}, with {second.text}, "
             f"raise-errors={cw.raising}", "C13.joint", anchor, run, judge)


@check("C13")
def c13_joint(rep, tier):
    """ Unions of asta annotations. """
    rep.rule("C13.joint", "a call with a union of (tuples, lists of) asta annotations and "
             "another asta annotation, exactly one alternative matching, is accepted exactly if "
             "the equations of that alternative alone and of the other annotation are solvable")
    union_joint(rep, tier)
