""" The dims and shapes stores, shape placeholders, and their resolution (C20-C22, C27). """
import itertools

from .common import *
from .shapes import Solver, distinct, expression, integer, sub_simplify
from .symbolic import Sympy
from . import types_

STORES = '''
from asta import dims, shapes

def get_dim(name):
    return getattr(dims, name)

def set_dim(name, value):
    setattr(dims, name, value)

def get_shape(name):
    return getattr(shapes, name)

def set_shape(name, value):
    setattr(shapes, name, value)

def trial(fn, name, value):
    try:
        fn(name, value)
    except TypeError:
        return True
    return False
'''


def stores_world(torch=True, tensorflow=True, **options):
    w = World(torch=torch, tensorflow=tensorflow, **options)
    w.sympy = Sympy(w)
    Solver(w)
    w.pin_rules.append(sub_simplify)
    w.pin_rules.append(types_.pin)
    w.eng.extra_sources["vt_stores"] = STORES
    w.load("asta.substitution")
    w.prog = w.load("vt_stores")
    return w


def util(w, name):
    return w.prog.scope.vars[name]


def anchor_of(w, modname, cls, meth):
    try:
        return anchor_text(w.get(modname, cls, meth))
    except Anchor:
        return f"{modname.replace('.', '/')}.py"


# -- C20 -----------------------------------------------------------------------------------

def bad_values(kind, w, tier):
    stranger = Opaque("stranger", closed=True)
    plain = [("1.5", K(1.5)), ("a float", Opaque("a float", pytype=K(float), kind="float")),
             ("'3'", K("3")), ("None", NONE), ("...", ELL),
             ("a symbol", w.sympy.symbol("Q")), ("a list", Opaque("a list", pytype=K(list))),
             ("an object", stranger)]
    if kind == "dim":
        return plain + [("(3,)", Tup([K(3)])), ("()", Tup([])), ("-1.0", K(-1.0)),
                        ("a dict", Opaque("a dict", pytype=K(dict)))]
    n = integer("m0")
    out = plain[:3] + plain[3:] + [("3", K(3)), ("an integer", n)]
    inner = plain + [("(3,)", Tup([K(3)])), ("()", Tup([]))]
    for text, v in inner if tier != "quick" else inner[:4] + inner[5:6] + inner[-2:]:
        for pos in range(3):
            items = [integer(f"m{i}") for i in range(3)]
            items[pos] = v
            out.append((f"a tuple with {text} at {pos}", Tup(items)))
        out.append((f"({text},)", Tup([v])))
    return out


@check("C20")
def c20(rep, tier):
    """ All short histories of reads, assignments and rejected assignments. """
    rep.rule("store", "along every path of every history of reads, assignments of (tuples of) "
             "unknown integers and assignments of other values over two names: a read gives the "
             "value last accepted for the name, or before that always the same placeholder, "
             "which differs from that of the other name; nothing else raises")
    rep.rule("reject", "an assignment of any other value raises a TypeError")
    length = 5 if tier == "quick" else 6
    for kind in ("dim", "shape"):
        w = stores_world(torch=False, tensorflow=False)
        w.pin_rules.insert(0, types_.no_instance([Opaque("stranger", closed=True)]))
        modname = "asta.dims" if kind == "dim" else "asta.shapes"
        anchor = modname.replace(".", "/") + ".py"
        getter, setter, trial = (util(w, n) for n in ("get_" + kind, "set_" + kind, "trial"))
        if kind == "dim":
            good = [integer("v0"), integer("v1"), integer("v2"), integer("v3"), integer("v4")]
        else:
            good = [Tup([integer("v0"), integer("u0")]), Tup([]), Tup([integer("v2")]),
                    Tup([integer("v3"), integer("w3"), integer("u3")]), Tup([K(0)])]
        bad = bad_values(kind, w, tier)
        # Histories over two names; the values of assignments are distinct unknowns.
        ops = [("read", "X"), ("set", "X"), ("bad", "X"), ("read", "Y"), ("set", "Y")]
        count = 0
        for n in range(1, length + 1):
            for hist in itertools.product(ops, repeat=n):
                if all(h[1] == "Y" for h in hist) or hist[0][0] == "bad" and n > 3:
                    continue
                if any(a == b and a[0] == "bad" for a, b in zip(hist, hist[1:])):
                    continue
                count += 1
                history(rep, w, kind, hist, getter, setter, trial, good, bad, anchor, count)
        for text, v in bad:
            history(rep, w, kind, [("set", "X"), ("bad", "X")], getter, setter, trial, good,
                    [(text, v)], anchor, 0)
            history(rep, w, kind, [("bad", "X"), ("read", "X")], getter, setter, trial, good,
                    [(text, v)], anchor, 0)
        for one, two in (("x", "X"), ("batch", "Batch"), ("x_1", "x1"), ("n", "n_"), ("_p", "p"),
                         ("width", "height"), ("x1", "x2"), ("X1", "X10")):
            for hist in ([("read", one), ("set", one)], [("set", one), ("set", two)],
                         [("read", one), ("read", two), ("set", two)],
                         [("set", two), ("read", one), ("bad", one)]):
                history(rep, w, kind, hist, getter, setter, trial, good, bad, anchor, 0, "",
                        (one, two))
        extremes = [("True", K(True)), ("0", K(0)), ("-1", K(-1)), ("10**30", K(10**30)),
                    ("a bool", Opaque("a bool", kind="bool", pytype=K(bool)))]
        if kind == "shape":
            extremes = [(f"({t},)", Tup([v])) for t, v in extremes] + [
                ("eight integers", Tup([integer(f"v{i}") for i in range(8)])), ("()", Tup([]))]
        for text, v in extremes:
            history(rep, w, kind, [("set", "X"), ("read", "X"), ("set", "X")], getter, setter,
                    trial, [v, good[1]], bad, anchor, 0, f" with {text}")
            history(rep, w, kind, [("set", "X"), ("set", "X"), ("bad", "X")], getter, setter,
                    trial, [good[0], v], bad, anchor, 0, f" with {text}")
        rep.engine(w.eng)


def history(rep, w, kind, hist, getter, setter, trial, good, bad, anchor, count, note="",
            names=("X", "Y")):
    """ One history, followed by reads of both names. """
    steps = list(hist) + [("read", names[0]), ("read", names[1]), ("read", names[0])]

    def run(it):
        res, used = [], 0
        for i, (op, name) in enumerate(steps):
            if op == "read":
                res.append((op, name, it.call(getter, [K(name)], {}, None)))
            elif op == "set":
                v = good[used % len(good)]
                used += 1
                it.call(setter, [K(name), v], {}, None)
                res.append((op, name, v))
            else:
                text, v = bad[(count + i) % len(bad)]
                ok = it.call(trial, [setter, K(name), v], {}, None)
                res.append((op, text, it.truth(ok)))
        it.event("history", steps=res)
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)}"
        it = out.it
        values, first = {}, {}
        for op, name, v in out.events("history")[-1].steps:
            if op == "set":
                values[name] = v
            elif op == "bad":
                if not v:
                    return f"accepts {name}"
            elif name in values:
                if not it.truth(it.compare_eq(v, values[name])):
                    return f"{name} reads {v!r} after it was set to {values[name]!r}"
                if not same_kind(it, v, values[name]):
                    return f"{name} reads a value of another type"
            else:
                if it.is_int(v) or isinstance(v, (Tup, K)) or v == NONE:
                    return f"{name} reads {v!r} though it was never set"
                for other, w_ in first.items():
                    same = it.truth(it.is_(v, w_)) if kind == "shape" else \
                        it.truth(it.compare_eq(v, w_))
                    if other == name and not same:
                        return f"{name} reads two different placeholders"
                    if other != name and same:
                        return f"{name} and {other} read the same placeholder"
                first[name] = v
        return None

    names = " ".join(f"{op} {n};" for op, n in hist)
    compared(rep, w, f"{kind}: {names}{note}" + (f" bad={bad[0][0]}" if len(bad) == 1 else ""),
             "reject" if len(bad) == 1 else "store", anchor, run, judge)


def same_kind(it, a, b):
    """ No tuple became a list, no integer something else. """
    if isinstance(b, Tup):
        return isinstance(a, Tup)
    return it.is_int(a) == it.is_int(b)


# -- C21 -----------------------------------------------------------------------------------

SUMS = '''
from asta.substitution import substitute

def add(a, b):
    return a + b

def iadd(a, b):
    a += b
    return a
'''


class Term:
    """ A sum: a leaf or a pair. """

    def __init__(self, text, leaf=None, pair=None):
        self.text = text
        self.leaf = leaf
        self.pair = pair

    def leaves(self):
        return [self] if self.pair is None else self.pair[0].leaves() + self.pair[1].leaves()


def sums(tier):
    """ Sums of up to four operands, at least one of every tuple sum being a placeholder. """
    leaves = [Term("P", "P"), Term("Q", "Q"), Term("(m, n)", "t"), Term("(e,)", "x"),
              Term("()", "0")]

    def has_p(t):
        return any(x.leaf in "PQ" for x in t.leaves())

    two = [Term(f"{a.text} + {b.text}", pair=(a, b)) for a in leaves for b in leaves
           if has_p(a) or has_p(b)]
    three = []
    for p in two:
        for a in leaves:
            three.append(Term(f"({p.text}) + {a.text}", pair=(p, a)))
            three.append(Term(f"{a.text} + ({p.text})", pair=(a, p)))
    four = []
    for i, p in enumerate(two):
        for j, q in enumerate(two):
            if tier != "quick" or (i + j) % 2 == 0:
                four.append(Term(f"({p.text}) + ({q.text})", pair=(p, q)))
    for i, p in enumerate(three):
        for j, a in enumerate(leaves):
            if tier != "quick" or (i + j) % 4 == 0:
                four.append(Term(f"({p.text}) + {a.text}", pair=(p, a)))
                four.append(Term(f"{a.text} + ({p.text})", pair=(a, p)))
    return leaves, two, three + four


@check("C21")
def c21(rep, tier):
    """ Sums of placeholders and tuples in every order and nesting, resolved afterwards. """
    rep.rule("concatenation", "a sum of up to four placeholders and tuples, resolved with the "
             "stored shapes, is the concatenation of the resolved operands in the written order; "
             "so is each operand (also partial sums) afterwards: adding changes neither")
    rep.rule("operands", "adding a tuple with an element that is no integer and no symbolic "
             "expression, or anything but a tuple or placeholder, on either side, raises a "
             "TypeError")
    w = stores_world(torch=False, tensorflow=False)
    w.eng.extra_sources["vt_sums"] = SUMS
    w.pin_rules.insert(0, types_.no_instance([Opaque("stranger", closed=True)]))
    prog = w.load("vt_sums")
    add, iadd, subst = (prog.scope.vars[n] for n in ("add", "iadd", "substitute"))
    anchor = anchor_of(w, "asta.placeholder", "Placeholder", "__add__")
    stored = {"P": Tup([integer("p0"), integer("p1")]), "Q": Tup([integer("q0")])}
    fixed_ = {"t": Tup([integer("m0"), integer("m1")]), "x": Tup([w.sympy.symbol("U")]),
              "0": Tup([])}

    def flat(t):
        out = []
        for leaf in t.leaves():
            out.extend((stored.get(leaf.leaf) or fixed_[leaf.leaf]).items)
        return out

    def build(it, t, made, plus, places):
        if t.pair is None:
            v = places[t.leaf] if t.leaf in "PQ" else fixed_[t.leaf]
        else:
            a = build(it, t.pair[0], made, plus, places)
            b = build(it, t.pair[1], made, plus, places)
            v = it.call(plus, [a, b], {}, None)
        made.append((t, v))
        return v

    def resolve(it, v):
        res = it.call(subst, [Tup([v]) if not isinstance(v, Tup) else v, w.ox], {}, None)
        if not isinstance(res, Tup) or len(res.items) != 3:
            raise Undecided("substitute no longer returns three values")
        sizes = res.items[0]
        items = []
        for x in sizes.content if isinstance(sizes, AList) else sizes.items:
            items.extend(x.items if isinstance(x, Tup) else [x])
        return items

    leaves, two, more = sums(tier)
    for t in leaves[:2] + two + more:
        for plus, word in ((add, "+"), (iadd, "+=")):
            if plus is iadd and t.pair is None:
                continue
            if plus is iadd and tier == "quick" and len(t.leaves()) > 3:
                continue

            def run(it):
                places = {n: it.call(util(w, "get_shape"), [K(n)], {}, None) for n in "PQ"}
                made = []
                build(it, t, made, plus, places)
                for n in "PQ":
                    it.call(util(w, "set_shape"), [K(n), stored[n]], {}, None)
                it.event("made", made=[(x, resolve(it, v)) for x, v in made])
                return NONE

            def judge(out):
                if out.kind == "raise":
                    return f"raises {errname(out)}"
                made = out.events("made")[-1].made
                for x, items in made[::-1]:
                    want = flat(x)
                    if len(items) != len(want) or any(
                            not out.it.truth(out.it.compare_eq(a, b))
                            for a, b in zip(items, want)):
                        which = "the sum" if x is t else f"the operand {x.text}"
                        return f"{which} stands for {items!r} instead of {want!r}"
                return None

            compared(rep, w, f"{t.text} ({word})", "concatenation", anchor, run, judge)
    stranger = Opaque("stranger", closed=True)
    scalars = [("3", K(3)), ("'a'", K("a")), ("None", NONE), ("1.5", K(1.5)), ("...", ELL),
               ("a symbol", w.sympy.symbol("U")), ("an object", stranger),
               ("a list", lambda it: it.alloc(AList([K(1)]))),
               ("an empty list", lambda it: it.alloc(AList([]))),
               ("a set", lambda it: it.make_set([K(1)])),
               ("a dict", lambda it: it.alloc(ADict([])))]
    for text, v in [("1.5", K(1.5)), ("'a'", K("a")), ("None", NONE), ("...", ELL),
                    ("(1,)", Tup([K(1)])), ("()", Tup([])), ("an object", stranger),
                    ("a float", Opaque("f", pytype=K(float), kind="float")),
                    ("a placeholder", "P")]:
        for pos in range(3):
            scalars.append((f"a tuple with {text} at {pos}", ("in", v, pos)))
    for text, v in scalars:
        for left in ("P", "P + (m, n)", "(m, n) + P", "P + Q"):
            for side in ("right", "left"):
                def run(it):
                    places = {n: it.call(util(w, "get_shape"), [K(n)], {}, None) for n in "PQ"}
                    base = places["P"]
                    if left != "P":
                        parts = {"P": places["P"], "Q": places["Q"], "(m, n)": fixed_["t"]}
                        a, b = left.split(" + ")
                        base = it.call(add, [parts[a], parts[b]], {}, None)
                    other = v
                    if callable(v):
                        other = v(it)
                    elif isinstance(v, tuple):
                        items = [integer("m0"), w.sympy.symbol("U"), K(5)]
                        items[v[2]] = places["P"] if v[1] == "P" else v[1]
                        other = Tup(items)
                    args = [base, other] if side == "right" else [other, base]
                    return it.call(add, args, {}, None)

                def judge(out):
                    if out.kind == "return":
                        return f"gives {out.value!r}"
                    return None if is_type_error(out) else f"raises {errname(out)}"

                scenario(rep, w, f"{left} with {text} on the {side}", "operands", anchor, run,
                         judge)
    rep.engine(w.eng)
