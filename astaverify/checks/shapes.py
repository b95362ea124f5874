""" Dimensions, shapes, attributes and the joint system (C14, C15, C31, C32). """
import itertools

from .common import *

EXPR = Ext("sympy.core.expr.Expr")
SOLVE = ("sympy.solvers.solve", "sympy.solve", "sympy.solvers.solvers.solve")
ZERO = K(0)


# -- abstract dimensions --------------------------------------------------------------

def integer(name):
    return Opaque(name, kind="int", pytype=K(int))


def expression(name):
    return Opaque(name, kind="expr", pytype=EXPR)


def is_int(v):
    return isinstance(v, Opaque) and v.kind == "int" or \
        isinstance(v, K) and type(v.v) is int  # pylint: disable=unidiomatic-typecheck


def is_expr(v):
    return isinstance(v, (Opaque, Sym)) and v.kind == "expr"


def both(a, b):
    return tuple(sorted((a, b), key=repr))


def terms_of(term, sign=1, out=None):
    """ A term as a sum of signed atoms, or None. """
    out = {} if out is None else out
    if isinstance(term, K):
        if not isinstance(term.v, int):
            return None
        out[K(1)] = out.get(K(1), 0) + sign * term.v
    elif isinstance(term, Sym) and term.op == "sub" and len(term.args) == 2:
        if terms_of(term.args[0], sign, out) is None or terms_of(term.args[1], -sign, out) is None:
            return None
    elif isinstance(term, Sym) and term.op == "add" and len(term.args) == 2:
        if terms_of(term.args[0], sign, out) is None or terms_of(term.args[1], sign, out) is None:
            return None
    elif isinstance(term, Sym) and term.op in ("neg", "usub") and len(term.args) == 1:
        return terms_of(term.args[0], -sign, out)
    elif isinstance(term, Sym) and term.op == "lin":
        const, terms = term.args[0], term.args[1]
        const = const.v if isinstance(const, K) else const
        out[K(1)] = out.get(K(1), 0) + sign * const
        for t, c in terms:
            out[t] = out.get(t, 0) + sign * c
    elif isinstance(term, Sym) and term.op == "call" and isinstance(term.args[0], Ext):
        path = term.args[0].path.rsplit(".", 1)[-1]
        if path in ("simplify", "sympify", "expand", "Integer", "S"):
            return terms_of(term.args[1], sign, out)
        if path in ("Eq", "Equality"):
            if terms_of(term.args[1], sign, out) is None:
                return None
            return terms_of(term.args[2], -sign, out)
        if path == "Add":
            for arg in term.args[1:]:
                if terms_of(arg, sign, out) is None:
                    return None
        else:
            out[term] = out.get(term, 0) + sign
    else:
        out[term] = out.get(term, 0) + sign
    return out


def norm_equation(term):
    """ The equation ``term = 0`` up to its sign. """
    res = terms_of(term)
    if res is None:
        return ("?", term)
    items = [(repr(t), c) for t, c in res.items() if c != 0]
    items.sort()
    if items and items[0][1] < 0:
        items = [(t, -c) for t, c in items]
    return tuple(items)


def equal_pair(x, y):
    return norm_equation(Sym("sub", x, y))


def sub_simplify(it, pred):
    """
    Predicates which say that two expressions are equal: the difference simplifies to
    zero. A structural comparison (without simplifying) can only be true then.
    """
    if pred.op in ("eq", "is"):
        a, b = pred.args
    elif pred.op == "truth" and len(pred.args) == 1:
        a, b = pred.args[0], None
        if not (is_expr(a) or isinstance(a, Sym) and a.op in ("attr", "call", "ret")):
            return None
    else:
        return None

    def strip(v):
        full = False
        while isinstance(v, Sym) and v.op == "call" and isinstance(v.args[0], Ext) and \
                v.args[0].path.rsplit(".", 1)[-1] in ("simplify", "ratsimp", "nsimplify"):
            v, full = v.args[1], True
        return v, full

    if pred.op == "truth":
        # simplify(x - y).is_zero and the like are not understood.
        if isinstance(a, Sym) and a.op == "call":
            a2, full = strip(a)
            if full and isinstance(a2, Sym) and a2.op == "sub":
                res = same_expr(it, *a2.args)
                return None if res is None else not res
        return None
    a2, fa = strip(a)
    b2, fb = strip(b)
    if b2 == ZERO and isinstance(a2, Sym) and a2.op == "sub" and len(a2.args) == 2:
        x, y = a2.args
        full = fa
    elif is_expr(a2) and (is_expr(b2) or is_int(b2)):
        x, y, full = a2, b2, fa and fb
    else:
        return None
    if not (is_expr(x) and is_expr(y)):
        # An expression with symbols is no integer (what several add up to may be one).
        return False if isinstance(x, Opaque) and is_expr(x) and is_int(y) or \
            is_int(x) and isinstance(y, Opaque) and is_expr(y) else None
    if any(isinstance(t, Sym) for t in (x, y)):
        return None
    same = same_expr(it, x, y)
    if full:
        return same
    if not same:
        return False
    return None


def same_expr(it, x, y):
    if x == y:
        return True
    return it.test(Sym("same_expr", *both(x, y), kind="bool"))


def compatible(it, x, y):
    """ The reference: (compatible, equation or None). """
    if is_expr(x) and is_expr(y):
        return same_expr(it, x, y), None
    if is_expr(x) and is_int(y) or is_expr(y) and is_int(x):
        return True, equal_pair(x, y)
    if is_int(x) and is_int(y):
        if it.truth(it.compare_eq(x, y)):
            return True, None
        for a, b in ((x, y), (y, x)):
            if it.truth(it.compare_eq(a, K(-1))):
                return not it.truth(it.compare_eq(b, ZERO)), None
        return False, None
    if is_expr(x) or is_expr(y):
        return False, None
    return it.truth(it.compare_eq(x, y)), None


# -- the solver ---------------------------------------------------------------------------

class Solver:
    """ sympy's solve: the number of solutions of a system is unknown. """

    def __init__(self, world):
        self.w = world
        for path in SOLVE:
            world.eng.ext_models[path] = self.solve
        world.pin_rules.append(self.pin)
        self.terms = {}

    def solve(self, it, args, kwargs, node):
        system = args[0]
        if isinstance(system, (ASet, AList)):
            parts = system.content
        elif isinstance(system, Tup):
            parts = system.items
        else:
            parts = (Spread(it.freeze(system)),)
        parts = tuple(sorted(set(it.freeze_parts(parts)), key=repr))
        unknowns = []
        for a in args[1:]:
            if isinstance(a, (ASet, AList)):
                unknowns.extend(a.content)
            elif isinstance(a, Tup):
                unknowns.extend(a.items)
            else:
                unknowns.append(a)
        if any(not (k == "dict" and v == TRUE) for k, v in kwargs.items()):
            raise Undecided(f"solve is called with the options {sorted(kwargs)}")
        it.event("solve", eqs=parts, unknowns=tuple(it.freeze_parts(unknowns)),
                 all_symbols=len(args) == 1)
        term = Sym("solutions", *parts, kind="list")
        self.terms[term] = parts
        return term

    def pin(self, it, pred):
        term = pred.args[0] if pred.args else None
        if pred.op in ("nonempty", "truth") and isinstance(term, Sym) and term.op == "solutions":
            return solvable(it, system_of(term.args))
        if pred.op in ("ge0", "eq0"):
            lin = pred.args[0]
            if isinstance(lin, Sym) and lin.op == "lin" and len(lin.args[1]) == 1:
                (t, coef), = lin.args[1]
                if isinstance(t, Sym) and t.op == "len" and isinstance(t.args[0], Sym) and \
                        t.args[0].op == "solutions":
                    sol = solvable(it, system_of(t.args[0].args))
                    const = lin.args[0].v if isinstance(lin.args[0], K) else lin.args[0]
                    if pred.op == "ge0" and (const, coef) == (-1, 1):
                        return sol
                    if pred.op == "eq0" and const == 0:
                        return not sol
                    if pred.op == "ge0" and (const, coef) == (0, -1):
                        return not sol
                    if not sol:
                        return const >= 0 if pred.op == "ge0" else const == 0
        return None


def solvable(it, system):
    """ Whether a system has solutions: a larger system has no more of them. """
    if not system:
        return True
    pred = Sym("solvable", *[K(repr(e)) for e in sorted(system, key=repr)], kind="bool")
    if pred in it.facts:
        return it.facts[pred]
    mine = set(pred.args)
    for p, v in it.facts.items():
        if p.op == "solvable":
            if v and mine <= set(p.args):
                return True
            if not v and set(p.args) <= mine:
                return False
    return it.test(pred)


def system_of(parts):
    """ The equations of a set, normalised, without trivial ones (as a frozenset). """
    out = set()
    for p in parts:
        if isinstance(p, Spread):
            out.add(("*", p.term))
        else:
            eq = norm_equation(p)
            if eq:
                out.add(eq)
    return frozenset(out)


# -- C32 ----------------------------------------------------------------------------------

@check("C32")
def c32(rep, tier):
    """ The verdict over an abstract system against the definition. """
    rep.rule("system", "on every path the verdict equals: no nontrivial equation, or the solver "
             "finds at least one solution for all nontrivial equations in all their symbols; "
             "solving never raises")
    for n in range(0, 4 if tier == "quick" else 5):
        for extra in (False, True):
            for zero in (False, True):
                w = World(torch=False, tensorflow=False)
                Solver(w)
                w.pin_rules.append(distinct(zero))
                fn = w.get("asta.utils", "astasolver")
                eqs = [expression(f"e{i}") for i in range(n)]
                rest = Opaque("rest", kind="set", pytype=K(set), elemkind="expr")

                def run(it):
                    parts = list(eqs) + ([Spread(rest)] if extra else []) + \
                        ([ZERO] if zero else [])
                    return it.call(fn, [it.make_set(parts)], {}, None)

                def judge(out):
                    return judge_solver(out, eqs, rest if extra else None)

                compared(rep, w, f"a system of {n} equations"
                         + (" and any number of others" if extra else "")
                         + (" and the trivial one" if zero else ""),
                         "system", fn, run, judge, optional=extra)
                rep.engine(w.eng)


def distinct(zero):
    """ The elements of a set differ from each other: at most one is zero. """
    def pin(it, pred):
        if pred.op == "eq" and ZERO in pred.args:
            if zero or any(v and p.op == "eq" and ZERO in p.args for p, v in it.facts.items()):
                return False
        return None

    return pin


def each_of(out, coll):
    """ What stands for each element of a collection, in the loops that went through it. """
    return [out.it.element_maker(ev.term)[1](ev.uid)
            for ev in out.events("iter_end") if ev.term == coll]


def all_given(out, coll, parts):
    """ Are all elements of a collection among the parts: at once, or one by one? """
    coll = out.it.freeze(coll)
    if any(isinstance(p, Spread) and p.term == coll for p in parts):
        return True
    if not out.it.truth(out.it.nonempty_pred(coll)):
        return True
    return any(e in parts for e in each_of(out, coll))


def judge_solver(out, eqs, rest):
    if out.kind == "raise":
        return f"raises {errname(out)}"
    it = out.it
    res = out.value
    if not isinstance(res, Tup) or not res.items:
        raise Undecided("the result is not a known tuple")
    verdict = it.truth(res.items[0])
    live = [e for e in eqs if not it.truth(it.compare_eq(e, ZERO))]
    solves = out.events("solve")
    if rest is not None:
        if not solves:
            if live:
                return "a nontrivial equation never reaches the solver"
            if not verdict:
                return "rejected although no equation was given to the solver"
            return None
    elif not live:
        if not verdict:
            return "a system without nontrivial equations is rejected"
        return None
    if not solves:
        return "nontrivial equations never reach the solver"
    if len(solves) > 1:
        raise Undecided("the system is solved in several steps")
    ev = solves[0]
    given = set(ev.eqs)
    for e in live:
        if e not in given:
            return f"the equation {e!r} is not given to the solver"
        if not ev.all_symbols and not all_given(out, it.getattr(e, "free_symbols"), ev.unknowns):
            return f"the symbols of {e!r} are not all solved for"
    if rest is not None:
        others = [g for g in given if isinstance(g, Spread) and mentions(g, rest)]
        each = [e for e in each_of(out, rest) if not it.truth(it.compare_eq(e, ZERO))]
        if not others:
            if not each_of(out, rest) and it.truth(it.nonempty_pred(rest)) or \
                    any(e not in given for e in each):
                return "not all equations are given to the solver"
        if not ev.all_symbols and not any(isinstance(u, Spread) and mentions(u, rest)
                                          for u in ev.unknowns):
            if any(it.truth(it.nonempty_pred(g.term)) for g in others):
                return "not all symbols are solved for"
            for e in each:
                if not all_given(out, it.getattr(e, "free_symbols"), ev.unknowns):
                    return "not all symbols are solved for"
    found = it.truth(Sym("solutions", *ev.eqs, kind="list"))
    if found != verdict:
        return f"the solver finds {'a' if found else 'no'} solution but the verdict is {verdict}"
    return None


# -- C14 -------------------------------------------------------------------------------------

KINDS = "ie-.02N"


def dim(kind, name):
    return {"i": lambda: integer(name), "e": lambda: expression(name), "-": lambda: K(-1),
            ".": lambda: ELL, "0": lambda: K(0), "2": lambda: K(2), "N": lambda: NONE,
            "n": lambda: integer(name), "E": lambda: expression(name)}[kind]()


@check("C14")
def c14(rep, tier):
    """ All pairs of kinds of dimensions, alone and side by side. """
    rep.rule("dimension", "on every path the verdict and the collected equations equal those of "
             "the definition of compatible dimensions; never raises")
    w = World(torch=False, tensorflow=False)
    w.pin_rules.append(sub_simplify)
    fn = w.get("asta.utils", "check_equal")
    pairs = list(itertools.product(KINDS, repeat=2))
    cases = [("", "")]
    cases += [(a, b) for a, b in pairs]
    cases += [("", "i"), ("i", ""), ("ie", "i"), ("e", "ee"), ("-", "--"), ("-", ""), ("", "."),
              ("ii", "i"), ("e", ""), (".", ".."), ("i.", "i"), ("2", "22")]
    few = "ie-" if tier == "quick" else "ie-.0"
    for a in itertools.product(few, repeat=2):
        for b in itertools.product(few, repeat=2):
            cases.append(("".join(a), "".join(b)))
    cases += [("iii", "iii"), ("eee", "iii"), ("iii", "eee"), ("e-i", "iii"), ("iei", "ie-"),
              ("eie", "iei"), ("---", "iii"), ("ii-e", "iiii"), ("eeee", "iiii"), ("iiii", "-i-i")]
    for left, right in cases:
        for prior in ((), ("p",)) if len(left) < 2 else ((),):
            xs = [dim(k, f"x{i}") for i, k in enumerate(left)]
            ys = [dim(k, f"y{i}") for i, k in enumerate(right)]
            before = [expression(p) for p in prior]

            def run(it):
                return it.call(fn, [Tup(xs), Tup(ys), it.make_set(list(before))], {}, None)

            def judge(out):
                return judge_dims(out, xs, ys, before)

            compared(rep, w, f"({left}) against ({right})" + (" with an equation" if prior else ""),
                     "dimension", fn, run, judge)
    rep.engine(w.eng)


def judge_dims(out, xs, ys, before):
    if out.kind == "raise":
        return f"raises {errname(out)}"
    it = out.it
    if not isinstance(out.value, Tup) or len(out.value.items) != 2:
        raise Undecided("the result is not a known pair")
    verdict = it.truth(out.value.items[0])
    eqs = out.value.items[1]
    want = set(system_of(before))
    ok = len(xs) == len(ys)
    if ok:
        for x, y in zip(xs, ys):
            good, eq = compatible(it, x, y)
            if not good:
                ok = False
                break
            if eq:
                want.add(eq)
    if verdict != ok:
        return f"judged {'' if verdict else 'in'}compatible"
    if ok:
        if not isinstance(eqs, ASet):
            raise Undecided("the equations are not a known set")
        got = system_of(eqs.content)
        if got != frozenset(want):
            return f"collects the equations {eqs!r}"
    return None


# -- C15 -------------------------------------------------------------------------------------

class ShapeWorld:
    def __init__(self):
        self.w = World(torch=False, tensorflow=False)
        self.solver = Solver(self.w)
        self.w.pin_rules.append(sub_simplify)
        self.w.pin_rules.append(self.pin)
        self.fn = self.w.get("asta.utils", "shapecheck")

    @staticmethod
    def pin(it, pred):
        """ Literals are positive, sizes are not negative. """
        if pred.op == "eq" and isinstance(pred.args[0], Opaque) and pred.args[0].kind == "int":
            a, b = pred.args
            if b == K(-1):
                return False
            if a.name.startswith("n") and b == ZERO:
                return False
            if a.name.startswith("s") and b == ZERO:
                for p, v in it.facts.items():
                    if v and p.op == "eq0" and mentions(p.args[0], a) or \
                            v and p.op == "eq0" and a in lin_atoms(p):
                        return False
        if pred.op == "eq0":
            for a in lin_atoms(pred):
                if it.facts.get(Sym("eq", a, ZERO, kind="bool")):
                    return False
        return None


def lin_atoms(pred):
    lin = pred.args[0]
    if isinstance(lin, Sym) and lin.op == "lin":
        return [t for t, _ in lin.args[1]]
    return []


def shape_match(it, pattern, shape):
    """
    The reference: yields the sets of equations of the alignments, the one with the
    shortest leading runs first.
    """
    if not pattern:
        return [()] if not shape else []
    head, rest = pattern[0], pattern[1:]
    out = []
    if head == ELL:
        for n in range(len(shape) + 1):
            if n and it.truth(it.compare_eq(shape[n - 1], ZERO)):
                break
            out.extend(shape_match(it, rest, shape[n:]))
        return out
    if not shape:
        return []
    good, eq = compatible(it, head, shape[0])
    if not good:
        return []
    return [((eq,) if eq else ()) + e for e in shape_match(it, rest, shape[1:])]


def judge_shape(out, pattern, shape, adjacent):
    it = out.it
    if adjacent:
        return None
    if out.kind == "raise":
        return f"raises {errname(out)}"
    if not isinstance(out.value, Tup) or len(out.value.items) != 2:
        raise Undecided("the result is not a known pair")
    verdict = it.truth(out.value.items[0])
    found = shape_match(it, list(pattern), list(shape))
    if not found:
        return "matches although no replacement makes them equal" if verdict else None
    wanted = {frozenset(e for e in eqs if e) for eqs in found}
    solves = out.events("solve")
    if pattern.count(ELL) > 1 and any(is_expr(p) for p in pattern):
        # Which alignment counts is not specified; some alignment must justify a match.
        if verdict and frozenset() not in wanted and not any(
                system_of(ev.eqs) in wanted and
                it.truth(Sym("solutions", *ev.eqs, kind="list")) for ev in solves):
            return "matches without solving the equations of an alignment"
        return None
    if frozenset() in wanted:
        if not verdict:
            return "does not match although a replacement makes them equal"
        return None
    if len(wanted) > 1:
        # The choice between alignments with different equations is not specified.
        return None
    want = next(iter(wanted))
    # The equations may also be left to whoever solves the joint system.
    ok = solvable(it, want) if solves else True
    if ok != verdict:
        return f"equations {'' if ok else 'not '}solvable but the verdict is {verdict}"
    if verdict:
        eqs = out.value.items[1]
        if not isinstance(eqs, ASet):
            raise Undecided("the equations are not a known set")
        if system_of(eqs.content) != want:
            return f"returns the equations {eqs!r}"
    return None


def name_pattern(p):
    return "(" + ", ".join({"n": "literal", "0": "0", "-": "-1", ".": "...", "E": "expr"}[k]
                           for k in p) + ")"


@check("C15")
def c15(rep, tier):
    """ All patterns up to a length against shapes of every rank up to a bound, sizes unknown. """
    rep.rule("shape", "on every path the verdict equals that of the definition: some replacement "
             "of ellipses and wildcards makes pattern and shape equal and the equations of the "
             "dimensions are solvable; an ellipsis never covers a zero")
    rep.rule("adjacent", "two adjacent ellipses raise a TypeError on every path")
    rep.rule("noshape", "an annotation without a shape matches every shape")
    s = ShapeWorld()
    w = s.w
    longest = 4
    for length in range(longest + 1):
        for pat in itertools.product("n-.E0", repeat=length):
            pat = "".join(pat)
            adjacent = ".." in pat
            if length == 4 and tier == "quick" and (pat.count("n") > 2 or pat.count("0") > 1):
                continue
            if "0" in pat and length == 4 and tier == "quick" and not pat.count("."):
                continue
            if adjacent and length > 3:
                continue
            pattern = [dim(k, f"n{i}") for i, k in enumerate(pat)]
            base = length - pat.count(".")
            for rank in range(0, 5 if tier == "quick" else 6):
                if length and not pat.count(".") and abs(rank - length) > 1:
                    continue
                if length >= 3 and tier == "quick" and rank < base - 1:
                    continue
                if length == 4 and tier == "quick" and rank > 4:
                    continue
                shape = [integer(f"s{i}") for i in range(rank)]

                def run(it):
                    return it.call(s.fn, [Tup(shape), Tup(pattern)], {}, None)

                def judge(out):
                    return judge_shape(out, pattern, shape, adjacent)

                if adjacent:
                    if not rank:
                        continue

                    def judge(out):  # pylint: disable=function-redefined
                        if not is_type_error(out):
                            return "two adjacent ellipses are accepted"
                        return None

                compared(rep, w, f"{name_pattern(pat)} against rank {rank}",
                         "adjacent" if adjacent else "shape", s.fn, run, judge)
    for rank in range(0, 4):
        shape = [integer(f"s{i}") for i in range(rank)]

        def run(it):
            return it.call(s.fn, [Tup(shape), NONE], {}, None)

        def judge(out):
            if out.kind == "raise":
                return f"raises {errname(out)}"
            if not out.it.truth(out.value.items[0]):
                return "no shape, but it does not match"
            if isinstance(out.value.items[1], ASet) and out.value.items[1].content:
                return "no shape, but equations are collected"
            return None

        compared(rep, w, f"no shape against rank {rank}", "noshape", s.fn, run, judge)
    rep.engine(w.eng)


# -- C31 ----------------------------------------------------------------------------------------

@check("C31")
def c31(rep, tier):
    """ Attribute parts of up to three names over a value with unknown attributes. """
    rep.rule("attributes", "on every path: a match exactly if each name is an attribute of the "
             "value and each plain one equals it; the equations are exactly those of the "
             "symbolic ones")
    w = World(torch=False, tensorflow=False)
    w.pin_rules.append(sub_simplify)
    fn = w.get("asta.utils", "attrcheck")
    non = w.eng.modules["asta.utils"].scope.vars.get("NonInstanceType")
    inst = Opaque("inst")

    def pin(it, pred):
        if pred.op in ("is", "eq") and non is not None and any(a == non for a in pred.args):
            return False
        if pred.op == "isinstance" and (pred.args[0] == inst or pred.args[0] in plain):
            return pred.args[1] == K(object)
        return None

    w.pin_rules.append(pin)
    plain = [Opaque(f"v{i}") for i in range(4)]

    def attr_value(kind, i):
        if kind == "e":
            return expression(f"v{i}")
        if kind == "N":
            return NONE
        if kind == "z":
            return ZERO
        if kind == "T":
            return TRUE
        return plain[i]

    longest = 2 if tier == "quick" else 3
    for n in range(longest + 1):
        for kinds in itertools.product("peNzT" if n < 2 else "pez", repeat=n):
            names = ["ndim", "device", "T"][:n]
            vals = [attr_value(k, i) for i, k in enumerate(kinds)]

            def run(it):
                d = it.alloc(ADict([(K(k), v) for k, v in zip(names, vals)]))
                return it.call(fn, [inst, d], {}, None)

            def judge(out):
                return judge_attrs(out, inst, names, vals)

            compared(rep, w, "attributes " + ("".join(kinds) or "{}"), "attributes", fn, run, judge)

    # Attributes which are arrays, as an array's base is, and arrays to compare them with.
    array = Opaque("array", pytype=Ext("numpy.ndarray"), isclass=False)
    other = Opaque("other array", pytype=Ext("numpy.ndarray"), isclass=False)
    view = Opaque("view", attrs={"base": array})
    for label, val in (("None", NONE), ("an array", other), ("a number", K(3))):
        for rest in ([], ["device"]):
            def run(it):
                d = it.alloc(ADict([(K("base"), val)] + [(K(k), plain[0]) for k in rest]))
                return it.call(fn, [view, d], {}, None)

            def judge(out):
                return judge_attrs(out, view, ["base"] + rest, [val] + plain[:len(rest)])

            compared(rep, w, f"an array as attribute, {label} demanded" + ", and another" *
                     len(rest), "attributes", fn, run, judge)

    def run_none(it):
        return it.call(fn, [inst, NONE], {}, None)

    compared(rep, w, "no attribute part", "attributes", fn, run_none,
             lambda out: judge_attrs(out, inst, [], []))
    rep.engine(w.eng)


def judge_attrs(out, inst, names, vals):
    if out.kind == "raise":
        return f"raises {errname(out)}"
    it = out.it
    if not isinstance(out.value, Tup) or len(out.value.items) != 2:
        raise Undecided("the result is not a known pair")
    verdict = it.truth(out.value.items[0])
    ok, want = True, set()
    for name, val in zip(names, vals):
        if not (name in inst.attrs or it.test(Sym("hasattr", inst, K(name), kind="bool"))):
            ok = False
            break
        attr = it.getattr(inst, name)
        if is_expr(val):
            want.add(equal_pair(val, it.freeze(attr)))
        else:
            equal = it.compare_eq(attr, val)
            if not (bool(equal.v) if isinstance(equal, K) else it.test(equal)):
                ok = False
                break
    if ok != verdict:
        return f"judged {'' if verdict else 'not '}matching"
    if ok:
        eqs = out.value.items[1]
        if not isinstance(eqs, ASet):
            raise Undecided("the equations are not a known set")
        if system_of(eqs.content) != frozenset(want):
            return f"collects the equations {eqs!r}"
    return None
