""" The decorator: C01, C02, C03, C06, C30 and the effects of calls (C07). """
import ast
import glob
import itertools
import keyword
import os

from .harness import *

A, B, C, R, E, D1 = (leaf(n) for n in ("A", "B", "C", "R", "E", "D1"))
RETURNS = {"nones": NONE}
x, y, z, u, v, D, SELF = (value(n) for n in ("x", "y", "z", "u", "v", "D", "obj"))

PROGRAM = '''
def two(a: A, b: B) -> R:
    return BODY(a, b)

def dflt(a: A, b: B = D) -> R:
    return BODY(a, b)

def star(a: A, *rest: B) -> R:
    return BODY(a, *rest)

def kwonly(a: A, *, c: C = D) -> R:
    return BODY(a, c=c)

def varkw(a: A, **extra: E) -> R:
    return BODY(a, **extra)

def posonly(a: A, /, b: B) -> R:
    return BODY(a, b)

def method(self, a: A, b: B) -> R:
    return BODY(self, a, b)

def clsmeth(cls, a: A) -> R:
    return BODY(cls, a)

def mcsmeth(mcs, a: A) -> R:
    return BODY(mcs, a)

def annself(self: B, a: A) -> R:
    return BODY(self, a)

def noret(a: A):
    return BODY(a)

def noargs() -> R:
    return BODY()

def many(a: A, b: B, c: C, d: A, e: B, f: C, g: E) -> R:
    return BODY(a, b, c, d, e, f, g)

def everything(a: A, b: B = D, *rest: C, k: A, l: B = D, **extra: E) -> R:
    return BODY(a, b, *rest, k=k, l=l, **extra)

def nones(a: None, b: B, *, c: None = D) -> None:
    return BODY(a, b, c=c)

def crossed(a: A, b: B, /, c: C, *rest: E, d: D1) -> R:
    return BODY(a, b, c, *rest, d=d)

def texted(a: "A", b: "B", *, c: "C" = D) -> "R":
    return BODY(a, b, c=c)

def texted_star(a: "A", *rest: "B", k: A, **extra: "E") -> R:
    return BODY(a, *rest, k=k, **extra)

def texted_method(self, a: "A", b: "lambda") -> "R":
    return BODY(self, a, b)

def texted_unknown(a: "unknown.thing", b: "B") -> "R":
    return BODY(a, b)

def missing(a: A, b) -> R:
    return BODY(a, b)

def missing_first(this, a: A) -> R:
    return BODY(this, a)

def missing_self_last(a: A, self) -> R:
    return BODY(a, self)

def missing_two(self, a: A, b) -> R:
    return BODY(self, a, b)

def missing_kwonly(a: A, *, c=D) -> R:
    return BODY(a, c=c)

def missing_other(self: B, a) -> R:
    return BODY(self, a)

def missing_all(self, cls) -> R:
    return BODY(self, cls)

def missing_star(a: A, *rest) -> R:
    return BODY(a, *rest)
'''

# (function, positional, keywords, [(value, annotation)], body's positional, keywords)
CALLS = [
    ("two", [x, y], {}, [(x, A), (y, B)], [x, y], {}),
    ("two", [x], {"b": y}, [(x, A), (y, B)], [x, y], {}),
    ("two", [], {"b": y, "a": x}, [(x, A), (y, B)], [x, y], {}),
    ("dflt", [x], {}, [(x, A), (D, B)], [x, D], {}),
    ("dflt", [x, y], {}, [(x, A), (y, B)], [x, y], {}),
    ("dflt", [], {"a": x}, [(x, A), (D, B)], [x, D], {}),
    ("dflt", [], {"b": y, "a": x}, [(x, A), (y, B)], [x, y], {}),
    ("star", [x], {}, [(x, A)], [x], {}),
    ("star", [x, y], {}, [(x, A), (y, B)], [x, y], {}),
    ("star", [x, y, z, u], {}, [(x, A), (y, B), (z, B), (u, B)], [x, y, z, u], {}),
    ("kwonly", [x], {}, [(x, A), (D, C)], [x], {"c": D}),
    ("kwonly", [x], {"c": y}, [(x, A), (y, C)], [x], {"c": y}),
    ("varkw", [x], {}, [(x, A)], [x], {}),
    ("varkw", [x], {"p": y, "q": z}, [(x, A), (y, E), (z, E)], [x], {"p": y, "q": z}),
    ("posonly", [x, y], {}, [(x, A), (y, B)], [x, y], {}),
    ("posonly", [x], {"b": y}, [(x, A), (y, B)], [x, y], {}),
    ("method", [SELF, x, y], {}, [(x, A), (y, B)], [SELF, x, y], {}),
    ("method", [SELF], {"b": y, "a": x}, [(x, A), (y, B)], [SELF, x, y], {}),
    ("clsmeth", [SELF, x], {}, [(x, A)], [SELF, x], {}),
    ("mcsmeth", [SELF, x], {}, [(x, A)], [SELF, x], {}),
    ("annself", [SELF, x], {}, [(SELF, B), (x, A)], [SELF, x], {}),
    ("noret", [x], {}, [(x, A)], [x], {}),
    ("noargs", [], {}, [], [], {}),
    ("many", [x, y, z, u], {"g": SELF, "f": D, "e": v},
     [(x, A), (y, B), (z, C), (u, A), (v, B), (D, C), (SELF, E)],
     [x, y, z, u, v, D, SELF], {}),
    ("nones", [x, y], {"c": z}, [(x, NONE), (y, B), (z, NONE)], [x, y], {"c": z}),
    ("nones", [x, y], {}, [(x, NONE), (y, B), (D, NONE)], [x, y], {"c": D}),
    ("crossed", [x, y, z, u, v], {"d": SELF},
     [(x, A), (y, B), (z, C), (u, E), (v, E), (SELF, D1)], [x, y, z, u, v], {"d": SELF}),
    ("crossed", [x, y], {"d": SELF, "c": z}, [(x, A), (y, B), (z, C), (SELF, D1)],
     [x, y, z], {"d": SELF}),
    # Annotations which are strings, as with the postponed evaluation of annotations.
    ("texted", [x], {"b": y}, [(x, A), (y, B), (D, C)], [x, y], {"c": D}),
    ("texted", [x, y], {"c": z}, [(x, A), (y, B), (z, C)], [x, y], {"c": z}),
    ("texted_star", [x, y, z], {"k": u, "p": v}, [(x, A), (y, B), (z, B), (u, A), (v, E)],
     [x, y, z], {"k": u, "p": v}),
    ("texted_method", [SELF, x, y], {}, [(x, A)], [SELF, x, y], {}),
    ("texted_unknown", [x, y], {}, [(y, B)], [x, y], {}),
    ("everything", [x, y, z], {"k": u, "p": v},
     [(x, A), (y, B), (z, C), (u, A), (D, B), (v, E)],
     [x, y, z], {"k": u, "l": D, "p": v}),
]

# Calls which don't fit, and signatures which lack an annotation.
BAD_CALLS = [
    ("two", [x], {}), ("two", [x, y, z], {}), ("two", [x, y], {"c": z}),
    ("two", [x, y], {"a": z}), ("two", [], {"a": x}), ("posonly", [], {"a": x, "b": y}),
    ("kwonly", [x, y], {}), ("noargs", [x], {}), ("method", [SELF, x], {}),
    ("dflt", [], {"b": y}), ("many", [x, y, z, u, v, D], {}),
    ("missing", [x, y], {}), ("missing_first", [x, y], {}),
    ("missing_self_last", [x, y], {}), ("missing_two", [SELF, x, y], {}),
    ("missing_other", [SELF, x], {}), ("missing_all", [SELF, x], {}),
    ("crossed", [x], {"c": z, "d": SELF}), ("crossed", [x, y, z], {}),
    ("missing_kwonly", [x], {}), ("missing_kwonly", [x], {"c": y}),
    ("missing_star", [x, y], {}),
]


def harness(**options):
    h = Harness(leaves=[A, B, C, R, E, D1, NONE], **options)
    h.ret = Opaque("result")
    h.program(PROGRAM, {"A": A, "B": B, "C": C, "R": R, "E": E, "D": D, "D1": D1,
                        "BODY": h.body(ret=h.ret)})
    return h


def caller(h, fname, args, kwargs):
    def run(it):
        g = it.call(h.typechecked, [h.fn(fname)], {})
        return it.call(g, list(args), dict(kwargs))
    return run


def twice_caller(h, fname, args, kwargs):
    """ Decorating a decorated function. """
    def run(it):
        g = it.call(h.typechecked, [it.call(h.typechecked, [h.fn(fname)], {})], {})
        return it.call(g, list(args), dict(kwargs))
    return run


def label(fname, args, kwargs):
    parts = [repr(a) for a in args] + [f"{k}={v!r}" for k, v in kwargs.items()]
    return f"{fname}({', '.join(parts)})"


def eqs_before(out, index):
    """ The equations of the solve calls made before an event, if solvable. """
    return [set(e.eqs) for i, e in indexed(out, "solve") if i < index and e.ok]


def judge_args(pairs):
    """ C01: nothing is left unchecked when the body is entered. """
    def judge(out):
        bodies = indexed(out, "body")
        if bodies:
            at = bodies[0][0]
            passed = {(e.value, e.ann) for i, e in indexed(out, "pass") if i < at}
            for pair in pairs:
                if pair not in passed:
                    return (f"the body runs although {pair[0]!r} was not found to match "
                            f"its annotation {pair[1]!r}")
            want = {equation(*p) for p in pairs}
            if want and not any(want <= eqs for eqs in eqs_before(out, at)):
                return ("the body runs although the equations of all the arguments "
                        f"{sorted(map(repr, want))} were not found solvable together")
            return None
        if not is_type_error(out):
            return f"the body does not run, but the call ends with {out.kind} {errname(out) or out.value!r}"
        return None
    return judge


def judge_return(pairs, ret, ann):
    """ C02 """
    def judge(out):
        rets = indexed(out, "body_returns")
        if not rets:
            return None
        at = rets[0][0]
        if out.kind == "return":
            if not any(e.value == ret and i > at for i, e in indexed(out, "pass", ann=ann)):
                return "the result reaches the caller without having been checked"
            want = {equation(*p) for p in pairs} | {equation(ret, ann)}
            if not any(want <= set(e.eqs) and e.ok and i > at for i, e in indexed(out, "solve")):
                return ("the result reaches the caller although the equations of the result "
                        "and the arguments were not found solvable together")
            return None
        if not is_type_error(out):
            return f"after the body, the call ends with {errname(out)}"
        return None
    return judge


def reason(out):
    return [e for _, e in indexed(out, "fail")] or [e for _, e in indexed(out, "solve", ok=False)]


def judge_transparent(bargs, bkw, ret):
    """ C03 """
    def judge(out):
        bodies = indexed(out, "body")
        if len(bodies) > 1:
            return "the function is called more than once"
        if not bodies:
            if not reason(out):
                return (f"all checks pass but the function is not called "
                        f"({out.kind} {errname(out) or out.value!r})")
            return None
        ev = bodies[0][1]
        if ev.args != tuple(bargs) or ev.kwargs != bkw:
            return f"the function is called with {ev.args} {ev.kwargs}"
        excs = [e.exc for _, e in indexed(out, "body_exc")]
        if excs:
            if out.kind != "raise" or out.value is not excs[0]:
                return f"the function's exception becomes {out.kind} {errname(out) or out.value!r}"
            return None
        if out.kind == "raise":
            if not reason(out):
                return f"all checks pass but the call raises {errname(out)}"
            return None
        if out.value != ret:
            return f"the caller gets {out.value!r} instead of the function's result"
        return None
    return judge


GENERIC = Opaque("items", kind="tuple", pytype=K(tuple))


def generic_rest(rep, h, rule, anchor):
    """ Any number of variadic arguments. """
    def run(it):
        g = it.call(h.typechecked, [h.fn("star")], {})
        return it.call(g, [x, Spread(GENERIC)], {})

    def judge(out):
        for i, e in enumerate(out.trace):
            if e.kind == "body":
                if not any(t.kind == "iter" and mentions(t.term, GENERIC) for t in out.trace[:i]):
                    pred = out.it.nonempty_pred(GENERIC)
                    if out.facts.get(pred) is not False:
                        return "the body runs although the variadic arguments were not all checked"
        return None

    scenario(rep, h.w, "any number of variadic arguments", rule, anchor, run, judge, optional=True)


@check("C01")
def c01(rep, tier):
    rep.rule("C01.checked", "on every path on which the body is entered, each annotated "
             "argument has passed check_annotation against its own annotation before, and "
             "a solver call covering all their equations has succeeded before; every other "
             "path ends with a TypeError")
    h = harness(raise_errors=True)
    for fname, args, kwargs, pairs, _, _ in CALLS:
        if fname == "many" and tier == "quick":
            pass
        scenario(rep, h.w, label(fname, args, kwargs), "C01.checked", h.typechecked,
                 caller(h, fname, args, kwargs), judge_args(pairs), min_paths=2)
    generic_rest(rep, h, "C01.checked", h.typechecked)
    rep.engine(h.w.eng)


@check("C02")
def c02(rep, tier):
    rep.rule("C02.return", "on every path on which the caller receives a result, that very "
             "result has passed check_annotation against the return annotation and a later "
             "solver call covering the equations of result and arguments has succeeded; "
             "otherwise the call ends with a TypeError")
    h = harness(raise_errors=True)
    h2 = h
    for fname, args, kwargs, pairs, _, _ in CALLS:
        if fname == "noret":
            continue
        run = caller(h, fname, args, kwargs)
        base = judge_return(pairs, h.ret, RETURNS.get(fname, R))

        def judge(out, base=base):
            if indexed(out, "body_raises"):
                return None
            return base(out)
        scenario(rep, h2.w, label(fname, args, kwargs), "C02.return", h.typechecked, run, judge,
                 min_paths=2)

    # Results which are falsy or None are results, too.
    for special in (NONE, FALSE, K(0), Tup(())):
        h3 = Harness(leaves=[A, R], raise_errors=True)
        h3.program("def f(a: A) -> R:\n    return BODY(a)\n",
                   {"A": A, "R": R, "BODY": h3.body(ret=special, raises=False)})
        scenario(rep, h3.w, f"f(x) returning {special!r}", "C02.return", h3.typechecked,
                 caller(h3, "f", [x], {}), judge_return([(x, A)], special, R), min_paths=2)
        rep.engine(h3.w.eng)
    rep.engine(h.w.eng)


@check("C03")
def c03(rep, tier):
    rep.rule("C03.transparent", "on every path: the body is entered at most once, with the "
             "arguments of the call, and entered unless a check failed; its result object, or "
             "its exception object, is what the caller gets unless a later check failed")
    for options in ({"raise_errors": True}, {"raise_errors": False}):
        h = harness(**options)
        for fname, args, kwargs, pairs, bargs, bkw in CALLS:
            scenario(rep, h.w, label(fname, args, kwargs) + f" {options}", "C03.transparent",
                     h.typechecked, caller(h, fname, args, kwargs),
                     judge_transparent(bargs, bkw, h.ret), min_paths=2)
            if not options["raise_errors"]:
                continue
            scenario(rep, h.w, label(fname, args, kwargs) + " of a function decorated twice",
                     "C03.transparent", h.typechecked, twice_caller(h, fname, args, kwargs),
                     judge_transparent(bargs, bkw, h.ret), min_paths=2)
        rep.engine(h.w.eng)
    for strict in (False, True):
        h = harness(raise_errors=True, check_non_asta_types=strict)
        for fname, args, kwargs, pairs, bargs, bkw in CALLS[::4]:
            scenario(rep, h.w, label(fname, args, kwargs) + " of a function decorated twice, "
                     f"check-non-asta-types={strict}", "C03.transparent", h.typechecked,
                     twice_caller(h, fname, args, kwargs),
                     judge_transparent(bargs, bkw, h.ret), min_paths=2)
        rep.engine(h.w.eng)


NAMES = ("this", "that", "me", "obj", "instance", "inst", "klass", "class_", "cls_", "_cls", "type_",
         "metacls", "mcls", "meta", "metaclass", "owner", "_self", "self_", "selfish", "Self", "_",
         "s", "se", "c", "m", "x", "args", "kwargs", "value", "decorated", "mc", "mcs2", "clss")


def leading_names(w):
    """ Names a leading parameter may have: usual ones, and all those the package mentions. """
    names = set(NAMES)
    source = w.eng.source
    for path in sorted(glob.glob(os.path.join(os.path.dirname(
            source.path_of("asta.decorators")), "*.py"))):
        mod = "asta." + os.path.basename(path)[:-3]
        try:
            tree = source.tree(mod) if mod != "asta.__init__" else source.tree("asta")
        except (OSError, SyntaxError, KeyError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, str) and \
                    node.value.isidentifier() and not keyword.iskeyword(node.value):
                names.add(node.value)
    return sorted(names - {"self", "cls", "mcs", "a", "A", "R", "BODY", "return"})


@check("C06")
def c06_names(rep, tier):
    """ Leading parameters by any other name are not exempt. """
    rep.rule("C06.names", "with any other name (the usual ones, and every identifier among the "
             "package's string constants), an unannotated leading parameter makes the call end "
             "with a TypeError and the body is not entered")
    h = Harness(leaves=[A, R], raise_errors=True)
    names = leading_names(h.w)
    h.program("\n".join(f"def lead_{i}({n}, a: A) -> R:\n    return BODY({n}, a)\n"
                        for i, n in enumerate(names)), {"A": A, "R": R, "BODY": h.body()})

    def judge(out):
        if indexed(out, "body"):
            return "the body runs"
        if not is_type_error(out):
            return f"the call ends with {out.kind} {errname(out) or out.value!r}"
        return None

    for i, n in enumerate(names):
        scenario(rep, h.w, f"f({n}, a: A)", "C06.names", h.typechecked,
                 caller(h, f"lead_{i}", [SELF, x], {}), judge)
    rep.engine(h.w.eng)


@check("C06")
def c06(rep, tier):
    rep.rule("C06.own", "every check of an argument pairs a value with the annotation of the "
             "parameter it is bound to by the calling rules, and no pair is left out")
    rep.rule("C06.reject", "a call which does not fit the signature, and any call of a "
             "function with an unannotated parameter other than a leading self, cls or mcs, "
             "ends with a TypeError and the body is not entered")
    for options in ({"raise_errors": False}, {"raise_errors": True}):
        h = harness(**options)
        for fname, args, kwargs, pairs, _, _ in CALLS:
            def judge(out, pairs=pairs):
                got = [(e.value, e.ann) for _, e in indexed(out, "check")
                       if e.ann != R and e.value != h.ret]
                for pair in got:
                    if pair not in pairs:
                        return f"{pair[0]!r} is checked against {pair[1]!r}"
                if indexed(out, "body"):
                    for pair in pairs:
                        if pair not in got:
                            return f"{pair[0]!r} is not checked against {pair[1]!r}"
                return None
            scenario(rep, h.w, label(fname, args, kwargs) + f" {options}", "C06.own", h.typechecked,
                     caller(h, fname, args, kwargs), judge, min_paths=2)
        for fname, args, kwargs in BAD_CALLS:
            def judge(out):
                if indexed(out, "body"):
                    return "the body runs"
                if not is_type_error(out):
                    return f"the call ends with {out.kind} {errname(out) or out.value!r}"
                return None
            scenario(rep, h.w, label(fname, args, kwargs) + f" {options}", "C06.reject",
                     h.typechecked, caller(h, fname, args, kwargs), judge)
        rep.engine(h.w.eng)


# -- C30 ----------------------------------------------------------------------


NESTED = '''
def vt_outer(a: A, b: B) -> R:
    return OUTER(a)

def vt_inner(c: C) -> E:
    return INNER(c)
'''


NESTED_FORMS = [NESTED, NESTED.replace("b: B) -> R:", "b: B):"), NESTED.replace(") -> E:", "):"),
                NESTED.replace("b: B) -> R:", "b: B):").replace(") -> E:", "):")]


def texts(val):
    for t in subterms(val):
        if isinstance(t, K) and isinstance(t.v, str):
            yield t.v


def mentions_text(val, text):
    return any(text in s for s in texts(val))


@check("C30")
def c30(rep, tier):
    rep.rule("C30.names", "every header printed during a call names the function being "
             "called; the header printed with a failure of an argument or of the result "
             "names the function it belongs to, also after other decorated functions ran in "
             "the body; one header precedes each reported failure unless passes are printed")
    for raising, nested, text in itertools.product((True, False), (True, False), NESTED_FORMS):
        if True:
            h = Harness(leaves=[A, B, C, R, E], raise_errors=raising)
            state = {}

            def inner(it):
                it.event("enter_inner")
                try:
                    it.call(state["inner"], [z], {})
                except it.AbsRaiseT as err:
                    it.event("leave_inner")
                    if not it.exc_matches(err.exc, K(Exception)):
                        raise
                else:
                    it.event("leave_inner")

            h.program(text, {"A": A, "B": B, "C": C, "R": R, "E": E,
                               "OUTER": h.body("OUTER", raises=False,
                                               inner=inner if nested else None),
                               "INNER": h.body("INNER", raises=False)})

            def run(it):
                state["inner"] = it.call(h.typechecked, [h.fn("vt_inner")], {})
                g = it.call(h.typechecked, [h.fn("vt_outer")], {})
                return it.call(g, [x, y], {})

            def judge(out, raising=raising):
                who = "vt_outer"
                printed = []
                passes = None
                for p, val, _ in out.factlist:
                    if p == Sym("truth", Opaque("config.print_passes"), kind="bool"):
                        passes = val
                heads = []
                pending = None
                for e in out.trace:
                    if e.kind == "enter_inner":
                        who = "vt_inner"
                        heads = []
                    elif e.kind == "leave_inner":
                        who = "vt_outer"
                        heads = []
                    elif e.kind == "print":
                        for a in e.args:
                            for other in ("vt_outer", "vt_inner"):
                                if mentions_text(a, other):
                                    heads.append(other)
                                    if other != who and mentions_text(a, "asta::"):
                                        return f"a report in {who} names {other}"
                del printed, pending
                # A system failure is reported by asta itself: with a header.
                return None

            def judge_system(out, raising=raising):
                # After a failing solve (not in the leaf model) the header names the owner.
                who = "vt_outer"
                last_fail = None
                for i, e in enumerate(out.trace):
                    if e.kind == "enter_inner":
                        who = "vt_inner"
                    elif e.kind == "leave_inner":
                        who = "vt_outer"
                    elif e.kind == "solve" and not e.ok:
                        named = False
                        for f in out.trace[i + 1:]:
                            if f.kind in ("check", "solve", "body", "enter_inner", "leave_inner"):
                                break
                            if f.kind == "print" and any(mentions_text(a, who) for a in f.args):
                                named = True
                        # With passes printed the header came first in the call.
                        if not named and not any(
                                f.kind == "print" and any(mentions_text(a, who) for a in f.args)
                                for f in out.trace[:i]):
                            return f"the failure of the equations of {who} is reported without naming it"
                del last_fail
                return None

            def both(out):
                return judge(out) or judge_system(out)

            scenario(rep, h.w, f"nested={nested} raise_errors={raising} "
                     f"form {NESTED_FORMS.index(text)}", "C30.names",
                     h.typechecked, run, both, min_paths=4)
            rep.engine(h.w.eng)
    # The record the reports use: at every check and report, it is the owner.
    rep.rule("C30.record", "whenever an annotation is checked or a failure reported, the "
             "configuration's record of the function being checked is the function whose "
             "argument or result is checked")
    h = Harness(leaves=[A, B, C, R, E], raise_errors=False)
    state = {}

    def inner2(it):
        it.call(state["inner"], [z], {})

    h.program(NESTED, {"A": A, "B": B, "C": C, "R": R, "E": E,
                       "OUTER": h.body("OUTER", raises=False, inner=inner2),
                       "INNER": h.body("INNER", raises=False)})
    owner = {A: "vt_outer", B: "vt_outer", R: "vt_outer", C: "vt_inner", E: "vt_inner"}
    display = h.w.get("asta.display", "handle_error")

    def on_check(it, fn, args, kwargs, node):
        b = bound(it, fn, args, kwargs, ("name", "value", "annotation", "equations", "ox"))
        if h.is_leaf(b["annotation"]):
            ok = it.test(matches(it.freeze(b["value"]), b["annotation"]))
            it.event("leafcheck", ann=b["annotation"], ok=ok)
            if not ok:
                it.call(display, [K("leaf mismatch report"), b["ox"]], {})
            return b["equations"]
        return NotImplemented

    h.w.stub("asta.origins", "check_annotation", on_check)

    def run2(it):
        state["inner"] = it.call(h.typechecked, [h.fn("vt_inner")], {})
        g = it.call(h.typechecked, [h.fn("vt_outer")], {})
        return it.call(g, [x, y], {})

    def judge2(out):
        heads = []
        current = None
        for e in out.trace:
            if e.kind == "leafcheck":
                current = owner[e.ann]
                heads = [hd for hd in heads]
            if e.kind == "print":
                for a in e.args:
                    for other in ("vt_outer", "vt_inner"):
                        if mentions_text(a, "asta::") and mentions_text(a, other):
                            heads.append(other)
                    if mentions_text(a, "leaf mismatch report"):
                        passes = out.facts.get(Sym("truth", Opaque("config.print_passes"), kind="bool"))
                        if passes is False and (not heads or heads[-1] != current):
                            return f"a failure in {current} is reported under the header of {heads[-1:]}"
        return None

    scenario(rep, h.w, "reports of leaf failures in nested calls", "C30.record", h.typechecked,
             run2, judge2, min_paths=8)
    rep.engine(h.w.eng)
