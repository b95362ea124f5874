""" Without torch or tensorflow (C23). """
from .common import *
from .harness import ENV_SET
from .resolve import (
    A_AT, A_DS, A_N, A_S, A_SAT, A_T, A_XS, DOTS, N0, P, Q, S, X, XP1, CallWorld, joint_call,
    nested, resolved_calls, stores,
)
from .shapes import Solver, ShapeWorld, sub_simplify
from .types_ import Family, Instance, instance_pins, no_instance, one_verdict, pin, type_cases

LIBS = {"Tensor": "torch", "TFTensor": "tensorflow"}
COMBOS = [(False, False), (True, False), (False, True), (True, True)]

PROGRAM = '''
def subscript(t, item):
    return t[item]

def check(t, value):
    return isinstance(value, t)
'''

USER = '''
from asta import Array, Scalar, Tensor, TFTensor, typechecked
from asta import dims, shapes, symbols
'''


def combo_text(torch, tensorflow):
    return (f"torch {'present' if torch else 'missing'}, "
            f"tensorflow {'present' if tensorflow else 'missing'}")


def fresh_world(torch, tensorflow, options=None):
    """ A world in which importing asta runs everything, as for a user. """
    w = World(torch=torch, tensorflow=tensorflow, options=options)
    w.eng.skip_bodies = set()
    w.eng.extra_sources["vt_user"] = USER
    w.eng.extra_sources["vt_use"] = PROGRAM
    w.pins[ENV_SET] = False
    return w


def failed_imports(out):
    return {e.name for e in out.events("import_failed")}


@check("C23")
def c23_import(rep, tier):
    """ import asta in every combination of installed libraries. """
    rep.rule("import", "importing asta, and its dims, shapes and symbols, raises nothing, for "
             "every combination of installed libraries and configuration: every import of "
             "a missing library is guarded and every attribute of its stand-in which is read "
             "exists")
    rep.rule("names", "asta then offers Array, Scalar, typechecked, Tensor and TFTensor; Tensor "
             "and TFTensor are the real ones exactly if their library is present")
    anchor = "asta/__init__.py"
    for torch, tensorflow in COMBOS:
        for on, passes in ((True, False), (True, True), (False, False)):
            w = fresh_world(torch, tensorflow, {"on": on, "print_passes": passes})

            def run(it):
                return it.load("vt_user")

            def judge(out):
                if out.kind == "raise":
                    return f"raises {errname(out)} at {site_text(out.site)}"
                return None

            text = f"import asta ({combo_text(torch, tensorflow)}, on={on}, print-passes={passes})"
            scenario(rep, w, text, "import", anchor, run, judge)
            rep.engine(w.eng)
        for name in ("Array", "Scalar", "typechecked", "Tensor", "TFTensor"):
            w = fresh_world(torch, tensorflow, {"on": True, "print_passes": True})

            def run(it, name=name):
                mod = it.load("vt_user")
                return mod.scope.vars[name]

            def judge(out, name=name):
                if out.kind == "raise":
                    return f"raises {errname(out)} at {site_text(out.site)}"
                if name in LIBS:
                    present = {"torch": torch, "tensorflow": tensorflow}[LIBS[name]]
                    base = Ext(LIBS[name] + ".Tensor")
                    real = isinstance(out.value, Cls) and any(
                        b == base for b in out.value.mro)
                    if real != present:
                        return f"{name} is {out.value!r}"
                elif not isinstance(out.value, (Cls, Fn)):
                    return f"{name} is {out.value!r}"
                return None

            scenario(rep, w, f"asta.{name} ({combo_text(torch, tensorflow)})", "names", anchor,
                     run, judge)


def items():
    """ What a type may be subscripted with. """
    return [("an int", K(3)), ("an unknown item", Opaque("item")), ("(2, 3)", Tup([K(2), K(3)])),
            ("int", K(int)), ("...", ELL), ("None", NONE), ("()", Tup([])),
            ("(int, 2)", Tup([K(int), K(2)])), ("a dictionary", ADict([(K("a"), K(1))])),
            ("a string", K("x"))]


def values():
    return [("5", K(5)), ("None", NONE), ("an unknown value", Opaque("value")),
            ("an ndarray", Opaque("array", pytype=Ext("numpy.ndarray"),
                                  attrs={"shape": Tup([K(2)]), "ndim": K(1)})),
            ("a string", K("x")), ("a list", AList([K(1)])), ("()", Tup([]))]


@check("C23")
def c23_standins(rep, tier):
    """ The stand-in of a missing library's type. """
    rep.rule("stand-in", "subscripting the stand-in of a missing library's type, and isinstance "
             "with it, raise an ImportError about that library on every path")
    for torch, tensorflow in COMBOS[:3]:
        w = fresh_world(torch, tensorflow, {"on": True, "print_passes": True})
        try:
            w.load("vt_use")
            user = w.load("vt_user")
        except Unsupported as err:
            rep.undecided.append((rep.count, f"{combo_text(torch, tensorflow)}: {err}"))
            continue
        use = w.eng.modules["vt_use"]
        for name, lib in LIBS.items():
            if {"torch": torch, "tensorflow": tensorflow}[lib]:
                continue
            cls = user.scope.vars[name]
            anchor = anchor_text(cls) if isinstance(cls, Cls) else "asta/switchboard.py"
            for how, cases in (("subscript", items()), ("check", values())):
                for text, item in cases:
                    def run(it, how=how, item=item):
                        if isinstance(item, (ADict, AList)):
                            it.alloc(item)
                        return it.call(use.scope.vars[how], [cls, item], {}, None)

                    def judge(out, lib=lib):
                        if out.kind != "raise":
                            return f"gives {out.value!r}"
                        exc = out.value
                        if not out.it.issub(exc.cls, K(ImportError)):
                            return f"raises {errname(out)}"
                        said = {n.split(".")[0] for n in failed_imports(out)}
                        if lib in said or lib in repr(exc.args):
                            return None
                        return f"the ImportError is not about {lib}"

                    label = f"{name}[{text}]" if how == "subscript" else \
                        f"isinstance({text}, {name})"
                    scenario(rep, w, f"{label} ({combo_text(torch, tensorflow)})", "stand-in",
                             anchor, run, judge)
        rep.engine(w.eng)


@check("C23")
def c23_verdicts(rep, tier):
    """ The present types' verdicts with a library missing. """
    rep.rule("verdict", "with a library missing the verdicts of the other types equal those of "
             "their definition (as in C16); never raises")
    for torch, tensorflow in COMBOS[:3]:
        w = World(torch=torch, tensorflow=tensorflow)
        Solver(w)
        w.pin_rules.append(sub_simplify)
        w.pin_rules.append(pin)
        w.get("asta.constants", "NonInstanceType")
        instance_pins(w)
        strangers = [Opaque("stranger", closed=True)]
        w.pin_rules.append(no_instance(strangers + [Opaque(f"v{i}") for i in range(3)]))
        names = ["Array"] + ["Tensor"] * torch + ["TFTensor"] * tensorflow
        for f, name in enumerate(names):
            fam = Family(w, name)
            lib = fam.dtype("lib.dtype")
            dtypes = [("", None, NONE, ""), ("lib dtype", lib, lib, "")]
            for t in (int, float, bool) + ((str, object) if fam.kinds else (bytes,)):
                m = fam.mapped(K(t))
                dtypes.append((t.__name__, K(t), m[0], m[1]))
            odd = [Instance("an object", fam, stranger=strangers[0]),
                   Instance("None", fam, stranger=NONE), Instance("5", fam, stranger=K(5))]
            for d, (dt, dv, dp, kind) in enumerate(dtypes):
                for s, (st, sv, sp) in enumerate(type_cases(fam)):
                    for a, attrs in enumerate((None, "plain", "expr")):
                        if (d + s + a + f) % (4 if tier == "quick" else 1):
                            continue
                        rank = 0 if sv is None else len(sv.items)
                        insts = [Instance(f"rank {r}", fam, r) for r in sorted({rank, rank + 1})]
                        text = ", ".join(x for x in (dt, st, attrs and "{%s}" % attrs or "")
                                         if x)
                        for inst in insts + (odd if a == 0 else []):
                            one_verdict(rep, w, fam, text, dv, sv, attrs,
                                        {"dtype": dp, "kind": kind, "shape": sp}, inst)
        rep.engine(w.eng)


@check("C23")
def c23_calls(rep, tier):
    """ Decorated calls with a library missing. """
    rep.rule("resolution", "with a library missing a decorated call accepts its argument exactly "
             "if the definition of the verdict holds for the resolved annotation (as in C22)")
    rep.rule("joint", "and two arguments exactly if their joint system is solvable")
    patterns = [[], [X], [S], [P], [N0, X], [XP1, DOTS], [DOTS, Q], [nested(X, N0)], [S, X]]
    pairs = [(A_S, A_S), (A_XS, A_S), (A_S, A_AT), (A_SAT, A_T), (A_DS, A_S), (A_N, A_S)]
    for torch, tensorflow in COMBOS[:3]:
        for raising in (True, False):
            cw = CallWorld(raising=raising, passes=True, torch=torch, tensorflow=tensorflow)
            anchor = anchor_text(cw.w.get("asta.decorators", "typechecked"))
            names = ["Array"] + ["Tensor"] * torch + ["TFTensor"] * tensorflow
            for f, name in enumerate(names):
                fam = Family(cw.w, name)
                for n, pattern in enumerate(patterns):
                    if tier == "quick" and (n + f + raising + torch) % 2:
                        continue
                    resolved_calls(rep, cw, fam, pattern, [stores(0), stores(2)], anchor)
                for n, (first, second) in enumerate(pairs):
                    if tier == "quick" and (n + f + raising + torch) % 2:
                        continue
                    joint_call(rep, cw, "joint", "arguments", fam, fam, first, second, anchor)
            rep.engine(cw.w.eng)
