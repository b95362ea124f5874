""" Calls over asta annotations are judged one by one (C07). """
from .common import *
from .resolve import (
    A_AT, A_DS, A_N, A_S, A_SAT, A_ST, A_SS, A_T, A_XS, Ann, CallWorld, DOTS, P, Q, S, T, X, XS,
    attempt, fill, judge_call, nested, resolve_static_all, stores, touch,
)
from .shapes import solvable
from .types_ import Family, Instance

A_PS, A_XSE, A_NEST = Ann("P, S", [P, S]), Ann("X + S", [XS]), Ann("(X, S), Q", [nested(X, S), Q])


class Func:
    """ A decorated function: its parameters' annotations and its result's. """

    def __init__(self, form, *anns):
        self.form = form
        self.anns = anns


class Step:
    """ A call (of a function, with fresh values), an isinstance check, or another state. """

    def __init__(self, what, n=0, inner=None):
        self.what = what
        self.n = n
        self.inner = inner      # the number of the function the body calls


def call(n, inner=None):
    return Step("call", n, inner)


def histories(tier):
    """ (text, functions, steps) """
    one, two, ret = Func("one", A_S), Func("two", A_S, A_S), Func("return", A_S, A_S)
    state, check = Step("state", 2), Step("isinstance")
    out = [
        ("a call and again", [one], [call(0), call(0)]),
        ("three calls", [one], [call(0), call(0), call(0)]),
        ("two arguments, again", [two], [call(0), call(0)]),
        ("argument and result, again", [ret], [call(0), call(0)]),
        ("one annotation, two functions", [one, Func("one", A_S)], [call(0), call(1)]),
        ("different annotations, one symbol", [one, Func("one", A_XS)], [call(0), call(1), call(0)]),
        ("isinstance between", [one], [call(0), check, call(0)]),
        ("decorated again", [one], [call(0), Step("again", 0), call(0)]),
        ("a nested call", [ret, Func("one", A_S)], [call(0, 1)]),
        ("a nested call of another shape", [ret, Func("one", A_ST)], [call(0, 1)]),
        ("nested, then again", [ret, Func("one", A_S)], [call(0, 1), call(1)]),
        ("another dimension", [Func("one", A_XS)], [call(0), state, call(0)]),
        ("another shape", [Func("one", A_PS)], [call(0), state, call(0)]),
        ("another dimension in an expression", [Func("one", A_XSE)], [call(0), state, call(0)]),
        ("another dimension, nested shape", [Func("one", A_NEST)], [call(0), state, call(0)]),
        ("another dimension, two functions", [Func("one", A_XS), Func("one", A_XS)],
         [call(0), state, call(1)]),
        ("attributes", [Func("one", A_SAT)], [call(0), call(0)]),
        ("attributes and shapes", [Func("one", A_AT), one], [call(0), call(1), call(0)]),
        ("a list, again", [Func("list", A_S)], [call(0), call(0)]),
        ("a tuple, again", [Func("tuple", A_S, A_T)], [call(0), call(0)]),
        ("a tuple and its parts", [Func("tuple", A_S, A_T), one], [call(0), call(1)]),
        ("ellipsis", [Func("one", A_DS), one], [call(0), call(1)]),
        ("repeated symbol", [Func("one", A_SS), one], [call(0), call(1), call(0)]),
        ("a union, again", [Func("union", A_S, A_ST)], [call(0), call(0)]),
        ("a union, then a part", [Func("union", A_ST, A_S), one], [call(0), call(1)]),
    ]
    if tier != "quick":
        anns = [A_S, A_ST, A_XS, A_SAT, A_AT, A_DS, A_SS, A_PS, A_XSE, A_N]
        for a in anns:
            for b in anns:
                out.append((f"{a.text} then {b.text}", [Func("one", a), Func("one", b)],
                            [call(0), call(1), call(0)]))
                out.append((f"{a.text} around {b.text}", [Func("return", a, a), Func("one", b)],
                            [call(0, 1)]))
    return out


def rank_for(ann, n):
    """ A matching rank. """
    if ann.items is None:
        return 1
    rank = len(resolve_static_all(ann.items, stores(n)))
    return rank + 1 if DOTS in ann.items else rank


@check("C07")
def c07_asta(rep, tier):
    """ Histories of calls over asta annotations, each call against its own definition. """
    rep.rule("C07.alone", "in each history of calls sharing symbols, annotations and stores, "
             "with calls failing, nested calls, isinstance checks and changed stores between: "
             "each call is accepted exactly if the joint system of its own arguments and result, "
             "under the stores of that time, is solvable")
    for raising in (True, False):
        cw = CallWorld(raising=raising, passes=False)
        fams = [Family(cw.w, n) for n in ("Array", "Tensor", "TFTensor")]
        anchor = anchor_text(cw.w.get("asta.decorators", "typechecked"))
        for n, (text, funcs, steps) in enumerate(histories(tier)):
            for f, fam in enumerate(fams):
                if tier == "quick" and (n + f + raising) % 3:
                    continue
                one_history(rep, cw, fam, f"{fam.name}: {text}, raise-errors={raising}", funcs,
                            steps, anchor)
        rep.engine(cw.w.eng)


def one_history(rep, cw, fam, text, funcs, steps, anchor):
    w = cw.w

    def values(func, tag, state):
        """ Fresh values for the parameters, the argument list, the result. """
        if func.form == "union":
            # A rank which the first alternative does not have.
            insts = [Instance("", fam, rank_for(func.anns[-1], state), tag=tag)]
        else:
            anns = [func.anns[0], func.anns[0]] if func.form == "list" else func.anns
            insts = [Instance("", fam, rank_for(a, state), tag=f"{tag}{i}")
                     for i, a in enumerate(anns)]
        return insts

    def run(it):
        state = 0
        touch(w, it, stores(0))
        body = {}
        inner_done = []

        def make(n):
            func = funcs[n]
            anns = [a.make(cw, it, fam) for a in func.anns]
            body[n] = Opaque(f"body{n}", callable=True, truthy=True,
                             call=lambda it, f, a, k, node, n=n: run_body(it, n, a))
            if func.form == "one":
                return it.call(cw.fn("make"), [anns[0], body[n]], {}, None)
            if func.form == "two":
                return it.call(cw.fn("make_two"), [anns[0], anns[1], body[n]], {}, None)
            if func.form == "return":
                return it.call(cw.fn("make_return"), [anns[0], anns[1], body[n]], {}, None)
            kind = {"list": "listed", "tuple": "paired", "union": "either"}[func.form]
            ann = it.call(cw.fn(kind), anns, {}, None)
            return it.call(cw.fn("make"), [ann, body[n]], {}, None)

        todo = {}

        def run_body(it, n, args):
            it.event("body", args=tuple(args), n=n)
            inner, result = todo.get(n, (None, None))
            if inner is not None:
                todo.pop(n)
                one_call(it, inner, None, "i")
                if result is not None:
                    return result
            return result if result is not None else Opaque(f"result{n}")

        results = []

        def one_call(it, n, inner, tag):
            func = funcs[n]
            insts = values(func, tag, state)
            vals = [i.value for i in insts]
            if func.form == "return":
                args, res = vals[:1], vals[1]
            elif func.form == "list":
                args, res = [it.alloc(AList(vals))], None
            elif func.form == "tuple":
                args, res = [Tup(vals)], None
            else:
                args, res = vals, None
            todo[n] = (inner, res)
            exc, _, events = attempt(it, made[n], args)
            mine = [e for e in events if e.kind != "body" or e.n == n]
            # What the inner call printed is its own.
            spans = [r["events"] for r in results if r["tag"] == "i"]
            for s in spans:
                if s and events and s[0] in events:
                    mine = [e for e in mine if e not in s]
            results.append({"n": n, "insts": insts, "state": state, "exc": exc, "events": mine,
                            "tag": tag})

        made = [make(n) for n in range(len(funcs))]
        fill(w, it, stores(state))
        for k, step in enumerate(steps):
            if step.what == "call":
                one_call(it, step.n, step.inner, f"c{k}")
            elif step.what == "state":
                state = step.n
                fill(w, it, stores(state))
            elif step.what == "again":
                made[step.n] = make(step.n)
            else:
                cls = A_S.make(cw, it, fam)
                it.truth(it.isinstance(Instance("", fam, 1, tag=f"c{k}").value, cls))
        it.event("history", results=list(results))
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)}"
        it = out.it
        for k, r in enumerate(out.events("history")[-1].results):
            msg = judge_one(it, cw, fam, funcs[r["n"]], r)
            if msg:
                which = "the nested call" if r["tag"] == "i" else f"call {k + 1}"
                return f"{which}: {msg}"
        return None

    compared(rep, w, text, "C07.alone", anchor, run, judge)


def judge_one(it, cw, fam, func, r):
    store = stores(r["state"])
    insts = r["insts"]
    if func.form == "union":
        systems = [a.system(cw, it, fam, insts[0], store) for a in func.anns]
        if any(s is None for s in systems):
            return None
        return judge_call(it, cw, r["exc"], r["events"],
                          any(s is not False and solvable(it, s) for s in systems))
    anns = [func.anns[0], func.anns[0]] if func.form == "list" else func.anns
    systems = [a.system(cw, it, fam, i, store) for a, i in zip(anns, insts)]
    if func.form == "list" and not it.truth(it.getattr(cw.w.ox, "check_all_sequence_elements")):
        systems = systems[:1]
    if any(s is None for s in systems):
        return None
    good = [s is not False and solvable(it, s) for s in systems]
    matched = [s for s, g in zip(systems, good) if g]
    total = solvable(it, frozenset().union(*matched)) if matched else True
    if func.form == "return":
        ran = sum(1 for e in r["events"] if e.kind == "body")
        if ran != (1 if good[0] or not cw.raising else 0):
            return f"the body ran {ran} times"
        if ran and cw.raising:
            fine = all(good) and total
            if r["exc"] is not None:
                if not is_type_error(Outcome("raise", r["exc"], it)):
                    return "raises something else"
                return "the result is rejected" if fine else None
            return None if fine else "the result is handed over"
    return judge_call(it, cw, r["exc"], r["events"], all(good) and total)
