""" The decorator under analysis, with leaf annotations and an abstract solver. """
from .common import *


ENV_SET = Sym("in", K("ASTA_TYPECHECK"), Ext("os.environ"), kind="bool")
ENV_VALUE = Sym("item", Ext("os.environ"), K("ASTA_TYPECHECK"))


def leaf(name):
    """ An annotation whose check is taken as given. """
    return Opaque(name, attrs={"__name__": K(name), "__qualname__": K(name), "_name": K(name),
                               "__module__": K("vt")}, closed=True, truthy=True)


def value(name, **kw):
    """ An arbitrary argument value. """
    return Opaque(name, **kw)


def equation(val, ann):
    return Sym("equation", val, ann, kind="expr")


def matches(val, ann):
    return Sym("matches", val, ann, kind="bool")


def ox_option(it, ox, name):
    return it.truth(it.getattr(ox, name))


class Harness:
    """ A world in which decorated functions can be called. """

    def __init__(self, env=None, leaves=(), program=None, globals_=None, torch=False,
                 tensorflow=False, solver=True, **options):
        options.setdefault("on", True)
        self.w = World(torch=torch, tensorflow=tensorflow, options=options)
        if env is None:
            self.w.pins[ENV_SET] = False
        self.leaves = set(leaves)
        self.strangers = ()
        self.silent = False  # do leaves contribute no constraints?
        self.w.pin_rules.append(self.pin)
        self.typechecked = self.w.get("asta.decorators", "typechecked")
        self.check_annotation = self.w.get("asta.origins", "check_annotation")
        self.w.stub("asta.origins", "check_annotation", self.on_check)
        if solver:
            self.astasolver = self.w.get("asta.utils", "astasolver")
            self.w.stub("asta.utils", "astasolver", self.on_solve)
        if program is not None:
            self.program(program, globals_ or {})

    def pin(self, it, pred):
        """ Leaves are no other known object; strangers are instances of no known class. """
        if pred.op in ("is", "eq") and any(a in self.leaves for a in pred.args if isinstance(a, Opaque)):
            return False
        if pred.op == "isinstance" and pred.args[1] == K(str) and \
                isinstance(pred.args[0], Opaque) and pred.args[0] in self.leaves:
            return False
        if pred.op == "isinstance" and pred.args[0] in self.strangers:
            return pred.args[1] == K(object)
        return None

    def program(self, text, globals_):
        self.w.eng.extra_sources["vt_program"] = text
        self.w.eng.program_globals["vt_program"] = dict(globals_)
        return self.w.load("vt_program")

    def fn(self, name):
        return self.w.eng.modules["vt_program"].scope.vars[name]

    def is_leaf(self, ann):
        return isinstance(ann, Opaque) and ann in self.leaves or ann == NONE and NONE in self.leaves

    def on_check(self, it, fn, args, kwargs, node):
        b = bound(it, fn, args, kwargs, ("name", "value", "annotation", "equations", "ox"))
        ann, val = b["annotation"], b["value"]
        if ann == K(type(None)):
            # The same annotation, spelled otherwise.
            ann = NONE
        if not self.is_leaf(ann):
            return NotImplemented
        ok = it.test(matches(it.freeze(val), ann))
        ev = it.event("check", ann=ann, value=val, ok=ok, before=tuple(b["equations"].content)
                      if isinstance(b["equations"], ASet) else b["equations"], argname=b["name"],
                      ox=b["ox"])
        if not ok:
            raising = ox_option(it, b["ox"], "raise_errors")
            it.event("fail", ann=ann, value=val, raising=raising)
            if raising:
                it.raise_("TypeError", K("leaf mismatch"))
            return b["equations"]
        it.event("pass", ann=ann, value=val)
        eqs = b["equations"]
        if not isinstance(eqs, ASet):
            raise Undecided("the equation set handed to a check is not a known set")
        if self.silent:
            return eqs
        return it.make_set(list(eqs.content) + [equation(it.freeze(val), ann)], node)

    def on_solve(self, it, fn, args, kwargs, node):
        b = bound(it, fn, args, kwargs, ("equations",))
        eqs = b["equations"]
        if not isinstance(eqs, ASet):
            raise Undecided("the equation set handed to the solver is not a known set")
        parts = tuple(sorted((p for p in eqs.content), key=repr))
        ok = self.solvable(it, parts)
        it.event("solve", eqs=parts, ok=ok)
        return Tup([kbool(ok), it.make_set([Opaque("symbols")]), it.alloc(AList([Opaque("solution")] if ok else []))])

    def solvable(self, it, parts):
        if not parts:
            return True
        pred = Sym("solvable", *parts, kind="bool")
        if pred in it.facts:
            return it.facts[pred]
        mine = set(parts)
        for p, v in it.facts.items():
            if p.op == "solvable":
                other = set(p.args)
                if v and mine <= other:
                    return True
                if not v and other <= mine:
                    return False
        return it.test(pred)

    def body(self, name="BODY", ret=None, raises=True, inner=None):
        """ The body of a decorated function: an unknown computation. """
        ret = ret if ret is not None else Opaque(f"{name}.result")

        def call(it, func, args, kwargs, node):
            it.event("body", name=name, args=tuple(args), kwargs=dict(kwargs))
            if inner is not None:
                inner(it)
            if raises and it.choose(2, f"{name} raises") == 1:
                it.factlist.append((Sym("raises", K(name), kind="bool"), True, it.pos))
                it.event("body_raises", name=name)
                from ..core import AbsRaise
                exc = Exc(Ext(f"{name}.Error"), (K("body"),))
                it.event("body_exc", exc=exc)
                raise AbsRaise(exc, it.pos)
            it.event("body_returns", name=name, ret=ret)
            return ret

        return Opaque(name, callable=True, call=call, truthy=True)


def indexed(out, kind, **match):
    return [(i, e) for i, e in enumerate(out.trace)
            if e.kind == kind and all(e.data.get(k) == v for k, v in match.items())]
