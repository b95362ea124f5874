""" Toggling, classes, reports, and the effects of checks: C04, C05, C07, C09, C25. """
from ..core import AbsRaise
from .harness import *
from . import wrapper

A, B, C, R, E = wrapper.A, wrapper.B, wrapper.C, wrapper.R, wrapper.E
x, y, z, u, v, SELF = (value(n) for n in ("x", "y", "z", "u", "v", "obj"))

ENV_ON = Sym("eq", ENV_VALUE, K("1"), kind="bool")
ON = Sym("truth", Opaque("config.on"), kind="bool")


# -- C09: reports --------------------------------------------------------------


def reporters(mod):
    """ The functions of a module which report failures or passes. """
    out = []
    for name, fn in mod.scope.vars.items():
        if isinstance(fn, Fn) and fn.module == mod.name:
            params = [a.arg for a in fn.node.args.args]
            if "ox" in params and name.split("_")[0] in ("fail", "pass", "handle"):
                out.append((name, fn, params))
    return out


def report_args(fn, params, ox):
    args = []
    for a in fn.node.args.args:
        ann = a.annotation
        text = getattr(ann, "id", "")
        if a.arg == "ox":
            args.append(ox)
        elif a.arg in ("solutions", "options"):
            args.append(AList([Opaque("s1"), Opaque("s2")]))
        elif a.arg in ("equations", "symbols"):
            args.append(ASet([Opaque("q1"), Opaque("q2")]))
        elif text == "str":
            args.append(Opaque(a.arg, kind="str", pytype=K(str)))
        elif text == "int":
            args.append(Opaque(a.arg, kind="int", pytype=K(int)))
        else:
            args.append(Opaque(a.arg))
    return args


def texts(val):
    for t in subterms(val):
        if isinstance(t, K) and isinstance(t.v, str):
            yield t.v


@check("C09")
def c09(rep, tier):
    rep.rule("C09.fail", "every failure report (each function fail_* of asta.display and the "
             "error funnel), for any message parts: with raise-errors on each path raises a "
             "TypeError carrying a message built from its arguments and prints no failure; "
             "with it off each path prints that message and returns")
    rep.rule("C09.pass", "every pass report prints its message if and only if print-passes is "
             "on, and never raises")
    rep.rule("C09.funnel", "no check function raises a TypeError of its own for a mismatch: "
             "with raise-errors off nothing raises (decided with C10)")
    base = World(options={})
    base.get("asta.display", "handle_error")
    names = [n for n, _, _ in reporters(base.eng.modules["asta.display"])]
    if not any(n.startswith("fail_") for n in names):
        raise Anchor("no failure reports found in asta.display")
    for raising in (True, False):
        for passes in (True, False):
            for decorated in (True, False):
                w = World(options={"raise_errors": raising, "print_passes": passes, "on": True})
                w.get("asta.display", "handle_error")
                if decorated:
                    w.eng.extra_sources["vt_program"] = "def vt_function(a):\n    return a\n"
                    prog = w.load("vt_program")
                    fn0 = prog.scope.vars["vt_function"]
                else:
                    fn0 = None
                for name, fn, params in reporters(w.eng.modules["asta.display"]):
                    for again in (False, True):
                        one_report(rep, w, name, fn, params, fn0, raising, passes, again)
                rep.engine(w.eng)


def one_report(rep, w, name, fn, params, fn0, raising, passes, again=False):
    label = f"{name}, raise-errors={raising}, print-passes={passes}, " \
        f"{'in a call' if fn0 else 'outside calls'}{', for the second time' if again else ''}"

    def run(it):
        if fn0 is not None:
            it.setattr(w.ox, "decorated", fn0)
        args = report_args(fn, params, w.ox)
        it.event("begin", args=args)
        if again:
            try:
                it.call(fn, args, {})
            except AbsRaise:
                pass
            it.event("again")
        return it.call(fn, args, {})

    is_pass = name.split("_")[0] == "pass" or name == "handle_pass"

    def judge(out):
        args = [e for e in out.trace if e.kind == "begin"][0].args
        parts = [a for a in args if a is not w.ox]
        prints = [e for e in out.trace if e.kind == "print"]
        heads = [e for e in prints if any("asta::" in t for a in e.args for t in texts(a))]
        told = [e for e in prints if e not in heads]
        if again:
            since = max(i for i, e in enumerate(out.trace) if e.kind == "again")
            told = [e for e in told if any(e is t for t in out.trace[since:])]
        if is_pass:
            if out.kind != "return":
                return f"a pass report raises {errname(out)}"
            if passes and len(told) != 1:
                return f"print-passes is on but {len(told)} messages are printed"
            if not passes and prints:
                return "print-passes is off but something is printed"
            return None
        if raising:
            if out.kind != "raise":
                return "raise-errors is on but nothing is raised"
            if not is_type_error(out):
                return f"the failure raises {errname(out)} instead of TypeError"
            if not out.value.args or out.value.args[0] in (NONE, K("")):
                return "the TypeError carries no message"
            if told:
                return "the failure is printed besides being raised"
            msg = out.value.args[0]
        else:
            if out.kind != "return":
                return f"raise-errors is off but {errname(out)} is raised"
            if len(told) != 1 or not told[0].args or told[0].args[0] in (NONE, K("")):
                return f"{len(told)} messages are printed for one failure"
            msg = told[0].args[0]
        atoms = [p for p in parts if isinstance(p, Opaque)]
        if atoms and not any(mentions(msg, p) for p in atoms):
            return "the message says nothing of what failed"
        if fn0 is not None and not passes and not heads:
            return "no header names the function whose check failed"
        return None

    scenario(rep, w, label, "C09.pass" if is_pass else "C09.fail", fn, run, judge)


# -- C04: toggling --------------------------------------------------------------


TOGGLE = '''
def function(a: A) -> R:
    return BODY(a)

class Klass:
    attr = 3

    def method(self, a: A) -> R:
        return BODY(self, a)

    @classmethod
    def klass(cls, a: A) -> R:
        return BODY(cls, a)

    @staticmethod
    def static(a: A) -> R:
        return BODY(a)
'''


def says_on(facts, pinned):
    """ What configuration and environment say (None: the path did not ask). """
    on = pinned if pinned is not None else facts.get(ON)
    is_set = facts.get(ENV_SET)
    env = True if is_set is False else facts.get(ENV_ON) if is_set else None
    if on is False or env is False:
        return False
    if on and env:
        return True
    return None


def writes(out, since=0, until=None):
    """ Writes to objects which existed at the event ``since``. """
    start = None
    res = []
    for i, e in enumerate(out.trace):
        if e.kind == "begin" and start is None:
            start = e.serial
        if start is None or e.kind not in ("write", "mutate"):
            continue
        t = e.target
        if isinstance(t, Obj) and t.birth > start or isinstance(t, Scope) and \
                getattr(t, "birth", 0) > start:
            continue
        res.append(e)
    return res


def begin(it):
    it.event("begin", serial=Obj().birth)


def forget_env(it):
    """ The environment changes. """
    for p in list(it.facts):
        if p == ENV_SET or mentions(p, ENV_VALUE) or mentions(p, Ext("os.environ")):
            del it.facts[p]


class Pins:
    def __init__(self, w):
        self.w = w

    def set(self, it, env):
        """ env: None (unset), True ("1"), False (another value). """
        forget_env(it)
        self.w.pins[ENV_SET] = env is not None
        self.w.pins[ENV_ON] = bool(env)


@check("C04")
def c04(rep, tier):
    rep.rule("C04.off", "on every path on which configuration or environment says off, the "
             "decorator returns the object it was given and writes nothing to it, its "
             "attributes, or the configuration")
    rep.rule("C04.on", "on every path on which both say on, a decorated function is checked "
             "when called")
    rep.rule("C04.history", "a later decoration obeys the environment at that time, whatever "
             "earlier decorations and imports saw; importing writes nothing to the "
             "configuration")
    w_opts = {"raise_errors": True, "print_passes": False}
    for on in (None, True, False):
        opts = dict(w_opts)
        h = Harness(env="free", leaves=[A, R], on=on if on is not None else False, **opts)
        if on is None:
            setup_option(h.w, "on")
        h.ret = Opaque("result")
        h.program(TOGGLE, {"A": A, "R": R, "BODY": h.body(ret=h.ret, raises=False)})
        for target in ("function", "Klass"):
            def run(it, target=target):
                begin(it)
                g = it.call(h.typechecked, [h.fn(target)], {})
                it.event("decorated", res=g)
                if target == "function":
                    return it.call(g, [x], {})
                return g

            def judge(out, target=target, on=on):
                done = [(i, e) for i, e in indexed(out, "decorated")]
                if not done:
                    return f"decorating ends with {errname(out)}"
                i, ev = done[0]
                said = says_on(out.facts, on)
                same = ev.res is h.fn(target)
                before = [e for e in writes(out) if out.trace.index(e) < i]
                if said is False:
                    if not same:
                        return "checking is off but something else than the original is returned"
                    if before:
                        return f"checking is off but {before[0].target!r} is written"
                    if indexed(out, "check"):
                        return "checking is off but a call is checked"
                    return None
                if said is None:
                    if not same and target == "function":
                        return ("the function is replaced on a path on which configuration and "
                                "environment were not found to say on")
                    if target == "function" and same:
                        return "the original is returned although nothing was found to say off"
                    return None
                if target == "function" and not indexed(out, "check", ann=A):
                    return "checking is on but a call is not checked"
                if any(e.target is h.w.ox or e.target == h.w.ox for e in before):
                    return "decorating writes to the configuration"
                return None

            scenario(rep, h.w, f"decorating a {target.lower()}, on={on}", "C04.off", h.typechecked,
                     run, judge, min_paths=1 if on is False else 2)
        rep.engine(h.w.eng)

    # Histories.
    histories = [(a, b) for a in (None, True, False) for b in (None, True, False)]
    if tier == "thorough":
        histories += [(a, b, c) for a, b in histories[:9] for c in (None, True, False)]
    for target in ("function", "Klass"):
        for hist in histories:
            h = Harness(env="free", leaves=[A, R], on=True, **w_opts)
            h.program(TOGGLE, {"A": A, "R": R, "BODY": h.body(raises=False)})
            pins = Pins(h.w)

            def run(it, hist=hist, target=target, pins=pins, h=h):
                res = NONE
                for env in hist[:-1]:
                    pins.set(it, env)
                    it.call(h.typechecked, [h.fn("function")], {})
                pins.set(it, hist[-1])
                begin(it)
                g = it.call(h.typechecked, [h.fn(target)], {})
                it.event("decorated", res=g)
                f = g if target == "function" else it.getattr(g, "static")
                return it.call(f, [x], {})

            def judge(out, hist=hist, target=target, h=h):
                checked = bool(indexed(out, "check", ann=A))
                want = hist[-1] is not False
                if want != checked:
                    return (f"environments {hist}: the last decoration is "
                            f"{'checked' if checked else 'not checked'}")
                return None
            scenario(rep, h.w, f"{target} decorated under {hist}", "C04.history", h.typechecked,
                     run, judge)
            rep.engine(h.w.eng)

    # Import.
    for env in (None, True, False):
        for on in (True, False):
            w = World(options={"on": on, "raise_errors": True, "print_passes": False},
                      torch=False, tensorflow=False)
            typechecked = w.get("asta.decorators", "typechecked")
            pins = Pins(w)

            def run(it, env=env, pins=pins, w=w):
                pins.set(it, env)
                begin(it)
                it.load("asta.warning")
                return it.truth(it.getattr(w.ox, "on"))

            def judge(out, on=on, w=w):
                if out.kind != "return":
                    return f"importing ends with {errname(out)}"
                if out.value is not on:
                    return f"importing turns the configuration's on from {on} to {out.value}"
                for e in writes(out):
                    if e.target == w.ox or mentions_obj(e.target, w.ox):
                        return "importing writes to the configuration"
                return None
            if "asta.warning" in w.present():
                scenario(rep, w, f"import under environment {env}, on={on}", "C04.history",
                         "asta/warning.py", run, judge)
            rep.engine(w.eng)


def setup_option(w, name):
    """ Make an option unknown. """
    val = Opaque(f"config.{name}", kind="bool", pytype=K(bool))
    w.eng.setup(lambda it: it.raw_set(w.ox, name, val))


def mentions_obj(t, obj):
    settings = obj.attrs.get("settings")
    return t is obj or t is settings


# -- C05: classes ----------------------------------------------------------------


CLASSES = '''
def outside(self, a: A) -> R:
    return BODY(self, a)

class Base:
    def inherited(self, a: A) -> R:
        return BODY(self, a)

class Klass(Base):
    number = 3
    table = {}
    noted: A = 5

    def __init__(self, a: A):
        self.kept = BODY(self, a)

    def method(self, a: A) -> R:
        return BODY(self, a)

    def plain(self, a):
        return BODY(self, a)

    @classmethod
    def klass(cls, a: A) -> R:
        return BODY(cls, a)

    @classmethod
    def plain_klass(cls, a):
        return BODY(cls, a)

    @staticmethod
    def static(a: A) -> R:
        return BODY(a)

    @staticmethod
    def plain_static(a):
        return BODY(a)

    @property
    def prop(self) -> R:
        return BODY(self)

    lam = lambda self, a: a

    def only_return(self) -> R:
        return BODY(self)

    renamed = only_return

    @staticmethod
    def static_return() -> R:
        return BODY()

    @classmethod
    def klass_return(cls) -> R:
        return BODY(cls)

    def second(self, b: B, *, a: A) -> R:
        return BODY(self, b, a)

    def _private(self, a: A) -> R:
        return BODY(self, a)

    def __call__(self, a: A) -> R:
        return BODY(self, a)

    @staticmethod
    def last(a: A) -> R:
        return BODY(a)

class Reordered:
    @staticmethod
    def static(a: A) -> R:
        return BODY(a)

    @classmethod
    def klass(cls, a: A) -> R:
        return BODY(cls, a)

    plain = 4

    def method(self, a: A) -> R:
        return BODY(self, a)

class OnlyPlain:
    def plain(self, a):
        return BODY(self, a)

class Again:
    @staticmethod
    @DECORATE
    def static(a: A) -> R:
        return BODY(a)

    @classmethod
    @DECORATE
    def klass(cls, a: A) -> R:
        return BODY(cls, a)

    @DECORATE
    def method(self, a: A) -> R:
        return BODY(self, a)

    @staticmethod
    @DECORATE
    def static_return() -> R:
        return BODY()

class Outer:
    class Inner:
        def method(self, a: A) -> R:
            return BODY(self, a)

    def method(self, a: A) -> R:
        return BODY(self, a)
'''


def describe_attr(val):
    if isinstance(val, Wrap):
        return val.which
    return "function" if isinstance(val, (Fn, Native)) else "other"


@check("C05")
def c05(rep, tier):
    rep.rule("C05.each", "after decorating a class: the same class is returned; each annotated "
             "function, class method and static method of its body is replaced by one of the "
             "same kind whose call checks its argument with the value passed and runs the "
             "original with it; each other attribute is the object it was; nothing is added, "
             "removed, or written outside the class")
    opts = {"raise_errors": True, "print_passes": False}
    for cname, members in (
            ("Klass", {"__init__": 1, "method": 1, "klass": 1, "static": 1, "only_return": 1,
                       "renamed": 1, "static_return": 1, "klass_return": 1,
                       "second": 1, "_private": 1, "__call__": 1, "last": 1,
                       "plain": 0, "plain_klass": 0, "plain_static": 0, "number": 0,
                       "table": 0, "prop": 0, "lam": 0, "noted": 0}),
            ("Reordered", {"static": 1, "klass": 1, "method": 1, "plain": 0}),
            ("OnlyPlain", {"plain": 0}),
            # Already decorated: whether they are wrapped once more is left open.
            ("Again", {"static": None, "klass": None, "method": None, "static_return": None}),
            ("Outer", {"method": 1})):
        h = Harness(leaves=[A, B, R], on=True, **opts)
        h.program(CLASSES, {"A": A, "B": B, "R": R, "DECORATE": h.typechecked, "BODY": h.body(ret=Opaque("ret"), raises=False)})
        cls = h.fn(cname)
        before = dict(cls.attrs)
        kinds = {k: describe_attr(a) for k, a in before.items()}
        bases = {b: dict(b.attrs) for b in (h.fn("Base"),)}

        def run(it, cls=cls):
            begin(it)
            res = it.call(h.typechecked, [cls], {})
            it.event("after", res=res, attrs=dict(cls.attrs))
            return res

        def judge(out, cls=cls, before=before, kinds=kinds, members=members, bases=bases):
            if out.kind != "return":
                return f"decorating the class ends with {errname(out)}"
            if out.value is not cls:
                return "another object than the class is returned"
            after = [e for _, e in indexed(out, "after")][0].attrs
            if set(after) != set(before):
                return f"attributes {sorted(set(after) ^ set(before))} are added or removed"
            for name, changed in members.items():
                same = after[name] is before[name] or after[name] == before[name]
                if changed and same:
                    return f"{name} is not decorated"
                if changed == 0 and not same:
                    return f"{name} is replaced"
                if changed != 0 and describe_attr(after[name]) != kinds[name]:
                    return f"the {kinds[name]} {name} becomes a {describe_attr(after[name])}"
            for e in writes(out):
                if e.target is not cls:
                    return f"{e.target!r} is written"
            return None

        scenario(rep, h.w, f"class {cname}", "C05.each", h.typechecked, run, judge)

        for name, changed in members.items():
            if name in ("number", "table", "lam", "noted", "prop"):
                continue
            raw = before[name]
            kind = describe_attr(raw)
            if kind == "other":
                continue
            kw = {}
            args = [] if name == "renamed" or name.endswith("_return") else [x]
            if name == "second":
                kw = {"a": y}
            for via in ("class", "instance"):
                if name == "__init__" and via == "class":
                    continue

                def run(it, cls=cls, name=name, kind=kind, via=via, args=args, kw=kw):
                    it.call(h.typechecked, [cls], {})
                    obj = it.alloc(Inst(cls))
                    it.event("use", obj=obj)
                    if via == "instance" or kind == "function":
                        if via == "instance":
                            f = it.getattr(obj, name)
                            return it.call(f, list(args), dict(kw))
                        f = it.getattr(cls, name)
                        return it.call(f, [obj] + list(args), dict(kw))
                    f = it.getattr(cls, name)
                    return it.call(f, list(args), dict(kw))

                def judge(out, cls=cls, name=name, kind=kind, changed=changed, args=args, kw=kw):
                    use = [i for i, _ in indexed(out, "use")]
                    if not use:
                        return f"decorating the class ends with {errname(out)}"
                    obj = [e for _, e in indexed(out, "use")][0].obj
                    if out.kind == "raise" and not reason(out):
                        return f"{name} raises {errname(out)} although every check passes"
                    body = [e for _, e in indexed(out, "body")]
                    first = {"function": obj, "classmethod": cls}.get(kind)
                    want = ([first] if first is not None else []) + list(args) + list(kw.values())
                    if body and (len(body) != 1 or list(body[0].args) != want):
                        return f"the original {name} is run with {body[0].args}"
                    if not body and not reason(out):
                        return f"the original {name} is not run"
                    checks = [(e.value, e.ann) for _, e in indexed(out, "check")]
                    if changed != 0:
                        wanted = []
                        if name == "second":
                            wanted = [(x, B), (y, A)]
                        elif args:
                            wanted = [(x, A)]
                        if body:
                            for p in wanted:
                                if p not in checks:
                                    return f"{name} runs without {p[0]!r} checked against {p[1]!r}"
                            if out.kind == "return" and name != "__init__" and \
                                    not any(a == R for _, a in checks):
                                return f"the result of {name} is not checked"
                    elif checks:
                        return f"{name} has no annotations but is checked"
                    return None

                scenario(rep, h.w, f"{cname}.{name} by the {via}", "C05.each", h.typechecked, run,
                         judge)
        rep.engine(h.w.eng)


def reason(out):
    return [e for _, e in indexed(out, "fail")] or [e for _, e in indexed(out, "solve", ok=False)]


# -- C07: independence ------------------------------------------------------------


PAIR = '''
def first(a: A, b: B) -> R:
    return FIRST(a, b)

def second(c: C) -> E:
    return SECOND(c)
'''

OWN = {"first": {x: A, y: B, Opaque("FIRST.result"): R, u: A, v: B},
       "second": {z: C, Opaque("SECOND.result"): E}}


def calls_of(out):
    """ The solve events with the stack of calls open at that time. """
    stack = []
    for e in out.trace:
        if e.kind == "enter":
            stack.append(e)
        elif e.kind == "leave":
            stack.pop()
        elif e.kind in ("solve", "check"):
            yield e, (stack[-1] if stack else None)


@check("C07")
def c07(rep, tier):
    rep.rule("C07.own", "over sequences and nestings of calls, with any of them failing: the "
             "equations handed to each solver call, and those each check starts from, are "
             "those of the call's own arguments and result")
    sequences = [
        [("first", [x, y])], [("first", [x, y]), ("first", [u, v])],
        [("first", [x, y]), ("second", [z])], [("second", [z]), ("first", [x, y])],
        [("first", [x, y]), ("second", [z]), ("first", [u, v])],
        [("second", [z]), ("second", [z])],
    ]
    for fname, args, kwargs, pairs, _, _ in wrapper.CALLS:
        if len(pairs) <= (7 if tier == "thorough" else 3):
            again(rep, fname, args, kwargs, pairs)
    for raising in (True, False):
        for nested in (False, True, "itself"):
            for redecorate in ((False, True) if not nested else (False,)):
                for seq in sequences if not nested else [[("first", [x, y])],
                                                         [("first", [x, y]), ("second", [z])]]:
                    history(rep, raising, nested, redecorate, seq)


def again(rep, fname, args, kwargs, pairs):
    """ A second call of the same function is checked like the first. """
    h = wrapper.harness(raise_errors=False, print_passes=False)

    def run(it):
        g = it.call(h.typechecked, [h.fn(fname)], {})
        for n in (1, 2):
            it.event("enter", n=n)
            try:
                it.call(g, list(args), dict(kwargs))
            except AbsRaise as err:
                if not any(e.kind == "body_exc" and e.exc is err.exc for e in it.trace):
                    raise
            it.event("leave", n=n)
        return NONE

    def judge(out):
        if out.kind != "return":
            return f"a call ends with {errname(out)}"
        want = [(v, a) for v, a in pairs]
        own = {equation(*p) for p in pairs}
        own.add(equation(h.ret, wrapper.RETURNS.get(fname, R)))
        for e, call in calls_of(out):
            if e.kind == "check":
                if e.value != h.ret and (e.value, e.ann) not in want:
                    return f"call {call.n} checks {e.value!r} against {e.ann!r}"
            got = set(e.eqs if e.kind == "solve" else e.before)
            if got - own:
                return f"call {call.n} is given {got - own} of another call"
        if len(indexed(out, "body")) != 2:
            return f"two calls run the body {len(indexed(out, 'body'))} times"
        at = [i for i, _ in indexed(out, "enter")][1]
        for p in want:
            if not any(i > at and (e.value, e.ann) == p for i, e in indexed(out, "check")):
                return f"the second call does not check {p[0]!r} against {p[1]!r}"
        return None

    scenario(rep, h.w, f"{wrapper.label(fname, args, kwargs)} twice", "C07.own", h.typechecked, run,
             judge, min_paths=2)
    rep.engine(h.w.eng)


def history(rep, raising, nested, redecorate, seq):
    h = Harness(leaves=[A, B, C, R, E], raise_errors=raising, print_passes=False)
    state = {}

    def invoke(it, name, args):
        it.event("enter", name=name, args=tuple(args))
        try:
            it.call(state[name], list(args), {})
        except AbsRaise as err:
            if not it.exc_matches(err.exc, K(Exception)):
                raise
        it.event("leave", name=name)

    def inner(it):
        if nested == "itself":
            if not any(e.kind == "enter" and e.args == (u, v) for e in it.trace):
                invoke(it, "first", [u, v])
            return
        invoke(it, "second", [z])

    h.program(PAIR, {"A": A, "B": B, "C": C, "R": R, "E": E,
                     "FIRST": h.body("FIRST", raises=False, inner=inner if nested else None),
                     "SECOND": h.body("SECOND", raises=False)})

    def run(it):
        for name in ("first", "second"):
            state[name] = it.call(h.typechecked, [h.fn(name)], {})
        for name, args in seq:
            if redecorate:
                state[name] = it.call(h.typechecked, [h.fn(name)], {})
            invoke(it, name, args)
        return NONE

    def judge(out):
        for e, call in calls_of(out):
            if call is None:
                return "a check is made outside every call"
            own = {equation(a, OWN[call.name][a]) for a in call.args}
            own.add(equation(Opaque("FIRST.result" if call.name == "first" else "SECOND.result"),
                             R if call.name == "first" else E))
            got = set(e.eqs if e.kind == "solve" else e.before)
            if got - own:
                what = "the solver" if e.kind == "solve" else "a check"
                return f"in {call.name}{call.args}, {what} is given {got - own} of another call"
        return None

    scenario(rep, h.w, f"{' then '.join(n for n, _ in seq)}, nested={nested}, "
             f"decorated again={redecorate}, raise-errors={raising}", "C07.own", h.typechecked, run,
             judge, min_paths=2)
    rep.engine(h.w.eng)
