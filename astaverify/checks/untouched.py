""" What checks may write to: nothing they were given (C25). """
import inspect as _inspect

from .containers import all_cases, harness, union_cases, E0
from .harness import *
from .resolve import (
    A_AT, A_DS, A_S, A_SAT, A_XS, CallWorld, annotate, attempt, fill, patterns, rank_of, stores, touch,
)
from .types_ import Family, Instance, attrs_dict, make_world, no_instance, instance_pins, type_cases
from ..core import AbsRaise

# Methods by which a checked value would be changed, and functions which change an argument.
CHANGING = {
    "sort", "fill", "resize", "put", "itemset", "setflags", "partition", "byteswap", "setfield",
    "append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault",
    "add", "discard", "reverse", "assign", "assign_add", "assign_sub", "set_shape", "squeeze_",
    "send", "close", "throw", "__setitem__", "__delitem__", "__setattr__", "__delattr__",
    "__setstate__", "__next__", "write", "seek", "read", "readline",
}
CHANGERS = {
    "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0,
    "numpy.fill_diagonal": 0, "numpy.put_along_axis": 0, "random.shuffle": 0,
    "numpy.random.shuffle": 0, "heapq.heapify": 0, "next": 0,
}


class Roots:
    """ Everything that can be reached from what a check is given. """

    def __init__(self, named):
        self.kept = {}      # object -> (what it belongs to, contents)
        self.terms = {}     # unknown objects
        for what, val in named:
            self.walk(val, what)

    def walk(self, val, what):
        if val is None or isinstance(val, (K, Ext)):
            return
        if isinstance(val, Obj):
            if val in self.kept:
                return
            if isinstance(val, (AList, ASet, ADict)):
                self.kept[val] = (what, tuple(val.content))
                for e in val.content:
                    for part in e if isinstance(e, tuple) else (e,):
                        self.walk(part, what)
                return
            attrs = getattr(val, "attrs", None)
            if attrs is None:
                return
            self.kept[val] = (what, dict(attrs))
            if isinstance(val, Fn):
                for part in attrs.values():
                    self.walk(part, what)
                return
            for part in attrs.values():
                if not isinstance(part, (Fn, Wrap)):
                    self.walk(part, what)
            if isinstance(val, Cls):
                for base in val.bases:
                    self.walk(base, what)
            elif isinstance(val, Inst):
                self.walk(val.cls, what)
            return
        if isinstance(val, Tup):
            for part in val.items:
                self.walk(part, what)
            return
        if isinstance(val, (Opaque, Sym)):
            if val in self.terms:
                return
            self.terms[val] = what
            if isinstance(val, Sym):
                for part in val.args:
                    if isinstance(part, Val):
                        self.walk(part, what)
            elif val.attrs:
                for part in val.attrs.values():
                    if isinstance(part, Val):
                        self.walk(part, what)

    def owner(self, val):
        """ What an object belongs to. """
        if isinstance(val, Obj):
            return self.kept.get(val, (None,))[0]
        if isinstance(val, (Opaque, Sym)):
            if val in self.terms:
                return self.terms[val]
            if isinstance(val, Sym) and val.op in ("attr", "item", "elem", "val", "key") and \
                    isinstance(val.args[0], Val):
                return self.owner(val.args[0])
        return None


def changed(it, events, roots, ox):
    """ What was done to the things a check was given (None: nothing). """
    for e in events:
        if e.kind in ("write", "mutate"):
            msg = write_of(it, e, roots, ox)
        elif e.kind == "call":
            msg = call_of(e, roots)
        elif e.kind == "iter":
            what = roots.owner(e.term)
            msg = None
            if what and isinstance(e.term, Opaque) and e.term.attrs and \
                    "__next__" in e.term.attrs:
                msg = f"the elements of {what}, which can be read only once, are read"
        else:
            continue
        if msg:
            return msg
    return None


def write_of(it, e, roots, ox):
    what = roots.owner(e.target)
    if what is None:
        return None
    t = e.target
    settings = ox.attrs.get("settings")
    if t is ox or t is settings:
        if e.kind == "write" and e.attr in ("decorated", "settings"):
            return None
        if t is settings:
            old = [p for p in roots.kept[t][1] if p[0] != K("decorated")]
            new = [p for p in t.content if p[0] != K("decorated")]
            return None if old == new else "the settings of the configuration are changed"
        return f"the option {e.attr} of the configuration is written"
    if e.kind == "write":
        old = roots.kept[t][1] if t in roots.kept else {}
        if isinstance(t, Cls) and e.attr.startswith("_") and (
                e.attr == "_hash" or e.attr not in old):
            return None     # a cache of a type's own
        if e.what != "delete" and e.attr in old and it.freeze(old[e.attr]) == e.value:
            return None
        if isinstance(t, Opaque) and e.what != "delete" and t.attrs and \
                t.attrs.get(e.attr) == e.value:
            return None
        verb = "deleted" if e.what == "delete" else "assigned"
        return f"{e.attr} of {what} is {verb}"
    if t in roots.kept and t.content == roots.kept[t][1]:
        return None
    return f"{what} is changed ({e.method})"


def call_of(e, roots):
    func = e.func
    if isinstance(func, Sym) and func.op == "attr" and len(func.args) == 2:
        name = func.args[1].v if isinstance(func.args[1], K) else func.args[1]
        what = roots.owner(func.args[0])
        if what and (name in CHANGING or name.endswith("_") and not name.endswith("__")):
            return f"{name} of {what} is called"
    name = getattr(func, "path", None) or (
        getattr(func.v, "__name__", None) if isinstance(func, K) else None)
    if name in CHANGERS and e.args:
        what = roots.owner(e.args[CHANGERS[name]])
        if what:
            return f"{name} is called with {what}"
    if name and e.args and name.rsplit(".", 1)[-1] in CHANGING - {"add", "put", "insert", "append"} \
            and name.rsplit(".", 2)[-2:-1] in (["ndarray"], ["Tensor"], ["list"], ["dict"], ["set"]):
        what = roots.owner(e.args[0])
        if what:
            return f"{name} is called with {what}"
    if e.kwargs and e.kwargs.get("copy") == FALSE and e.args and name == "numpy.nan_to_num":
        what = roots.owner(e.args[0])
        if what:
            return f"{name} changes {what}"
    out = e.kwargs.get("out") if e.kwargs else None
    if out is not None and roots.owner(out):
        return f"a result is stored into {roots.owner(out)}"
    return None


def untouched(rep, w, name, anchor, prepare, rule="untouched"):
    """ ``prepare`` gives the things handed over by name, and the action to take. """

    def run(it):
        named, action = prepare(it)
        roots = Roots(list(named) + [("the configuration", w.ox)])
        start = len(it.trace)
        try:
            action(it)
        except AbsRaise as err:
            it.event("ended", exc=err.exc)
        msg = changed(it, it.trace[start:], roots, w.ox)
        it.event("untouched", msg=msg, count=len(roots.kept) + len(roots.terms))
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"preparing ends with {errname(out)}"
        return out.events("untouched")[-1].msg

    scenario(rep, w, name, rule, anchor, run, judge)


def store_roots(w):
    """ The objects behind asta.dims and asta.shapes. """
    out = []
    for name in ("dims", "shapes"):
        mod = w.eng.modules.get("asta." + name)
        if mod is not None:
            out.append((f"the store of {name}", getattr(mod, "replaced", None)))
    return [(n, v) for n, v in out if v is not None]


ONCE = '''
def rest(a: A, *more: B, k: C = D) -> R:
    return BODY(a, *more, k=k)
'''


@check("C25")
def c25(rep, tier):
    """ Writes, deletions and changing calls along all paths of checks. """
    rep.rule("untouched", "on every path of an isinstance check, of a decorated call, and of the "
             "check of each annotation kind, passing or failing: no attribute of anything "
             "reachable from the value, the annotation, the decorated function, the dims and "
             "shapes stores, or the configuration is assigned or deleted and none of it is "
             "changed in place; only the configuration's decorated may be assigned (and the "
             "hash a type caches)")
    isinstance_part(rep, tier)
    call_part(rep, tier)
    container_part(rep, tier)
    plain_part(rep, tier)


def isinstance_part(rep, tier):
    w = make_world()
    w.get("asta.constants", "NonInstanceType")
    instance_pins(w)
    stranger = Opaque("stranger", closed=True)
    w.pin_rules.append(no_instance([stranger] + [Opaque(f"v{i}") for i in range(3)]))
    for name in ("Array", "Tensor", "TFTensor"):
        fam = Family(w, name)
        anchor = anchor_text(fam.cls)
        lib = fam.dtype("lib.dtype")
        for d, dv in enumerate((None, lib, K(float), K(bytes))):
            for s, (st, sv, _) in enumerate(type_cases(fam)):
                for a, attrs in enumerate((None, "plain", "expr", "two")):
                    if tier == "quick" and (d + s + a) % 3:
                        continue
                    rank = 1 if sv is None else len(sv.items)
                    insts = [Instance(f"rank {rank}", fam, rank)]
                    if (d + s + a) % 6 == 0:
                        insts.append(Instance("an object", fam, stranger=stranger))
                        insts.append(Instance("rank 0", fam, 0))
                    for inst in insts:
                        def prepare(it, fam=fam, dv=dv, sv=sv, attrs=attrs, inst=inst):
                            sub = [dv] if dv is not None else []
                            sub += [sv] if sv is not None else []
                            kw = NONE
                            if attrs:
                                kw = attrs_dict(attrs)(it)
                                sub.append(kw)
                            cls = annotate(it, fam.cls, sub)
                            return ([("the value", inst.value), ("the type", cls),
                                     ("the attributes", kw)],
                                    lambda it: it.truth(it.isinstance(inst.value, cls)))
                        text = ", ".join(x for x in (dv and repr(dv), st, attrs) if x)
                        untouched(rep, w, f"isinstance {name}[{text}], {inst.text}", anchor,
                                  prepare)
    rep.engine(w.eng)


def call_part(rep, tier):
    for raising in (True, False):
        for passes in (True, False):
            cw = CallWorld(raising=raising, passes=passes)
            w = cw.w
            anchor = anchor_text(w.get("asta.decorators", "typechecked"))
            fams = [Family(w, n) for n in ("Array", "Tensor", "TFTensor")]
            for n, items in enumerate(patterns(tier)):
                f = n % 3 if tier == "quick" else None
                if tier == "quick" and (n + 2 * raising + passes) % 4:
                    continue
                for k, fam in enumerate(fams):
                    if f is not None and k != f:
                        continue
                    for s in (0, 1):
                        if tier == "quick" and s and n % 8:
                            continue
                        store = stores(s)
                        try:
                            rank = rank_static(items, store)
                        except KeyError:
                            continue
                        inst = Instance(f"rank {rank}", fam, rank)

                        def prepare(it, cw=cw, fam=fam, items=items, store=store, inst=inst):
                            touch(cw.w, it, store)
                            cls = annotate(it, fam.cls, [i.make(cw, it) for i in items])
                            fn = it.call(cw.fn("make"), [cls, cw.body()], {}, None)
                            fill(cw.w, it, store)
                            return ([("the value", inst.value), ("the annotation", cls)] +
                                    store_roots(cw.w), lambda it: it.call(fn, [inst.value], {}))
                        text = ", ".join(i.text for i in items)
                        untouched(rep, w, f"call with {fam.name}[{text}], store {s}, "
                                  f"raise-errors={raising}, print-passes={passes}", anchor, prepare)
            for k, ann in enumerate((A_S, A_XS, A_DS, A_AT, A_SAT)):
                for form in ("return", "list", "tuple"):
                    fam = fams[(k + len(form)) % 3]
                    compound(rep, cw, fam, ann, form, anchor,
                             f"raise-errors={raising}, print-passes={passes}")
            rep.engine(w.eng)


def rank_static(items, store):
    n = 0
    for i in items:
        if i.parts is not None:
            n += rank_static(i.parts, store)
        elif i.shape is not None:
            v = store.shapes[i.shape]
            n += len(v.items) if v is not None else 1
        else:
            n += 1
    return n


def compound(rep, cw, fam, ann, form, anchor, text):
    store = stores(0)
    rank = 1 if ann.items is None else len(ann.items)
    one, two = Instance("", fam, rank, tag="a"), Instance("", fam, rank, tag="b")

    def prepare(it):
        touch(cw.w, it, store)
        cls = ann.make(cw, it, fam)
        if form == "return":
            fn = it.call(cw.fn("make_return"), [cls, cls, cw.body(two.value)], {}, None)
            args = [one.value]
        else:
            kind = it.call(cw.fn("listed"), [cls], {}, None) if form == "list" else \
                it.call(cw.fn("paired"), [cls, cls], {}, None)
            fn = it.call(cw.fn("make"), [kind, cw.body()], {}, None)
            args = [it.alloc(AList([one.value, two.value])) if form == "list" else
                    Tup([one.value, two.value])]
        fill(cw.w, it, store)
        return ([("the value", a) for a in args] + [("the value", one.value), (
            "the result", two.value), ("the annotation", cls)] + store_roots(cw.w),
                lambda it: it.call(fn, args, {}))

    untouched(rep, cw.w, f"{form} of {fam.name}[{ann.text}], {text}", anchor, prepare)


def container_part(rep, tier):
    for raising in (True, False):
        for non_asta in (False, True):
            for all_elements in (True, False):
                if not all_elements and (tier == "quick" and raising == non_asta):
                    continue
                h = harness(raise_errors=raising, print_passes=False,
                            check_non_asta_types=non_asta,
                            check_all_sequence_elements=all_elements)
                anchor = anchor_text(h.check_annotation)
                for n, case in enumerate(all_cases(h) + union_cases(h)):
                    if tier == "quick" and (n + raising) % 2 and case.kind is False:
                        continue

                    def prepare(it, case=case, h=h):
                        ann, val = case.ann(it), case.val(it)
                        eqs = it.alloc(ASet([E0]))
                        return ([("the value", val), ("the annotation", ann)],
                                lambda it: it.call(h.check_annotation,
                                                   [K("arg"), val, ann, eqs, h.w.ox], {}))

                    untouched(rep, h.w, f"{case.name}, raise-errors={raising}, "
                              f"check-non-asta-types={non_asta}, "
                              f"check-all-sequence-elements={all_elements}", anchor, prepare)
                rep.engine(h.w.eng)


def plain_part(rep, tier):
    """ The decorated function, its defaults and variadic arguments. """
    A, B, C, R = (leaf(n) for n in "ABCR")
    for raising in (True, False):
        h = Harness(leaves=[A, B, C, R], raise_errors=raising, print_passes=raising)
        default = AList([Opaque("d0")])
        h.program(ONCE, {"A": A, "B": B, "C": C, "R": R, "D": default, "BODY": h.body()})
        anchor = anchor_text(h.typechecked)
        for text, args, kwargs in (
                ("a", 1, ()), ("a, *more", 3, ()), ("a, k", 1, ("k",)), ("missing", 0, ()),
                ("unknown keyword", 1, ("q",))):
            def prepare(it, args=args, kwargs=kwargs):
                fn = h.fn("rest")
                checked = it.call(h.typechecked, [fn], {})
                vals = [it.alloc(AList([value(f"x{i}")])) for i in range(args)]
                kw = {k: it.alloc(AList([value("k")])) for k in kwargs}
                return ([("the value", v) for v in vals + list(kw.values())] +
                        [("the decorated function", fn), ("the wrapper", checked),
                         ("a default", default)],
                        lambda it: it.call(checked, vals, kw))
            untouched(rep, h.w, f"rest({text}), raise-errors={raising}", anchor, prepare)
        rep.engine(h.w.eng)
