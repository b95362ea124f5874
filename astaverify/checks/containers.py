""" Container annotations: C08, C11, C12, C13 and their share of C10. """
import collections.abc
import collections
import enum
import sys
import typing

from .harness import *

A, B, C = (leaf(n) for n in ("A", "B", "C"))
e1, e2, e3, e4 = (value(n) for n in ("e1", "e2", "e3", "e4"))
OTHER = Opaque("other", not_iterable=True, closed=True, attrs={},
               pytype=Opaque("OtherType", isclass=True, closed=True,
                             attrs={"__module__": K("m"), "__qualname__": K("OtherType"),
                                    "__name__": K("OtherType")}))
E0 = Sym("equation", Opaque("earlier"), Opaque("param"), kind="expr")

PROGRAM = '''
from typing import NamedTuple, TypedDict, Required, NotRequired

class Pair(NamedTuple):
    first: A
    second: B

class Movie(TypedDict):
    one: A
    two: B

class Partial(TypedDict, total=False):
    one: A
    two: B

class Empty(TypedDict):
    pass

class More(Movie, total=False):
    three: A

class Full(Partial):
    three: A

class Marked(TypedDict):
    one: Required[A]
    two: NotRequired[B]

class Loose(TypedDict, total=False):
    one: Required[A]
    two: B

class Plain:
    pass

class Defaulted(NamedTuple):
    first: A
    second: B = e2

def named():
    pass

pair = Pair(e1, e2)
defaulted = Defaulted(e1)
both_given = Defaulted(e1, e3)
Either = list[A] | None
Other = None | list[A] | tuple[A, B]
'''


class Case:
    """ An annotation, a value, and the leaf checks which decide the match. """

    def __init__(self, name, ann, val, pairs, kind=True, seq=False):
        self.name = name
        self.ann = ann      # function of the interpreter
        self.val = val      # function of the interpreter
        self.pairs = pairs  # leaf checks
        self.kind = kind    # is the value a container of the kind (and length)?
        self.seq = seq      # is only the first element checked with the option off?


def sub(base, *args):
    def make(it):
        items = [a(it) if callable(a) and not isinstance(a, Val) else a for a in args]
        return it.getitem(K(base), items[0] if len(items) == 1 else Tup(items))
    return make


def const(v):
    return lambda it: v


def lst(*items):
    return lambda it: it.alloc(AList([i(it) if not isinstance(i, Val) else i for i in items]))


def dct(*pairs):
    return lambda it: it.alloc(ADict([(k, v(it) if not isinstance(v, Val) else v) for k, v in pairs]))


def st(*items, frozen=False):
    return lambda it: it.alloc(ASet(items, frozen=frozen))


def tup(*items):
    return lambda it: Tup([i(it) if not isinstance(i, Val) else i for i in items])


def listlike(name, ann, make, seq=True):
    """ The cases of a homogeneous container. """
    return [
        Case(f"{name} with no element", ann, make(), [], seq=seq),
        Case(f"{name} with one element", ann, make(e1), [(e1, A)], seq=seq),
        Case(f"{name} with two elements", ann, make(e1, e2), [(e1, A), (e2, A)], seq=seq),
        Case(f"{name} with three elements", ann, make(e1, e2, e3),
             [(e1, A), (e2, A), (e3, A)], seq=seq),
    ]


def wrong(name, ann, makes):
    return [Case(f"{name} given {w}", ann, m, [], kind=False) for w, m in makes]


NUM = ("a number", const(K(7)))
STR = ("a string", const(K("abc")))
NOTHING = ("None", const(NONE))
LIST = ("a list", lst(e1))
TUPLE = ("a tuple", tup(e1))
DICT = ("a dict", dct((K("k"), e1)))
SET = ("a set", st(e1))
THING = ("another object", const(OTHER))
CLASS = ("a class", const(K(int)))


def cases():
    out = []
    for name, base in (("List[A]", typing.List), ("list[A]", list)):
        ann = sub(base, A)
        out += listlike(name, ann, lst)
        out += wrong(name, ann, [NUM, STR, NOTHING, TUPLE, DICT, SET, THING, CLASS])
    ann = sub(typing.Sequence, A)
    out += listlike("Sequence[A] of a list", ann, lst)
    out += listlike("Sequence[A] of a tuple", ann, tup)
    out += [
        Case("Sequence[A] of a string", ann, const(K("ab")), [(K("a"), A), (K("b"), A)], seq=True),
        Case("Sequence[A] of bytes", ann, const(K(b"ab")), [(K(97), A), (K(98), A)], seq=True),
        Case("Sequence[A] of a range", ann, const(K(range(3, 5))), [(K(3), A), (K(4), A)], seq=True),
        Case("Set[A] of a frozen set", sub(typing.Set, A), st(e1, e2, frozen=True),
             [(e1, A), (e2, A)]),
        Case("AbstractSet[A] of a frozen set", sub(typing.AbstractSet, A),
             st(e1, e2, frozen=True), [(e1, A), (e2, A)]),
    ]
    out += wrong("Sequence[A]", ann, [NUM, NOTHING, DICT, SET, THING, CLASS])
    ann = sub(collections.abc.Sequence, A)
    out += listlike("abc.Sequence[A]", ann, lst)
    for name, base in (("Set[A]", typing.Set), ("set[A]", set), ("AbstractSet[A]", typing.AbstractSet)):
        ann = sub(base, A)
        out += listlike(name, ann, st, seq=False)
        out += wrong(name, ann, [NUM, STR, NOTHING, LIST, TUPLE, DICT, THING, CLASS])
    for name, base in (("Dict[A, B]", typing.Dict), ("dict[A, B]", dict)):
        ann = sub(base, A, B)
        out += [
            Case(f"{name} with no entry", ann, dct(), []),
            Case(f"{name} with one entry", ann, dct((e1, e2)), [(e1, A), (e2, B)]),
            Case(f"{name} with two entries", ann, dct((K("p"), e2), (K("q"), e4)),
                 [(K("p"), A), (e2, B), (K("q"), A), (e4, B)]),
        ]
        out += wrong(name, ann, [NUM, STR, NOTHING, LIST, TUPLE, SET, THING, CLASS])
    out += [
        Case("Dict[Any, B]", sub(typing.Dict, K(typing.Any), B), dct((K("p"), e1), (K("q"), e2)),
             [(e1, B), (e2, B)]),
        Case("Dict[A, Any]", sub(typing.Dict, A, K(typing.Any)), dct((K("p"), e1), (K("q"), e2)),
             [(K("p"), A), (K("q"), A)]),
        Case("Dict[Any, Any]", sub(typing.Dict, K(typing.Any), K(typing.Any)), dct((K("p"), e1)), []),
    ]
    for name, base in (("Tuple", typing.Tuple), ("tuple", tuple)):
        two = sub(base, A, B)
        many = sub(base, A, ELL)
        out += [
            Case(f"{name}[A]", sub(base, A), tup(e1), [(e1, A)]),
            Case(f"{name}[A, B]", two, tup(e1, e2), [(e1, A), (e2, B)]),
            Case(f"{name}[A, B, A]", sub(base, A, B, A), tup(e1, e2, e3), [(e1, A), (e2, B), (e3, A)]),
            Case(f"{name}[A, B] too short", two, tup(e1), [], kind=False),
            Case(f"{name}[A, B] too long", two, tup(e1, e2, e3), [], kind=False),
            Case(f"{name}[A, B] empty", two, tup(), [], kind=False),
        ]
        out += listlike(f"{name}[A, ...]", many, tup, seq=False)
        out += wrong(f"{name}[A, B]", two, [NUM, STR, NOTHING, ("a list", lst(e1, e2)), DICT, SET, THING])
        out += wrong(f"{name}[A, ...]", many, [NUM, STR, NOTHING, LIST, DICT, SET, THING])
        empty = sub(base, Tup(()))
        out += [
            Case(f"{name}[()] with the empty tuple", empty, tup(), []),
            Case(f"{name}[()] with a tuple", empty, tup(e1), [], kind=False),
        ]
        out += wrong(f"{name}[()]", empty, [NUM, STR, NOTHING, ("a list", lst()), THING])
    # Nesting.
    la = sub(typing.List, A)
    out += [
        Case("List[List[A]]", sub(typing.List, la), lst(lst(e1), lst(e2)), [(e1, A), (e2, A)], seq=None),
        Case("Dict[Any, List[A]]", sub(typing.Dict, K(typing.Any), la),
             dct((K("p"), lst(e1, e2)), (K("q"), lst(e3))), [(e1, A), (e2, A), (e3, A)], seq=None),
        Case("Tuple[List[A], B]", sub(typing.Tuple, la, B), tup(lst(e1, e2), e3),
             [(e1, A), (e2, A), (e3, B)], seq=None),
        Case("List[Tuple[A, B]]", sub(typing.List, sub(typing.Tuple, A, B)),
             lst(tup(e1, e2), tup(e3, e4)), [(e1, A), (e2, B), (e3, A), (e4, B)], seq=None),
        Case("List[List[A]] with a number inside", sub(typing.List, la), lst(K(3)), [], kind=False),
        Case("Tuple[List[A], B] with a tuple inside", sub(typing.Tuple, la, B), tup(tup(e1), e2),
             [(e2, B)], kind=False),
        Case("Sequence[Dict[A, B]]", sub(typing.Sequence, sub(typing.Dict, A, B)),
             lst(dct((e1, e2)), dct((e3, e4))), [(e1, A), (e2, B), (e3, A), (e4, B)], seq=None),
    ]
    # Bare containers accept every container of the kind.
    for name, anns, good, bad in (
            ("list", (typing.List, list), lst(e1, e2), [NUM, TUPLE, NOTHING, THING]),
            ("dict", (typing.Dict, dict), dct((e1, e2)), [NUM, LIST, NOTHING, THING]),
            ("set", (typing.Set, set), st(e1, e2), [NUM, LIST, NOTHING, THING]),
            ("tuple", (typing.Tuple, tuple), tup(e1, e2), [NUM, LIST, NOTHING, THING]),
            ("sequence", (typing.Sequence,), lst(e1, e2), [NUM, NOTHING, THING])):
        for a in anns:
            out.append(Case(f"bare {a!r}", const(K(a)), good, []))
            if not isinstance(a, type) or a is tuple:
                out += wrong(f"bare {a!r}", const(K(a)), bad)
    return out


def program_cases(h):
    pair = h.fn("Pair")
    movie, partial = h.fn("Movie"), h.fn("Partial")
    val = h.fn("pair")
    out = [
        Case("NamedTuple", const(pair), const(val), [(e1, A), (e2, B)]),
        Case("NamedTuple with a default", const(h.fn("Defaulted")), const(h.fn("defaulted")),
             [(e1, A), (e2, B)]),
        Case("NamedTuple with a default not used", const(h.fn("Defaulted")),
             const(h.fn("both_given")), [(e1, A), (e3, B)]),
        Case("NamedTuple of another class", const(h.fn("Defaulted")), const(val), [], kind=False),
        Case("TypedDict", const(movie), dct((K("one"), e1), (K("two"), e2)), [(e1, A), (e2, B)]),
        Case("TypedDict in another order", const(movie), dct((K("two"), e2), (K("one"), e1)),
             [(e1, A), (e2, B)]),
        Case("TypedDict missing a key", const(movie), dct((K("one"), e1)), [(e1, A)], kind=False),
        Case("TypedDict missing every key", const(movie), dct(), [], kind=False),
        Case("TypedDict with an extra key", const(movie),
             dct((K("one"), e1), (K("two"), e2), (K("three"), e3)), [(e1, A), (e2, B)], kind=False),
        Case("partial TypedDict missing a key", const(partial), dct((K("two"), e2)), [(e2, B)]),
        Case("partial TypedDict, empty", const(partial), dct(), []),
        Case("partial TypedDict with an extra key", const(partial), dct((K("three"), e3)), [],
             kind=False),
        Case("empty TypedDict", const(h.fn("Empty")), dct(), []),
        Case("empty TypedDict with an entry", const(h.fn("Empty")), dct((K("one"), e1)), [],
             kind=False),
        Case("TypedDict with an optional key added", const(h.fn("More")),
             dct((K("one"), e1), (K("two"), e2)), [(e1, A), (e2, B)]),
        Case("TypedDict with an optional key added and present", const(h.fn("More")),
             dct((K("one"), e1), (K("two"), e2), (K("three"), e3)), [(e1, A), (e2, B), (e3, A)]),
        Case("TypedDict missing an inherited key", const(h.fn("More")),
             dct((K("one"), e1), (K("three"), e3)), [(e1, A), (e3, A)], kind=False),
        Case("TypedDict without the inherited optional keys", const(h.fn("Full")),
             dct((K("three"), e3)), [(e3, A)]),
        Case("TypedDict missing its own key beside inherited optional ones", const(h.fn("Full")),
             dct((K("one"), e1)), [(e1, A)], kind=False),
        Case("TypedDict with marked keys", const(h.fn("Marked")),
             dct((K("one"), e1), (K("two"), e2)), [(e1, A), (e2, B)]),
        Case("TypedDict without the key marked NotRequired", const(h.fn("Marked")),
             dct((K("one"), e1)), [(e1, A)]),
        Case("TypedDict missing the key not marked NotRequired", const(h.fn("Marked")),
             dct((K("two"), e2)), [(e2, B)], kind=False),
        Case("partial TypedDict missing the key marked Required", const(h.fn("Loose")),
             dct((K("two"), e2)), [(e2, B)], kind=False),
        Case("partial TypedDict with the key marked Required", const(h.fn("Loose")),
             dct((K("one"), e1)), [(e1, A)]),
        Case("List of TypedDict", lambda it: it.getitem(K(typing.List), movie),
             lst(dct((K("one"), e1), (K("two"), e2))), [(e1, A), (e2, B)]),
    ]
    out += wrong("NamedTuple", const(pair), [NUM, NOTHING, ("a plain tuple", tup(e1, e2)), LIST, THING])
    out += wrong("TypedDict", const(movie), [NUM, NOTHING, STR, LIST, SET, THING])
    return out


def harness(**options):
    h = Harness(leaves=[A, B, C], **options)
    h.strangers = (OTHER,)
    try:
        h.program(PROGRAM, {"A": A, "B": B, "e1": e1, "e2": e2, "e3": e3})
        h.has_program = True
    except Unsupported:
        h.has_program = False
        raise
    return h


def all_cases(h):
    return cases() + program_cases(h)


def checker(h, case):
    def run(it):
        ann = case.ann(it)
        val = case.val(it)
        eqs = it.alloc(ASet([] if h.silent else [E0]))
        it.event("begin")
        return it.call(h.check_annotation, [K("arg"), val, ann, eqs, h.w.ox], {})
    return run


def crashed(out):
    """ Does the path end with an exception which no ``raise`` reported? """
    if out.kind != "raise":
        return False
    if not is_type_error(out):
        return True
    raised = [e for e in out.trace if e.kind == "raise" and e.exc is out.value]
    failed = [e for e in out.trace if e.kind == "fail" and e.raising]
    return not raised and not failed


def result_eqs(out):
    if out.kind != "return" or not isinstance(out.value, ASet):
        return None
    return set(out.value.content)


def judge_accept(case, pairs):
    """ C12 with raise-errors on. """
    def judge(out):
        if crashed(out):
            return f"the check crashes with {errname(out)}"
        failed = {(e.value, e.ann) for _, e in indexed(out, "fail")}
        passed = {(e.value, e.ann) for _, e in indexed(out, "pass")}
        for p in list(failed) + list(passed):
            if case.kind and p not in case.pairs:
                return f"{p[0]!r} is checked against {p[1]!r}"
            if case.kind and p not in pairs:
                return f"{p[0]!r} is checked although only the first element is to be"
        if out.kind == "return":
            if not case.kind:
                return "a value of the wrong kind is accepted"
            for p in pairs:
                if p not in passed:
                    return f"accepted although {p[0]!r} was not found to match {p[1]!r}"
            return None
        if case.kind and not failed:
            return "rejected although every element matches"
        return None
    return judge


def judge_soft(case, pairs):
    """ C10, C12 with raise-errors off. """
    def judge(out):
        if out.kind == "raise":
            return f"a mismatch stops the check with {errname(out)}"
        eqs = result_eqs(out)
        if eqs is None:
            return f"the check gives {out.value!r} instead of a set of equations"
        printed = any(e.kind == "print" for e in out.trace)
        if not case.kind and not printed:
            return "a mismatch of the kind is not reported"
        if case.kind:
            checked = {(e.value, e.ann) for _, e in indexed(out, "check")}
            for p in pairs:
                if p not in checked:
                    return f"{p[0]!r} is not checked against {p[1]!r} (so its mismatch is not reported)"
            failed = [(e.value, e.ann) for _, e in indexed(out, "fail")]
            if printed and not failed and not any(
                    v for p, v in out.facts.items() if p == Sym("truth", Opaque("config.print_passes"), kind="bool")):
                return "something is reported although everything matches"
        return None
    return judge


def judge_eqs(case, pairs, raising):
    """ C08 """
    def judge(out):
        if out.kind == "raise":
            return None
        eqs = result_eqs(out)
        if eqs is None:
            return f"the check gives {out.value!r} instead of a set of equations"
        if E0 not in eqs:
            return "the constraints gathered before are lost"
        for _, e in indexed(out, "pass"):
            if equation(e.value, e.ann) not in eqs:
                return f"the constraint of {e.value!r} is dropped"
        allowed = {E0} | {equation(e.value, e.ann) for _, e in indexed(out, "pass")}
        if eqs - allowed:
            return f"constraints {eqs - allowed} come from nowhere"
        return None
    return judge


def limited(case, check_all):
    if check_all or case.seq is not True:
        return case.pairs
    return case.pairs[:1]


def seq_cases_off(h):
    """ With the option off, lists and sequences are checked at the first element. """
    return [c for c in all_cases(h) if c.seq is not None]


@check("C12")
def c12(rep, tier):
    rep.rule("C12.elements", "for each container annotation and value (elements unknown): "
             "the value is accepted exactly on the paths on which it is of the kind and each "
             "element has passed its own leaf check; with check-all-sequence-elements off "
             "exactly the first element of lists and sequences is checked")
    rep.rule("C12.kind", "a value of unknown class is accepted for a list, sequence, set, dict "
             "or tuple annotation only on paths on which it is an instance of list, an abstract "
             "sequence, an abstract set, dict or tuple; one which is and whose elements match "
             "is not rejected")
    for check_all in (True, False):
        h = harness(raise_errors=True, print_passes=False, check_non_asta_types=False,
                    check_all_sequence_elements=check_all)
        for case in all_cases(h) if check_all else seq_cases_off(h):
            scenario(rep, h.w, f"{case.name}, check-all={check_all}", "C12.elements",
                     h.check_annotation, checker(h, case),
                     judge_accept(case, limited(case, check_all)))
        generic_cases(rep, h, "C12.elements", check_all)
        kind_cases(rep, h, check_all)
        rep.engine(h.w.eng)


GEN = {
    "list": Opaque("values", kind="list", pytype=K(list)),
    "tuple": Opaque("values", kind="tuple", pytype=K(tuple)),
    "set": Opaque("values", kind="set", pytype=K(set)),
    "dict": Opaque("values", kind="dict", pytype=K(dict)),
}


def kind_cases(rep, h, check_all):
    """ Values of other classes of the kind, and values of unknown class. """
    keys = collections.abc.KeysView
    for name, ann, kind, val in (
            ("list", sub(typing.List, A), list, None), ("list", sub(list, A), list, None),
            ("list", const(K(typing.List)), list, None),
            ("sequence", sub(typing.Sequence, A), collections.abc.Sequence, None),
            ("sequence", const(K(typing.Sequence)), collections.abc.Sequence, None),
            ("set", sub(typing.Set, A), collections.abc.Set, None),
            ("set", sub(set, A), collections.abc.Set, None),
            ("set", const(K(typing.Set)), collections.abc.Set, None),
            ("set", sub(typing.AbstractSet, A), collections.abc.Set, None),
            ("dict", sub(typing.Dict, A, B), dict, None), ("dict", sub(dict, A, B), dict, None),
            ("dict", const(K(typing.Dict)), dict, None),
            ("tuple", sub(typing.Tuple, A, ELL), tuple, None),
            ("tuple", sub(tuple, A, ELL), tuple, None), ("tuple", const(K(tuple)), tuple, None),
            ("tuple", const(K(typing.Tuple)), tuple, None),
            ("list subclass", sub(typing.List, A), list, Opaque("values", kind="list", pytype=LISTY)),
            ("deque", sub(typing.Sequence, A), collections.abc.Sequence,
             Opaque("values", kind="list", pytype=K(collections.UserList))),
            ("frozen set", sub(typing.Set, A), collections.abc.Set,
             Opaque("values", kind="set", pytype=K(frozenset))),
            ("frozen set", sub(typing.AbstractSet, A), collections.abc.Set,
             Opaque("values", kind="set", pytype=K(frozenset))),
            ("keys view", sub(typing.AbstractSet, A), collections.abc.Set,
             Opaque("values", kind="set", pytype=K(type({}.keys())))),
            ("ordered dict", sub(typing.Dict, A, B), dict,
             Opaque("values", kind="dict", pytype=K(collections.OrderedDict))),
            ("mapping proxy", sub(typing.Dict, A, B), dict,
             Opaque("values", kind="dict", pytype=K(type(int.__dict__)))),
            ("user dict", sub(typing.Dict, A, B), dict,
             Opaque("values", kind="dict", pytype=K(collections.UserDict))),
            ("named tuple", sub(typing.Tuple, A, ELL), tuple,
             Opaque("values", kind="tuple", pytype=K(sys.version_info.__class__)))):
        given = val if val is not None else Opaque("anything")

        def run(it, ann=ann, given=given):
            return it.call(h.check_annotation,
                           [K("arg"), given, ann(it), it.alloc(ASet([E0])), h.w.ox], {})

        def judge(out, given=given, kind=kind):
            it = out.it
            failed = indexed(out, "fail")
            fits = it.truth(it.isinstance(given, K(kind)))
            if out.kind == "raise":
                if not is_type_error(out):
                    return f"the check crashes with {errname(out)}"
                if fits and not failed:
                    return f"a {kind.__name__} of matching elements is rejected"
                return None
            if not fits:
                return f"a value which is no {kind.__name__} is accepted"
            return None

        compared(rep, h.w, f"{name} for {kind.__name__}, "
                 f"{'of unknown class' if val is None else 'as ' + repr(val.pytype)}, "
                 f"check-all={check_all}", "C12.kind", h.check_annotation, run, judge,
                 optional=True)


LISTY = Opaque("ListSubclass", isclass=True)


def later(pred):
    """ Does this say that the element in question is not the first one? """
    lin = pred.args[0] if pred.op == "ge0" else None
    return isinstance(lin, Sym) and lin.op == "lin" and lin.args[0].v < 0 and all(
        isinstance(t, Sym) and t.op == "idx" for t, _ in lin.args[1])


def generic_cases(rep, h, rule, check_all):
    """ Containers of any size: no element is skipped by position or by number. """
    for name, ann, kind, seq in (
            ("List[A]", sub(typing.List, A), "list", True),
            ("Sequence[A]", sub(typing.Sequence, A), "list", True),
            ("Tuple[A, ...]", sub(typing.Tuple, A, ELL), "tuple", False),
            ("Set[A]", sub(typing.Set, A), "set", False),
            ("Dict[A, B]", sub(typing.Dict, A, B), "dict", False)):
        val = GEN[kind]

        def run(it, ann=ann, val=val):
            return it.call(h.check_annotation,
                           [K("arg"), val, ann(it), it.alloc(ASet([E0])), h.w.ox], {})

        def judge(out, val=val, seq=seq, kind=kind):
            if crashed(out):
                return f"the check crashes with {errname(out)}"
            if out.kind == "raise":
                if not indexed(out, "fail"):
                    return "rejected although every element matches"
                return None
            nonempty = out.facts.get(out.it.nonempty_pred(val))
            passed = [e for _, e in indexed(out, "pass") if mentions(e.value, val)]
            if not check_all and seq and any(
                    not v and p.op == "ge0" and mentions(p, val) for p, v in out.facts.items()):
                nonempty = False
            if not check_all and seq and any(later(p) for p, v in out.facts.items() if v):
                nonempty = False
            if nonempty is not False and not passed:
                return "accepted although no element was checked"
            if check_all or not seq:
                for e in passed:
                    base = e.value.args[0] if isinstance(e.value, Sym) else None
                    if base != val and nonempty is not False:
                        return f"only the elements of {base!r} are checked"
                if kind == "dict" and passed:
                    if {e.value.op for e in passed} != {"key", "val"}:
                        return "keys and values are not both checked"
            return None

        scenario(rep, h.w, f"{name} of any size, check-all={check_all}", rule,
                 h.check_annotation, run, judge, optional=True)


@check("C08")
def c08(rep, tier):
    rep.rule("C08.kept", "on every path on which a container or union check returns, the "
             "set it returns holds the constraints it was given and the constraint of every "
             "element which passed, and nothing else")
    for raising in (True, False):
        h = harness(raise_errors=raising, print_passes=False, check_non_asta_types=False,
                    check_all_sequence_elements=True)
        for case in all_cases(h):
            scenario(rep, h.w, f"{case.name}, raise-errors={raising}", "C08.kept",
                     h.check_annotation, checker(h, case), judge_eqs(case, case.pairs, raising))
        for case in union_cases(h):
            scenario(rep, h.w, f"{case.name}, raise-errors={raising}", "C08.kept",
                     h.check_annotation, checker(h, case), judge_union_eqs([case.alts]))
        for name, ann, val, groups in nested_union_cases():
            scenario(rep, h.w, f"{name}, raise-errors={raising}", "C08.kept",
                     h.check_annotation, checker(h, Case(name, ann, val, [])),
                     judge_union_eqs(groups))
        rep.engine(h.w.eng)


# -- C13: unions --------------------------------------------------------------


class UnionCase(Case):
    """ A union: the alternatives are sets of leaf facts which make the value match. """

    def __init__(self, name, spec, val, builder=None):
        super().__init__(name, builder or (lambda it: build(it, spec)),
                         lambda it: construct(it, val), [])
        self.alts = alternatives(spec, val)
        self.modes = {(f, t): alternatives(spec, val, f, t) for f in (False, True)
                      for t in (False, True)}


# Annotations: a leaf, NONE, K(Any), or (kind, ...); values: a value, or (kind, ...).

def build(it, spec):
    """ The annotation of a description. """
    if isinstance(spec, Val):
        return spec
    kind, args = spec[0], [build(it, s) for s in spec[1:]]
    if kind == "tuple*":
        return it.getitem(K(typing.Tuple), Tup([args[0], ELL]))
    base = {"list": typing.List, "seq": typing.Sequence, "set": typing.Set, "dict": typing.Dict,
            "tuple": typing.Tuple, "union": typing.Union, "optional": typing.Optional}[kind]
    return it.getitem(K(base), args[0] if len(args) == 1 else Tup(args))


def construct(it, val):
    if isinstance(val, Val):
        return val
    kind, items = val[0], val[1:]
    if kind == "D":
        return it.alloc(ADict([(k, construct(it, v)) for k, v in items]))
    if kind == "S":
        return it.alloc(ASet(items))
    items = [construct(it, i) for i in items]
    return it.alloc(AList(items)) if kind == "L" else Tup(items)


def both(xs, ys):
    return [x | y for x in xs for y in ys]


def every(parts):
    out = [frozenset()]
    for p in parts:
        out = both(out, p)
    return out


def alternatives(spec, val, first=False, strict=False):
    """
    The sets of leaf facts which make a value match (reference semantics); ``first``: only
    the first element of lists and sequences counts; ``strict``: other types are checked.
    """
    if spec == K(typing.Any):
        return [frozenset()]
    if isinstance(spec, K) and isinstance(spec.v, type):
        fits = isinstance(val, K) and isinstance(val.v, spec.v)
        return [frozenset()] if fits or not strict else []
    if isinstance(spec, Val):
        if spec == NONE:
            if isinstance(val, Val) and val == NONE:
                return [frozenset()]
            if not isinstance(val, Val) or isinstance(val, (K, Tup)) or val == OTHER:
                return []
        return [frozenset([(val, spec)])]
    kind, args = spec[0], spec[1:]
    if kind == "union":
        return [a for s in args for a in alternatives(s, val, first, strict)]
    if kind == "optional":
        return alternatives(args[0], val, first, strict) + alternatives(NONE, val, first, strict)
    if isinstance(val, Val):
        return []
    vkind, items = val[0], val[1:]
    if first and kind in ("list", "seq"):
        items = items[:1]
    if kind == "list" and vkind == "L" or kind == "seq" and vkind in "LT" or \
            kind == "set" and vkind == "S" or kind == "tuple*" and vkind == "T":
        return every([alternatives(args[0], i, first, strict) for i in items])
    if kind == "dict" and vkind == "D":
        return every([both(alternatives(args[0], k, first, strict), alternatives(args[1], v, first, strict))
                      for k, v in items])
    if kind == "tuple" and vkind == "T" and len(args) == len(items):
        return every([alternatives(s, i, first, strict) for s, i in zip(args, items)])
    return []


def union_cases(h):
    U = lambda *a: ("union",) + a
    la, tab = ("list", A), ("tuple", A, B)
    specs = [
        ("Union[A, B]", U(A, B), [e1, NONE, ("L", e1)]),
        ("Union[A, B, C]", U(A, B, C), [e1]),
        ("Optional[A]", ("optional", A), [e1, NONE]),
        ("Union[None, A]", U(NONE, A), [e1, NONE]),
        ("Union[A, B, None]", U(A, B, NONE), [e1, NONE]),
        ("Union[List[A], B]", U(la, B), [("L", e1, e2), OTHER, ("L",), ("T", e1)]),
        ("Union[B, List[A]]", U(B, la), [("L", e1, e2), OTHER]),
        ("Union[List[A], Tuple[A, B]]", U(la, tab), [("T", e1, e2), ("T", e1), ("L", e1), OTHER]),
        ("Union[Tuple[A, B], List[A], None]", U(tab, la, NONE), [("L", e1), NONE, OTHER]),
        ("Union[Tuple[A, B], Tuple[B, C]]", U(tab, ("tuple", B, C)), [("T", e1, e2)]),
        ("Union[List[A], List[B]]", U(la, ("list", B)), [("L", e1, e2), ("L",)]),
        ("Union[Dict[A, B], Set[A]]", U(("dict", A, B), ("set", A)),
         [K(7), ("S", e1), ("D", (e1, e2)), NONE]),
        ("Union[A, Any]", U(A, K(typing.Any)), [e1, ("L", e1)]),
        ("Union[A, int]", U(A, K(int)), [K(7), K("text"), NONE]),
        ("Union[int, A, str]", U(K(int), A, K(str)), [K(7), K("text"), NONE, ("L", e1)]),
        ("Union[Tuple[A, int], Tuple[B, str]]", U(("tuple", A, K(int)), ("tuple", B, K(str))),
         [("T", e1, K(7)), ("T", e1, K("text")), ("T", e1, NONE)]),
        ("Union[Dict[str, A], None, List[int]]", U(("dict", K(str), A), NONE, ("list", K(int))),
         [("D", (K("p"), e1), (K("q"), e2)), NONE, ("L", K(7)), ("L", K(7), K("text"))]),
        ("Union[Tuple[A, ...], Dict[A, B]]", U(("tuple*", A), ("dict", A, B)),
         [("T", e1, e2), ("D", (e1, e2)), ("T",), K("text")]),
        ("Union[Sequence[A], B]", U(("seq", A), B), [("L", e1), ("T", e1, e2), OTHER]),
        ("Union[List[Union[A, B]], C]", U(("list", U(A, B)), C), [("L", e1), ("L", e1, e2), OTHER]),
    ]
    out = [UnionCase(f"{n} given {describe(v)}", s, v) for n, s, vs in specs for v in vs]
    for name, spec, vals in (
            ("Either", U(la, NONE), [NONE, ("L", e1, e2), K(7)]),
            ("Other", U(NONE, la, tab), [("T", e1, e2), ("L", e1), NONE, OTHER])):
        if name in h.w.eng.modules["vt_program"].scope.vars:
            shown = {"Either": "list[A] | None", "Other": "None | list[A] | tuple[A, B]"}[name]
            out += [UnionCase(f"{shown} given {describe(v)}", spec, v, const(h.fn(name)))
                    for v in vals]
    return out


def describe(val):
    if isinstance(val, Val):
        return repr(val)
    if val[0] == "D":
        return "{%s}" % ", ".join(f"{describe(k)}: {describe(v)}" for k, v in val[1:])
    inner = ", ".join(describe(v) for v in val[1:])
    return {"L": "[%s]", "T": "(%s,)", "S": "{%s}"}[val[0]] % inner


def nested_union_cases():
    """ Unions inside containers: (name, annotation, value, alternatives by position). """
    u = ("union", A, B)
    any_ = K(typing.Any)
    specs = [
        ("List[Union[A, B]]", ("list", u), ("L", e1, e2), [(u, e1), (u, e2)]),
        ("Tuple[Union[A, B], C]", ("tuple", u, C), ("T", e1, e2), [(u, e1), (C, e2)]),
        ("Dict[Any, Optional[A]]", ("dict", any_, ("optional", A)), ("D", (K("p"), NONE), (K("q"), e2)),
         [(("optional", A), NONE), (("optional", A), e2)]),
        ("Set[Union[A, B]]", ("set", u), ("S", e1, e2), [(u, e1), (u, e2)]),
        ("Tuple[Optional[A], ...]", ("tuple*", ("optional", A)), ("T", NONE, e2),
         [(("optional", A), NONE), (("optional", A), e2)]),
        ("Sequence[Union[A, B]]", ("seq", u), ("T", e1, e2), [(u, e1), (u, e2)]),
    ]
    return [(n, lambda it, s=s: build(it, s), lambda it, v=v: construct(it, v),
             [alternatives(*p) for p in pos]) for n, s, v, pos in specs]


def known(out, pair):
    """ Does the path know whether the pair matches? """
    val, ann = pair
    if not isinstance(val, Val):
        val = out.it.freeze(construct(out.it, val))
    if ann == NONE:
        return out.facts.get(Sym("is", val, NONE, kind="bool"))
    return out.facts.get(matches(out.it.freeze(val), ann))


def verdict(out, alts):
    """ True/False/None (not determined on this path). """
    sure = True
    for pairs in alts:
        vals = [known(out, p) for p in pairs]
        if all(v is True for v in vals):
            return True
        if not any(v is False for v in vals):
            sure = False
    return False if sure else None


def chosen(out, alts):
    """ The equation sets of the alternatives which match. """
    sets = []
    for pairs in alts:
        if all(known(out, p) is True for p in pairs):
            sets.append({equation(v if isinstance(v, Val) else out.it.freeze(construct(out.it, v)), a)
                         for v, a in pairs if a != NONE})
    return sets


def messages(out):
    return [e for e in out.trace if e.kind == "print"
            and not any("asta::" in t.v for a in e.args for t in subterms(a)
                        if isinstance(t, K) and isinstance(t.v, str))]


def headers(out):
    told = messages(out)
    return [e for e in out.trace if e.kind == "print" and e not in told]


def product(groups):
    out = [set()]
    for g in groups:
        out = [a | b for a in out for b in g]
    return out


def judge_union(groups, raising, start=(E0,)):
    """ One group of alternatives per position; all positions must match. """
    start = set(start)

    def expected(out):
        if not start:
            return [set()]
        return [start | s for s in product([chosen(out, alts) or [set()] for alts in groups])]
    def judge(out):
        if crashed(out):
            return f"the check crashes with {errname(out)}"
        verdicts = [verdict(out, alts) for alts in groups]
        if raising:
            if out.kind == "raise":
                if any(v is False for v in verdicts):
                    if messages(out) or len(headers(out)) > 1:
                        return "an alternative which does not match is reported"
                    return None
                return "rejected although an alternative matches (or was not tried)"
            if not all(v is True for v in verdicts):
                return "accepted although no alternative was found to match"
            if messages(out) or headers(out):
                return "an alternative which does not match is reported"
        else:
            if out.kind == "raise":
                return f"a mismatch stops the check with {errname(out)}"
            bad = sum(v is False for v in verdicts)
            if None in verdicts:
                return "an alternative was not tried although no other matched"
            told = len(messages(out)) + len(indexed(out, "fail", raising=False))
            if told != bad:
                return (f"{told} failures are reported where {bad} position(s) match "
                        "no alternative")
            if len(headers(out)) > bad:
                return "a header is printed for an alternative which does not match"
        if out.kind == "return":
            eqs = result_eqs(out)
            if eqs is None:
                return f"the check gives {out.value!r} instead of a set of equations"
            if eqs not in expected(out):
                return f"the constraints {eqs - start} are not those of a matching alternative"
        return None
    return judge


def judge_union_eqs(groups):
    def judge(out):
        if out.kind != "return":
            return None
        eqs = result_eqs(out)
        if eqs is None:
            return f"the check gives {out.value!r} instead of a set of equations"
        sets = product([chosen(out, alts) or [set()] for alts in groups])
        if eqs not in [{E0} | s for s in sets]:
            return f"the constraints {eqs - {E0}} are not those of a matching alternative"
        return None
    return judge


@check("C13")
def c13(rep, tier):
    rep.rule("C13.some", "for unions of leaves and containers in each position: a path "
             "accepts exactly if the leaf facts on it make some alternative match; the "
             "equations returned are those of a matching alternative and the ones given; "
             "nothing is printed for alternatives, and one message if none matches")
    for raising in (True, False):
        for check_all in (True, False):
            for silent, strict in ((False, False), (True, False), (False, True)):
                h = harness(raise_errors=raising, print_passes=False,
                            check_non_asta_types=strict, check_all_sequence_elements=check_all)
                h.silent = silent
                # As in a call: reports have a function to name.
                h.w.eng.setup(lambda it, h=h: it.raw_set(h.w.ox, "decorated", h.fn("named")))
                note = f"raise-errors={raising}, check-all={check_all}" + (
                    ", without constraints" if silent else "") + (
                    ", other types checked" if strict else "")
                start = () if silent else (E0,)
                for case in union_cases(h):
                    scenario(rep, h.w, f"{case.name}, {note}", "C13.some",
                             h.check_annotation, checker(h, case),
                             judge_union([case.modes[not check_all, strict]], raising, start))
                for name, ann, val, groups in nested_union_cases() if check_all else ():
                    scenario(rep, h.w, f"{name}, {note}", "C13.some",
                             h.check_annotation, checker(h, Case(name, ann, val, [])),
                             judge_union(groups, raising, start))
                rep.engine(h.w.eng)


# -- C11: dispatch ------------------------------------------------------------


class Aliases:
    """ Annotations outside asta's own kinds. """

    classes = (int, str, float, complex, bytes, bool, object, bytearray, frozenset, range)
    bare = ("Callable", "Type", "Iterable", "Iterator", "Mapping", "Generator", "FrozenSet",
            "Deque", "DefaultDict", "OrderedDict", "Counter", "Hashable", "Sized", "IO", "TextIO",
            "BinaryIO", "Collection", "Container", "MutableMapping", "MutableSequence",
            "MutableSet", "Reversible", "Awaitable", "Coroutine", "AsyncIterator", "ByteString",
            "SupportsInt", "ContextManager", "Pattern", "Match", "KeysView", "ItemsView",
            "NoReturn", "AnyStr", "Text")
    abc = ("Callable", "Iterable", "Iterator", "Mapping", "Hashable", "Collection", "Awaitable",
           "MutableSequence", "MutableMapping", "Generator", "Container", "Sized")


def other_annotations(h):
    out = []
    for c in Aliases.classes:
        out.append((c.__name__, const(K(c))))
    for n in Aliases.bare:
        if hasattr(typing, n):
            out.append((n, const(K(getattr(typing, n)))))
    for n in Aliases.abc:
        out.append((f"abc.{n}", const(K(getattr(collections.abc, n)))))
    i, s = K(int), K(str)
    T = typing
    out += [
        ("Callable[[int], str]", sub(T.Callable, lst(i), s)),
        ("Callable[[], str]", sub(T.Callable, lst(), s)),
        ("Callable[..., str]", sub(T.Callable, ELL, s)),
        ("Type[int]", sub(T.Type, i)),
        ("type[int]", sub(type, i)),
        ("Type[Any]", sub(T.Type, K(T.Any))),
        ("Type[Union[int, str]]", sub(T.Type, sub(T.Union, i, s))),
        ("Type[TV]", sub(T.Type, h.fn("TV"))),
        ("Type[List[int]]", sub(T.Type, sub(T.List, i))),
        ("type[Optional[int]]", sub(type, sub(T.Optional, i))),
        ("Type of a user class", lambda it: it.getitem(K(T.Type), h.fn("Plain"))),
        ("Callable[[int, str], str]", sub(T.Callable, lst(i, s), s)),
        ("Literal[True, b'x', 3]", sub(T.Literal, TRUE, K(b"x"), K(3))),
        ("Iterable[List[int]]", sub(T.Iterable, sub(T.List, i))),
        ("Mapping[str, List[int]]", sub(T.Mapping, s, sub(T.List, i))),
        ("Annotated[int, 'note']", sub(T.Annotated, i, K("note"))),
        ("ClassVar[int]", sub(T.ClassVar, i)),
        ("Final[int]", sub(T.Final, i)),
        ("a new type", const(K(T.NewType("Identity", int)))),
        ("Literal[1, 'a']", sub(T.Literal, K(1), K("a"))),
        ("Literal[None]", sub(T.Literal, NONE)),
        ("Iterable[int]", sub(T.Iterable, i)),
        ("Iterator[int]", sub(T.Iterator, i)),
        ("Mapping[str, int]", sub(T.Mapping, s, i)),
        ("FrozenSet[int]", sub(T.FrozenSet, i)),
        ("frozenset[int]", sub(frozenset, i)),
        ("Deque[int]", sub(T.Deque, i)),
        ("DefaultDict[str, int]", sub(T.DefaultDict, s, i)),
        ("OrderedDict[str, int]", sub(T.OrderedDict, s, i)),
        ("Collection[int]", sub(T.Collection, i)),
        ("MutableMapping[str, int]", sub(T.MutableMapping, s, i)),
        ("Generator[int, None, None]", sub(T.Generator, i, NONE, NONE)),
        ("abc.Callable[[int], str]", sub(collections.abc.Callable, lst(i), s)),
        ("abc.Iterable[int]", sub(collections.abc.Iterable, i)),
        ("abc.Mapping[str, int]", sub(collections.abc.Mapping, s, i)),
        ("IO[str]", sub(T.IO, s)),
        ("IO[bytes]", sub(T.IO, K(bytes))),
        ("a user class", const(h.fn("Plain"))),
        ("a protocol", const(h.fn("Proto"))),
        ("a runtime protocol", const(h.fn("Runtime"))),
        ("a runtime protocol with data", const(h.fn("Data"))),
        ("Type[a protocol]", lambda it: it.getitem(K(T.Type), h.fn("Proto"))),
        ("Type[a runtime protocol]", lambda it: it.getitem(K(T.Type), h.fn("Runtime"))),
        ("Type[a runtime protocol with data]", lambda it: it.getitem(K(T.Type), h.fn("Data"))),
        ("a subclass of float", const(h.fn("Celsius"))),
        ("a generic user class", const(h.fn("Box"))),
        ("a subscripted user class", lambda it: it.getitem(h.fn("Box"), i)),
        ("a type variable", const(h.fn("TV"))),
        ("a string", const(K("int"))),
        ("an enum class", const(K(enum.Enum))),
        ("a library class", const(Ext("numpy.ndarray"))),
        ("a value which is no type", const(K(3))),
    ]
    return [(n, a) for n, a in out]


OTHER_PROGRAM = '''
from typing import NamedTuple, TypedDict, Generic, Protocol, TypeVar, runtime_checkable

TV = TypeVar("TV")

class Plain:
    pass

class Box(Generic[TV]):
    def get(self):
        return None

class Proto(Protocol):
    def go(self): ...

@runtime_checkable
class Runtime(Protocol):
    def go(self): ...

@runtime_checkable
class Data(Protocol):
    number: int

class Celsius(float):
    pass

class Goer:
    number = 1
    def go(self):
        return None

goer = Goer()

def function(a, b=1, *c, d=2):
    return a

plain = Plain()
'''


def other_values(h):
    return [NUM, STR, NOTHING, LIST, TUPLE, DICT, THING, CLASS,
            ("a float", const(K(1.5))), ("a bool", const(TRUE)),
            ("a function", const(h.fn("function"))), ("a user object", const(h.fn("plain"))),
            ("a user class", const(h.fn("Plain"))),
            ("a user object like the protocol's", const(h.fn("goer"))),
            ("a user class like the protocol's", const(h.fn("Goer"))),
            ("an array", const(Opaque("array", pytype=Ext("numpy.ndarray"), isclass=False))),
            ("an unknown value", const(Opaque("anything")))]


@check("C11")
def c11(rep, tier):
    rep.rule("C11.own", "each container, TypedDict, NamedTuple, union, None and Any annotation "
             "is decided by the rule for its kind, with checking of non-asta types on as off")
    rep.rule("C11.other", "with checking of non-asta types off, every other annotation accepts "
             "every value without a report and without a constraint")
    rep.rule("C11.crash", "no pair of annotation and value ends with an exception which is not "
             "a reported failure")
    for option in (False, True):
        h = harness(raise_errors=True, print_passes=False, check_non_asta_types=option,
                    check_all_sequence_elements=True)
        for case in all_cases(h):
            scenario(rep, h.w, f"{case.name}, check-non-asta-types={option}", "C11.own",
                     h.check_annotation, checker(h, case), judge_accept(case, case.pairs))
        for case in union_cases(h):
            scenario(rep, h.w, f"{case.name}, check-non-asta-types={option}", "C11.own",
                     h.check_annotation, checker(h, case),
                     judge_union([case.modes[False, option]], True))
        rep.engine(h.w.eng)

    for option in (False, True):
        h = Harness(leaves=[A, B, C], raise_errors=True, print_passes=False,
                    check_non_asta_types=option, check_all_sequence_elements=True)
        h.program(OTHER_PROGRAM, {})
        vals = other_values(h)

        def run_of(ann, val):
            def run(it):
                return it.call(h.check_annotation, [K("arg"), val(it), ann(it),
                                                    it.alloc(ASet([E0])), h.w.ox], {})
            return run

        # None and Any.
        for vname, val in vals:
            def judge_none(out, vname=vname):
                if crashed(out):
                    return f"the check crashes with {errname(out)}"
                pred = Sym("is", Opaque("anything"), NONE, kind="bool")
                is_none = vname == "None" or out.facts.get(pred) is True
                if out.kind == "return" and not is_none:
                    return "a value other than None is accepted"
                if out.kind == "raise" and is_none:
                    return "None is rejected"
                return None
            for aname, a in (("None's type", K(type(None))), ("None", NONE)):
                scenario(rep, h.w, f"{aname} given {vname}, check-non-asta-types={option}",
                         "C11.own", h.check_annotation, run_of(const(a), val), judge_none)

            def judge_any(out):
                if out.kind != "return":
                    return f"rejected with {errname(out)}"
                if result_eqs(out) != {E0}:
                    return "constraints appear or vanish"
                return None
            scenario(rep, h.w, f"Any given {vname}, check-non-asta-types={option}",
                     "C11.own", h.check_annotation, run_of(const(K(typing.Any)), val), judge_any)

        def judge_off(out):
            if out.kind != "return":
                return f"rejected with {errname(out)} although such types are not to be checked"
            if result_eqs(out) != {E0}:
                return "constraints appear or vanish"
            if messages(out):
                return "a failure is reported"
            return None

        def judge_on(out):
            if crashed(out):
                return f"the check crashes with {errname(out)}"
            return None

        for aname, ann in other_annotations(h):
            if aname == "None":
                continue
            for vname, val in vals:
                scenario(rep, h.w, f"{aname} given {vname}, check-non-asta-types={option}",
                         "C11.crash" if option else "C11.other", h.check_annotation,
                         run_of(ann, val), judge_on if option else judge_off,
                         optional=option)
        rep.engine(h.w.eng)


# -- C10: raise-errors off ----------------------------------------------------


@check("C10")
def c10(rep, tier):
    rep.rule("C10.continue", "with raise-errors off, no path of a container or union check "
             "ends with an exception, whatever the elements; a value of the wrong kind is "
             "printed and the remaining elements are still checked")
    rep.rule("C10.call", "with raise-errors off, every path of a well-formed call enters the "
             "body once and gives its result; each unsolvable system is printed")
    for option in (False, True):
        h = harness(raise_errors=False, print_passes=False, check_non_asta_types=option,
                    check_all_sequence_elements=True)
        for case in all_cases(h):
            scenario(rep, h.w, f"{case.name}, check-non-asta-types={option}", "C10.continue",
                     h.check_annotation, checker(h, case), judge_soft(case, case.pairs))
        for case in union_cases(h):
            def judge(out, case=case, option=option):
                if out.kind == "raise":
                    return f"a mismatch stops the check with {errname(out)}"
                if verdict(out, case.modes[False, option]) is False and not messages(out):
                    return "the mismatch is not reported"
                return None
            scenario(rep, h.w, f"{case.name}, check-non-asta-types={option}", "C10.continue",
                     h.check_annotation, checker(h, case), judge)
        rep.engine(h.w.eng)
    # Non-asta annotations.
    h = Harness(leaves=[A, B, C], raise_errors=False, print_passes=False,
                check_non_asta_types=True, check_all_sequence_elements=True)
    h.program(OTHER_PROGRAM, {})
    for aname, ann in other_annotations(h):
        for vname, val in other_values(h):
            def run(it, ann=ann, val=val):
                return it.call(h.check_annotation, [K("arg"), val(it), ann(it),
                                                    it.alloc(ASet([E0])), h.w.ox], {})

            def judge(out):
                if out.kind == "raise":
                    return f"a mismatch stops the check with {errname(out)}"
                if result_eqs(out) != {E0}:
                    return "constraints appear or vanish"
                return None
            scenario(rep, h.w, f"{aname} given {vname}", "C10.continue", h.check_annotation,
                     run, judge, optional=True)
    rep.engine(h.w.eng)
    # The wrapper.
    from . import wrapper
    h = wrapper.harness(raise_errors=False, print_passes=False)
    for fname, args, kwargs, pairs, bargs, bkw in wrapper.CALLS:
        def judge(out):
            bodies = indexed(out, "body")
            if len(bodies) != 1:
                return f"the function is run {len(bodies)} times"
            if indexed(out, "body_raises"):
                return None
            if out.kind != "return" or out.value != h.ret:
                return (f"the function returned, but the call ends with {out.kind} "
                        f"{errname(out) or out.value!r}")
            bad = [i for i, _ in indexed(out, "solve", ok=False)]
            for i in bad:
                if not any(e.kind == "print" for e in out.trace[i:]):
                    return "an unsolvable system is not reported"
            return None
        scenario(rep, h.w, wrapper.label(fname, args, kwargs), "C10.call", h.typechecked,
                 wrapper.caller(h, fname, args, kwargs), judge, min_paths=2)
    rep.engine(h.w.eng)
