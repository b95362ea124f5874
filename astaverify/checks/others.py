""" Verdicts on annotations outside asta's own types, when they are to be checked (C37). """
import collections
import copy
import io
import itertools
import re

from .common import *
from .reports import PLACES, identify_world, messages, nests, place

KINDS = '''
import collections.abc
import io
import re
import enum
from typing import (Any, Annotated, Callable, Collection, Deque, DefaultDict, Dict, FrozenSet,
                    Generic, Hashable, Iterable, Iterator, List, Literal, Mapping, Optional,
                    Pattern, Protocol, Sized, Type, TypeVar, Union, TextIO, BinaryIO, IO,
                    runtime_checkable)
from vt_nests import only, result, weighted, by_keyword, keyword, method, named, typed, point

TV = TypeVar("TV")

class Base:
    pass

class Derived(Base):
    pass

class Other:
    pass

class Celsius(float):
    pass

class Phase(complex):
    pass

class Count(int):
    pass

class Box(Generic[TV]):
    pass

class Big(Box):
    pass

class Called:
    def __call__(self, a, b=1):
        return a

    def bound(self, a, b=1):
        return a

@runtime_checkable
class Duck(Protocol):
    def quack(self): ...
    def walk(self): ...

@runtime_checkable
class Sized2(Protocol):
    def quack(self): ...
    number: int

class Mallard:
    number = 3
    def quack(self):
        return None
    def walk(self):
        return None

class Mute:
    def walk(self):
        return None

base, derived, other = Base(), Derived(), Other()
celsius, phase, count = Celsius(), Phase(), Count()
box, big, called = Box(), Big(), Called()
bound = called.bound
mallard, mute = Mallard(), Mute()
'''


def signatures():
    """ Sources of functions of every small signature: (name, mandatory, optional, varargs). """
    out = []
    for m, o, var, slash, kw in itertools.product(range(4), range(3), (0, 1), (0, 1),
                                                  ("", "k=1", "**k")):
        n = m + o
        if slash and not n:
            continue
        # The defaults vary, as they have no bearing on the number of parameters.
        default = ("1", "None", "0", "''", "()", "False", "int")
        params = [f"a{i}" + (f"={default[(i + len(out)) % 7]}" if i >= m else "")
                  for i in range(n)]
        if slash:
            params.insert((n + 1) // 2, "/")
        if var:
            params.append("*rest")
        elif kw == "k=1":
            params.append("*")
        if kw:
            params.append(kw.replace("1", default[len(out) % 7]))
        name = f"f{m}{o}{var}{slash}{ {'': 0, 'k=1': 1, '**k': 2}[kw]}"
        out.append((name, m, o, var, f"def {name}({', '.join(params)}):\n    return None\n"))
    return out


SIGNATURES = signatures()


def file(cls):
    return Opaque(f"<{cls.__name__}>", pytype=K(cls), isclass=False)


class Values:
    """ Values by name. """

    def __init__(self, kinds):
        def lst(it):
            return it.alloc(AList([K(1), K("x")]))

        def dct(it):
            return it.alloc(ADict([(K("one"), K(1))]))

        self.all = {
            "3": K(3), "0": K(0), "'x'": K("x"), "''": K(""), "1.5": K(1.5), "None": NONE,
            "True": K(True), "2j": K(2j), "b'x'": K(b"x"), "a list": lst, "a dict": dct,
            "a tuple": Tup([K(1)]), "a frozen set": K(frozenset({1})),
            "a range": K(range(3)), "a deque": file(collections.deque),
            "a bytearray": file(bytearray), "a regex": file(re.Pattern),
            "int": K(int), "bool": K(bool), "str": K(str), "dict": K(dict),
            "a text file": file(io.TextIOWrapper), "a string file": file(io.StringIO),
            "a bytes file": file(io.BytesIO), "a raw file": file(io.FileIO),
            "a buffered file": file(io.BufferedReader),
        }
        for n in ("Base", "Derived", "Other", "base", "derived", "other", "celsius", "phase",
                  "count", "box", "big", "called", "bound", "mallard", "mute", "f11000",
                  "Celsius", "Count"):
            self.all[n] = kinds[n]

    def make(self, it, name):
        v = self.all[name]
        return v if isinstance(v, Val) else v(it)


# annotation: (accepted, rejected)
CLASSES = "int bool str dict Base Derived Other Celsius Count".split()
OBJECTS = ["3", "0", "'x'", "1.5", "None", "a list", "a dict", "base", "other"]
TABLE = {
    "int": (["3", "0", "True", "count"], ["'x'", "1.5", "None", "2j", "a list", "int", "base"]),
    "str": (["'x'", "''"], ["3", "b'x'", "None", "a list", "a dict", "str", "1.5"]),
    "bool": (["True"], ["3", "0", "'x'", "None", "a list"]),
    "bytes": (["b'x'", "a bytearray"], ["'x'", "3", "None", "a list", "a text file"]),
    "float": (["1.5", "celsius"], ["'x'", "None", "2j", "a list", "base", "Celsius"]),
    "complex": (["2j", "phase"], ["'x'", "None", "a list", "base"]),
    "object": (["3", "'x'", "None", "a list", "base", "int"], []),
    "range": (["a range"], ["3", "a list", "None"]),
    "Base": (["base", "derived"], ["other", "3", "None", "'x'", "Base", "Derived", "a list"]),
    "Derived": (["derived"], ["base", "other", "3", "None", "Derived"]),
    "Celsius": (["celsius"], ["1.5", "'x'", "3", "None", "base", "2j"]),
    "Phase": (["phase"], ["1.5", "'x'", "2j", "3", "None"]),
    "Count": (["count"], ["3", "True", "'x'", "None"]),
    "Box": (["box", "big"], ["base", "3", "None"]),
    "Box[int]": (["box", "big"], ["base", "3", "None"]),
    "Annotated[int, 'note']": (["3", "True"], ["'x'", "None", "a list"]),
    "Annotated[Base, 'note']": (["base", "derived"], ["other", "None"]),
    "Type": (CLASSES, OBJECTS),
    "type": (CLASSES, OBJECTS),
    "Type[Any]": (CLASSES, OBJECTS),
    "Type[object]": (CLASSES, OBJECTS),
    "Type[int]": (["int", "bool", "Count"], ["str", "dict", "Base", "Celsius"] + OBJECTS),
    "type[int]": (["int", "bool", "Count"], ["str", "dict", "Base", "Celsius"] + OBJECTS),
    "Type[bool]": (["bool"], ["int", "str", "Count"] + OBJECTS),
    "Type[Base]": (["Base", "Derived"], ["Other", "int", "Celsius", "derived"] + OBJECTS),
    "Type[Derived]": (["Derived"], ["Base", "Other", "int", "derived"] + OBJECTS),
    "Type[TV]": (CLASSES, OBJECTS),
    "Literal['x', 3]": (["'x'", "3"], ["''", "0", "None", "b'x'", "1.5", "a list", "a dict",
                                       "base", "Base", "a tuple"]),
    "Literal['x']": (["'x'"], ["''", "3", "None", "b'x'", "a list"]),
    "Literal[None, 0]": (["None", "0"], ["3", "''", "'x'", "a list", "a dict"]),
    "Literal[b'x', True]": (["b'x'", "True"], ["'x'", "0", "None", "3", "a bytearray"]),
    "Duck": (["mallard"], ["mute", "base", "3", "'x'", "None", "a list"]),
    "Sized2": (["mallard"], ["mute", "base", "3", "'x'", "None", "a list"]),
    "TextIO": (["a text file", "a string file"], ["a bytes file", "a raw file", "a buffered file",
                                                  "3", "'x'", "None"]),
    "BinaryIO": (["a bytes file", "a raw file", "a buffered file"],
                 ["a text file", "a string file", "3", "b'x'", "None"]),
    "IO": (["a text file", "a string file", "a bytes file", "a raw file", "a buffered file"],
           ["3", "b'x'", "'x'", "None", "a list"]),
    "IO[str]": (["a text file", "a string file"], ["3", "b'x'", "'x'", "None", "a list"]),
    "Iterable": (["a list", "a dict", "a tuple", "'x'", "a range"], ["3", "None", "base"]),
    "Iterable[int]": (["a list", "a tuple", "a range"], ["3", "None", "base"]),
    "collections.abc.Iterable[int]": (["a list", "a tuple", "a range"], ["3", "None", "base"]),
    "Sized": (["a list", "a dict", "'x'"], ["3", "None", "base"]),
    "Hashable": (["3", "'x'", "None", "base", "a frozen set"], ["a list", "a dict"]),
    "Mapping": (["a dict"], ["a list", "3", "None", "a tuple"]),
    "Mapping[str, int]": (["a dict"], ["a list", "3", "None", "a tuple"]),
    "FrozenSet": (["a frozen set"], ["a list", "3", "None"]),
    "FrozenSet[int]": (["a frozen set"], ["a list", "3", "None"]),
    "frozenset[int]": (["a frozen set"], ["a list", "3", "None"]),
    "Deque[int]": (["a deque"], ["a list", "3", "None"]),
    "Collection[int]": (["a list", "a tuple"], ["3", "None"]),
    "Pattern": (["a regex"], ["'x'", "3"]),
    "Callable": (["called", "bound", "f11000", "Base", "int"],
                 ["3", "'x'", "None", "a list", "base", "a dict"]),
    "collections.abc.Callable": (["called", "bound", "f11000", "Base", "int"],
                                 ["3", "'x'", "None", "a list", "base"]),
    "Callable[..., int]": (["called", "bound", "f11000", "Base", "int"],
                           ["3", "'x'", "None", "a list", "base"]),
    "Callable[[], int]": ([], ["3", "'x'", "None", "a list", "base", "bound", "f11000"]),
    "Callable[[int], int]": (["bound", "f11000"],
                             ["3", "'x'", "None", "a list", "base"]),
    "Callable[[int, str], int]": (["bound", "f11000"],
                                  ["3", "'x'", "None", "a list", "base"]),
    "Callable[[int, str, int], int]": ([], ["3", "None", "base", "bound", "f11000"]),
    "collections.abc.Callable[[int], int]": (["bound", "f11000"],
                                             ["3", "'x'", "None", "a list", "base"]),
    "Optional[int]": (["3", "None"], ["'x'", "base", "a list"]),
    "Union[str, Base]": (["'x'", "base", "derived"], ["3", "None", "other"]),
    "Union[Type[Base], float]": (["Base", "Derived", "1.5"], ["'x'", "Other", "base", "None"]),
    "List[str]": ([], ["3", "a list", "'x'"]),
    "Dict[str, int]": (["a dict"], ["3", "a list"]),
    "Dict[str, str]": ([], ["a dict", "3"]),
}
ARITIES = ["[], int", "[int], int", "[int, str], int", "[int, str, int], int",
           "[int, int, int, int], int"]
NESTED = ("itself", "List, 3rd", "Tuple[X, ...], 2nd", "Dict value", "NamedTuple, 2nd",
          "Optional")


def world(raising):
    cw, prog = identify_world(raising, False, True)
    names = "\n".join(f"T{i} = {text}" for i, text in enumerate(TABLE))
    names += "\n" + "\n".join(f"C{i} = Callable[{a}]\nA{i} = collections.abc.Callable[{a}]"
                              for i, a in enumerate(ARITIES))
    cw.w.eng.extra_sources["vt_kinds"] = KINDS + "\n" + "\n".join(
        s[-1] for s in SIGNATURES) + names
    return cw, prog, cw.w.load("vt_kinds").scope.vars


@check("C37")
def c37(rep, tier):
    """ Verdicts. """
    rep.rule("verdict", "with check-non-asta-types on, every path of a decorated call rejects a "
             "value (argument, keyword, result, element of a container) which is not of the "
             "annotated kind by a reported failure, and accepts one which is without a failure: "
             "classes, float and complex, Type, Literal, Callable, protocols, files, generics")
    rep.rule("arity", "a callable is rejected for Callable[[A1, ..., An], R] exactly if it cannot "
             "take n positional arguments, for every number of mandatory, optional and variadic "
             "parameters")
    for raising in (True, False):
        cw, prog, kinds = world(raising)
        values = Values(kinds)
        anchor = anchor_text(cw.w.get("asta.origins", "check_annotation"))
        ways = [n for n in nests() if n.text in NESTED]
        count = 0
        for i, (text, (good, bad)) in enumerate(TABLE.items()):
            for names, fits in ((good, True), (bad, False)):
                for name in names:
                    for n, nest in enumerate(ways):
                        for p, where in enumerate(PLACES):
                            count += 1
                            if tier == "quick" and (i + n + p + count) % 5 and (n, p) != (0, 0):
                                continue
                            if nest.text == "Optional" and name == "None":
                                continue
                            one(rep, cw, prog, text, kinds[f"T{i}"], name,
                                lambda it, name=name: values.make(it, name), fits, nest, where,
                                anchor, "verdict",
                                lambda it, name=(good + [name])[0]: values.make(it, name))
        for i, a in enumerate(ARITIES):
            for fname, m, o, var, src in SIGNATURES:
                fits = m <= i and (bool(var) or i <= m + o)
                for kind in "CA":
                    one(rep, cw, prog, f"Callable[{a}]", kinds[f"{kind}{i}"],
                        src.split("\n", maxsplit=1)[0], lambda it, f=fname: kinds[f], fits,
                        ways[0], "argument", anchor, "arity")
        # A default may be anything, such as an array, which compares element by element.
        array = Opaque("array", pytype=Ext("numpy.ndarray"), isclass=False)
        for i, a in enumerate(ARITIES):
            for fname, m, o in (("f10001", 1, 0), ("f11000", 1, 1), ("f11001", 1, 1),
                                ("f02000", 0, 2)):
                fn = copy.copy(kinds[fname])
                fn.defaults = [array] * len(fn.defaults)
                fn.kwdefaults = [d and array for d in fn.kwdefaults]
                for kind in "CA":
                    one(rep, cw, prog, f"Callable[{a}]", kinds[f"{kind}{i}"],
                        f"{fname} with arrays for defaults", lambda it, fn=fn: fn,
                        m <= i <= m + o, ways[0], "argument", anchor, "arity")
        rep.engine(cw.w.eng)


def one(rep, cw, prog, text, ann, name, make, fits, nest, where, anchor, rule, fitting=None):
    """ One call. """
    def run(it):
        value = make(it)
        good = (fitting or make)(it)
        whole = nest.ann(it, prog, ann)
        if nest.text == "NamedTuple, 2nd":
            val = it.call(prog["point"], [whole, good, value], {}, None)
        else:
            val = nest.val(it, prog, whole, good, value)
        exc, _, events = place(it, prog, where, whole, val, K(int), K(3), cw.body(), cw)
        found = messages(exc, events, "FAILED")
        bodies = [e for e in events if e.kind == "body"]
        msg = None
        if exc is not None and (not isinstance(exc, Exc) or not found or
                                not is_type_error(Outcome("raise", exc, it))):
            msg = f"the check crashes with {errname(Outcome('raise', exc, it))}"
        elif fits and found:
            msg = "rejected although it is of the annotated kind"
        elif not fits and not found:
            msg = "accepted although it is not of the annotated kind"
        elif not fits and cw.raising and exc is None:
            msg = "the failure is not raised"
        elif not fits and cw.raising and where != "result" and bodies:
            msg = "the function runs although the failure is to be raised"
        elif not (not fits and cw.raising) and exc is not None:
            msg = f"raises {errname(Outcome('raise', exc, it))}"
        it.event("judged", msg=msg)
        return NONE

    def judge(out):
        if out.kind == "raise":
            return f"raises {errname(out)} at {site_text(out.site)}"
        return out.events("judged")[-1].data["msg"]

    scenario(rep, cw.w, f"{where}, {nest.text}: {text} with {name}, raise-errors={cw.raising}",
             rule, anchor, run, judge)
