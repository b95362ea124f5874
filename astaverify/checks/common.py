""" Obligations, verdicts and reports of the checks. """
import mmap
import multiprocessing
import time
import traceback

from ..core import AbsRaise, Outcome, Unsupported
from ..values import (
    ELL, FALSE, NONE, TRUE, ADict, AList, ASet, Bound, Cls, Exc, Ext, Fn, Gen, Inst,
    K, Mod, Native, Obj, Opaque, Scope, Spread, Sym, Tup, Val, Wrap, kbool, mentions,
    subterms,
)
from ..world import OPTIONS, Anchor, Undecided, World, bound

REGISTRY = {}


class Violation:
    def __init__(self, rule, construct, message, path=""):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.path = path

    def key(self):
        return f"{self.rule} at {self.construct}"

    def text(self):
        out = f"{self.rule}: {self.message}\n    at {self.construct}"
        if self.path:
            out += f"\n    path: {self.path}"
        return out


class Claims:
    """ Which worker takes which scenario: the first to reach it. """

    def __init__(self, size=1 << 20):
        self.flags = mmap.mmap(-1, size)
        self.lock = multiprocessing.get_context("fork").Lock()

    def take(self, n):
        if n >= len(self.flags):
            raise RuntimeError("too many scenarios")
        with self.lock:
            if self.flags[n]:
                return False
            self.flags[n] = 1
            return True


class Report:
    """ What a check covered and found. """

    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.functions = {}
        self.rules = {}
        self.samples = []
        self.sites = []
        self.start = time.time()
        self.claims = None
        self.count = 0
        self.granted = False
        self.lost = set()       # parts which could not be run

    def ahead(self):
        """ Claim the next scenario before building what it needs. """
        self.granted = self.mine()
        return self.granted

    def mine(self):
        """ Whether the next scenario is to be decided here. """
        if self.granted:
            self.granted = False
            return True
        self.count += 1
        return self.claims is None or self.claims.take(self.count)

    def merge(self, other):
        """ Add what another worker found. """
        self.violations += other.violations
        self.undecided += other.undecided
        self.obligations += other.obligations
        self.discharged += other.discharged
        self.paths += other.paths
        for k, n in other.functions.items():
            self.functions[k] = self.functions.get(k, 0) + n
        self.rules.update(other.rules)
        self.samples += other.samples
        self.lost |= other.lost
        self.sites += [s for s in other.sites if s not in self.sites]

    def settle(self):
        """ The order of the scenarios, whoever took them. """
        self.violations.sort(key=lambda v: v.order)
        self.undecided = [t for _, t in sorted(set(self.undecided))]
        self.lost = [t for _, t in sorted(self.lost)]
        self.samples = [t for _, t in sorted(self.samples)][:12]
        seen = set()
        self.violations = [v for v in self.violations if (v.key(), v.message) not in seen and
                           not seen.add((v.key(), v.message))]
    def rule(self, name, text):
        self.rules[name] = text

    def violate(self, rule, construct, message, path=""):
        v = Violation(rule, construct, message, path)
        if all(w.key() != v.key() or w.message != v.message for w in self.violations):
            v.order = self.count
            self.violations.append(v)

    def oblige(self, n=1, ok=True):
        self.obligations += n
        if ok:
            self.discharged += n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append((self.count, text))

    def engine(self, eng):
        self.paths += eng.paths
        for k, n in eng.functions.items():
            if k.startswith("asta"):
                self.functions[k] = self.functions.get(k, 0) + n


def site_text(site):
    if site is None:
        return "?"
    mod, line, fn = site
    return f"{mod.replace('.', '/')}.py:{line} in {fn}"


def last_asta_site(out):
    """ The construct at which a path ended. """
    it = out.it
    if out.site is not None and out.site[0].startswith("asta"):
        return site_text(out.site)
    for f in reversed(out.factlist):
        if f[2][0].startswith("asta"):
            return site_text(f[2])
    return site_text(it.pos) if it.pos[0].startswith("asta") else "?"


def anchor_text(fn):
    """ file:line (function) of a definition. """
    if isinstance(fn, Wrap):
        fn = fn.fn
    if isinstance(fn, Bound):
        fn = fn.fn
    if isinstance(fn, (Fn, Cls)):
        line = getattr(fn.node, "lineno", 0)
        return f"{fn.module.replace('.', '/')}.py:{line} in {fn.qualname}"
    return repr(fn)


def scenario(rep, world, name, rule, construct, run, judge, optional=False, max_paths=None,
             min_paths=1):
    """
    One obligation: interpret ``run`` along all its paths; ``judge`` says for each
    outcome what is wrong (None: nothing; Undecided: cannot be said).
    """
    if not rep.mine():
        return
    try:
        outs = world.explore(run, max_paths)
        if len(outs) < min_paths:
            raise Undecided(f"only {len(outs)} feasible paths")
        bad = []
        for out in outs:
            msg = judge(out)
            if msg:
                bad.append((out, msg))
        for out, msg in bad[:4]:
            rep.violate(rule, construct if isinstance(construct, str) else anchor_text(construct),
                        f"[{name}] {msg}", out.describe(40))
        rep.oblige(ok=not bad)
        if outs:
            rep.sample(f"{name}: {len(outs)} paths, e.g. {outs[0].describe(6)}"[:300])
    except (Unsupported, Undecided) as err:
        if not optional:
            rep.oblige(ok=False)
        rep.undecided.append((rep.count, f"{name}: {err}" + (" (optional)" if optional else "")))
    except Exception:  # pylint: disable=broad-except
        rep.oblige(ok=False)
        rep.undecided.append((rep.count, f"{name}: the analysis failed: "
                              f"{traceback.format_exc()}"))


def compared(rep, world, name, rule, construct, run, judge, **options):
    """
    As scenario, but ``judge`` is part of the interpretation: it evaluates the
    definition of the property on each path, which is split further where the
    definition depends on something the code did not look at.
    """

    def go(it):
        site = None
        try:
            out = Outcome("return", run(it), it)
        except AbsRaise as err:
            out = Outcome("raise", err.exc, it)
            out.site = site = err.site
        nfacts = len(it.factlist)
        text = repr(out.value)[:200]
        msg = judge(out)
        it.event("compared", msg=msg, result=f"{out.kind} {text}", nfacts=nfacts, place=site)
        return NONE

    def verdict(out):
        ev = out.events("compared")[-1]
        return f"{ev.msg} (result: {ev.result})" if ev.msg else None

    scenario(rep, world, name, rule, construct, go, verdict, **options)


def errname(out):
    """ The class name of the exception a path ends with (or None). """
    if out.kind != "raise":
        return None
    cls = out.value.cls if isinstance(out.value, Exc) else None
    if isinstance(cls, K):
        return cls.v.__name__
    if isinstance(cls, Cls):
        return cls.name
    if isinstance(cls, Ext):
        return cls.path
    return repr(out.value)


def is_type_error(out):
    if out.kind != "raise":
        return False
    res = out.it.issub(out.value.cls, K(TypeError)) if isinstance(out.value, Exc) else None
    return bool(res)


PART = 1 << 16


def run_all(rep, prop, tier):
    """ Every part of the check of a property. A part which cannot be run is undecided. """
    for n, fn in enumerate(REGISTRY[prop]):
        rep.count = n * PART
        rep.granted = False
        try:
            fn(rep, tier)
        except (Anchor, Unsupported, Undecided) as err:
            rep.lost.add((rep.count, f"{fn.__name__}: {type(err).__name__}: {err}"))
        except Exception:  # pylint: disable=broad-except
            rep.lost.add((rep.count, f"{fn.__name__}: {traceback.format_exc()}"))


def check(prop):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(fn)
        return fn
    return deco
