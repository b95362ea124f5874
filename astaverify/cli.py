""" Command line: ``python3 -m astaverify check C01``. """
import json
import os
import pickle
import sys
import tempfile
import time
import traceback

from .checks import common

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ("wrapper", "containers", "effects", "shapes", "types_", "stores", "resolve", "untouched", "histories",
           "optional", "config", "reports",
           "others")


def load_checks():
    import importlib
    for name in MODULES:
        importlib.import_module(f"astaverify.checks.{name}")


def known_findings():
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.isfile(path):
        with open(path, encoding="utf-8") as handle:
            for line in handle:
                line = line.strip()
                if line.startswith("finding: property="):
                    rest = line[len("finding: property="):]
                    prop, key = rest.split(" ", 1)
                    out.setdefault(prop, set()).add(key)
    return out


def run_check(prop, tier, workers=None):
    """ Run a check; its scenarios are shared among forked workers. """
    sys.setrecursionlimit(20000)
    if workers is None:
        workers = int(os.environ.get("ASTAVERIFY_WORKERS", "0") or 0) or \
            max(1, min(8, os.cpu_count() or 1))
    if workers == 1:
        rep = common.Report(prop)
        common.run_all(rep, prop, tier)
        rep.settle()
        return rep
    claims = common.Claims()
    children = []
    sys.stdout.flush()
    sys.stderr.flush()
    for n in range(workers):
        out = tempfile.TemporaryFile()  # pylint: disable=consider-using-with
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                rep = common.Report(prop)
                rep.claims = claims
                result = worker(rep, prop, tier)
                out.write(pickle.dumps(result))
                out.flush()
                code = 0
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(code)  # pylint: disable=protected-access
        children.append((pid, out))
    rep = common.Report(prop)
    failed = None
    for pid, out in children:
        os.waitpid(pid, 0)
        out.seek(0)
        data = out.read()
        out.close()
        if not data:
            failed = failed or RuntimeError("a worker ended without a result")
            continue
        kind, val = pickle.loads(data)
        if kind == "report":
            rep.merge(val)
        elif kind == "anchor":
            failed = common.Anchor(val)
        else:
            failed = failed or RuntimeError(val)
    if failed is not None:
        raise failed
    rep.settle()
    return rep


def worker(rep, prop, tier):
    try:
        common.run_all(rep, prop, tier)
    except common.Anchor as err:
        return "anchor", str(err)
    except Exception:  # pylint: disable=broad-except
        return "error", traceback.format_exc()
    rep.claims = None
    return "report", rep


def write_evidence(rep, tier, new, known):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    coverage = {
        "explanation": "Abstract interpretation of /repo's current source: each obligation "
        "interprets the named entry along all its abstract paths over unknown inputs and "
        "applies the rules below to every path (no code of the repository is run).",
        "rules": rep.rules,
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "abstract_paths": rep.paths,
        "functions_analysed": dict(sorted(rep.functions.items())),
        "samples": rep.samples,
        "undecided": rep.undecided,
        "not_run": rep.lost,
    }
    if rep.sites:
        coverage["sites"] = rep.sites
    data = {
        "property": rep.prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": coverage,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - rep.start, 3),
        "violations": [v.text() for v in new],
        "known_findings": [v.text() for v in known],
    }
    path = os.path.join(HERE, "evidence", f"{rep.prop}.json")
    with open(path, "w", encoding="utf-8") as handle:
        json.dump(data, handle, indent=1)


ASSUMPTIONS = [
    "numpy, sympy, torch, tensorflow, oxentiel and the standard library behave as modelled",
    "facts about distinct opaque inputs are independent",
]


def main():
    if len(sys.argv) < 3 or sys.argv[1] != "check":
        print("usage: python3 -m astaverify check <property|all>")
        sys.exit(2)
    load_checks()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    props = sorted(common.REGISTRY) if sys.argv[2] == "all" else sys.argv[2:]
    worst = 0
    for prop in props:
        worst = max(worst, one(prop, tier))
    sys.exit(worst)


def one(prop, tier):
    try:
        rep = run_check(prop, tier)
    except common.Anchor as err:
        print(f"ERROR property={prop}: anchor lost: {err}")
        return 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f"ERROR property={prop}: the analysis failed")
        return 2
    listed = known_findings().get(prop, set())
    new = [v for v in rep.violations if v.key() not in listed]
    known = [v for v in rep.violations if v.key() in listed]
    write_evidence(rep, tier, new, known)
    print(f"{prop}: {rep.discharged}/{rep.obligations} obligations discharged, "
          f"{rep.paths} abstract paths, {len(rep.functions)} functions analysed, "
          f"{len(rep.undecided)} undecided, {time.time() - rep.start:.1f} s")
    for line in rep.undecided:
        print(f"  undecided: {line}")
    for line in rep.lost:
        print(f"  not run: {line}")
    for v in known:
        print(f"KNOWN-FINDING: property={prop} {v.key()}")
    if new:
        path = os.path.join(HERE, "evidence", f"{prop}.violation.txt")
        with open(path, "w", encoding="utf-8") as handle:
            for v in new:
                handle.write(v.text() + "\n\n")
        for v in new[:6]:
            print("  " + v.text())
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if rep.obligations == 0 or rep.discharged == 0:
        print(f"ERROR property={prop}: nothing was decided")
        return 2
    return 0
