""" The world the analysed code is put in: configuration, library models, stubs. """
import os

from .core import AbsRaise, Engine, Interp, Prune, Source, Unsupported
from .values import (
    FALSE, NONE, TRUE, ADict, AList, ASet, Cls, Exc, Ext, Fn, Inst, K, Native,
    Opaque, Spread, Sym, Tup, kbool,
)

REPO = os.environ.get("ASTAVERIFY_REPO", "/repo")

# A semantic model of ``oxentiel.Oxentiel`` (an installed library).
OXENTIEL = '''
import copy

class Oxentiel:
    def __init__(self, settings, mutable=False):
        object.__setattr__(self, "settings", copy.deepcopy(settings))
        object.__setattr__(self, "mutable", mutable)
        for key, value in self.settings.items():
            object.__setattr__(self, key, value)

    def __setattr__(self, item, value):
        if not self.mutable:
            raise AttributeError("immutable")
        object.__setattr__(self, item, value)
        self.settings[item] = value

    def __getitem__(self, item):
        if item not in self.settings:
            raise KeyError(item)
        return self.settings[item]

    def __setitem__(self, item, value):
        object.__setattr__(self, item, value)
        self.settings[item] = value

    def __contains__(self, item):
        return item in self.settings

    def __iter__(self):
        return iter(self.settings)

    def __len__(self):
        return len(self.settings)

    def get(self, item, default=None):
        return self.settings.get(item, default)

    def keys(self):
        return self.settings.keys()

    def values(self):
        return self.settings.values()

    def items(self):
        return self.settings.items()

    def copy(self):
        return dict(self.settings)

Ox = Oxentiel
'''

OPTIONS = ("on", "raise_errors", "print_passes", "check_non_asta_types",
           "check_all_sequence_elements")


class Anchor(Exception):
    """ A construct which the check is anchored at has vanished. """


class Undecided(Exception):
    """ The property could not be decided on this path. """


_SOURCES = {}


def source(root=None):
    root = root or REPO
    if root not in _SOURCES:
        _SOURCES[root] = Source(root)
    return _SOURCES[root]


class World:
    """ An engine with the modules loaded and a configuration object. """

    def __init__(self, torch=True, tensorflow=True, options=None, real_config=False,
                 programs=None, max_paths=6000, root=None):
        self.eng = Engine(source(root), torch=torch, tensorflow=tensorflow,
                          max_paths=max_paths)
        self.eng.extra_sources["oxentiel"] = OXENTIEL
        self.eng.extra_sources.update(programs or {})
        self.eng.skip_bodies = {"asta"}
        self.options = dict(options or {})
        self.ox = None
        self.pins = {}
        self.pin_rules = []
        self.eng.on_predicate = self.on_predicate
        if not real_config:
            self.make_ox()
            if "asta.config" in self.present():
                self.eng.stub("asta.config:get_ox", lambda it, fn, a, k, n: self.ox)

    def present(self):
        src = self.eng.source
        return {"asta." + f[:-3] for f in os.listdir(os.path.join(src.root, "asta"))
                if f.endswith(".py")}

    def on_predicate(self, it, pred):
        if pred in self.pins:
            return self.pins[pred]
        for rule in self.pin_rules:
            res = rule(it, pred)
            if res is not None:
                return res
        return None

    def make_ox(self):
        def run(it):
            mod = it.load("oxentiel")
            vals = {}
            for opt in OPTIONS:
                vals[opt] = kbool(self.options[opt]) if opt in self.options else \
                    Opaque(f"config.{opt}", kind="bool", pytype=K(bool))
            settings = ADict([(K(k), v) for k, v in vals.items()])
            return it.call(mod.scope.vars["Oxentiel"], [settings], {"mutable": TRUE}, None)

        self.ox = self.eng.setup(run)

    def load(self, name):
        mod = self.eng.setup(lambda it: it.load(name))
        if mod is None:
            raise Anchor(f"module {name} not found")
        return mod

    def get(self, modname, *path):
        """ A module level definition (the anchor of a check). """
        self.load(modname)
        mod = self.eng.modules[modname]
        val = mod.scope.vars.get(path[0])
        if val is None:
            # moved to another module?
            for other in sorted(self.eng.modules):
                if other.startswith("asta") and val is None:
                    val = self.eng.modules[other].scope.vars.get(path[0])
        if val is None:
            raise Anchor(f"{modname}.{path[0]} not found")
        for name in path[1:]:
            if not isinstance(val, Cls) or name not in val.attrs:
                raise Anchor(f"{modname}.{'.'.join(path)} not found")
            val = val.attrs[name]
        return val

    def stub(self, modname, qualname, handler):
        """ Replace a function by a model of its contract. """
        val = self.get(modname, *qualname.split("."))
        if isinstance(val, Fn):
            modname, qualname = val.module, val.qualname
        self.eng.stub(f"{modname}:{qualname}", handler)

    def explore(self, run, max_paths=None):
        return self.eng.explore(run, max_paths)


def bound(it, fn, args, kwargs, names):
    """ The arguments of a stubbed call, by these names or else by position. """
    b = it.bind_args(fn, args, kwargs)
    if b is None:
        raise Anchor(f"{fn.name} no longer takes ({', '.join(names)})")
    if all(n in b for n in names):
        return b
    params = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args]
    order = [n if n in params else None for n in names]
    if len(params) < len(names) or any(
            n is not None and params.index(n) != i for i, n in enumerate(order)):
        raise Anchor(f"{fn.name} no longer takes ({', '.join(names)})")
    return {**b, **{n: b[params[i]] for i, n in enumerate(names)}}


def raise_exc(it, name, *args):
    it.raise_(name, *args)
