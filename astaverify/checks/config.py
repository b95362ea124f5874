""" The configuration (C24). """
import configparser as real_configparser
import os
import posixpath

from .common import *

MODELS = {
    # Semantic models of the parsers over the files of the scenario.
    "vt_files": '''
class Text:
    def __init__(self, path):
        self.path = path

class File:
    def __init__(self, path, encoding):
        self.path = path
        self.encoding = encoding

    def __enter__(self):
        return self

    def __exit__(self, kind, value, trace):
        return None

    def read(self):
        return Text(self.path)

    def close(self):
        return None
''',
    "toml": '''
from vt_files import File, Text

class TomlDecodeError(ValueError):
    pass

def load(f):
    path = f if isinstance(f, str) else f.path
    if KIND_OF(path) != "toml":
        raise TomlDecodeError("no toml")
    return CONTENT_OF(path)

def loads(text):
    return load(text)
''',
    "configparser": '''
from vt_files import File, Text

class Error(Exception):
    pass

class NoSectionError(Error):
    pass

class NoOptionError(Error):
    pass

class MissingSectionHeaderError(Error):
    pass

class SectionProxy:
    def __init__(self, parser, name):
        self.parser = parser
        self.name = name

    def __getitem__(self, key):
        if key not in self.parser._sections[self.name]:
            raise KeyError(key)
        return self.parser._sections[self.name][key]

    def __contains__(self, key):
        return key in self.parser._sections[self.name]

    def __len__(self):
        return len(self.parser._sections[self.name])

    def __iter__(self):
        return iter(list(self.parser._sections[self.name]))

    def get(self, key, fallback=None):
        return self.parser._sections[self.name].get(key, fallback)

    def keys(self):
        return self.parser._sections[self.name].keys()

    def values(self):
        return self.parser._sections[self.name].values()

    def items(self):
        return self.parser._sections[self.name].items()


class RawConfigParser:
    def __init__(self, defaults=None, interpolation=None, strict=True):
        self._sections = {}
        self._proxies = {}
        self.default_section = "DEFAULT"

    def _read(self, path):
        if KIND_OF(path) != "ini":
            raise MissingSectionHeaderError(path)
        content = CONTENT_OF(path)
        for name in content:
            if name not in self._sections:
                self._sections[name] = {}
                self._proxies[name] = SectionProxy(self, name)
            for key in content[name]:
                self._sections[name][key] = content[name][key]

    def read(self, filenames, encoding=None):
        if isinstance(filenames, str):
            filenames = [filenames]
        done = []
        for name in filenames:
            if IS_FILE(name):
                self._read(name)
                done.append(name)
        return done

    def read_file(self, f, source=None):
        self._read(f.path)

    def read_string(self, text, source=None):
        self._read(text.path)

    def sections(self):
        return list(self._sections.keys())

    def has_section(self, name):
        return name in self._sections

    def add_section(self, name):
        self._sections[name] = {}
        self._proxies[name] = SectionProxy(self, name)

    def set(self, section, option, value=None):
        if section not in self._sections:
            raise NoSectionError(section)
        self._sections[section][option] = value

    def __contains__(self, name):
        return name == self.default_section or self.has_section(name)

    def __getitem__(self, name):
        if name not in self._proxies:
            raise KeyError(name)
        return self._proxies[name]

    def __iter__(self):
        return iter([self.default_section] + list(self._sections))

    def options(self, section):
        if section not in self._sections:
            raise NoSectionError(section)
        return list(self._sections[section])

    def has_option(self, section, option):
        return section in self._sections and option in self._sections[section]

    def items(self, section, raw=False, vars=None):
        if section not in self._sections:
            raise NoSectionError(section)
        out = []
        for key in self._sections[section]:
            out.append((key, self._sections[section][key]))
        return out

    def get(self, section, option, raw=False, vars=None, fallback=None):
        if section not in self._sections:
            raise NoSectionError(section)
        if option not in self._sections[section]:
            raise NoOptionError(option)
        return self._sections[section][option]


class ConfigParser(RawConfigParser):
    pass
''',
}

USER = '''
from asta import config

def once():
    return config.get_ox()

def twice():
    first = config.get_ox()
    second = config.get_ox()
    return first is second
'''

CWD = "/w/pkg/sub"
NAMES = ("astarc", ".astarc", "pyproject.toml", "setup.cfg")
RC = ("astarc", ".astarc")
ENV_PATH = "/somewhere/rc"
DEFAULTS = "/repo/asta/defaults/astarc"


def is_file(path):
    return Sym("isfile", K(path), kind="bool")


def absolute(path):
    return posixpath.normpath(posixpath.join(CWD, path))


class Place:
    """ The surroundings: home, variable, and what each kind of file contains. """

    def __init__(self, home, env, contents, free=None, there=()):
        self.free = free            # the files which may exist (None: any)
        self.home = home            # what expanduser("~") gives
        self.env = env              # the value of ASTARC (None: not set)
        self.contents = contents    # kind of file -> content (sections)
        self.known = {"/__init__.py": False, DEFAULTS: True}
        self.known.update({p: True for p in there})

    def existence(self, path):
        """ True, False, or a predicate. """
        if path in self.known:
            return kbool(self.known[path])
        if self.free is not None and path not in self.free:
            return FALSE
        return is_file(path)

    def kind(self, path):
        return "toml" if path.endswith(".toml") else "ini"

    def content(self, path):
        if path == DEFAULTS:
            return packaged()
        return marked(self.content_for(path), path)

    def content_for(self, path):
        base = posixpath.basename(path)
        if base == "pyproject.toml":
            return self.contents["toml"]
        if base == "setup.cfg":
            return self.contents["cfg"]
        return self.contents["rc"]

    # -- the definition -------------------------------------------------------------

    def present(self, it, path):
        return it.truth(self.existence(absolute(path)))

    def is_config(self, name):
        if name == "pyproject.toml":
            tool = self.contents["toml"].get("tool")
            return isinstance(tool, dict) and "asta" in tool
        if name == "setup.cfg":
            return any(s.startswith("asta.") for s in self.contents["cfg"])
        return True

    def found(self, it):
        """ The configuration file in force. """
        for name in NAMES:
            if self.is_config(name) and self.present(it, name):
                return absolute(name)
        folder = CWD
        while self.present(it, posixpath.join(folder, "__init__.py")):
            folder = posixpath.dirname(folder)
            for name in RC:
                if self.present(it, posixpath.join(folder, name)):
                    return posixpath.join(folder, name)
        if self.env is not None and self.present(it, self.env):
            return self.env
        if self.env is not None and it.truth(Sym("isdir", K(self.env), kind="bool")):
            raise Undecided("a directory")      # the documentation doesn't say
        if self.home not in ("~", "/root"):
            for name in (".astarc", ".config/astarc"):
                path = posixpath.join(self.home, name)
                if self.present(it, path):
                    return path
        return "/etc/astarc" if self.present(it, "/etc/astarc") else None

    def master(self, path):
        if path is None:
            return {}
        content = self.content(path)
        if path.endswith(".toml"):
            sections = content["tool"]["asta"]
            named = [n for n in sections if n.upper() == "MASTER"]
        else:
            sections = content
            named = [n for n in sections
                     if (n[5:] if n.startswith("asta.") else n).upper() == "MASTER"]
        return dict(sections[named[-1]]) if named else {}


def marked(content, path):
    """ The content with each file's own mark among the options. """
    if not isinstance(content, dict):
        return content
    return {k: dict(v, **{"found-in": path}) if k.split(".")[-1].upper() == "MASTER" and
            isinstance(v, dict) else marked(v, path) for k, v in content.items()}


def packaged():
    parser = real_configparser.ConfigParser()
    with open(os.path.join(source_root(), "asta", "defaults", "astarc"), encoding="utf-8") as f:
        parser.read_file(f)
    return {s: dict(parser.items(s, raw=True)) for s in parser.sections()}


def source_root():
    from ..world import REPO
    return REPO


def make_world(place):
    w = World(torch=False, tensorflow=False, real_config=True)
    eng = w.eng
    eng.unroll = 16

    def path_of(it, v):
        if isinstance(v, K) and isinstance(v.v, str):
            return absolute(v.v)
        raise Unsupported(f"the path {v!r}")

    def present(it, args, kwargs=None, node=None):
        return place.existence(path_of(it, args[0]))

    def exists(it, args, kwargs, node):
        res = present(it, args)
        if isinstance(res, K) or it.truth(res):
            return res if isinstance(res, K) else TRUE
        path = path_of(it, args[0])
        return Sym("isdir", K(path), kind="bool") if path == place.env else FALSE

    def pure(fn):
        def call(it, args, kwargs, node):
            if kwargs or not all(isinstance(a, K) and isinstance(a.v, str) for a in args):
                raise Unsupported("an unknown path")
            return K(fn(*[a.v for a in args]))
        return call

    def expanduser(it, args, kwargs, node):
        text = args[0].v if isinstance(args[0], K) else None
        if not isinstance(text, str):
            raise Unsupported("an unknown path")
        if text == "~" or text.startswith("~/"):
            return K(place.home + text[1:])
        return K(text)

    def opened(it, args, kwargs, node):
        path = path_of(it, args[0])
        mode = args[1] if len(args) > 1 else kwargs.get("mode", K("r"))
        it.event("opened", path=path, mode=mode)
        if not it.truth(present(it, [K(path)])):
            it.raise_("FileNotFoundError", K(path))
        mod = it.load("vt_files")
        return it.call(mod.scope.vars["File"], [K(path), kwargs.get("encoding", NONE)], {}, None)

    eng.ext_models.update({
        "os.path.isfile": present, "os.path.exists": exists, "os.path.lexists": exists,
        "os.path.abspath": pure(absolute), "os.path.realpath": pure(absolute),
        "os.path.join": pure(posixpath.join), "os.path.dirname": pure(posixpath.dirname),
        "os.path.basename": pure(posixpath.basename), "os.path.normpath": pure(posixpath.normpath),
        "os.path.split": lambda it, a, k, n: Tup([K(x) for x in posixpath.split(a[0].v)]),
        "os.path.splitext": lambda it, a, k, n: Tup([K(x) for x in posixpath.splitext(a[0].v)]),
        "os.path.expanduser": expanduser, "os.getcwd": lambda it, a, k, n: K(CWD),
        "os.path.isabs": pure(posixpath.isabs),
        "os.getenv": lambda it, a, k, n: it.call(it.getattr(eng.ext_attrs["os.environ"], "get"),
                                                 a, k, n),
        "open": opened, "io.open": opened,
    })
    for name in ("sep", "pardir", "curdir"):
        for lib in ("os", "os.path"):
            eng.ext_attrs[f"{lib}.{name}"] = K(getattr(posixpath, name))

    def environ(it):
        env = ADict([] if place.env is None else [(K("ASTARC"), K(place.env))])
        it.alloc(env)
        return env

    eng.ext_attrs["os.environ"] = eng.setup(environ)

    def native(fn):
        return Native(fn.__name__, fn)

    def kind_of(it, args, kwargs, node):
        return K(place.kind(path_of(it, args[0])))

    def content_of(it, args, kwargs, node):
        path = path_of(it, args[0])
        it.event("content", path=path)
        return lifted(it, place.content(path))

    def native_present(it, args, kwargs, node):
        return present(it, args)

    globals_ = {"KIND_OF": native(kind_of), "CONTENT_OF": native(content_of),
                "IS_FILE": native(native_present)}
    for name, text in MODELS.items():
        eng.extra_sources[name] = text
        eng.program_globals[name] = globals_
    eng.extra_sources["vt_config"] = USER
    return w


def lifted(it, content):
    if isinstance(content, dict):
        res = ADict([(K(k), lifted(it, v)) for k, v in content.items()])
        it.alloc(res)
        return res
    if isinstance(content, list):
        res = AList([lifted(it, v) for v in content])
        it.alloc(res)
        return res
    return content if isinstance(content, Val) else K(content)


def setting(name):
    return Opaque(name, kind="str", pytype=K(str))


def master_variants(tier):
    """ Options a user sets (written as documented). """
    names = ["on", "raise-errors", "print-passes", "check-non-asta-types",
             "check-all-sequence-elements"]
    out = [{}]
    for i, n in enumerate(names):
        out.append({n: setting("v." + n)})
        out.append({n: "no" if i % 2 else "yes", names[(i + 2) % 5]: setting("w")})
    out.append({n: "no" for n in names})
    out.append({n: "yes" for n in names})
    out.append({"on": setting("v.on"), "raise-errors": setting("v.raise"),
                "something-else-entirely": setting("v.else")})
    out.append({"on": "True", "print-passes": "NO", "raise-errors": "off"})
    out.append({"a-b-c": "yes", "plain": "no", "d": "dash-es"})
    if tier != "quick":
        for i, n in enumerate(names):
            for m in names[i + 1:]:
                out.append({n: setting("v." + n), m: setting("v." + m)})
        out.append({n: setting("v." + n) for n in names[:4]})
    return out


PARENTS = ["/w/pkg", "/w", "/"]
IN_CWD = [absolute(n) for n in NAMES]
INITS = [posixpath.join(d, "__init__.py") for d in (CWD, "/w/pkg", "/w")]
ABOVE = [posixpath.join(d, n) for d in PARENTS for n in RC]
BEYOND = [ENV_PATH, "/home/u/.astarc", "/home/u/.config/astarc", "/etc/astarc"]
GROUPS = [("current directory", IN_CWD), ("parent packages", INITS + ABOVE), ("beyond", BEYOND)]


def contents_for(m, i, j):
    other = {"x-y": "no"}
    rc = [{"MASTER": m}, {"OTHER": other, "MASTER": m}, {"MASTER": m, "zzz": other}]
    cfg = [{"asta.master": m}, {"asta.MASTER": m},
           {"metadata": {"name": "n"}, "asta.master": m, "flake8": other},
           {"metadata": other}, {"asta.other": other}, {"asta": other}, {},
           {"MASTER": m}, {"asta.Master": m, "astarte": other},
           {"asta.master": m, "pylint.master": other}, {"pylint.master": other, "asta.other": other},
           {"pylint.asta.master": other}, {"asta.master": m, "asta.sub.master": other}]
    toml = [{"tool": {"asta": {"master": m}}}, {"tool": {"asta": {"MASTER": m}}},
            {"tool": {"poetry": other}}, {}, {"tool": {"asta": {}}},
            {"build-system": {"requires": ["a"]},
             "tool": {"asta": {"other": other, "master": m}, "black": other}},
            {"asta": {"master": m}}, {"tool": {}},
            {"tool": {"asta": {"master": dict(m, flag=True, off=False)}}}]
    contents = {"rc": rc[j % 3], "cfg": cfg[(j + i) % len(cfg)], "toml": toml[j]}
    if j % 4 == 3:
        contents["rc"] = {} if i % 2 else {"elsewhere": m}
    return contents


def places(tier):
    homes = [("/home/u", None), ("/home/u", ENV_PATH), ("/root", None), ("~", None),
             ("~", ENV_PATH)]
    for i, m in enumerate(master_variants(tier)):
        for j in range(9):
            if tier == "quick" and (i + j) % 3:
                continue
            for g, (group, files) in enumerate(GROUPS):
                if tier == "quick" and i > 4 and (i + j // 3 + g) % 3:
                    continue
                for k, (home, env) in enumerate(homes):
                    if g < 2 and k or tier == "quick" and k > 1 and (i + j + k) % 4:
                        continue
                    yield (f"options {i}, contents {j}, any files of the {group}, {home}, "
                           f"ASTARC={env}",
                           Place(home, env, contents_for(m, i, j), files))
    # Every pair of files, in every kind of contents.
    mark = {"on": setting("v.on")}
    files = IN_CWD + ABOVE + BEYOND
    for a, one in enumerate(files):
        for b, two in enumerate(files[:a]):
            for j in ((a + b) % 9, (a + 2 * b + 4) % 9) if tier == "quick" else range(9):
                contents = contents_for(mark, 0, j)
                if (a + b + j) % 3:
                    contents["rc"] = {"MASTER": mark}
                yield (f"contents {j}, {two} and {one}, ASTARC={ENV_PATH}",
                       Place("/home/u", ENV_PATH if (a + b) % 2 or ENV_PATH in (one, two)
                             else None, contents, [one, two], INITS))
    if tier != "quick":
        for i, m in enumerate(master_variants("quick")):
            for k, (home, env) in enumerate(homes):
                yield (f"options {i}, any files at all, {home}, ASTARC={env}",
                       Place(home, env, contents_for(m, i, (i + k) % 9)))


def converted(it, value):
    """ What an option's text becomes. """
    if not isinstance(value, Val):
        value = K(value)
    for text, res in (("yes", TRUE), ("no", FALSE)):
        if isinstance(value, K):
            if isinstance(value.v, str) and value.v == text:
                return res
        elif it.truth(it.compare_eq(value, K(text))):
            return res
    return value


@check("C24")
def c24(rep, tier):
    """ Every subset of existing files, and contents of each kind. """
    rep.rule("options", "for every subset of existing configuration files the configuration "
             "object holds, for every option, the converted value of the first file in the "
             "documented order if that sets it, else the packaged default; never raises")
    rep.rule("shared", "a second request gives the same object without reading a file, whatever "
             "files then exist")
    for text, place in places(tier):
        if not rep.ahead():
            continue
        w = make_world(place)
        anchor = config_anchor(w)
        prog = w.load("vt_config")

        def run(it, prog=prog):
            return it.call(prog.scope.vars["once"], [], {}, None)

        def judge(out, place=place):
            if out.kind == "raise":
                return f"raises {errname(out)} at {site_text(out.site)}"
            it = out.it
            try:
                path = place.found(it)
            except Undecided:
                return None
            user = place.master(path)
            want = {}
            for key, val in packaged().get("MASTER", {}).items():
                want[key.replace("-", "_")] = val
            for key, val in user.items():
                want[key.replace("-", "_")] = val
            for key, val in want.items():
                exp = converted(it, val)
                for how, get in (("attribute", lambda k: it.getattr(out.value, k)),
                                 ("item", lambda k: it.getitem(out.value, K(k)))):
                    try:
                        got = get(key)
                    except AbsRaise:
                        return f"has no {how} {key} (configured in {path})"
                    if got != exp:
                        return (f"{how} {key} is {got!r}, not {exp!r} (configuration file: "
                                f"{path})")
            return None

        compared(rep, w, text, "options", anchor, run, judge)
        rep.engine(w.eng)
    for text, place in list(places("quick"))[:12 if tier == "quick" else None]:
        if not rep.ahead():
            continue
        w = make_world(place)
        prog = w.load("vt_config")

        def run2(it, prog=prog):
            first = it.call(prog.scope.vars["once"], [], {}, None)
            it.event("again")
            for path in ("astarc", "/etc/astarc"):
                place.known[absolute(path)] = it.truth(Sym("later", K(path), kind="bool"))
            return it.truth(it.is_(first, it.call(prog.scope.vars["once"], [], {}, None)))

        def judge2(out, place=place):
            for path in ("astarc", "/etc/astarc"):
                place.known.pop(absolute(path), None)
            if out.kind == "raise":
                return f"raises {errname(out)} at {site_text(out.site)}"
            if out.value is not True and out.value != TRUE:
                return "gives another object"
            begun = False
            for e in out.trace:
                begun = begun or e.kind == "again"
                if begun and e.kind in ("opened", "content"):
                    return f"reads {e.path} again"
            return None

        scenario(rep, w, "twice: " + text, "shared", config_anchor(w), run2, judge2)


IMPORTING = """
from asta import Array, Scalar, typechecked
from asta import config, dims, shapes, symbols

ox = config.get_ox()
"""


@check("C24")
def c24_import(rep, tier):
    """ Importing asta reads the configuration once. """
    rep.rule("imported", "importing asta makes one configuration object, with the settings in "
             "force, which every module and every later request shares")
    for on in ("yes", "no"):
        for passes in ("yes", "no"):
            for path in (IN_CWD[0], "/etc/astarc", None):
                if not rep.ahead():
                    continue
                content = {"MASTER": {"on": on, "print-passes": passes}}
                place = Place("/home/u", None, {"rc": content, "cfg": {}, "toml": {}}, [],
                              [path] if path else [])
                w = make_world(place)
                w.eng.skip_bodies = set()
                w.eng.extra_sources["vt_importing"] = IMPORTING

                def run(it):
                    mod = it.load("vt_importing")
                    return Tup([mod.scope.vars["ox"], it.call(
                        it.load("asta.config").scope.vars["get_ox"], [], {}, None)])

                def judge(out, path=path):
                    if out.kind == "raise":
                        return f"raises {errname(out)} at {site_text(out.site)}"
                    it = out.it
                    if not it.truth(it.is_(*out.value.items)):
                        return "a later request gives another object"
                    want = dict(packaged()["MASTER"], **(place.master(path) if path else {}))
                    for key, val in want.items():
                        got = it.getattr(out.value.items[0], key.replace("-", "_"))
                        if got != converted(it, val):
                            return f"option {key} is {got!r} (configuration file: {path})"
                    for name, mod in it.engine.modules.items():
                        for var, val in mod.scope.vars.items():
                            if isinstance(val, Inst) and val.cls is out.value.items[0].cls and \
                                    val is not out.value.items[0]:
                                return f"{name}.{var} is another configuration object"
                    return None

                compared(rep, w, f"import asta, on={on}, print-passes={passes} in {path}",
                         "imported", config_anchor(w), run, judge)
                rep.engine(w.eng)


@check("C24")
def c24_defaults(rep, tier):
    """ The packaged defaults. """
    rep.rule("defaults", "the packaged defaults give every documented option a value, yes or no")
    if not rep.mine():
        return
    master = packaged().get("MASTER", {})
    missing = [o for o in OPTIONS if master.get(o.replace("_", "-")) not in ("yes", "no")]
    for o in missing:
        rep.violate("defaults", "asta/defaults/astarc", f"no default yes or no for {o}")
    rep.oblige(ok=not missing)


def config_anchor(w):
    try:
        return anchor_text(w.get("asta.config", "get_ox"))
    except Anchor:
        return "asta/config.py"
