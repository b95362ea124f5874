""" The abstract interpreter: paths, facts, loops, statements, expressions.

One *path* is interpreted at a time.  Where the abstract state does not decide a
branch, the alternatives are enumerated (``choose``) and the answer is kept as a
fact of the path.  Loops over unknown collections are entered with everything a
full iteration can change havocked (an optimistic fixpoint finds what that is),
and one arbitrary iteration is interpreted, which is then taken as the last one;
the other alternative is that there is no iteration at all.
"""
import typing
import ast
import os
import builtins

from .values import (
    ELL, FALSE, NONE, TRUE, ADict, AList, ASet, Bound, Cls, Exc, Ext, Fn, Gen,
    Inst, K, Mod, Native, Obj, Opaque, Scope, Spread, SuperV, Sym, Tup, Val, Wrap,
    kbool,
)
from . import ops
from . import models


class Prune(Exception):
    """ The path is infeasible. """


class Restart(Exception):
    """ A loop changes more than assumed: start over. """


class Unsupported(Exception):
    """ The analysis cannot handle a construct. """


class AbsRaise(Exception):
    def __init__(self, exc, site=None):
        super().__init__(repr(exc))
        self.exc = exc
        self.site = site


class BreakLoop(Exception):
    pass


class ContinueLoop(Exception):
    pass


class ReturnFn(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


def field_mark(ann):
    """ ``Required`` or ``NotRequired``, if a field of a typed dict is marked so. """
    if isinstance(ann, K):
        mark = getattr(ann.v, "__origin__", None)
    else:
        mark = getattr(ann, "attrs", {}).get("__origin__") if isinstance(ann, Inst) else None
        mark = mark.v if isinstance(mark, K) else None
    return mark if mark in (typing.Required, typing.NotRequired) else None


class GenExit(Exception):
    """ Carries control flow of a consumer through a generator's frames. """

    def __init__(self, token, inner):
        super().__init__()
        self.token = token
        self.inner = inner


class Event:
    __slots__ = ("kind", "data", "site", "stack", "loops", "nfacts", "fn")

    def __init__(self, kind, data, site, stack, loops, nfacts):
        self.kind = kind
        self.data = data
        self.site = site
        self.stack = stack
        self.loops = loops
        self.nfacts = nfacts

    def __getattr__(self, name):
        try:
            return self.data[name]
        except KeyError:
            raise AttributeError(name)

    def where(self):
        mod, line, fn = self.site
        return f"{mod.replace('.', '/')}.py:{line} ({fn})"

    def __repr__(self):
        return f"{self.kind}{self.data}@{self.where()}"


class Outcome:
    def __init__(self, kind, value, it):
        self.kind = kind  # "return" | "raise"
        self.value = value
        self.trace = it.trace
        self.facts = dict(it.facts)
        self.factlist = list(it.factlist)
        self.site = None
        self.it = it

    def events(self, kind, name=None):
        return [
            e
            for e in self.trace
            if e.kind == kind and (name is None or e.data.get("name") == name)
        ]

    def describe(self, limit=12):
        facts = "; ".join(
            f"{'' if v else 'not '}{p!r}" for p, v, _ in self.factlist[-limit:]
        )
        return f"{self.kind} {self.value!r} when [{facts}]"


class Mangle(ast.NodeTransformer):
    """ Private names inside a class body carry the name of the class. """

    def __init__(self):
        self.cls = None

    def mangled(self, name):
        if self.cls is None or not name.startswith("__") or name.endswith("__") or \
                not self.cls.strip("_"):
            return name
        return f"_{self.cls.lstrip('_')}{name}"

    def visit_ClassDef(self, node):
        node.name = self.mangled(node.name)
        outer, self.cls = self.cls, node.name
        node.body = [self.visit(n) for n in node.body]
        self.cls = outer
        return node

    def generic_visit(self, node):
        if self.cls is not None:
            for field in ("id", "attr", "arg", "name"):
                val = getattr(node, field, None)
                if isinstance(val, str) and not isinstance(node, (ast.alias, ast.keyword)):
                    setattr(node, field, self.mangled(val))
            if isinstance(node, (ast.Global, ast.Nonlocal)):
                node.names = [self.mangled(n) for n in node.names]
        return super().generic_visit(node)


class Source:
    """ The parsed modules of the package. """

    def __init__(self, root):
        self.root = root
        self.trees = {}
        self.texts = {}

    def path_of(self, modname):
        base = os.path.join(self.root, *modname.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        return None

    def tree(self, modname):
        if modname not in self.trees:
            path = self.path_of(modname)
            if path is None:
                return None
            with open(path, encoding="utf-8") as handle:
                text = handle.read()
            self.texts[modname] = text
            self.trees[modname] = Mangle().visit(ast.parse(text, filename=path))
        return self.trees[modname]


# Higher order library functions, for sequences of unknown length.
FUNCTIONAL = '''
def reduce(function, sequence, value):
    for element in sequence:
        value = function(value, element)
    return value
'''


class Engine:
    """ Configuration shared by the paths of an exploration. """

    def __init__(self, source, torch=True, tensorflow=True, max_paths=6000):
        self.source = source
        self.world = {"torch": torch, "tensorflow": tensorflow}
        self.stubs = {}
        self.modules = {}
        self.havoc = {}
        self.phiinfo = {}
        self.extra_sources = {"_functional": FUNCTIONAL}
        self.max_paths = max_paths
        self.functions = {}
        self.paths = 0
        self.setup_allocs = {}
        self.ext_models = {}
        self.ext_attrs = {}
        self.catch_decisions = True
        self.externals_may_raise = None
        self.base = None
        self.loop_ids = {}
        self.on_predicate = None
        self.skip_bodies = set()
        self.program_globals = {}
        self.unroll = 0     # iterations of while loops followed one by one
        self.max_nesting = 2
        self.bounded = {}

    def stub(self, key, handler):
        self.stubs[key] = handler

    max_steps = 1500000
    budget = max_steps

    def explore(self, run, max_paths=None):
        """ Interpret ``run(interp)`` along all the paths; return outcomes. """
        limit = max_paths or self.max_paths
        self.budget = self.max_steps
        restarts = 0
        while True:
            restarts += 1
            if restarts > 200:
                raise Unsupported("no fixpoint after 200 restarts")
            outcomes = []
            stack = [[]]
            count = 0
            try:
                while stack:
                    prefix = stack.pop()
                    it = Interp(self, prefix)
                    count += 1
                    if count > limit:
                        raise Unsupported(f"more than {limit} paths")
                    try:
                        value = run(it)
                        outcomes.append(Outcome("return", value, it))
                    except AbsRaise as err:
                        out = Outcome("raise", err.exc, it)
                        out.site = err.site
                        outcomes.append(out)
                    except Prune:
                        pass
                    except RecursionError:
                        raise Unsupported("recursion too deep")
                    finally:
                        it.finish()
                    for i in range(len(prefix), len(it.taken)):
                        for alt in range(it.taken[i] + 1, it.arity[i]):
                            stack.append(it.taken[:i] + [alt])
            except Restart:
                continue
            self.paths += count
            return outcomes

    def setup(self, run):
        """ Run once, without rollback; decisions are not allowed. """
        self.budget = self.max_steps
        it = Interp(self, [], setup=True)
        try:
            return run(it)
        except AbsRaise as err:
            raise Unsupported(f"setup raised {err.exc!r} at {err.site}")


BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv",
    ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.BitOr: "or_",
    ast.BitAnd: "and_", ast.BitXor: "xor", ast.LShift: "lshift",
    ast.RShift: "rshift", ast.MatMult: "matmul",
}


class Interp(ops.OpsMixin, models.ModelsMixin):
    """ Interprets one path. """

    AbsRaiseT = AbsRaise

    def __init__(self, engine, prefix, setup=False):
        self.engine = engine
        self.prefix = prefix
        self.setup_mode = setup
        self.taken = []
        self.arity = []
        self.facts = {}
        self.factlist = []
        self.bounds = {}
        self.trace = []
        self.journal = []
        self.born = Obj.serial
        self.frames = []
        self.loops = []
        self.pos = ("?", 0, "?")
        self.allocs = {k: list(v) for k, v in engine.setup_allocs.items()}
        self.counter = {}
        self.fuel = 400000
        self.handlers = []
        self.opaque_overlay = {}
        self.current_exc = []

    # -- paths ------------------------------------------------------------

    def choose(self, n, label=None):
        if self.setup_mode:
            raise Unsupported(f"undetermined branch during module setup at {self.pos}: {label}")
        i = len(self.taken)
        pick = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(pick)
        self.arity.append(n)
        return pick

    def finish(self):
        """ Roll back what the path did to objects made before it. """
        if self.setup_mode:
            return
        for obj, slot, old in reversed(self.journal):
            if obj.birth <= self.born:
                self._rawset(obj, slot, old)
        self.journal = []

    _MISSING = object()

    def _rawget(self, obj, slot):
        if slot[0] == "content":
            return obj.content
        store = obj.vars if slot[0] == "var" else obj.attrs
        return store.get(slot[1], self._MISSING)

    def _rawset(self, obj, slot, val):
        if slot[0] == "content":
            obj.content = val
            return
        store = obj.vars if slot[0] == "var" else obj.attrs
        if val is self._MISSING:
            store.pop(slot[1], None)
        else:
            store[slot[1]] = val

    def write(self, obj, slot, val):
        self.journal.append((obj, slot, self._rawget(obj, slot)))
        self._rawset(obj, slot, val)

    def setvar(self, scope, name, val):
        self.write(scope, ("var", name), val)

    def setcontent(self, obj, content):
        self.write(obj, ("content",), tuple(content))

    def event(self, kind, **data):
        ev = Event(
            kind, data, self.pos, tuple(f[0] for f in self.frames), tuple(self.loops),
            len(self.factlist),
        )
        self.trace.append(ev)
        return ev

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return n

    def site(self, node=None):
        if node is not None and hasattr(node, "lineno"):
            return (self.pos[0], node.lineno, node.col_offset)
        return self.pos

    def alloc(self, obj, node=None):
        obj.site = self.site(node)
        self.allocs.setdefault(obj.site, []).append(obj)
        if self.setup_mode:
            self.engine.setup_allocs.setdefault(obj.site, []).append(obj)
        return obj

    def raise_(self, clsname, *args):
        exc = Exc(K(getattr(builtins, clsname)), args)
        raise AbsRaise(exc, self.pos)

    # -- modules ----------------------------------------------------------

    def load(self, name):
        """ Interpret a module of the package (once). """
        eng = self.engine
        if name in eng.modules:
            mod = eng.modules[name]
            return mod.replaced or mod
        if name in eng.extra_sources:
            tree = ast.parse(eng.extra_sources[name])
        else:
            tree = eng.source.tree(name)
        if tree is None:
            return None
        if not self.setup_mode:
            # Modules are loaded in setup mode, so that they survive the path.
            sub = Interp(eng, [], setup=True)
            sub.trace = self.trace
            sub.load(name)
            self.allocs.update({k: list(v) for k, v in eng.setup_allocs.items()})
            mod = eng.modules[name]
            return mod.replaced or mod
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        scope = Scope(None, name, name, kind="module")
        mod = Mod(name, scope)
        eng.modules[name] = mod
        scope.vars["__name__"] = K(name)
        scope.vars["__file__"] = K(f"/repo/{name.replace('.', '/')}.py")
        doc = ast.get_docstring(tree, clean=False)
        scope.vars["__doc__"] = NONE if doc is None else K(doc)
        if name.split(".")[0] == "asta":
            scope.vars["__package__"] = K(name.rpartition(".")[0] or name)
            for own in ("loader", "spec", "builtins", "cached"):
                scope.vars[f"__{own}__"] = Opaque(f"{name}.__{own}__", closed=True, truthy=True)
        scope.vars.update(eng.program_globals.get(name, {}))
        self.frames.append((f"{name}:<module>", self.pos))
        saved = self.pos
        self.pos = (name, 1, "<module>")
        try:
            if name not in eng.skip_bodies:
                self.exec_block(tree.body, scope)
        finally:
            self.frames.pop()
            self.pos = saved
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            pmod = eng.modules.get(parent)
            if pmod is not None:
                pmod.scope.vars.setdefault(leaf, mod.replaced or mod)
        return mod.replaced or mod

    def import_module(self, name):
        top = name.split(".")[0]
        if top in ("asta",) or name in self.engine.extra_sources:
            mod = self.load(name)
            if mod is None:
                self.raise_("ModuleNotFoundError", K(f"No module named '{name}'"))
            return mod
        if top in self.engine.world and not self.engine.world[top]:
            self.event("import_failed", name=name)
            self.raise_("ModuleNotFoundError", K(f"No module named '{name}'"))
        self.event("import", name=name)
        return models.library(name)

    # -- statements ---------------------------------------------------------

    def exec_block(self, stmts, scope):
        for stmt in stmts:
            self.exec(stmt, scope)

    def exec(self, node, scope):
        self.fuel -= 1
        self.engine.budget -= 1
        if self.fuel < 0 or self.engine.budget < 0:
            raise Unsupported("out of fuel")
        self.pos = (scope.module, node.lineno, scope.label)
        meth = getattr(self, "x_" + type(node).__name__, None)
        if meth is None:
            raise Unsupported(f"statement {type(node).__name__} at {self.pos}")
        return meth(node, scope)

    def x_Expr(self, node, scope):
        if isinstance(node.value, ast.Constant):
            return
        self.ev(node.value, scope)

    def x_Pass(self, node, scope):
        pass

    def x_Return(self, node, scope):
        value = NONE if node.value is None else self.ev(node.value, scope)
        raise ReturnFn(value)

    def x_Assign(self, node, scope):
        value = self.ev(node.value, scope)
        for target in node.targets:
            self.assign(target, value, scope)

    def x_AnnAssign(self, node, scope):
        if scope.skind == "class" and isinstance(node.target, ast.Name):
            scope.annos = getattr(scope, "annos", [])
            scope.annos.append((node.target.id, node.annotation))
        if node.value is not None:
            self.assign(node.target, self.ev(node.value, scope), scope)

    def x_AugAssign(self, node, scope):
        target = node.target
        if isinstance(target, ast.Name):
            old = self.lookup(target.id, scope, node)
            setter = lambda v: self.bindname(target.id, v, scope)
        elif isinstance(target, ast.Attribute):
            base = self.ev(target.value, scope)
            old = self.getattr(base, target.attr)
            setter = lambda v: self.setattr(base, target.attr, v)
        elif isinstance(target, ast.Subscript):
            base = self.ev(target.value, scope)
            idx = self.ev(target.slice, scope)
            old = self.getitem(base, idx, node)
            setter = lambda v: self.setitem(base, idx, v)
        else:
            raise Unsupported("augmented assignment target")
        rhs = self.ev(node.value, scope)
        self.pos = (scope.module, node.lineno, scope.label)
        setter(self.iop(BINOPS[type(node.op)], old, rhs, node))

    def x_Delete(self, node, scope):
        for target in node.targets:
            if isinstance(target, ast.Name):
                owner = self.owner_scope(target.id, scope)
                self.write(owner, ("var", target.id), self._MISSING)
            elif isinstance(target, ast.Attribute):
                self.delattr(self.ev(target.value, scope), target.attr)
            elif isinstance(target, ast.Subscript):
                self.delitem(self.ev(target.value, scope), self.ev(target.slice, scope))

    def x_If(self, node, scope):
        if self.cond(node.test, scope):
            self.exec_block(node.body, scope)
        else:
            self.exec_block(node.orelse, scope)

    def x_Assert(self, node, scope):
        if not self.cond(node.test, scope):
            self.event("assert_failed")
            self.raise_("AssertionError")

    def x_Raise(self, node, scope):
        if node.exc is None:
            if not self.current_exc:
                self.raise_("RuntimeError")
            raise AbsRaise(self.current_exc[-1], self.pos)
        exc = self.ev(node.exc, scope)
        if node.cause is not None:
            self.ev(node.cause, scope)
        if isinstance(exc, (K, Cls, Ext)):
            exc = self.call(exc, [], {}, node)
        self.pos = (scope.module, node.lineno, scope.label)
        self.event("raise", exc=exc)
        raise AbsRaise(exc, self.pos)

    def x_Try(self, node, scope):
        self.handlers.append((node, scope))
        popped = False
        try:
            try:
                self.exec_block(node.body, scope)
            except AbsRaise as err:
                self.handlers.pop()
                popped = True
                self.handle(node, scope, err)
            else:
                self.handlers.pop()
                popped = True
                self.exec_block(node.orelse, scope)
        except (ReturnFn, BreakLoop, ContinueLoop, AbsRaise, GenExit):
            if not popped:
                self.handlers.pop()
            if node.finalbody:
                self.exec_block(node.finalbody, scope)
            raise
        except BaseException:
            if not popped:
                self.handlers.pop()
            raise
        else:
            self.exec_block(node.finalbody, scope)

    def handle(self, node, scope, err):
        for handler in node.handlers:
            if handler.type is None:
                matched = True
            else:
                matched = self.exc_matches(err.exc, self.ev(handler.type, scope))
            if matched:
                self.event("caught", exc=err.exc)
                if handler.name:
                    self.bindname(handler.name, err.exc, scope)
                self.current_exc.append(err.exc)
                try:
                    self.exec_block(handler.body, scope)
                finally:
                    self.current_exc.pop()
                return
        raise err

    def exc_matches(self, exc, cls):
        if isinstance(cls, Tup):
            return any(self.exc_matches(exc, c) for c in cls.items)
        ecls = self.pytype(exc)
        res = self.issub(ecls, cls) if ecls is not None else None
        if res is None:
            return self.test(Sym("isinstance", exc, cls))
        return res

    def x_With(self, node, scope):
        self.with_items(node, 0, scope)

    def with_items(self, node, i, scope):
        if i == len(node.items):
            self.exec_block(node.body, scope)
            return
        item = node.items[i]
        ctx = self.ev(item.context_expr, scope)

        def inner(value):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, value, scope)
            self.with_items(node, i + 1, scope)

        if isinstance(ctx, Inst) and ctx.cls == Ext("contextlib.suppress"):
            try:
                inner(NONE)
            except AbsRaise as err:
                if not self.exc_matches(err.exc, Tup(ctx.attrs["excs"].items)):
                    raise
                self.event("caught", exc=err.exc)
            return
        if isinstance(ctx, Gen):  # from contextlib.contextmanager
            token = object()
            done = []

            def on_yield(value):
                done.append(1)
                try:
                    inner(value)
                except AbsRaise:
                    raise
                except (ReturnFn, BreakLoop, ContinueLoop) as err:
                    raise GenExit(token, err)
                return NONE

            try:
                ctx.run(on_yield)
            except GenExit as err:
                if err.token is not token:
                    raise
                raise err.inner
            return
        if isinstance(ctx, Inst) and isinstance(ctx.cls, Cls):
            enter = self.call(self.getattr(ctx, "__enter__"), [], {}, node)
            try:
                inner(enter)
            except AbsRaise as err:
                res = self.call(
                    self.getattr(ctx, "__exit__"),
                    [self.pytype(err.exc) or NONE, err.exc, NONE], {}, node,
                )
                if not self.truth(res):
                    raise
                return
            except (ReturnFn, BreakLoop, ContinueLoop):
                self.call(self.getattr(ctx, "__exit__"), [NONE] * 3, {}, node)
                raise
            self.call(self.getattr(ctx, "__exit__"), [NONE] * 3, {}, node)
            return
        inner(Sym("enter", self.freeze(ctx)))

    def x_FunctionDef(self, node, scope):
        fn = self.makefn(node, scope)
        value = fn
        for deco in reversed(node.decorator_list):
            dec = self.ev(deco, scope)
            value = self.call(dec, [value], {}, deco)
        self.bindname(node.name, value, scope)

    def makefn(self, node, scope):
        args = node.args
        defaults = [self.ev(d, scope) for d in args.defaults]
        kwdefaults = [None if d is None else self.ev(d, scope) for d in args.kw_defaults]
        name = getattr(node, "name", "<lambda>")
        if scope.skind == "module":
            qual = name
        elif scope.skind == "class":
            qual = f"{scope.label}.{name}"
        else:
            qual = f"{scope.label}.<locals>.{name}"
        fn = Fn(node, scope.module, qual, scope, defaults, kwdefaults)
        return self.alloc(fn, node)

    def x_ClassDef(self, node, scope):
        bases = [self.ev(b, scope) for b in node.bases]
        kwargs = {k.arg: self.ev(k.value, scope) for k in node.keywords}
        qual = (
            node.name
            if scope.skind == "module"
            else f"{scope.label}.{node.name}"
            if scope.skind == "class"
            else f"{scope.label}.<locals>.{node.name}"
        )
        body = Scope(scope, qual, scope.module, kind="class")
        body.vars["__module__"] = K(scope.module)
        body.vars["__qualname__"] = K(qual)
        special = None
        for i, b in enumerate(bases):
            if b == K(typing.TypedDict) or getattr(b, "special", None) == "typeddict":
                special = "typeddict"
            elif b == K(typing.NamedTuple):
                special = "namedtuple"
        parents = [b for b in bases if isinstance(b, Cls)]
        if special:
            plain = K(dict) if special == "typeddict" else K(tuple)
            bases = [plain] + [b for b in bases if b == K(typing.Generic)]
        self.exec_block(node.body, body)
        cls = self.build_class(
            node.name, bases, body.vars, kwargs.get("metaclass"), scope.module, qual, node
        )
        cls.annos = (getattr(body, "annos", []), body)
        if special:
            self.special_class(cls, special, parents, kwargs, body)
        for sub in body.vars.values():
            fn = sub.fn if isinstance(sub, Wrap) else sub
            if isinstance(fn, Fn) and fn.owner is None:
                fn.owner = cls
        value = cls
        for deco in reversed(node.decorator_list):
            value = self.call(self.ev(deco, scope), [value], {}, deco)
        self.bindname(node.name, value, scope)

    def special_class(self, cls, special, parents, kwargs, body):
        """ TypedDict and NamedTuple classes. """
        cls.special = special
        own = [(n, self.ev(a, body)) for n, a in getattr(body, "annos", [])]
        own = [(n, K(type(None)) if x == NONE else x) for n, x in own]
        names = [n for n, _ in own]
        if special == "typeddict":
            total = kwargs.get("total", TRUE)
            entries, required, optional = [], set(), set()
            for p in parents:
                entries += [e for e in p.attrs["__annotations__"].content]
                required |= p.attrs["__required_keys__"].v
                optional |= p.attrs["__optional_keys__"].v
            for n, x in own:
                mark = field_mark(x)
                needed = (total == TRUE) if mark is None else mark is typing.Required
                (required if needed else optional).add(n)
                (optional if needed else required).discard(n)
            entries = [e for e in entries if e[0].v not in names] + [(K(n), x) for n, x in own]
            cls.attrs["__annotations__"] = self.alloc(ADict(entries))
            cls.attrs["__total__"] = total
            cls.attrs["__required_keys__"] = K(frozenset(required))
            cls.attrs["__optional_keys__"] = K(frozenset(optional))
            return
        cls.attrs["_fields"] = K(tuple(names))
        cls.attrs["__annotations__"] = self.alloc(ADict([(K(n), x) for n, x in own]))
        cls.attrs["_field_defaults"] = self.alloc(ADict(
            [(K(n), body.vars[n]) for n in names if n in body.vars]))
        for n in names:
            cls.attrs.pop(n, None)

        def new(it, args, kw, node):
            left = list(args[1:])
            vals = {}
            for n in names:
                if left:
                    vals[n] = left.pop(0)
                elif n in kw:
                    vals[n] = kw[n]
                elif n in body.vars:
                    vals[n] = body.vars[n]
                else:
                    it.raise_("TypeError", K(f"missing argument {n}"))
            return it.alloc(Inst(args[0], vals), node)

        def parts(it, args):
            return Tup([args[0].attrs[n] for n in names])

        cls.attrs["__new__"] = Native("__new__", new)
        cls.attrs["__init__"] = Native("__init__", lambda it, a, k, n: NONE)
        cls.attrs["__iter__"] = Native("__iter__", lambda it, a, k, n: parts(it, a))
        cls.attrs["__len__"] = Native("__len__", lambda it, a, k, n: K(len(names)))
        cls.attrs["__getitem__"] = Native("__getitem__", lambda it, a, k, n: it.getitem(
            parts(it, a), a[1]))
        cls.attrs["_asdict"] = Native("_asdict", lambda it, a, k, n: it.alloc(
            ADict([(K(f), a[0].attrs[f]) for f in names])))
        cls.attrs["__eq__"] = Native("__eq__", lambda it, a, k, n: it.compare_eq(
            parts(it, a), parts(it, [a[1]]) if isinstance(a[1], Inst) and a[1].cls == a[0].cls
            else a[1]))

    def x_Import(self, node, scope):
        for alias in node.names:
            mod = self.import_module(alias.name)
            if alias.asname:
                self.bindname(alias.asname, mod, scope)
            else:
                top = alias.name.split(".")[0]
                self.bindname(top, self.import_module(top), scope)

    def x_ImportFrom(self, node, scope):
        base = node.module or ""
        if node.level:
            pkg = scope.module if self.engine.source.path_of(scope.module) and \
                self.engine.source.path_of(scope.module).endswith("__init__.py") \
                else scope.module.rsplit(".", 1)[0]
            for _ in range(node.level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            base = f"{pkg}.{base}" if base else pkg
        mod = self.import_module(base)
        for alias in node.names:
            if alias.name == "*":
                for key, val in list(mod.scope.vars.items()):
                    if not key.startswith("_"):
                        self.bindname(key, val, scope)
                continue
            self.bindname(
                alias.asname or alias.name, self.import_name(mod, base, alias.name), scope
            )

    def import_name(self, mod, base, name):
        if isinstance(mod, Mod):
            if name in mod.scope.vars:
                return mod.scope.vars[name]
            sub = f"{base}.{name}"
            if self.engine.source.path_of(sub) or sub in self.engine.extra_sources:
                return self.load(sub)
            getter = mod.scope.vars.get("__getattr__")
            if getter is not None:
                return self.call(getter, [K(name)], {}, None)
            self.raise_("ImportError", K(f"cannot import name '{name}'"))
        if isinstance(mod, (Ext, K)):
            try:
                return self.getattr(mod, name)
            except AbsRaise:
                self.raise_("ImportError", K(f"cannot import name '{name}'"))
        return self.getattr(mod, name)

    def x_Global(self, node, scope):
        scope.globals_.update(node.names)

    def x_Nonlocal(self, node, scope):
        scope.nonlocals_.update(node.names)

    def x_Break(self, node, scope):
        raise BreakLoop()

    def x_Continue(self, node, scope):
        raise ContinueLoop()

    def x_For(self, node, scope):
        iterable = self.ev(node.iter, scope)

        def body(elem):
            self.assign(node.target, elem, scope)
            try:
                self.exec_block(node.body, scope)
            except ContinueLoop:
                pass

        if not self.iterate(iterable, body, node):
            self.exec_block(node.orelse, scope)

    def x_While(self, node, scope):
        for n in range(64):
            value = self.ev(node.test, scope)
            known = self.known_truth(value)
            if known is None and n < self.engine.unroll:
                known = self.truth(value)
            if known is None:
                break
            if not known:
                self.exec_block(node.orelse, scope)
                return
            if isinstance(node.test, ast.Constant) and n >= self.engine.unroll:
                break
            try:
                self.exec_block(node.body, scope)
            except ContinueLoop:
                pass
            except BreakLoop:
                return
        const = isinstance(node.test, ast.Constant)
        if not const and not self.truth(self.ev(node.test, scope)):
            self.exec_block(node.orelse, scope)
            return
        key = self.loopkey(node)
        frame = self.loop_begin(key)
        try:
            if not const and not self.truth(self.ev(node.test, scope)):
                raise Prune()
            self.loops.append(("while", frame.uid))
            try:
                self.exec_block(node.body, scope)
            except ContinueLoop:
                pass
            finally:
                self.loops.pop()
        except BreakLoop:
            return
        self.loop_end(frame)
        if const:
            raise Prune()
        if self.truth(self.ev(node.test, scope)):
            raise Prune()
        self.exec_block(node.orelse, scope)

    def x_Match(self, node, scope):
        subject = self.ev(node.subject, scope)
        for case in node.cases:
            if self.match_pattern(case.pattern, subject, scope):
                if case.guard is None or self.cond(case.guard, scope):
                    self.exec_block(case.body, scope)
                    return

    def match_pattern(self, pat, subj, scope):
        if isinstance(pat, ast.MatchValue):
            return self.truth(self.compare_eq(subj, self.ev(pat.value, scope)))
        if isinstance(pat, ast.MatchSingleton):
            return self.truth(self.is_(subj, K(pat.value)))
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is not None and not self.match_pattern(pat.pattern, subj, scope):
                return False
            if pat.name:
                self.bindname(pat.name, subj, scope)
            return True
        if isinstance(pat, ast.MatchOr):
            return any(self.match_pattern(p, subj, scope) for p in pat.patterns)
        if isinstance(pat, ast.MatchClass) and not pat.patterns and not pat.kwd_patterns:
            return self.truth(self.isinstance(subj, self.ev(pat.cls, scope)))
        raise Unsupported("match pattern")

    # -- loops --------------------------------------------------------------

    def loopkey(self, node):
        stack = tuple(f[1] for f in self.frames)
        return (stack, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                type(node).__name__, len(self.loops) and self.loops[-1][1])

    def iterate(self, iterable, body, node):
        """ Run ``body`` for the elements; return whether it broke off. """
        if isinstance(iterable, Gen):
            token = object()

            def on_yield(value):
                try:
                    body(value)
                except (AbsRaise, ReturnFn, BreakLoop, ContinueLoop, GenExit) as err:
                    raise GenExit(token, err)
                return NONE

            try:
                iterable.run(on_yield)
            except GenExit as err:
                if err.token is not token:
                    raise
                if isinstance(err.inner, BreakLoop):
                    return True
                raise err.inner
            return False
        parts = self.elements(iterable, node)
        try:
            for part in parts:
                if isinstance(part, Spread):
                    self.symloop(part.term, body, node)
                else:
                    body(part)
        except BreakLoop:
            return True
        return False

    def symloop(self, term, body, node):
        base, make = self.element_maker(term)
        known = self.known_nonempty(base)
        if known is False:
            return
        if not self.test(self.nonempty_pred(base)):
            return
        key = self.loopkey(node) + (repr(term) if len(self.loops) < 3 else "",)
        frame = self.loop_begin(key)
        self.loops.append((base, frame.uid))
        self.event("iter", term=term, uid=frame.uid)
        try:
            body(make(frame.uid))
        finally:
            self.loops.pop()
        self.event("iter_end", term=term, uid=frame.uid)
        self.loop_end(frame)

    class LoopFrame:
        pass

    def loop_begin(self, key):
        eng = self.engine
        frame = self.LoopFrame()
        frame.key = key
        frame.uid = eng.loop_ids.setdefault(key, len(eng.loop_ids))
        frame.info = eng.havoc.setdefault(key, {})
        frame.birth = Obj.serial
        frame.inits = {}
        for slotkey, mode in list(frame.info.items()):
            for obj, slot in self.find_slots(slotkey):
                init = self._rawget(obj, slot)
                if init is self._MISSING:
                    continue
                frame.inits[(obj, slot)] = init
                self.write(obj, slot, self.havoc_value(frame, slotkey, slot, mode, init))
        frame.birth = Obj.serial
        frame.start = len(self.journal)
        return frame

    def slotkey(self, obj, slot):
        if isinstance(obj, Scope):
            return ("scope", obj.label, slot)
        return ("obj", obj.site, slot)

    def find_slots(self, slotkey):
        which, label, slot = slotkey
        out = []
        if which == "scope":
            seen = set()
            for _, _, scope in reversed([f for f in self.frames if len(f) > 2]):
                while scope is not None:
                    if scope.label == label and id(scope) not in seen:
                        if slot[1] in scope.vars:
                            seen.add(id(scope))
                            out.append((scope, slot))
                            return out
                    scope = scope.parent
            mod = self.engine.modules.get(label)
            if mod is not None:
                out.append((mod.scope, slot))
            return out
        for obj in self.allocs.get(label, ()):
            out.append((obj, slot))
        return out

    def havoc_value(self, frame, slotkey, slot, mode, init):
        name = slot[1] if len(slot) > 1 else f"content@{slotkey[1]}"
        if mode["mode"] == "consts":
            options = [init] + [v for v in mode["vals"] if not self.same(v, init)]
            return options[self.choose(len(options), f"phi {name}")]
        phi = Sym("phi", frame.uid, name, kind=mode.get("kind"))
        if mode["mode"] == "grow":
            if slot[0] == "content":
                return tuple(init) + (Spread(phi),)
            if isinstance(init, Tup):
                return Tup(init.items + (Spread(phi),))
            new = type(init)(tuple(init.content) + (Spread(phi),))
            new.site = init.site
            return new
        if mode["mode"] == "int":
            self.engine.phiinfo[phi] = (init, tuple(mode["steps"]))
            lo = self.int_bounds(init)[0]
            if lo is not None:
                self.bounds[phi] = (lo, None)
            return phi
        if slot[0] == "content":
            return (Spread(phi),)
        if mode.get("kind") in ("list", "set", "dict"):
            cls = {"list": AList, "set": ASet, "dict": ADict}[mode["kind"]]
            return cls((Spread(phi),))
        return phi

    def loop_end(self, frame):
        """ Is what this iteration changed covered by what was assumed? """
        first = {}
        for obj, slot, old in self.journal[frame.start:]:
            if obj.birth <= frame.birth and (obj, slot) not in first:
                first[(obj, slot)] = old
        grew = False
        for (obj, slot), start in first.items():
            cur = self._rawget(obj, slot)
            if start is self._MISSING or cur is self._MISSING:
                continue
            if self.same(start, cur):
                continue
            slotkey = self.slotkey(obj, slot)
            mode = frame.info.get(slotkey)
            new = self.widen(frame, slot, mode, start, cur, frame.inits.get((obj, slot), start))
            if new is not mode:
                frame.info[slotkey] = new
                grew = True
        if grew:
            raise Restart()

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.freeze_parts(a) == self.freeze_parts(b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return False
        if type(a) is type(b) and isinstance(a, (AList, ASet, ADict)):
            return self.freeze(a) == self.freeze(b)
        return a == b

    def constlike(self, v, frame):
        if isinstance(v, (K, Ext, Opaque)):
            return True
        if isinstance(v, Obj) and not isinstance(v, (AList, ASet, ADict)):
            return v.birth <= frame.birth
        if isinstance(v, Tup):
            return all(self.constlike(x, frame) for x in v.items)
        return False

    def widen(self, frame, slot, mode, start, cur, init):
        symmode = {"mode": "sym", "kind": self.kind_join(init, cur)}
        if mode is None:
            if self.grows(start, cur):
                return {"mode": "grow"}
            step = self.int_step(start, cur)
            if step is not None and step >= 0 and not isinstance(cur, K):
                return {"mode": "int", "kind": "int", "steps": {step}}
            if step is not None and step >= 0 and self.int_bounds(init)[0] is not None \
                    and not (isinstance(init, K) and isinstance(init.v, bool)):
                return {"mode": "int", "kind": "int", "steps": {step}}
            if slot[0] != "content" and self.constlike(cur, frame) and self.constlike(start, frame):
                return {"mode": "consts", "vals": [cur]}
            return symmode
        if mode["mode"] == "consts":
            if any(self.same(cur, v) for v in mode["vals"]) or self.same(cur, init):
                return mode
            if self.constlike(cur, frame) and len(mode["vals"]) < 5:
                return {"mode": "consts", "vals": mode["vals"] + [cur]}
            return symmode
        if mode["mode"] == "grow":
            return mode if self.grows(start, cur) else symmode
        if mode["mode"] == "int":
            step = self.int_step(start, cur)
            if step is not None and step >= 0:
                if step in mode["steps"]:
                    return mode
                return {"mode": "int", "kind": "int", "steps": mode["steps"] | {step}}
            return symmode
        if mode.get("kind") is not None and self.kind(cur) != mode["kind"]:
            return {"mode": "sym", "kind": None}
        return mode

    def kind_join(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return None
        ka, kb = self.kind(a), self.kind(b)
        return ka if ka == kb else None

    def grows(self, start, cur):
        if isinstance(start, Tup) and isinstance(cur, Tup):
            start, cur = start.items, cur.items
            return cur[: len(start)] == start
        if type(start) is type(cur) and isinstance(start, (AList, ASet, ADict)):
            if isinstance(start, ASet):
                return all(p in cur.content for p in start.content)
            start, cur = start.content, cur.content
        if isinstance(start, tuple) and isinstance(cur, tuple):
            return cur[: len(start)] == start or all(p in cur for p in start)
        return False

    # -- names ----------------------------------------------------------------

    def owner_scope(self, name, scope):
        if name in scope.globals_:
            return self.engine.modules[scope.module].scope
        if name in scope.nonlocals_:
            s = scope.parent
            while s is not None:
                if s.skind == "function" and name in s.vars:
                    return s
                s = s.parent
            raise Unsupported(f"nonlocal {name}")
        return scope

    def bindname(self, name, value, scope):
        owner = self.owner_scope(name, scope)
        if owner.skind == "module" and not self.setup_mode:
            self.event("write", target=owner, attr=name, value=self.freeze(value), what="global")
        self.setvar(owner, name, value)

    def lookup(self, name, scope, node=None):
        s = scope
        first = True
        while s is not None:
            if name in s.vars and (first or s.skind != "class"):
                if name in s.globals_ and s.skind == "function":
                    break
                return s.vars[name]
            first = False
            s = s.parent
        mod = self.engine.modules.get(scope.module)
        if mod is not None and name in mod.scope.vars:
            return mod.scope.vars[name]
        if name in ("__name__",):
            return K(scope.module)
        if hasattr(builtins, name):
            return K(getattr(builtins, name))
        fn = scope.fn
        if fn is not None and name in self.local_names(fn):
            self.raise_("UnboundLocalError", K(name))
        self.event("name_error", name=name)
        self.raise_("NameError", K(name))

    def local_names(self, fn):
        cached = getattr(fn.node, "_locals", None)
        if cached is None:
            cached = {
                n.id for n in ast.walk(fn.node)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
            }
            fn.node._locals = cached
        return cached

    def assign(self, target, value, scope):
        if isinstance(target, ast.Name):
            self.bindname(target.id, value, scope)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, scope), target.attr, value)
        elif isinstance(target, ast.Subscript):
            base = self.ev(target.value, scope)
            self.setitem(base, self.ev(target.slice, scope), value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, value, scope)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, self.to_list(value), scope)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, value, scope):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        parts = self.elements(value, None) if not isinstance(value, Gen) else list(
            self.to_list(value).content)
        if any(isinstance(p, Spread) for p in parts):
            if star:
                i = star[0]
                pre, post = i, n - i - 1
                for j in range(pre):
                    self.assign(elts[j], self.getitem(value, K(j), None), scope)
                self.assign(
                    elts[i].value,
                    AList((Spread(Sym("slice", self.freeze(value), K(pre), K(-post) if post else NONE)),)),
                    scope,
                )
                for j in range(post):
                    self.assign(elts[n - 1 - j], self.getitem(value, K(-1 - j), None), scope)
                return
            base = self.freeze(value)
            for j, elt in enumerate(elts):
                self.assign(elt, self.getitem(value if not isinstance(value, Sym) else base, K(j), None), scope)
            return
        if star:
            i = star[0]
            if len(parts) < n - 1:
                self.raise_("ValueError")
            post = n - i - 1
            for j in range(i):
                self.assign(elts[j], parts[j], scope)
            self.assign(elts[i].value, AList(parts[i: len(parts) - post]), scope)
            for j in range(post):
                self.assign(elts[i + 1 + j], parts[len(parts) - post + j], scope)
            return
        if len(parts) != n:
            self.raise_("ValueError", K("unpack"))
        for elt, part in zip(elts, parts):
            self.assign(elt, part, scope)

    # -- expressions --------------------------------------------------------

    def ev(self, node, scope):
        meth = getattr(self, "e_" + type(node).__name__, None)
        if meth is None:
            raise Unsupported(f"expression {type(node).__name__} at {self.pos}")
        return meth(node, scope)

    def cond(self, node, scope):
        """ Evaluate a condition to a Python bool. """
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                return all(self.cond(v, scope) for v in node.values)
            return any(self.cond(v, scope) for v in node.values)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.cond(node.operand, scope)
        return self.truth(self.ev(node, scope))

    def e_Constant(self, node, scope):
        return K(node.value)

    def e_Name(self, node, scope):
        return self.lookup(node.id, scope, node)

    def e_Attribute(self, node, scope):
        base = self.ev(node.value, scope)
        return self.getattr(base, node.attr)

    def e_Subscript(self, node, scope):
        base = self.ev(node.value, scope)
        idx = self.ev(node.slice, scope)
        return self.getitem(base, idx, node)

    def e_Slice(self, node, scope):
        parts = [NONE if p is None else self.ev(p, scope) for p in (node.lower, node.upper, node.step)]
        return Sym("sliceobj", *parts, kind="slice")

    def e_Tuple(self, node, scope):
        return Tup(self.ev_parts(node.elts, scope))

    def e_List(self, node, scope):
        return self.alloc(AList(self.ev_parts(node.elts, scope)), node)

    def e_Set(self, node, scope):
        return self.make_set(self.ev_parts(node.elts, scope), node)

    def make_set(self, parts, node=None, frozen=False):
        out = self.alloc(ASet((), frozen=frozen), node)
        content = []
        for part in parts:
            if not isinstance(part, Spread):
                self.check_hashable(part)
            if part not in content:
                content.append(part)
        out.content = tuple(content)
        return out

    def ev_parts(self, elts, scope):
        parts = []
        for elt in elts:
            if isinstance(elt, ast.Starred):
                parts.extend(self.spread(self.ev(elt.value, scope), elt))
            else:
                parts.append(self.ev(elt, scope))
        return parts

    def spread(self, value, node=None):
        """ The parts of an iterable. """
        if isinstance(value, Gen):
            return list(self.to_list(value, node).content)
        return list(self.elements(value, node))

    def e_Dict(self, node, scope):
        out = self.alloc(ADict(()), node)
        for key, val in zip(node.keys, node.values):
            if key is None:
                self.dict_update(out, self.ev(val, scope))
            else:
                k = self.ev(key, scope)
                self.dict_set(out, k, self.ev(val, scope))
        return out

    def e_UnaryOp(self, node, scope):
        if isinstance(node.op, ast.Not):
            return self.not_(self.ev(node.operand, scope))
        val = self.ev(node.operand, scope)
        if isinstance(node.op, ast.USub):
            if isinstance(val, K) and isinstance(val.v, (int, float)):
                return K(-val.v)
            return self.binop("sub", K(0), val, node)
        if isinstance(val, K):
            return K(+val.v if isinstance(node.op, ast.UAdd) else ~val.v)
        return Sym("unary", K(type(node.op).__name__), self.freeze(val))

    def not_(self, val):
        known = self.known_truth(val)
        if known is not None:
            return kbool(not known)
        return Sym("not", self.freeze(val) if not isinstance(val, Obj) else val, kind="bool")

    def e_BinOp(self, node, scope):
        left = self.ev(node.left, scope)
        right = self.ev(node.right, scope)
        return self.binop(BINOPS[type(node.op)], left, right, node)

    def e_BoolOp(self, node, scope):
        is_and = isinstance(node.op, ast.And)
        for i, sub in enumerate(node.values):
            val = self.ev(sub, scope)
            if i == len(node.values) - 1:
                return val
            if self.truth(val) != is_and:
                return val if not self.is_predicate(val) else kbool(not is_and)
        raise AssertionError

    def is_predicate(self, val):
        return isinstance(val, Sym) and val.kind == "bool"

    def e_IfExp(self, node, scope):
        if self.cond(node.test, scope):
            return self.ev(node.body, scope)
        return self.ev(node.orelse, scope)

    def e_Compare(self, node, scope):
        left = self.ev(node.left, scope)
        for i, (op, right_node) in enumerate(zip(node.ops, node.comparators)):
            right = self.ev(right_node, scope)
            res = self.compare(type(op).__name__, left, right)
            if i == len(node.ops) - 1:
                return res
            if not self.truth(res):
                return FALSE
            left = right
        raise AssertionError

    def e_Call(self, node, scope):
        if (
            isinstance(node.func, ast.Name)
            and node.func.id == "super"
            and not node.args
            and self.lookup("super", scope) == K(super)
        ):
            s = scope
            while s is not None and s.fn is None:
                s = s.parent
            if s is None:
                raise Unsupported("super()")
            fn, args = s.fn, s.self_
            return SuperV(fn.owner, args)
        if (
            isinstance(node.func, ast.Name)
            and node.func.id in ("globals", "locals", "vars")
            and not node.args
        ):
            owner = scope
            if node.func.id == "globals":
                owner = self.engine.modules[scope.module].scope
            d = ADict([(K(k), v) for k, v in owner.vars.items()])
            d.live_scope = owner
            return d
        func = self.ev(node.func, scope)
        args = self.ev_parts(node.args, scope)
        kwargs = {}
        kwspread = []
        for kw in node.keywords:
            val = self.ev(kw.value, scope)
            if kw.arg is not None:
                kwargs[kw.arg] = val
            else:
                for entry in self.dict_entries(val):
                    if isinstance(entry, Spread):
                        kwspread.append(entry)
                    elif isinstance(entry[0], K) and isinstance(entry[0].v, str):
                        kwargs[entry[0].v] = entry[1]
                    else:
                        kwspread.append(Spread(self.freeze(val)))
        if kwspread:
            kwargs["**"] = Tup(kwspread)
        self.pos = (scope.module, node.lineno, scope.label)
        return self.call(func, args, kwargs, node)

    def e_JoinedStr(self, node, scope):
        parts = []
        for val in node.values:
            if isinstance(val, ast.Constant):
                parts.append(K(val.value))
            else:
                v = self.ev(val.value, scope)
                parts.append(self.to_str(v))
        return self.strcat(parts)

    def e_FormattedValue(self, node, scope):
        val = self.ev(node.value, scope)
        if node.conversion in (ord("r"), ord("a")):
            val = self.to_repr(val)
        elif node.conversion == ord("s"):
            val = self.to_str(val)
        if node.format_spec is not None:
            return self.formatted(val, self.ev(node.format_spec, scope))
        return self.to_str(val)

    def e_Lambda(self, node, scope):
        return self.makefn(node, scope)

    def e_NamedExpr(self, node, scope):
        val = self.ev(node.value, scope)
        s = scope
        while s.skind == "comp":
            s = s.parent
        self.bindname(node.target.id, val, s)
        return val

    def e_Starred(self, node, scope):
        raise Unsupported("starred expression")

    def e_ListComp(self, node, scope):
        out = self.alloc(AList(()), node)
        self.comp(node.generators, 0, scope,
                  lambda s: self.setcontent(out, out.content + (self.ev(node.elt, s),)), node)
        return out

    def e_SetComp(self, node, scope):
        out = self.alloc(ASet(()), node)

        def add(s):
            val = self.ev(node.elt, s)
            self.check_hashable(val)
            if val not in out.content:
                self.setcontent(out, out.content + (val,))

        self.comp(node.generators, 0, scope, add, node)
        return out

    def e_DictComp(self, node, scope):
        out = self.alloc(ADict(()), node)

        def add(s):
            key = self.ev(node.key, s)
            self.dict_set(out, key, self.ev(node.value, s))

        self.comp(node.generators, 0, scope, add, node)
        return out

    def e_GeneratorExp(self, node, scope):
        # The first iterable is evaluated at once, the rest lazily.
        first = self.ev(node.generators[0].iter, scope)
        frames = list(self.frames)

        def run(on_yield):
            self.comp(node.generators, 0, scope, lambda s: on_yield(self.ev(node.elt, s)),
                      node, first)

        return Gen(run, "genexpr")

    def comp(self, gens, i, scope, emit, node, first=None):
        if i == 0:
            child = Scope(scope, f"{scope.label}.<comp>", scope.module, kind="comp")
            child.fn, child.self_ = scope.fn, scope.self_
            self.frames.append((f"{scope.module}:{scope.label}", self.site(node), child))
            try:
                self.comp1(gens, 0, child, scope, emit, node, first)
            finally:
                self.frames.pop()
        else:
            self.comp1(gens, i, scope, scope, emit, node, None)

    def comp1(self, gens, i, scope, outer, emit, node, first):
        if i == len(gens):
            emit(scope)
            return
        gen = gens[i]
        iterable = first if first is not None else self.ev(gen.iter, outer if i == 0 else scope)

        def body(elem):
            self.assign(gen.target, elem, scope)
            for test in gen.ifs:
                if not self.cond(test, scope):
                    return
            self.comp1(gens, i + 1, scope, scope, emit, node, None)

        self.iterate(iterable, body, gen.target)

    def e_Yield(self, node, scope):
        val = NONE if node.value is None else self.ev(node.value, scope)
        return self.yield_(val, scope)

    def yield_(self, val, scope):
        s = scope
        while s is not None and not hasattr(s, "on_yield"):
            s = s.parent
        if s is None:
            raise Unsupported("yield outside of a running generator")
        res = s.on_yield(val)
        return res if isinstance(res, Val) else NONE

    def e_YieldFrom(self, node, scope):
        self.iterate(self.ev(node.value, scope), lambda v: self.yield_(v, scope), node)
        return NONE

    def e_Await(self, node, scope):
        raise Unsupported("await")
