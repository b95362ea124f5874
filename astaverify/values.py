""" Abstract values: constants, opaque symbols, terms, and heap objects. """
import types


class Val:
    __slots__ = ()
    kind = None


class K(Val):
    """ A known constant: a literal, or an object of the standard library. """

    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        try:
            self._h = hash((type(v), v))
        except TypeError:
            self._h = hash((type(v), id(v)))

    def __eq__(self, other):
        if not isinstance(other, K):
            return False
        a, b = self.v, other.v
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        try:
            return bool(a == b)
        except Exception:  # pylint: disable=broad-except
            return False

    def __hash__(self):
        return self._h

    def __repr__(self):
        v = self.v
        if isinstance(v, type):
            return v.__name__
        if isinstance(v, types.ModuleType):
            return f"<module {v.__name__}>"
        if callable(v) and hasattr(v, "__qualname__"):
            return v.__qualname__
        return repr(v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ELL = K(Ellipsis)


def kbool(b):
    return TRUE if b else FALSE


class Ext(Val):
    """ An entity of a library which is not analysed, by its dotted path. """

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, other):
        return isinstance(other, Ext) and other.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return self.path


class Sym(Val):
    """ A term over opaque symbols. """

    __slots__ = ("op", "args", "kind", "_h")

    def __init__(self, op, *args, kind=None):
        self.op = op
        self.args = args
        self.kind = kind
        self._h = hash((op, args))

    def __eq__(self, other):
        return self is other or (
            isinstance(other, Sym)
            and self._h == other._h
            and self.op == other.op
            and self.args == other.args
        )

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1]}"
        if self.op == "elem":
            return f"<each of {self.args[0]!r}>"
        if self.op == "key":
            return f"<key of {self.args[0]!r}>"
        if self.op == "val":
            return f"<value of {self.args[0]!r}>"
        if self.op == "idx":
            return f"<index in {self.args[0]!r}>"
        if self.op == "phi":
            return f"<{self.args[-1]} so far>"
        if self.op == "str":
            return "str(...)"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Opaque(Val):
    """ A symbolic input with whatever is known about it. """

    def __init__(
        self,
        name,
        pytype=None,
        attrs=None,
        closed=False,
        isclass=None,
        bases=None,
        truthy=None,
        kind=None,
        eqs=None,
        callable=None,
        call=None,
        lo=None,
        length=None,
        unhashable=False,
        instances=None,
        instancecheck=None,
        parts=None,
        not_iterable=False,
        on_setitem=None,
        getitem=None,
        element=None,
        elemkind=None,
        subclasses=None,
        function=None,
    ):
        self.name = name
        self.pytype = pytype
        self.attrs = attrs or {}
        self.closed = closed
        self.isclass = isclass
        self.bases = bases
        self.truthy = truthy
        self.kind = kind
        self.eqs = eqs
        self.callable = callable
        self.call = call
        self.lo = lo
        self.length = length
        self.unhashable = unhashable
        self.instances = instances
        self.instancecheck = instancecheck
        self.parts = parts
        self.not_iterable = not_iterable
        self.on_setitem = on_setitem
        self.getitem = getitem
        self.element = element
        self.elemkind = elemkind
        self.subclasses = subclasses
        self.function = function

    def __eq__(self, other):
        return isinstance(other, Opaque) and other.name == self.name

    def __hash__(self):
        return hash(("opq", self.name))

    def __repr__(self):
        return self.name


class Spread(Val):
    """ All the elements of a collection term, inside a collection's parts. """

    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __eq__(self, other):
        return isinstance(other, Spread) and other.term == self.term

    def __hash__(self):
        return hash(("spread", self.term))

    def __repr__(self):
        return f"*{self.term!r}"


class Tup(Val):
    """ A tuple (immutable). """

    __slots__ = ("items",)
    kind = "tuple"

    def __init__(self, items=()):
        self.items = tuple(items)

    def __eq__(self, other):
        return isinstance(other, Tup) and other.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return f"({', '.join(map(repr, self.items))})"


class Obj(Val):
    """ Heap object (compared by identity). """

    serial = 0
    shared = False

    def __init__(self, site=None):
        Obj.serial += 1
        self.birth = Obj.serial
        self.site = site

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self) >> 4


class AList(Obj):
    kind = "list"

    def __init__(self, content=(), site=None):
        super().__init__(site)
        self.content = tuple(content)

    def __repr__(self):
        return f"[{', '.join(map(repr, self.content))}]"


class ASet(Obj):
    kind = "set"

    def __init__(self, content=(), frozen=False, site=None):
        super().__init__(site)
        out = []
        for part in content:
            if part not in out:
                out.append(part)
        self.content = tuple(out)
        self.frozen = frozen

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.content)) + "}"


class ADict(Obj):
    """ Content: tuple of (key, value) pairs and Spreads. """

    kind = "dict"

    def __init__(self, content=(), site=None):
        super().__init__(site)
        self.content = tuple(content)

    def __repr__(self):
        return "{" + ", ".join(
            repr(e) if isinstance(e, Spread) else f"{e[0]!r}: {e[1]!r}"
            for e in self.content
        ) + "}"


class Inst(Obj):
    """ An instance of an analysed or modelled class. """

    kind = "inst"

    def __init__(self, cls, attrs=None, site=None):
        super().__init__(site)
        self.cls = cls
        self.attrs = dict(attrs or {})

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)} object>"


class Exc(Obj):
    """ An exception object. """

    kind = "exc"

    def __init__(self, cls, args=(), site=None):
        super().__init__(site)
        self.cls = cls  # class value
        self.args = tuple(args)

    def __repr__(self):
        return f"{self.cls!r}(...)"


class Cls(Obj):
    kind = "class"

    def __init__(self, name, bases, attrs, meta, module, qualname, node=None, site=None):
        super().__init__(site)
        self.name = name
        self.bases = bases
        self.attrs = dict(attrs)
        self.meta = meta
        self.module = module
        self.qualname = qualname
        self.node = node
        self.mro = None

    def __repr__(self):
        return f"{self.module}.{self.qualname}"


class Fn(Obj):
    kind = "func"

    def __init__(self, node, module, qualname, scope, defaults, kwdefaults, site=None):
        super().__init__(site)
        self.node = node
        self.module = module
        self.qualname = qualname
        self.scope = scope
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.attrs = {}
        self.owner = None

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return f"{self.module}.{self.qualname}"


class Native(Obj):
    """ A function implemented by the analyser (model or bound method). """

    kind = "func"

    def __init__(self, name, fn, data=None):
        super().__init__(None)
        self.name = name
        self.fn = fn
        self.data = data

    def __repr__(self):
        return f"<{self.name}>"


class Bound(Obj):
    kind = "func"

    def __init__(self, fn, self_):
        super().__init__(None)
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return f"<bound {self.fn!r}>"


class Wrap(Obj):
    """ classmethod / staticmethod / property objects. """

    def __init__(self, which, fn, extra=None):
        super().__init__(None)
        self.which = which
        self.fn = fn
        self.extra = extra or {}

    def __repr__(self):
        return f"<{self.which} {self.fn!r}>"


class Mod(Obj):
    kind = "module"

    def __init__(self, name, scope):
        super().__init__(None)
        self.name = name
        self.scope = scope
        self.replaced = None

    def __repr__(self):
        return f"<module {self.name}>"


class Gen(Obj):
    """ A generator: ``run(on_yield)`` executes it. """

    kind = "gen"

    def __init__(self, run, label="gen"):
        super().__init__(None)
        self.run = run
        self.label = label

    def __repr__(self):
        return f"<generator {self.label}>"


class SuperV(Obj):
    def __init__(self, cls, self_):
        super().__init__(None)
        self.cls = cls
        self.self_ = self_


class Scope(Obj):
    def __init__(self, parent, label, module, kind="function"):
        super().__init__(None)
        self.parent = parent
        self.label = label
        self.module = module
        self.skind = kind
        self.vars = {}
        self.globals_ = set()
        self.nonlocals_ = set()
        self.fn = None
        self.self_ = None

    def __repr__(self):
        return f"<scope {self.label}>"


def subterms(term, seen=None):
    """ All the subterms of a (frozen) term. """
    stack = [term]
    while stack:
        t = stack.pop()
        yield t
        if isinstance(t, Sym):
            stack.extend(a for a in t.args if isinstance(a, (Val, tuple)))
        elif isinstance(t, Tup):
            stack.extend(t.items)
        elif isinstance(t, Spread):
            stack.append(t.term)
        elif isinstance(t, (AList, ASet)):
            stack.extend(t.content)
        elif isinstance(t, ADict):
            for e in t.content:
                if isinstance(e, Spread):
                    stack.append(e)
                else:
                    stack.extend(e)
        elif isinstance(t, tuple):
            stack.extend(a for a in t if isinstance(a, (Val, tuple)))


def mentions(term, sub):
    return any(t == sub for t in subterms(term) if isinstance(t, Val))
