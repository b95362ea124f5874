""" A model of sympy symbols, expressions and substitution. """
from .common import *

SYMBOL = Ext("sympy.core.symbol.Symbol")
EXPR_CLS = Ext("sympy.core.expr.Expr")
INTEGER = Ext("sympy.core.numbers.Integer")
RATIONAL = Ext("sympy.core.numbers.Rational")
SYMBOL_MAKERS = ("sympy.symbols", "sympy.core.symbol.symbols", "sympy.Symbol",
                 "sympy.core.symbol.Symbol")


class Sympy:
    """
    Symbols are known by their names, expressions by the symbols they are made of. What
    an expression is worth once numbers stand for all its symbols is unknown: some integer or
    no integer, depending on nothing but the expression and the numbers.
    """

    def __init__(self, world):
        self.w = world
        self.cache = {}
        for path in SYMBOL_MAKERS:
            world.eng.ext_models[path] = self.make

    def make(self, it, args, kwargs, node):
        if len(args) != 1 or kwargs or not isinstance(args[0], K) or \
                not isinstance(args[0].v, str):
            return NotImplemented
        return self.symbol(args[0].v)

    def symbol(self, name):
        return self.term(("sym", name), frozenset([name]))

    def expr(self, name, symbols):
        """ An expression with these symbols (not one of them itself). """
        return self.term(("expr", name), frozenset(symbols))

    def term(self, base, symbols, done=frozenset(), integral=None, value=None):
        key = (base, symbols, done, integral)
        if key in self.cache:
            return self.cache[key]
        name = base[1] + ("" if not done else " at " + ", ".join(
            f"{s}={v!r}" for s, v in sorted(done, key=repr)))
        if base[0] == "sym" and symbols:
            cls = SYMBOL
        elif symbols:
            cls = EXPR_CLS
        else:
            cls = INTEGER if integral else RATIONAL
        attrs = {
            "free_symbols": lambda it, v: it.make_set(
                [self.symbol(s) for s in sorted(symbols)]),
            "subs": Native("subs", lambda it, a, k, n: self.subs(it, res, a, k)),
            "xreplace": Native("xreplace", lambda it, a, k, n: self.subs(it, res, a, k)),
            "is_Number": kbool(not symbols), "is_number": kbool(not symbols),
            "is_Integer": kbool(not symbols and bool(integral)),
            "is_Symbol": kbool(cls is SYMBOL), "is_symbol": kbool(cls is SYMBOL),
            "is_integer": NONE if symbols else kbool(bool(integral)),
            "atoms": Native("atoms", lambda it, a, k, n: it.make_set(
                [self.symbol(s) for s in sorted(symbols)]) if a == [SYMBOL]
                else raise_undecided("atoms() of an expression")),
        }
        if cls is SYMBOL:
            attrs["name"] = K(base[1])
        if not symbols and integral:
            attrs["__int__"] = value
        res = Opaque(f"{base[0]}:{name}" + ("" if symbols or integral else " (no integer)"),
                     pytype=cls, kind="expr" if symbols else None, attrs=attrs, truthy=None,
                     eqs={})
        res.model = (base, symbols, done, integral)
        self.cache[key] = res
        return res

    def value_of(self, it, base, done):
        """ What an expression comes out as: (an integer or None). """
        if base[0] == "sym":
            return next(v for s, v in done if s == base[1])
        text = K(f"{base[1]}")
        parts = [Tup([K(s), v]) for s, v in sorted(done, key=repr)]
        if not it.test(Sym("integral", text, *parts, kind="bool")):
            return None
        return Opaque(f"value of {base[1]} at {parts!r}", kind="int", pytype=K(int))

    def subs(self, it, term, args, kwargs):
        base, symbols, done, integral = term.model
        if kwargs:
            raise Undecided("subs is called with keyword arguments")
        pairs = []
        if len(args) == 2:
            pairs.append((args[0], args[1]))
        elif len(args) == 1 and isinstance(args[0], ADict):
            pairs.extend(args[0].content)
        elif len(args) == 1 and isinstance(args[0], (AList, Tup, ASet)):
            items = args[0].items if isinstance(args[0], Tup) else args[0].content
            for p in items:
                if not isinstance(p, Tup) or len(p.items) != 2:
                    raise Undecided("subs is called with unknown pairs")
                pairs.append(tuple(p.items))
        else:
            raise Undecided("subs is called with unknown arguments")
        symbols, done = set(symbols), set(done)
        for old, new in pairs:
            model = getattr(old, "model", None)
            if model is None or model[0][0] != "sym":
                raise Undecided(f"subs replaces {old!r}")
            if model[0][1] not in symbols:
                continue
            if new == NONE:
                it.raise_("SympifyError", K("None"))
            if not it.is_int(new):
                if getattr(new, "model", None) and "__int__" in new.attrs:
                    new = new.attrs["__int__"]
                else:
                    raise Undecided(f"subs puts {new!r} for a symbol")
            symbols.discard(model[0][1])
            done.add((model[0][1], new))
        if integral is not None:
            return term
        symbols, done = frozenset(symbols), frozenset(done)
        if symbols:
            return self.term(base, symbols, done)
        value = self.value_of(it, base, done)
        return self.term(base, symbols, done, value is not None, value)


def raise_undecided(text):
    raise Undecided(text)
