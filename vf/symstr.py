"""Strings with symbolic characters, and numbers whose text is symbolic."""
import sys

from vf import sym


class SymChar:
    def __init__(self, code):
        self.code = code


class SymStr:
    """A string some characters of which are symbolic code points."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        return SymStr(self.items[k] if isinstance(k, slice) else [self.items[k]]).text()

    def text(self):
        # symbolic characters are beyond ASCII: they only appear in error messages
        return "".join(c if isinstance(c, str) else "\u00e9" for c in self.items)

    def __str__(self):
        return self.text()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.text(), name)


def install():
    mod = sys.modules.get("antlr4.InputStream")
    if mod is None:
        import antlr4  # noqa: F401

        mod = sys.modules["antlr4.InputStream"]
    mod.ord = lambda c: c.code if isinstance(c, SymChar) else ord(c)


def mk(ctx, parts):
    """parts: strings and code points (symbolic or not)."""
    if not ctx.symbolic:
        return "".join(p if isinstance(p, str) else chr(p) for p in parts)
    items = []
    for p in parts:
        if isinstance(p, str):
            items.extend(p)
        elif isinstance(p, sym.SymInt):
            items.append(SymChar(p))
        else:
            items.append(chr(p))
    return SymStr(items)


_NUMS = {}


def number(ctx, name, hi=1000):
    """(text of a non negative number, its value): the value is symbolic."""
    v = ctx.real(name, 0, hi)
    if not ctx.symbolic:
        t = format(v, ".10f")
        return t, float(t)
    if getattr(ctx, "numtexts", None) is None:
        ctx.numtexts = {}
    t = f"9{len(ctx.numtexts):04d}.25"
    ctx.numtexts[t] = v
    return t, v


def float_hook(text):
    return (getattr(sym.CUR, "numtexts", None) or {}).get(text)


def install_numbers():
    sym.FLOAT_TEXT_HOOK = float_hook
