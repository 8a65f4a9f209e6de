"""
Reference reader of the expression language (independent of the ANTLR parser):
returns the expressions of vf.spec, ("cmp", op, l, r) for comparisons, and
raises Bad on malformed text.
"""
import re

TOKEN = re.compile(r"\s*(?:(\d+(?:\.\d+)?)|([A-Za-z_]\w*)|(\.\.|<=|>=|[-+*/()\[\],.=]))", re.ASCII)
WS = " \t\r\n"


class Bad(Exception):
    pass


class Unclear(Exception):
    """Comparisons inside an expression: no documented meaning."""


def tokens(text):
    out = []
    i = 0
    while True:
        while i < len(text) and text[i] in WS:
            i += 1
        if i == len(text):
            return out
        if text[i].isspace() or ord(text[i]) > 127:
            raise Bad(f"character {text[i]!r}")
        m = TOKEN.match(text, i)
        if not m:
            raise Bad(f"character {text[i]!r}")
        if m.group(1):
            out.append(("num", m.group(1)))
        elif m.group(2):
            w = m.group(2)
            out.append((w, w) if w in ("t", "sum", "sum_connections") else ("id", w))
        else:
            out.append((m.group(3), m.group(3)))
        i = m.end()


class Ref:
    def __init__(self, text, variables, parameters, number=float):
        self.toks = tokens(text) + [("eof", "")]
        self.i = 0
        self.variables, self.parameters, self.number = variables, parameters, number
        self.unclear = False

    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][0]

    def eat(self, kind):
        if self.peek() != kind:
            raise Bad(f"{kind} expected, got {self.toks[self.i]}")
        self.i += 1
        return self.toks[self.i - 1][1]

    def name(self, n):
        if n in self.variables:
            return ("var", n)
        if n in self.parameters:
            return ("par", n)
        raise Bad(f"unknown {n}")

    def full(self):
        e = self.expr()
        self.eat("eof")
        if self.unclear or has_cmp(e[2:] if e[0] == "cmp" else e):
            raise Unclear()
        return e

    def expr(self):
        e = self.addsub()
        while self.peek() in ("<=", ">=", "="):
            op = self.eat(self.peek())
            e = ("cmp", op, e, self.addsub())
        return e

    def addsub(self):
        e = self.muldiv()
        while self.peek() in ("+", "-"):
            op = self.eat(self.peek())
            e = (op, e, self.muldiv())
        return e

    def muldiv(self):
        e = self.unary()
        while self.peek() in ("*", "/"):
            op = self.eat(self.peek())
            e = (op, e, self.unary())
        return e

    def unary(self):
        if self.peek() == "-":
            self.eat("-")
            return ("neg", self.unary())
        return self.primary()

    def primary(self):
        k = self.peek()
        if k == "num":
            return ("lit", self.number(self.eat("num")))
        if k == "(":
            self.eat("(")
            e = self.expr()
            self.eat(")")
            return self.bracket(e) if self.peek() == "[" else e
        if k == "sum":
            self.eat("sum")
            self.eat("(")
            if self.peek() == "t":
                a = self.shift()
                self.eat("..")
                b = self.shift()
                self.eat(",")
                e = ("tsum", self.expr(), a, b)
            else:
                e = ("sumall", self.expr())
            self.eat(")")
            return e
        if k == "sum_connections":
            self.eat(k)
            self.eat("(")
            p = self.eat("id")
            self.eat(".")
            e = ("pfsum", p, self.eat("id"))
            self.eat(")")
            return e
        if k == "id":
            n = self.eat("id")
            if self.peek() == ".":
                self.eat(".")
                return ("pf", n, self.eat("id"))
            if self.peek() == "(":
                if n != "expec":
                    raise Bad(f"unknown function {n}")
                self.eat("(")
                e = ("expec", self.expr())
                self.eat(")")
                return e
            e = self.name(n)
            return self.bracket(e) if self.peek() == "[" else e
        raise Bad(f"unexpected {self.toks[self.i]}")

    def bracket(self, e):
        self.eat("[")
        if self.peek() == "t":
            e = ("shift", e, self.shift())
        else:
            e = ("eval", e, self.expr())
        self.eat("]")
        return e

    def shift(self):
        """t, or t followed by signed terms."""
        self.eat("t")
        if self.peek() not in ("+", "-"):
            return 0
        res = None
        first = True
        while self.peek() in ("+", "-"):
            op = self.eat(self.peek())
            e = self.shift_term()
            while self.peek() in ("*", "/"):
                o = self.eat(self.peek())
                e = (o, e, self.shift_term())
            if first:
                res = ("neg", e) if op == "-" else e
            else:
                res = (op, res, e)
            first = False
        return res

    def shift_term(self):
        if self.peek() == "(":
            self.eat("(")
            e = self.expr()
            self.eat(")")
            return e
        if self.peek() == "num":
            return ("lit", self.number(self.eat("num")))
        return self.name(self.eat("id"))


def has_cmp(e):
    if not isinstance(e, tuple):
        return False
    return (len(e) > 0 and e[0] == "cmp") or any(has_cmp(x) for x in e)


def parse(text, variables, parameters, number=float):
    return Ref(text, variables, parameters, number).full()
