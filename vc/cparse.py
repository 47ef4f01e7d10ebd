"""Tokenizer and parser of the C subset the generator emits."""
from __future__ import annotations

import re

from core import Unsupported

TOK = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\#[^\n]*)
  | (?P<num>(?:0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][+-]?\d+)?|\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+)[fFlLuU]*)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<op><<=|>>=|->|\+\+|--|&&|\|\||<<|>>|<=|>=|==|!=|\+=|-=|\*=|/=|%=|[-+*/%<>=!&|^~?:;,.(){}\[\]])
""", re.X | re.S)

TYPES = {"int", "float", "double", "const", "register", "unsigned", "long", "short", "char", "void",
         "signed", "static", "inline", "restrict", "__restrict", "volatile", "size_t",
         "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "FILE"}
REALS = {"float", "double"}


def tokenize(src):
    out, pos = [], 0
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            raise Unsupported(f"C token at {src[pos:pos + 30]!r}")
        pos = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    out.append(("eof", ""))
    return out


class Parser:
    def __init__(self, src):
        self.toks = tokenize(src)
        self.p = 0

    def peek(self, n=0):
        return self.toks[min(self.p + n, len(self.toks) - 1)]

    def next(self):
        t = self.toks[self.p]
        self.p += 1
        return t

    def accept(self, s):
        if self.peek()[1] == s and self.peek()[0] in ("op", "id"):
            self.p += 1
            return True
        return False

    def expect(self, s):
        t = self.next()
        if t[1] != s:
            ctx = " ".join(x[1] for x in self.toks[max(0, self.p - 6):self.p + 4])
            raise CSyntax(f"expected {s!r}, found {t[1]!r} near: {ctx}")

    # statements
    def program(self):
        out = []
        while self.peek()[0] != "eof":
            out.append(self.stmt())
        return out

    def stmt(self):
        k, t = self.peek()
        if t == "{" and k == "op":
            self.next()
            out = []
            while not self.accept("}"):
                if self.peek()[0] == "eof":
                    raise CSyntax("unbalanced braces")
                out.append(self.stmt())
            return ("block", out)
        if t == ";" and k == "op":
            self.next()
            return ("block", [])
        if k == "id":
            if t == "for":
                self.next()
                self.expect("(")
                init = None
                if not self.accept(";"):
                    init = self.decl() if self.is_type() else ("expr", self.expr())
                    self.expect(";")
                cond = None if self.peek()[1] == ";" else self.expr()
                self.expect(";")
                step = None if self.peek()[1] == ")" else self.expr()
                self.expect(")")
                return ("for", init, cond, step, self.stmt())
            if t == "if":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                a = self.stmt()
                b = self.stmt() if self.accept("else") else None
                return ("if", c, a, b)
            if t == "while":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                return ("while", c, self.stmt())
            if t == "return":
                self.next()
                e = None if self.peek()[1] == ";" else self.expr()
                self.expect(";")
                return ("return", e)
            if t == "continue":
                self.next()
                self.expect(";")
                return ("continue",)
            if t in ("break", "goto", "do", "switch"):
                raise Unsupported(f"C statement {t}")
            if self.is_type():
                d = self.decl()
                self.expect(";")
                return d
        e = self.expr()
        self.expect(";")
        return ("expr", e)

    def is_type(self):
        k, t = self.peek()
        return k == "id" and (t in TYPES or t == "struct")

    def base_type(self):
        names = []
        while self.peek()[0] == "id" and self.peek()[1] in TYPES:
            names.append(self.next()[1])
        if not names:
            raise CSyntax(f"type expected, found {self.peek()[1]!r}")
        ty = "float" if set(names) & REALS else "int"
        return ty, names

    def decl(self):
        ty, names = self.base_type()
        out = []
        while True:
            ptr = 0
            while self.accept("*"):
                ptr += 1
                while self.peek()[1] in ("const", "restrict", "__restrict", "volatile"):
                    names.append(self.next()[1])
            while self.peek()[1] in ("register", "restrict", "__restrict", "const"):
                self.next()
            k, name = self.next()
            if k != "id":
                raise CSyntax(f"declarator expected, found {name!r}")
            dims = []
            while self.accept("["):
                dims.append(None if self.peek()[1] == "]" else self.expr())
                self.expect("]")
            if self.accept("__attribute__"):
                depth = 0
                while True:
                    s = self.next()[1]
                    depth += s == "("
                    depth -= s == ")"
                    if depth == 0:
                        break
            init = None
            if self.accept("="):
                init = self.initializer()
            out.append(("decl", ty, name, dims, init, ptr, "const" in names))
            if not self.accept(","):
                break
        return out[0] if len(out) == 1 else ("decls", out)

    def initializer(self):
        if self.accept("{"):
            items = []
            while not self.accept("}"):
                items.append(self.initializer())
                if not self.accept(","):
                    self.expect("}")
                    break
            return ("init", items)
        return self.assign()

    # expressions
    def expr(self):
        e = self.assign()
        while self.accept(","):
            e = ("comma", e, self.assign())
        return e

    def assign(self):
        lhs = self.ternary()
        k, t = self.peek()
        if k == "op" and t in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "<<=", ">>="):
            self.next()
            return ("assign", t, lhs, self.assign())
        return lhs

    def ternary(self):
        c = self.binary(0)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            return ("cond", c, a, self.ternary())
        return c

    LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="],
              ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]

    def binary(self, lvl):
        if lvl == len(self.LEVELS):
            return self.unary()
        e = self.binary(lvl + 1)
        while self.peek()[0] == "op" and self.peek()[1] in self.LEVELS[lvl]:
            op = self.next()[1]
            e = ("bin", op, e, self.binary(lvl + 1))
        return e

    def unary(self):
        k, t = self.peek()
        if k == "op" and t in ("-", "+", "!", "~", "*", "&"):
            self.next()
            return ("un", t, self.unary())
        if k == "op" and t in ("++", "--"):
            self.next()
            return ("preinc", t, self.unary())
        if k == "op" and t == "(" and self.peek(1)[0] == "id" and self.peek(1)[1] in TYPES:
            self.next()
            ty, names = self.base_type()
            ptr = 0
            while self.accept("*"):
                ptr += 1
                while self.peek()[1] in ("const", "restrict", "__restrict"):
                    self.next()
            self.expect(")")
            return ("cast", ty, ptr, self.unary(), tuple(names))
        return self.postfix()

    def postfix(self):
        k, t = self.next()
        if k == "num":
            e = ("num", t)
        elif k == "id":
            e = ("id", t)
        elif k == "op" and t == "(":
            e = self.expr()
            self.expect(")")
        elif k == "str":
            e = ("str", t)
        else:
            ctx = " ".join(x[1] for x in self.toks[max(0, self.p - 8):self.p + 4])
            raise CSyntax(f"unexpected {t!r} near: {ctx}")
        while True:
            if self.accept("["):
                i = self.expr()
                self.expect("]")
                e = ("idx", e, i)
            elif self.accept("("):
                args = []
                while not self.accept(")"):
                    args.append(self.assign())
                    if not self.accept(","):
                        self.expect(")")
                        break
                e = ("call", e, args)
            elif self.accept("->"):
                e = ("id", e[1] + "->" + self.next()[1])
            elif self.peek()[1] in ("++", "--") and self.peek()[0] == "op":
                e = ("postinc", self.next()[1], e)
            else:
                return e


class CSyntax(Exception):
    """The generated text is not valid C."""


def continues(s):
    """Whether a statement may end the iteration of the loop it is directly in."""
    if s[0] == "continue":
        return True
    if s[0] == "block":
        return any(continues(x) for x in s[1])
    if s[0] == "if":
        return continues(s[2]) or (s[3] is not None and continues(s[3]))
    return False


def without_continue(s, rest=()):
    """The statement `s; rest` of a loop body with every `continue` replaced by not running what follows it."""
    rest = list(rest)
    if s[0] == "continue":
        return ("block", [])
    if not continues(s):
        whole = ("block", [s, *rest]) if rest else s
        return without_continue(whole) if continues(whole) else whole
    if s[0] == "block":
        out = []
        for n, x in enumerate(s[1]):
            if continues(x):
                # a name declared in this block would be hidden in `rest` as well
                names = {d[2] for y in s[1] for d in ([y] if y[0] == "decl" else y[1] if y[0] == "decls" else [])}
                if rest and names & mentioned(rest):
                    raise Unsupported("continue past a block that hides a name")
                out.append(without_continue(x, s[1][n + 1:] + rest))
                return ("block", out)
            out.append(x)
    return ("if", s[1], without_continue(s[2], rest), without_continue(s[3] or ("block", []), rest))


def mentioned(x):
    out = set()
    if isinstance(x, tuple):
        if x and x[0] == "id":
            out.add(x[1])
        for y in x:
            out |= mentioned(y)
    elif isinstance(x, list):
        for y in x:
            out |= mentioned(y)
    return out


def parse(src):
    return Parser(src).program()
