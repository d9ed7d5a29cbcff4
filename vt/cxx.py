"""Symbolic execution of the C++ extension sources.

The functions of a pybind11 extension are parsed from /repo's current .cpp text on every run and interpreted
statement by statement over symbolic reals (vt.expr terms), concrete integers and booleans. Nothing is rewritten by
hand: comments and preprocessor lines are the only text dropped. Modelled: scalar types (integers as mathematical
integers with wrap-around of unsigned 64-bit ones, doubles as reals), control flow, local functions and lambdas,
pybind11 arrays and their unchecked accessors, std::vector, std::tuple, a few <cmath>/<algorithm> functions,
std::discrete_distribution (an arbitrary choice whose weights are recorded) and the dense Eigen expressions used by
the sources. Every array access is checked (number of indices, bounds, initialisation): a bad one raises CxxError.
Anything else raises Unsupported and the contract falls back to a labelled bounded check of the compiled code."""
from __future__ import annotations
import re, os, builtins, itertools
from fractions import Fraction
from . import expr as X
from .expr import E, const, ZERO, ONE, fn, is_c
from .tensor import T, Unsupported, Path, lift, from_list

M64 = 1 << 64


class CxxError(Exception):
    """undefined behaviour of the C++ code on this path (out of bounds, uninitialised read)"""


# ---------------------------------------------------------------- lexer
TOK = re.compile(r"""
  (?P<ws>\s+) | (?P<lc>//[^\n]*) | (?P<bc>/\*.*?\*/) | (?P<pp>^[ \t]*\#[^\n]*(?:\\\n[^\n]*)*) |
  (?P<num>(?:0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[uUlLfF]*) |
  (?P<id>[A-Za-z_]\w*) | (?P<str>"(?:\\.|[^"\\])*") | (?P<chr>'(?:\\.|[^'\\])*') |
  (?P<op><<=|>>=|\.\.\.|->\*|->|::|\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\^=|==|!=|<=|>=|&&|\|\||<<|[-+*/%&|^~!<>=?:;,.(){}\[\]])
""", re.X | re.S | re.M)


def lex(src):
    out, p = [], 0
    while p < len(src):
        m = TOK.match(src, p)
        if not m:
            raise Unsupported(f"C++ token at {src[p:p+20]!r}")
        k = m.lastgroup
        if k not in ("ws", "lc", "bc", "pp"):
            out.append((k, m.group()))
        p = m.end()
    return out


INTS = {"int", "long", "short", "unsigned", "signed", "char", "size_t", "ssize_t", "int64_t", "int32_t", "uint64_t", "uint32_t", "ptrdiff_t"}
PRIM = INTS | {"double", "float", "bool", "void", "auto"}
QUAL = {"const", "static", "constexpr", "inline", "typename", "register", "volatile", "thread_local", "extern", "mutable"}
KW = {"if", "else", "for", "while", "do", "return", "continue", "break", "switch", "case", "new", "delete", "try", "throw", "goto"}


class Ty:
    def __init__(self, name, targs=(), ref=False, ptr=False, cst=False):
        self.name, self.targs, self.ref, self.ptr, self.cst = name, targs, ref, ptr, cst

    @property
    def base(self):
        return self.name.split("::")[-1]


class Parser:
    def __init__(self, toks, typedefs=None):
        self.t, self.p = toks, 0
        self.typedefs = typedefs if typedefs is not None else {}

    def peek(self, k=0):
        return self.t[self.p + k][1] if self.p + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.p + k][0] if self.p + k < len(self.t) else None

    def next(self):
        v = self.peek()
        self.p += 1
        return v

    def eat(self, s):
        if self.peek() != s:
            raise Unsupported(f"C++: expected {s!r}, found {self.peek()!r} near {' '.join(x[1] for x in self.t[max(0,self.p-8):self.p+6])}")
        self.p += 1

    def acc(self, s):
        if self.peek() == s:
            self.p += 1
            return True
        return False

    # ---------------- types
    def skip_angle(self):
        """at '<': returns token index after the matching '>' or None"""
        d, q = 0, self.p
        while q < len(self.t):
            v = self.t[q][1]
            if v == "<":
                d += 1
            elif v == ">":
                d -= 1
                if d == 0:
                    return q + 1
            elif v == "(":
                e = self._match(q)
                q = e
            elif v in (";", "{", "}", "&&", "||", "==", "?", "="):
                return None
            q += 1
        return None

    def _match(self, q):
        o = self.t[q][1]
        c = {"(": ")", "[": "]", "{": "}"}[o]
        d = 0
        while q < len(self.t):
            v = self.t[q][1]
            if v == o:
                d += 1
            elif v == c:
                d -= 1
                if d == 0:
                    return q
            q += 1
        raise Unsupported("C++: unbalanced")

    def parse_type(self):
        """Ty or None (position restored)"""
        s = self.p
        cst = False
        while self.peek() in QUAL:
            cst |= self.peek() == "const"
            self.p += 1
        name, targs = None, ()
        if self.peek() in PRIM:
            names = []
            while self.peek() in PRIM | QUAL:
                if self.peek() in PRIM:
                    names.append(self.peek())
                self.p += 1
            if "double" in names or "float" in names:
                name = "double"
            elif "unsigned" in names or "size_t" in names or "uint64_t" in names or "uint32_t" in names:
                name = "size_t"
            elif names[0] in ("bool", "void", "auto"):
                name = names[0]
            else:
                name = "int"
        elif self.kind() == "id" and self.peek() not in KW:
            parts = [self.next()]
            while True:
                if self.peek() == "<":
                    e = self.skip_angle()
                    if e is None:
                        break
                    targs = [x[1] for x in self.t[self.p + 1 : e - 1]]
                    self.p = e
                elif self.peek() == "::" and self.kind(1) == "id":
                    self.p += 1
                    parts.append(self.next())
                else:
                    break
            name = "::".join(parts)
            if name == "std::size_t":
                name = "size_t"
            if name.startswith("std::") and name[5:] in INTS:
                name = "size_t" if name[5] == "u" else "int"
            if name in self.typedefs:
                td = self.typedefs[name]
                name, targs = td.name, td.targs
        else:
            self.p = s
            return None
        ref = ptr = False
        while self.peek() in ("const", "&", "*", "&&"):
            v = self.next()
            ref |= v in ("&", "&&")
            ptr |= v == "*"
        return Ty(name, targs, ref, ptr, cst)

    # ---------------- expressions (precedence climbing)
    BIN = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]

    def expr(self):
        e = self.assign()
        while self.acc(","):
            e = ("comma", e, self.assign())
        return e

    def assign(self):
        l = self.tern()
        if self.peek() in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="):
            op = self.next()
            r = self.initlist() if self.peek() == "{" else self.assign()
            return ("assign", op, l, r)
        return l

    def tern(self):
        c = self.binary(0)
        if self.acc("?"):
            a = self.assign()
            self.eat(":")
            b = self.assign()
            return ("tern", c, a, b)
        return c

    def binary(self, lv):
        if lv == len(self.BIN):
            return self.unary()
        l = self.binary(lv + 1)
        while self.peek() in self.BIN[lv]:
            op = self.next()
            r = self.binary(lv + 1)
            l = ("bin", op, l, r)
        return l

    def unary(self):
        v = self.peek()
        if v in ("-", "+", "!", "~"):
            self.p += 1
            return ("un", v, self.unary())
        if v in ("++", "--"):
            self.p += 1
            return ("pre", v, self.unary())
        if v in ("&", "*"):
            self.p += 1
            return ("addr" if v == "&" else "deref", self.unary())
        if v == "(":
            s = self.p
            self.p += 1
            t = self.parse_type()
            if t is not None and self.peek() == ")" and (t.name in ("double", "int", "size_t", "bool")):
                self.p += 1
                return ("cast", t, self.unary())
            self.p = s
        return self.postfix()

    def args(self, close=")"):
        out = []
        if self.acc(close):
            return out
        while True:
            out.append(self.initlist() if self.peek() == "{" else self.assign())
            if self.acc(close):
                return out
            self.eat(",")

    def initlist(self):
        self.eat("{")
        return ("init", self.args("}"))

    def postfix(self):
        e = self.primary()
        while True:
            v = self.peek()
            if v == "(":
                self.p += 1
                e = ("call", e, self.args())
            elif v == "[":
                self.p += 1
                e = ("index", e, self.args("]"))
            elif v in (".", "->"):
                self.p += 1
                self.acc("template")
                n = self.next()
                if self.peek() == "<":
                    s = self.skip_angle()
                    if s is not None and s < len(self.t) and self.t[s][1] == "(":
                        self.p = s
                e = ("member", e, n)
            elif v in ("++", "--"):
                self.p += 1
                e = ("post", v, e)
            else:
                return e

    def primary(self):
        k, v = self.kind(), self.peek()
        if k == "num":
            self.p += 1
            return ("num", v)
        if k == "str":
            self.p += 1
            return ("str", v[1:-1])
        if v == "(":
            self.p += 1
            e = self.expr()
            self.eat(")")
            return e
        if v == "[":
            return self.lam()
        if v in ("true", "false"):
            self.p += 1
            return ("bool", v == "true")
        if k == "id":
            s = self.p
            if v in PRIM:
                t = self.parse_type()
                if self.peek() in ("(", "{"):
                    c = ")" if self.next() == "(" else "}"
                    a = self.args(c)
                    return ("cast", t, a[0] if a else ("num", "0"))
                raise Unsupported("C++: type in expression")
            parts, targs = [self.next()], None
            while True:
                if self.peek() == "::" and self.kind(1) == "id":
                    self.p += 1
                    parts.append(self.next())
                elif self.peek() == "<" and (len(parts) > 1 or parts[0].endswith("_cast") or parts[0] in self.typedefs):
                    e = self.skip_angle()
                    if e is not None and e < len(self.t) and self.t[e][1] in ("(", "::", "{", ")"):
                        targs = [x[1] for x in self.t[self.p + 1 : e - 1]]
                        self.p = e
                    else:
                        break
                else:
                    break
            n = "::".join(parts)
            if self.peek() == "{" and len(parts) > 1:
                self.p += 1
                return ("call", ("name", n, targs), self.args("}"))
            return ("name", n, targs)
        raise Unsupported(f"C++ expression at {v!r}")

    def lam(self):
        e = self._match(self.p)
        self.p = e + 1
        ps = []
        if self.acc("("):
            ps = self.params()
        while self.peek() not in ("{", None):
            self.p += 1
        return ("lambda", ps, self.block())

    def params(self):
        out = []
        if self.acc(")"):
            return out
        while True:
            t = self.parse_type()
            if t is None:
                raise Unsupported("C++ parameter")
            n = None
            if self.kind() == "id":
                n = self.next()
            d = None
            if self.acc("="):
                d = self.assign()
            out.append((t, n, d))
            if self.acc(")"):
                return out
            self.eat(",")

    # ---------------- statements
    def block(self):
        self.eat("{")
        out = []
        while not self.acc("}"):
            out.append(self.stmt())
        return ("block", out)

    def try_decl(self):
        s = self.p
        # structured binding
        t = self.parse_type()
        if t is not None and t.name == "auto" and self.peek() == "[":
            self.p += 1
            names = [self.next()]
            while self.acc(","):
                names.append(self.next())
            self.eat("]")
            self.eat("=")
            e = self.assign()
            return ("bind", names, e)
        if t is None or self.kind() != "id" or self.peek() in KW or self.peek(1) not in ("=", ";", "(", "{", ",", ":", "["):
            self.p = s
            return None
        if t.name not in PRIM and not t.targs and "::" not in t.name and self.peek(1) == "(" and t.name not in self.typedefs:
            self.p = s
            return None
        ds = []
        while True:
            while self.peek() in ("&", "*"):
                self.p += 1
            n = self.next()
            dims = None
            if self.peek() == "[":
                self.p += 1
                dims = self.args("]")
            init, kind = None, None
            if self.acc("="):
                kind = "="
                init = [self.initlist() if self.peek() == "{" else self.assign()]
            elif self.acc("("):
                kind, init = "(", self.args()
            elif self.peek() == "{":
                self.p += 1
                kind, init = "{", self.args("}")
            ds.append((n, kind, init, dims))
            if not self.acc(","):
                break
        return ("decl", t, ds)

    def stmt(self):
        v = self.peek()
        if v == "{":
            return self.block()
        if v == ";":
            self.p += 1
            return ("block", [])
        if v == "if":
            self.p += 1
            self.acc("constexpr")
            self.eat("(")
            c = self.expr()
            self.eat(")")
            a = self.stmt()
            b = self.stmt() if self.acc("else") else None
            return ("if", c, a, b)
        if v == "while":
            self.p += 1
            self.eat("(")
            c = self.expr()
            self.eat(")")
            return ("while", c, self.stmt())
        if v == "do":
            self.p += 1
            b = self.stmt()
            self.eat("while")
            self.eat("(")
            c = self.expr()
            self.eat(")")
            self.eat(";")
            return ("do", c, b)
        if v == "for":
            self.p += 1
            self.eat("(")
            d = self.try_decl()
            if d is not None and self.acc(":"):
                r = self.expr()
                self.eat(")")
                return ("foreach", d[1], d[2][0][0], r, self.stmt())
            if d is None:
                d = ("block", []) if self.peek() == ";" else ("expr", self.expr())
            self.eat(";")
            c = ("bool", True) if self.peek() == ";" else self.expr()
            self.eat(";")
            u = None if self.peek() == ")" else self.expr()
            self.eat(")")
            return ("for", d, c, u, self.stmt())
        if v == "return":
            self.p += 1
            e = None if self.peek() == ";" else (self.initlist() if self.peek() == "{" else self.expr())
            self.eat(";")
            return ("return", e)
        if v in ("continue", "break"):
            self.p += 1
            self.eat(";")
            return (v,)
        if v == "switch":
            return self.switch()
        if v in ("using", "typedef"):
            while self.next() != ";":
                pass
            return ("block", [])
        d = self.try_decl()
        if d is not None:
            self.eat(";")
            return d
        e = self.expr()
        self.eat(";")
        return ("expr", e)

    def switch(self):
        self.eat("switch")
        self.eat("(")
        c = self.expr()
        self.eat(")")
        self.eat("{")
        items = []
        while not self.acc("}"):
            if self.acc("case"):
                e = self.tern()
                self.eat(":")
                items.append(("case", e))
            elif self.acc("default"):
                self.eat(":")
                items.append(("default",))
            else:
                items.append(("stmt", self.stmt()))
        return ("switch", c, items)

    # ---------------- file
    def file(self):
        fns, binds = {}, {}
        while self.p < len(self.t):
            v = self.peek()
            if v in (";", "}"):
                self.p += 1
                continue
            if v in ("using", "typedef"):
                s = self.p
                if v == "typedef":
                    self.p += 1
                    t = self.parse_type()
                    if t is not None and self.kind() == "id":
                        self.typedefs[self.peek()] = t
                elif self.peek(2) == "=":
                    n = self.peek(1)
                    self.p += 3
                    t = self.parse_type()
                    if t is not None:
                        self.typedefs[n] = t
                self.p = s
                while self.next() != ";":
                    pass
                continue
            if v == "namespace":
                self.p += 1
                while self.peek() not in ("{", ";"):
                    self.p += 1
                self.p += 1
                continue
            # find ';' or '{' ending this item
            q, par = self.p, None
            while q < len(self.t) and self.t[q][1] not in (";", "{"):
                if self.t[q][1] == "(":
                    e = self._match(q)
                    par = (q, e)
                    q = e
                q += 1
            if q >= len(self.t):
                break
            if self.t[q][1] == ";" or par is None:
                if self.t[q][1] == "{":  # struct, enum ...
                    q = self._match(q)
                self.p = q + 1
                continue
            name = self.t[par[0] - 1][1]
            end = self._match(q)
            body = self.t[q : end + 1]
            if name in ("PYBIND11_MODULE",) or name.startswith("init_"):
                for a in range(len(body) - 6):
                    if body[a][1] == "def" and body[a + 1][1] == "(" and body[a + 2][0] == "str" and body[a + 4][1] == "&":
                        binds[body[a + 2][1][1:-1]] = body[a + 5][1]
            else:
                fns[name] = (self.t[self.p : par[0] - 1], self.t[par[0] + 1 : par[1] + 1], body)
            self.p = end + 1
        return fns, binds


class Func:
    def __init__(self, name, raw, typedefs):
        self.name, self.raw, self.td = name, raw, typedefs
        self._p = None

    def parsed(self):
        if self._p is None:
            rt, ps, body = self.raw
            pp = Parser(list(ps), self.td)
            params = pp.params()
            bp = Parser(list(body), self.td)
            b = bp.block()
            rp = Parser(list(rt), self.td)
            self._p = (rp.parse_type(), params, b)
        return self._p


# ---------------------------------------------------------------- values
class U64(int):
    pass


class Real:
    """a real number term"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Inf:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Nan:
    """result of 0/0: may be computed and copied, must not influence a result"""


class Bo:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Undef_:
    def __repr__(self):
        return "<uninitialised>"


UND = Undef_()


def toR(v):
    if isinstance(v, Nan):
        raise CxxError("use of the result of 0/0")
    if isinstance(v, (Real, Inf)):
        return v
    if isinstance(v, bool):
        return Real(const(int(v)))
    if isinstance(v, (int, Fraction)):
        return Real(const(Fraction(v)))
    if isinstance(v, float):
        if v in (float("inf"), float("-inf")):
            return Inf(1 if v > 0 else -1)
        return Real(const(Fraction(repr(v))))
    if isinstance(v, T):
        return Real(v.scalarE())
    if isinstance(v, E):
        return Real(v)
    if isinstance(v, Bo):
        return Real(X.ite(v.e, ONE, ZERO))
    if v is UND:
        raise CxxError("read of an uninitialised value")
    if hasattr(v, "dtype") and getattr(v, "ndim", 1) == 0:
        return toR(v.item())
    raise Unsupported(f"C++: {type(v).__name__} as a number")


def isint(v):
    return isinstance(v, int)


# ---------------------------------------------------------------- ghost names for positive divisors
# A sum used as a divisor or under a logarithm may be given a ghost name g > 0 with the recorded definition g = sum.
# An obligation is first tried with the names opaque (it then holds for every positive value of g, which is stronger),
# then with the definitions substituted.
GHOST = {}  # name -> definition, in order of introduction
GINV = {}
GKIT = [None]
GNUM = [False]


def ghosts(k, num=False):
    """use ghost names in this contract; num: also for the numerators of divisions, with common factors taken out"""
    GNUM[0] = num
    GKIT[0] = k if k.mode == "sym" else None


def _positive(e, ctx):
    if e.op == "c":
        return e.args[0] > 0
    if e.op in ("add", "mul"):
        return all(_positive(a, ctx) for a in e.args)
    if e.op == "pow":
        return _positive(e.args[0], ctx)
    if e.op == "v" and e in GHOST:
        return True
    if e.op in ("el", "v"):
        nm = e.args[0]
        f = GKIT[0].domains.get(nm)
        return f is not None and any(x is X.lt(ZERO, e) for x in f(e))
    return False


def _flat(e, lim=4000):
    """polynomial {monomial: coefficient}; ghost names in a numerator are read by their definition"""
    if e.op == "c":
        return {(): e.args[0]} if e.args[0] else {}
    if e.op == "add":
        r = {}
        for a in e.args:
            for m, c in _flat(a, lim).items():
                r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}
    if e.op == "mul":
        r = {(): Fraction(1)}
        for a in e.args:
            r = _pmul(r, _flat(a, lim), lim)
        return r
    if e.op == "pow" and is_c(e.args[1]):
        b, q = e.args[0], e.args[1].args[0]
        if q.denominator == 1 and 1 < q <= 4 and (b.op == "add" or b in GHOST):
            f, r = _flat(b, lim), {(): Fraction(1)}
            for _ in range(int(q)):
                r = _pmul(r, f, lim)
            return r
        return {((b, q),): Fraction(1)}
    if e in GHOST:
        return _flat(GHOST[e], lim)
    return {((e, Fraction(1)),): Fraction(1)}


def _pmul(a, b, lim):
    if len(a) * len(b) > lim:
        raise OverflowError
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = dict(m)
            for k_, p_ in n:
                x[k_] = x.get(k_, 0) + p_
            x = tuple(sorted(((k_, p_) for k_, p_ in x.items() if p_), key=lambda t: t[0].uid))
            r[x] = r.get(x, 0) + c * d
    return {m: c for m, c in r.items() if c}


def _mono(m):
    return X.mul(ONE, *[X.power(b, const(q)) for b, q in m])


def gname(e, num=False):
    """e, with its primitive part replaced by a ghost name when that is a positive sum"""
    if GKIT[0] is None or (num and not GNUM[0]):
        return e
    if not GNUM[0]:
        if e.op != "add" or not _positive(e, None):
            return e
        return _gvar(e)
    if e.op not in ("add", "mul"):
        return e
    try:
        f = _flat(e)
    except OverflowError:
        return e
    if len(f) < 2:
        return e
    com = None
    for m in f:
        d = dict(m)
        com = d if com is None else {b: min(q, d[b]) for b, q in com.items() if b in d}
    prim = X.add(*[X.mul(const(c), _mono(tuple((b, q - com.get(b, 0)) for b, q in m if q != com.get(b, 0)))) for m, c in f.items()])
    if prim.op != "add" or not _positive(prim, None):
        return e
    return X.mul(_mono(tuple(com.items())), _gvar(prim))


def _gvar(e):
    v = GINV.get(e)
    if v is None:
        nm = f"ghost{len(GHOST)}"
        v = X.var(nm, "R")
        GHOST[v] = e
        GINV[e] = v
    GKIT[0].domains[v.args[0]] = lambda x: [X.lt(ZERO, x)]
    return v


def rbin(op, a, b):
    if (isinstance(a, Nan) or isinstance(b, Nan)) and op in "+-*/":
        return Nan()
    a, b = toR(a), toR(b)
    if isinstance(a, Inf) or isinstance(b, Inf):
        return infbin(op, a, b)
    if op == "+":
        return Real(X.add(a.e, b.e))
    if op == "-":
        return Real(X.sub(a.e, b.e))
    if op == "*":
        return Real(X.mul(a.e, b.e))
    if op == "/":
        if b.e is ZERO:
            if a.e is ZERO:
                return Nan()
            raise CxxError("division by zero")
        return Real(X.div(gname(a.e, True), gname(b.e)))
    if op in ("<", "<=", ">", ">=", "==", "!="):
        f = {"<": lambda x, y: X.lt(x, y), "<=": lambda x, y: X.le(x, y), ">": lambda x, y: X.lt(y, x), ">=": lambda x, y: X.le(y, x), "==": X.eq, "!=": lambda x, y: X.not_(X.eq(x, y))}[op]
        return mkbool(f(a.e, b.e))
    raise Unsupported("C++ operator " + op)


def infbin(op, a, b):
    sa = a.s if isinstance(a, Inf) else 0
    sb = b.s if isinstance(b, Inf) else 0
    if op == "+":
        if sa * sb < 0:
            raise Unsupported("inf - inf")
        return Inf(sa or sb)
    if op == "-":
        return infbin("+", a, Inf(-sb) if sb else b)
    if op in ("<", "<=", ">", ">=", "==", "!="):
        import operator as o

        return {"<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge, "==": o.eq, "!=": o.ne}[op](sa, sb)
    raise Unsupported("C++: infinity in " + op)


def mkbool(e):
    if e is X.TRUE:
        return True
    if e is X.FALSE:
        return False
    return Bo(e)


def truth(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if isinstance(v, Bo):
        if Path.cur is None:
            raise Unsupported("branch outside a path")
        return Path.cur.decide(v.e)
    if isinstance(v, Real):
        return Path.cur.decide(X.not_(X.eq(v.e, ZERO)))
    raise Unsupported("C++: condition")


def binop(op, a, b):
    if a is UND or b is UND:
        raise CxxError("read of an uninitialised value")
    if isinstance(a, Mat) or isinstance(b, Mat):
        return matop(op, a, b)
    if isinstance(a, (str, list, tuple)) or isinstance(b, (str, list, tuple)):
        raise Unsupported("C++ operator on a non-number")
    if op in ("&", "|", "^") and (isinstance(a, (bool, Bo)) or isinstance(b, (bool, Bo))):
        if op == "^":
            return truth(a) != truth(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if op == "&" else (a or b)
        return (truth(a) and truth(b)) if op == "&" else (truth(a) or truth(b))
    if isint(a) and isint(b):
        u = isinstance(a, U64) or isinstance(b, U64)
        x, y = int(a), int(b)
        if u:
            x, y = x % M64, y % M64
        if op in ("<", "<=", ">", ">=", "==", "!="):
            import operator as o

            return {"<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge, "==": o.eq, "!=": o.ne}[op](x, y)
        if op in ("/", "%"):
            if y == 0:
                raise CxxError("integer division by zero")
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            r = q if op == "/" else x - q * y
        else:
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
        return U64(r % M64) if u else r
    return rbin(op, a, b)


def signed(v):
    """an index: wrapped unsigned values stay huge, hence out of bounds"""
    if not isint(v):
        if isinstance(v, Real) and is_c(v.e) and v.e.args[0].denominator == 1:
            return int(v.e.args[0])
        raise Unsupported("C++: symbolic index")
    return int(v)


class Arr:
    """n-dimensional buffer; elements Real/int, UND when uninitialised"""

    def __init__(self, shape, data=None, kind="double", name="", ro=False):
        self.shape, self.kind, self.name, self.ro = tuple(int(s) for s in shape), kind, name, ro
        n = 1
        for s in self.shape:
            if s < 0 or s > 10**6:
                raise CxxError(f"array of size {s}")
            n *= s
        self.data = data if data is not None else [UND] * n

    def off(self, idx):
        if len(idx) != len(self.shape):
            raise CxxError(f"{self.name or 'array'} with {len(self.shape)} dimensions accessed with {len(idx)} indices")
        o = 0
        for i, s in zip(idx, self.shape):
            i = signed(i)
            if not 0 <= i < s:
                raise CxxError(f"index {[signed(q) if signed(q) < M64 // 2 else signed(q) - M64 for q in idx]} outside {self.name or 'array'} of shape {self.shape}")
            o = o * s + i
        return o

    def get(self, idx):
        v = self.data[self.off(idx)]
        if v is UND:
            raise CxxError(f"uninitialised element {[signed(q) for q in idx]} of {self.name or 'array'}")
        return v

    def set(self, idx, v):
        if self.ro:
            raise CxxError(f"{self.name}: write to an input array")
        self.data[self.off(idx)] = conv(v, self.kind)

    def fill(self, v):
        self.data[:] = [conv(v, self.kind)] * len(self.data)

    def out(self):
        def go(p, o):
            if p == len(self.shape):
                v = self.data[o]
                if v is UND:
                    raise CxxError(f"uninitialised element returned in {self.name}")
                if isinstance(v, Nan):
                    raise CxxError(f"result of 0/0 returned in {self.name}")
                if isinstance(v, Inf):
                    return float("-inf") if v.s < 0 else float("inf")
                return T((), lambda e=v.e: e) if isinstance(v, Real) else int(v)
            s = 1
            for q in self.shape[p + 1 :]:
                s *= q
            return [go(p + 1, o + i * s) for i in range(self.shape[p])]

        vals = go(0, 0)
        flat = self.data
        if any(isinstance(v, Inf) for v in flat) or not len(flat):
            return RawOut(self.shape, vals)
        return nested(vals)


class RawOut:
    """an output that holds infinities: indexable, not a tensor"""

    def __init__(self, shape, vals):
        self.shape, self.vals = shape, vals

    def __getitem__(self, i):
        v = self.vals
        for q in i if isinstance(i, tuple) else (i,):
            v = v[q]
        return v


def nested(v):
    from .shim import np as snp

    return snp.array(v)


def conv(v, kind):
    if kind == "double":
        if isinstance(v, Mat):
            v = v.scalar()
        if isinstance(v, Nan):
            return v
        return toR(v)
    if kind in ("int", "size_t", "bool"):
        if isinstance(v, Real):
            if is_c(v.e):
                f = v.e.args[0]
                v = int(f)  # truncation
            else:
                raise Unsupported("C++: symbolic value converted to an integer")
        if kind == "bool":
            return truth(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Bo):
            v = int(truth(v))
        if not isint(v):
            if v is UND:
                raise CxxError("read of an uninitialised value")
            raise Unsupported(f"C++: {type(v).__name__} converted to {kind}")
        return U64(int(v) % M64) if kind == "size_t" else int(v)
    return v


# ---------------------------------------------------------------- dense Eigen subset
class Mat:
    """matrix or array expression: rows of Real; vectors are n x 1 (1 x n after transpose)"""

    def __init__(self, rows, arr=False, lv=None, ints=False):
        self.rows, self.arr, self.lv = rows, arr, lv

    @property
    def r(self):
        return len(self.rows)

    @property
    def c(self):
        return len(self.rows[0]) if self.rows else 0

    def scalar(self):
        if self.r == 1 and self.c == 1:
            return self.rows[0][0]
        raise Unsupported("C++: matrix used as a number")

    def copy(self):
        return Mat([list(x) for x in self.rows], self.arr)


def matmap(f, *ms):
    r, c = ms[0].r, ms[0].c
    for m in ms:
        if (m.r, m.c) != (r, c):
            raise CxxError(f"Eigen: sizes {(r, c)} and {(m.r, m.c)} do not match")
    return [[f(*[m.rows[i][j] for m in ms]) for j in range(c)] for i in range(r)]


def matop(op, a, b):
    if not isinstance(a, Mat) or not isinstance(b, Mat):
        m, s, left = (b, a, True) if isinstance(b, Mat) else (a, b, False)
        if op not in ("*", "/", "+", "-"):
            raise Unsupported("Eigen operator " + op)
        if op in ("+", "-") and not m.arr:
            raise Unsupported("Eigen: matrix plus scalar")
        if op == "/" and left and not m.arr:
            raise Unsupported("Eigen: scalar / matrix")
        return Mat([[rbin(op, s, v) if left else rbin(op, v, s) for v in row] for row in m.rows], m.arr)
    if op in ("+", "-"):
        return Mat(matmap(lambda x, y: rbin(op, x, y), a, b), a.arr)
    if op == "/":
        if not a.arr:
            raise Unsupported("Eigen: matrix / matrix")
        return Mat(matmap(lambda x, y: rbin(op, x, y), a, b), True)
    if op == "*":
        if a.arr != b.arr:
            raise Unsupported("Eigen: array times matrix")
        if a.arr:
            return Mat(matmap(lambda x, y: rbin("*", x, y), a, b), True)
        if a.c != b.r:
            raise CxxError(f"Eigen: product of {(a.r, a.c)} and {(b.r, b.c)}")
        out = []
        for i in range(a.r):
            row = []
            for j in range(b.c):
                s = Real(ZERO)
                for q in range(a.c):
                    s = rbin("+", s, rbin("*", a.rows[i][q], b.rows[q][j]))
                row.append(s)
            out.append(row)
        return Mat(out)
    raise Unsupported("Eigen operator " + op)


# ---------------------------------------------------------------- interpreter
class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Cell:
    __slots__ = ("v", "kind")

    def __init__(self, v, kind=None):
        self.v, self.kind = v, kind


class Clos:
    def __init__(self, params, body, env):
        self.params, self.body, self.env = params, body, env


class Ref:
    """an assignable place"""

    __slots__ = ("get", "set")

    def __init__(self, get, set_):
        self.get, self.set = get, set_


class Dist:
    def __init__(self, w):
        self.w = w


class Seq:
    def __init__(self, idx):
        self.idx = idx


ALL = object()
ELL = object()
MATHF = {"log", "exp", "sqrt", "pow", "fabs", "abs", "max", "min", "fmax", "fmin", "isnan", "isinf", "isfinite", "log1p", "expm1"}
FUEL = 4_000_000


class Module:
    """callable symbolic version of an extension module"""

    def __init__(self, paths):
        self.fns, self.binds, self.td = {}, {}, {}
        for p in paths:
            f, b = Parser(lex(open(p).read()), self.td).file()
            for n, raw in f.items():
                self.fns[n] = Func(n, raw, self.td)
            self.binds.update(b)
        self.choices = None

    def __getattr__(self, name):
        if name.startswith("__") or name not in self.binds:
            raise AttributeError(name)
        fnc = self.fns[self.binds[name]]
        return lambda *a: Interp(self).call_top(fnc, a)


class Interp:
    def __init__(self, mod):
        self.m = mod
        self.fuel = FUEL
        self.dists = []

    # -------- entry
    def call_top(self, f, args):
        rt, params, body = f.parsed()
        if len(args) > len(params):
            raise CxxError(f"{f.name}: called with {len(args)} arguments, takes {len(params)}")
        env = [{}]
        writeback = []
        for k, (t, n, d) in enumerate(params):
            if k >= len(args):
                if d is None:
                    raise CxxError(f"{f.name}: argument {n} missing")
                env[0][n] = Cell(self.ev(d, env), t.base)
                continue
            env[0][n] = self.param(t, n, args[k], writeback)
        v = self.run(body, env)
        for fw in writeback:
            fw()
        return self.out(v)

    def param(self, t, n, a, wb):
        if t.base in ("double", "int", "size_t", "bool"):
            return Cell(conv(self.inp(a), t.base), t.base)
        if t.base == "array_t":
            kind = "double" if "double" in t.targs or "float" in t.targs else "int"
            if kind == "int" and "size_t" in t.targs:
                kind = "size_t"
            return Cell(self.inarr(a, kind, n), None)
        if t.base == "list":
            return Cell([self.inarr(x, None, f"{n}[{i}]") for i, x in enumerate(a)], None)
        if t.base in ("Ref", "Map", "VectorXd", "MatrixXd", "Vector", "Matrix", "VectorXi"):
            x = self.inarr(a, "int" if ("int" in t.targs or "VectorXi64" in t.targs) else "double", n)
            return Cell(self.tomat(x), None)
        raise Unsupported(f"C++ parameter type {t.name}")

    @staticmethod
    def inp(a):
        if hasattr(a, "dtype") and not isinstance(a, T) and getattr(a, "ndim", 1) == 0:
            return a.item()
        return a

    def inarr(self, a, kind, name):
        if isinstance(a, T):
            shp = []
            for s in a.shape_:
                v = X.int_value(s)
                if v is None:
                    raise Unsupported("C++: symbolic array size")
                shp.append(v)
            data = []
            for idx in itertools.product(*[range(s) for s in shp]):
                e = a.fn(*[const(i) for i in idx])
                if kind in ("int", "size_t"):
                    if not is_c(e):
                        raise Unsupported("C++: symbolic integer array")
                    data.append(conv(Real(e), kind))
                else:
                    data.append(Real(e))
            return Arr(shp, data, kind or "double", name, ro=True)
        import numpy as rnp

        a = rnp.asarray(a)
        if kind is None:
            kind = "int" if a.dtype.kind in "iub" else "double"
        data = []
        for v in a.flatten():
            if isinstance(v, T):
                data.append(Real(v.scalarE()))
            elif kind == "double":
                data.append(toR(v.item() if hasattr(v, "item") else v))
            else:
                x = v.item() if hasattr(v, "item") else v
                data.append(conv(x if isinstance(x, int) else Real(const(Fraction(x))), kind))
        return Arr(a.shape, data, kind, name, ro=True)

    @staticmethod
    def tomat(x):
        if len(x.shape) == 1:
            return Mat([[v] for v in x.data])
        if len(x.shape) == 2:
            r, c = x.shape
            return Mat([x.data[i * c : (i + 1) * c] for i in range(r)])
        raise Unsupported("Eigen: array dimensions")

    def out(self, v):
        if isinstance(v, tuple):
            return tuple(self.out(q) for q in v)
        if isinstance(v, Arr):
            return v.out()
        if isinstance(v, Real):
            return T((), lambda e=v.e: e)
        if isinstance(v, Inf):
            return float("-inf") if v.s < 0 else float("inf")
        if isinstance(v, Mat):
            rows = [[T((), lambda e=toR(q).e: e) for q in row] for row in v.rows]
            return nested(rows) if v.c != 1 else nested([r_[0] for r_ in rows])
        if isinstance(v, bool) or v is None:
            return v
        if isint(v):
            return int(v)
        if isinstance(v, list):
            return [self.out(q) for q in v]
        raise Unsupported(f"C++ return value {type(v).__name__}")

    def run(self, body, env):
        try:
            self.st(body, env)
        except Ret as r:
            return r.v
        return None

    # -------- statements
    def st(self, s, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("C++: too many steps")
        k = s[0]
        if k == "block":
            e2 = env + [{}]
            for q in s[1]:
                self.st(q, e2)
        elif k == "expr":
            self.ev(s[1], env)
        elif k == "if":
            if truth(self.ev(s[1], env)):
                self.st(s[2], env + [{}])
            elif s[3] is not None:
                self.st(s[3], env + [{}])
        elif k == "for":
            e2 = env + [{}]
            self.st(s[1], e2)
            while truth(self.ev(s[2], e2)):
                try:
                    self.st(s[4], e2)
                except Brk:
                    break
                except Cont:
                    pass
                if s[3] is not None:
                    self.ev(s[3], e2)
        elif k == "while" or k == "do":
            first = k == "do"
            while first or truth(self.ev(s[1], env)):
                first = False
                self.fuel -= 1
                if self.fuel < 0:
                    raise Unsupported("C++: too many steps")
                try:
                    self.st(s[2], env)
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "foreach":
            seq = self.ev(s[3], env)
            items = seq if isinstance(seq, list) else None
            if items is None:
                raise Unsupported("C++: range-based for")
            for q in range(len(items)):
                e2 = env + [{}]
                if s[1].ref:
                    e2[-1][s[2]] = Ref(lambda q=q: items[q], lambda v, q=q: items.__setitem__(q, v))
                else:
                    e2[-1][s[2]] = Cell(items[q])
                try:
                    self.st(s[4], e2)
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "return":
            raise Ret(None if s[1] is None else self.val(self.ev(s[1], env)))
        elif k == "continue":
            raise Cont()
        elif k == "break":
            raise Brk()
        elif k == "decl":
            for n, kind, init, dims in s[2]:
                env[-1][n] = self.declare(s[1], n, kind, init, dims, env)
        elif k == "bind":
            v = self.ev(s[2], env)
            if not isinstance(v, tuple) or len(v) != len(s[1]):
                raise Unsupported("C++: structured binding")
            for n, q in zip(s[1], v):
                env[-1][n] = Cell(q)
        elif k == "switch":
            v = self.ev(s[1], env)
            on = False
            e2 = env + [{}]
            start = None
            for i, it in enumerate(s[2]):
                if it[0] == "case" and truth(binop("==", v, self.ev(it[1], env))):
                    start = i
                    break
            if start is None:
                start = next((i for i, it in enumerate(s[2]) if it[0] == "default"), None)
            if start is not None:
                try:
                    for it in s[2][start:]:
                        if it[0] == "stmt":
                            self.st(it[1], e2)
                except Brk:
                    pass
        else:
            raise Unsupported("C++ statement " + k)

    def declare(self, t, n, kind, init, dims, env):
        b = t.base
        if dims is not None:
            shp = [signed(self.ev(d, env)) for d in dims]
            a = Arr(shp, None, b if b in ("int", "size_t", "double", "bool") else "double", n)
            if kind:
                vals = [self.ev(x, env) for x in (init[0][1] if init and init[0][0] == "init" else init)]
                for q in range(len(a.data)):
                    a.data[q] = conv(vals[q] if q < len(vals) else 0, a.kind)
            return Cell(a)
        if t.ref and kind == "=":
            return self.place(init[0], env)
        if t.ptr and kind == "=":  # a pointer into an array stands for the array
            return Cell(self.val(self.ev(init[0], env)))
        if b in ("double", "int", "size_t", "bool"):
            if kind is None:
                return Cell(UND, b)
            if not init:
                return Cell(conv(0, b), b)
            e = init[0]
            if e[0] == "init":
                e = e[1][0] if e[1] else ("num", "0")
            return Cell(conv(self.val(self.ev(e, env)), b), b)
        if b == "auto":
            v = self.val(self.ev(init[0], env))
            v = v if not isinstance(v, Mat) else v
            return Cell(v, "double" if isinstance(v, Real) else ("size_t" if isinstance(v, U64) else ("bool" if isinstance(v, (bool, Bo)) else ("int" if isint(v) else None))))
        if kind == "=":
            v = self.val(self.ev(init[0], env))
            if b in ("VectorXd", "MatrixXd", "Vector", "Matrix", "VectorXi64", "VectorXi", "ArrayXd"):
                if isinstance(v, Mat):
                    v = v.copy()
                    v.arr = b.startswith("Array")
            elif isinstance(v, list):
                v = deep(v)
            return Cell(v)
        args = [self.val(self.ev(a, env)) for a in (init or [])]
        return Cell(self.construct(t.name, t.targs, args, n))

    def construct(self, name, targs, args, label=""):
        b = name.split("::")[-1]
        if b == "array_t" or name in ("py::array",):
            kd = "double" if not targs or "double" in targs else ("size_t" if "size_t" in targs else "int")
            if not args:
                return Arr((0,), [], kd, label)
            if len(args) == 1 and isinstance(args[0], Arr):
                return args[0]
            shp = args[0] if isinstance(args[0], (list, tuple)) else [args[0]]
            return Arr([signed(s) for s in shp], None, kd, label)
        if b == "vector":
            inner = "".join(targs)
            kd = "double" if inner in ("double", "float") else ("size_t" if inner in ("size_t", "std::size_t") else ("int" if inner in INTS or inner in ("longlong", "longlongint") else ("bool" if inner == "bool" else None)))
            if not args:
                return VecL([], kd)
            if len(args) == 1 and isinstance(args[0], list):
                return VecL(deep(list(args[0])), kd)
            if len(args) == 2 and isinstance(args[0], It) and isinstance(args[1], It):
                return VecL(deep(args[0].seq[args[0].i : args[1].i]), kd)
            n = signed(args[0])
            if n > 10**6:
                raise CxxError(f"vector of size {n}")
            if len(args) == 2:
                return VecL([deep(conv(args[1], kd) if kd else args[1]) for _ in range(n)], kd)
            if kd is None:
                return VecL([VecL([], None) for _ in range(n)], None)
            return VecL([conv(0, kd) for _ in range(n)], kd)
        if b == "discrete_distribution":
            if len(args) == 2 and isinstance(args[0], It):
                return Dist(list(args[0].seq[args[0].i : args[1].i]))
            if len(args) == 1 and isinstance(args[0], list):
                return Dist(list(args[0]))
            raise Unsupported("discrete_distribution")
        if b in ("random_device", "mt19937", "mt19937_64", "default_random_engine"):
            return Gen()
        if b in ("VectorXd", "MatrixXd", "Vector", "Matrix", "ArrayXd", "VectorXi", "VectorXi64"):
            if not args:
                return Mat([])
            if len(args) == 1 and isinstance(args[0], Mat):
                return args[0].copy()
            sz = [signed(a) for a in args]
            return Mat([[UND] * (sz[1] if len(sz) > 1 else 1) for _ in range(sz[0])])
        if b == "Map":
            p = args[0]
            if not isinstance(p, Arr):
                raise Unsupported("Eigen::Map")
            sz = [signed(a) for a in args[1:]]
            r, c = sz[0], sz[1] if len(sz) > 1 else 1
            if r * c > len(p.data):
                raise CxxError(f"Eigen::Map of {r}x{c} over {len(p.data)} elements")
            if len(p.shape) == 2:  # buffers are required to be column major
                full = [p.data[i * p.shape[1] + j] for j in range(p.shape[1]) for i in range(p.shape[0])]
            else:
                full = list(p.data)
            return Mat([[full[j * r + i] for j in range(c)] for i in range(r)])
        if b in ("tuple", "make_tuple", "pair", "make_pair"):
            return tuple(args)
        raise Unsupported(f"C++ type {name}")

    # -------- names
    def look(self, n, env):
        for sc in reversed(env):
            if n in sc:
                return sc[n]
        return None

    def val(self, v):
        return v

    def place(self, e, env):
        """lvalue"""
        k = e[0]
        if k == "name":
            c = self.look(e[1], env)
            if c is None:
                raise Unsupported(f"C++ name {e[1]}")
            return c
        if k == "call":
            o = self.ev(e[1], env)
            idx = [self.ev(a, env) for a in e[2]]
            if isinstance(o, Arr):
                return Ref(lambda: o.get(idx), lambda v: o.set(idx, v))
            if isinstance(o, Mat):
                return self.matplace(o, idx)
            raise Unsupported("C++: assignment to a call")
        if k == "index":
            o = self.ev(e[1], env)
            idx = [self.ev(a, env) for a in e[2]]
            if isinstance(o, Arr):
                if len(idx) == 1 and isinstance(idx[0], tuple) and idx[0] == (ELL,):
                    return Ref(lambda: o, lambda v: o.fill(v))
                return Ref(lambda: o.get(idx), lambda v: o.set(idx, v))
            if isinstance(o, list):
                i = signed(idx[0])
                if not 0 <= i < len(o):
                    raise CxxError(f"index {i if i < M64 // 2 else i - M64} outside a vector of length {len(o)}")
                kd = getattr(o, "kd", None)
                return Ref(lambda: o[i], lambda v: o.__setitem__(i, conv(v, kd) if kd else v))
            if isinstance(o, Mat):
                return self.matplace(o, idx)
            raise Unsupported("C++: []")
        if k == "deref":
            return self.place(e[1], env)
        if k == "tern":
            return self.place(e[2] if truth(self.ev(e[1], env)) else e[3], env)
        if k == "assign" or k == "pre":
            self.ev(e, env)
            return self.place(e[2], env)
        if k == "member" or k == "call":
            pass
        v = self.ev(e, env)
        return Cell(v)

    def matplace(self, o, idx):
        def one(ix, n):
            if isinstance(ix, Seq):
                return ix.idx, True
            if ix is ALL:
                return list(range(n)), True
            if isinstance(ix, Mat):
                return [signed(q) if isint(q) else signed(Real(toR(q).e)) for row in ix.rows for q in row], True
            return [signed(ix)], False

        def bounds(l, n):
            for i in l:
                if not 0 <= i < n:
                    raise CxxError(f"Eigen index {i if i < M64 // 2 else i - M64} outside size {n}")

        if len(idx) == 1:
            if o.c == 1:
                l, m = one(idx[0], o.r)
                bounds(l, o.r)
                cells = [[(i, 0)] for i in l]
            elif o.r == 1:
                l, m = one(idx[0], o.c)
                bounds(l, o.c)
                cells = [[(0, i) for i in l]]
            else:
                raise Unsupported("Eigen: one index into a matrix")
        else:
            l, m1 = one(idx[0], o.r)
            l2, m2 = one(idx[1], o.c)
            bounds(l, o.r)
            bounds(l2, o.c)
            m = m1 or m2
            cells = [[(i, j) for j in l2] for i in l]

        def get():
            if m:
                return Mat([[o.rows[i][j] for i, j in row] for row in cells], o.arr, lv=None)
            i, j = cells[0][0]
            v = o.rows[i][j]
            if v is UND:
                raise CxxError("uninitialised matrix element")
            return v

        def set_(v):
            if not m:
                i, j = cells[0][0]
                o.rows[i][j] = toR(v)
                return
            if not isinstance(v, Mat):
                raise Unsupported("Eigen: scalar assigned to a block")
            if v.r != len(cells) or v.c != (len(cells[0]) if cells else 0):
                raise CxxError("Eigen: block sizes differ")
            for row, vr in zip(cells, v.rows):
                for (i, j), x in zip(row, vr):
                    o.rows[i][j] = x

        return Ref(get, set_)

    def read(self, c):
        return c.v if isinstance(c, Cell) else c.get()

    def write(self, c, v):
        if isinstance(c, Cell):
            if c.kind in ("double", "int", "size_t", "bool"):
                v = conv(v, c.kind)
            elif isinstance(v, Mat):
                arr = c.v.arr if isinstance(c.v, Mat) else False
                v = v.copy()
                v.arr = arr
                if isinstance(c.v, Mat):  # keep identity: other references see the assignment
                    c.v.rows = v.rows
                    return c.v
            elif isinstance(v, list):
                v = deep(v)
                if isinstance(c.v, list):
                    c.v[:] = v
                    return c.v
            c.v = v
            return v
        c.set(v)
        return v

    # -------- expressions
    def ev(self, e, env):
        k = e[0]
        if k == "num":
            s = e[1]
            if re.fullmatch(r"0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*", s):
                v = int(s.rstrip("uUlL"), 0)
                return U64(v) if "u" in s.lower() and not s.lower().startswith("0x") else v
            return Real(const(Fraction(s.rstrip("fFlL"))))
        if k == "bool":
            return e[1]
        if k == "str":
            return e[1]
        if k == "name":
            c = self.look(e[1], env)
            if c is not None:
                v = self.read(c)
                if v is UND:
                    raise CxxError(f"variable {e[1]} read before it is set")
                return v
            return self.glob(e[1], e[2])
        if k == "init":
            return [self.val(self.ev(a, env)) for a in e[1]]
        if k == "comma":
            self.ev(e[1], env)
            return self.ev(e[2], env)
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                a = self.ev(e[2], env)
                t = truth(a)
                if op == "&&" and not t:
                    return False
                if op == "||" and t:
                    return True
                return truth(self.ev(e[3], env))
            return binop(op, self.ev(e[2], env), self.ev(e[3], env))
        if k == "un":
            v = self.ev(e[2], env)
            if e[1] == "!":
                return not truth(v)
            if isinstance(v, Mat):
                return matop("*", -1, v) if e[1] == "-" else v
            if e[1] == "-":
                if isinstance(v, Inf):
                    return Inf(-v.s)
                return binop("-", 0, v) if not isinstance(v, Real) else Real(X.neg(v.e))
            if e[1] == "+":
                return v
            raise Unsupported("C++ unary " + e[1])
        if k in ("pre", "post"):
            c = self.place(e[2], env)
            old = self.read(c)
            if old is UND:
                raise CxxError("read of an uninitialised value")
            new = binop("+" if e[1] == "++" else "-", old, 1)
            new = self.write(c, new)
            return new if k == "pre" else old
        if k == "assign":
            c = self.place(e[2], env)
            r = self.ev(e[3], env)
            if e[1] != "=":
                old = self.read(c)
                if old is UND:
                    raise CxxError("read of an uninitialised value")
                r = binop(e[1][:-1], old, r)
            return self.write(c, r)
        if k == "tern":
            c = self.ev(e[1], env)
            return self.ev(e[2] if truth(c) else e[3], env)
        if k == "cast":
            return conv(self.ev(e[2], env), e[1].name) if e[1].name in ("double", "int", "size_t", "bool") else self.ev(e[2], env)
        if k == "lambda":
            return Clos(e[1], e[2], env)
        if k == "addr":
            return self.ev(e[1], env)
        if k == "deref":
            v = self.ev(e[1], env)
            if isinstance(v, It):
                if not 0 <= v.i < len(v.seq):
                    raise CxxError("iterator outside its vector")
                return v.seq[v.i]
            return v
        if k == "index":
            return self.read(self.place(e, env))
        if k == "member":
            return self.member(self.ev(e[1], env), e[2], None, env)
        if k == "call":
            return self.call(e, env)
        raise Unsupported("C++ expression " + k)

    def glob(self, n, targs=None):
        b = n.split("::")[-1]
        if n in ("INFINITY", "HUGE_VAL"):
            return Inf(1)
        if b in ("all", "placeholders") and n.startswith("Eigen"):
            return ALL
        if n == "NAN":
            raise Unsupported("NAN")
        if n == "M_PI":
            from .shim import PI

            return toR(PI)
        if n in self.m.fns:
            return self.m.fns[n]
        raise Unsupported(f"C++ name {n}")

    def call(self, e, env):
        f = e[1]
        if f[0] == "member":
            o = self.ev(f[1], env)
            return self.member(o, f[2], e[2], env)
        if f[0] == "name":
            c = self.look(f[1], env)
            if c is not None:
                v = self.read(c)
                if isinstance(v, (Arr, Mat)):
                    return self.read(self.place(e, env))
                if isinstance(v, Clos):
                    return self.invoke(v.params, v.body, e[2], env, v.env)
                if isinstance(v, Dist):
                    return self.sample(v)
                if isinstance(v, Gen):
                    return U64(0)  # an arbitrary seed: only draws of distributions are given a meaning
                if isinstance(v, Func):
                    rt, ps, body = v.parsed()
                    return self.invoke(ps, body, e[2], env, [], rt)
                raise Unsupported(f"C++ call of {f[1]}")
            return self.callname(f[1], f[2], e[2], env)
        v = self.ev(f, env)
        if isinstance(v, Clos):
            return self.invoke(v.params, v.body, e[2], env, v.env)
        if isinstance(v, Mat):
            return self.matplace(v, [self.ev(a, env) for a in e[2]]).get()
        raise Unsupported("C++ call")

    def sample(self, d):
        """an arbitrary outcome; its weights are recorded by the module"""
        ch = self.m.choices
        if ch is None:
            raise Unsupported("random draw")
        return ch(d.w)

    def invoke(self, params, body, args, env, cenv, rt=None):
        sc = {}
        for k, (t, n, d) in enumerate(params):
            if k >= len(args):
                if d is None:
                    raise CxxError("argument missing")
                sc[n] = Cell(self.ev(d, env), t.base)
            elif t.ref:
                sc[n] = self.place(args[k], env)
            else:
                v = self.ev(args[k], env)
                kd = t.base if t.base in ("double", "int", "size_t", "bool") else None
                if isinstance(v, Mat):
                    v = v.copy()
                elif isinstance(v, list):
                    v = deep(v)
                sc[n] = Cell(conv(v, kd) if kd else v, kd)
        r = self.run(body, list(cenv) + [sc])
        if rt is not None and rt.base in ("double", "int", "size_t", "bool") and r is not None:
            r = conv(r, rt.base)
        return r

    def callname(self, n, targs, args, env):
        b = n.split("::")[-1]
        if n in self.m.fns:
            rt, ps, body = self.m.fns[n].parsed()
            return self.invoke(ps, body, args, env, [], rt)
        if b in ("static_cast", "reinterpret_cast", "const_cast", "dynamic_cast", "cast"):
            v = self.ev(args[0], env)
            ty = Parser([("id" if re.match(r"[A-Za-z_]", x) else "op", x) for x in targs], self.m.td).parse_type() if targs else None
            if ty is not None and not ty.ptr and ty.name in ("double", "int", "size_t", "bool"):
                return conv(v, ty.name)
            return v
        vs = [self.val(self.ev(a, env)) for a in args]
        if n.startswith("std::") or n in MATHF:
            if b in ("log", "exp", "sqrt", "log1p", "expm1"):
                x = toR(vs[0])
                if isinstance(x, Inf):
                    if b == "exp":
                        if x.s < 0:
                            return Real(ZERO)
                    raise Unsupported(b + " of infinity")
                if b == "log" and x.e is ZERO:
                    return Inf(-1)
                if b == "log":
                    return Real(fn("log", gname(x.e)))
                if b == "exp":
                    return Real(fn("exp", x.e))
                if b == "log1p":
                    return Real(fn("log", X.add(ONE, x.e)))
                if b == "expm1":
                    return Real(X.sub(fn("exp", x.e), ONE))
                return Real(X.power(x.e, const(Fraction(1, 2))))
            if b == "pow":
                x, p = toR(vs[0]), toR(vs[1])
                if isinstance(x, Inf) or isinstance(p, Inf):
                    raise Unsupported("pow of infinity")
                return Real(X.power(x.e, p.e))
            if b in ("fabs", "abs"):
                if isint(vs[0]):
                    return abs(vs[0])
                x = toR(vs[0])
                return x if truth(rbin(">=", x, 0)) else Real(X.neg(x.e))
            if b in ("max", "min", "fmax", "fmin"):
                if len(vs) == 1:
                    raise Unsupported("std::max of a list")
                a, c = vs
                return (c if truth(binop("<", a, c)) else a) if b.endswith("max") else (c if truth(binop("<", c, a)) else a)
            if b in ("isnan", "isinf", "isfinite"):
                v = toR(vs[0])
                return isinstance(v, Inf) if b == "isinf" else (b == "isfinite" and not isinstance(v, Inf))
            if b == "move" or b == "forward":
                return vs[0]
            if b in ("make_tuple", "tuple", "make_pair", "pair", "tie"):
                return tuple(vs)
            if b == "accumulate" and len(vs) == 3:
                s = vs[2]
                for q in vs[0].seq[vs[0].i : vs[1].i]:
                    s = binop("+", s, q)
                return s
            if b == "fill" and len(vs) == 3:
                for q in range(vs[0].i, vs[1].i):
                    kd = getattr(vs[0].seq, "kd", None)
                    vs[0].seq[q] = conv(vs[2], kd) if kd else vs[2]
                return None
            if b == "swap":
                a, c = self.place(args[0], env), self.place(args[1], env)
                x, y = self.read(a), self.read(c)
                self.write(a, y)
                self.write(c, x)
                return None
            if b == "get":
                return vs[0][int(targs[0])]
        if n in ("py::make_tuple",):
            return tuple(vs)
        if n == "py::ellipsis":
            return ELL
        if n in ("py::print",):
            return None
        if n == "Eigen::seq":
            a, c = signed(vs[0]), signed(vs[1])
            if c >= M64 // 2:
                c -= M64
            return Seq(list(range(a, c + 1)))
        if n == "Eigen::seqN":
            a, c = signed(vs[0]), signed(vs[1])
            return Seq(list(range(a, a + c)))
        if b in ("Zero", "Ones", "Identity") and n.startswith("Eigen"):
            sz = [signed(v) for v in vs]
            r, c = sz[0], sz[1] if len(sz) > 1 else 1
            return Mat([[Real(ONE if b == "Ones" or (b == "Identity" and i == j) else ZERO) for j in range(c)] for i in range(r)])
        if n == "std::numeric_limits::infinity" or b == "infinity":
            return Inf(1)
        return self.construct(n, targs or (), vs)

    def member(self, o, name, args, env):
        if args is None:
            if name == "ptr":
                return o
            raise Unsupported("C++ member " + name)
        a = [self.val(self.ev(x, env)) for x in args]
        if isinstance(o, Arr):
            if name in ("unchecked", "mutable_unchecked", "request", "cast"):
                return o
            if name in ("shape",):
                i = signed(a[0])
                if not 0 <= i < len(o.shape):
                    raise CxxError("shape index")
                return U64(o.shape[i])
            if name == "ndim":
                return U64(len(o.shape))
            if name == "size":
                n = 1
                for s in o.shape:
                    n *= s
                return U64(n)
            if name in ("at", "mutable_at"):
                return o.get(a)
            if name in ("data", "mutable_data"):
                return o
        if isinstance(o, list):
            if name == "size":
                return U64(len(o))
            if name == "begin":
                return It(o, 0)
            if name == "end":
                return It(o, len(o))
            if name in ("push_back", "emplace_back"):
                kd = getattr(o, "kd", None)
                o.append(conv(a[0], kd) if kd else deep(a[0]))
                return None
            if name == "at":
                i = signed(a[0])
                if not 0 <= i < len(o):
                    raise CxxError("vector index")
                return o[i]
            if name == "back":
                return o[-1]
            if name == "front":
                return o[0]
            if name == "empty":
                return not o
            if name == "clear":
                o.clear()
                return None
            if name == "reserve":
                return None
            if name == "resize":
                kd = getattr(o, "kd", None)
                n = signed(a[0])
                while len(o) > n:
                    o.pop()
                while len(o) < n:
                    o.append(deep(a[1]) if len(a) > 1 else (conv(0, kd) if kd else VecL([], None)))
                return None
            if name == "assign":
                kd = getattr(o, "kd", None)
                o[:] = [conv(a[1], kd) if kd else deep(a[1]) for _ in range(signed(a[0]))]
                return None
        if isinstance(o, Gen):
            return None
        if isinstance(o, Mat):
            if name == "array":
                return Mat(o.rows, True)
            if name == "matrix":
                return Mat(o.rows, False)
            if name == "transpose":
                return Mat([[o.rows[i][j] for i in range(o.r)] for j in range(o.c)], o.arr)
            if name in ("eval", "derived", "noalias"):
                return o
            if name == "sum":
                s = Real(ZERO)
                ints = all(isint(v) for row in o.rows for v in row) and o.r > 0
                for row in o.rows:
                    for v in row:
                        if v is UND:
                            raise CxxError("uninitialised matrix element")
                        s = rbin("+", s, v)
                return s
            if name == "dot":
                s = Real(ZERO)
                for x, y in zip([v for row in o.rows for v in row], [v for row in a[0].rows for v in row]):
                    s = rbin("+", s, rbin("*", x, y))
                return s
            if name == "cols":
                return o.c if o.rows else 0
            if name in ("rows", "size"):
                return o.r if name == "rows" else o.r * o.c
            if name == "setZero":
                sz = [signed(v) for v in a]
                if sz:
                    o.rows = [[Real(ZERO)] * (sz[1] if len(sz) > 1 else 1) for _ in range(sz[0])]
                else:
                    o.rows = [[Real(ZERO)] * o.c for _ in range(o.r)]
                return o
            if name == "asDiagonal":
                v = [q for row in o.rows for q in row]
                return Mat([[v[i] if i == j else Real(ZERO) for j in range(len(v))] for i in range(len(v))])
            if name in ("col", "row"):
                i = signed(a[0])
                return self.matplace(o, [ALL, i] if name == "col" else [i, ALL]).get()
            if name in ("coeff", "coeffRef"):
                return self.matplace(o, a).get()
            if name == "cwiseProduct":
                return Mat(matmap(lambda x, y: rbin("*", x, y), o, a[0]))
            if name == "cast":
                return o
            if name in ("log", "exp", "sqrt") and o.arr:
                return Mat([[Real(fn(name, toR(v).e)) if name != "sqrt" else Real(X.power(toR(v).e, const(Fraction(1, 2)))) for v in row] for row in o.rows], True)
        raise Unsupported(f"C++ member {name} of {type(o).__name__}")


class VecL(list):
    def __init__(self, xs, kd):
        super().__init__(xs)
        self.kd = kd


class It:
    def __init__(self, seq, i):
        self.seq, self.i = seq, i


class Gen:
    pass


def deep(v):
    if isinstance(v, VecL):
        return VecL([deep(x) for x in v], v.kd)
    if isinstance(v, list):
        return [deep(x) for x in v]
    return v


_cache = {}


def module(ext):
    """the extension parsed from /repo's current sources"""
    from . import real

    ps = real.sources(ext)
    key = (ext, tuple((p, os.stat(p).st_mtime_ns) for p in ps))
    if key not in _cache:
        try:
            _cache[key] = Module(ps)
        except Unsupported:
            raise
        except (IndexError, KeyError, ValueError, RecursionError) as ex:
            raise Unsupported(f"C++ parser: {type(ex).__name__}: {ex}")
    return _cache[key]


def ext(k, name):
    """symbolic module in a proof, the freshly compiled one on concrete values"""
    if k.mode == "sym":
        return module(name)
    import sys

    return sys.modules[name]
