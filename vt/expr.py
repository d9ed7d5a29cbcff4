"""Hash-consed first-order terms over the reals/integers/booleans.

Terms are what the symbolic run of the real code produces and what the specifications are
written in.  Array elements are applications ``el(name, i, j, ..)`` of uninterpreted functions,
so a term may mention an arbitrary (symbolic) index; ``sum(i, n, body)`` binds an index.
"""
from __future__ import annotations
from fractions import Fraction
import itertools

_TABLE: dict = {}
_CNT = itertools.count()


class E:
    __slots__ = ("op", "args", "uid", "_fv", "_nf")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other


def mk(op, *args):
    key = (op,) + tuple(a.uid if isinstance(a, E) else (type(a).__name__, a) for a in args)
    e = _TABLE.get(key)
    if e is None:
        e = E.__new__(E)
        e.op, e.args, e.uid = op, args, next(_CNT)
        e._fv = None
        e._nf = None
        _TABLE[key] = e
    return e


def const(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("nonfin", repr(x))
        return mk("c", tofrac(x))
    return mk("c", Fraction(x))


def tofrac(x):
    """A float literal of the source denotes the decimal the programmer wrote."""
    x = float(x)
    f = Fraction(repr(x))
    g = f.limit_denominator(10**6)
    if float(g) == x and abs(g.denominator) < 10**5:
        return g
    return f


def int_value(e):
    """the int an integer constant denotes, or None"""
    if e.op == "c" and e.args[0].denominator == 1:
        return int(e.args[0])
    return None


TRUE = mk("true")
FALSE = mk("false")
ZERO = mk("c", Fraction(0))
ONE = mk("c", Fraction(1))
MONE = mk("c", Fraction(-1))
HALF = mk("c", Fraction(1, 2))

_fresh = itertools.count()


def var(name, sort="R"):
    return mk("v", name, sort)


def fresh(prefix, sort="I"):
    return mk("v", f"{prefix}!{next(_fresh)}", sort)


def el(name, *idx):
    return mk("el", name, *[const(i) for i in idx])


def is_c(e):
    return e.op == "c"


def cval(e):
    return e.args[0]


def add(*xs):
    terms: dict = {}
    order = []
    c = Fraction(0)
    st = list(xs)[::-1]
    while st:
        x = const(st.pop())
        if x.op == "add":
            st.extend(reversed(x.args))
            continue
        if x.op == "c":
            c += x.args[0]
            continue
        k, b = Fraction(1), x
        if x.op == "mul" and x.args[0].op == "c":
            k = x.args[0].args[0]
            b = mul(*x.args[1:]) if len(x.args) > 2 else x.args[1]
        if b in terms:
            terms[b] += k
        else:
            terms[b] = k
            order.append(b)
    out = []
    for b in order:
        k = terms[b]
        if k == 0:
            continue
        out.append(b if k == 1 else mul(const(k), b))
    if c != 0:
        out.append(const(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.uid)
    return mk("add", *out)


def mul(*xs):
    c = Fraction(1)
    pows: dict = {}
    order = []
    st = list(xs)[::-1]
    while st:
        x = const(st.pop())
        if x.op == "mul":
            st.extend(reversed(x.args))
            continue
        if x.op == "c":
            c *= x.args[0]
            continue
        b, p = x, Fraction(1)
        if x.op == "pow" and x.args[1].op == "c":
            b, p = x.args[0], x.args[1].args[0]
        if b in pows:
            pows[b] += p
        else:
            pows[b] = p
            order.append(b)
    if c == 0:
        return ZERO
    out = []
    for b in order:
        p = pows[b]
        if p == 0:
            continue
        y = b if p == 1 else power(b, const(p))
        if y.op == "c":
            c *= y.args[0]
        else:
            out.append(y)
    if not out:
        return const(c)
    out.sort(key=lambda e: e.uid)
    if c == 1:
        return out[0] if len(out) == 1 else mk("mul", *out)
    if len(out) == 1 and out[0].op == "add":
        return add(*[mul(const(c), t) for t in out[0].args])
    return mk("mul", const(c), *out)


def neg(x):
    return mul(MONE, x)


def sub(a, b):
    return add(a, neg(b))


def power(b, p):
    b, p = const(b), const(p)
    if p.op == "c":
        q = p.args[0]
        if q == 0:
            return ONE
        if q == 1:
            return b
        if b.op == "c":
            v = b.args[0]
            if q.denominator == 1 and not (v == 0 and q < 0):
                return const(v ** int(q))
            if v == 1:
                return ONE
            if v > 0 and q.denominator > 1:
                r = _root(v, q)
                if r is not None:
                    return const(r)
        if b.op == "pow" and b.args[1].op == "c" and q.denominator == 1 and b.args[1].args[0].denominator == 1:
            return power(b.args[0], const(b.args[1].args[0] * q))
        if b.op == "mul" and q.denominator == 1:
            return mul(*[power(a, p) for a in b.args])
    return mk("pow", b, p)


def _root(v, q):
    n, d = v.numerator, v.denominator
    k = q.denominator

    def ir(m):
        r = round(m ** (1.0 / k))
        for c in (r - 1, r, r + 1):
            if c >= 0 and c**k == m:
                return c
        return None

    a, b = ir(n), ir(d)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** q.numerator


def div(a, b):
    return mul(a, power(const(b), MONE))


def ninf(e):
    """e is minus infinity: that constant, possibly plus finite constants"""
    if e.op == "nonfin":
        return e.args[0] == "-inf"
    if e.op == "mul":
        cs = [a for a in e.args if a.op == "c"]
        nf = [a for a in e.args if a.op == "nonfin"]
        if len(nf) == 1 and len(cs) + 1 == len(e.args) and nf[0].args[0] in ("inf", "-inf"):
            v = 1 if nf[0].args[0] == "inf" else -1
            for c in cs:
                v = v * c.args[0]
            return v < 0
        return False
    if e.op == "add":
        return any(ninf(a) for a in e.args) and all(a.op == "c" or ninf(a) for a in e.args)
    return False


def fn(name, *args):
    args = [const(a) for a in args]
    if name == "exp" and args[0].op in ("nonfin", "mul", "add") and ninf(args[0]):
        return ZERO
    if name == "exp" and args[0] is ZERO:
        return ONE
    if name == "log" and args[0] is ONE:
        return ZERO
    if name == "log" and args[0].op == "fn" and args[0].args[0] == "exp":
        return args[0].args[1]
    if name == "exp" and args[0].op == "fn" and args[0].args[0] == "log":
        # exp(log x) = x: only valid for x>0; definedness obligations cover x>0
        return args[0].args[1]
    if name in ("sqrt",):
        return power(args[0], HALF)
    if name == "abs" and args[0].op == "c":
        return const(abs(args[0].args[0]))
    return mk("fn", name, *args)


# ----------------------------------------------------------------- booleans
def le(a, b):
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.args[0] <= 0 else FALSE
    return mk("le", d)  # d <= 0


def lt(a, b):
    a, b = const(a), const(b)
    if a.op == "c" and a.args[0] < 0 and b.op == "fn" and b.args[0] == "abs":
        return TRUE
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.args[0] < 0 else FALSE
    return mk("lt", d)


def eq(a, b):
    a, b = const(a), const(b)
    if a.op in BOOLOPS or b.op in BOOLOPS:
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.args[0] == 0 else FALSE
    m = neg(d)
    if m.uid < d.uid:
        d = m
    return mk("eq", d)  # d == 0


def not_(a):
    a = const(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(ZERO, a.args[0])
    if a.op == "lt":
        return le(ZERO, a.args[0])
    return mk("not", a)


def and_(*xs):
    out = []
    st = list(xs)[::-1]
    while st:
        x = const(st.pop())
        if x.op == "and":
            st.extend(reversed(x.args))
            continue
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x not in out:
            if not_(x) in out:
                return FALSE
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.uid)
    return mk("and", *out)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs])) if not _simple_or(xs) else _or(xs)


def _simple_or(xs):
    return True


def _or(xs):
    out = []
    st = list(xs)[::-1]
    while st:
        x = const(st.pop())
        if x.op == "or":
            st.extend(reversed(x.args))
            continue
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x not in out:
            if not_(x) in out:
                return TRUE
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.uid)
    return mk("or", *out)


BOOLOPS = {"true", "false", "le", "lt", "eq", "not", "and", "or", "all", "any"}


def is_bool(e):
    return e.op in BOOLOPS or (e.op == "v" and e.args[1] == "B")


def ite(c, a, b):
    c, a, b = const(c), const(a), const(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) or is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", c, a, b)


def sum_(i, n, body):
    """sum of body for i in [0, n)"""
    n = const(n)
    if body is ZERO:
        return ZERO
    if n.op == "c":
        k = int(n.args[0])
        if k <= 64:
            return add(*[subst(body, {i: const(t)}) for t in range(k)])
    if i not in fv(body):
        return mul(n, body)
    # alpha-normalise the bound variable by depth
    d = _depth(body)
    b = mk("v", f"%{d}", "I")
    if i is not b:
        body = subst(body, {i: b})
    return mk("sum", b, n, body)


def all_(i, n, body):
    if body in (TRUE, FALSE):
        return body
    if i not in fv(body):
        return body
    d = _depth(body)
    b = mk("v", f"%{d}", "I")
    return mk("all", b, const(n), subst(body, {i: b}))


_depth_cache: dict = {}


def _depth(e):
    r = _depth_cache.get(e)
    if r is not None:
        return r
    d = 0
    for a in e.args:
        if isinstance(a, E):
            d = max(d, _depth(a))
    if e.op in ("sum", "all", "any"):
        d = max(d, int(e.args[0].args[0][1:]) + 1)
    _depth_cache[e] = d
    return d


def fv(e):
    if e._fv is None:
        if e.op == "v":
            e._fv = frozenset([e])
        else:
            s = set()
            for a in e.args:
                if isinstance(a, E):
                    s |= fv(a)
            if e.op in ("sum", "all", "any"):
                s.discard(e.args[0])
            e._fv = frozenset(s)
    return e._fv


def free_atoms(e):
    """variables occurring in e"""
    seen, out, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "v":
            out.add(x)
        elif x.op != "c":
            todo += [a for a in x.args if isinstance(a, E)]
    return out


def subst(e, m):
    """Capture-free by construction (bound variables are depth-numbered; re-bound on rebuild)."""
    cache = {}

    def go(x):
        if x in m:
            return m[x]
        r = cache.get(x)
        if r is not None:
            return r
        if not x.args or x.op in ("c", "v", "nonfin"):
            r = x
        else:
            r = _go(x)
        cache[x] = r
        return r

    def _go(x):
        if x.op in ("sum", "all", "any"):
            b, n, body = x.args
            t = fresh("b")
            body2 = subst(subst(body, {b: t}), m)
            n2 = go(n)
            if x.op == "sum":
                return sum_(t, n2, body2)
            return all_(t, n2, body2)
        new = [go(a) if isinstance(a, E) else a for a in x.args]
        return rebuild(x, new)

    return go(e)


def rebuild(x, new):
    op = x.op
    if op == "add":
        return add(*new)
    if op == "mul":
        return mul(*new)
    if op == "pow":
        return power(*new)
    if op == "fn":
        return fn(*new)
    if op == "ite":
        return ite(*new)
    if op == "le":
        return le(new[0], ZERO)
    if op == "lt":
        return lt(new[0], ZERO)
    if op == "eq":
        return eq(new[0], ZERO)
    if op == "not":
        return not_(new[0])
    if op == "and":
        return and_(*new)
    if op == "or":
        return or_(*new)
    return mk(op, *new)


def replace_atoms(e, f, skip_bound=True):
    """Bottom-up rewriting: f(node) -> node or None, applied after children."""
    cache = {}

    def go(x):
        r = cache.get(x)
        if r is not None:
            return r
        if not x.args or x.op in ("c", "v", "nonfin"):
            y = x
        elif x.op in ("sum", "all", "any"):
            b, n, body = x.args
            t = fresh("b")
            body2 = go(subst(body, {b: t}))
            y = sum_(t, go(n), body2) if x.op == "sum" else all_(t, go(n), body2)
        else:
            y = rebuild(x, [go(a) if isinstance(a, E) else a for a in x.args])
        z = f(y)
        if z is not None:
            y = z
        cache[x] = y
        return y

    return go(e)


def subterms(e, seen=None):
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, E):
                st.append(a)
    return seen


# ------------------------------------------------------------ differentiation
class NotDiff(Exception):
    pass


def diff(e, x):
    """d e / d x where x is a scalar variable or an array element el(name, idx...)."""
    cache = {}

    def go(e):
        r = cache.get(e)
        if r is None:
            r = _d(e)
            cache[e] = r
        return r

    def _d(e):
        op = e.op
        if op in ("c", "nonfin"):
            return ZERO
        if op == "v":
            return ONE if e is x else ZERO
        if op == "el":
            if e is x:
                return ONE
            if x.op == "el" and x.args[0] == e.args[0] and len(x.args) == len(e.args):
                cond = and_(*[eq(a, b) for a, b in zip(x.args[1:], e.args[1:])])
                return ite(cond, ONE, ZERO)
            return ZERO
        if op == "add":
            return add(*[go(a) for a in e.args])
        if op == "mul":
            out = []
            for k, a in enumerate(e.args):
                da = go(a)
                if da is not ZERO:
                    out.append(mul(*(e.args[:k] + (da,) + e.args[k + 1 :])))
            return add(*out)
        if op == "pow":
            b, p = e.args
            db, dp = go(b), go(p)
            r = ZERO
            if db is not ZERO:
                r = add(r, mul(p, power(b, sub(p, ONE)), db))
            if dp is not ZERO:
                r = add(r, mul(e, fn("log", b), dp))
            return r
        if op == "fn":
            name, a = e.args[0], e.args[1:]
            ds = [go(t) for t in a]
            if all(d is ZERO for d in ds):
                return ZERO
            if name == "exp":
                return mul(e, ds[0])
            if name == "log":
                return div(ds[0], a[0])
            if name == "gammaln":
                return mul(fn("polygamma", ZERO, a[0]), ds[0])
            if name == "polygamma":
                return mul(fn("polygamma", add(a[0], ONE), a[1]), ds[1])
            raise NotDiff(name)
        if op == "ite":
            if x in subterms(e.args[0]):
                # piecewise: derivative taken inside each piece (boundary excluded)
                pass
            return ite(e.args[0], go(e.args[1]), go(e.args[2]))
        if op == "sum":
            b, n, body = e.args
            t = fresh("b")
            return sum_(t, n, diff(subst(body, {b: t}), x))
        raise NotDiff(op)

    return go(e)


# -------------------------------------------------------------------- display
def show(e, depth=0):
    if depth > 40:
        return "..."
    op = e.op
    s = lambda a: show(a, depth + 1)
    if op == "c":
        return str(e.args[0])
    if op == "v":
        return e.args[0]
    if op == "el":
        return f"{e.args[0]}[{','.join(s(a) for a in e.args[1:])}]"
    if op == "add":
        return "(" + " + ".join(s(a) for a in e.args) + ")"
    if op == "mul":
        return "*".join(s(a) for a in e.args)
    if op == "pow":
        return f"{s(e.args[0])}^({s(e.args[1])})"
    if op == "fn":
        return f"{e.args[0]}({', '.join(s(a) for a in e.args[1:])})"
    if op == "sum":
        return f"Σ_{{{s(e.args[0])}<{s(e.args[1])}}}[{s(e.args[2])}]"
    if op in ("le", "lt", "eq"):
        return f"({s(e.args[0])} {dict(le='<=', lt='<', eq='==')[op]} 0)"
    if op == "ite":
        return f"ite({s(e.args[0])}, {s(e.args[1])}, {s(e.args[2])})"
    return f"{op}({', '.join(s(a) if isinstance(a, E) else str(a) for a in e.args)})"


E.__copy__ = lambda self: self
E.__deepcopy__ = lambda self, memo: self
E.__reduce__ = lambda self: (_ for _ in ()).throw(TypeError("terms are not picklable"))
