"""Decision procedures: canonical rational-function normal form over transcendental atoms
(exp/log laws guarded by positivity), finite-sum algebra, case splitting, and z3/cvc5."""
from __future__ import annotations
import time
from fractions import Fraction
from .expr import *
from . import expr as X
import z3


class Stats:
    z3_calls = 0
    z3_time = 0.0
    ring_calls = 0
    ring_time = 0.0
    by = {}

    @classmethod
    def hit(cls, name):
        cls.by[name] = cls.by.get(name, 0) + 1


class TooBig(Exception):
    pass


MAXTERMS = 60000


class Ctx:
    """Assumptions under which an obligation is discharged."""

    def __init__(self, domains=None, assume=()):
        self.domains = domains if domains is not None else {}
        self.assume = list(assume)
        self._pos = {}
        self._parent = None
        self.memo = {}

    def child(self, *facts):
        c = Ctx(self.domains, self.assume + [f for f in facts if f is not TRUE])
        return c

    def facts_for(self, terms):
        out = []
        for t in terms:
            if t.op in ("el", "v"):
                d = self.domains.get(t.args[0])
                if d is not None:
                    out.extend(d(t))
        return out

    # ---- sign reasoning
    def pos(self, e):
        r = self._pos.get(e)
        if r is None:
            r = self._sign(e, strict=True) or self.prove_z3(lt(ZERO, e), 400)
            self._pos[e] = r
        return r

    def nonneg(self, e):
        k = ("nn", e)
        r = self._pos.get(k)
        if r is None:
            r = self._sign(e, strict=False) or self.prove_z3(le(ZERO, e), 400)
            self._pos[k] = r
        return r

    def _sign(self, e, strict):
        op = e.op
        if op == "c":
            return e.args[0] > 0 if strict else e.args[0] >= 0
        if op in ("v", "el"):
            want = lt(ZERO, e)
            fs = self.facts_for([e]) + self.assume
            if want in fs or (not strict and le(ZERO, e) in fs):
                return True
            if not fs:
                return False
            key = ("atom", e, strict)
            r = self._pos.get(key)
            if r is None:
                self._pos[key] = False
                r = self._pos[key] = self.prove_z3(want if strict else le(ZERO, e), 300)
            return r
        if op == "fn":
            if e.args[0] in ("exp", "pi", "normcdf", "gammacdf"):
                return e.args[0] != "gammacdf" or not strict
            if e.args[0] == "abs" and not strict:
                return True
            if e.args[0] == "polygamma" and e.args[1] is ONE:
                return self._sign(e.args[2], True)
            return False
        if op == "mul":
            return all(self._sign(a, strict) for a in e.args)
        if op == "add":
            return all(self._sign(a, strict) for a in e.args) or (
                strict
                and all(self._sign(a, False) for a in e.args)
                and any(self._sign(a, True) for a in e.args)
            )
        if op == "pow":
            b, p = e.args
            if self._sign(b, True):
                return True
            if p.op == "c" and p.args[0].denominator == 1 and p.args[0] % 2 == 0 and not strict:
                return True
            return (not strict) and self._sign(b, False) and p.op == "c" and p.args[0] > 0
        if op == "ite":
            return self._sign(e.args[1], strict) and self._sign(e.args[2], strict)
        if op == "sum":
            return (not strict) and self._sign(e.args[2], False)
        return False

    # ---- z3
    def prove_z3(self, goal, timeout_ms=2000):
        goal = const(goal)
        if goal is TRUE:
            return True
        if goal is FALSE and not self.assume:
            return False
        key = ("p", goal, tuple(self.assume))
        if key in self.memo:
            return self.memo[key]
        r = z3_unsat(self, [not_(goal)], timeout_ms)
        self.memo[key] = r
        return r

    def sat(self, cond, timeout_ms=1000):
        """False only if cond is refuted under the assumptions."""
        cond = const(cond)
        if cond is FALSE:
            return False
        return not z3_unsat(self, [cond], timeout_ms)


# ------------------------------------------------------------------ z3 bridge
class ToZ3:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}
        self.side = []
        self.terms = set()

    def isint(self, e):
        if e.op == "v":
            return e.args[1] == "I"
        if e.op == "c":
            return e.args[0].denominator == 1
        if e.op in ("add", "mul"):
            return all(self.isint(a) for a in e.args)
        if e.op == "pow":
            return self.isint(e.args[0]) and e.args[1].op == "c" and e.args[1].args[0].denominator == 1 and e.args[1].args[0] > 0
        if e.op == "fn":
            return e.args[0] in ("fdiv", "mod", "floor") or e.args[0].startswith("int:")
        if e.op == "el":
            return e.args[0].startswith("int:")
        if e.op == "ite":
            return self.isint(e.args[1]) and self.isint(e.args[2])
        return False

    def real(self, z):
        return z3.ToReal(z) if z.is_int() else z

    def go(self, e):
        r = self.cache.get(e)
        if r is None:
            r = self._go(e)
            self.cache[e] = r
        return r

    def num(self, e):
        return self.go(e)

    def _go(self, e):
        op = e.op
        if op == "c":
            f = e.args[0]
            if f.denominator == 1:
                return z3.IntVal(int(f))
            return z3.Q(f.numerator, f.denominator)
        if op == "v":
            self.terms.add(e)
            s = e.args[1]
            n = e.args[0]
            return z3.Int(n) if s == "I" else z3.Bool(n) if s == "B" else z3.Real(n)
        if op == "el":
            self.terms.add(e)
            idx = [self.go(a) for a in e.args[1:]]
            if not all(i.is_int() for i in idx):
                return z3.Real(f"atom{e.uid}")
            rng = z3.IntSort() if e.args[0].startswith("int:") else z3.RealSort()
            f = z3.Function(e.args[0], *([z3.IntSort()] * len(idx)), rng) if idx else None
            return f(*idx) if idx else z3.Real(e.args[0])
        if op == "add":
            zs = [self.go(a) for a in e.args]
            if not all(z.is_int() for z in zs):
                zs = [self.real(z) for z in zs]
            return z3.Sum(zs)
        if op == "mul":
            zs = [self.go(a) for a in e.args]
            if not all(z.is_int() for z in zs):
                zs = [self.real(z) for z in zs]
            return z3.Product(zs)
        if op == "pow":
            b, p = e.args
            if p.op == "c":
                q = p.args[0]
                zb = self.go(b)
                if q.denominator == 1 and abs(q) <= 12:
                    k = abs(int(q))
                    if q > 0:
                        r = zb
                        for _ in range(k - 1):
                            r = r * zb
                        return r
                    zb = self.real(zb)
                    r = zb
                    for _ in range(k - 1):
                        r = r * zb
                    v = z3.Real(f"inv{e.uid}")
                    self.side.append(z3.Implies(r != 0, v * r == 1))
                    return v
                if q.denominator == 2 and abs(q.numerator) <= 6:
                    zb = self.real(zb)
                    s = z3.Real(f"sqrt{b.uid}")
                    self.side.append(z3.Implies(zb >= 0, z3.And(s * s == zb, s >= 0)))
                    self.side.append(z3.Implies(zb > 0, s > 0))
                    k = abs(q.numerator)
                    r = s
                    for _ in range(k - 1):
                        r = r * s
                    if q > 0:
                        return r
                    v = z3.Real(f"inv{e.uid}")
                    self.side.append(z3.Implies(r != 0, v * r == 1))
                    return v
            v = z3.Real(f"atom{e.uid}")
            self.side.append(z3.Implies(self.real(self.go(b)) > 0, v > 0))
            return v
        if op == "fn":
            name = e.args[0]
            args = e.args[1:]
            if name == "abs":
                z = self.go(args[0])
                return z3.If(z >= 0, z, -z)
            if name == "fdiv":
                a, b = self.go(args[0]), self.go(args[1])
                if a.is_int() and b.is_int():
                    return a / b
            if name == "mod":
                a, b = self.go(args[0]), self.go(args[1])
                if a.is_int() and b.is_int():
                    return a % b
            if name == "min":
                a, b = self.go(args[0]), self.go(args[1])
                return z3.If(a <= b, a, b)
            if name == "max":
                a, b = self.go(args[0]), self.go(args[1])
                return z3.If(a >= b, a, b)
            if name.startswith("int:"):
                return z3.Int(f"atom{e.uid}")
            v = z3.Real(f"atom{e.uid}")
            if name == "exp":
                self.side.append(v > 0)
                z = self.real(self.go(args[0]))
                self.side.append((v > 1) == (z > 0))
                self.side.append((v == 1) == (z == 0))
                self.side.append(v >= 1 + z)
            elif name == "log":
                z = self.real(self.go(args[0]))
                self.side.append(z3.Implies(z > 0, z3.And((v > 0) == (z > 1), (v == 0) == (z == 1), v <= z - 1)))
            elif name == "polygamma" and args[0].op == "c" and args[0].args[0] == 1:
                z = self.real(self.go(args[1]))
                self.side.append(z3.Implies(z > 0, v > 0))
            return v
        if op == "sum":
            v = z3.Real(f"atom{e.uid}")
            if self.ctx._sign(e.args[2], False):
                self.side.append(v >= 0)
            return v
        if op == "ite":
            a, b = self.go(e.args[1]), self.go(e.args[2])
            if z3.is_arith(a) and z3.is_arith(b) and a.is_int() != b.is_int():
                a, b = self.real(a), self.real(b)
            return z3.If(self.go(e.args[0]), a, b)
        if op == "le":
            return self.go(e.args[0]) <= 0
        if op == "lt":
            return self.go(e.args[0]) < 0
        if op == "eq":
            return self.go(e.args[0]) == 0
        if op == "not":
            return z3.Not(self.go(e.args[0]))
        if op == "and":
            return z3.And([self.go(a) for a in e.args])
        if op == "or":
            return z3.Or([self.go(a) for a in e.args])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("all", "any"):
            return z3.Bool(f"batom{e.uid}")
        if op == "nonfin":
            return z3.Real(f"nonfin_{e.args[0]}")
        raise NotImplementedError(op)


def z3_unsat(ctx, conds, timeout_ms):
    t0 = time.time()
    Stats.z3_calls += 1
    tr = ToZ3(ctx)
    s = z3.Solver()
    s.set("timeout", int(5 * timeout_ms))  # unsat answers on the shipped tree need at most 1/15 of this
    zs = [tr.go(c) for c in conds] + [tr.go(a) for a in ctx.assume]
    done = set()
    extra = []
    for _ in range(4):
        new = [t for t in tr.terms if t not in done]
        if not new:
            break
        done.update(new)
        for f in ctx.facts_for(new):
            extra.append(tr.go(f))
    s.add(*zs, *extra, *tr.side)
    r = s.check()
    Stats.z3_time += time.time() - t0
    return r == z3.unsat


def smt2_of(ctx, goal):
    tr = ToZ3(ctx)
    s = z3.Solver()
    zs = [tr.go(not_(goal))] + [tr.go(a) for a in ctx.assume]
    done = set()
    extra = []
    for _ in range(4):
        new = [t for t in tr.terms if t not in done]
        if not new:
            break
        done.update(new)
        for f in ctx.facts_for(new):
            extra.append(tr.go(f))
    s.add(*zs, *extra, *tr.side)
    return s.to_smt2()


# ---------------------------------------------------------------- polynomials
# mono: tuple of (uid, Fraction) sorted ; poly: dict mono -> Fraction
_ATOM = {}


def atom(e):
    _ATOM[e.uid] = e
    return {((e.uid, Fraction(1)),): Fraction(1)}


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for u, p in m2:
        q = d.get(u, 0) + p
        if q == 0:
            d.pop(u, None)
        else:
            d[u] = q
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > MAXTERMS:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def ppow(a, k):
    r = pconst(1)
    for _ in range(k):
        r = pmul(r, a)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def mexpr(m, c=Fraction(1)):
    return mul(const(c), *[power(_ATOM[u], const(p)) for u, p in m])


def pexpr(p):
    return add(*[mexpr(m, c) for m, c in sorted(p.items())])


class RF:
    """num / prod(den_i^k_i); den_i: normalised non-monomial polynomials"""

    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}

    def expr(self):
        return mul(pexpr(self.n), *[power(pexpr(dict(k)), const(-e)) for k, e in sorted(self.d.items())])

    def is_zero(self):
        return not self.n


def rf_mul(a, b):
    n = pmul(a.n, b.n)
    d = dict(a.d)
    for k, e in b.d.items():
        d[k] = d.get(k, 0) + e
    return rf_clean(RF(n, d))


def rf_add(a, b):
    if a.d == b.d:
        return rf_clean(RF(padd(a.n, b.n), dict(a.d)))
    l = dict(a.d)
    for k, e in b.d.items():
        l[k] = max(l.get(k, 0), e)
    na, nb = a.n, b.n
    for k, e in l.items():
        ea, eb = e - a.d.get(k, 0), e - b.d.get(k, 0)
        if ea:
            na = pmul(na, ppow(dict(k), ea))
        if eb:
            nb = pmul(nb, ppow(dict(k), eb))
    return rf_clean(RF(padd(na, nb), l))


def rf_clean(r):
    if not r.n:
        return RF({}, {})
    # cancel a denominator factor equal to the numerator (up to a monomial)
    if r.d and len(r.n) > 1:
        mono, lc, core = content(r.n)
        k = pkey(core)
        if k in r.d:
            d = dict(r.d)
            d[k] -= 1
            if d[k] == 0:
                del d[k]
            return RF({mono: lc}, d)
        if len(r.n) <= 60:
            for k in list(r.d):
                q = try_divide(core, dict(k))
                if q is not None:
                    d = dict(r.d)
                    d[k] -= 1
                    if d[k] == 0:
                        del d[k]
                    return rf_clean(RF({mmul(mono, m): c * lc for m, c in q.items()}, d))
    return r


def try_divide(p, q):
    """exact multivariate division p/q (lex order) or None"""
    lead = lambda a: max(a.items(), key=lambda t: lexkey(t[0]))
    out = {}
    qm, qc = lead(q)
    cur = p
    for _ in range(200):
        if not cur:
            return out
        pm, pc = lead(cur)
        m = mmul(pm, tuple((u, -e) for u, e in qm))
        if any(e < 0 for _, e in m):
            return None
        c = pc / qc
        out[m] = out.get(m, 0) + c
        cur = padd(cur, pscale(pmul({m: Fraction(1)}, q), -c))
        if len(cur) > 300:
            return None
    return None


def lexkey(m):
    d = dict(m)
    return tuple(sorted(((-u, e) for u, e in d.items()), reverse=True))


def content(p):
    """(monomial gcd, leading coeff, primitive core) with core's first coefficient 1"""
    us = None
    for m in p:
        d = dict(m)
        if us is None:
            us = d
        else:
            us = {u: min(us.get(u, 0), d.get(u, 0)) for u in set(us) | set(d)}
    mono = tuple(sorted((u, e) for u, e in us.items() if e != 0))
    inv = tuple((u, -e) for u, e in mono)
    core = {mmul(m, inv): c for m, c in p.items()}
    first = min(core)
    lc = core[first]
    return mono, lc, {m: c / lc for m, c in core.items()}


def rf_inv(r):
    if not r.n:
        raise ZeroDivisionError
    mono, lc, core = content(r.n)
    n = {tuple((u, -e) for u, e in mono): 1 / lc}
    for k, e in r.d.items():
        n = pmul(n, ppow(dict(k), e))
    if len(core) == 1:
        return RF(n, {})
    return RF(n, {pkey(core): 1})


def rf_pow(r, k):
    if k < 0:
        return rf_pow(rf_inv(r), -k)
    out = RF(pconst(1))
    for _ in range(k):
        out = rf_mul(out, r)
    return out


def _factor_int(n):
    out, p = {}, 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Normaliser:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}

    def rf(self, e):
        r = self.cache.get(e)
        if r is None:
            r = self._rf(e)
            self.cache[e] = r
        return r

    def canon(self, e):
        return self.rf(e).expr()

    def _rf(self, e):
        op = e.op
        if op == "c":
            return RF(pconst(e.args[0]))
        if op in ("v", "nonfin"):
            return RF(atom(e))
        if op == "el":
            return RF(atom(mk("el", e.args[0], *[self.canon(a) for a in e.args[1:]])))
        if op == "add":
            out = RF({})
            for a in e.args:
                out = rf_add(out, self.rf(a))
            return out
        if op == "mul":
            out = RF(pconst(1))
            for a in e.args:
                out = rf_mul(out, self.rf(a))
            return self.fixfrac(out)
        if op == "pow":
            b, p = e.args
            if p.op == "c":
                return self.rfpow(self.rf(b), p.args[0])
            return self.rf(fn("exp", mul(p, fn("log", b))))
        if op == "fn":
            name = e.args[0]
            if name == "exp":
                return self.exp(self.rf(e.args[1]))
            if name == "log":
                return self.log(self.rf(e.args[1]))
            if name == "abs":
                a = self.canon(e.args[1])
                if self.ctx.nonneg(a):
                    return self.rf(a)
                if self.ctx.nonneg(neg(a)):
                    return self.rf(neg(a))
            return RF(atom(fn(name, *[self.canon(a) for a in e.args[1:]])))
        if op == "sum":
            return self.sum(e)
        if op == "ite":
            c = e.args[0]
            if self.ctx.prove_z3(c, 300):
                return self.rf(e.args[1])
            if self.ctx.prove_z3(not_(c), 300):
                return self.rf(e.args[2])
            a, b = self.canon(e.args[1]), self.canon(e.args[2])
            r = ite(c, a, b)
            if r.op != "ite":
                return self.rf(r)
            return RF(atom(r))
        if is_bool(e):
            return RF(atom(ite(e, ONE, ZERO)))
        raise NotImplementedError(op)

    def fixfrac(self, r):
        """fractional powers of polynomial atoms: reduce integer parts"""
        again = True
        out = r
        n = {}
        changed = False
        acc = RF({})
        for m, c in r.n.items():
            ints = []
            rest = []
            for u, e in m:
                a = _ATOM[u]
                if a.op == "pow" and a.args[0].op == "add" and abs(e) >= 1 and False:
                    ints.append((a, e))
                else:
                    rest.append((u, e))
            n[tuple(rest)] = c
        return out

    def rfpow(self, r, q):
        if q.denominator == 1:
            return rf_pow(r, int(q))
        # r = lc * mono * core * prod den
        if not r.n:
            return RF({}) if q > 0 else RF(atom(power(ZERO, const(q))))
        mono, lc, core = content(r.n)
        parts = [(1, core)] if len(core) > 1 else []
        parts += [(-e, dict(k)) for k, e in r.d.items()]
        atoms_pos = all(self.ctx.pos(_ATOM[u]) for u, _ in mono)
        if lc > 0 and atoms_pos and all(self.ctx.pos(pexpr(p)) for _, p in parts):
            out = RF({tuple((u, e * q) for u, e in mono): Fraction(1)})
            cp = power(const(lc), const(q))
            out = rf_mul(out, RF(pconst(cval(cp))) if cp.op == "c" else self._constpow(lc, q))
            for s, p in parts:
                ex = q * s
                ip = Fraction(ex.numerator // ex.denominator)
                fp = ex - ip
                base = pexpr(p)
                a = power(base, const(Fraction(1, fp.denominator)))
                t = RF({((self._reg(a), Fraction(fp.numerator)),): Fraction(1)}) if fp else RF(pconst(1))
                out = rf_mul(out, t)
                if ip:
                    out = rf_mul(out, rf_pow(RF(p), int(ip)) if ip > 0 else rf_pow(rf_inv(RF(p)), -int(ip)))
            return self.reduce_roots(out)
        return RF(atom(power(r.expr(), const(q))))

    def _constpow(self, lc, q):
        out = {(): Fraction(1)}
        m = {}
        for base, s in ((lc.numerator, 1), (lc.denominator, -1)):
            for p, k in _factor_int(base).items():
                m[p] = m.get(p, 0) + s * k * q
        mono = []
        c = Fraction(1)
        for p, ex in m.items():
            ip = ex.numerator // ex.denominator
            fp = ex - ip
            c *= Fraction(p) ** ip
            if fp:
                a = power(const(p), const(Fraction(1, fp.denominator)))
                if a.op == "c":
                    c *= a.args[0] ** fp.numerator
                else:
                    mono.append((self._reg(a), Fraction(fp.numerator)))
        return RF({tuple(sorted(mono)): c})

    def _reg(self, a):
        _ATOM[a.uid] = a
        return a.uid

    def reduce_roots(self, r):
        """A=(P)^(1/k): A^k -> P"""
        for _ in range(50):
            hit = None
            for m in r.n:
                for u, e in m:
                    a = _ATOM[u]
                    if a.op == "pow" and a.args[1].op == "c" and a.args[1].args[0].denominator > 1:
                        k = a.args[1].args[0].denominator
                        if e >= k or e < 0:
                            hit = (u, k, a)
            if not hit:
                return r
            u, k, a = hit
            out = RF({}, {})
            base = self.rf(a.args[0])
            for m, c in r.n.items():
                d = dict(m)
                e = d.pop(u, Fraction(0))
                j = e.numerator // (k * e.denominator)
                rem = e - j * k
                if rem:
                    d[u] = rem
                t = RF({tuple(sorted(d.items())): c}, dict(r.d))
                if j:
                    t = rf_mul(t, rf_pow(base, int(j)))
                out = rf_add(out, t)
            r = out
        return r

    def exp(self, r):
        if not r.n:
            return RF(pconst(1))
        if r.d:
            a = r.expr()
            mono, lc, core = content(r.n)
            if lc < 0:
                b = RF(pscale(r.n, -1), r.d).expr()
                return RF({((self._reg(fn("exp", b)), Fraction(-1)),): Fraction(1)})
            return RF(atom(fn("exp", a)))
        out = RF(pconst(1))
        for m, c in r.n.items():
            if m == ():
                t = RF({((self._reg(fn("exp", ONE)), c),): Fraction(1)})
            elif len(m) == 1 and m[0][1] == 1 and _ATOM[m[0][0]].op == "fn" and _ATOM[m[0][0]].args[0] == "log":
                base = self.rf(_ATOM[m[0][0]].args[1])
                t = self.rfpow(base, c)
            else:
                a = fn("exp", mexpr(m))
                if a.op == "fn" and a.args[0] == "exp":
                    t = RF({((self._reg(a), c),): Fraction(1)})
                else:
                    t = self.rfpow(self.rf(a), c)
            out = rf_mul(out, t)
        return out

    def logconst(self, c):
        out = {}
        for base, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in _factor_int(base).items():
                out = padd(out, pscale(atom(fn("log", const(p))), Fraction(s * k)))
        return out

    def log(self, r):
        if not r.n:
            return RF(atom(mk("fn", "log", ZERO)))
        mono, lc, core = content(r.n)
        if lc < 0 and len(core) > 1:
            lc, core = -lc, {m: -c for m, c in core.items()}
        parts = [(1, core)] if len(core) > 1 else []
        parts += [(-e, dict(k)) for k, e in r.d.items()]
        if lc > 0 and all(self.ctx.pos(_ATOM[u]) for u, _ in mono) and self._parts_ok(parts):
            out = RF(self.logconst(lc))
            for u, e in mono:
                a = _ATOM[u]
                if a.op == "fn" and a.args[0] == "exp":
                    t = self.rf(a.args[1])
                elif a.op == "pow" and a.args[1].op == "c":
                    t = rf_mul(RF(pconst(a.args[1].args[0])), self.rf(fn("log", a.args[0])))
                else:
                    t = RF(atom(fn("log", a)))
                out = rf_add(out, rf_mul(RF(pconst(e)), t))
            for s, p in parts:
                out = rf_add(out, rf_mul(RF(pconst(s)), self._logpoly(p)))
            return out
        return RF(atom(mk("fn", "log", r.expr())))

    def _parts_ok(self, parts):
        return all(self.ctx.pos(pexpr(p)) or self.ctx.pos(neg(pexpr(p))) for _, p in parts) and (
            sum(1 for s, p in parts if not self.ctx.pos(pexpr(p)) and s % 2) % 2 == 0
        )

    def _logpoly(self, p):
        if not self.ctx.pos(pexpr(p)):
            p = pscale(p, -1)
        return RF(atom(mk("fn", "log", pexpr(p))))

    # ------------------------------------------------------------------- sums
    def sum(self, e):
        b, n, body = e.args
        i = fresh("s")
        body = subst(body, {b: i})
        n = self.canon(n)
        sub_ctx = self.ctx.child(le(ZERO, i), lt(i, n))
        N = Normaliser(sub_ctx)
        terms = collapse(i, n, body, sub_ctx, self.ctx)
        out = RF({})
        for kind, t in terms:
            if kind == "free":
                out = rf_add(out, self.rf(t))
                continue
            r = N.rf(t)
            den_free, den_dep = {}, {}
            for k, ex in r.d.items():
                dep = any(i in fv(_ATOM[u]) for m, _ in k for u, _ in m)
                (den_dep if dep else den_free)[k] = ex
            groups = {}
            for m, c in r.n.items():
                f = tuple((u, ex) for u, ex in m if i not in fv(_ATOM[u]))
                g = tuple((u, ex) for u, ex in m if i in fv(_ATOM[u]))
                groups.setdefault(g, {})
                groups[g] = padd(groups[g], {f: c})
            for g, coef in groups.items():
                gb = mul(mexpr(g), *[power(pexpr(dict(k)), const(-ex)) for k, ex in sorted(den_dep.items())])
                if i not in fv(gb):
                    s = self.rf(mul(n, gb))
                else:
                    s = RF(atom(canon_sum(i, n, gb)))
                out = rf_add(out, rf_mul(RF(coef, den_free), s))
        return out


def canon_sum(i, n, body):
    """flatten nested sums  Σ_i f(i) Σ_j g(i,j)  ->  canonical Σ_i Σ_j f g"""
    bs = [(i, n)]
    fac = list(body.args) if body.op == "mul" else [body]
    k = 0
    while k < len(fac):
        f = fac[k]
        if f.op == "sum":
            b, m, bd = f.args
            if i in fv(m):
                k += 1
                continue
            t = fresh("s")
            bs.append((t, m))
            bd = subst(bd, {b: t})
            fac[k : k + 1] = list(bd.args) if bd.op == "mul" else [bd]
            continue
        k += 1
    if len(bs) == 1 or len(bs) > 4:
        return sum_(i, n, body)
    import itertools as it

    best = None
    inner = mul(*fac)
    for perm in it.permutations(bs):
        e = inner
        for t, m in perm:
            e = sum_(t, m, e)
        if best is None or e.uid < best.uid:
            best = e
    return best


def _solve_eq(c, i):
    """c: eq(d)==0 with d linear in i with unit coefficient -> value for i"""
    d = c.args[0]
    ts = d.args if d.op == "add" else (d,)
    co, rest = None, []
    for t in ts:
        if t is i:
            co = 1
        elif t.op == "mul" and t.args[0] is MONE and len(t.args) == 2 and t.args[1] is i:
            co = -1
        elif i in fv(t):
            return None
        else:
            rest.append(t)
    if co is None:
        return None
    r = add(*rest)
    return neg(r) if co == 1 else r


def collapse(i, n, body, ctx_in, ctx_out):
    """Split Σ_i body into terms, eliminating Kronecker deltas.  Returns [('free',e)|('sum',e)]"""
    out = []
    work = [body]
    guard = 0
    while work:
        guard += 1
        if guard > 4000:
            raise TooBig()
        t = work.pop()
        if t is ZERO:
            continue
        if t.op == "add":
            work.extend(t.args)
            continue
        facs = list(t.args) if t.op == "mul" else [t]
        done = False
        for k, f in enumerate(facs):
            if f.op == "ite" and i in fv(f.args[0]):
                c, a, b = f.args
                rest = facs[:k] + facs[k + 1 :]
                conj = list(c.args) if c.op == "and" else [c]
                sol = None
                for cc in conj:
                    if cc.op == "eq":
                        v = _solve_eq(cc, i)
                        if v is not None:
                            sol = (cc, v)
                            break
                if sol is not None:
                    cc, v = sol
                    rc = and_(*[x for x in conj if x is not cc])
                    # Σ_i ite(c,a,b) r = Σ_i b r + [in range & rest] (a-b) r at i=v
                    if b is not ZERO:
                        work.append(mul(b, *rest))
                    val = subst(mul(sub(a, b), *rest), {i: v})
                    g = and_(subst(rc, {i: v}), le(ZERO, v), lt(v, n))
                    if ctx_out.prove_z3(g, 500):
                        out.append(("free", val))
                    elif ctx_out.prove_z3(not_(g), 500):
                        pass
                    else:
                        out.append(("free", ite(g, val, ZERO)))
                    done = True
                    break
            if f.op == "add" and any(i in fv(x.args[0]) for x in subterms(f) if x.op == "ite"):
                rest = facs[:k] + facs[k + 1 :]
                for a in f.args:
                    work.append(mul(a, *rest))
                done = True
                break
            if (
                f.op == "pow"
                and f.args[1].op == "c"
                and f.args[1].args[0].denominator == 1
                and 1 < f.args[1].args[0] <= 4
                and f.args[0].op in ("ite", "add")
                and any(x.op == "ite" and i in fv(x.args[0]) for x in subterms(f.args[0]))
            ):
                rest = facs[:k] + facs[k + 1 :]
                b, p = f.args
                p = int(p.args[0])
                if b.op == "ite":
                    work.append(mul(ite(b.args[0], power(b.args[1], const(p)), power(b.args[2], const(p))), *rest))
                else:
                    q = power(b, const(p - 1))
                    for a in b.args:
                        work.append(mul(a, q, *rest))
                done = True
                break
        if not done:
            out.append(("sum", t))
    return out


# --------------------------------------------------------------------- prover
def conds_in(e):
    """ite conditions free of bound variables"""
    out = []
    for t in subterms(e):
        if t.op == "ite":
            c = t.args[0]
            for a in atoms_of(c):
                if not any(v.args[0].startswith("%") for v in fv(a)) and a not in out:
                    out.append(a)
    out.sort(key=lambda x: x.uid)
    return out


def atoms_of(c):
    if c.op in ("and", "or", "not"):
        r = []
        for a in c.args:
            r += atoms_of(a)
        return r
    if c in (TRUE, FALSE):
        return []
    return [c]


def simp_cond(e, c, val):
    m = {c: TRUE if val else FALSE}
    nc = not_(c)
    if nc.op in ("le", "lt"):
        m[nc] = FALSE if val else TRUE
    return subst(e, m)


def assume_subst(e, c):
    """When c is an equality fixing a variable/element, substitute it."""
    if c.op != "eq":
        return e, None
    d = c.args[0]
    ts = d.args if d.op == "add" else (d,)
    cand = None
    for t in ts:
        base, k = (t, Fraction(1))
        if t.op == "mul" and t.args[0].op == "c" and len(t.args) == 2:
            base, k = t.args[1], t.args[0].args[0]
        if base.op in ("v", "el"):
            rest = add(*[u for u in ts if u is not t])
            if base in subterms(rest):
                continue
            cand = (base, mul(const(-1 / k), rest))
            if rest.op == "c":
                break
    if cand is None:
        return e, None
    return subst(e, {cand[0]: cand[1]}), cand


LAST_FAIL = []


def prove_zero(e, ctx, budget=None, depth=0):
    r = _prove_zero(e, ctx, budget, depth)
    if not r:
        LAST_FAIL.append((ctx, e))
        del LAST_FAIL[:-40]
    return r


def _prove_zero(e, ctx, budget=None, depth=0):
    """True iff e == 0 is proved under ctx."""
    if e is ZERO:
        return True
    if budget is None:
        budget = [time.time() + 60, 3000]
    if time.time() > budget[0] or budget[1] <= 0:
        return False
    budget[1] -= 1
    t0 = time.time()
    Stats.ring_calls += 1
    try:
        cs = conds_in(e)
        if not cs:
            try:
                r = Normaliser(ctx).rf(e)
                if r.is_zero():
                    Stats.hit("ring")
                    return True
                e2 = r.expr()
                if depth < 12 and conds_in(e2):
                    return prove_zero(e2, ctx, budget, depth + 1)
            except (TooBig, ZeroDivisionError):
                pass
        # pointwise merge of sums
        if depth < 12 and merge_sums(e, ctx, budget, depth):
            return True
        if cs and depth < 14:
            c = cs[0]
            for x in cs:
                if x.op == "eq":
                    c = x
                    break
            for val in (True, False):
                cc = c if val else not_(c)
                if z3_unsat(ctx, [cc], 500):
                    continue
                e2 = simp_cond(e, c, val)
                ctx2 = ctx.child(cc)
                if val:
                    e2, sb = assume_subst(e2, c)
                if not prove_zero(e2, ctx2, budget, depth + 1):
                    return False
            Stats.hit("cases")
            return True
        if not cs:
            if ctx.prove_z3(eq(e, ZERO), 3000):
                Stats.hit("z3")
                return True
    finally:
        if depth == 0:
            Stats.ring_time += time.time() - t0
    return False


def merge_sums(e, ctx, budget, depth):
    """Σ_k c_k Σ_i f_k(i) (+ rest) == 0  if  Σ_k c_k f_k(i) == 0 for every i and rest == 0."""
    ts = e.args if e.op == "add" else (e,)
    groups, rest = {}, []
    for t in ts:
        fs = list(t.args) if t.op == "mul" else [t]
        sums = [f for f in fs if f.op == "sum"]
        if len(sums) == 1:
            s = sums[0]
            others = [f for f in fs if f is not s]
            groups.setdefault(s.args[1], []).append((s, others))
        else:
            rest.append(t)
    if not groups:
        return False
    rest2 = []
    extra = {}
    for t in rest:
        fs = list(t.args) if t.op == "mul" else [t]
        g = next((n for n in groups if n in fs), None)
        if g is not None:  # n * q  ==  sum over i < n of q
            fs.remove(g)
            extra.setdefault(g, []).append(mul(*fs) if fs else ONE)
        else:
            rest2.append(t)
    rest = rest2
    if rest and not prove_zero(add(*rest), ctx, budget, depth + 1):
        return False
    for n, items in groups.items():
        i = fresh("p")
        body = add(*[mul(subst(s.args[2], {s.args[0]: i}), *o) for s, o in items], *extra.get(n, []))
        c2 = ctx.child(le(ZERO, i), lt(i, n))
        if not prove_zero(body, c2, budget, depth + 1):
            return False
    Stats.hit("sum-pointwise")
    return True


def prove(goal, ctx, timeout_ms=5000, depth=0):
    """Prove a boolean goal."""
    goal = const(goal)
    if goal is TRUE:
        return True
    if goal.op == "and":
        return all(prove(g, ctx, timeout_ms, depth) for g in goal.args)
    if goal.op == "eq":
        if prove_zero(goal.args[0], ctx):
            return True
    if goal.op == "all":
        b, n, body = goal.args
        i = fresh("q")
        return prove(subst(body, {b: i}), ctx.child(le(ZERO, i), lt(i, n)), timeout_ms, depth)
    if goal.op in ("le", "lt"):
        # sign of the canonical form
        try:
            d = goal.args[0]
            cs = conds_in(d)
            if not cs:
                ex = Normaliser(ctx).canon(neg(d))
                if (ctx.pos(ex) if goal.op == "lt" else ctx.nonneg(ex)):
                    Stats.hit("sign")
                    return True
                if prove_rf_sign(neg(d), ctx, goal.op == "lt"):
                    Stats.hit("sign")
                    return True
            elif depth < 10:
                c = cs[0]
                ok = True
                for val in (True, False):
                    cc = c if val else not_(c)
                    if z3_unsat(ctx, [cc], 500):
                        continue
                    e2 = simp_cond(d, c, val)
                    if val:
                        e2, _ = assume_subst(e2, c)
                    g2 = le(e2, ZERO) if goal.op == "le" else lt(e2, ZERO)
                    if not prove(g2, ctx.child(cc), timeout_ms, depth + 1):
                        ok = False
                        break
                if ok:
                    return True
        except (TooBig, ZeroDivisionError, NotImplementedError):
            pass
    if ctx.prove_z3(goal, timeout_ms):
        Stats.hit("z3")
        return True
    return False


def prove_rf_sign(e, ctx, strict):
    r = Normaliser(ctx).rf(e)
    num, sgn = pexpr(r.n), 1
    for k, ex in r.d.items():
        p = pexpr(dict(k))
        if ctx.pos(p):
            continue
        if ex % 2 == 0:
            if strict or True:
                continue
        if ctx.pos(neg(p)):
            sgn = -sgn
        else:
            return False
    num = num if sgn > 0 else neg(num)
    return ctx.pos(num) if strict else ctx.nonneg(num)
