"""Field values of GF(p) as products of factors, over a polynomial ring with relations.

A value is c * prod F_i^e_i with c in GF(p) and F_i atoms or interned polynomials; exponents may be
negative for factors known to be non-zero on the current path.  Sums are brought to a common content
and expanded; every expansion is logged as an integer polynomial identity
    (sum in factored form) = content * factor + sum q_j * relation_j + p * K
and the log is discharged by the SMT solver (check_log).  Powers with exponents near multiples of
(p+1)/4 modulo p-1 are expressed with w_F = F^((p+1)/4), w_F^2 = chi_F * F, chi_F = F^((p-1)/2).
"""
from poly import Unsupported
from spec import P
from solve import run_smt, num

H = (P + 1) // 4
LIMIT = 60000


class TooBig(Unsupported):
    pass


class Infeasible(Exception):
    """The relations of this path have no solution."""


def sym(c):
    c %= P
    return c - P if c > P // 2 else c


# ---------------------------------------------------------------- polynomials: {((atom,exp),...): int}
def pmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pzmul(p, q, mod=True):
    """Product; integer coefficients, reduced symmetrically when mod."""
    if len(p) * len(q) > LIMIT * 40:
        raise TooBig("product of %d by %d terms" % (len(p), len(q)))
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = pmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    if mod:
        r = {m: sym(c) for m, c in r.items()}
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT:
        raise TooBig("%d terms" % len(r))
    return r


def pzadd(p, q, k=1, mod=True):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    if mod:
        return {m: sym(c) for m, c in r.items() if c % P}
    return {m: c for m, c in r.items() if c}


def pzpow(p, e, mod=True):
    r = {(): 1}
    while e:
        if e & 1:
            r = pzmul(r, p, mod)
        e >>= 1
        if e:
            p = pzmul(p, p, mod)
    return r


def mdiv(m, d):
    """m / d for monomials, or None."""
    x = dict(m)
    for a, e in d:
        v = x.get(a, 0) - e
        if v < 0:
            return None
        if v:
            x[a] = v
        else:
            del x[a]
    return tuple(sorted(x.items()))


class FV:
    """c * prod(fid^e)"""
    __slots__ = ("c", "f")

    def __init__(self, c, f=()):
        self.c = c % P
        self.f = f if self.c else ()

    def key(self):
        return (self.c, self.f)

    def __repr__(self):
        return "FV(%d,%s)" % (sym(self.c), self.f)


FZERO = FV(0)
FONE = FV(1)


class Ring:
    def __init__(self):
        self.names = []          # atom names
        self.akind = []          # "in" | ("w", fid) | ("chi", fid)
        self.fac = []            # fid -> ("atom", a) | ("poly", poly)
        self.byatom = {}
        self.bypoly = {}
        self.rules = []          # (lead monomial, rest poly, full polynomial)
        self.units = set()       # fids known non-zero
        self.nzpolys = []        # extra non-zero polynomials given by the property
        self.ver = 0
        self.log = []
        self.wof = {}
        self.chiof = {}
        self.chisub = {}         # chi atom -> (sign, other chi atoms): path facts
        self.cache = {}
        self.prods = []          # (fids, value): product rewritten to a value
        self.checked = 0

    # ---- construction
    def atom(self, name, kind="in", unit=False):
        a = len(self.names)
        self.names.append(name)
        self.akind.append(kind)
        fid = len(self.fac)
        self.fac.append(("atom", a))
        self.byatom[a] = fid
        if unit:
            self.units.add(fid)
        return a

    def var(self, name, unit=False):
        return FV(1, ((self.byatom[self.atom(name, "in", unit)], 1),))

    def rule(self, poly, lead=None):
        """Add a relation poly = 0 used as a rewrite rule on its leading monomial."""
        poly = {m: sym(c) for m, c in poly.items() if c % P}
        if not poly:
            return
        lead = lead or self.lead(poly)
        if lead == ():
            raise Infeasible()
        c = pow(poly[lead], -1, P)
        full = {m: sym(v * c) for m, v in poly.items()}
        rest = {m: -v for m, v in full.items() if m != lead}
        self.rules.append((lead, rest, full))
        self.ver += 1
        self.cache.clear()

    def product(self, us, v):
        """Rewrite the product of the given (distinct, irreducible) values to v; both must agree under the rules."""
        assert all(len(u.f) == 1 and u.f[0][1] == 1 for u in us)
        l = FONE
        for u in us:
            l = FV(l.c * u.c, tuple(sorted(l.f + u.f)))
        num = FV(-v.c, tuple((f, e) for f, e in v.f if e > 0))
        d = dict(l.f)
        for f, e in v.f:
            if e < 0:
                d[f] = d.get(f, 0) - e
        l2 = FV(l.c, tuple(sorted(d.items())))
        s = pzadd(self.expand(l2), self.expand(num))
        track = {}
        if self.reduce(s, track):
            raise Unsupported("product rule does not follow from the relations")
        self.record([l2, num], None, track)
        self.prods.append(([u.f[0][0] for u in us], FV(v.c * pow(l.c, -1, P) % P, v.f)))
        self.ver += 1
        self.cache.clear()

    def rank(self, m):
        """Degree first; w atoms and later atoms weigh more."""
        k = 0
        for a, e in m:
            k += e * (1000 if self.akind[a] != "in" else 1)
        return (k, tuple(sorted(((a, e) for a, e in m), reverse=True)))

    def lead(self, poly):
        return max(poly, key=self.rank)

    # ---- normal form modulo rules, with quotients
    def reduce(self, p, track=None):
        if not self.rules:
            return p
        p = dict(p)
        out = {}
        todo = list(p)
        n = 0
        while todo:
            m = todo.pop()
            c = p.get(m)
            if not c:
                continue
            hit = None
            for i, (lead, rest, full) in enumerate(self.rules):
                q = mdiv(m, lead)
                if q is not None:
                    hit = (i, q, rest)
                    break
            if hit is None:
                continue
            n += 1
            if n > 400000:
                raise TooBig("reduction")
            i, q, rest = hit
            del p[m]
            if track is not None:
                t = track.setdefault(i, {})
                t[q] = t.get(q, 0) + c
            for m2, c2 in rest.items():
                mm = pmono(q, m2)
                v = sym(p.get(mm, 0) + c * c2)
                if v:
                    p[mm] = v
                    todo.append(mm)
                else:
                    p.pop(mm, None)
        return p

    # ---- factored values
    def mk(self, c, d):
        return FV(c, tuple(sorted((f, e) for f, e in d.items() if e)))

    def mul(self, u, v):
        if not u.c or not v.c:
            return FZERO
        d = dict(u.f)
        for f, e in v.f:
            d[f] = d.get(f, 0) + e
        return self.norm(u.c * v.c % P, d)

    def pow(self, u, e):
        if e == 0:
            return FONE
        return self.norm(pow(u.c, e, P), {f: k * e for f, k in u.f})

    def inv(self, u):
        """Multiplicative inverse of a value known non-zero."""
        if not u.c:
            raise Unsupported("inverse of zero")
        for f, _ in u.f:
            if not self.isunit(f):
                raise Unsupported("inverse of a possibly zero value")
        return self.norm(pow(u.c, -1, P), {f: -e for f, e in u.f})

    def neg(self, u):
        return FV(-u.c, u.f)

    def norm(self, c, d):
        out = {}
        work = list(d.items())
        while work:
            f, e = work.pop()
            if not e:
                continue
            k, x = self.fac[f]
            kind = self.akind[x] if k == "atom" else "in"
            if kind != "in":
                if kind[0] == "chi":
                    t = out.get(f, 0) + e
                    out[f] = t & 1
                    if not t & 1:
                        out.pop(f)
                    continue
                # w
                base = kind[1]
                t = out.get(f, 0) + e
                if 0 <= t <= 1:
                    if t:
                        out[f] = t
                    else:
                        out.pop(f, None)
                    continue
                out.pop(f, None)
                q, r = t // 2, t & 1
                if abs(q) > 1 << 100:
                    # w^t = base^(H t)
                    work.append((base, H * t % (P - 1)))
                    continue
                if r:
                    out[f] = 1
                work.append((base, q))
                if q & 1:
                    work.append((self.chi(base), 1))
                continue
            t = out.get(f, 0) + e
            if t:
                out[f] = t
            else:
                out.pop(f, None)
        if self.prods:
            for fs, v in self.prods:
                es = [out.get(f, 0) for f in fs]
                if all(e > 0 for e in es):
                    t = min(es)
                elif all(e < 0 for e in es):
                    t = max(es)
                else:
                    continue
                dd = dict(out)
                for f in fs:
                    dd[f] -= t
                for f, e in v.f:
                    dd[f] = dd.get(f, 0) + e * t
                return self.norm(c * pow(v.c, t, P) % P, dd)
        # large exponents
        for f in list(out):
            e = out[f]
            if abs(e) < 1 << 100:
                continue
            best = None
            for q in range(4):
                s = (e - q * H) % (P - 1)
                if s > (P - 1) // 2:
                    s -= P - 1
                if abs(s) <= 64 and (best is None or abs(s) < abs(best[1])):
                    best = (q, s)
            if best is None:
                continue
            if not self.known_unit(f):
                return FZERO
            del out[f]
            q, s = best
            dd = dict(out)
            dd[f] = s
            if q:
                w = self.w(f)
                dd[w] = dd.get(w, 0) + q
            return self.norm(c, dd)
        if self.zeroed:
            for f, e in out.items():
                if self.fzero(f):
                    if e < 0:
                        raise Unsupported("division by zero on this path")
                    return FZERO
        if self.chisub:
            for f in list(out):
                k, x = self.fac[f]
                if k == "atom" and x in self.chisub and out.get(f):
                    s, others = self.chisub[x]
                    del out[f]
                    c = c * s % P
                    for o in others:
                        of = self.byatom[o]
                        if out.get(of):
                            del out[of]
                        else:
                            out[of] = 1
        return self.mk(c, out)

    zeroed = False

    def fzero(self, f):
        """The factor vanishes under the current relations."""
        if f in self.units:
            return False
        key = ("fz", f)
        r = self.cache.get(key)
        if r is None:
            k, x = self.fac[f]
            p = {((x, 1),): 1} if k == "atom" else x
            r = self.cache[key] = not self.reduce(p)
        return r

    def w(self, f):
        if f not in self.wof:
            a = self.atom("w%d" % f, ("w", f))
            self.wof[f] = self.byatom[a]
            self.units.add(self.byatom[a])
            chi = self.fac[self.chi(f)][1]
            k, x = self.fac[f]
            base = {((x, 1),): 1} if k == "atom" else x
            r = {((a, 2),): 1}
            r = pzadd(r, pzmul({((chi, 1),): 1}, base), -1)
            self.rules.append((((a, 2),), {m: -c for m, c in r.items() if m != ((a, 2),)}, r))
            self.cache.clear()
        return self.wof[f]

    def chi(self, f):
        if f not in self.chiof:
            a = self.atom("chi%d" % f, ("chi", f))
            self.chiof[f] = self.byatom[a]
            self.units.add(self.byatom[a])
            self.rules.append((((a, 2),), {(): 1}, {((a, 2),): 1, (): -1}))
            self.cache.clear()
        return self.chiof[f]

    def setchi(self, fids, sign):
        """Path fact: product of the chi atoms (fids) equals sign."""
        atoms = [self.fac[f][1] for f in fids]
        a, rest = atoms[0], atoms[1:]
        for k, (s, o) in list(self.chisub.items()):
            if a in o:
                o2 = set(o) ^ {a} ^ set(rest)
                self.chisub[k] = (s * sign, sorted(o2))
        self.chisub[a] = (sign, rest)
        # also as a relation for expanded sums
        r = {((a, 1),): 1}
        m = tuple(sorted((x, 1) for x in rest))
        r = pzadd(r, {m: sign}, -1)
        self.rules.insert(0, (((a, 1),), {m: sign}, r))
        self.ver += 1
        self.cache.clear()

    # ---- knowledge about zero
    def isunit(self, f):
        return f in self.units

    def known_unit(self, f):
        """Decide whether factor f is zero on this path, forking if needed."""
        if f in self.units:
            return True
        if self.fzero(f):
            return False
        if self.nonzero_by_hint(f):
            self.units.add(f)
            return True
        if self.fork is None:
            raise Unsupported("zero test without a fork handler")
        if self.fork(("zero", f)):
            self.setzero(f)
            return False
        self.units.add(f)
        return True

    fork = None

    def nonzero_by_hint(self, f):
        k, x = self.fac[f]
        p = {((x, 1),): 1} if k == "atom" else x
        p = self.reduce(p)
        if len(p) == 1:
            m = next(iter(p))
            if all(self.byatom[a] in self.units for a, e in m):
                return True
        for h in self.nzpolys:
            h = self.reduce(h)
            if not h:
                raise Infeasible()
            # proportional?
            m = self.lead(h)
            if m in p and len(h) == len(p):
                k = p[m] * pow(h[m], -1, P) % P
                if all((h.get(mm, 0) * k - c) % P == 0 for mm, c in p.items()):
                    return True
            # a factor of it?
            if len(p) > 1 and self.divide(h, p) is not None:
                return True
        return False

    def setzero(self, f):
        k, x = self.fac[f]
        p = {((x, 1),): 1} if k == "atom" else x
        self.zeroed = True
        self.relation(p)

    def relation(self, p):
        """Impose p = 0 on this path (small Groebner completion)."""
        p = self.reduce(p)
        if not p:
            return
        queue = [p]
        n = 0
        while queue:
            p = self.reduce(queue.pop())
            if not p:
                continue
            n += 1
            if n > 60:
                raise TooBig("completion")
            # strip unit monomials and take square-free monomials
            g = None
            for m in p:
                s = {a: e for a, e in m}
                g = s if g is None else {a: min(e, s.get(a, 0)) for a, e in g.items()}
            g = {a: e for a, e in g.items() if e}
            if g:
                strip = {a: e for a, e in g.items() if self.byatom[a] in self.units}
                if strip:
                    d = tuple(sorted(strip.items()))
                    p = {mdiv(m, d): c for m, c in p.items()}
            if len(p) == 1:
                m = next(iter(p))
                if not m:
                    raise Infeasible()
                p = {tuple((a, 1) for a, e in m): 1}
                if len(next(iter(p))) > 1:
                    raise Unsupported("product of atoms vanishes")
            # linear in an atom with constant coefficient: substitute
            best = None
            for m in p:
                if len(m) == 1 and m[0][1] == 1 and self.akind[m[0][0]] == "in":
                    a = m[0][0]
                    if not any(b == a for mm in p if mm != m for b, _ in mm):
                        best = m
            lead = best or self.lead(p)
            c = pow(p[lead], -1, P)
            full = {m: sym(v * c) for m, v in p.items()}
            rest = {m: -v for m, v in full.items() if m != lead}
            # inter-reduce existing rules
            old = self.rules
            self.rules = [(lead, rest, full)]
            self.cache.clear()
            for (l2, r2, f2) in old:
                if mdiv(l2, lead) is not None:
                    queue.append(f2)
                else:
                    self.rules.append((l2, r2, f2))
            for (l2, r2, f2) in self.rules[1:]:
                common = set(a for a, _ in l2) & set(a for a, _ in lead)
                if common:
                    lcm = {}
                    for a, e in l2 + lead:
                        lcm[a] = max(lcm.get(a, 0), e)
                    lcm = tuple(sorted(lcm.items()))
                    s = pzadd(pzmul({mdiv(lcm, lead): 1}, full), pzmul({mdiv(lcm, l2): 1}, f2), -1)
                    queue.append(s)
            self.ver += 1
            self.cache.clear()
        for f in list(self.units):
            k, x = self.fac[f]
            q = {((x, 1),): 1} if k == "atom" else x
            if not self.reduce(q):
                raise Infeasible()
        for h in self.nzpolys:
            if not self.reduce(h):
                raise Infeasible()

    # ---- sums
    def fpoly(self, f):
        k, x = self.fac[f]
        return {((x, 1),): 1} if k == "atom" else x

    def expand(self, u, mod=True):
        r = {(): sym(u.c) if mod else sym(u.c)}
        for f, e in u.f:
            if e < 0 or e > 200:
                raise Unsupported("expanding exponent %d" % e)
            r = pzmul(r, self.power(f, e, mod), mod)
        return r

    def power(self, f, e, mod):
        key = ("pw", f, e, mod)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = pzpow(self.fpoly(f), e, mod)
        return r

    def split_content(self, us):
        """Common content (as exponent dict) of nonzero values."""
        fs = set()
        for u in us:
            fs |= {f for f, _ in u.f}
        con = {}
        for f in fs:
            e = min(dict(u.f).get(f, 0) for u in us)
            if e:
                con[f] = e
        return con

    def add(self, u, v):
        return self.sum([u, v])

    def sub(self, u, v):
        return self.sum([u, self.neg(v)])

    def sum(self, us):
        if self.zeroed or self.chisub:
            us = [self.norm(u.c, dict(u.f)) for u in us]
        us = [u for u in us if u.c]
        if not us:
            return FZERO
        if len(us) == 1:
            return us[0]
        if len(us) == 2 and us[0].f == us[1].f:
            if not (us[0].c + us[1].c) % P and all(e > 0 for _, e in us[0].f):
                self.record(us, None, {})
            return FV(us[0].c + us[1].c, us[0].f)
        key = ("sum", tuple(sorted(u.key() for u in us)), self.ver)
        r = self.cache.get(key)
        if r is not None:
            return r
        con = self.split_content(us)
        for f in con:
            if con[f] < 0:
                # clearing a denominator: the factor is a unit by construction
                pass
        cof = []
        for u in us:
            d = dict(u.f)
            for f, e in con.items():
                d[f] = d.get(f, 0) - e
            cof.append(FV(u.c, tuple(sorted((f, e) for f, e in d.items() if e))))
        s = {}
        for u in cof:
            s = pzadd(s, self.expand(u))
        track = {}
        red = self.reduce(s, track)
        if not red:
            self.record(cof, None, track)
            r = FZERO
        else:
            c, d = self.intern(red)
            self.record(cof, (c, dict(d)), track)
            for f, e in con.items():
                d[f] = d.get(f, 0) + e
            r = self.norm(c, d)
        self.cache[key] = r
        return r

    def intern(self, p):
        """(coefficient, {fid: exp}) of a non-zero reduced polynomial."""
        g = None
        for m in p:
            s = dict(m)
            g = s if g is None else {a: min(e, s.get(a, 0)) for a, e in g.items() if a in s}
            if not g:
                break
        d = {}
        if g:
            for a, e in g.items():
                d[self.byatom[a]] = e
            dm = tuple(sorted(g.items()))
            p = {mdiv(m, dm): c for m, c in p.items()}
        if len(p) == 1:
            return p[()] % P, d
        c, p = self.nice(p)
        # exact division by known factors
        if len(p) <= 300:
            again = True
            while again and len(p) > 1:
                again = False
                for f, _ in list(self.bypoly.values()):
                    q = self.fac[f][1]
                    if len(q) > 60 or q == p:
                        continue
                    r = self.divide(p, q)
                    if r is not None:
                        d[f] = d.get(f, 0) + 1
                        p = r
                        again = True
                        break
        if len(p) == 1:
            m = next(iter(p))
            for a, e in m:
                d[self.byatom[a]] = d.get(self.byatom[a], 0) + e
            return c * p[m] % P, d
        lead = self.lead(p)
        k = pow(p[lead], -1, P)
        key = frozenset((m, v * k % P) for m, v in p.items())
        hit = self.bypoly.get(key)
        if hit is None:
            k2, p = self.nice(p)
            c = c * k2 % P
            f = len(self.fac)
            self.fac.append(("poly", p))
            self.bypoly[key] = (f, p[lead])
        else:
            f, l2 = hit
            c = c * p[lead] * pow(l2, -1, P) % P
        d[f] = d.get(f, 0) + 1
        return c, d

    def nice(self, p):
        """(k, q) with p = k*q and q having a unit coefficient of smallest size."""
        m = min(p, key=lambda m: (abs(p[m]), self.rank(m)))
        c = p[m]
        if c == 1:
            return 1, p
        if c == -1:
            return P - 1, {m: -v for m, v in p.items()}
        g = 0
        from math import gcd
        for v in p.values():
            g = gcd(g, v)
        if g > 1 and g < 1 << 64:
            g = g if c > 0 else -g
            return g % P, {m: v // g for m, v in p.items()}
        if abs(c) < 1 << 64:
            return 1, p
        k = pow(c, -1, P)
        return c % P, {m: sym(v * k) for m, v in p.items()}

    def divide(self, p, q):
        """Exact quotient p / q in the polynomial ring, or None."""
        vp = {a for m in p for a, _ in m}
        vq = {a for m in q for a, _ in m}
        if not vq <= vp:
            return None
        order = lambda m: tuple(dict(m).get(a, 0) for a in sorted(vp, reverse=True))
        lq = max(q, key=order)
        kq = pow(q[lq], -1, P)
        p = dict(p)
        out = {}
        n = 0
        while p:
            lp = max(p, key=order)
            t = mdiv(lp, lq)
            if t is None:
                return None
            n += 1
            if n > 400:
                return None
            c = sym(p[lp] * kq)
            out[t] = c
            for m, v in q.items():
                mm = pmono(t, m)
                x = sym(p.get(mm, 0) - c * v)
                if x:
                    p[mm] = x
                else:
                    p.pop(mm, None)
        return out

    # ---- certificates
    def record(self, cof, res, track):
        self.log.append((list(cof), res, [(self.rules[i][2], q) for i, q in track.items()]))

    def _fv(self, c, f):
        ts = [num(sym(c))]
        for x, e in f:
            ts += ["f%d" % x] * e
        return ts[0] if len(ts) == 1 else "(* %s)" % " ".join(ts)

    def _poly(self, p):
        out = []
        for m, c in p.items():
            ts = [num(c)]
            for a, e in m:
                ts += ["a%d" % a] * e
            out.append(ts[0] if len(ts) == 1 else "(* %s)" % " ".join(ts))
        return "(+ 0 %s)" % " ".join(out)

    def zpoly(self, u):
        return self.expand(u, False)

    def check_log(self, timeout=60):
        """All logged identities, as integer identities checked by the solver."""
        if not self.log:
            return True
        bad = []
        ats = set()
        defs = {}

        def use(f):
            k, x = self.fac[f]
            if f not in defs:
                defs[f] = "(define-fun f%d () Int %s)" % (f, "a%d" % x if k == "atom" else self._poly(x))
                for m in ([((x, 1),)] if k == "atom" else x):
                    ats.update(a for a, _ in m)
        n = 0
        for cof, res, quo in self.log:
            lhs = {}
            for u in cof:
                lhs = pzadd(lhs, self.zpoly(u), 1, False)
                for f, _ in u.f:
                    use(f)
            rhs = {}
            parts = []
            if res is not None:
                c, d = res
                it = tuple(sorted(d.items()))
                for f, _ in it:
                    use(f)
                rhs = self.zpoly(FV(c, it))
                parts.append(self._fv(c, it))
            for full, q in quo:
                q = {m: c for m, c in q.items() if c}
                rhs = pzadd(rhs, pzmul(full, q, False), 1, False)
                for p in (full, q):
                    for m in p:
                        ats.update(a for a, _ in m)
                parts.append("(* %s %s)" % (self._poly(full), self._poly(q)))
            diff = pzadd(lhs, rhs, -1, False)
            K = {}
            for m, c in diff.items():
                if c % P:
                    raise Unsupported("identity log is inconsistent")
                K[m] = c // P
                ats.update(a for a, _ in m)
            if K:
                parts.append("(* %d %s)" % (P, self._poly(K)))
            l = "(+ 0 %s)" % " ".join(self._fv(u.c, u.f) for u in cof)
            bad.append("(not (= %s (+ 0 %s)))" % (l, " ".join(parts)))
            n += 1
        self.log = []
        self.checked += n
        # in batches: the solver normalises each side
        head = "(set-logic ALL)" + "".join("(declare-const a%d Int)" % a for a in sorted(ats)) + "".join(defs[f] for f in sorted(defs))
        for i in range(0, len(bad), 40):
            st, out = run_smt(head + "(assert (or false %s))(check-sat)" % "\n".join(bad[i:i + 40]), timeout)
            if st != "unsat":
                for b in bad[i:i + 40]:
                    st, out = run_smt(head + "(assert %s)(check-sat)" % b, timeout)
                    if st != "unsat":
                        return False
        return True
