"""Integer polynomials over atoms, with exact floor/comparison algebra.

A machine word is represented by an IV: a polynomial P over integer atoms with
a known range [lo,hi]; the machine value of width w is P mod 2^w.  Atoms are
  input   free integer with a range
  floor   floor(P / 2^k)
  ge      1 if P >= 0 else 0            (all comparisons, all two-valued floors)
  let     a name for an integer-valued polynomial (definition kept)
  fd      like let, with an explicit small domain; functions of it are tables
  ind     1 if fd atom == k else 0
  xor/and/or  opaque bitwise values of two words (only range known)
  canon   integer representative in [0,p) of a field value (layer 2)
Coefficients are dyadic rationals (integer / 2^e); every IV is integer valued.
"""
import sys
sys.setrecursionlimit(20000)

FDMAX = 40


class Unsupported(Exception):
    pass


class Poly:
    __slots__ = ("t", "e", "_k", "_r")

    def __init__(self, t, e=0):
        if e:
            while e > 0 and all(not (c & 1) for c in t.values()):
                g = 0
                for c in t.values():
                    g |= c
                if g == 0:
                    e = 0
                    break
                s = min((g & -g).bit_length() - 1, e)
                if s == 0:
                    break
                t = {m: c >> s for m, c in t.items()}
                e -= s
        self.t = t
        self.e = e
        self._k = None
        self._r = None

    def key(self):
        if self._k is None:
            self._k = (self.e, frozenset(self.t.items()))
        return self._k

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0)

    def __repr__(self):
        return "Poly(%s%s)" % (self.t, "/2^%d" % self.e if self.e else "")


ZERO = Poly({})


def pconst(c):
    return Poly({(): c} if c else {})


def patom(a):
    return Poly({(a,): 1})


def padd(p, q):
    if not q.t:
        return p
    if not p.t:
        return q
    if p.e == q.e:
        e = p.e
        if len(p.t) < len(q.t):
            p, q = q, p
        t = dict(p.t)
        for m, c in q.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t, e)
    if p.e < q.e:
        p, q = q, p
    s = p.e - q.e
    t = dict(p.t)
    for m, c in q.t.items():
        n = t.get(m, 0) + (c << s)
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return Poly(t, p.e)


def pscale(p, k, e=0):
    """p * k / 2^e"""
    if k == 0:
        return ZERO
    if k == 1 and e == 0:
        return p
    if e < 0:
        k <<= -e
        e = 0
    return Poly({m: c * k for m, c in p.t.items()}, p.e + e)


def psub(p, q):
    return padd(p, pscale(q, -1))


class Atoms:
    """Atom registry of one symbolic session."""

    def __init__(self):
        self.kind = []
        self.data = []
        self.lo = []
        self.hi = []
        self.name = []
        self.dom = []          # explicit domain (tuple) or None
        self.base = []         # fd base atom (self for fd, base for ind)
        self.memo = {}
        self.letmul = {}       # let atom -> (Q, c, j): atom = c*Q mod 2^j
        self.known = {}        # (poly without constant) -> known range
        self.assumed = []      # extra constraints: list of polys P meaning P >= 0
        self.flatten = True
        self.tighten = None    # optional solver hook (poly, lo, hi) -> lo, hi

    # -- creation ---------------------------------------------------------
    def _new(self, kind, data, lo, hi, name=None, dom=None, base=None):
        i = len(self.kind)
        self.kind.append(kind)
        self.data.append(data)
        self.lo.append(lo)
        self.hi.append(hi)
        self.name.append(name or "%s%d" % (kind, i))
        if dom is None and hi - lo == 1:
            dom = (lo, hi)
        self.dom.append(dom)
        self.base.append(i if dom is not None and base is None else base)
        return i

    def input(self, name, lo, hi):
        return patom(self._new("input", None, lo, hi, name))

    # -- range ------------------------------------------------------------
    def mono_range(self, m):
        lo = hi = 1
        i = 0
        n = len(m)
        while i < n:
            a = m[i]
            j = i + 1
            while j < n and m[j] == a:
                j += 1
            al, ah = self.lo[a], self.hi[a]
            if j - i > 1:
                k = j - i
                c = (al ** k, ah ** k)
                l2, h2 = min(c), max(c)
                if k % 2 == 0 and al < 0 < ah:
                    l2 = 0
                al, ah = l2, h2
            if lo >= 0 and al >= 0:
                lo, hi = lo * al, hi * ah
            else:
                c = (lo * al, lo * ah, hi * al, hi * ah)
                lo, hi = min(c), max(c)
            i = j
        return lo, hi

    def range(self, p):
        """Interval of p (exact rational rounded inwards to integers)."""
        if p._r is not None:
            return p._r
        lo = hi = 0
        alo, ahi = self.lo, self.hi
        for m, c in p.t.items():
            if len(m) == 1:
                l, h = alo[m[0]], ahi[m[0]]
            elif not m:
                l = h = 1
            else:
                l, h = self.mono_range(m)
            if c >= 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if p.e:
            lo = -((-lo) >> p.e)
            hi = hi >> p.e
        p._r = (lo, hi)
        return lo, hi

    def note_range(self, p, lo, hi):
        """Record that lo <= p <= hi holds (p integer valued)."""
        if len(p.t) < 2:
            return
        c = p.t.get((), 0)
        if p.e:
            if c & ((1 << p.e) - 1):
                return
            c >>= p.e
        k = (p.e, frozenset((m, x) for m, x in p.t.items() if m))
        o = self.known.get(k)
        lo -= c
        hi -= c
        if o is not None:
            lo, hi = max(lo, o[0]), min(hi, o[1])
        self.known[k] = (lo, hi)
        p._r = None

    def range2(self, p):
        """Range of p, also using recorded ranges of p and -p."""
        lo, hi = self.range(p)
        if len(p.t) < 2 or not self.known:
            return lo, hi
        c = p.t.get((), 0)
        if p.e:
            if c & ((1 << p.e) - 1):
                return lo, hi
            c >>= p.e
        o = self.known.get((p.e, frozenset((m, x) for m, x in p.t.items() if m)))
        if o is not None:
            lo, hi = max(lo, o[0] + c), min(hi, o[1] + c)
        o = self.known.get((p.e, frozenset((m, -x) for m, x in p.t.items() if m)))
        if o is not None:
            lo, hi = max(lo, c - o[1]), min(hi, c - o[0])
        return lo, hi

    # -- multiplication (with fd reduction) --------------------------------
    def mul(self, p, q):
        if not p.t or not q.t:
            return ZERO
        if p.is_const() and p.e == 0:
            return pscale(q, p.const())
        if q.is_const() and q.e == 0:
            return pscale(p, q.const())
        t = {}
        bad = {}
        base = self.base
        for m1, c1 in p.t.items():
            for m2, c2 in q.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = tuple(sorted(m1 + m2))
                    coll = False
                    seen = set()
                    for a in m:
                        b = base[a]
                        if b is not None:
                            if b in seen:
                                coll = True
                                break
                            seen.add(b)
                    if coll:
                        bad[m] = bad.get(m, 0) + c1 * c2
                        continue
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    del t[m]
        r = Poly(t, p.e + q.e)
        for m, c in bad.items():
            if c:
                r = padd(r, Poly({k: v * c for k, v in self._reduce_mono(m).t.items()}, p.e + q.e))
        return r

    def _reduce_mono(self, m):
        key = ("rm", m)
        r = self.memo.get(key)
        if r is not None:
            return r
        groups = {}
        free = []
        for a in m:
            b = self.base[a]
            if b is None:
                free.append(a)
            else:
                groups.setdefault(b, []).append(a)
        r = Poly({tuple(free): 1})
        for b, atoms in groups.items():
            tab = []
            for k in self.dom[b]:
                v = 1
                for a in atoms:
                    v *= self.at(a, k)
                tab.append(v)
            f = self.table(b, tab)
            # multiply r and f: disjoint groups
            t = {}
            for m1, c1 in r.t.items():
                for m2, c2 in f.t.items():
                    mm = tuple(sorted(m1 + m2))
                    n = t.get(mm, 0) + c1 * c2
                    if n:
                        t[mm] = n
                    else:
                        del t[mm]
            r = Poly(t)
        self.memo[key] = r
        return r

    def at(self, a, k):
        """Value of fd/ind atom a when its base equals k."""
        if self.base[a] == a:
            return k
        return 1 if self.data[a][1] == k else 0

    # -- finite domain ------------------------------------------------------
    def table(self, b, tab):
        """Polynomial of the function base==dom[i] -> tab[i]."""
        dom = self.dom[b]
        if all(v == tab[0] for v in tab):
            return pconst(tab[0])
        k0, k1 = dom[0], dom[1]
        # affine through first two; slope must be integral or use indicators only
        d, m = tab[1] - tab[0], k1 - k0
        if d % m == 0:
            s = d // m
            c = tab[0] - s * k0
            r = padd(pscale(patom(b), s), pconst(c))
            for k, v in zip(dom[2:], tab[2:]):
                x = v - (s * k + c)
                if x:
                    r = padd(r, pscale(self.ind(b, k), x))
            return r
        raise Unsupported("table slope")

    def ind(self, b, k):
        dom = self.dom[b]
        if k not in dom:
            return ZERO
        if len(dom) == 1:
            return pconst(1)
        if len(dom) == 2:
            k0, k1 = dom
            if k1 - k0 == 1:
                return psub(patom(b), pconst(k0)) if k == k1 else psub(pconst(k1), patom(b))
        key = ("ind", b, k)
        i = self.memo.get(key)
        if i is None:
            i = self._new("ind", (b, k), 0, 1, dom=(0, 1), base=b)
            self.memo[key] = i
        return patom(i)

    def fd(self, p, dom):
        """Name polynomial p, whose values lie in dom, as a finite-domain atom."""
        key = ("fd", p.key())
        i = self.memo.get(key)
        if i is None:
            i = self._new("fd", p, dom[0], dom[-1], dom=tuple(dom))
            self.memo[key] = i
        return i

    def let(self, p, lo, hi, name=None):
        key = ("let", p.key())
        i = self.memo.get(key)
        if i is None:
            i = self._new("let", p, lo, hi, name)
            self.memo[key] = i
        return patom(i)

    def nm(self, p, lo, hi):
        """Name an integer-valued polynomial with a known range (expanded again in claims)."""
        key = ("nm", p.key())
        i = self.memo.get(key)
        if i is None:
            i = self._new("nm", p, lo, hi)
            self.memo[key] = i
        return patom(i)

    def bases(self, p):
        """Set of fd bases if p is a function of fd atoms only, else None."""
        s = set()
        for m in p.t:
            for a in m:
                b = self.base[a]
                if b is None:
                    return None
                s.add(b)
        return s

    def evalfd(self, p, env):
        """Evaluate p, a function of fd bases given in env."""
        v = 0
        for m, c in p.t.items():
            x = c
            for a in m:
                x *= self.at(a, env[self.base[a]])
                if not x:
                    break
            v += x
        if p.e:
            assert v & ((1 << p.e) - 1) == 0
            v >>= p.e
        return v

    # -- expansion of definitions ------------------------------------------
    def expand(self, p, kinds=("let", "fd")):
        """Substitute definitions of let/fd atoms (fd only where linear)."""
        memo = {}
        while True:
            hit = False
            r = ZERO
            keep = {}
            for m, c in p.t.items():
                done = False
                for idx, a in enumerate(m):
                    if self.kind[a] in kinds:
                        rest = Poly({m[:idx] + m[idx + 1:]: c}, p.e)
                        r = padd(r, self.mul(rest, self.data[a]))
                        done = hit = True
                        break
                if not done:
                    keep[m] = c
            p = padd(r, Poly(keep, p.e))
            if not hit:
                return p

    # -- floors and comparisons ---------------------------------------------
    def ge0(self, p, k=None):
        """0/1 polynomial of p >= 0 (p integer valued)."""
        lo, hi = self.range2(p)
        if lo >= 0:
            return pconst(1)
        if hi < 0:
            return ZERO
        # finite-domain arguments become tables
        bs = self.bases(p)
        if bs is not None and len(bs) == 1:
            b = next(iter(bs))
            return self.table(b, [1 if self.evalfd(p, {b: v}) >= 0 else 0 for v in self.dom[b]])
        t = p.t
        if p.e == 0:
            c0 = t.get((), 0)
            g = 0
            for m, c in t.items():
                if m:
                    g = _gcd(g, c)
                    if g == 1:
                        break
            if g > 1:
                tt = {m: c // g for m, c in t.items() if m}
                f = c0 // g
                if f:
                    tt[()] = f
                p = Poly(tt)
                t = tt
        # decided by a 0/1 quantity g: C*g + q with q < 0 <= C + q, or the other way round
        if p.e == 0 and len(t) <= 40:
            C = max((abs(c) for m, c in t.items() if m), default=0)
            if C > 1:
                g = Poly({m: c // C for m, c in t.items() if m and c % C == 0})
                gl, gh = self.range2(g)
                if gh - gl == 1 and -1 <= gl <= 0:
                    l, h = self.range2(Poly({m: c for m, c in t.items() if not m or c % C}))
                    if gl == 0 and h < 0 <= C + l:
                        return g
                    if gl == -1 and h - C < 0 <= l:
                        return padd(g, pconst(1))
        # sign normalisation: ge(-P) = 1 - ge(P - 1)
        lead = max(m for m in t if m)
        if t[lead] < 0:
            q = psub(pscale(p, -1), pconst(1))
            return psub(pconst(1), self._ge(q, k))
        return self._ge(p, k)

    def _ge(self, p, k):
        key = ("ge", p.key())
        i = self.memo.get(key)
        if i is None:
            lo, hi = self.range(p)
            if k is None:
                k = max(abs(lo), abs(hi) + 1).bit_length()
            i = self._new("ge", (p, k), 0, 1)
            self.memo[key] = i
        return patom(i)

    def eq0(self, p):
        lo, hi = self.range2(p)
        if lo > 0 or hi < 0:
            return ZERO
        if lo == 0:
            return psub(pconst(1), self.ge0(psub(p, pconst(1))))
        if hi == 0:
            return self.ge0(p)
        # parity / content argument
        if p.e == 0:
            g = 0
            for m, c in p.t.items():
                if m:
                    g = _gcd(g, c)
            if g > 1 and p.t.get((), 0) % g:
                return ZERO
        return psub(self.ge0(p), self.ge0(psub(p, pconst(1))))

    def floor(self, p, k, lo=None, hi=None):
        """Polynomial of floor(p / 2^k); [lo,hi] is a known range of p."""
        if k == 0:
            return p
        l, h = self.range(p)
        if lo is None or l > lo:
            lo = l
        if hi is None or h < hi:
            hi = h
        if lo >> k == hi >> k:
            return pconst(lo >> k)
        if lo >= -1 and hi <= 0:
            return p
        e = p.e
        if e == 0 and len(p.t) <= 2:
            x = [m for m in p.t if m]
            if len(x) == 1 and len(x[0]) == 1 and self.dom[x[0][0]] == (0, 1):
                # of an affine function of a bit
                c0 = p.t.get((), 0)
                v0, v1 = c0 >> k, (c0 + p.t[x[0]]) >> k
                return padd(pconst(v0), pscale(patom(x[0][0]), v1 - v0))
        if e == 0 and self.flatten and len(p.t) <= 400:
            # a bit that is a difference of carries, where writing it out cancels one of them
            for m in p.t:
                d = self.data[m[0]] if len(m) == 1 and self.kind[m[0]] == "fd" else None
                if isinstance(d, Poly) and d.e == 0 and len(d.t) <= 3 and all(abs(c) == 1 and (not x or len(x) == 1 and self.kind[x[0]] in ("floor", "ge")) for x, c in d.t.items()):
                    q = padd(p, pscale(psub(d, patom(m[0])), p.t[m]))
                    if len(q.t) < len(p.t):
                        return self.floor(q, k, lo, hi)
        ke = k + e
        M = (1 << ke) - 1
        A, B = {}, {}
        for m, c in p.t.items():
            if c & M == 0:
                A[m] = c >> ke
            elif not m:
                hi_c = c >> ke
                if hi_c:
                    A[m] = hi_c
                B[m] = c & M
            else:
                B[m] = c
        if A:
            A = Poly(A)
            B = Poly(B, e)
            bl, bh = self.range(B)
            if A.is_const():
                ac = A.const() << k
                bl = max(bl, lo - ac)
                bh = min(bh, hi - ac)
            return padd(A, self.floor(B, k, bl, bh))
        if e == 0:
            # drop low content: floor((2^j Q + c)/2^k) = floor((Q + floor(c/2^j))/2^(k-j))
            g = 0
            for m, c in p.t.items():
                if m:
                    g |= c
            j = (g & -g).bit_length() - 1
            if j > 0:
                tt = {m: c >> j for m, c in p.t.items()}
                if tt.get((), 1) == 0:
                    del tt[()]
                q = Poly(tt)
                if j >= k:
                    return pscale(q, 1 << (j - k))
                return self.floor(q, k - j, lo >> j, hi >> j)
        q = self._exact_let(p, k)
        if q is not None:
            return q
        if e == 0 and len(p.t) <= 6 and any(abs(c) > M for m, c in p.t.items() if m):
            # whole multiples taken out of large coefficients, where the rest is then decided
            A, B = {}, {}
            for m, c in p.t.items():
                h = c >> k if c > 0 or not m else -(-c >> k)
                if h:
                    A[m] = h
                if c - (h << k):
                    B[m] = c - (h << k)
            B = Poly(B)
            l, h = self.range2(B)
            if l >> k == h >> k:
                return padd(Poly(A), pconst(l >> k))
        if e == 0 and len(p.t) <= 8 and any(len(m) == 1 and self.kind[m[0]] == "fd" and isinstance(self.data[m[0]], Poly) for m in p.t):
            # divisible once the low bits are split off, or written out
            q = p
            for m in list(p.t):
                d = self.data[m[0]] if len(m) == 1 and self.kind[m[0]] == "fd" else None
                if isinstance(d, Poly) and d.e == 0:
                    for x, c in d.t.items():
                        if c == 1 and len(x) == 1 and x in q.t and self.kind[x[0]] == "input":
                            # x = m + x - d
                            q = padd(q, pscale(psub(patom(m[0]), d), q.t[x]))
                            break
            if q.e == 0 and all(c & M == 0 for c in q.t.values()):
                return Poly({m: c >> k for m, c in q.t.items()})
            q = self.expand(p, ("fd",))
            if q.e == 0 and all(c & M == 0 for c in q.t.values()):
                return Poly({m: c >> k for m, c in q.t.items()})
        # nested floors with coefficient one: floor((B + floor(Q/2^j))/2^k) = floor((2^j B + Q)/2^(j+k))
        best = None
        one = 1 << e
        for m, c in p.t.items():
            if c == one and len(m) == 1:
                a = m[0]
                if self.kind[a] == "floor" or self.kind[a] == "ge":
                    if best is None or a > best:
                        best = a
        if best is not None and self.flatten:
            a = best
            q, j = self.data[a]
            rest = dict(p.t)
            del rest[(a,)]
            if self.kind[a] == "ge":
                rest[()] = rest.get((), 0) + one
                if rest[()] == 0:
                    del rest[()]
            n = padd(pscale(Poly(rest, e), 1 << j), q)
            if self.kind[a] == "floor" and q.e == 0 and e == 0:
                # the remainder of Q can be left out; do so where it occurs already
                d = psub(q, pscale(patom(a), 1 << j))
                for m in rest:
                    if len(m) == 1 and self.kind[m[0]] == "fd" and isinstance(self.data[m[0]], Poly) and self.data[m[0]].key() == d.key():
                        n = psub(n, patom(m[0]))
                        break
            return self.floor(n, j + k, lo << j, ((hi + 1) << j) - 1)
        qlo, qhi = lo >> k, hi >> k
        if qhi - qlo == 1:
            s = qhi << k
            g = self.ge0(psub(p, pconst(s)), k)
            return padd(g, pconst(qlo))
        key = ("floor", p.key(), k)
        i = self.memo.get(key)
        if i is None:
            i = self._new("floor", (p, k), qlo, qhi)
            self.memo[key] = i
        else:
            self.lo[i] = max(self.lo[i], qlo)
            self.hi[i] = min(self.hi[i], qhi)
        return patom(i)

    # -- exact division through let definitions ------------------------------
    def _exact_let(self, p, k):
        """p / 2^k when p = alpha*m + beta*Q + 2^k*(..) with m = c*Q mod 2^j, j >= k,
        and alpha*c + beta = 0 mod 2^k (Montgomery reduction step)."""
        for m, c in p.t.items():
            if len(m) == 1 and m[0] in self.letmul:
                Q, mc, j = self.letmul[m[0]]
                if j < k or c & ((1 << p.e) - 1):
                    continue
                alpha = c >> p.e
                rest = dict(p.t)
                del rest[m]
                rest = Poly(rest, p.e)
                if not Q.t:
                    continue
                lead = min(Q.t, key=lambda x: ((Q.t[x] & -Q.t[x]), x))
                # beta with rest[lead] = beta * Q[lead]
                num = rest.t.get(lead, 0) << Q.e
                den = Q.t[lead] << rest.e
                if den == 0 or num % den:
                    continue
                beta = num // den
                if (alpha * mc + beta) & ((1 << k) - 1):
                    continue
                w = psub(rest, pscale(Q, beta))
                if w.e == 0 and all(x & ((1 << k) - 1) == 0 for x in w.t.values()):
                    return Poly(dict(p.t), p.e + k)
        return None


class Eval:
    """Concrete value of polynomials under an assignment of the input atoms."""

    def __init__(self, A, env):
        self.A = A
        self.v = dict(env)

    def atom(self, a):
        x = self.v.get(a)
        if x is not None:
            return x
        A = self.A
        # iterative: definitions only refer to older atoms
        k = A.kind[a]
        d = A.data[a]
        if k == "floor":
            x = self.num(d[0]) >> (d[1] + d[0].e)
        elif k == "ge":
            x = int(self.num(d[0]) >= 0)
        elif k in ("let", "nm", "fd") and isinstance(d, Poly):
            x = self.poly(d)
        elif k == "ind":
            x = int(self.atom(d[0]) == d[1])
        elif k in ("xor", "and", "or"):
            p, q = self.poly(d[0]), self.poly(d[1])
            x = p ^ q if k == "xor" else p & q if k == "and" else p | q
        elif callable(d):
            x = d(self)
        else:
            raise Unsupported("no value for atom %d (%s)" % (a, k))
        self.v[a] = x
        return x

    def num(self, p):
        """p * 2^e as an integer."""
        r = 0
        for m, c in p.t.items():
            for a in m:
                c *= self.v[a] if a in self.v else self.atom(a)
                if not c:
                    break
            r += c
        return r

    def poly(self, p):
        r = self.num(p)
        if p.e:
            if r & ((1 << p.e) - 1):
                raise Unsupported("non-integral value")
            r >>= p.e
        return r


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


class IV:
    """Symbolic machine integer: value = poly mod 2^w, poly in [lo,hi]."""
    __slots__ = ("p", "lo", "hi", "mulc", "parts")

    def __init__(self, p, lo, hi, mulc=None):
        self.p = p
        self.lo = lo
        self.hi = hi
        self.parts = None      # operands when built by an addition
        self.mulc = mulc       # (base poly) when p is a constant multiple of it

    def __repr__(self):
        return "IV(%d terms,[%d,%d])" % (len(self.p.t), self.lo, self.hi)
