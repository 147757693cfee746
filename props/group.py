"""C15, C16, C20, C23: scalar multiplication at the level of group elements."""
from curveob import *
from groups import *
from solve import num, run_smt
import curve
import os
import time

SPECIAL = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 0x77, 0x78, 0x88, 0xf8, 0xff, 1 << 31, 1 << 32, (1 << 32) - 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, 4 * L, 4 * L + 1,
           (1 << 446) - 1, 1 << 446, 1 << 447, (1 << 448) - 1, (1 << 448) - 2, (1 << 448) - 3, (1 << 448) - 4,
           int("8" * 112, 16), int("7" * 112, 16), int("f8" * 56, 16), int("87" * 56, 16), int("9" * 112, 16)] + [(1 << k) for k in range(3, 448, 31)] + [(8 << (4 * k)) for k in range(0, 112, 9)] + [(1 << k) - 1 for k in range(5, 448, 29)]
SPECIAL = [v % (1 << 448) for v in SPECIAL]


class BitWords(Words):
    """A scalar: fourteen 32-bit words given by their bits."""

    def __init__(self):
        Words.__init__(self, [v.to_bytes(56, "little") for v in SPECIAL])

    def make(self, m, ob, name, fixed=None):
        p = m.new(56, name)
        if fixed is not None:
            for i in range(14):
                m.write(p.o, 4 * i, 4, le(fixed[4 * i:4 * i + 4]))
            return p, {"val": pconst(le(fixed)), "bits": None}
        val, bits = ZERO, []
        for i in range(14):
            w = ZERO
            for j in range(32):
                b = m.A.input("%s_%d" % (name, 32 * i + j), 0, 1)
                bits.append(next(iter(b.t))[0])
                w = padd(w, pscale(b, 1 << j))
            m.write(p.o, 4 * i, 4, IV(w, 0, (1 << 32) - 1))
            val = padd(val, pscale(w, 1 << (32 * i)))
        return p, {"val": val, "bits": bits}

    def ienv(self, S, data):
        v = le(data)
        return {b: v >> i & 1 for i, b in enumerate(S["bits"] or [])}


def le(b):
    return int.from_bytes(b, "little")


SC = BitWords()


def always_congruent(m, d, N):
    """d = 0 mod N: linear consequence of the digit definitions, decided by the solver."""
    A = m.A
    d = m.apply_assign(d)
    q = m.apply_assign(A.expand(d, ("nm", "fd")))
    if not any(c % N for c in q.t.values()):
        names, defs, todo = {}, [], [mo for mo in d.t]

        def v(mo):
            if not mo:
                return "1"
            if mo not in names:
                names[mo] = "x%d" % len(names)
                if len(mo) == 1 and A.kind[mo[0]] in ("fd", "nm") and isinstance(A.data[mo[0]], Poly):
                    defs.append((mo, A.data[mo[0]]))
            return names[mo]

        def lin(p):
            return "(+ 0 %s)" % " ".join("(* %s %s)" % (num(c), v(k)) for k, c in p.t.items())
        goal = lin(d)
        out, i = [], 0
        while i < len(defs):
            mo, p = defs[i]
            i += 1
            if p.e == 0:
                out.append("(assert (= %s %s))" % (v(mo), lin(p)))
        quo = lin(Poly({k: c // N for k, c in q.t.items()}))
        txt = "(set-logic ALL)" + "".join("(declare-const %s Int)" % x for x in names.values()) + "".join(out)
        st, _ = run_smt(txt + "(assert (not (= %s (* %d %s))))(check-sat)" % (goal, N, quo), 60)
        return HOLDS if st == "unsat" else congruent(m, d, N)

    env = sampled(m, q, N)
    if env is not None:
        return Verdict("fails", env, "multiple")

    def build(enc):
        return ["(not %s)" % enc.eq(q)]
    if all(A.dom[a] is not None for k in q.t for a in k) and len(q.t) < 3000:
        st, mod = m.lia.query(build, m.path, model=True, timeout=30)
        if st == "unsat":
            return HOLDS
        if st == "sat":
            try:
                if Eval(A, {a: x for a, x in mod.items() if A.kind[a] == "input"}).poly(q) % N:
                    return Verdict("fails", mod, "multiple")
            except Unsupported:
                pass
            return Verdict("unknown", mod, "multiple")
    return congruent(m, d, N)


HUGE = 1 << 2000


class GroupOb(CurveOb):
    """Symbolic scalar bits, point tokens."""
    maxpaths = 64
    order = L

    def start(self, dec, fixed=None, **kw):
        m = GM(self.prog, self.backend, decisions=dec)
        m.fork_ok = True
        self.fixed = fixed
        p, S = {}, {}
        for n, k in self.ins:
            if isinstance(k, BitWords):
                p[n], S[n] = k.make(m, self, n, (fixed or {}).get(n))
            else:
                p[n], S[n] = self.base(m, n, k)
        return m, p, S

    def base(self, m, n, k):
        if isinstance(k, Raw):
            return k.make(m, self, n, (self.fixed or {}).get(n))
        t = m.token(k.rep, pconst(1))
        p = m.new(SIZE[k.rep], n)
        m.put(p, t)
        return p, {"tok": t}

    def verdict(self, m, ok):
        if isinstance(ok, Verdict):
            if ok.st == "fails" and ok.model:
                self.models.append(ok.model)
            return ok
        return CurveOb.verdict(self, m, ok)

    def solve(self, ctx, fixed=None, rep=None):
        self.models = []
        st = CurveOb.solve(self, ctx, fixed, rep)
        if rep is not None:
            u = {}
            for m, S, r in self.paths:
                u.update(m.pused)
            rep["contracts"] = rep.get("contracts", []) + sorted("%s = %s" % (k[0], k[2]) for k in u)
            if st[0] != "holds":
                rep["notes"] += PCON(self.prog, self.backend).notes[:4]
        return st

    # ---- concrete inputs on a path: the condition is solved for the point it is about, then the base is computed
    def realise(self, ctx, rng, rep, nat, cands):
        t0 = time.time()
        seen = set()
        try:
            for m, S, _, label in cands:
                zs = [f for f, d in m.facts if d and f[0] == "zero"]
                key = repr(m.facts) + repr(m.path)
                if not zs or key in seen or time.time() - t0 > .1 * self.budget:
                    continue
                seen.add(key)
                for vals in self.inputs_on(m, S, zs, rng):
                    rep["realised"] = rep.get("realised", 0) + 1
                    if self._try(nat, vals, rep, "input solved from the failing path for " + label):
                        return True
        except (Unsupported, Inconclusive, ValueError, ZeroDivisionError, KeyError) as e:
            if os.environ.get("VERIF_TRACE"):
                raise
            rep["notes"].append("realise: %s %s" % (type(e).__name__, e))
        return CurveOb.realise(self, ctx, rng, rep, nat, cands)

    def inputs_on(self, m, S, zs, rng):
        R = m.R
        own = {}
        for t in m.toks:
            for k, v in t.fv.items():
                own[R.fac[v.f[0][0]][1]] = (t, k)
        for f in zs:
            kind, x = R.fac[f[1]]
            atoms = {x} if kind == "atom" else {a for mo in x for a, _ in mo}
            if not atoms or any(a not in own for a in atoms):
                continue
            t = own[next(iter(atoms))][0]
            if any(own[a][0] is not t for a in atoms):
                continue
            poly = {((x, 1),): 1} if kind == "atom" else x
            names = {a: own[a][1] for a in atoms}
            for q in self.token_points(t, poly, names, rng):
                for k in range(4):
                    vals = self.base_from(m, S, t, q, rng)
                    if vals is not None:
                        yield vals

    def token_points(self, t, poly, names, rng):
        """Points of the token's curve on which the polynomial in its coordinates vanishes (Z = 1)."""
        from realise import Ext, interpolate, roots

        def at(c):
            r = next((v.r for v in c.values() if isinstance(v, Ext)), 0)
            ta = Ext(0, 0, r)
            for mo, k in poly.items():
                w = Ext(k % P, 0, r)
                for a, e in mo:
                    v = c[names[a]]
                    for _ in range(e):
                        w = w.mul(v if isinstance(v, Ext) else Ext(v, 0, r))
                ta = Ext((ta.a + w.a) % P, (ta.b + w.b) % P, r)
            return ta
        if t.rep == "mp":
            f = interpolate(lambda u: at({"U": u, "W": 1}).a)
            return roots(f, rng) if f and len(f) > 1 else []
        cv = D[CURVE[t.rep]]

        def coords(x, y, r=0):
            def E(a, b=0):
                return Ext(a % P, b % P, r)
            xy = E(x.a * y, x.b * y)
            c = {"X": x, "Y": E(y), "Z": E(1), "T": xy, "T1": x, "T2": E(y), "x": x, "y": E(y),
                 "Y_plus_X": E(y + x.a, x.b), "Y_minus_X": E(y - x.a, -x.b), "Td": E(cv[1] * xy.a, cv[1] * xy.b)}
            if t.rep == "pn":
                c["Td"] = E(2 * cv[1] * xy.a, 2 * cv[1] * xy.b)
                c["Z"] = E(2)
            return c
        K = max(sum(e for _, e in mo) for mo in poly)

        def ev(y):
            den = (cv[0] - cv[1] * y * y) % P
            if not den:
                return None
            r = (1 - y * y) * ref.inv(den) % P
            v = at(coords(Ext(0, 1, r), y, r))
            return (v.a * v.a - v.r * v.b * v.b) * pow(den, K, P) % P
        f = interpolate(ev)
        out = []
        for y in roots(f, rng) if f and len(f) > 1 else []:
            for sg in (0, 1):
                p = ref.lift(cv, y, sg)
                if p is not None and at(coords(Ext(p[0], 0, 0), y)).a == 0:
                    out.append(p)
        return out

    def base_from(self, m, S, t, q, rng):
        """Inputs for which the token is the point q."""
        vals = self.sample(rng)
        ie = {}
        if "s" in vals:
            if rng.random() < .7:
                vals["s"] = rng.choice(SC.special) if rng.random() < .5 else rng.getrandbits(448).to_bytes(56, "little")
            ie = SC.ienv(S["s"], vals["s"])
        n = Eval(m.A, ie).poly(t.n) % L
        if not n:
            return None
        if t.rep == "mp":
            u = ref.ladder(q, pow(n, -1, L))
            if "u" not in vals:
                return None
            vals["u"] = u.to_bytes(56, "little")
            return vals
        side = CURVE[t.rep]
        bk = dict(self.ins).get("P")
        if bk is None:
            return None
        if side == "tw" and bk.curve == "ed":
            if ref.mul(D["tw"], L, q) != (0, 1):
                return None
            q = ref.mul(D["ed"], pow(4, -1, L), ref.psi(q))
        elif side != bk.curve:
            return None
        if n != 1:
            if ref.mul(D[bk.curve], L, q) != (0, 1):
                return None
            q = ref.mul(D[bk.curve], pow(n, -1, L), q)
        vals["P"] = bk.build(self, q, rng.choice([1, rng.randrange(1, P)]), None)
        return vals

    def scalars_from_models(self):
        out = []
        if not self.paths:
            return out
        for m, S, r in self.paths[:1]:
            bits = S["s"]["bits"]
            if not bits:
                continue
            for mod in self.models[:20]:
                v = sum(mod.get(b, 0) << i for i, b in enumerate(bits))
                out.append(v.to_bytes(56, "little"))
        return out

    def corpus(self, rng):
        out = []
        pts = [(n, k) for n, k in self.ins if not isinstance(k, BitWords)]
        for s in self.scalars_from_models() + SC.special:
            out.append({**{n: k.bytes(self, rng) for n, k in pts}, "s": s})
        return out

    def fallbacks(self, rng):
        out = [{"s": v.to_bytes(56, "little")} for v in (0, 1, 2, 3, 4, 7, 8, 15, 16, (1 << 448) - 1, L, L - 1, rng.getrandbits(448), rng.getrandbits(448))]
        return out


class ScalarMul(GroupOb):
    """h(out, P, s) = (coefficient of s) * P."""

    def __init__(self, be, name, fn, rep, expect=None):
        self.name, self.fn, self.rep = name, fn, rep
        self.k = Point(rep, rep)
        self.ins = [("P", self.k), ("s", SC)]
        self.expect = expect or (lambda m, s: s)
        self.refexpect = expect
        self.order = 4 * L if rep == "ed" else L
        CurveOb.__init__(self, be)

    bound = "every point of the group, every 448-bit scalar"
    weight = 5

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def call(self, m, p, S):
        o = m.new(256, "out")
        m.call(self.f, [o, p["P"], p["s"]])
        return m.read_point(o, self.rep)

    def law(self, m, S, n):
        d = psub(n, self.expect(m, S["s"]["val"]))
        yield "result is s times the point", always_congruent(m, d, self.order)

    def native_observe(self, nat, vals):
        return [self.k.affine(self, nat.call(self.fn, bytes(256), vals["P"], vals["s"])[1][0])]

    def predict(self, m, S, n, ev, iev):
        k = iev(n)
        return [ref.mul(D[self.rep], k % self.order, self.cur)]

    def validate(self, ctx, rng, rep, nat):
        """Predicted multiple against the native result."""
        hits = 0
        for i in range(6):
            vals = self.sample(rng) if i < 4 else rng.choice(self.corpus(rng))
            if self._try(nat, vals, rep, "validation input"):
                return
            pt = self.k.affine(self, vals["P"])
            for m, S, n in self.paths:
                try:
                    e = Eval(m.A, SC.ienv(S["s"], vals["s"]))
                    k = e.poly(n)
                except Unsupported:
                    continue
                if ref.mul(D[self.rep], k % (4 * L), pt) != self.native_observe(nat, vals)[0]:
                    rep["status"] = "undecided"
                    rep["notes"].append("translator mismatch for %r" % {a: v.hex() for a, v in vals.items()})
                    return
                hits += 1
        rep["validated"] = hits

    outrep = outcurve = "ed"

    def check(self, nat, vals):
        self.outrep = self.outcurve = self.rep
        o = nat.call(self.fn, bytes(256), vals["P"], vals["s"])[1][0]
        s = le(vals["s"])
        if self.refexpect is not None:
            s = self.refexpect(None, s)
        want = ref.mul(D[self.rep], s, self.k.affine(self, vals["P"]))
        msg = curve.PointOp.judge(self, self.k, o, want)
        if msg:
            return "%s(P=%s, s=%s): %s" % (self.name, vals["P"].hex(), vals["s"].hex(), msg)


def mod4(m, s):
    if m is None:
        return s & 3
    t = {k: c for k, c in s.t.items() if abs(c) < 4}
    return Poly(t)


EDFORMS = ["scalar_mul", "mul_rr", "mul_vr", "mul_rv", "mul_vv", "lmul_rr", "lmul_vr", "lmul_rv", "lmul_vv", "mula_r", "mula_v"]


def c15(be):
    return [ScalarMul(be, "Ed448 " + n, "h_ed_" + n, "ed") for n in EDFORMS] + \
           [ScalarMul(be, "Ed448 scalar_mod_four", "h_ed_scalar_mod_four", "ed", mod4)]


class DecafMul(ScalarMul):
    """Results are compared as Decaf elements."""

    def __init__(self, be, name, fn):
        ScalarMul.__init__(self, be, name, fn, "tw")
        self.k = curve.DEP
        self.ins = [("P", self.k), ("s", SC)]

    def check(self, nat, vals):
        o = nat.call(self.fn, bytes(256), vals["P"], vals["s"])[1][0]
        v = self.k.split(self, o)
        if v["Z"] % P == 0 or (v["X"] * v["Y"] - v["Z"] * v["T"]) % P:
            return "%s(P=%s, s=%s): coordinates are inconsistent" % (self.name, vals["P"].hex(), vals["s"].hex())
        x, y = self.k.affine(self, o)
        X, Y = ref.mul(D["tw"], le(vals["s"]), self.k.affine(self, vals["P"]))
        if (x * Y - y * X) % P:
            return "%s(P=%s, s=%s) is not s*P: (%x, %x)" % (self.name, vals["P"].hex(), vals["s"].hex(), x, y)


def c16(be):
    return [DecafMul(be, "Decaf " + n, "h_de_" + n) for n in ("mul_rr", "mul_vv", "lmul_rr", "lmul_vv")]


# ------------------------------------------------------------------ Curve448
USPEC = [v.to_bytes(56, "little") for v in (0, 1, 2, 3, 4, 5, 6, 9, P - 2, P - 1, P, P + 1, P + 2, P + 5, (1 << 448) - 1, (1 << 448) - 2, 1 << 447, 1 << 224, (1 << 224) - 1, (1 << 255) - 19)]


class Ladder(GroupOb):
    bound = "every 56-byte u-coordinate not 0 mod p, every 448-bit scalar"
    weight = 5

    def __init__(self, be, name, fn, zero=None):
        self.name, self.fn, self.zero_base = name, fn, None if zero is None else zero.to_bytes(56, "little")
        self.ins = [("u", Raw(56, USPEC)), ("s", SC)]
        if zero is not None:
            self.bound = "the u-coordinate 0 (bytes of 0 or p), every 448-bit scalar"
        CurveOb.__init__(self, be)

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def start(self, dec, fixed=None, **kw):
        fixed = dict(fixed or {})
        if self.zero_base is not None:
            fixed["u"] = self.zero_base
        m, p, S = GroupOb.start(self, dec, fixed)
        S["v"] = Num(m.R, m.raw_fe(m.bytes_poly(p["u"], 56)))
        m.base_u = S["v"].v
        if m.base_u.f:
            curve.nz(m, S["v"])
        return m, p, S

    def call(self, m, p, S):
        o = m.new(56, "out")
        m.call(self.f, [o, p["u"], p["s"]])
        return curve.feval(m, o)

    def law(self, m, S, u):
        if u is None:
            yield "output is a canonical encoding", None
            return
        u = u.v
        if not m.base_u.f and not m.base_u.c:
            yield "0 for the point of order 2 and its multiples", FV(0) if not u.c else u
            return
        s = S["s"]["val"]
        if not u.c:
            n = None
            for fact, d in m.facts:
                if fact[0] == "zero" and d:
                    n = m.close_w(FV(1, ((fact[1], 1),)))
                    if n is not None:
                        break
            label = "0 only when s P is at infinity"
        else:
            n = m.close_quotient(u)
            label = "u-coordinate of s P"
        if n is None:
            raise Unsupported("result is not the u-coordinate of a recognised point")
        a = always_congruent(m, psub(n, s), HUGE)
        if a.st != "holds":
            b = always_congruent(m, padd(n, s), HUGE)
            a = b if b.st == "holds" else a
        yield label, a

    def native_observe(self, nat, vals):
        return [le(nat.call(self.fn, bytes(56), vals["u"], vals["s"])[1][0])]

    def validate(self, ctx, rng, rep, nat):
        for i in range(6):
            vals = self.sample(rng) if i < 3 else rng.choice(self.corpus(rng))
            if self._try(nat, vals, rep, "validation input"):
                return
            rep["validated"] += 1

    def sample(self, rng):
        v = GroupOb.sample(self, rng)
        if self.zero_base is not None:
            v["u"] = self.zero_base
        return v

    def corpus(self, rng):
        us = [self.zero_base] if self.zero_base is not None else USPEC
        out = [{"u": rng.choice(us), "s": s} for s in self.scalars_from_models()]
        return out + [{"u": u, "s": rng.choice(SC.special)} for u in us for _ in range(4)] + \
            [{"u": self.zero_base or (5).to_bytes(56, "little"), "s": s} for s in SC.special]

    def check(self, nat, vals):
        g = self.native_observe(nat, vals)[0]
        w = ref.ladder(le(vals["u"]), le(vals["s"]))
        if g != w:
            return "%s * %s = %x, expected %x" % (vals["u"].hex(), vals["s"].hex(), g, w)


def c20(be):
    return [x for n in ("mul", "lmul") for x in (Ladder(be, "Montgomery " + n, "h_mo_" + n), Ladder(be, "Montgomery %s, u = 0" % n, "h_mo_" + n, 0), Ladder(be, "Montgomery %s, u = p" % n, "h_mo_" + n, P))]


# ------------------------------------------------------------------ torsion
class Torsion(GroupOb):
    name = "torsion-free test"
    fn = "h_ed_torsion_free"
    bound = "every curve point"

    def __init__(self, be):
        self.ins = [("P", EDP)]
        CurveOb.__init__(self, be)

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def call(self, m, p, S):
        return m.choice(m.uns(m.call(self.f, [p["P"]]), 8))

    def law(self, m, S, r):
        w = m.identity_fact()
        yield "true exactly when l P is the identity", None if w is None else bool(r) == bool(w)

    def native_observe(self, nat, vals):
        return [nat.call(self.fn, vals["P"])[0] & 255]

    def corpus(self, rng):
        out = []
        for i in range(12):
            b = ref.mul(D["ed"], 4, ref.rand_point(D["ed"], rng)) if i else (0, 1)
            for t in ref.LOW[D["ed"]]:
                out.append({"P": EDP.build(self, ref.add(D["ed"], b, t), rng.randrange(1, P) if i & 1 else 1)})
        return out

    def fallbacks(self, rng):
        return []

    def validate(self, ctx, rng, rep, nat):
        for vals in self.corpus(rng):
            if self._try(nat, vals, rep, "validation input"):
                return
            rep["validated"] += 1

    def check(self, nat, vals):
        g = self.native_observe(nat, vals)[0]
        w = int(ref.mul(D["ed"], L, EDP.affine(self, vals["P"])) == (0, 1))
        if g != w:
            return "is_torsion_free(%s) = %d, expected %d" % (vals["P"].hex(), g, w)


def c23(be):
    return [Torsion(be)]


# ------------------------------------------------------------------ operator forms
class Form(GroupOb):
    """A linear operation on independent points, taken as formal sums."""
    bound = "all curve points, every projective scaling"

    def __init__(self, be, name, fn, k, coef, array=False):
        self.name, self.fn, self.k, self.coef, self.array = name, fn, k, coef, array
        self.ins = [("P%d" % i, k) for i in range(len(coef))]
        CurveOb.__init__(self, be)

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def start(self, dec, fixed=None, **kw):
        m = GM(self.prog, self.backend, decisions=dec)
        m.fork_ok = True
        p, S = [], {}
        want = ZERO
        if self.array:
            p = [m.new(256 * len(self.coef), "points")]
        for i, c in enumerate(self.coef):
            x = m.A.input("k%d" % i, 0, 1 << 500)
            want = padd(want, pscale(x, c))
            q = Ptr(p[0].o, 256 * i) if self.array else m.new(256, "P%d" % i)
            m.put(q, m.token(self.k.rep, x))
            if not self.array:
                p.append(q)
        return m, p, {"want": want}

    def call(self, m, p, S):
        o = m.new(256, "out")
        m.call(self.f, [o] + p)
        return m.read_point(o, self.k.rep)

    def law(self, m, S, n):
        d = psub(n, S["want"])
        names = sorted({a for k in list(n.t) + list(S["want"].t) for a in k})
        if any(len(k) != 1 for k in d.t):
            yield "linear", None
            return
        yield "the expected combination of the operands", always_eq(m, d)

    def solve(self, ctx, fixed=None, rep=None):
        if fixed:
            raise Unsupported("no reduced form")
        return GroupOb.solve(self, ctx, None, rep)

    def scalars_from_models(self):
        return []

    def fallbacks(self, rng):
        return []

    def args(self, vals):
        a = [vals[n] for n, _ in self.ins]
        return [b"".join(a)] if self.array else a

    def native_observe(self, nat, vals):
        return nat.call(self.fn, bytes(256), *self.args(vals))[1][0]

    corpus = CurveOb.corpus

    def validate(self, ctx, rng, rep, nat):
        todo = [self.sample(rng) for _ in range(4)] + rng.sample(self.corpus(rng), 3) if self.ins else [{}]
        for vals in todo:
            if self._try(nat, vals, rep, "validation input"):
                return
            rep["validated"] += 1

    def corpus(self, rng):
        n = len(self.ins)
        if n <= 2:
            return CurveOb.corpus(self, rng)
        out = []
        for _ in range(40):
            pts = self.k.points(rng, 3)
            out.append({nm: self.k.build(self, rng.choice(pts), rng.randrange(1, P)) for nm, _ in self.ins})
        return out

    def check(self, nat, vals):
        o = self.native_observe(nat, vals)
        c = D[self.k.curve]
        w = (0, 1)
        for (nm, _), k in zip(self.ins, self.coef):
            q = self.k.affine(self, vals[nm])
            w = ref.add(c, w, q if k > 0 else ref.neg(q))
        v = self.k.split(self, o)
        if v["Z"] % P == 0 or (v["X"] * v["Y"] - v["Z"] * v["T"]) % P:
            return "%s(%s): inconsistent coordinates" % (self.name, ", ".join(x.hex() for x in vals.values()))
        g = self.k.affine(self, o)
        same = g == w if self.k.curve == "ed" else (g[0] * w[1] - g[1] * w[0]) % P == 0
        if not same:
            return "%s(%s) = (%x, %x), expected (%x, %x)" % ((self.name, ", ".join(x.hex() for x in vals.values())) + tuple(g) + tuple(w))


def c26(be):
    o = []
    for f in ("add_rr", "add_vr", "add_rv", "add_vv", "adda_r", "adda_v"):
        o.append(Form(be, "Ed448 " + f, "h_ed_" + f, EDP, (1, 1)))
    for f in ("sub_rr", "sub_vr", "sub_rv", "sub_vv", "suba_r", "suba_v"):
        o.append(Form(be, "Ed448 " + f, "h_ed_" + f, EDP, (1, -1)))
    for f in ("neg_r", "neg_v"):
        o.append(Form(be, "Ed448 " + f, "h_ed_" + f, EDP, (-1,)))
        o.append(Form(be, "Decaf " + f, "h_de_" + f, curve.DEP, (-1,)))
    for n in range(7):
        for f in "rv":
            o.append(Form(be, "Ed448 sum of %d (%s)" % (n, f), "h_ed_sum%d_%s" % (n, f), EDP, (1,) * n, True))
    for f in ("add_rr", "add_vv"):
        o.append(Form(be, "Decaf " + f, "h_de_" + f, curve.DEP, (1, 1)))
    for f in ("sub", "sub_rr", "sub_vv"):
        o.append(Form(be, "Decaf " + f, "h_de_" + f, curve.DEP, (1, -1)))
    return o + c15(be) + c16(be) + c20(be)
