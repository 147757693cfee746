"""C09-C14, C17-C19, C21, C22: curve code over abstract field elements."""
from curveob import *
import re


def named(prog, pat):
    """Functions whose demangled name matches."""
    r = re.compile(pat)
    return sorted((f for f in prog.funcs.values() if r.search(f.pretty)), key=lambda f: f.pretty)


def rdpoint(m, ob, p, rep):
    out = {}
    for k, o in layout.fields(ob.prog, rep).items():
        v = m.read_fe(Ptr(p.o, p.off + o))
        if v is None:
            raise Unsupported("result coordinate %s is not a field element" % k)
        out[k] = Num(m.R, v)
    return out


def nz(m, n):
    m.R.nzpolys.append(n.poly())


def want_add(curve, p, q, s=1):
    """Numerators and denominators of the affine law."""
    a, d = D[curve]
    a, d = sym(a), sym(d)
    x1, y1, x2, y2 = p["x"], p["y"], q["x"] * s, q["y"]
    k = x1 * x2 * y1 * y2 * d
    return x1 * y2 + y1 * x2, k + 1, y1 * y2 - x1 * x2 * a, 1 - k


class PointOp(CurveOb):
    """An operation returning a point, decided against numerators/denominators of the affine law."""
    outrep = "ed"
    outcurve = "ed"

    def __init__(self, be, name, fn, ins, spec, refspec, out=("ed", "ed"), pair=True, argorder=None, weight=1):
        self.name, self.fn, self.ins, self.spec, self.refspec = name, fn, ins, spec, refspec
        self.outrep, self.outcurve = out
        self.pair = pair
        self.argorder = argorder
        self.weight = weight
        CurveOb.__init__(self, be)

    def resolve(self):
        if self.fn.startswith("h_"):
            self.f = self.prog.funcs.get(self.fn)
        else:
            fs = named(self.prog, self.fn)
            self.f = fs[0] if fs else None

    def applicable(self):
        return self.f is not None

    def relations(self, m, S):
        pts = [(n, k) for n, k in self.ins if isinstance(k, Point)]
        if self.pair and len(pts) == 2:
            a, b = S[pts[0][0]], S[pts[1][0]]
            k = a["x"] * b["x"] * a["y"] * b["y"] * sym(D[pts[0][1].curve][1])
            if not any(m.R.fac[f][0] == "atom" for f, _ in k.v.f):
                return
            nz(m, k + 1)
            nz(m, 1 - k)

    def call(self, m, p, S):
        o = m.new(64 * len(layout.DEFAULT[self.outrep][2]), "out")
        args = [p[n] for n, k in self.ins]
        m.call(self.f, [o] + args)
        return rdpoint(m, self, o, self.outrep)

    def law(self, m, S, r):
        xn, xd, yn, yd = self.spec(*[S[n] for n, k in self.ins])
        rep = self.outrep
        yield "law denominators non-zero", self.unit(m, xd) and self.unit(m, yd)
        if rep in ("ed", "tw", "ens"):
            yield "Z is non-zero", self.unit(m, r["Z"])
            yield "x follows the affine law", r["X"] * xd - xn * r["Z"]
            yield "y follows the affine law", r["Y"] * yd - yn * r["Z"]
            t = r["T"] if rep != "ens" else r["T1"] * r["T2"]
            yield "T*Z = X*Y", t * r["Z"] - r["X"] * r["Y"]
        elif rep == "pn":
            yield "Z is non-zero", self.unit(m, r["Z"])
            yield "x follows the affine law", (r["Y_plus_X"] - r["Y_minus_X"]) * xd - xn * r["Z"]
            yield "y follows the affine law", (r["Y_plus_X"] + r["Y_minus_X"]) * yd - yn * r["Z"]
            d = sym(D[self.outcurve][1])
            yield "Td = d x y Z", r["Td"] * xd * yd - xn * yn * r["Z"] * d
        else:
            yield "x follows the affine law", r["x"] * xd - xn
            yield "y follows the affine law", r["y"] * yd - yn

    def outsize(self):
        return 64 * len(layout.DEFAULT[self.outrep][2])

    def valid(self, vals):
        pts = [(n, k) for n, k in self.ins if isinstance(k, Point)]
        for n, k in pts:
            if not ref.on(D[k.curve], k.affine(self, vals[n])):
                return False
        if len(pts) == 2 and pts[0][1].curve == pts[1][1].curve:
            a, b = (k.affine(self, vals[n]) for n, k in pts)
            return not ref.exceptional(D[pts[0][1].curve], a, b)
        return True

    def native_observe(self, nat, vals):
        r, bufs = nat.call(self.f.name, bytes(self.outsize()), *[vals[n] for n, k in self.ins])
        k = Point(self.outrep, self.outcurve)
        v = k.split(self, bufs[0])
        return [v[x] for x in sorted(v)]

    def predict(self, m, S, res, ev, iev):
        return [ev.fv(res[k].v) for k in sorted(layout.fields(self.prog, self.outrep))]

    def args_affine(self, vals):
        return [k.affine(self, vals[n]) if isinstance(k, Point) else vals[n] for n, k in self.ins]

    def check(self, nat, vals):
        r, bufs = nat.call(self.f.name, bytes(self.outsize()), *[vals[n] for n, k in self.ins])
        k = Point(self.outrep, self.outcurve)
        want = self.refspec(*self.args_affine(vals))
        msg = self.judge(k, bufs[0], want)
        if msg:
            return "%s(%s): %s" % (self.name, ", ".join("%s=%s" % (n, vals[n].hex()) for n, _ in self.ins), msg)

    def judge(self, k, data, want):
        v = k.split(self, data)
        z = v.get("Z", 1)
        if z == 0:
            return "Z = 0"
        got = k.affine(self, data)
        if got != tuple(x % P for x in want):
            return "got (%x, %x), expected (%x, %x)" % (got + tuple(want))
        if self.outrep in ("ed", "tw", "ens"):
            t = v["T"] if self.outrep != "ens" else v["T1"] * v["T2"] % P
            if (t * z - v["X"] * v["Y"]) % P:
                return "T*Z != X*Y"
        if self.outrep == "pn" and (v["Td"] - D[self.outcurve][1] * got[0] * got[1] * z) % P:
            return "Td inconsistent"


def id4(S):
    one = S["x"] * 0 + 1
    return S["x"], one, S["y"], one


def edpair(be, name, fn, s=1):
    return PointOp(be, name, fn, [("P", EDP), ("Q", EDP)], lambda p, q: want_add("ed", p, q, s),
                   lambda p, q: ref.add(ref.ED, p, q if s == 1 else ref.neg(q)))


def edone(be, name, fn, spec, rs):
    return PointOp(be, name, fn, [("P", EDP)], spec, rs, pair=False)


def neg4(S):
    one = S["x"] * 0 + 1
    return -S["x"], one, S["y"], one


def c11(be):
    dbl = lambda p: want_add("ed", p, p)
    return [edpair(be, "Ed448 add", "h_ed_add"), edpair(be, "Ed448 subtract", "h_ed_sub_rr", -1),
            edone(be, "Ed448 double", "h_ed_double", dbl, lambda p: ref.add(ref.ED, p, p)),
            edone(be, "Ed448 negate", "h_ed_negate", neg4, ref.neg),
            edone(be, "Ed448 torque", "h_ed_torque", lambda S: (-S["x"], S["x"] * 0 + 1, -S["y"], S["x"] * 0 + 1),
                  lambda p: (-p[0] % P, -p[1] % P))]


# ------------------------------------------------------------------ predicates
class BoolOp(CurveOb):
    """An operation returning a truth value; want(m, *symbols) decides the expected one on the path."""

    def __init__(self, be, name, fn, ins, want, refwant, pair=False, valid=None):
        self.name, self.fn, self.ins, self.want, self.refwant = name, fn, ins, want, refwant
        self.pair = pair
        self._valid = valid
        CurveOb.__init__(self, be)

    def resolve(self):
        self.f = self.prog.funcs.get(self.fn)

    relations = PointOp.relations
    args_affine = PointOp.args_affine

    def call(self, m, p, S):
        return m.choice(m.uns(m.call(self.f, [p[n] for n, k in self.ins]), 8))

    def law(self, m, S, bit):
        w = self.want(m, *[S[n] for n, k in self.ins])
        if w is None:
            yield "decided", None
        else:
            yield "true exactly when expected (here %d)" % int(w), bool(bit) == bool(w)

    def valid(self, vals):
        for n, k in self.ins:
            if isinstance(k, Point) and not ref.on(D[k.curve], k.affine(self, vals[n])):
                return False
        return self._valid is None or self._valid(*self.args_affine(vals))

    def native_observe(self, nat, vals):
        return [nat.call(self.f.name, *[vals[n] for n, k in self.ins])[0] & 255]

    def predict(self, m, S, res, ev, iev):
        return [res]

    def check(self, nat, vals):
        g = self.native_observe(nat, vals)[0]
        w = int(self.refwant(*self.args_affine(vals)))
        if g != w:
            return "%s(%s) = %d, expected %d" % (self.name, ", ".join(vals[n].hex() for n, _ in self.ins), g, w)


def both_equal(m, p, q):
    dx, dy = p["x"] - q["x"], p["y"] - q["y"]
    a = m.iszero(dx.v)
    return a and m.iszero(dy.v)


class SelectOp(CurveOb):
    ins = [("P", EDP), ("Q", EDP), ("c", Bit())]
    name = "Ed448 conditional select"

    def resolve(self):
        self.f = self.prog.funcs["h_ed_select"]

    def call(self, m, p, S):
        o = m.new(256, "out")
        m.call(self.f, [o, p["P"], p["Q"], p["c"]])
        c = S["c"]["val"]
        c = m.choice(IV(c, 0, 1) if not c.is_const() else c.const())
        return rdpoint(m, self, o, "ed"), c

    def law(self, m, S, r):
        r, c = r
        w = S["Q"] if c else S["P"]
        yield "Z non-zero", self.unit(m, r["Z"])
        yield "x of the chosen point", r["X"] - w["x"] * r["Z"]
        yield "y of the chosen point", r["Y"] - w["y"] * r["Z"]
        yield "T*Z = X*Y", r["T"] * r["Z"] - r["X"] * r["Y"]

    def native_observe(self, nat, vals):
        v = EDP.split(self, nat.call("h_ed_select", bytes(256), vals["P"], vals["Q"], vals["c"])[1][0])
        return [v[k] for k in "TXYZ"]

    def predict(self, m, S, res, ev, iev):
        return [ev.fv(res[0][k].v) for k in "TXYZ"]

    outrep = outcurve = "ed"
    judge = PointOp.judge

    def check(self, nat, vals):
        o = nat.call("h_ed_select", bytes(256), vals["P"], vals["Q"], vals["c"])[1][0]
        w = vals["Q"] if vals["c"][0] else vals["P"]
        return self.judge(EDP, o, EDP.affine(self, w))


class ConstPoint(CurveOb):
    """A parameterless constructor of a point."""

    def __init__(self, be, name, fn, curve, want):
        self.name, self.fn, self.curve, self.wantpt = name, fn, curve, want
        self.outrep = self.outcurve = curve
        CurveOb.__init__(self, be)

    bound = "no inputs"
    ins = ()
    judge = PointOp.judge

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def call(self, m, p, S):
        o = m.new(256, "out")
        m.call(self.f, [o])
        return rdpoint(m, self, o, self.curve)

    def law(self, m, S, r):
        x, y = self.wantpt
        a, d = D[self.curve]
        yield "Z non-zero", self.unit(m, r["Z"])
        yield "x", r["X"] - r["Z"] * x
        yield "y", r["Y"] - r["Z"] * y
        yield "T*Z = X*Y", r["T"] * r["Z"] - r["X"] * r["Y"]
        yield "on the curve", r["X"] ** 2 * a + r["Y"] ** 2 - r["Z"] ** 2 - r["T"] ** 2 * d

    def fallbacks(self, rng):
        return []

    def native_observe(self, nat, vals):
        v = Point(self.curve, self.curve).split(self, nat.call(self.fn, bytes(256))[1][0])
        return [v[k] for k in "TXYZ"]

    def predict(self, m, S, res, ev, iev):
        return [ev.fv(res[k].v) for k in "TXYZ"]

    def check(self, nat, vals):
        o = nat.call(self.fn, bytes(256))[1][0]
        msg = self.judge(Point(self.curve, self.curve), o, self.wantpt)
        return msg and "%s: %s" % (self.name, msg)


class Neutral(PointOp):
    """P + identity() and identity() + P."""

    def __init__(self, be, flip):
        PointOp.__init__(self, be, "Ed448 identity is neutral" + (" (left)" if flip else ""), "h_ed_add", [("P", EDP)], id4, lambda p: p, pair=False)
        self.flip = flip

    def call(self, m, p, S):
        e, o = m.new(256, "id"), m.new(256, "out")
        m.call(self.prog.funcs["h_ed_identity"], [e])
        m.call(self.f, [o, e, p["P"]] if self.flip else [o, p["P"], e])
        return rdpoint(m, self, o, "ed")

    def native_observe(self, nat, vals):
        v = EDP.split(self, self.out(nat, vals))
        return [v[k] for k in "TXYZ"]

    def out(self, nat, vals):
        e = nat.call("h_ed_identity", bytes(256))[1][0]
        return nat.call("h_ed_add", bytes(256), *([e, vals["P"]] if self.flip else [vals["P"], e]))[1][0]

    def check(self, nat, vals):
        msg = self.judge(EDP, self.out(nat, vals), EDP.affine(self, vals["P"]))
        return msg and "P=%s: %s" % (vals["P"].hex(), msg)


def c12(be):
    eq = lambda p, q: p == q
    two = [("P", EDP), ("Q", EDP)]
    return [BoolOp(be, "Ed448 ==", "h_ed_eq", two, both_equal, eq), BoolOp(be, "Ed448 ct_eq", "h_ed_cteq", two, both_equal, eq),
            SelectOp(be), edone(be, "Ed448 affine round trip", "h_ed_affine_roundtrip", id4, lambda p: p),
            ConstPoint(be, "Ed448 identity", "h_ed_identity", "ed", (0, 1)), ConstPoint(be, "Ed448 default", "h_ed_default", "ed", (0, 1)),
            Neutral(be, 0), Neutral(be, 1)]


# ------------------------------------------------------------------ field powers
class FieldFn(CurveOb):
    bound = "every field element, zero included, every representation"

    def __init__(self, be):
        CurveOb.__init__(self, be)

    def resolve(self):
        fs = [f for f in limbs.functions(self.prog).get(self.role, [])]
        self.f = fs[0] if fs else None

    def applicable(self):
        return self.f is not None


class InvertOb(FieldFn):
    role = "invert"
    name = "field inversion"
    ins = [("a", FEK)]

    def call(self, m, p, S):
        o = m.new(64, "out")
        m.call(self.f, [o, p["a"]])
        v = m.read_fe(o)
        if v is None:
            raise Unsupported("result is not a field element")
        return Num(m.R, v)

    def law(self, m, S, r):
        a = S["a"]["v"]
        if m.iszero(a.v):
            yield "inverse of zero is zero", r
        else:
            yield "a * inverse = 1", a * r - 1

    def native_observe(self, nat, vals):
        return [limbs.value_of(self.backend, nat.call(self.f.name, bytes(64), vals["a"])[1][0]) % P]

    def predict(self, m, S, r, ev, iev):
        return [ev.fv(r.v)]

    def check(self, nat, vals):
        a = FEK.split(self, vals["a"])["v"]
        g = self.native_observe(nat, vals)[0]
        if g != ref.inv(a):
            return "invert(%x) = %x" % (a, g)


def rdpair(m, o):
    """(field element, Choice) returned by value."""
    v = m.read_fe(o)
    if v is None:
        raise Unsupported("result is not a field element")
    return Num(m.R, v), m.choice(m.uns(m.read(o.o, 64, 1), 8))


def chi_is(m, n, s=1):
    """The quadratic character of a non-zero value equals s; forks."""
    R = m.R
    c, fs = n.v.c, []
    if pow(c, (P - 1) // 2, P) != 1:
        s = -s
    out = FV(1)
    for f, e in n.v.f:
        if e & 1:
            out = R.mul(out, FV(1, ((R.chi(f), 1),)))
    out = R.norm(out.c, dict(out.f))
    d = R.sub(out, FV(s))
    if not d.c:
        return True
    return bool(m.iszero_split(d))


class IsqrtOb(FieldFn):
    role = "isqrt"
    name = "inverse square root"
    ins = [("a", FEK)]

    def call(self, m, p, S):
        o = m.new(sret(self.f), "out")
        m.call(self.f, [o, p["a"]])
        return rdpair(m, o)

    def law(self, m, S, r):
        r, ok = r
        a = S["a"]["v"]
        if m.iszero(a.v):
            yield "no inverse square root of zero", not ok
            return
        sq = chi_is(m, a)
        yield "success exactly for squares", bool(ok) == sq
        if sq:
            yield "r*r*a = 1", r * r * a - 1

    def native_observe(self, nat, vals):
        o = nat.call(self.f.name, bytes(sret(self.f)), *[vals[n] for n, _ in self.ins])[1][0]
        return [limbs.value_of(self.backend, o[:64]) % P, o[64]]

    def predict(self, m, S, r, ev, iev):
        return [ev.fv(r[0].v), r[1]]

    def check(self, nat, vals):
        a = FEK.split(self, vals["a"])["v"]
        r, ok = self.native_observe(nat, vals)
        want = int(a != 0 and ref.is_sq(a))
        if ok != want or want and r * r * a % P != 1:
            return "inverse_square_root(%x) = (%x, %d)" % (a, r, ok)


class SqrtRatioOb(IsqrtOb):
    role = "sqrt_ratio"
    name = "square root of a ratio"
    bound = "every u, every non-zero v"
    ins = [("u", FEK), ("v", FEK)]

    def relations(self, m, S):
        for f, _ in S["v"]["v"].v.f:
            m.R.units.add(f)

    def call(self, m, p, S):
        o = m.new(sret(self.f), "out")
        m.call(self.f, [o, p["u"], p["v"]])
        return rdpair(m, o)

    def law(self, m, S, r):
        r, ok = r
        u, v = S["u"]["v"], S["v"]["v"]
        if m.iszero(u.v):
            yield "zero is a square", bool(ok)
            yield "its root is zero", r
            return
        sq = chi_is(m, u * v)
        yield "success exactly for squares", bool(ok) == sq
        if sq:
            yield "r*r*v = u", r * r * v - u

    def valid(self, vals):
        return FEK.split(self, vals["v"])["v"] != 0

    def check(self, nat, vals):
        u, v = (FEK.split(self, vals[k])["v"] for k in "uv")
        if not v:
            return None
        r, ok = self.native_observe(nat, vals)
        want = int(ref.is_sq(u * v % P))
        if ok != want or want and (r * r * v - u) % P:
            return "sqrt_ratio(%x, %x) = (%x, %d)" % (u, v, r, ok)


def c09(be):
    return [InvertOb(be), IsqrtOb(be), SqrtRatioOb(be)]


# ------------------------------------------------------------------ twisted curve
SIZES = {"tw": 256, "ens": 320, "pn": 256, "an": 192, "aff": 128, "eaff": 128, "ed": 256, "mp": 128}
TYPES = {"tw": r"twedwards::\w+::ExtendedPoint", "ens": r"twedwards::\w+::ExtensiblePoint", "pn": r"twedwards::\w+::ProjectiveNielsPoint",
         "an": r"twedwards::\w+::AffineNielsPoint", "aff": r"twedwards::\w+::AffinePoint", "ed": r"edwards::\w+::ExtendedPoint"}


def method(prog, spec):
    """'ens.double' or 'pn.Trait.method' -> function, or None."""
    if spec.startswith("h_"):
        return prog.funcs.get(spec)
    t, _, r = spec.partition(".")
    tr, _, me = r.rpartition(".")
    pat = r"^<ed448_goldilocks::curve::%s%s>::%s$" % (TYPES[t], r" as [\w:]*\b%s" % tr if tr else "", me)
    fs = named(prog, pat)
    return fs[0] if fs else None


class SymRun:
    def __init__(self, ob, m):
        self.ob, self.m = ob, m

    def out(self, spec, rep, *a):
        o = self.m.new(SIZES[rep], rep)
        self.m.call(method(self.ob.prog, spec), [o] + [x.v if isinstance(x, Byte) else x for x in a])
        return o

    def void(self, spec, *a):
        self.m.call(method(self.ob.prog, spec), [x.v if isinstance(x, Byte) else x for x in a])

    def bit(self, spec, *a):
        return self.m.choice(self.m.uns(self.m.call(method(self.ob.prog, spec), [x.v if isinstance(x, Byte) else x for x in a]), 8))

    def byte(self, p):
        return Byte(self.m.read(p.o, p.off, 1))


class Byte:
    def __init__(self, v):
        self.v = v


class NatRun:
    """The same steps against the native build; handles are one-element lists of bytes."""

    def __init__(self, ob, nat):
        self.ob, self.nat = ob, nat

    def args(self, a):
        return [x.v if isinstance(x, Byte) else x[0] for x in a]

    def back(self, a, bufs):
        k = 0
        for x in a:
            if not isinstance(x, Byte):
                x[0] = bufs[k]
                k += 1

    def out(self, spec, rep, *a):
        o = [bytes(SIZES[rep])]
        a = [o] + list(a)
        r, bufs = self.nat.call(method(self.ob.prog, spec).name, *self.args(a))
        self.back(a, bufs)
        return o

    def void(self, spec, *a):
        r, bufs = self.nat.call(method(self.ob.prog, spec).name, *self.args(a))
        self.back(a, bufs)

    def bit(self, spec, *a):
        return self.nat.call(method(self.ob.prog, spec).name, *self.args(a))[0] & 255

    def byte(self, p):
        return Byte(p[0][0])


class Chain(PointOp):
    """A chain of internal calls ending in a point; 'need' lists the functions it calls."""

    def __init__(self, be, name, need, ins, steps, spec, refspec, out=("tw", "tw"), pair=True, weight=1):
        PointOp.__init__(self, be, name, None, ins, spec, refspec, out, pair, weight=weight)
        self.need, self.steps = need, steps

    def resolve(self):
        fs = [method(self.prog, n) for n in self.need]
        self.f = fs[0] if fs and all(fs) else None

    def call(self, m, p, S):
        r = SymRun(self, m)
        o = self.steps(r, *[r.byte(p[n]) if isinstance(k, Bit) else p[n] for n, k in self.ins])
        for n, k in self.ins:
            if isinstance(k, Bit):
                c = S[n]["val"]
                S[n]["bit"] = m.choice(IV(c, 0, 1) if not c.is_const() else c.const())
        return rdpoint(m, self, o, self.outrep)

    def raw(self, nat, vals):
        r = NatRun(self, nat)
        return self.steps(r, *[Byte(vals[n][0]) if isinstance(k, Bit) else [vals[n]] for n, k in self.ins])[0]

    def native_observe(self, nat, vals):
        v = Point(self.outrep, self.outcurve).split(self, self.raw(nat, vals))
        return [v[x] for x in sorted(v)]

    def check(self, nat, vals):
        want = self.refspec(*self.args_affine(vals))
        msg = self.judge(Point(self.outrep, self.outcurve), self.raw(nat, vals), want)
        if msg:
            return "%s(%s): %s" % (self.name, ", ".join("%s=%s" % (n, vals[n].hex()) for n, _ in self.ins), msg)


class BoolChain(BoolOp):
    def __init__(self, be, name, need, ins, steps, want, refwant, pair=False, valid=None):
        BoolOp.__init__(self, be, name, None, ins, want, refwant, pair, valid)
        self.need, self.steps = need, steps

    resolve = Chain.resolve
    applicable = PointOp.applicable

    def call(self, m, p, S):
        return self.steps(SymRun(self, m), *[p[n] for n, k in self.ins])

    def native_observe(self, nat, vals):
        return [self.steps(NatRun(self, nat), *[[vals[n]] for n, k in self.ins])]


ENS = Point("ens", "tw")
AFF = Point("aff", "tw")


def c13(be):
    add = lambda p, q: want_add("tw", p, q)
    sub = lambda p, q: want_add("tw", p, q, -1)
    dbl = lambda p: want_add("tw", p, p)
    radd = lambda p, q: ref.add(ref.TW, p, q)
    rsub = lambda p, q: ref.add(ref.TW, p, ref.neg(q))
    rdbl = lambda p: ref.add(ref.TW, p, p)
    one = [("P", TWP)]
    two = [("P", TWP), ("Q", TWP)]
    eone = [("P", ENS)]
    pc = [("P", TWP), ("c", Bit())]
    sel = [("P", TWP), ("Q", TWP), ("c", Bit())]
    o = []

    def ch(name, need, ins, steps, spec, rs, **k):
        o.append(Chain(be, name, need, ins, steps, spec, rs, **k))
    rid = lambda p: p
    # extended
    ch("twisted add", ["tw.add"], two, lambda r, p, q: r.out("tw.add", "tw", p, q), add, radd)
    ch("twisted double", ["tw.double"], one, lambda r, p: r.out("tw.double", "tw", p), dbl, rdbl, pair=False)
    ch("twisted negate", ["tw.negate"], one, lambda r, p: r.out("tw.negate", "tw", p), neg4, ref.neg, pair=False)
    ch("twisted torque", ["tw.torque"], one, lambda r, p: r.out("tw.torque", "tw", p),
       lambda S: (-S["x"], S["x"] * 0 + 1, -S["y"], S["x"] * 0 + 1), lambda p: (-p[0] % P, -p[1] % P), pair=False)
    ch("twisted to affine", ["tw.to_affine"], one, lambda r, p: r.out("tw.to_affine", "aff", p), id4, rid, out=("aff", "tw"), pair=False)
    ch("twisted to extensible and back", ["tw.to_extensible", "ens.to_extended"], one,
       lambda r, p: r.out("ens.to_extended", "tw", r.out("tw.to_extensible", "ens", p)), id4, rid, pair=False)
    ch("twisted select", ["tw.ConditionallySelectable.conditional_select"], sel,
       lambda r, p, q, c: r.out("tw.ConditionallySelectable.conditional_select", "tw", p, q, c),
       lambda p, q, c: id4(q if c["bit"] else p), lambda p, q, c: q if c[0] else p, pair=False)
    # extensible
    ch("extensible double", ["ens.double", "ens.to_extended"], eone, lambda r, p: r.out("ens.to_extended", "tw", r.out("ens.double", "ens", p)), dbl, rdbl, pair=False)
    ch("extensible to extended", ["ens.to_extended"], eone, lambda r, p: r.out("ens.to_extended", "tw", p), id4, rid, pair=False)
    ab = [("P", ENS), ("Q", TWP)]
    for me, sp, rs in (("add_extended", add, radd), ("sub_extended", sub, rsub)):
        ch("extensible " + me, ["ens." + me, "ens.to_extended"], ab,
           lambda r, p, q, me=me: r.out("ens.to_extended", "tw", r.out("ens." + me, "ens", p, q)), sp, rs)
    ch("extensible add_extensible", ["ens.add_extensible", "ens.to_extended"], [("P", ENS), ("Q", ENS)],
       lambda r, p, q: r.out("ens.to_extended", "tw", r.out("ens.add_extensible", "ens", p, q)), add, radd)
    # projective Niels
    pn = "ens.to_projective_niels"
    ch("add_projective_niels", ["ens.add_projective_niels", "ens.to_extended", pn], [("P", ENS), ("Q", ENS)],
       lambda r, p, q: r.out("ens.to_extended", "tw", r.out("ens.add_projective_niels", "ens", p, r.out(pn, "pn", q))), add, radd)
    cn = "pn.ConditionallyNegatable.conditional_negate"

    def negadd(r, p, q, c):
        n = r.out(pn, "pn", q)
        r.void(cn, n, c)
        return r.out("ens.to_extended", "tw", r.out("ens.add_projective_niels", "ens", p, n))
    ch("add conditionally negated Niels point", ["ens.add_projective_niels", "ens.to_extended", pn, cn], [("P", ENS), ("Q", ENS), ("c", Bit())], negadd,
       lambda p, q, c: want_add("tw", p, q, -1 if c["bit"] else 1), lambda p, q, c: radd(p, ref.neg(q) if c[0] else q))

    def negext(r, p, c):
        n = r.out(pn, "pn", p)
        r.void(cn, n, c)
        return r.out("pn.to_extended", "tw", n)
    ch("Niels conditional negate to extended", [pn, cn, "pn.to_extended"], [("P", ENS), ("c", Bit())], negext,
       lambda p, c: neg4(p) if c["bit"] else id4(p), lambda p, c: ref.neg(p) if c[0] else p, pair=False)
    ps = "pn.ConditionallySelectable.conditional_select"
    ch("Niels select", [pn, ps, "pn.to_extended"], [("P", ENS), ("Q", ENS), ("c", Bit())],
       lambda r, p, q, c: r.out("pn.to_extended", "tw", r.out(ps, "pn", r.out(pn, "pn", p), r.out(pn, "pn", q), c)),
       lambda p, q, c: id4(q if c["bit"] else p), lambda p, q, c: q if c[0] else p, pair=False)
    ch("Niels identity is neutral", ["pn.identity", "ens.add_projective_niels", "ens.to_extended"], eone,
       lambda r, p: r.out("ens.to_extended", "tw", r.out("ens.add_projective_niels", "ens", p, r.out("pn.identity", "pn"))), id4, rid, pair=False)
    ch("extensible identity is neutral", ["ens.identity", "ens.add_extended", "ens.to_extended"], one,
       lambda r, p: r.out("ens.to_extended", "tw", r.out("ens.add_extended", "ens", r.out("ens.identity", "ens"), p)), id4, rid, pair=False)
    ch("twisted identity is neutral", ["tw.identity", "tw.add"], one,
       lambda r, p: r.out("tw.add", "tw", p, r.out("tw.identity", "tw")), id4, rid, pair=False)
    # affine
    aone = [("P", AFF)]
    ch("affine add", ["aff.add"], [("P", AFF), ("Q", AFF)], lambda r, p, q: r.out("aff.add", "aff", p, q), add, radd, out=("aff", "tw"))
    ch("affine negate", ["aff.negate"], aone, lambda r, p: r.out("aff.negate", "aff", p), neg4, ref.neg, out=("aff", "tw"), pair=False)
    ch("affine to extended", ["aff.to_extended"], aone, lambda r, p: r.out("aff.to_extended", "tw", p), id4, rid, pair=False)
    ch("affine to extensible", ["aff.to_extensible", "ens.to_extended"], aone,
       lambda r, p: r.out("ens.to_extended", "tw", r.out("aff.to_extensible", "ens", p)), id4, rid, pair=False)
    ch("affine identity is neutral", ["aff.identity", "aff.add"], aone, lambda r, p: r.out("aff.add", "aff", p, r.out("aff.identity", "aff")), id4, rid,
       out=("aff", "tw"), pair=False)
    # affine Niels
    an = "aff.to_affine_niels"
    ch("add_affine_niels", [an, "ens.add_affine_niels", "ens.to_extended"], [("P", ENS), ("Q", AFF)],
       lambda r, p, q: r.out("ens.to_extended", "tw", r.out("ens.add_affine_niels", "ens", p, r.out(an, "an", q))), add, radd)
    ch("affine Niels to extended", [an, "an.to_extended"], aone, lambda r, p: r.out("an.to_extended", "tw", r.out(an, "an", p)), id4, rid, pair=False)
    ch("affine Niels identity is neutral", ["an.identity", "ens.add_affine_niels", "ens.to_extended"], eone,
       lambda r, p: r.out("ens.to_extended", "tw", r.out("ens.add_affine_niels", "ens", p, r.out("an.identity", "an"))), id4, rid, pair=False)
    ans = "an.ConditionallySelectable.conditional_select"
    ch("affine Niels select", [an, ans, "an.to_extended"], [("P", AFF), ("Q", AFF), ("c", Bit())],
       lambda r, p, q, c: r.out("an.to_extended", "tw", r.out(ans, "an", r.out(an, "an", p), r.out(an, "an", q), c)),
       lambda p, q, c: id4(q if c["bit"] else p), lambda p, q, c: q if c[0] else p, pair=False)
    # equality
    eq = lambda p, q: p == q
    for t, k, nm in (("tw", TWP, "twisted"), ("ens", ENS, "extensible")):
        i2 = [("P", k), ("Q", k)]
        o.append(BoolChain(be, nm + " ct_eq", [t + ".ConstantTimeEq.ct_eq"], i2, lambda r, p, q, t=t: r.bit(t + ".ConstantTimeEq.ct_eq", p, q), both_equal, eq))
        o.append(BoolChain(be, nm + " ==", [t + ".PartialEq.eq"], i2, lambda r, p, q, t=t: r.bit(t + ".PartialEq.eq", p, q), both_equal, eq))
    o.append(BoolChain(be, "Niels ==", ["pn.PartialEq.eq", pn], [("P", ENS), ("Q", ENS)],
                       lambda r, p, q: r.bit("pn.PartialEq.eq", r.out(pn, "pn", p), r.out(pn, "pn", q)), both_equal, eq))
    for t, k, nm in (("tw", TWP, "extended"), ("aff", AFF, "affine")):
        o.append(BoolChain(be, nm + " is_on_curve accepts curve points", [t + ".is_on_curve"], [("P", k)], lambda r, p, t=t: r.bit(t + ".is_on_curve", p),
                           lambda m, p: True, lambda p: True))
    # Decaf
    for nm, fn, sp, rs in (("Decaf add", "h_de_add_rr", add, radd), ("Decaf subtract", "h_de_sub_rr", sub, rsub), ("Decaf sub method", "h_de_sub", sub, rsub)):
        o.append(PointOp(be, nm, fn, two, sp, rs, out=("tw", "tw")))
    o.append(PointOp(be, "Decaf negate", "h_de_neg_r", one, neg4, ref.neg, out=("tw", "tw"), pair=False))
    o.append(ConstPoint(be, "Decaf identity", "h_de_identity", "tw", (0, 1)))
    return o


# ------------------------------------------------------------------ isogenies
class Iso(Chain):
    """One of the isogenies; the denominators vanish only at points of order 8 or at infinity, which the group does not contain."""

    def __init__(self, be, src):
        dst = "tw" if src == "ed" else "ed"
        s = 1 if src == "ed" else -1
        fn = "ed.to_twisted" if src == "ed" else "tw.to_untwisted"
        self.s = s
        spec = lambda S: self.formula(S)
        Chain.__init__(self, be, "isogeny %s -> %s" % (("Ed448", "twisted") if src == "ed" else ("twisted", "Ed448")), [fn],
                       [("P", EDP if src == "ed" else TWP)], lambda r, p: r.out(fn, dst, p), spec, lambda p: ref.iso(s, p), out=(dst, dst), pair=False)

    def formula(self, S):
        x, y = S["x"], S["y"]
        return 2 * x * y, y ** 2 - x ** 2 * self.s, y ** 2 + x ** 2 * self.s, 2 - y ** 2 - x ** 2 * self.s

    def relations(self, m, S):
        _, a, _, b = self.formula(S["P"])
        nz(m, a)
        nz(m, b)

    def law(self, m, S, r):
        yield from PointOp.law(self, m, S, r)
        a, d = D[self.outcurve]
        yield "on the target curve", r["X"] ** 2 * sym(a) + r["Y"] ** 2 - r["Z"] ** 2 - r["T"] ** 2 * sym(d)


def quad(curve, S):
    """4P as numerators and denominators."""
    xn, xd, yn, yd = want_add(curve, S, S)
    return xn, xd, yn, yd


class RoundTrip(Chain):
    def __init__(self, be, src):
        s = 1 if src == "ed" else -1
        self.s, self.src = s, src
        a, b = ("ed.to_twisted", "tw.to_untwisted") if src == "ed" else ("tw.to_untwisted", "ed.to_twisted")
        dst = "tw" if src == "ed" else "ed"
        Chain.__init__(self, be, "isogeny round trip from %s is 4P" % ("Ed448" if src == "ed" else "twisted"), [a, b],
                       [("P", EDP if src == "ed" else TWP)], lambda r, p: r.out(b, src, r.out(a, dst, p)), self.quad,
                       lambda p: ref.mul(D[src], 4, p), out=(src, src), pair=False, weight=3)

    def formula(self, x, y, s):
        return 2 * x * y, y ** 2 - x ** 2 * s, y ** 2 + x ** 2 * s, 2 - y ** 2 - x ** 2 * s

    def quad(self, S):
        # doubling with denominators y^2 + a x^2 and 2 - y^2 - a x^2 (equal to 1 + d x^2 y^2, 1 - d x^2 y^2 on the curve)
        x, y, a = S["x"], S["y"], self.s
        A, B, C, Dn = 2 * x * y, y ** 2 + x ** 2 * a, y ** 2 - x ** 2 * a, 2 - y ** 2 - x ** 2 * a
        # (A/B, C/Dn) doubled again
        N1, N2 = A * Dn, C * B          # over B*Dn
        q = N2 ** 2 + N1 ** 2 * a
        r = 2 * (B * Dn) ** 2 - q
        return 2 * N1 * N2, q, N2 ** 2 - N1 ** 2 * a, r

    def relations(self, m, S):
        x, y, s = S["P"]["x"], S["P"]["y"], self.s
        n1, d1, n2, d2 = self.formula(x, y, s)
        nz(m, d1)
        nz(m, d2)
        nz(m, y ** 2 + x ** 2 * s)
        # denominators of the second map and of the second doubling
        u, v = n1 * d2, n2 * d1
        nz(m, v ** 2 + u ** 2 * s)
        nz(m, 2 * (d1 * d2) ** 2 - v ** 2 + u ** 2 * s)
        _, q, _, r = self.quad(S["P"])
        nz(m, q)
        nz(m, r)


def c14(be):
    return [Iso(be, "ed"), Iso(be, "tw"), RoundTrip(be, "ed"), RoundTrip(be, "tw")]


# ------------------------------------------------------------------ encodings
def feval(m, p):
    """Field value whose canonical encoding the 56 bytes at p are, or None."""
    k, q = m.read_bytes56(p)
    if k == "cb":
        return Num(m.R, q)
    if q.is_const():
        return Num(m.R, FV(q.const())) if q.const() < P else None
    return None


def le(b):
    return int.from_bytes(b, "little")


class EdCompress(CurveOb):
    name = "Ed448 compress"
    ins = [("P", EDP)]
    fn = "h_ed_compress"

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def call(self, m, p, S):
        o = m.new(57, "out")
        m.call(self.f, [o, p["P"]])
        last = m.read(o.o, 56, 1)
        if isinstance(last, IV):
            last = m.settle(last.p)
            last = last.const() if last.is_const() else None
        return feval(m, o), last

    def law(self, m, S, r):
        v, last = r
        yield "first 56 bytes are the canonical y", (v - S["P"]["y"]) if v is not None else None
        s = m.sign(S["P"]["x"].v)
        yield "last byte holds the sign of x", None if last is None else last == s << 7

    def native_observe(self, nat, vals):
        o = nat.call(self.fn, bytes(57), vals["P"])[1][0]
        return [le(o[:56]), o[56]]

    def predict(self, m, S, r, ev, iev):
        return [ev.fv(r[0].v), r[1]]

    def check(self, nat, vals):
        x, y = EDP.affine(self, vals["P"])
        g = self.native_observe(nat, vals)
        if g != [y, (x & 1) << 7]:
            return "compress(x=%x, y=%x) = (%x, %02x)" % (x, y, g[0], g[1])


YSPEC = [0, 1, P - 1, P, P + 1, P + 2, 2, (1 << 448) - 1, P - 2, 39081]


class EdDecompress(CurveOb):
    name = "Ed448 decompress"
    bound = "every 57-byte string"
    ins = [("e", Raw(57, [v.to_bytes(56, "little") + bytes([t]) for v in YSPEC for t in (0, 128, 1, 255)]))]
    fn = "h_ed_decompress"

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def start(self, dec, fixed=None, **kw):
        m, p, S = CurveOb.start(self, dec, fixed, **kw)
        y = Num(m.R, m.raw_fe(m.bytes_poly(p["e"], 56)))
        S["y"] = y
        nz(m, 1 + 39081 * y ** 2)       # d is not a square
        return m, p, S

    def call(self, m, p, S):
        o = m.new(256, "out")
        ok = m.choice(m.uns(m.call(self.f, [o, p["e"]]), 8))
        t = m.bin("lshr", 8, m.uns(m.read(p["e"].o, p["e"].off + 56, 1), 8), 7)
        return ok, rdpoint(m, self, o, "ed") if ok else None, m.choice(t)

    def law(self, m, S, r):
        ok, q, top = r
        y = S["y"]
        u, v = 1 - y ** 2, 1 + 39081 * y ** 2
        if m.iszero(u.v):
            exists = True
        else:
            exists = chi_is(m, u * v)
        yield "accepted exactly when y lies on the curve", bool(ok) == exists
        if not ok:
            return
        yield "Z non-zero", self.unit(m, q["Z"])
        yield "y is the encoded one", q["Y"] - y * q["Z"]
        yield "T*Z = X*Y", q["T"] * q["Z"] - q["X"] * q["Y"]
        yield "on the curve", q["X"] ** 2 + q["Y"] ** 2 - q["Z"] ** 2 + 39081 * q["T"] ** 2
        x = q["X"] * q["Z"].inv()
        if not m.iszero(x.v):
            yield "sign of x is the encoded one", m.sign(x.v) == top

    def native_observe(self, nat, vals):
        r, b = nat.call(self.fn, bytes(256), vals["e"])
        if not r & 255:
            return [0]
        v = EDP.split(self, b[0])
        return [1] + [v[k] for k in "TXYZ"]

    def predict(self, m, S, r, ev, iev):
        return [1] + [ev.fv(r[1][k].v) for k in "TXYZ"] if r[0] else [0]

    def sample(self, rng):
        if rng.random() < .6:
            x, y = ref.rand_point(ref.ED, rng)
            return {"e": y.to_bytes(56, "little") + bytes([(x & 1) << 7])}
        return CurveOb.sample(self, rng)

    def check(self, nat, vals):
        e = vals["e"]
        y = le(e[:56]) % P
        x2 = (1 - y * y) * ref.inv(1 + 39081 * y * y) % P
        r, b = nat.call(self.fn, bytes(256), e)
        if bool(r & 255) != ref.is_sq(x2):
            return "decompress(%s) %s" % (e.hex(), "accepted" if r & 255 else "rejected")
        if not r & 255:
            return None
        v = EDP.split(self, b[0])
        if not v["Z"] or (v["T"] * v["Z"] - v["X"] * v["Y"]) % P:
            return "decompress(%s): inconsistent coordinates" % e.hex()
        gx, gy = EDP.affine(self, b[0])
        if gy != y or (gx * gx - x2) % P or gx and gx & 1 != e[56] >> 7:
            return "decompress(%s) = (%x, %x)" % (e.hex(), gx, gy)


class EdRoundTrip(CurveOb):
    """decompress(compress(P)) = P."""
    name = "Ed448 compress then decompress"
    ins = [("P", EDP)]

    def resolve(self):
        self.c, self.f = self.prog.funcs["h_ed_compress"], self.prog.funcs["h_ed_decompress"]

    def call(self, m, p, S):
        b, o = m.new(57, "bytes"), m.new(256, "out")
        m.call(self.c, [b, p["P"]])
        ok = m.choice(m.uns(m.call(self.f, [o, b]), 8))
        return ok, rdpoint(m, self, o, "ed") if ok else None

    def law(self, m, S, r):
        ok, q = r
        yield "accepted", bool(ok)
        if ok:
            x, y = S["P"]["x"], S["P"]["y"]
            yield "Z non-zero", self.unit(m, q["Z"])
            yield "same x", q["X"] - x * q["Z"]
            yield "same y", q["Y"] - y * q["Z"]
            yield "T*Z = X*Y", q["T"] * q["Z"] - q["X"] * q["Y"]

    def relations(self, m, S):
        x, y = S["P"]["x"], S["P"]["y"]
        v = 1 + 39081 * y ** 2
        nz(m, v)
        u = 1 - y ** 2
        if u.v.f and v.v.f and x.v.f:
            m.R.product([u.v], (x ** 2 * v).v)      # the curve equation

    def native_observe(self, nat, vals):
        b = nat.call("h_ed_compress", bytes(57), vals["P"])[1][0]
        r, o = nat.call("h_ed_decompress", bytes(256), b)
        return [r & 255, o[0]]

    def check(self, nat, vals):
        ok, o = self.native_observe(nat, vals)
        if not ok:
            return "compress(%s) does not decompress" % vals["P"].hex()
        if EDP.affine(self, o) != EDP.affine(self, vals["P"]):
            return "compress(%s) decompresses to another point" % vals["P"].hex()


def c17(be):
    return [EdCompress(be), EdDecompress(be), EdRoundTrip(be)]


# ------------------------------------------------------------------ Montgomery
USPEC = [v.to_bytes(56, "little") for v in (0, 1, 2, 5, P - 2, P - 1, P, P + 1, P + 2, (1 << 448) - 1, (1 << 448) - 2, 1 << 224, (1 << 224) - 1, (1 << 224) + 1, 256, 1 << 440)]


class LowOrder(CurveOb):
    name = "low-order detection"
    bound = "every 56-byte string"
    ins = [("u", Raw(56, USPEC))]
    fn = "h_mo_low_order"

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def start(self, dec, fixed=None, **kw):
        m, p, S = CurveOb.start(self, dec, fixed, **kw)
        S["v"] = Num(m.R, m.raw_fe(m.bytes_poly(p["u"], 56)))
        return m, p, S

    def call(self, m, p, S):
        return m.choice(m.uns(m.call(self.f, [p["u"]]), 8))

    def law(self, m, S, r):
        u = S["v"]
        w = m.iszero(u.v) or m.iszero((u - 1).v) or m.iszero((u + 1).v)
        yield "true exactly for 0, 1, -1 (here %d)" % w, bool(r) == bool(w)

    def native_observe(self, nat, vals):
        return [nat.call(self.fn, vals["u"])[0] & 255]

    def predict(self, m, S, r, ev, iev):
        return [r]

    def check(self, nat, vals):
        g = self.native_observe(nat, vals)[0]
        if g != int(le(vals["u"]) % P in (0, 1, P - 1)):
            return "is_low_order(%s) = %d" % (vals["u"].hex(), g)


def c22(be):
    return [LowOrder(be)]


class ToMontgomery(CurveOb):
    name = "Ed448 to Montgomery"
    ins = [("P", EDP)]
    fn = "h_ed_to_montgomery"

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def relations(self, m, S):
        nz(m, 1 + 39081 * S["P"]["y"] ** 2)

    def call(self, m, p, S):
        o = m.new(56, "out")
        m.call(self.f, [o, p["P"]])
        return feval(m, o)

    def law(self, m, S, u):
        if u is None:
            yield "output is a canonical encoding", None
            return
        x, y = S["P"]["x"], S["P"]["y"]
        if m.iszero(x.v):
            yield "0 when x = 0", u
        else:
            yield "u x^2 = y^2", u * x ** 2 - y ** 2

    def native_observe(self, nat, vals):
        return [le(nat.call(self.fn, bytes(56), vals["P"])[1][0])]

    def predict(self, m, S, r, ev, iev):
        return [ev.fv(r.v)]

    def check(self, nat, vals):
        x, y = EDP.affine(self, vals["P"])
        g = self.native_observe(nat, vals)[0]
        if g != y * y * ref.inv(x * x) % P:
            return "to_montgomery(x=%x, y=%x) = %x" % (x, y, g)


def c21(be):
    return [ToMontgomery(be)]


# ------------------------------------------------------------------ Decaf encodings
DT = 39082          # -d of the twisted curve


class JPoint(Point):
    """A point of the Decaf group in any representative and scaling: (2s/(1-s^2), (1+s^2)/r) with r^2 = (1-s^2)^2 + 4*39082 s^2."""

    def __init__(self):
        Point.__init__(self, "tw", "tw")

    def symbols(self, m, ob, name):
        R = m.R
        s, r, z = Num(R, R.var("s" + name)), Num(R, R.var("r" + name, unit=True)), Num(R, R.var("z" + name, unit=True))
        self.param(m, s, r)
        S = {"s": s, "r": r, "z": z, "x": 2 * s * (1 - s ** 2).inv(), "y": (1 + s ** 2) * r.inv()}
        self.coords(m, S, name)
        return S

    def param(self, m, s, r):
        R = m.R
        a = R.fac[s.v.f[0][0]][1]
        p = pzadd(((1 - s ** 2) ** 2 + 4 * DT * s ** 2).poly(), (r ** 2).poly(), -1)
        R.rule(p, ((a, 4),))
        u = 1 - s ** 2
        nz(m, u)
        for f, _ in u.v.f:
            R.units.add(f)
        nz(m, 1 + s ** 2)           # -1 is not a square
        R.product([(r + 1 + s ** 2).v, (r - 1 - s ** 2).v], (s ** 2 * (4 * (DT - 1))).v)

    def env(self, ob, name, data):
        x, y = self.affine(ob, data)
        s, r = self.quartic(x, y)
        return {"s" + name: s, "r" + name: r, "z" + name: self.split(ob, data)["Z"]}

    def quartic(self, x, y):
        if x == 0:
            return 0, y
        q = ref.sqrt((1 + x * x) % P)
        if q is None:
            raise Unsupported("not a Decaf representative")
        s = (q - 1) * ref.inv(x) % P
        return s, (1 + s * s) * ref.inv(y) % P

    def info(self, m, ob, name, vals, data):
        vals = Point.info(self, m, ob, name, vals, data)
        x, y = self.affine(ob, data)
        s, r = self.quartic(x, y)
        vals["s"], vals["r"] = Num(m.R, s), Num(m.R, r)
        return vals

    def rand(self, rng):
        p = ref.phi(ref.rand_point(ref.ED, rng))
        return p if rng.random() < .5 else (-p[0] % P, -p[1] % P)


DEP = JPoint()


def encode_ref(p):
    """Decaf448 encoding of a point, from the parametrisation."""
    x, y = p
    if x == 0:
        return 0
    s, r = DEP.quartic(x, y)
    # s and -1/s lie over P; the encoding convention fixes which of the two is used
    return s


class DecafCompress(CurveOb):
    """Canonical, non-negative, independent of scaling and representative."""
    ins = [("P", DEP)]
    bound = "every Decaf element, every representative, every projective scaling and field representation"
    fn = "h_de_compress"

    def __init__(self, be, shift):
        self.shift = shift
        self.name = "Decaf compress: " + ("other representative" if shift else "rescaling")
        CurveOb.__init__(self, be)

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def call(self, m, p, S):
        o, o2, q = m.new(56, "out"), m.new(56, "out2"), m.new(256, "Q")
        x, y = S["P"]["x"], S["P"]["y"]
        if self.shift:
            x, y = -x, -y
        z = Num(m.R, m.R.var("zz", unit=True))
        TWP.put(m, self, q, dict(X=x * z, Y=y * z, Z=z, T=x * y * z))
        m.call(self.f, [o, p["P"]])
        m.call(self.f, [o2, q])
        return feval(m, o), feval(m, o2)

    def law(self, m, S, r):
        a, b = r
        if a is None or b is None:
            yield "output is a canonical encoding", None
            return
        yield "encoding is non-negative", m.sign(a.v) == 0
        yield "same encoding", a - b

    def native_observe(self, nat, vals):
        return [le(nat.call(self.fn, bytes(56), vals["P"])[1][0])]

    def predict(self, m, S, r, ev, iev):
        return [ev.fv(r[0].v)]

    def check(self, nat, vals):
        a = self.native_observe(nat, vals)[0]
        x, y = TWP.affine(self, vals["P"])
        if a >= P or a & 1:
            return "compress(%s) = %x is not a canonical non-negative encoding" % (vals["P"].hex(), a)
        import random as _r
        rng = _r.Random(a)
        for pt in ((x, y), (-x % P, -y % P)):
            q = TWP.build(self, pt, rng.randrange(1, P), rng)
            b = le(nat.call(self.fn, bytes(56), q)[1][0])
            if a != b:
                return "compress(%s) = %x, but %x for %s of the same element" % (vals["P"].hex(), a, b, q.hex())

    def fact_env(self, ev):
        pass


class DecafRound(CurveOb):
    """decompress(compress(P)) is P up to the representative."""
    ins = [("P", DEP)]
    bound = DecafCompress.bound
    name = "Decaf compress then decompress"

    def resolve(self):
        self.f, self.g = self.prog.funcs["h_de_compress"], self.prog.funcs["h_de_decompress"]

    def call(self, m, p, S):
        b, o = m.new(56, "bytes"), m.new(256, "out")
        m.call(self.f, [b, p["P"]])
        ok = m.choice(m.uns(m.call(self.g, [o, b]), 8))
        return ok, rdpoint(m, self, o, "tw") if ok else None

    def law(self, m, S, r):
        ok, q = r
        yield "accepted", bool(ok)
        if not ok:
            return
        x, y = S["P"]["x"], S["P"]["y"]
        yield "Z non-zero", self.unit(m, q["Z"])
        yield "T*Z = X*Y", q["T"] * q["Z"] - q["X"] * q["Y"]
        yield "same element", q["X"] * y - q["Y"] * x
        yield "same x up to sign", q["X"] ** 2 - x ** 2 * q["Z"] ** 2
        yield "same y up to sign", q["Y"] ** 2 - y ** 2 * q["Z"] ** 2

    def native_observe(self, nat, vals):
        b = nat.call("h_de_compress", bytes(56), vals["P"])[1][0]
        r, o = nat.call("h_de_decompress", bytes(256), b)
        if not r & 255:
            return [0]
        v = TWP.split(self, o[0])
        return [1] + [v[k] for k in "TXYZ"]

    def predict(self, m, S, r, ev, iev):
        return [1] + [ev.fv(r[1][k].v) for k in "TXYZ"] if r[0] else [0]

    def check(self, nat, vals):
        g = self.native_observe(nat, vals)
        if not g[0]:
            return "encoding of %s does not decode" % vals["P"].hex()
        x, y = TWP.affine(self, vals["P"])
        T, X, Y, Z = g[1:]
        zi = ref.inv(Z)
        if (X * zi % P, Y * zi % P) not in ((x, y), (-x % P, -y % P)) or (T * Z - X * Y) % P:
            return "encoding of %s decodes to another element" % vals["P"].hex()


class DecafDecode(CurveOb):
    """Acceptance, curve membership and re-encoding of every 56-byte string."""
    name = "Decaf decompress then compress"
    bound = "every 56-byte string"
    ins = [("e", Raw(56, [v.to_bytes(56, "little") for v in (0, 1, 2, 3, 4, 6, 8, 10, 12, P - 1, P - 2, P - 3, P - 5, P, P + 1, P + 2, P + 4, (1 << 448) - 1, (1 << 448) - 2)]))]

    def resolve(self):
        self.f, self.g = self.prog.funcs["h_de_decompress"], self.prog.funcs["h_de_compress"]

    def start(self, dec, fixed=None, **kw):
        m, p, S = CurveOb.start(self, dec, fixed, **kw)
        S["raw"] = m.bytes_poly(p["e"], 56)
        S["s"] = s = Num(m.R, m.raw_fe(S["raw"]))
        nz(m, 1 + s ** 2)
        return m, p, S

    def call(self, m, p, S):
        o, b = m.new(256, "out"), m.new(56, "bytes")
        ok = m.choice(m.uns(m.call(self.f, [o, p["e"]]), 8))
        if not ok:
            return 0, None, None
        q = rdpoint(m, self, o, "tw")
        s = S["s"]
        v = (1 - s ** 2) ** 2 + 4 * DT * s ** 2
        if s.v.f and self.unit(m, q["Z"]) and not m.iszero(s.v):
            y = q["Y"] * q["Z"].inv()
            pairup(m, (1 + y).v, (1 - y).v, (s ** 2 * (4 * (DT - 1)) * v.inv()).v)
        m.call(self.g, [b, o])
        return 1, q, feval(m, b)

    def law(self, m, S, r):
        ok, q, back = r
        s = S["s"]
        good = m.choice(m.rawcanon(S["raw"])) and m.sign(s.v) == 0
        if good:
            u, v = 1 - s ** 2, (1 - s ** 2) ** 2 + 4 * DT * s ** 2
            good = not m.iszero(u.v) and not m.iszero(v.v) and chi_is(m, v)
        yield "accepted exactly for canonical non-negative encodings of points (here %d)" % good, bool(ok) == bool(good)
        if not ok or not good:
            return
        yield "Z non-zero", self.unit(m, q["Z"])
        yield "T*Z = X*Y", q["T"] * q["Z"] - q["X"] * q["Y"]
        yield "on the curve", q["Y"] ** 2 - q["X"] ** 2 - q["Z"] ** 2 + DT * q["T"] ** 2
        yield "x has the encoded s", (q["X"] * (1 - s ** 2)) ** 2 - (2 * s * q["Z"]) ** 2
        yield "encodes back to the same bytes", (back - s) if back is not None else None

    def native_observe(self, nat, vals):
        r, o = nat.call("h_de_decompress", bytes(256), vals["e"])
        if not r & 255:
            return [0]
        v = TWP.split(self, o[0])
        return [1] + [v[k] for k in "TXYZ"] + [le(nat.call("h_de_compress", bytes(56), o[0])[1][0])]

    def predict(self, m, S, r, ev, iev):
        return [1] + [ev.fv(r[1][k].v) for k in "TXYZ"] + [ev.fv(r[2].v)] if r[0] else [0]

    def sample(self, rng):
        k = rng.random()
        if k < .7:
            s = rng.randrange(P)
            s = s if s % 2 == 0 else P - s
            if k < .1:
                s = P - s
            return {"e": s.to_bytes(56, "little")}
        return CurveOb.sample(self, rng)

    def check(self, nat, vals):
        s = le(vals["e"])
        v = ((1 - s * s) ** 2 + 4 * DT * s * s) % P
        good = s < P and not s & 1 and v and (1 - s * s) % P and ref.is_sq(v)
        g = self.native_observe(nat, vals)
        if bool(g[0]) != bool(good):
            return "decompress(%s) %s" % (vals["e"].hex(), "accepted" if g[0] else "rejected")
        if not g[0]:
            return None
        T, X, Y, Z, b = g[1:]
        zi = ref.inv(Z)
        if not Z or (T * Z - X * Y) % P or not ref.on(ref.TW, (X * zi % P, Y * zi % P)):
            return "decompress(%s) is not a consistent curve point" % vals["e"].hex()
        if b != s:
            return "decompress(%s) encodes to %x" % (vals["e"].hex(), b)


def pairup(m, a, b, v):
    """Register a*b = v for two values with one non-monomial factor each."""
    R = m.R

    def main(u):
        ps = [f for f, e in u.f if R.fac[f][0] == "poly" and e == 1 and f not in R.units]
        return ps
    fa, fb = main(a), main(b)
    if len(fa) != 1 or len(fb) != 1 or fa == fb:
        return
    d = dict(v.f)
    for u, f in ((a, fa[0]), (b, fb[0])):
        for g, e in u.f:
            if g != f:
                d[g] = d.get(g, 0) - e
    val = R.norm(v.c * pow(a.c * b.c, -1, P) % P, d)
    R.product([FV(1, ((fa[0], 1),)), FV(1, ((fb[0], 1),))], val)


def decaf_lemma():
    """With C_i the curve equation at (x_i, y_i) and e = x1 y2 - x2 y1 (free variables): both products are
    combinations of C_1, C_2 and e.  Checked as integer polynomial identities by the solver."""
    R = Ring()
    x1, y1, x2, y2 = (Num(R, R.var(n)) for n in ("x1", "y1", "x2", "y2"))
    D = -DT
    C1 = y1 ** 2 - x1 ** 2 - 1 - D * x1 ** 2 * y1 ** 2
    C2 = y2 ** 2 - x2 ** 2 - 1 - D * x2 ** 2 * y2 ** 2
    T = (x1 * y2 - x2 * y1) * (x1 * y2 + x2 * y1)
    k = D * x1 * x2 * y1 * y2
    X = x2 ** 2 * C1 - x1 ** 2 * C2 + T
    Y = y2 ** 2 * C1 - y1 ** 2 * C2 + T
    a = (x1 ** 2 - x2 ** 2) * (1 - k ** 2) - X - D * x1 ** 2 * x2 ** 2 * Y
    b = (y1 ** 2 - y2 ** 2) * (1 - k ** 2) - Y - D * y1 ** 2 * y2 ** 2 * X
    return not a.v.c and not b.v.c and R.check_log()


class DecafEq(BoolOp):
    def __init__(self, be):
        BoolOp.__init__(self, be, "Decaf equality", "h_de_equals", [("P", TWP), ("Q", TWP)], None,
                        lambda p, q: q in (p, (-p[0] % P, -p[1] % P)), pair=True, valid=lambda p, q: not ref.exceptional(ref.TW, p, q) and not ref.exceptional(ref.TW, p, ref.neg(q)))

    def law(self, m, S, bit):
        p, q = S["P"], S["Q"]
        x1, y1, x2, y2 = p["x"], p["y"], q["x"], q["y"]
        if bit:
            # x1 y2 = x2 y1 forces (x1, y1) = +-(x2, y2) when the addition denominators do not vanish:
            # decaf_lemma shows (x1^2 - x2^2)(1 - k^2) and (y1^2 - y2^2)(1 - k^2) lie in the ideal
            k = x1 * x2 * y1 * y2 * (-DT)
            yield "x1 y2 = x2 y1", x1 * y2 - x2 * y1
            yield "ideal membership", decaf_lemma()
            yield "denominators non-zero", self.unit(m, 1 - k) and self.unit(m, 1 + k)
        else:
            # neither the same point nor the shifted one
            same = m.iszero((x1 - x2).v) and m.iszero((y1 - y2).v)
            yield "not the same point", not same
            sh = m.iszero((x1 + x2).v) and m.iszero((y1 + y2).v)
            yield "not the other representative", not sh

    def corpus(self, rng):
        out = BoolOp.corpus(self, rng)
        for _ in range(4):
            p = TWP.rand(rng)
            for s in (1, -1):
                out.append({"P": TWP.build(self, p, rng.randrange(1, P), rng), "Q": TWP.build(self, (s * p[0] % P, s * p[1] % P), rng.randrange(1, P), rng)})
        return out


class ConstBytes(CurveOb):
    """A parameterless constructor of bytes."""
    bound = "no inputs"
    ins = ()

    def __init__(self, be, name, fn, want):
        self.name, self.fn, self.wantb = name, fn, want
        CurveOb.__init__(self, be)

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def call(self, m, p, S):
        o = m.new(len(self.wantb), "out")
        m.call(self.f, [o])
        return [m.read(o.o, i, 1) for i in range(len(self.wantb))]

    def law(self, m, S, r):
        yield "bytes", all(isinstance(x, int) for x in r) and bytes(r) == self.wantb

    def fallbacks(self, rng):
        return []

    def native_observe(self, nat, vals):
        return list(nat.call(self.fn, bytes(len(self.wantb)))[1][0])

    def predict(self, m, S, r, ev, iev):
        return r

    def check(self, nat, vals):
        g = bytes(self.native_observe(nat, vals))
        if g != self.wantb:
            return "%s = %s" % (self.name, g.hex())


class IdEnc(CurveOb):
    """The identity encodes to zero bytes."""
    bound = "no inputs"
    ins = ()
    name = "Decaf identity encodes to zero"

    def resolve(self):
        self.f, self.g = self.prog.funcs["h_de_identity"], self.prog.funcs["h_de_compress"]

    def call(self, m, p, S):
        o, b = m.new(256, "id"), m.new(56, "b")
        m.call(self.f, [o])
        m.call(self.g, [b, o])
        return feval(m, b)

    def law(self, m, S, r):
        yield "zero", r if r is not None else None

    def fallbacks(self, rng):
        return []

    def check(self, nat, vals):
        o = nat.call("h_de_identity", bytes(256))[1][0]
        b = nat.call("h_de_compress", bytes(56), o)[1][0]
        if b != bytes(56):
            return "identity encodes to " + b.hex()


def byte_eq(be, name, fn):
    """Equality of byte strings compares all bytes."""
    import scalar

    def ceq(m, b, outs, r):
        yield "equal exactly when all bytes agree", scalar.eq_claim(m, psub(b["a"].val, b["b"].val), r)
    o = scalar.Bytes(name, fn, [("a", 56, 1), ("b", 56, 1)], [], ceq, ret="bool", bounds="every pair of 56-byte strings", backend=be)
    o.spec = lambda a, b: [int(a == b)]
    return o


def c18(be):
    return [DecafDecode(be)]


def c19(be):
    return [DecafCompress(be, 0), DecafCompress(be, 1), DecafRound(be), DecafEq(be), IdEnc(be), byte_eq(be, "compressed Decaf equality", "h_cd_eq"),
            ConstBytes(be, "compressed Decaf identity", "h_cd_identity", bytes(56))]


# ------------------------------------------------------------------ constants
EDG = (0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e,
       0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14)
TWG = (0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffe80000000000000000000000000000000000000000000000000000000,
       0x8508de14f04286d48d06c13078ca240805264370504c74c393d5242c5045271414181844d73f48e5199b0c1e3ab470a1c86079b4dfdd4a64)


class IsoGen(ConstPoint):
    """The isogeny applied to the Ed448 generator."""

    def __init__(self, be):
        ConstPoint.__init__(self, be, "isogeny image of the Ed448 generator", None, "tw", TWG)

    def resolve(self):
        self.g = self.prog.funcs["h_ed_generator"]
        self.f = method(self.prog, "ed.to_twisted")

    def applicable(self):
        return self.f is not None

    def call(self, m, p, S):
        o, q = m.new(256, "out"), m.new(256, "g")
        m.call(self.g, [q])
        m.call(self.f, [o, q])
        return rdpoint(m, self, o, "tw")

    def run_native(self, nat):
        g = nat.call("h_ed_generator", bytes(256))[1][0]
        return nat.call(self.f.name, bytes(256), g)[1][0]

    def native_observe(self, nat, vals):
        v = Point("tw", "tw").split(self, self.run_native(nat))
        return [v[k] for k in "TXYZ"]

    def check(self, nat, vals):
        msg = self.judge(Point("tw", "tw"), self.run_native(nat), self.wantpt)
        return msg and "%s: %s" % (self.name, msg)


def c10(be):
    names = ("twisted add", "extensible add_extended", "extensible sub_extended", "add_projective_niels", "affine add")
    tw = [o for o in c13(be) if o.name in names or "iels" in o.name or "ffine" in o.name]
    return [ConstPoint(be, "Ed448 generator", "h_ed_generator", "ed", EDG), ConstPoint(be, "Decaf generator", "h_de_generator", "tw", TWG),
            ConstBytes(be, "Curve448 generator", "h_mo_generator", bytes([5]) + bytes(55)), IsoGen(be)] + \
        c11(be)[:1] + tw + [Iso(be, "ed"), Iso(be, "tw"), EdDecompress(be)] + c18(be) + c19(be)


class Zeroize(CurveOb):
    name = "Montgomery zeroize"
    bound = "every 56-byte content"
    ins = [("u", Raw(56, [b"\xff" * 56, bytes([0] * 55 + [1]), bytes([1] + [0] * 55), bytes(range(1, 57))]))]
    fn = "h_mo_zeroize"

    def resolve(self):
        self.f = self.prog.funcs[self.fn]

    def call(self, m, p, S):
        m.call(self.f, [p["u"]])
        return [m.read(p["u"].o, i, 1) for i in range(56)]

    def law(self, m, S, r):
        d = ZERO
        for i, b in enumerate(r):
            b = m.uns(b, 8)
            d = padd(d, pscale(pconst(b) if type(b) is int else b.p, 1 << (8 * i)))
        yield "all bytes are zero", always_eq(m, d)

    def verdict(self, m, ok):
        return ok if isinstance(ok, Verdict) else CurveOb.verdict(self, m, ok)

    def native_observe(self, nat, vals):
        return [le(nat.call(self.fn, vals["u"])[1][0])]

    def predict(self, m, S, r, ev, iev):
        return [sum((b if type(b) is int else iev.num(b.p)) << (8 * i) for i, b in enumerate(r))]

    def check(self, nat, vals):
        g = self.native_observe(nat, vals)[0]
        if g:
            return "zeroize(%s) leaves %x" % (vals["u"].hex(), g)


def c27(be):
    return [Zeroize(be)]


# ------------------------------------------------------------------ compatibility of the map with the laws
class MapCompat(CurveOb):
    """One ladder step on mapped coordinates against the Ed448 operations on the points."""

    def __init__(self, be, which):
        self.which = which
        self.name = "ladder step and Ed448 %s agree through the map" % which
        self.ins = [("P", EDP)] + ([("Q", EDP)] if which == "addition" else [])
        self.pair = True
        CurveOb.__init__(self, be)

    relations = PointOp.relations
    valid = PointOp.valid

    def resolve(self):
        fs = named(self.prog, r"^ed448_goldilocks::curve::montgomery::\w+::differential_add_and_double$")
        self.f = fs[0] if fs and len(self.prog.funcs) else None
        self.off = layout.fields(self.prog, "mp")

    def call(self, m, p, S):
        R = m.R
        lam, mu = Num(R, R.var("lam", unit=True)), Num(R, R.var("mu", unit=True))

        def ed(fn, *a):
            o = m.new(256, "out")
            m.call(self.prog.funcs[fn], [o] + list(a))
            return rdpoint(m, self, o, "ed")
        x, y = S["P"]["x"], S["P"]["y"]
        if self.which == "doubling":
            r = ed("h_ed_double", p["P"])
            U, W = self.step(m, (lam * y ** 2, lam * x ** 2), (mu * y ** 2, mu * x ** 2), y * 0 + 1)[0]
            return U, W, r
        s, d = ed("h_ed_add", p["P"], p["Q"]), ed("h_ed_sub_rr", p["P"], p["Q"])
        u = Num(R, R.var("u"))
        a, b = S["Q"]["x"], S["Q"]["y"]
        U, W = self.step(m, (lam * y ** 2, lam * x ** 2), (mu * b ** 2, mu * a ** 2), u)[1]
        return U, W, s, d, u

    def step(self, m, A, B, u):
        import groups
        if self.f is None:
            return groups.xdbl(*A), groups.xadd(A[0], A[1], B[0], B[1], u)
        q = []
        for pt in (A, B):
            b = m.new(128, "mp")
            m.write_fe(Ptr(b.o, self.off["U"]), pt[0].v)
            m.write_fe(Ptr(b.o, self.off["W"]), pt[1].v)
            q.append(b)
        m.call(self.f, q + [m.new_fe(u.v)])
        return [tuple(Num(m.R, m.read_fe(Ptr(b.o, self.off[k]))) for k in "UW") for b in q]

    def law(self, m, S, r):
        U, W, s = r[:3]
        if self.which == "doubling":
            yield "u(2P) from u(P)", U * s["X"] ** 2 - W * s["Y"] ** 2
            return
        # the step's W is u times a value free of u; replace u by u(P-Q) = Y^2/X^2, denominators cleared
        d, u = r[3], r[4]
        R = m.R
        W0 = W * u.inv() if False else None
        Wu = self.without(m, W, u)
        if Wu is None:
            yield "differential addition is linear in u", None
            return
        yield "u(P+Q) from u(P), u(Q), u(P-Q)", U * s["X"] ** 2 * d["X"] ** 2 - Wu * d["Y"] ** 2 * s["Y"] ** 2

    def without(self, m, W, u):
        f = u.v.f[0][0]
        v = W.v
        e = dict(v.f).get(f)
        if e != 1:
            return None
        return Num(m.R, FV(v.c, tuple(x for x in v.f if x[0] != f)))

    def native_observe(self, nat, vals):
        return None

    def fallbacks(self, rng):
        return []

    def validate(self, ctx, rng, rep, nat):
        for _ in range(4):
            vals = self.sample(rng)
            if self._try(nat, vals, rep, "validation input"):
                return
            rep["validated"] += 1

    def check(self, nat, vals):
        import random as rnd
        rng = rnd.Random(vals["P"])
        s = rng.choice([2, 3, 4, 5, rng.getrandbits(446), rng.getrandbits(12)]).to_bytes(56, "little")
        mo = lambda p: nat.call("h_ed_to_montgomery", bytes(56), p)[1][0]
        a = nat.call("h_mo_mul", bytes(56), mo(vals["P"]), s)[1][0]
        b = mo(nat.call("h_ed_scalar_mul", bytes(256), vals["P"], s)[1][0])
        if a != b:
            return "P=%s s=%s: multiplying after the map gives %s, before it %s" % (vals["P"].hex(), s.hex(), a.hex(), b.hex())


def c21b(be):
    return [MapCompat(be, "doubling"), MapCompat(be, "addition")]


class ProjAffine(LowOrder):
    """to_projective then to_affine: the reduced u-coordinate."""
    name = "Montgomery projective round trip"
    fn = "h_mo_proj_affine"

    def call(self, m, p, S):
        o = m.new(56, "out")
        m.call(self.f, [o, p["u"]])
        return feval(m, o)

    def law(self, m, S, r):
        yield "reduced u-coordinate", None if r is None else r - S["v"]

    def native_observe(self, nat, vals):
        return [le(nat.call(self.fn, bytes(56), vals["u"])[1][0])]

    def predict(self, m, S, r, ev, iev):
        return [ev.fv(r.v)]

    def check(self, nat, vals):
        g = self.native_observe(nat, vals)[0]
        if g != le(vals["u"]) % P:
            return "to_projective().to_affine() of %s = %x" % (vals["u"].hex(), g)


def c28(be):
    return [ProjAffine(be), byte_eq(be, "Montgomery equality", "h_mo_eq")]
