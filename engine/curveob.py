"""Obligations of layer 2: curve code over abstract field elements."""
import layout, limbs, realise, ref
from obl import *
from fe import *
from ring import *
from spec import P, L

D = {"ed": ref.ED, "tw": ref.TW}


class Num:
    """Operator sugar for ring values."""
    __slots__ = ("R", "v")

    def __init__(self, R, v):
        self.R = R
        self.v = v if isinstance(v, FV) else FV(v)

    def _o(self, o):
        return o.v if isinstance(o, Num) else FV(o)

    def __add__(self, o):
        return Num(self.R, self.R.add(self.v, self._o(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return Num(self.R, self.R.sub(self.v, self._o(o)))

    def __rsub__(self, o):
        return Num(self.R, self.R.sub(self._o(o), self.v))

    def __mul__(self, o):
        return Num(self.R, self.R.mul(self.v, self._o(o)))
    __rmul__ = __mul__

    def __neg__(self):
        return Num(self.R, self.R.neg(self.v))

    def __pow__(self, e):
        return Num(self.R, self.R.pow(self.v, e))

    def inv(self):
        return Num(self.R, self.R.inv(self.v))

    def poly(self):
        return self.R.expand(self.v)

    def __repr__(self):
        return repr(self.v)


def respread(be, v, rng, box):
    """Another representation of the value: v or v+p, with some carries moved back."""
    n, w, rad = limbs.REP[be]
    if v + P < 1 << 448 and rng.random() < .3:
        v += P
    ls = [v >> (rad * i) & ((1 << rad) - 1) for i in range(n)]
    if rng.random() < .5:
        for i in range(n - 1):
            if ls[i + 1] > 0 and ls[i] + (1 << rad) <= box[i] and rng.random() < .3:
                ls[i] += 1 << rad
                ls[i + 1] -= 1
    return limbs.from_limbs(be, ls)


# ------------------------------------------------------------------ kinds of input
class Kind:
    size = 64

    def bytes(self, ob, rng):
        raise NotImplementedError

    def corpus(self, ob):
        return []


class Coords(Kind):
    """A struct of field elements given by coordinates."""
    rep = None

    def offs(self, ob):
        return layout.fields(ob.prog, self.rep)

    def put(self, m, ob, p, vals):
        for k, o in self.offs(ob).items():
            m.write(p.o, p.off + o, 64, FE(vals[k].v if isinstance(vals[k], Num) else vals[k]))

    def split(self, ob, data):
        return {k: limbs.value_of(ob.backend, data[o:o + 64]) % P for k, o in self.offs(ob).items()}

    def join(self, ob, vals, rng=None):
        b = bytearray(self.size)
        for k, o in self.offs(ob).items():
            v = vals[k] % P
            b[o:o + 64] = respread(ob.backend, v, rng, ob.box) if rng else limbs.encode(ob.backend, v)
        return bytes(b)

    def make(self, m, ob, name, fixed=None):
        p = m.new(self.size, name)
        if fixed is not None:
            vals = {k: FV(v) for k, v in self.split(ob, fixed).items()}
            self.put(m, ob, p, vals)
            return p, self.info(m, ob, name, {k: Num(m.R, v) for k, v in vals.items()}, fixed)
        S = self.symbols(m, ob, name)
        self.put(m, ob, p, S)
        return p, S


class FieldKind(Coords):
    def offs(self, ob):
        return {"v": 0}

    def symbols(self, m, ob, name):
        return {"v": Num(m.R, m.R.var(name))}

    def info(self, m, ob, name, vals, data):
        return vals

    def env(self, ob, name, data):
        return {name: self.split(ob, data)["v"]}

    def bytes(self, ob, rng):
        k = rng.random()
        v = rng.choice([0, 1, 2, P - 1, P - 2, 39081, P - 39081]) if k < .3 else rng.randrange(P)
        return self.join(ob, {"v": v}, rng)

    def corpus(self, ob):
        return [self.join(ob, {"v": v}) for v in (0, 1, P - 1, 2, 3, 4, P - 4, 39081, P - 39081, 39082, 5, 6, 7)]


class Point(Coords):
    """A curve point in one of its representations, scaled arbitrarily."""

    def __init__(self, rep, curve, nz=True):
        self.rep, self.curve = rep, curve
        self.size = 64 * len(layout.DEFAULT[rep][2])
        self.nz = nz

    def symbols(self, m, ob, name):
        R = m.R
        x = Num(R, R.var("x" + name))
        y = Num(R, R.var("y" + name))
        z = Num(R, R.var("z" + name, unit=True))
        S = {"x": x, "y": y, "z": z}
        self.relate(m, S)
        self.coords(m, S, name)
        return S

    def relate(self, m, S):
        a, d = D[self.curve]
        x, y = S["x"], S["y"]
        xm = x.poly()
        X2 = pzmul(xm, xm)
        Y2 = pzmul(y.poly(), y.poly())
        c = pzadd(pzadd({m_: sym(a) * v for m_, v in X2.items()}, Y2), {(): 1}, -1)
        c = pzadd(c, pzmul(X2, Y2), -sym(d))
        if c:
            m.R.rule(c)
        # the doubling denominators never vanish on the points of the group
        q = pzmul({(): sym(d)}, pzmul(X2, Y2))
        m.R.nzpolys += [pzadd({(): 1}, q), pzadd({(): 1}, q, -1)]

    def coords(self, m, S, name):
        R = m.R
        x, y, z = S["x"], S["y"], S["z"]
        r = self.rep
        d = sym(D[self.curve][1])
        if r in ("ed", "tw"):
            S.update(X=x * z, Y=y * z, Z=z, T=x * y * z)
        elif r == "ens":
            t1 = Num(R, R.var("t" + name))
            t2 = Num(R, R.var("s" + name))
            tt = (t1 * t2).poly()
            R.rule(pzadd(tt, (x * y * z).poly(), -1), next(iter(tt)))
            S.update(X=x * z, Y=y * z, Z=z, T1=t1, T2=t2)
        elif r == "pn":
            S.update(Y_plus_X=(y + x) * z, Y_minus_X=(y - x) * z, Td=x * y * z * (2 * d), Z=z + z)
        elif r in ("aff", "eaff"):
            S.update(x=x, y=y)
        else:
            raise Unsupported(r)

    def affine(self, ob, data):
        v = self.split(ob, data)
        if self.rep in ("ed", "tw", "ens"):
            z = ref.inv(v["Z"])
            return v["X"] * z % P, v["Y"] * z % P
        if self.rep == "pn":
            z = ref.inv(v["Z"])
            return (v["Y_plus_X"] - v["Y_minus_X"]) * z % P, (v["Y_plus_X"] + v["Y_minus_X"]) * z % P
        return v["x"], v["y"]

    def info(self, m, ob, name, vals, data):
        x, y = self.affine(ob, data)
        vals = dict(vals)
        vals["x"], vals["y"] = Num(m.R, x), Num(m.R, y)
        v = self.split(ob, data)
        z = v["Z"] if "Z" in v else 1
        if self.rep == "pn":
            z = z * ref.inv(2) % P
        vals["z"] = Num(m.R, z)
        return vals

    def env(self, ob, name, data):
        v = self.split(ob, data)
        x, y = self.affine(ob, data)
        e = {"x" + name: x, "y" + name: y}
        z = v.get("Z", 1)
        if self.rep == "pn":
            z = z * ref.inv(2) % P
        e["z" + name] = z
        if self.rep == "ens":
            e["t" + name], e["s" + name] = v["T1"], v["T2"]
        return e

    def build(self, ob, p, z, rng=None):
        x, y = p
        r = self.rep
        d = D[self.curve][1]
        if r in ("ed", "tw"):
            v = dict(X=x * z, Y=y * z, Z=z, T=x * y * z)
        elif r == "ens":
            t = (rng.randrange(1, P) if rng else 1)
            v = dict(X=x * z, Y=y * z, Z=z, T1=x * y * z * ref.inv(t), T2=t)
        elif r == "pn":
            v = dict(Y_plus_X=(y + x) * z, Y_minus_X=(y - x) * z, Td=2 * d * x * y * z, Z=2 * z)
        else:
            v = dict(x=x, y=y)
        return self.join(ob, v, rng)

    def points(self, rng, k):
        c = D[self.curve]
        out = list(ref.LOW[c])
        for _ in range(k):
            out.append(self.rand(rng))
        return out

    def rand(self, rng):
        c = D[self.curve]
        if self.curve == "tw":
            # image of the isogeny: the prime-order subgroup and the points used with it
            return ref.phi(ref.rand_point(ref.ED, rng))
        return ref.rand_point(c, rng)

    def bytes(self, ob, rng):
        k = rng.random()
        p = rng.choice(ref.LOW[D[self.curve]]) if k < .2 else self.rand(rng)
        z = 1 if rng.random() < .2 else rng.randrange(1, P)
        return self.build(ob, p, z, rng)


class Raw(Kind):
    """Bytes."""

    def __init__(self, size, special=()):
        self.size = size
        self.special = list(special)

    def make(self, m, ob, name, fixed=None):
        b = Buf(m, name, self.size, 1, None, fixed=fixed)
        return b.ptr, {"buf": b, "val": b.val}

    def ienv(self, S, data):
        return S["buf"].env(data)

    def env(self, ob, name, data):
        return {}

    def bytes(self, ob, rng):
        if self.special and rng.random() < .4:
            return rng.choice(self.special)
        return bytes(rng.getrandbits(8) for _ in range(self.size))

    def corpus(self, ob):
        return self.special


class Words(Raw):
    """A scalar: fourteen 32-bit words."""

    def __init__(self, special=()):
        Raw.__init__(self, 56, special)

    def make(self, m, ob, name, fixed=None):
        b = Buf(m, name, 56, 4, None, fixed=fixed)
        return b.ptr, {"buf": b, "val": b.val}


class Bit(Raw):
    def __init__(self):
        Raw.__init__(self, 1, [b"\0", b"\1"])

    def make(self, m, ob, name, fixed=None):
        b = Buf(m, name, 1, 1, [1], fixed=fixed)
        return b.ptr, {"buf": b, "val": b.val}

    def bytes(self, ob, rng):
        return rng.choice(self.special)


EDP, TWP = Point("ed", "ed"), Point("tw", "tw")
FEK = FieldKind()


# ------------------------------------------------------------------ evaluation of ring values
class RingEval:
    def __init__(self, m, env):
        self.m, self.R = m, m.R
        self.v = {}
        for a, n in enumerate(m.R.names):
            if n in env and m.R.akind[a] == "in":
                self.v[a] = env[n] % P

    def atom(self, a):
        if a in self.v:
            return self.v[a]
        k = self.R.akind[a]
        if k == "in":
            raise Unsupported("no value for " + self.R.names[a])
        b = self.factor(k[1])
        self.v[a] = pow(b, H, P) if k[0] == "w" else pow(b, (P - 1) // 2, P)
        return self.v[a]

    def factor(self, f):
        k, x = self.R.fac[f]
        if k == "atom":
            return self.atom(x)
        r = 0
        for mo, c in x.items():
            for a, e in mo:
                c = c * pow(self.atom(a), e, P) % P
            r += c
        return r % P

    def fv(self, v):
        r = v.c
        for f, e in v.f:
            r = r * pow(self.factor(f), e, P) % P
        return r % P

    def fact(self, fact, d):
        k = fact[0]
        if k == "zero":
            return (self.factor(fact[1]) == 0) == bool(d)
        if k == "sign":
            return self.fv(fact[1]) & 1 == d
        if k == "chi":
            r = 1
            for f in fact[1]:
                r = r * self.factor(f) % P
            return (r == fact[2] % P) == bool(d)
        raise Unsupported("fact " + k)


class CurveOb(Obligation):
    """Subclasses set title, ins = [(name, Kind)], entry or funcs pattern, and define
         call(m, p, S)      -> result (anything)
         law(m, S, res)     -> (label, ok) pairs; ok is bool, None (undecided) or a Num that must be zero
         check(nat, vals)   -> None or message
    """
    maxpaths = 200
    ins = ()
    dep = False

    def __init__(self, be):
        self.backend = be
        self.bounds = self.bound

    bound = "all curve points, every projective scaling, every field representation"

    def setup(self, ctx):
        self.prog = ctx.progs[self.backend]
        self.box = limbs.bounded(ctx, self.backend)[0]
        self.resolve()

    def resolve(self):
        pass

    def start(self, dec, fixed=None, **kw):
        m = FEM(self.prog, self.backend, decisions=dec, **kw)
        p, S = {}, {}
        for n, k in self.ins:
            p[n], S[n] = k.make(m, self, n, (fixed or {}).get(n))
        self.relations(m, S)
        return m, p, S

    def relations(self, m, S):
        """Facts of the mathematics the property takes for granted."""

    def verdict(self, m, ok):
        if ok is None:
            return Verdict("unknown", {}, "not decided")
        if isinstance(ok, Num):
            ok = ok.v
        if isinstance(ok, FV):
            z = self.zero(m, ok)
            return HOLDS if z else Verdict("fails", {}, "residual %r" % (ok,))
        return HOLDS if ok else Verdict("fails", {}, "")

    def zero(self, m, v):
        if not v.c:
            return True
        v = m.R.sum([v, FV(0)])
        v = m.R.norm(v.c, dict(v.f))
        return not v.c

    def unit(self, m, v):
        """v is provably non-zero on this path."""
        v = v.v if isinstance(v, Num) else v
        R = m.R
        v = R.norm(v.c, dict(v.f))
        if not v.c:
            return False
        for f, e in v.f:
            if f in R.units:
                continue
            if R.fzero(f):
                return False
            if R.nonzero_by_hint(f):
                R.units.add(f)
                continue
            return None
        return True

    def solve(self, ctx, fixed=None, rep=None):
        self.setup(ctx)
        work = [[]]
        n = 0
        cands, notes = [], []
        self.cands = cands
        status = "holds"
        self.paths = []
        self.used = {}
        tlim = time.time() + 3000
        while work:
            dec = work.pop()
            n += 1
            if n > self.maxpaths or time.time() > tlim:
                return "undecided", cands, notes + ["path limit"]
            m = None
            try:
                m, p, S = self.start(dec, fixed)
                try:
                    res = self.call(m, p, S)
                    laws = list(self.law(m, S, res))
                except Panic as e:
                    laws = [("no panic: %s" % e, False)]
                    res = None
            except (Infeasible, PathEnd):
                if m is not None:
                    work.extend(m.pending)
                continue
            except Unsupported as e:
                raise Unsupported("%s [path %s]" % (e, m.facts if m is not None else ""))
            work.extend(m.pending)
            if rep is not None:
                rep["functions"] |= m.called
                rep["steps"] += m.steps
            for k, v in m.used.items():
                self.used[k] = self.used.get(k, 0) + v
            for label, ok in laws:
                v = self.verdict(m, ok)
                if rep is not None:
                    rep["claims"] += 1
                if v.st == "holds":
                    continue
                notes.append("%s: %s [path %s]" % (label, v, self.describe(m)))
                if v.st == "fails":
                    status = "fails"
                elif status == "holds":
                    status = "undecided"
                cands.append((m, S, {}, label))
            if not m.R.check_log():
                notes.append("identity log not confirmed")
                if status == "holds":
                    status = "undecided"
            self.paths.append((m, S, res))
            if len(cands) > 40:
                break
        if rep is not None:
            rep["paths"] += n
            if self.used:
                rep["contracts"] = sorted("%s = field %s" % (k[0], k[2]) for k in self.used)
        return status, cands, notes

    def describe(self, m):
        out = []
        for f, d in m.facts:
            out.append("%s=%s" % (f[0] + str(f[1:]) if f[0] != "zero" else "zero %s" % (m.R.fac[f[1]],), d))
        return "; ".join(out)[:300]

    # ---- replay
    def rawenv(self, m, S, vals, ev):
        pass

    def _run(self, ctx, rng, rep, nat):
        try:
            self.setup(ctx)
        except Exception as e:
            rep["status"] = "undecided"
            rep["notes"].append("setup: %s" % e)
            return
        if not self.applicable():
            rep["status"] = "holds"
            rep["notes"].append("not present in this tree")
            return
        try:
            status, cands, notes = timed(.6 * self.budget, self.solve, ctx, None, rep)
        except (Unsupported, Inconclusive) as e:
            status, cands, notes = "undecided", self.cands, ["unsupported: %s" % e]
        except Exception as e:
            if os.environ.get("VERIF_TRACE"):
                raise
            status, cands, notes = "undecided", [], ["engine: %s %s" % (type(e).__name__, e), traceback.format_exc()[-600:]]
        rep["notes"] += notes
        if status == "holds":
            rep["status"] = "holds"
            self.validate(ctx, rng, rep, nat)
            return
        for vals in self.corpus(rng):
            if self.valid(vals) and self._try(nat, vals, rep, "point from the failing path class"):
                return
        for _ in range(60 if ctx.tier == "quick" else 1000):
            vals = self.sample(rng)
            if self.valid(vals) and self._try(nat, vals, rep, "sampled input for a failing claim"):
                return
        if cands and self.realise(ctx, rng, rep, nat, cands):
            return
        ok, decided = 0, []
        t0 = time.time()
        for fixed in self.fallbacks(rng):
            if time.time() - t0 > .25 * self.budget:
                break
            try:
                st, c, nn = timed(.25 * self.budget, self.solve, ctx, fixed, rep)
            except (Unsupported, Inconclusive) as e:
                rep["notes"].append("reduced: unsupported: %s" % e)
                continue
            except Exception as e:
                rep["notes"].append("reduced: engine: %s %s" % (type(e).__name__, e))
                continue
            if st == "holds":
                ok += 1
                decided.append({k: bytes(v).hex() for k, v in fixed.items()})
            else:
                rep["notes"] += ["reduced: " + x for x in nn[:3]]
        if ok:
            rep["status"] = "holds-reduced"
            rep["reduced"] = decided
            return
        rep["status"] = "undecided"

    def realise(self, ctx, rng, rep, nat, cands):
        """Inputs built from the equations of the failing paths, replayed natively."""
        try:
            for vals, label in realise.search(self, cands, rng, .15 * self.budget):
                rep["realised"] = rep.get("realised", 0) + 1
                if self.valid(vals) and self._try(nat, vals, rep, "input solved from the failing path for " + label):
                    return True
        except (Unsupported, Inconclusive, ValueError, ZeroDivisionError, KeyError) as e:
            if os.environ.get("VERIF_TRACE"):
                raise
            rep["notes"].append("realise: %s %s" % (type(e).__name__, e))
        return False

    def applicable(self):
        return True

    def fallbacks(self, rng):
        """Some operands concrete."""
        out = []
        names = [n for n, k in self.ins]
        for i in range(4):
            v = self.sample(rng)
            if len(names) > 1:
                out.append({names[i % len(names)]: v[names[i % len(names)]]})
            out.append(v)
        return out

    def sample(self, rng):
        return {n: k.bytes(self, rng) for n, k in self.ins}

    def corpus(self, rng):
        """Special combinations of the inputs."""
        pts = [(n, k) for n, k in self.ins if isinstance(k, Point)]
        oth = [(n, k) for n, k in self.ins if not isinstance(k, Point)]
        combos = [{}]
        if pts:
            base = pts[0][1].points(rng, 3)
            combos = []
            if len(pts) == 1:
                combos = [{pts[0][0]: p} for p in base]
            else:
                for p in base:
                    c = D[pts[0][1].curve]
                    qs = list(base) + [ref.neg(p)]
                    if pts[0][1].curve == pts[1][1].curve:
                        qs += [ref.add(c, p, t) for t in ref.LOW[c]]
                    for q in qs:
                        combos.append({pts[0][0]: p, pts[1][0]: q})
        out = []
        for c in combos:
            for j in range(3):
                v = {}
                for n, k in pts:
                    z = 1 if j == 0 else rng.randrange(1, P)
                    v[n] = k.build(self, c[n], z, rng if j else None)
                lists = [k.corpus(self) or [k.bytes(self, rng)] for n, k in oth]
                vs = [v]
                for (n, k), l in zip(oth, lists):
                    vs = [dict(x, **{n: y}) for x in vs for y in l]
                    if len(vs) > 400:
                        vs = rng.sample(vs, 400)
                out += vs
        return out

    def predict(self, m, S, res, ev, iev):
        """List of values to compare with native_observe, or None."""
        return None

    def validate(self, ctx, rng, rep, nat):
        hits = 0
        todo = [self.sample(rng) for _ in range(4)]
        co = self.corpus(rng)
        if co:
            todo += [rng.choice(co) for _ in range(3)]
        for vals in todo:
            if not self.valid(vals):
                continue
            if self._try(nat, vals, rep, "validation input"):
                return
            env = {}
            for n, k in self.ins:
                env.update(k.env(self, n, vals[n]))
            for m, S, res in self.paths:
                try:
                    ie = {}
                    for n, k in self.ins:
                        if isinstance(k, Raw):
                            ie.update(k.ienv(S[n], vals[n]))
                    iev = Eval(m.A, ie)
                    e2 = dict(env)
                    for key, q in m.rawval.items():
                        fid = m.rawfe[key].f[0][0]
                        e2[m.R.names[m.R.fac[fid][1]]] = iev.num(q) % P
                    ev = RingEval(m, e2)
                    for a, (kind, v) in m.meta.items():
                        x = ev.fv(v)
                        iev.v[a] = int(x == 0) if kind == "eq0" else x & 1
                    if not all(ev.fact(f, d) for f, d in m.facts):
                        continue
                    if any((iev.num(q) < 0 if rel == ">=" else iev.num(q) != 0) for rel, q in m.path):
                        continue
                    want = self.predict(m, S, res, ev, iev)
                except (Unsupported, ZeroDivisionError, KeyError, ValueError) as e:
                    continue
                if want is None:
                    continue
                got = self.native_observe(nat, vals)
                if want != got:
                    rep["status"] = "undecided"
                    rep["notes"].append("translator mismatch: predicted %r native %r" % (want, got))
                    return
                hits += 1
        rep["validated"] = hits
