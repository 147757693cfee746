"""Group level: points as opaque tokens standing for integer multiples of a base point.

A token is a block of field elements (the coordinates of some point in one of the representations) together
with an integer polynomial n over the scalar's bits: the point is n times the base point of its curve.
Functions that take and return points are replaced by their effect on n, but only after the coordinate-level
check (curve.PointOp) has proved that effect for every point from the function's current IR.  Selections between
field elements under a symbolic condition are kept as conditional values and resolved when a whole block is read.
"""
from curveob import *
import layout


class Tok:
    __slots__ = ("rep", "n", "fv", "side")

    def __init__(self, rep, n, fv, side):
        self.rep, self.n, self.fv, self.side = rep, n, fv, side


REPS = ("ens", "tw", "ed", "pn", "aff", "eaff", "mp")
CURVE = {"ens": "tw", "tw": "tw", "ed": "ed", "pn": "tw", "aff": "tw", "eaff": "ed", "mp": "mo"}
SIZE = {r: 64 * len(layout.DEFAULT[r][2]) for r in REPS}


class GM(FEM):
    def __init__(self, prog, be, decisions=None, pcon=None, **kw):
        FEM.__init__(self, prog, be, decisions=decisions, **kw)
        self.pcon = pcon if pcon is not None else PCON(prog, be)
        self.lazysel = True
        self.toks = []
        self.first = {}              # key of coordinate -> token, for every coordinate
        self.ites = {}               # ring atom (fid) -> (condition, FV if 1, FV if 0)
        self.itememo = {}
        self.base_u = None
        self.fds = {}                # monomial -> [(fd atom, its polynomial)]
        self.pused = {}
        self.patterns = [(lambda n: "ed448_goldilocks" in n or n.startswith("h_"), self.hook)]

    # ---- small integers (digits): named, so that bit tricks on them become tables
    def small(self, v):
        if type(v) is not IV or v.p.e:
            return v
        A = self.A
        p = v.p
        bs = A.bases(p)
        if bs is not None and len(bs) <= 1:
            return v
        if len(p.t) > 40:
            return v
        done = False
        while not done:
            done = True
            for mo, c in p.t.items():
                for i, R0 in self.fds.get(mo, ()):
                    k, r = divmod(c, R0.t[mo])
                    if r or not k:
                        continue
                    if all(p.t.get(x) == k * y for x, y in R0.t.items()):
                        p = padd(psub(p, pscale(R0, k)), pscale(patom(i), k))
                        done = False
                        break
                if not done:
                    break
        bs = A.bases(p)
        if bs is not None and len(bs) <= 1:
            return self.mkiv(p, v.lo, v.hi) if not p.is_const() else p.const()
        c0 = p.t.get((), 0)
        R0 = psub(p, pconst(c0))
        lo, hi = self.grange(R0)
        if hi - lo > 20 or hi - lo < 2:
            return self.mkiv(p, v.lo, v.hi)
        i = A.fd(R0, tuple(range(lo, hi + 1)))
        for mo in R0.t:
            self.fds.setdefault(mo, []).append((i, R0))
        return self.mkiv(padd(patom(i), pconst(c0)), lo + c0, hi + c0)

    def grange(self, p):
        """Range of p, taking the terms that depend on one and the same small atom together."""
        A = self.A
        by, rest = {}, {}
        for mo, c in p.t.items():
            bs = {A.base[a] for a in mo}
            b = next(iter(bs)) if len(bs) == 1 else None
            if b is not None and A.kind[b] == "fd":
                by.setdefault(b, {})[mo] = c
            else:
                rest[mo] = c
        lo, hi = A.range(Poly(rest))
        for b, t in by.items():
            v = [A.evalfd(Poly(t), {b: x}) for x in A.dom[b]]
            lo, hi = lo + min(v), hi + max(v)
        return lo, hi

    def tabulate(self, fn, w, a, b):
        a, b = self.small(a), self.small(b)
        if type(a) is int and type(b) is int:
            return fn(a, b), a, b
        bs = set()
        for x in (a, b):
            if type(x) is IV:
                y = self.A.bases(x.p)
                if y is None:
                    return None, a, b
                bs |= y
        if len(bs) != 1 or self.A.kind[next(iter(bs))] != "fd":
            return None, a, b
        return self.fdtable(fn, [a, b], w), a, b

    def bin(self, op, w, a, b):
        if op in ("lshr", "ashr", "and", "or", "xor") and (type(a) is IV or type(b) is IV) and isinstance(a, (int, IV)) and isinstance(b, (int, IV)):
            M = (1 << w) - 1
            if op in ("and", "or", "xor") and all(x in (0, 1) if type(x) is int else 0 <= x.lo and x.hi <= 1 for x in (a, b)):
                p, q = (pconst(x) if type(x) is int else x.p for x in (a, b))
                pq = self.A.mul(p, q)
                r = pq if op == "and" else psub(padd(p, q), pq if op == "or" else pscale(pq, 2))
                return r.const() if r.is_const() else self.mkiv(r, 0, 1)
            r, a, b = self.tabulate(lambda x, y: self.cbin(op, w, x & M, y & M), w, a, b)
            if r is not None:
                return self.norm(r, w) if type(r) is IV else r
        return FEM.bin(self, op, w, a, b)

    def icmp(self, c, w, a, b):
        if (type(a) is IV or type(b) is IV) and isinstance(a, (int, IV)) and isinstance(b, (int, IV)):
            M = (1 << w) - 1
            if c in ("eq", "ne") and type(a) is IV and type(b) is int and 0 <= a.lo and a.hi <= 1:
                b &= M
                if b > 1:
                    return int(c == "ne")
                return a if (b == 1) == (c == "eq") else self.mkiv(psub(pconst(1), a.p), 0, 1)
            r, a, b = self.tabulate(lambda x, y: FEM.icmp(self, c, w, x & M, y & M), 1, a, b)
            if r is not None:
                return r
        return FEM.icmp(self, c, w, a, b)

    # ---- tokens
    def token(self, rep, n, name="p"):
        fv = {}
        for k in layout.DEFAULT[rep][2]:
            fv[k] = self.R.var("%s%d%s" % (name, len(self.toks), k), unit=(k == "Z"))
        t = Tok(rep, n, fv, CURVE[rep])
        self.toks.append(t)
        for k, v in fv.items():
            self.first[v.key()] = t
        return t

    def put(self, p, t):
        for k, o in layout.fields(self.P, t.rep).items():
            self.write_fe(Ptr(p.o, p.off + o), t.fv[k])

    def block(self, p, rep):
        """Coordinates at p, or None."""
        if type(p) is not Ptr or type(p.off) is not int or p.off < 0 or p.off + SIZE[rep] > p.o.size:
            return None
        out = {}
        for k, o in layout.fields(self.P, rep).items():
            v = self.read_fe(Ptr(p.o, p.off + o))
            if v is None:
                return None
            out[k] = v
        return out

    # ---- conditional values
    def ite(self, c, u, v):
        if u.key() == v.key():
            return u
        k = (c.key(), u.key(), v.key())
        r = self.itememo.get(k)
        if r is None:
            r = self.R.var("ite%d" % len(self.itememo))
            self.itememo[k] = r
            self.ites[r.f[0][0]] = (c, u, v)
        return r

    def apply(self, role, f, a):
        if role in ("select", "assign", "swap", "cneg") and type(a[-1]) is not int:
            c = self.trunc1(a[-1])
            if type(c) is not int:
                p = self.settle(c.p) if self.meta else c.p
                if not p.is_const():
                    if role == "select":
                        self.write_fe(a[0], self.ite(p, self.read_fe(a[2]), self.read_fe(a[1])))
                    elif role == "assign":
                        self.write_fe(a[0], self.ite(p, self.read_fe(a[1]), self.read_fe(a[0])))
                    elif role == "swap":
                        x, y = self.read_fe(a[0]), self.read_fe(a[1])
                        self.write_fe(a[0], self.ite(p, y, x))
                        self.write_fe(a[1], self.ite(p, x, y))
                    else:
                        x = self.read_fe(a[0])
                        self.write_fe(a[0], self.ite(p, self.R.neg(x), x))
                    return None
        return FEM.apply(self, role, f, a)

    # ---- recognising points
    def close(self, fv, rep, depth=0):
        """The multiple of the base that these coordinates are, or None."""
        names = layout.DEFAULT[rep][2]
        t = self.first.get(fv[names[0]].key())
        if t is not None and t.rep == rep and all(fv[k].key() == t.fv[k].key() for k in names):
            return t.n
        if all(not v.f for v in fv.values()):
            return self.const_point({k: v.c for k, v in fv.items()}, rep)
        # conditional values: split on a condition
        cond = None
        for k in names:
            for f, e in fv[k].f:
                if f in self.ites:
                    cond = self.ites[f][0]
                    break
            if cond is not None:
                break
        if cond is not None:
            if depth > 40:
                return None
            ck = cond.key()
            out = []
            for br in (1, 0):
                sub = {}
                for k in names:
                    sub[k] = self.branch(fv[k], ck, br)
                out.append(self.close(sub, rep, depth + 1))
            if out[0] is None or out[1] is None:
                return None
            if out[0].key() == out[1].key():
                return out[0]
            return padd(out[1], self.A.mul(cond, psub(out[0], out[1])))
        return self.derived(fv, rep)

    def branch(self, v, ck, br):
        for _ in range(60):
            hit = False
            for f, e in v.f:
                it = self.ites.get(f)
                if it is not None and it[0].key() == ck:
                    if e < 0:
                        raise Unsupported("inverse of a conditional value")
                    w = FV(v.c, tuple(x for x in v.f if x[0] != f))
                    v = self.R.mul(w, self.R.pow(it[1] if br else it[2], e))
                    hit = True
                    break
            if not hit:
                return v
        raise Unsupported("conditional value too deep")

    def const_point(self, v, rep):
        """Constants: the identity in one of its representations."""
        if rep in ("ed", "tw"):
            ok = v["X"] == 0 and v["T"] == 0 and v["Z"] and v["Y"] == v["Z"]
        elif rep == "ens":
            ok = v["X"] == 0 and v["T1"] * v["T2"] % P == 0 and v["Z"] and v["Y"] == v["Z"]
        elif rep == "pn":
            ok = v["Y_plus_X"] == v["Y_minus_X"] and v["Td"] == 0 and v["Z"] and 2 * v["Y_plus_X"] % P == v["Z"]
        elif rep in ("aff", "eaff"):
            ok = v["x"] == 0 and v["y"] == 1
        elif rep == "mp":
            ok = v["W"] == 0 and v["U"] != 0
        else:
            ok = False
        return ZERO if ok else None

    def derived(self, fv, rep):
        """Negation of a token."""
        R = self.R
        for k in layout.DEFAULT[rep][2]:
            for f, e in fv[k].f:
                t = self.first.get(FV(1, ((f, 1),)).key())
                if t is None or t.rep != rep:
                    continue
                g = dict(t.fv)
                if rep in ("ed", "tw"):
                    g["X"], g["T"] = R.neg(g["X"]), R.neg(g["T"])
                elif rep == "pn":
                    g["Y_plus_X"], g["Y_minus_X"], g["Td"] = g["Y_minus_X"], g["Y_plus_X"], R.neg(g["Td"])
                elif rep in ("aff", "eaff"):
                    g["x"] = R.neg(g["x"])
                else:
                    continue
                if all(fv[x].key() == g[x].key() for x in g):
                    return pscale(t.n, -1)
        if rep == "mp" and self.base_u is not None:
            if fv["U"].key() == self.base_u.key() and not fv["W"].f and fv["W"].c == 1:
                return pconst(1)
        return None

    def leaf_w(self, v, depth=0):
        """Multiple of the base whose W coordinate this is."""
        t = self.first.get(v.key())
        if t is not None and t.rep == "mp" and t.fv["W"].key() == v.key():
            return t.n
        if not v.f:
            return ZERO if v.c == 0 else pconst(1) if v.c == 1 else None
        if len(v.f) == 1 and v.f[0][0] in self.ites and depth < 40:
            c = self.ites[v.f[0][0]][0]
            a, b = (self.leaf_w(self.branch(v, c.key(), br), depth + 1) for br in (1, 0))
            if a is None or b is None:
                return None
            return padd(b, self.A.mul(c, psub(a, b)))
        return None

    close_w = leaf_w

    def uw0(self, b, depth=0):
        """U W = 0 for this block."""
        if not b["U"].c or not b["W"].c:
            return True
        for k in "UW":
            for f, e in b[k].f:
                if f in self.ites and depth < 40:
                    ck = self.ites[f][0].key()
                    return all(self.uw0({x: self.branch(b[x], ck, br) for x in "UW"}, depth + 1) for br in (1, 0))
        return False

    def close_quotient(self, u):
        """n where u = U/W for the coordinates of n times the base."""
        num = tuple((f, e) for f, e in u.f if e > 0)
        den = tuple((f, -e) for f, e in u.f if e < 0)
        return self.close({"U": FV(u.c, num), "W": FV(1, den)}, "mp")

    def identity_fact(self):
        """Is l times the base the identity on this path?"""
        for t in reversed(self.toks):
            if t.rep == "ed" and t.n.is_const() and t.n.const() % (4 * L) in (L, 3 * L):
                return self.iszero(t.fv["X"]) and self.iszero(self.R.sub(t.fv["Y"], t.fv["Z"]))
        return None

    def tokens_at(self, p):
        """[(rep, n)] readings of the block at p."""
        out = []
        for rep in REPS:
            b = self.block(p, rep)
            if b is not None:
                n = self.close(b, rep)
                if n is not None:
                    out.append((rep, n))
        return out

    def read_point(self, p, rep):
        b = self.block(p, rep)
        n = self.close(b, rep) if b is not None else None
        if n is None:
            raise Unsupported("result is not a recognised %s point" % rep)
        return n

    # ---- contracts
    def hook(self, m, f, args):
        r = FEM.hook(self, m, f, args)
        if r is not NotImplemented:
            return r
        return self.pcon.apply(self, f, args)


class PContract:
    """out[i] = (target, rep, coefficients): target 'ret' or argument index."""

    def __init__(self, outs, cond=None):
        self.outs, self.cond = outs, cond


COMBOS1 = [(1,), (-1,), (2,), (3,), (4,), (-2,)]
COMBOS2 = [(1, 1), (1, -1), (-1, 1), (2, 1), (1, 2), (1, 0), (0, 1)]


class PCon:
    def __init__(self, prog, be):
        self.prog, self.be = prog, be
        self.cache = {}
        self.native = None
        self.notes = []
        self.active = set()

    def apply(self, m, f, args):
        if f.blocks is None:
            f.mod.parse(f)
        if not f.params or len(args) != len(f.params) or len(args) > 4:
            return NotImplemented
        s = sret(f)
        pa = args[1:] if s else args
        if not pa or any(type(a) is not Ptr or type(a.off) is not int for a in pa):
            return NotImplemented
        rt = f.ret.s if hasattr(f.ret, "s") else str(f.ret)
        if f.ret is not None and rt != "void":
            return NotImplemented
        if not s:
            return self.ladder(m, f, pa)
        if s not in (256, 320, 128):
            return NotImplemented
        cand = []
        for a in pa:
            c = m.tokens_at(a)
            if not c:
                return NotImplemented
            cand.append(c)
        alias = tuple(next(j for j, b in enumerate(pa) if b.o is a.o and b.off == a.off) for a in pa)
        import itertools
        for combo in itertools.product(*cand):
            reps = tuple(r for r, _ in combo)
            key = (f.name, reps, alias)
            if key not in self.cache:
                if key in self.active:
                    continue
                self.active.add(key)
                try:
                    self.cache[key] = self.find(f, reps, alias, s)
                finally:
                    self.active.discard(key)
            c = self.cache[key]
            if c is None:
                continue
            rep, coef, why = c
            n = ZERO
            for k, (_, x) in zip(coef, combo):
                n = padd(n, pscale(x, k))
            m.put(args[0], m.token(rep, n))
            m.pused[(f.pretty, f.name, why)] = m.pused.get((f.pretty, f.name, why), 0) + 1
            return None
        return NotImplemented

    # ---- search and proof
    def find(self, f, reps, alias, s):
        import curve
        try:
            return self._find(f, reps, alias, s, curve)
        except (Unsupported, Panic, PathEnd, Infeasible) as e:
            self.notes.append("%s: %s" % (f.pretty, e))
            return None

    def _find(self, f, reps, alias, s, curve):
        if any(r == "mp" for r in reps):
            return None
        n = len(set(alias))
        idx = sorted(set(alias))
        kinds = [Point(r, CURVE[r]) for r in reps]
        ins = [("P%d" % i, kinds[i]) for i in idx]
        rng = random.Random(5)
        outs = [r for r in REPS if SIZE[r] == s and r != "mp"]
        # the functions's effect on concrete points
        ob0 = PairOp(self, f, ins, alias, None, None, (outs[0], CURVE[outs[0]]))
        samples = []
        for _ in range(3):
            pts = {nm: k.rand(rng) for nm, k in ins}
            vals = {nm: k.build(ob0, pts[nm], rng.randrange(1, P)) for nm, k in ins}
            samples.append((pts, vals))
        try:
            res = [ob0.execute(v) for _, v in samples]
        except Exception as e:
            self.notes.append("%s: %s" % (f.pretty, e))
            return None
        if any(r is None for r in res):
            return None
        for rep in outs:
            k = Point(rep, CURVE[rep])
            got = [k.affine(ob0, r) for r in res]
            for label, coef, rs, spec, extra in self.menu(ins, rep):
                want = [rs(*[p[nm] for nm, _ in ins]) for p, _ in samples]
                if got != [tuple(x % P for x in w) for w in want]:
                    continue
                ob = PairOp(self, f, ins, alias, spec, rs, (rep, CURVE[rep]), extra)
                if ob.proved():
                    full = [0] * len(reps)
                    for c, i in zip(coef, idx):
                        full[i] = c
                    return rep, full, "%s -> %s: %s" % (",".join(reps), rep, label)
                self.notes.append("%s behaves like %s on samples but that is not proved: %s" % (f.pretty, label, ob.why))
        return None

    def menu(self, ins, rep):
        import curve
        c = [k.curve for _, k in ins]
        out = CURVE[rep]
        cv = D[out]
        if len(ins) == 1:
            if c[0] == out:
                yield "P", (1,), lambda p: p, curve.id4, None
                yield "2P", (2,), lambda p: ref.add(cv, p, p), lambda p: curve.want_add(out, p, p), None
                yield "-P", (-1,), ref.neg, curve.neg4, None
            elif c[0] == "ed":
                yield "isogeny", (1,), lambda p: ref.iso(1, p), lambda S: isoform(S, 1), 1
            else:
                yield "isogeny", (4,), lambda p: ref.iso(-1, p), lambda S: isoform(S, -1), -1
        elif len(ins) == 2 and c[0] == c[1] == out:
            yield "P+Q", (1, 1), lambda p, q: ref.add(cv, p, q), lambda p, q: curve.want_add(out, p, q), None
            yield "P-Q", (1, -1), lambda p, q: ref.add(cv, p, ref.neg(q)), lambda p, q: curve.want_add(out, p, q, -1), None
            yield "Q-P", (-1, 1), lambda p, q: ref.add(cv, q, ref.neg(p)), lambda p, q: curve.want_add(out, q, p, -1), None

    # ---- x-only ladder steps
    def ladder(self, m, f, pa):
        """f(&mut P, &mut Q, &u): P <- 2P, Q <- P+Q."""
        if m.base_u is None:
            return NotImplemented
        if not m.base_u.f and not m.base_u.c:
            return self.ladder0(m, f, pa)
        blocks = []
        fe = []
        for i, a in enumerate(pa):
            b = m.block(a, "mp")
            n = m.close(b, "mp") if b is not None else None
            if n is not None:
                blocks.append((i, n))
                continue
            v = m.read_fe(a)
            if v is None or m.base_u is None or v.key() != m.base_u.key():
                return NotImplemented
            fe.append(i)
        if not blocks or len(fe) > 1:
            return NotImplemented
        kinds = tuple("p" if any(i == j for j, _ in blocks) else "u" for i in range(len(pa)))
        key = (f.name, kinds)
        if key not in self.cache:
            self.cache[key] = None
            try:
                self.cache[key] = self.xonly(f, kinds)
            except (Unsupported, Panic, PathEnd, Infeasible) as e:
                self.notes.append("%s: %s" % (f.pretty, e))
        c = self.cache[key]
        if c is None:
            return NotImplemented
        ns = dict(blocks)
        new = {}
        for i, (law, x, y) in c.items():
            if law == "same":
                new[i] = ns[x]
            elif law == "dbl":
                new[i] = pscale(ns[x], 2)
            else:
                d = psub(ns[x], ns[y])
                sq = m.A.mul(d, d)
                if not (psub(sq, pconst(1))).is_const() or psub(sq, pconst(1)).const() != 0:
                    raise Unsupported("differential addition of points whose difference is not the base")
                new[i] = padd(ns[x], ns[y])
        for i, n in new.items():
            m.put(pa[i], m.token("mp", n))
        m.pused[(f.pretty, f.name, "x-only: %s" % sorted(c.items()))] = m.pused.get((f.pretty, f.name, "x-only: %s" % sorted(c.items())), 0) + 1
        return None

    def ladder0(self, m, f, pa):
        """With u = 0 as the difference: steps keep U W = 0."""
        off = layout.fields(self.prog, "mp")
        kinds, pts = [], []
        for a in pa:
            b = m.block(a, "mp")
            if b is not None and m.uw0(b):
                kinds.append("p")
                pts.append(a)
                continue
            v = m.read_fe(a)
            if v is None or v.c:
                return NotImplemented
            kinds.append("u")
        if not pts or kinds.count("u") > 1:
            return NotImplemented
        key = (f.name, tuple(kinds), 0)
        if key not in self.cache:
            self.cache[key] = False
            try:
                self.cache[key] = self.xzero(f, kinds)
            except (Unsupported, Panic, PathEnd, Infeasible) as e:
                self.notes.append("%s: %s" % (f.pretty, e))
        if not self.cache[key]:
            return NotImplemented
        for a in pts:
            m.write_fe(Ptr(a.o, a.off + off["U"]), m.R.var("z%d" % len(m.toks)))
            m.write_fe(Ptr(a.o, a.off + off["W"]), FV(0))
            m.toks.append(None)
        m.pused[(f.pretty, f.name, "U W = 0 in, W = 0 out")] = m.pused.get((f.pretty, f.name, "U W = 0 in, W = 0 out"), 0) + 1
        return None

    def xzero(self, f, kinds):
        import itertools
        off = layout.fields(self.prog, "mp")
        n = kinds.count("p")
        for zero in itertools.product("UW", repeat=n):
            m = FEM(self.prog, self.be)
            m.fork_ok = False
            R = m.R
            args, ps = [], []
            for k in kinds:
                if k == "u":
                    args.append(m.new_fe(FV(0)))
                    continue
                p = m.new(128, "mp")
                for c in "UW":
                    m.write_fe(Ptr(p.o, off[c]), FV(0) if zero[len(ps)] == c else R.var(c + str(len(ps))))
                ps.append(p)
                args.append(p)
            m.call(f, args)
            for p in ps:
                w = m.read_fe(Ptr(p.o, off["W"]))
                if w is None or w.c:
                    return False
            if m.pending or not R.check_log():
                return False
        return True

    def xonly(self, f, kinds):
        m = FEM(self.prog, self.be)
        m.fork_ok = False
        R = m.R
        args, pts = [], {}
        u = Num(R, R.var("u"))
        off = layout.fields(self.prog, "mp")
        for i, k in enumerate(kinds):
            if k == "u":
                args.append(m.new_fe(u.v))
                continue
            p = m.new(128, "mp%d" % i)
            U, W = Num(R, R.var("U%d" % i)), Num(R, R.var("W%d" % i))
            pts[i] = (U, W)
            m.write_fe(Ptr(p.o, off["U"]), U.v)
            m.write_fe(Ptr(p.o, off["W"]), W.v)
            args.append(p)
        m.call(f, args)
        out = {}
        for i in pts:
            p = args[i]
            a, b = (m.read_fe(Ptr(p.o, off[k])) for k in ("U", "W"))
            if a is None or b is None:
                raise Unsupported("ladder result")
            a, b = Num(R, a), Num(R, b)
            hit = None
            for law, x, y, (U, W) in self.xmenu(pts, u):
                for lam in (1, 4, 2, 16):
                    if not (a - U * lam).v.c and not (b - W * lam).v.c:
                        hit = (law, x, y)
                        break
                if hit:
                    break
            if hit is None:
                raise Unsupported("%s does not follow the x-only laws" % f.pretty)
            out[i] = hit
        if m.pending or not R.check_log():
            raise Unsupported("x-only identities not confirmed")
        return out

    def xmenu(self, pts, u):
        for i, (U, W) in pts.items():
            yield "same", i, i, (U, W)
            yield "dbl", i, i, xdbl(U, W)
        for i, (U, W) in pts.items():
            for j, (V, X) in pts.items():
                if i < j:
                    yield "add", i, j, xadd(U, W, V, X, u)


def xdbl(U, W):
    """Curve448 doubling, A = 156326."""
    return (U ** 2 - W ** 2) ** 2, 4 * U * W * (U ** 2 + 156326 * U * W + W ** 2)


def xadd(U, W, V, X, u):
    """Differential addition with affine difference u: (U V - W X)^2 : u (U X - W V)^2."""
    return (U * V - W * X) ** 2, u * (U * X - W * V) ** 2


def isoform(S, s):
    x, y = S["x"], S["y"]
    return 2 * x * y, y ** 2 - x ** 2 * s, y ** 2 + x ** 2 * s, 2 - y ** 2 - x ** 2 * s


_pc = {}


def PCON(prog, be):
    k = (id(prog), be)
    if k not in _pc:
        _pc[k] = PCon(prog, be)
    return _pc[k]


def PairOp(con, f, ins, alias, spec, rs, out, extra=None):
    import curve

    class Op(curve.PointOp):
        def __init__(self):
            curve.PointOp.__init__(self, con.be, f.pretty, None, ins, spec, rs, out, pair=True)
            self.f = f
            self.prog = con.prog
            self.why = ""

        def resolve(self):
            self.f = f

        def argv(self, p):
            return [p["P%d" % j] for j in alias]

        def call(self, m, p, S):
            o = m.new(self.outsize(), "out")
            m.call(self.f, [o] + self.argv(p))
            return curve.rdpoint(m, self, o, self.outrep)

        def relations(self, m, S):
            curve.PointOp.relations(self, m, S)
            if extra is not None:
                _, a, _, b = isoform(S["P0"], extra)
                curve.nz(m, a)
                curve.nz(m, b)

        def execute(self, vals):
            """The function on concrete points, by the executor."""
            m = FEM(con.prog, con.be)
            m.fork_ok = False
            p = {}
            for nm, k in ins:
                b = m.new(k.size, nm)
                for i, (fld, o) in enumerate(layout.fields(con.prog, k.rep).items()):
                    m.write_fe(Ptr(b.o, o), FV(k.split(self, vals[nm])[fld]))
                p[nm] = b
            o = m.new(self.outsize(), "out")
            m.call(self.f, [o] + self.argv(p))
            out = {}
            for fld, off in layout.fields(con.prog, self.outrep).items():
                v = m.read_fe(Ptr(o.o, off))
                if v is None or v.f:
                    return None
                out[off] = v.c
            data = b""
            for off in sorted(out):
                data += FEK.join(self, {"v": out[off]})
            return data

        def proved(self):
            import obl
            ctx = obl.Ctx(None, "quick", 1)
            ctx.progs[con.be] = con.prog
            try:
                st, c, notes = self.solve(ctx, None, None)
            except (Unsupported, Inconclusive) as e:
                st, notes = "unsupported", [str(e)]
            self.why = "; ".join(notes)[:300]
            return st == "holds"
    return Op()
