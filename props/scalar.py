"""C01-C05: scalar arithmetic modulo the group order."""
from obl import *
from spec import *

W = 0xffffffff
RED = [W] * 13 + [L >> 416]       # word bounds of a reduced scalar


def le(n, k):
    return n.to_bytes(k, "little")


def li(b):
    return int.from_bytes(b, "little")


EDGE = [0, 1, 2, 3, 4, L - 1, L - 2, (L - 1) // 2, (L + 1) // 2, L // 3, 2**445, 2**446 - 2**224, 2**224 - 1, 2**32 - 1, 2**32,
        2**416 - 1, 2**416, L - 2**32, L - 2**416, L - 2**31, 0xffffffff << 32, sum(0xffffffff << (64 * i) for i in range(7)) % L]
FULL = EDGE + [L, L + 1, 2**446, 2**447, 2**448 - 1, 2**448 - 2, 2**448 - 2**32, 2 * L, 2 * L - 1, 2 * L + 1, 3 * L, 2**448 - L]


def rnd(rng, n, top):
    k = rng.random()
    if k < 0.3:
        return rng.choice([x for x in FULL if x < top])
    if k < 0.6:     # words of all zeros / ones / random
        v = 0
        for i in range((n + 3) // 4):
            v |= rng.choice((0, W, rng.getrandbits(32), 1, 0x80000000)) << (32 * i)
        return v % top
    return rng.randrange(top)


def cut_scalars(m, f, args):
    """After a function that wrote a 56-byte scalar: name its words, and record as a lemma
    (decided by the solver) that it is reduced."""
    if not args or type(args[0]) is not Ptr or type(args[0].off) is not int or "sret([56 x i8])" not in f.header:
        return
    p = args[0]
    o, off = p.o, p.off
    if off + 56 > o.size or o.const:
        return
    ws = []
    for i in range(14):
        c = o.cells.get(off + 4 * i)
        if c is None or c[0] != 4 or not isinstance(c[1], (int, IV)):
            return
        ws.append(c[1])
    if max(len(w.p.t) if type(w) is IV else 0 for w in ws) <= 2:
        return
    ws = [m.uns(w, 32) for w in ws]
    val = ZERO
    for i, w in enumerate(ws):
        val = padd(val, pscale(m.P_(w), 1 << (32 * i)))
    if always_ge(m, val, timeout=5).st == "holds" and always_ge(m, psub(pconst(L - 1), val), timeout=5).st == "holds":
        nv = ZERO
        for i, w in enumerate(ws):
            if type(w) is IV:
                hi = min(w.hi, RED[i])
                w = IV(m.A.nm(w.p, 0, hi), 0, hi)
                m.write(o, off + 4 * i, 4, w)
            nv = padd(nv, pscale(m.P_(w), 1 << (32 * i)))
        m.A.assumed.append((">=", psub(pconst(L - 1), nv)))


class ScalarOp(Obligation):
    """out = op(operands) with a scalar result, or a contract on it."""
    backend = "u32b"      # scalar code is the same in both; the other backend is linked too

    def __init__(self, name, fn, ops, spec, mul=None, reduced=True, backend="u32b", out=56, claim=None):
        self.name, self.fn, self.ops, self.spec, self.reduced, self.backend = name, fn, ops, spec, reduced, backend
        self.bounds = "all %s of %s scalars (%d words of 32 bits each)" % (
            "pairs" if len(ops) == 2 else "values", "reduced" if reduced else "448-bit", 14)
        self.out = out
        self.claim = claim

    def inputs(self):
        return [(n, 56, 4, RED if self.reduced else None) for n in self.ops]

    def assume(self, m, bufs):
        return [(">=", psub(pconst(L - 1), b.val)) for b in bufs.values()] if self.reduced else []

    def valid(self, vals):
        return not self.reduced or all(li(v) < L for v in vals.values())

    def execute(self, m, bufs):
        o = m.new(56, "out")
        m.call(m.P.funcs[self.fn], [o] + [bufs[n].ptr for n in self.ops])
        return m.bytes_poly(o, 56)

    def claims(self, m, bufs, r):
        lhs, want = self.claim(m.A, r, *[bufs[n].val for n in self.ops])
        yield "congruent modulo the order", congruent(m, psub(lhs, want), L)
        yield "not negative", always_ge(m, r)
        yield "below the order", always_ge(m, psub(pconst(L - 1), r))

    def observe(self, m, bufs, r):
        return [r]

    def native_observe(self, nat, vals):
        return [li(nat.call(self.fn, bytes(56), *[vals[n] for n in self.ops])[1][0])]

    def check(self, nat, vals):
        got = self.native_observe(nat, vals)[0]
        want = self.spec(*[li(vals[n]) for n in self.ops])
        if got != want:
            return "%s(%s) = %x, expected %x" % (self.fn, ", ".join("%x" % li(vals[n]) for n in self.ops), got, want)

    def sample(self, rng):
        return {n: le(rnd(rng, 56, L if self.reduced else 2**448), 56) for n in self.ops}

    def corpus(self):
        E = EDGE if self.reduced else FULL
        E = [e for e in E if e < (L if self.reduced else 2**448)]
        if len(self.ops) == 1:
            return [{self.ops[0]: le(a, 56)} for a in E]
        return [{self.ops[0]: le(a, 56), self.ops[1]: le(b, 56)} for a in E for b in E]

    def fallbacks(self, rng):
        if len(self.ops) == 1:
            return []
        out = []
        for v in (1, L - 1, 2**224 - 1, rng.randrange(L), rng.randrange(L)):
            out.append({self.ops[1]: le(v, 56)})
            out.append({self.ops[0]: le(v, 56)})
        return out


def add_ob(be="u32b"):
    return ScalarOp("scalar add", "h_scalar_add", "ab", lambda a, b: (a + b) % L, claim=lambda A, r, a, b: (r, padd(a, b)), backend=be)


def sub_ob(be="u32b"):
    return ScalarOp("scalar subtract", "h_scalar_sub", "ab", lambda a, b: (a - b) % L, claim=lambda A, r, a, b: (r, psub(a, b)), backend=be)


def mul_ob(be="u32b"):
    return ScalarOp("scalar multiply", "h_scalar_mul", "ab", lambda a, b: a * b % L, reduced=False,
                    claim=lambda A, r, a, b: (r, A.mul(a, b)), backend=be)


def halve_ob(be="u32b"):
    return ScalarOp("scalar halve", "h_scalar_halve", "a", lambda a: a * (L + 1) // 2 % L,
                    claim=lambda A, r, a: (padd(r, r), a), backend=be)


# ---------------------------------------------------------------- inversion
class STok:
    """A scalar equal to k * a^e modulo the order; red: known to be below the order."""
    __slots__ = ("k", "e", "red")

    def __init__(self, k, e, red):
        self.k, self.e, self.red = k, e, red

    def mem_byte(self, m, i):
        raise Unsupported("word access to an abstract scalar at " + m.where())


class MontContract:
    """Finds functions f(out,&x,&y) with 2^448 * out = x*y mod l by proving it of their code."""
    CACHE = {}

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def prove(self, f, variant):
        """variant: 'value' (congruence, any operands), 'red' (both operands reduced -> result
        reduced), or ('cx', c) / ('cy', c): operand fixed to c -> result reduced."""
        key = (f.pretty, variant)
        r = self.CACHE.get(key)
        if r is None:
            r = self.CACHE[key] = self._prove(f, variant)
        return r

    def _prove(self, f, variant):
        for same in (False, True) if isinstance(variant, str) else (False,):
            m = Machine(self.prog)
            m.fork_ok = False
            his = RED if variant == "red" else None
            x = Buf(m, "x", 56, 4, his, fixed=le(variant[1], 56) if variant[0] == "cx" else None)
            y = x if same else Buf(m, "y", 56, 4, his, fixed=le(variant[1], 56) if variant[0] == "cy" else None)
            if variant == "red":
                m.A.assumed = [(">=", psub(pconst(L - 1), b.val)) for b in (x, y)]
            o = m.new(56, "out")
            try:
                m.run(f, [o, x.ptr, y.ptr])
                r = m.bytes_poly(o, 56)
            except (Unsupported, Panic):
                return False
            self.rep["functions"] |= m.called
            self.rep["steps"] += m.steps
            self.rep["claims"] += 1
            if variant == "value":
                v = congruent(m, psub(pscale(r, 1 << 448), m.A.mul(x.val, y.val)), L)
            else:
                v = always_ge(m, psub(pconst(L - 1), r))
                if v.st == "holds":
                    v = always_ge(m, r)
            if v.st != "holds":
                return False
        return True


class Invert(ScalarOp):
    def __init__(self, be="u32b"):
        ScalarOp.__init__(self, "scalar invert", "h_scalar_invert", "a", lambda a: pow(a, L - 2, L) if a % L else 0, reduced=False, backend=be)

    def solve(self, ctx, fixed=None, rep=None):
        self.rep = rep
        return ScalarOp.solve(self, ctx, fixed, rep)

    def prepare(self, m):
        con = MontContract(m.P, self.rep)

        def pat(name):
            return "ed448_goldilocks" in name

        def h(m, f, a):
            if len(a) != 3 or not all(type(x) is Ptr and type(x.off) is int for x in a):
                return NotImplemented
            x, y = self.tok(m, a[1]), self.tok(m, a[2])
            if x is None or y is None or not (x.e or y.e):
                return NotImplemented
            if a[0].off + 56 > a[0].o.size or not con.prove(f, "value"):
                return NotImplemented
            k = x.k * y.k * pow(2**448, -1, L) % L
            if x.red and y.red:
                red = con.prove(f, "red")
            elif not x.e:
                red = x.red and con.prove(f, ("cx", x.k))
            elif not y.e:
                red = y.red and con.prove(f, ("cy", y.k))
            else:
                red = False
            m.write(a[0].o, a[0].off, 56, STok(k, x.e + y.e, red))
            return None
        m.patterns.append((pat, h))

    def tok(self, m, p):
        o, off = p.o, p.off
        if off + 56 > o.size:
            return None
        c = o.cells.get(off)
        if c is not None and c[0] == 56 and isinstance(c[1], STok):
            return c[1]
        try:
            v = m.bytes_poly(p, 56)
        except Unsupported:
            return None
        if v.is_const():
            return STok(v.const() % L, 0, v.const() < L)
        return None

    def execute(self, m, bufs):
        o = m.new(56, "out")
        i = m.new(56, "a")
        m.write(i.o, 0, 56, STok(1, 1, False))
        m.call(m.P.funcs[self.fn], [o, i])
        t = self.tok(m, o)
        if t is None:
            raise Unsupported("inversion result not tracked")
        return t

    def claims(self, m, bufs, t):
        e = t.e
        txt = "(set-logic ALL)(declare-const e Int)(declare-const k Int)(assert (and (= e %d) (= k %d)))" % (e, t.k)
        txt += "(assert (not (and (> e 0) (= k 1) (= (mod (+ e 1) %d) 0))))(check-sat)" % (L - 1)
        st, _ = run_smt(txt, 10)
        yield "exponent is -1 modulo l-1", HOLDS if st == "unsat" else Verdict("fails", {}, "a^%d" % e)
        yield "result reduced", HOLDS if t.red else Verdict("unknown", {}, "not reduced")

    def observe(self, m, bufs, r):
        return None


# ---------------------------------------------------------------- encodings
class Bytes(Obligation):
    """An operation on byte strings and scalars whose outputs are given by polynomials."""

    def __init__(self, name, fn, ins, outs, claim, ret=None, backend="u32b", bounds="", red=False):
        self.name, self.fn, self.ins, self.outs, self.claim, self.ret, self.backend = name, fn, ins, outs, claim, ret, backend
        self.bounds = bounds
        self.red = red

    def inputs(self):
        return [(n, s, w, None) for n, s, w in self.ins]

    def execute(self, m, bufs):
        outs = [m.new(s, "out%d" % i) for i, s in enumerate(self.outs)]
        r = m.call(m.P.funcs[self.fn], outs + [bufs[n].ptr for n, _, _ in self.ins])
        if self.ret == "bool":
            r = m.uns(r, 8)
        return outs, r

    def claims(self, m, bufs, res):
        return self.claim(m, bufs, res[0], res[1])

    def observe(self, m, bufs, res):
        out = []
        if self.ret == "bool":
            out.append(m.P_(res[1]))
            if type(res[1]) is not int or res[1] == 0:
                if self.ret and self.outs:
                    return out
        for o, s in zip(res[0], self.outs):
            out.append(m.bytes_poly(o, s))
        return out

    def native_observe(self, nat, vals):
        ret, bufs = nat.call(self.fn, *([bytes(s) for s in self.outs] + [vals[n] for n, _, _ in self.ins]))
        out = [ret & 255] if self.ret == "bool" else []
        if self.ret == "bool" and self.outs and not ret & 255:
            return out
        return out + [li(b) for b in bufs[:len(self.outs)]]

    def check(self, nat, vals):
        got = self.native_observe(nat, vals)
        want = self.spec(*[li(vals[n]) for n, _, _ in self.ins])
        if got != want:
            return "%s(%s) = %s, expected %s" % (self.fn, ", ".join(vals[n].hex() for n, _, _ in self.ins),
                                                 ["%x" % x for x in got], ["%x" % x for x in want])

    def sample(self, rng):
        return {n: le(rnd(rng, s, 1 << (8 * s)), s) for n, s, _ in self.ins}

    def corpus(self):
        for n, s, _ in self.ins:
            pass
        base = [x for x in FULL]
        if len(self.ins) == 1:
            n, s, _ = self.ins[0]
            ext = base + [x << 448 for x in (1, 2, 255) if s > 56] + [L + (1 << 448)] + [1 << (8 * i + j) for i in range(s) for j in (0, 6, 7)]
            return [{n: le(x % (1 << (8 * s)), s)} for x in ext]
        if not self.ins:
            return [{}]
        (n, s, _), (k, t, _) = self.ins
        if s != t:
            return [{n: le(a % (1 << 8 * s), s), k: le(b, t)} for a in base for b in (0, 1, 255, 1 << 31, (1 << 32) - 1)]
        out = [{n: le(a, s), k: le(b, t)} for a in base for b in base]
        out += [{n: le(a, s), k: le(a ^ (1 << j), t)} for a in (0, 5, L - 1) for j in range(448)]
        return out


def eq_claim(m, b, bit):
    """bit (0/1 polynomial or int) <=> poly b == 0"""
    A = m.A
    p = m.P_(bit)
    # bit=1 and b != 0 infeasible; bit=0 and b == 0 infeasible
    st1, mod1 = m.lia.query(lambda enc: [enc.eq(psub(p, pconst(1))), "(not %s)" % enc.eq(b)], m.path, model=True)
    if st1 != "unsat":
        return Verdict("fails" if st1 == "sat" else "unknown", mod1, "true for different values")
    st0, mod0 = m.lia.query(lambda enc: ["(not %s)" % enc.eq(psub(p, pconst(1))), enc.eq(b)], m.path, model=True)
    if st0 != "unsat":
        return Verdict("fails" if st0 == "sat" else "unknown", mod0, "false for equal values")
    return HOLDS


def codec_obs(be="u32b"):
    obs = []

    def c(m, b, outs, r):
        yield "value preserved", always_eq(m, psub(m.bytes_poly(outs[0], 56), b["a"].val))
    o = Bytes("scalar from bytes", "h_scalar_from_bytes", [("a", 56, 1)], [56], c, bounds="all 56-byte strings", backend=be)
    o.spec = lambda a: [a]
    obs.append(o)
    o = Bytes("scalar to bytes", "h_scalar_to_bytes", [("a", 56, 4)], [56], c, bounds="all 448-bit scalars", backend=be)
    o.spec = lambda a: [a]
    obs.append(o)

    def c57(m, b, outs, r):
        yield "value preserved, last byte zero", always_eq(m, psub(m.bytes_poly(outs[0], 57), b["a"].val))
    o = Bytes("scalar to 57 bytes", "h_scalar_to_bytes57", [("a", 56, 4)], [57], c57, bounds="all 448-bit scalars", backend=be)
    o.spec = lambda a: [a]
    obs.append(o)

    def ccan(m, b, outs, r):
        v = b["a"].val
        if type(r) is not int:
            raise Unsupported("symbolic option")
        if r:
            yield "accepted only below the order", always_ge(m, psub(pconst(L - 1), v))
            yield "value preserved", always_eq(m, psub(m.bytes_poly(outs[0], 56), v))
        else:
            yield "rejected only from the order up", always_ge(m, psub(v, pconst(L)))
    o = Bytes("scalar from canonical bytes", "h_scalar_from_canonical", [("a", 57, 1)], [56], ccan, ret="bool", bounds="all 57-byte strings", backend=be)
    o.spec = lambda a: [1, a] if a < L else [0]
    obs.append(o)

    def ceq(m, b, outs, r):
        yield "equal exactly when the encodings are", eq_claim(m, psub(b["a"].val, b["b"].val), r)
    for nm, fn in (("scalar ==", "h_scalar_eq"), ("scalar ct_eq", "h_scalar_cteq")):
        o = Bytes(nm, fn, [("a", 56, 4), ("b", 56, 4)], [], ceq, ret="bool", bounds="all pairs of 448-bit scalars", backend=be)
        o.spec = lambda a, b: [int(a == b)]
        obs.append(o)
    o = Bytes("scalar from a 32-bit integer", "h_scalar_from_u32", [("a", 4, 4)], [56], c, bounds="all 32-bit integers", backend=be)
    o.spec = lambda a: [a]
    obs.append(o)

    def cbits(m, b, outs, r):
        v = ZERO
        for i in range(448):
            v = padd(v, pscale(m.P_(m.uns(m.read(outs[0].o, i, 1), 8)), 1 << i))
        yield "448 of them", HOLDS if r == 448 else Verdict("fails", {}, "%s" % (r,))
        yield "they are the binary digits", always_eq(m, psub(v, b["a"].val))
    o = Bits("scalar bits", "h_scalar_bits", [("a", 56, 4)], [448], cbits, bounds="all 448-bit scalars", backend=be)
    o.spec = lambda a: [sum((a >> i & 1) << (8 * i) for i in range(448))]
    obs.append(o)
    for nm, fn, v in (("scalar zero", "h_scalar_zero", 0), ("scalar one", "h_scalar_one", 1), ("scalar default", "h_scalar_default", 0)):
        def cc(m, b, outs, r, v=v):
            yield "value", always_eq(m, psub(m.bytes_poly(outs[0], 56), pconst(v)))
        o = Bytes(nm, fn, [], [56], cc, bounds="no inputs", backend=be)
        o.spec = lambda v=v: [v]
        obs.append(o)
    for i in range(14):
        def ci(m, b, outs, r, i=i):
            yield "word", always_eq(m, psub(m.bytes_poly(outs[0], 4), b["a"].words[i]))
        o = Index("scalar word %d" % i, "h_scalar_index", [("a", 56, 4)], [4], ci, bounds="all 448-bit scalars", backend=be)
        o.i = i
        o.spec = lambda a, i=i: [a >> (32 * i) & 0xffffffff]
        obs.append(o)

        def cs(m, b, outs, r, i=i):
            w = b["a"].val
            w = padd(psub(w, pscale(b["a"].words[i], 1 << (32 * i))), pscale(b["w"].words[0], 1 << (32 * i)))
            yield "only that word changes", always_eq(m, psub(m.bytes_poly(outs[0], 56), w))
        o = Index("scalar set word %d" % i, "h_scalar_set", [("a", 56, 4), ("w", 4, 4)], [56], cs, bounds="all 448-bit scalars", backend=be)
        o.i = i
        o.spec = lambda a, w, i=i: [a & ~(0xffffffff << (32 * i)) | w << (32 * i)]
        obs.append(o)
    return obs


class Bits(Bytes):
    def check(self, nat, vals):
        ret, bufs = nat.call(self.fn, bytes(448), vals["a"])
        want = self.spec(li(vals["a"]))
        if ret != 448 or [li(bufs[0])] != want:
            return "bits(%s) = %d bits %s" % (vals["a"].hex(), ret, bufs[0].hex())


class Index(Bytes):
    """Access to word i."""

    def execute(self, m, bufs):
        outs = [m.new(s, "out%d" % i) for i, s in enumerate(self.outs)]
        q = m.new(8, "i")
        m.write(q.o, 0, 8, self.i)
        a = [bufs[n].ptr for n, _, _ in self.ins]
        return outs, m.call(m.P.funcs[self.fn], outs + [a[0], q] + a[1:])

    def native_observe(self, nat, vals):
        a = [vals[n] for n, _, _ in self.ins]
        _, bufs = nat.call(self.fn, *([bytes(s) for s in self.outs] + [a[0], le(self.i, 8)] + a[1:]))
        return [li(b) for b in bufs[:len(self.outs)]]


class Wide(Bytes):
    def solve(self, ctx, fixed=None, rep=None):
        self.rep = rep if rep is not None else {"functions": set(), "steps": 0, "claims": 0}
        return Bytes.solve(self, ctx, fixed, rep)

    def prepare(self, m):
        m.posthook = cut_scalars
        con = MontContract(m.P, self.rep)

        def h(m, f, a):
            if len(a) != 3 or not all(type(x) is Ptr and type(x.off) is int for x in a):
                return NotImplemented
            if any(p.off + 56 > p.o.size for p in a):
                return NotImplemented
            try:
                x, y = m.bytes_poly(a[1], 56), m.bytes_poly(a[2], 56)
            except Unsupported:
                return NotImplemented
            if x.is_const():
                x, y, v = y, x, "cx"
            else:
                v = "cy"
            if x.is_const() or not y.is_const():
                return NotImplemented
            c = y.const()
            if not con.prove(f, "value") or not con.prove(f, (v, c)):
                return NotImplemented
            # result r = k*x - l*q, 0 <= r < l, in words w13..w0
            A = m.A
            kx = pscale(x, c * pow(2**448, -1, L) % L)
            hi = A.range2(kx)[1]
            q = patom(A._new("con", lambda ev: ev.poly(kx) // L, 0, hi // L))
            r = psub(kx, pscale(q, L))
            rest = r
            for i in range(13, -1, -1):
                if i:
                    w = patom(A._new("con", lambda ev, i=i: ev.poly(r) >> (32 * i) & W, 0, RED[i]))
                    rest = psub(rest, pscale(w, 1 << (32 * i)))
                else:
                    w = A.nm(rest, 0, W)
                m.write(a[0].o, a[0].off + 4 * i, 4, IV(w, 0, RED[i]))
            A.assumed.append((">=", psub(pconst(L - 1), m.bytes_poly(a[0], 56))))
            return None
        m.patterns.append((lambda n: "ed448_goldilocks" in n, h))

    def sample(self, rng):
        return {"a": le(rnd(rng, 114, 1 << 912), 114)}

    def corpus(self):
        xs = FULL + [x << 448 for x in FULL] + [x << 896 for x in (1, 2, 0x8000, 0xffff)] + [2**912 - 1, 2**912 - L, L << 448, L * L]
        xs += [(2**912 - 1) // L * L, (2**912 - 1) // L * L - 1]
        return [{"a": le(x % 2**912, 114)} for x in xs]


def wide_claim(m, b, outs, r):
    v = m.bytes_poly(outs[0], 56)
    yield "congruent modulo the order", congruent(m, psub(v, b["a"].val), L)
    yield "not negative", always_ge(m, v)
    yield "below the order", always_ge(m, psub(pconst(L - 1), v))


def wide_ob(be="u32b"):
    o = Wide("scalar wide reduction", "h_scalar_wide", [("a", 114, 1)], [56], wide_claim, bounds="all 114-byte strings", backend=be)
    o.spec = lambda a: [a % L]
    return o


class Random(Wide):
    def execute(self, m, bufs):
        out, drawn = m.new(56, "out"), m.new(8, "drawn")
        m.call(m.P.funcs["h_scalar_random"], [out, bufs["a"].ptr, drawn])
        return [out, drawn], None

    def claims(self, m, bufs, res):
        yield from wide_claim(m, bufs, res[0], None)
        d = m.bytes_poly(res[0][1], 8)
        yield "exactly 114 bytes drawn", always_eq(m, psub(d, pconst(114)))

    def observe(self, m, bufs, res):
        return [m.bytes_poly(res[0][0], 56), m.bytes_poly(res[0][1], 8)]

    def native_observe(self, nat, vals):
        _, b = nat.call("h_scalar_random", bytes(56), vals["a"] + bytes(400), bytes(8))
        return [li(b[0]), li(b[2])]


def random_ob(be="u32b"):
    o = Random("random scalar", "h_scalar_random", [("a", 114, 1)], [56, 8], None, bounds="all 114-byte generator outputs", backend=be)
    o.spec = lambda a: [a % L, 114]
    return o
