"""C06-C08: field arithmetic and encodings at limb level, both backends."""
from obl import *
from spec import *
import limbs
from limbs import REP, febuf, readfe, value_of, limbs_of, from_limbs
from scalar import li, le, eq_claim

ARGS = {"mul": "ab", "add": "ab", "sub": "ab", "neg": "a", "square": "a", "copy": "a", "select": "abc", "assign": "abc",
        "swap": "abc", "cneg": "ac", "to_bytes": "a", "sign": "a", "is_zero": "a", "ct_eq": "ab", "eq": "ab", "from_bytes": "s",
        "reduce": "a", "mula": "ab", "adda": "ab", "suba": "ab"}
SPEC = {"mul": lambda a, b: a * b, "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "neg": lambda a: -a, "square": lambda a: a * a,
        "mula": lambda a, b: a * b, "adda": lambda a, b: a + b, "suba": lambda a, b: a - b, "reduce": lambda a: a}
TITLE = {"mul": "field multiply", "add": "field add", "sub": "field subtract", "neg": "field negate", "square": "field square",
         "copy": "field copy", "select": "field conditional select", "assign": "field conditional assign", "swap": "field conditional swap",
         "cneg": "field conditional negate", "to_bytes": "field encode", "sign": "field sign", "is_zero": "field is-zero",
         "ct_eq": "field ct_eq", "eq": "field ==", "from_bytes": "field decode",
         "reduce": "field reduce in place", "mula": "field multiply in place", "adda": "field add in place", "suba": "field subtract in place"}


class FieldOp(Obligation):
    def __init__(self, role, be, wide=False):
        self.role, self.backend, self.wide = role, be, wide
        self.name = TITLE[role] + (" (constants)" if wide else "")
        self.args = ARGS[role]
        self.bounds = "all representations within the limb bounds closed under the field operations" + (
            " widened to hold the built-in constants" if wide else "") if "a" in self.args else "all 56-byte strings"

    # ---- set-up
    cut = False

    def _run(self, ctx, rng, rep, nat):
        Obligation._run(self, ctx, rng, rep, nat)
        if self.cut and rep["status"] == "holds":
            rep["status"] = "holds-reduced"
            rep["notes"].append("limb bounds of the operations not derived; decided for limbs up to %x" % limbs.cap(self.backend))

    def _try(self, nat, vals, rep, why):
        c = limbs.cap(self.backend)
        top = max([0] + [max(limbs_of(self.backend, v)) for k, v in vals.items() if k in "ab"])
        if top > c and top > 1.15 * limbs.hull(self.prog, self.backend, nat):
            return False
        return Obligation._try(self, nat, vals, rep, why)

    def solve(self, ctx, fixed=None, rep=None):
        self.setup(ctx)
        if not self.funcs:
            return "holds", [], ["no such function in this tree"]
        tot = ("holds", [], [])
        paths = []
        for f in self.funcs:
            self.f = f
            st, c, n = Obligation.solve(self, ctx, fixed, rep)
            paths += self.paths
            if st != "holds":
                tot = (st if tot[0] != "fails" else "fails", tot[1] + c, tot[2] + [f.pretty + ": " + x for x in n])
        self.paths = paths
        return tot

    def setup(self, ctx):
        prog = self.prog = ctx.progs[self.backend]
        self.funcs = limbs.functions(prog).get(self.role, [])
        box, stable, failed, self.cut = limbs.bounded(ctx, self.backend)
        self.outbox = box
        if self.wide:
            for c in limbs.constants(prog, self.backend):
                box = limbs.join(box, c)
        self.box = box
        self.stable = stable
        self.unstable = failed

    def inputs(self):
        w = REP[self.backend][1]
        out = []
        for a in self.args:
            out.append((a, 1, 1, [1]) if a == "c" else (a, 56, 1, None) if a == "s" else (a, 64, w, list(self.box)))
        return out

    def valid(self, vals):
        return all(all(x <= y for x, y in zip(limbs_of(self.backend, v), self.box)) for k, v in vals.items() if k in "ab")

    # ---- execution
    def execute(self, m, bufs):
        for a in bufs:
            if a in "ab":
                bufs[a].fe = limbs.fevalue(self.backend, bufs[a].words)
        r = self.role
        p = {a: b.ptr for a, b in bufs.items()}
        c = None
        if "c" in bufs:
            w = bufs["c"].words[0]
            c = w.const() if w.is_const() else IV(w, 0, 1)
        if r in ("ct_eq", "eq"):
            v = m.run(self.f, [p["a"], p["b"]])
            return m.uns(v, 1 if r == "eq" else 8)
        if r in ("sign", "is_zero"):
            return m.uns(m.run(self.f, [p["a"]]), 8)
        if r == "to_bytes":
            o = m.new(56, "out")
            m.run(self.f, [o, p["a"]])
            return m.bytes_poly(o, 56)
        if r == "cneg":
            m.run(self.f, [p["a"], c])
            return [readfe(m, self.backend, p["a"])]
        if r in ("reduce", "mula", "adda", "suba"):
            m.run(self.f, [p[x] for x in self.args])
            return [readfe(m, self.backend, p["a"])]
        if r == "assign":
            m.run(self.f, [p["a"], p["b"], c])
            return [readfe(m, self.backend, p["a"])]
        if r == "swap":
            m.run(self.f, [p["a"], p["b"], c])
            return [readfe(m, self.backend, p["a"]), readfe(m, self.backend, p["b"])]
        o = m.new(64, "out")
        if r == "from_bytes":
            m.run(self.f, [o, p["s"]])
        elif r == "select":
            m.run(self.f, [o, p["a"], p["b"], c])
        else:
            m.run(self.f, [o] + [p[x] for x in self.args])
        return [readfe(m, self.backend, o)]

    def want(self, m, bufs):
        r = self.role
        A = m.A
        v = {a: bufs[a].fe for a in bufs if a in "ab"}
        if r in ("mul", "mula"):
            return [A.mul(v["a"], v["b"])]
        if r == "square":
            return [A.mul(v["a"], v["a"])]
        if r in ("add", "adda"):
            return [padd(v["a"], v["b"])]
        if r in ("sub", "suba"):
            return [psub(v["a"], v["b"])]
        if r == "neg":
            return [pscale(v["a"], -1)]
        if r in ("copy", "reduce"):
            return [v["a"]]
        c = bufs["c"].words[0]
        if r == "cneg":
            return [psub(v["a"], pscale(A.mul(c, v["a"]), 2))]
        d = A.mul(c, psub(v["b"], v["a"]))
        if r in ("select", "assign"):
            return [padd(v["a"], d)]
        return [padd(v["a"], d), psub(v["b"], d)]

    def claims(self, m, bufs, res):
        r = self.role
        if r == "to_bytes":
            asm, cans = self.canon(m, bufs)
            yield "the representative below p", self.query(m, asm, ["ne", psub(res, cans[0])])
        elif r == "from_bytes":
            yield "congruent modulo p", congruent(m, psub(res[0][0], bufs["s"].val), P)
            yield "limbs within bounds", self.inbox(res[0][1])
        elif r in ("sign", "is_zero", "ct_eq", "eq"):
            yield from self.predicate(m, bufs, res)
        else:
            if not self.stable:
                yield "limb bounds stabilise", Verdict("unknown", None, str(self.unstable[:3]))
            for (v, box), w in zip(res, self.want(m, bufs)):
                yield "congruent modulo p", congruent(m, psub(v, w), P)
                yield "limbs within bounds", self.inbox(box)

    def inbox(self, his):
        if self.cut:
            return HOLDS
        return HOLDS if all(x <= y for x, y in zip(his, self.outbox)) else Verdict("unknown", {}, "limbs up to %s" % [hex(x) for x in his])

    def predicate(self, m, bufs, bit):
        """Decided against the quotient q with a = canonical + p*q, 0 <= canonical < p."""
        A = m.A
        b = m.P_(bit)
        asm, cans = self.canon(m, bufs)
        yield from self._pred(m, A, b, asm, cans)

    def canon(self, m, bufs):
        A = m.A
        cans = []
        asm = []
        for n in self.args:
            v = bufs[n].fe
            lo, hi = A.range(v)
            q = A.input("q" + n, 0, hi // P)
            c = psub(v, pscale(q, P))
            asm += [(">=", c), (">=", psub(pconst(P - 1), c))]
            cans.append(c)
        return asm, cans

    def _pred(self, m, A, b, asm, cans):
        yield "zero or one", self.query(m, asm, ["not", ("01", b)])
        if self.role == "sign":
            h = A.input("h", 0, P)
            low = psub(cans[0], pscale(h, 2))
            asm += [(">=", low), (">=", psub(pconst(1), low))]
            yield "lowest bit of the reduced value", self.query(m, asm, ["ne", psub(b, low)])
            return
        d = cans[0] if self.role == "is_zero" else psub(cans[0], cans[1])
        yield "true only for congruent values", self.query(m, asm, ["eq", psub(b, pconst(1)), "ne", d])
        yield "false only for different values", self.query(m, asm, ["eq", b, "eq", d])

    def query(self, m, asm, lits):
        def build(enc):
            out = [enc.ge(p) for _, p in asm]
            if lits[0] == "not":
                p = lits[1][1]
                return out + ["(not (or %s %s))" % (enc.eq(p), enc.eq(psub(p, pconst(1))))]
            for k, p in zip(lits[::2], lits[1::2]):
                out.append(enc.eq(p) if k == "eq" else "(not %s)" % enc.eq(p))
            return out
        st, mod = m.lia.query(build, m.path, model=True)
        if st == "unsat":
            return HOLDS
        return Verdict("fails" if st == "sat" else "unknown", mod, "predicate")

    # ---- concrete side
    def native(self, nat, f, vals):
        r = self.role
        s = f.name
        if r in ("ct_eq", "eq"):
            return [nat.call(s, vals["a"], vals["b"])[0] & 255]
        if r in ("sign", "is_zero"):
            return [nat.call(s, vals["a"])[0] & 255]
        if r == "to_bytes":
            return [li(nat.call(s, bytes(56), vals["a"])[1][0])]
        if r == "from_bytes":
            return [nat.call(s, bytes(64), vals["s"])[1][0]]
        if r in ("reduce", "mula", "adda", "suba"):
            return [nat.call(s, *[vals[x] for x in self.args])[1][0]]
        if r == "cneg":
            return [nat.call(s, vals["a"], vals["c"][0])[1][0]]
        if r == "assign":
            return [nat.call(s, vals["a"], vals["b"], vals["c"][0])[1][0]]
        if r == "swap":
            return nat.call(s, vals["a"], vals["b"], vals["c"][0])[1][:2]
        if r == "select":
            return [nat.call(s, bytes(64), vals["a"], vals["b"], vals["c"][0])[1][0]]
        return [nat.call(s, bytes(64), *[vals[x] for x in self.args])[1][0]]

    def spec(self, vals):
        r = self.role
        v = {a: value_of(self.backend, x) % P for a, x in vals.items() if a in "ab"}
        if r in SPEC:
            return [SPEC[r](*[v[x] for x in self.args]) % P]
        if r == "copy":
            return [v["a"]]
        if r == "to_bytes":
            return [v["a"]]
        if r == "sign":
            return [v["a"] & 1]
        if r == "is_zero":
            return [int(v["a"] == 0)]
        if r in ("ct_eq", "eq"):
            return [int(v["a"] == v["b"])]
        if r == "from_bytes":
            return [li(vals["s"]) % P]
        c = vals["c"][0]
        if r == "cneg":
            return [-v["a"] % P if c else v["a"]]
        if r in ("select", "assign"):
            return [v["b"] if c else v["a"]]
        return [v["b"], v["a"]] if c else [v["a"], v["b"]]

    def check(self, nat, vals):
        for f in self.funcs:
            got = self.native(nat, f, vals)
            want = self.spec(vals)
            for g, w in zip(got, want):
                bad = None
                if isinstance(g, int):
                    if g != w:
                        bad = "%x" % g
                else:
                    if value_of(self.backend, g) % P != w:
                        bad = "%x" % (value_of(self.backend, g) % P)
                    elif self.stable and not self.cut and any(x > y for x, y in zip(limbs_of(self.backend, g), self.outbox)):
                        bad = "limbs " + g.hex()
                if bad:
                    return "%s(%s) = %s, expected %x" % (f.pretty, ", ".join("%s=%s" % (k, bytes(v).hex()) for k, v in vals.items()), bad, w)

    def observe(self, m, bufs, res):
        return None

    def validate(self, ctx, rng, rep, nat):
        n = 0
        for _ in range(6):
            vals = self.sample(rng)
            if self._try(nat, vals, rep, "validation input"):
                return
            for f in self.funcs:
                self.f = f
                m, bufs = self.machine(ctx, [], fixed=vals)
                try:
                    res = self.execute(m, bufs)
                except Exception as e:
                    rep["notes"].append("concrete run: %s" % e)
                    continue
                if isinstance(res, list):
                    pred = [p.const() for p, _ in res]
                else:
                    pred = [m.P_(res).const() if not isinstance(res, Poly) else res.const()]
                got = [g if isinstance(g, int) else value_of(self.backend, g) for g in self.native(nat, f, vals)]
                if pred != got:
                    rep["status"] = "undecided"
                    rep["notes"].append("translator mismatch: %r %r" % (pred, got))
                    return
                n += 1
        rep["validated"] = n

    def element(self, rng):
        k = rng.random()
        be = self.backend
        if k < 0.2:
            return from_limbs(be, [rng.choice((0, b)) for b in self.box])
        if k < 0.5:
            return from_limbs(be, [rng.choice((0, 1, b, b - 1, rng.randint(0, b))) for b in self.box])
        if k < 0.7:
            return limbs.encode(be, rng.choice([0, 1, 2, P - 1, P, P + 1, P - 2, 2**448 - 1, 2**224, 2**224 - 1, 2**224 + 1, (P - 1) // 2]))
        return limbs.encode(be, rng.getrandbits(448))

    def sample(self, rng):
        out = {}
        for a in self.args:
            out[a] = bytes([rng.getrandbits(1)]) if a == "c" else le(li(limbs_bytes(rng)), 56) if a == "s" else self.element(rng)
        return out

    def corpus(self):
        be = self.backend
        n, w, rad = REP[be]
        vs = [0, 1, P - 1, P, P + 1, P - 2, 2**448 - 1, 2**224, 2**224 - 1, 2**447, (P + 1) // 2]
        es = [limbs.encode(be, v) for v in vs] + [from_limbs(be, self.box), from_limbs(be, [b - 1 for b in self.box])]
        es += [from_limbs(be, [self.box[j] if i == j else 0 for j in range(n)]) for i in range(n)]
        es += [from_limbs(be, [(1 << rad) - 1 if i == j else 0 for j in range(n)]) for i in range(n)]
        es += [from_limbs(be, [0 if i == j else self.box[j] for j in range(n)]) for i in range(n)]
        es += [from_limbs(be, [self.box[j] if j < i else 0 for j in range(n)]) for i in range(n)]
        es += [from_limbs(be, [self.box[j] if j >= i else 0 for j in range(n)]) for i in range(n)]
        es = [e for e in es if all(x <= y for x, y in zip(limbs_of(be, e), self.box))]
        out = []
        a = self.args
        for e in es if "a" in a else []:
            for f in es if "b" in a else [None]:
                for c in (b"\0", b"\1") if "c" in a else [None]:
                    v = {"a": e}
                    if f is not None:
                        v["b"] = f
                    if c is not None:
                        v["c"] = c
                    out.append(v)
        if a == "s":
            out = [{"s": le(v, 56)} for v in vs] + [{"s": le(1 << i, 56)} for i in range(448)] + [{"s": le(2**448 - 1 - (1 << i), 56)} for i in range(448)]
        return out

    def fallbacks(self, rng):
        if "b" not in self.args:
            return []
        out = []
        for _ in range(3):
            out.append({"b": self.element(rng)})
            out.append({"a": self.element(rng)})
        return out


def limbs_bytes(rng):
    if rng.random() < 0.3:
        return le(rng.choice([0, 1, P, P - 1, P + 1, 2**448 - 1, 2**224]), 56)
    return bytes(rng.choice((0, 255, rng.getrandbits(8))) if rng.random() < .3 else rng.getrandbits(8) for _ in range(56))


def arith(be):
    obs = [FieldOp(r, be) for r in ("mul", "square", "add", "sub", "neg", "copy", "select", "assign", "swap", "cneg", "reduce")]
    return obs + [FieldOp("mul", be, True), FieldOp("square", be, True)]


def codecs(be):
    return [FieldOp(r, be) for r in ("to_bytes", "from_bytes", "ct_eq", "eq", "sign", "is_zero")]
