"""C24 (constant time) and C25 (no panics): control flow of the real code with field values abstracted.

Field operations are replaced, where their limb code has been shown elsewhere in the same check, by operations
that return an arbitrary field element, an arbitrary bit or arbitrary bytes, so that what is shown holds whatever
the values are.  Scalars, digits, loop counters and indices are executed exactly."""
import random
import field, scalar, group, ref
from curveob import *
from groups import GM
from spec import P, L


class OPM(GM):
    """Executor whose field operations return arbitrary results."""
    def __init__(self, prog, be, decisions=None, **kw):
        GM.__init__(self, prog, be, decisions=decisions, **kw)
        self.scalars = None          # summaries of scalar functions, {name: bool}
        self.digits = True

    def bin(self, op, w, a, b):
        return GM.bin(self, op, w, a, b) if self.digits else FEM.bin(self, op, w, a, b)

    def icmp(self, c, w, a, b):
        return GM.icmp(self, c, w, a, b) if self.digits else FEM.icmp(self, c, w, a, b)

    def hook(self, m, f, args):
        c = self.con.lookup(self, f, args)
        if c is not None:
            self.used[(f.pretty, f.name, c)] = self.used.get((f.pretty, f.name, c), 0) + 1
            return self.apply(c, f, args)
        if self.scalars is not None:
            return self.scalar_call(f, args)
        return NotImplemented

    def apply(self, role, f, a):
        if role in ("mul", "add", "sub", "square", "neg", "copy", "select", "from_bytes"):
            self.write_fe(a[0], self.fresh_fe("t"))
        elif role in ("mula", "adda", "suba", "reduce", "assign", "cneg"):
            self.write_fe(a[0], self.fresh_fe("t"))
        elif role == "swap":
            self.write_fe(a[0], self.fresh_fe("t"))
            self.write_fe(a[1], self.fresh_fe("t"))
        elif role == "to_bytes":
            for i in range(56):
                self.write(a[0].o, a[0].off + i, 1, self.any(8))
        elif role in ("ct_eq", "eq", "is_zero", "sign"):
            return self.any(1)
        else:
            raise Unsupported("role " + role)
        return None

    def any(self, w):
        self.fresh += 1
        hi = (1 << w) - 1
        return IV(self.A.input("any%d" % self.fresh, 0, hi), 0, hi)

    # ---- scalar functions that are quiet on every input
    def scalar_call(self, f, args):
        if sret(f) != 56 or len(args) < 2 or not all(type(x) is Ptr and type(x.off) is int and x.off + 56 <= x.o.size for x in args):
            return NotImplemented
        if f.name not in self.scalars:
            self.scalars[f.name] = False
            self.scalars[f.name] = self.quiet(f, len(args) - 1)
        if not self.scalars[f.name]:
            return NotImplemented
        for i in range(14):
            self.write(args[0].o, args[0].off + 4 * i, 4, self.any(32))
        return None

    def quiet(self, f, n):
        m = OPM(self.P, self.be)
        m.fork_ok = False
        m.digits = False
        m.scalars = self.scalars
        ps = [m.new(56, "out")]
        ins = []
        for k in range(n):
            b = Buf(m, "s%d" % k, 56, 4)
            ins.append(b)
            ps.append(b.ptr)
        before = [b.val.key() for b in ins]
        try:
            m.run(f, ps)
            m.bytes_poly(ps[0], 56)
            after = [m.bytes_poly(b.ptr, 56).key() for b in ins]
        except (Unsupported, Panic, PathEnd, Infeasible):
            return False
        self.called |= m.called
        self.steps += m.steps
        return not m.events and before == after


class Trace(FEM):
    """Concrete executor that records the path and the addresses."""

    def __init__(self, prog, be):
        FEM.__init__(self, prog, be)
        self.h = 0
        self.n = 0
        self.log = []

    def note(self, x):
        self.h = hash((self.h, x))
        self.n += 1

    def decide(self, v, what="branch"):
        r = FEM.decide(self, v, what)
        self.h = hash((self.h, r))
        self.log.append((r, self.stack[-1].pretty))
        return r

    def memcmp(self, a):
        # stops at the first difference
        n = next((i for i in range(a[2]) if self.read(a[0].o, a[0].off + i, 1) != self.read(a[1].o, a[1].off + i, 1)), a[2])
        self.h = hash((self.h, n))
        self.log.append((n, self.stack[-1].pretty))
        return FEM.memcmp(self, a)

    def switch(self, ins, v):
        self.h = hash((self.h, v if type(v) is int else 0))
        self.log.append((v, self.stack[-1].pretty))
        return FEM.switch(self, ins, v)

    def gep(self, base, bt, idx):
        p = FEM.gep(self, base, bt, idx)
        if type(p) is Ptr:
            self.h = hash((self.h, p.off))
            self.log.append((p.off, self.stack[-1].pretty))
        return p


class Fresh(Kind):
    """A block of arbitrary field elements."""

    def __init__(self, kind):
        self.kind = kind
        self.size = kind.size

    def make(self, m, ob, name, fixed=None):
        if fixed is not None:
            return self.kind.make(m, ob, name, fixed)
        p = m.new(self.size, name)
        for i in range(0, self.size, 64):
            m.write_fe(Ptr(p.o, i), m.fresh_fe("in"))
        return p, {}

    def bytes(self, ob, rng):
        return self.kind.bytes(ob, rng)

    def corpus(self, ob):
        k = self.kind
        if not isinstance(k, Point):
            return k.corpus(ob)
        return [k.build(ob, q, 1) for q in ref.LOW[D[k.curve]]]

    def env(self, ob, name, data):
        return {}


class TwPoint(Point):
    """Representatives of the Decaf group."""

    def rand(self, rng):
        return ref.phi(ref.rand_point(ref.ED, rng))


def low_mont():
    return [x.to_bytes(56, "little") for x in (0, 1, P - 1, P, P + 1, 5, 2**448 - 1)]


ED, TW = Fresh(EDP), Fresh(TWP)
SC = lambda: group.BitWords()
MO = lambda: Raw(56, low_mont())


class Op(CurveOb):
    """One public operation, run on arbitrary inputs."""
    bound = "all inputs: arbitrary field elements in every coordinate, all 448-bit scalars, all byte strings"

    def __init__(self, be, fn, ins, out, tail=(), scalars=False):
        self.fn, self.out, self.tail, self.scalars = fn, out, tail, scalars
        self.ins = ins
        self.name = fn[2:].replace("_", " ")
        CurveOb.__init__(self, be)

    cls = OPM

    def start(self, dec, fixed=None, **kw):
        m = OPM(self.prog, self.backend, decisions=dec, **kw)
        m.MAXSTEPS = 12000000
        m.digits = any(isinstance(k, Fresh) for _, k in self.ins) or "mo_" in self.fn
        if self.scalars:
            m.scalars = {}
        p, S = {}, {}
        for n, k in self.ins:
            p[n], S[n] = k.make(m, self, n, (fixed or {}).get(n))
        return m, p, S

    def invoke(self, m, p):
        a = [m.new(s, "out%d" % i) for i, s in enumerate(self.out)]
        m.call(m.P.funcs[self.fn], a + [p[n] for n, _ in self.ins] + [m.new(s, "tail") for s in self.tail])

    def call(self, m, p, S):
        self.invoke(m, p)

    def corpus(self):
        rng = random.Random(5)
        out = []
        for n, k in self.ins:
            for c in k.corpus(self):
                v = {x: y.bytes(self, rng) for x, y in self.ins}
                v[n] = c
                out.append(v)
        return out

    def sample(self, rng):
        return {n: k.bytes(self, rng) for n, k in self.ins}

    def run_native(self, nat, vals):
        nat.call(self.fn, *([bytes(s) for s in self.out] + [vals[n] for n, _ in self.ins] + [bytes(s) for s in self.tail]))

    def check(self, nat, vals):
        self.run_native(nat, vals)

    # ---- both modes
    def finish(self, rep, m):
        rep["functions"] |= m.called
        rep["steps"] += m.steps
        rep["contracts"] = sorted(set(rep.get("contracts", [])) | {"%s is field %s" % (k[0], k[2]) for k in m.used})


def models(m, p):
    """Integer assignments for both outcomes of a branch condition."""
    out = []
    for d in (0, 1):
        st, mod = m.lia.query(lambda enc: [enc.eq(psub(p, pconst(d)))], m.path, model=True)
        if st == "sat":
            out.append(mod or {})
    return out


def scalar_of(S, mod, rng):
    """Bytes of a scalar input under a model."""
    v = 0
    for i, b in enumerate(S["bits"]):
        v |= mod.get(b, rng.getrandbits(1)) << i
    return v.to_bytes(56, "little")


class CtOp(Op):
    """No branch and no address depends on the inputs."""

    def _run(self, ctx, rng, rep, nat):
        self.setup(ctx)
        m, p, S = self.start([])
        m.fork_ok = False
        m.branch = None
        old = m.decide

        def decide(v, what="branch"):
            n = len(m.events)
            try:
                return old(v, what)
            except Unsupported:
                if len(m.events) > n:
                    m.branch = m.uns(v, 1).p
                raise
        m.decide = decide
        why = None
        try:
            self.invoke(m, p)
        except Unsupported as e:
            why = "unsupported: %s" % e
        except (Panic, PathEnd, Infeasible) as e:
            why = "%s: %s" % (type(e).__name__, e)
        self.finish(rep, m)
        rep["claims"] += 1
        rep["paths"] += 1
        if why is None and not m.events:
            rep["status"] = "holds"
            # the executor's single path is the one concrete runs take
            if not self.scalars:
                t = self.trace(self.sample(rng))
                if self.trace(self.sample(rng)).h != t.h:
                    rep["status"] = "undecided"
                    rep["notes"].append("concrete traces differ")
                rep["validated"] = 2
            return
        rep["notes"] += [why or "", "events: %s" % (m.events[:3],)]
        vs = []
        if m.branch is not None:
            for mod in models(m, m.branch):
                v = self.sample(rng)
                for n, k in self.ins:
                    if isinstance(k, Raw):
                        s = S[n]
                        if s.get("bits"):
                            v[n] = scalar_of(s, mod, rng)
                        elif "buf" in s:
                            v[n] = s["buf"].bytes(m.A, mod, rng)
                vs.append(v)
        t0 = time.time()
        seen = {}
        for v in vs + [self.sample(rng) for _ in range(6)] + self.corpus()[:30]:
            if time.time() - t0 > 150:
                break
            try:
                t = self.trace(v)
            except (Unsupported, Panic) as e:
                rep["notes"].append("trace: %s" % e)
                continue
            for h, (w, log) in seen.items():
                if h != t.h:
                    for a, b in zip(log, t.log):
                        if a != b:
                            break
                    rep["status"] = "violation"
                    rep["cex"] = {"inputs": {k: bytes(x).hex() for k, x in v.items()}, "other": {k: bytes(x).hex() for k, x in w.items()},
                                  "message": "%s: branches or addresses depend on secret data, first difference in %s" % (self.fn, a[1]),
                                  "from": "solver models of both outcomes of %s" % (m.events[:1],)}
                    return
            seen[t.h] = (v, t.log)
        rep["status"] = "undecided"

    def trace(self, vals):
        m = Trace(self.prog, self.backend)
        p = {}
        for n, k in self.ins:
            p[n], _ = k.make(m, self, n, vals[n])
        self.invoke(m, p)
        return m


class PanicOp(Op):
    """Every path ends in a return."""
    maxpaths = 400

    def explore(self, start, tlim):
        """[(machine, S, panic)] of the panicking paths; raises Unsupported."""
        work, bad, ms = [[]], [], []
        n = 0
        while work:
            dec = work.pop()
            n += 1
            if n > self.maxpaths or time.time() > tlim:
                raise Unsupported("path limit")
            m = None
            try:
                m, p, S = start(dec)
                self.invoke(m, p)
            except Panic as e:
                bad.append((m, S, e))
            except (Infeasible, PathEnd):
                pass
            if m is not None:
                ms.append(m)
                work.extend(m.pending)
            if len(bad) > 5:
                break
        return n, ms, bad

    def exact(self, dec):
        """The same with exact field values."""
        m = FEM(self.prog, self.backend, decisions=dec)
        p, S = {}, {}
        for n, k in self.ins:
            p[n], S[n] = (k.kind if isinstance(k, Fresh) else k).make(m, self, n)
        return m, p, S

    def _run(self, ctx, rng, rep, nat):
        self.setup(ctx)
        t0 = time.time()
        bad, why = [], None
        try:
            n, ms, bad = timed(.6 * self.budget, self.explore, self.start, t0 + .6 * self.budget)
            rep["paths"] += n
            rep["claims"] += n
            for m in ms:
                self.finish(rep, m)
        except (Unsupported, Inconclusive) as e:
            why = "unsupported: %s" % e
            rep["notes"].append(why)
        live = []
        for m, S, e in bad:
            st, mod = m.lia.query(lambda enc: [], m.path, model=True)
            if st == "unsat":
                continue
            rep["notes"].append("path to panic: %s" % e)
            live.append(e)
            for _ in range(3):
                v = self.sample(rng)
                for nm, k in self.ins:
                    s = S[nm]
                    if isinstance(k, Raw) and mod:
                        v[nm] = scalar_of(s, mod, rng) if s.get("bits") else s["buf"].bytes(m.A, mod, rng) if "buf" in s else v[nm]
                if self._try(nat, v, rep, "solver model of the path to %s" % e):
                    return
        if not live and why is None:
            rep["status"] = "holds"
            self.validate(ctx, rng, rep, nat)
            return
        for v in self.corpus() + [self.sample(rng) for _ in range(60)]:
            if self._try(nat, v, rep, "boundary input"):
                return
        try:
            n, ms, bad = timed(.35 * self.budget, self.explore, self.exact, time.time() + .35 * self.budget)
            rep["paths"] += n
            rep["claims"] += n
            if not bad:
                rep["status"] = "holds"
                rep["notes"].append("decided with exact field values")
                return
            rep["notes"] += ["exact: %s" % e for _, _, e in bad]
        except (Unsupported, Inconclusive) as e:
            rep["notes"].append("exact: unsupported: %s" % e)
        rep["status"] = "undecided"

    def validate(self, ctx, rng, rep, nat):
        n = 0
        for v in [self.sample(rng) for _ in range(4)] + self.corpus()[:6]:
            if self._try(nat, v, rep, "validation input"):
                return
            n += 1
        rep["validated"] = n


# ------------------------------------------------------------------ limb level
class CtField(field.FieldOp):
    forks = False

    def __init__(self, role, be, wide=False):
        field.FieldOp.__init__(self, role, be, wide)
        self.name = "constant time: " + self.name

    def _run(self, ctx, rng, rep, nat):
        self.setup(ctx)
        rep["status"] = "holds"
        for f in self.funcs:
            self.f = f
            m, bufs = self.machine(ctx, [])
            why = None
            try:
                self.execute(m, bufs)
            except (Unsupported, Panic, PathEnd, Infeasible) as e:
                why = "%s: %s" % (f.pretty, e)
            rep["functions"] |= m.called
            rep["steps"] += m.steps
            rep["claims"] += 1
            rep["paths"] += 1
            if why is None and not m.events:
                continue
            rep["notes"].append("%s %s" % (why, m.events[:2]))
            seen = {}
            for v in [self.sample(rng) for _ in range(20)] + self.corpus()[:60]:
                t = self.trace(ctx, v)
                for h, w in seen.items():
                    if h != t.h:
                        rep["status"] = "violation"
                        rep["cex"] = {"inputs": {k: bytes(x).hex() for k, x in v.items()}, "other": {k: bytes(x).hex() for k, x in w.items()},
                                      "message": "%s: branches or addresses depend on the operands" % f.pretty, "from": str(m.events[:1])}
                        return
                seen[t.h] = v
            rep["status"] = "undecided"

    def trace(self, ctx, vals):
        m = Trace(ctx.progs[self.backend], self.backend)
        m.patterns = []
        bufs = {}
        for n, size, word, his in self.inputs():
            bufs[n] = Buf(m, n, size, word, his, fixed=vals[n])
        self.execute(m, bufs)
        return m


class PanicField(field.FieldOp):
    def __init__(self, role, be, wide=False):
        field.FieldOp.__init__(self, role, be, wide)
        self.name = "no panic: " + self.name

    def claims(self, m, bufs, res):
        yield "returns", HOLDS

    def check(self, nat, vals):
        for f in self.funcs:
            self.native(nat, f, vals)

    def validate(self, ctx, rng, rep, nat):
        for _ in range(6):
            if self._try(nat, self.sample(rng), rep, "validation input"):
                return
        rep["validated"] = 6


ROLES = ("mul", "square", "add", "sub", "neg", "copy", "select", "assign", "swap", "cneg", "reduce", "to_bytes", "from_bytes", "ct_eq", "eq", "sign", "is_zero")


def points(cls, be, ct):
    E, T = 256, 256
    out = []

    def op(fn, ins, o, **kw):
        out.append(cls(be, fn, ins, o, **kw))
    op("h_ed_scalar_mul", [("a", ED), ("s", SC())], [E])
    op("h_de_mul_rr", [("a", TW), ("s", SC())], [T])
    op("h_mo_mul", [("a", MO()), ("s", SC())], [56])
    for f in ("h_ed_add", "h_ed_sub_rr"):
        op(f, [("a", ED), ("b", ED)], [E])
    for f in ("h_ed_double", "h_ed_negate", "h_ed_torque"):
        op(f, [("a", ED)], [E])
    for f in ("h_de_add_rr", "h_de_sub_rr"):
        op(f, [("a", TW), ("b", TW)], [T])
    op("h_de_neg_r", [("a", TW)], [T])
    op("h_ed_compress", [("a", ED)], [57])
    op("h_de_compress", [("a", TW)], [56])
    op("h_ed_to_montgomery", [("a", ED)], [56])
    W = lambda: Words([v.to_bytes(56, "little") for v in scalar.FULL])
    for f in ("h_scalar_add", "h_scalar_sub", "h_scalar_mul"):
        op(f, [("a", W()), ("b", W())], [56])
    op("h_scalar_halve", [("a", W())], [56])
    op("h_scalar_invert", [("a", W())], [56], scalars=True)
    op("h_scalar_to_bytes", [("a", W())], [56])
    op("h_scalar_to_bytes57", [("a", W())], [57])
    op("h_scalar_from_bytes", [("a", Raw(56))], [56])
    op("h_scalar_wide", [("a", Raw(114))], [56], scalars=True)
    return out


def c24(be):
    out = points(CtOp, be, True)
    for r in ROLES:
        out.append(CtField(r, be))
    return out


def c25(be):
    out = points(PanicOp, be, False)

    def op(fn, ins, o, **kw):
        out.append(PanicOp(be, fn, ins, o, **kw))
    W = lambda: Words([v.to_bytes(56, "little") for v in scalar.FULL])
    op("h_ed_scalar_mod_four", [("a", ED), ("s", SC())], [256])
    op("h_ed_lmul_vv", [("a", ED), ("s", SC())], [256])
    op("h_de_lmul_vv", [("a", TW), ("s", SC())], [256])
    op("h_mo_lmul", [("a", MO()), ("s", SC())], [56])
    for f in ("h_ed_adda_v", "h_ed_suba_v", "h_ed_add_vv"):
        op(f, [("a", ED), ("b", ED)], [256])
    for f in ("h_ed_eq", "h_ed_cteq"):
        op(f, [("a", ED), ("b", ED)], [])
    op("h_ed_select", [("a", ED), ("b", ED), ("c", Bit())], [256])
    op("h_ed_affine_roundtrip", [("a", ED)], [256])
    op("h_ed_torsion_free", [("a", ED)], [])
    op("h_ed_decompress", [("a", Raw(57, ed_bytes()))], [256])
    op("h_de_decompress", [("a", Raw(56, low_mont()))], [256])
    op("h_de_equals", [("a", TW), ("b", TW)], [])
    op("h_cd_eq", [("a", Raw(56, low_mont())), ("b", Raw(56, low_mont()))], [])
    op("h_mo_low_order", [("a", MO())], [])
    op("h_mo_eq", [("a", MO()), ("b", MO())], [])
    op("h_mo_proj_affine", [("a", MO())], [56])
    for f in ("h_ed_identity", "h_ed_default", "h_ed_generator", "h_de_identity", "h_de_generator"):
        op(f, [], [256])
    op("h_mo_generator", [], [56])
    op("h_cd_identity", [], [56])
    for f in ("h_scalar_one", "h_scalar_zero", "h_scalar_default"):
        op(f, [], [56])
    op("h_scalar_from_canonical", [("a", Raw(57, [v.to_bytes(57, "little") for v in scalar.FULL]))], [56])
    for f in ("h_scalar_eq", "h_scalar_cteq"):
        op(f, [("a", W()), ("b", W())], [])
    op("h_scalar_from_u32", [("a", Raw(4))], [56])
    op("h_scalar_bits", [("a", W())], [448])
    op("h_scalar_random", [("a", Raw(114))], [56], tail=[8], scalars=True)
    for r in ROLES:
        out.append(PanicField(r, be))
    return out


def ed_bytes():
    return [v.to_bytes(57, "little") for v in (0, 1, P - 1, P, P + 1, 2**448 - 1, 1 + 2**455, P - 1 + 2**455, 2**455, 2**456 - 1)]
