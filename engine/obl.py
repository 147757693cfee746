"""Obligations: one symbolic execution problem each, with claims, native replay and fallbacks."""
import json, os, random, signal, time, traceback
from poly import *
from machine import *
from claims import *
from solve import STATS, Inconclusive, run_smt
import native

MAXPATHS = 96


class OutOfTime(BaseException):
    pass


def _alarm(sig, frame):
    raise OutOfTime()


def timed(sec, fn, *a):
    """fn(*a), given up after sec seconds."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1, sec))
    try:
        return fn(*a)
    except OutOfTime:
        raise Inconclusive("out of time (%d s)" % sec)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Buf:
    """A symbolic input buffer: little-endian words."""

    def __init__(self, m, name, size, word=4, his=None, fixed=None, los=None):
        self.name, self.size, self.word = name, size, word
        self.ptr = m.new(size, name)
        self.atoms = []
        self.words = []
        val = ZERO
        for i in range(size // word):
            hi = (1 << (8 * word)) - 1 if his is None else his[i] if isinstance(his, (list, tuple)) else his
            if fixed is not None:
                v = int.from_bytes(fixed[i * word:(i + 1) * word], "little")
                m.write(self.ptr.o, i * word, word, v)
                self.atoms.append(v)
                self.words.append(pconst(v))
                val = padd(val, pconst(v << (8 * word * i)))
                continue
            a = m.A.input("%s%d" % (name, i), 0, hi)
            self.atoms.append(next(iter(a.t))[0])
            self.words.append(a)
            m.write(self.ptr.o, i * word, word, IV(a, 0, hi))
            val = padd(val, pscale(a, 1 << (8 * word * i)))
        self.val = val
        self.fixed = fixed

    def env(self, data):
        """Assignment of this buffer's atoms from bytes."""
        e = {}
        if self.fixed is None:
            for i, a in enumerate(self.atoms):
                e[a] = int.from_bytes(data[i * self.word:(i + 1) * self.word], "little")
        return e

    def bytes(self, A, model, rng=None):
        if self.fixed is not None:
            return self.fixed
        out = b""
        for a in self.atoms:
            v = model.get(a)
            if v is None:
                v = rng.choice((A.lo[a], A.hi[a], rng.randint(A.lo[a], A.hi[a]))) if rng else A.lo[a]
            out += v.to_bytes(self.word, "little")
        return out


class Ctx:
    """Shared by all obligations of one check run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.progs = {}
        self.libs = {}
        self.deadline = None         # of the whole run
        self.left = None             # shared count of obligations not finished

    def budget(self):
        """Seconds one obligation may take now: about a third of those left are assumed to be slow."""
        if self.deadline is None:
            return 350 if self.tier == "quick" else 3600
        rest = self.deadline - 20 - time.time()
        waves = max(1.0, -(-self.left.value // 8) / 3)
        return max(40, min(350 if self.tier == "quick" else 2 * 3600, rest / waves))

    def native(self, backend):
        return native.Native(self.libs[backend])


class Obligation:
    """Base class. Subclasses define:
       name, backend, bounds (text)
       inputs()            -> list of (name, size, word, his)
       assume(m, bufs)     -> list of (rel, poly)
       execute(m, bufs)    -> result object (calls into the code)
       claims(m, bufs, res)-> iterable of (label, Verdict)
       check(nat, vals)    -> None if the native behaviour is right for these inputs, else a message
       sample(rng)         -> dict of valid concrete inputs
       observe(m, bufs, res) -> list of polys whose values predict native_observe(...)
    """
    name = "?"
    backend = "fiat"
    bounds = ""
    forks = True
    maxpaths = MAXPATHS

    def assume(self, m, bufs):
        return []

    def prepare(self, m):
        pass

    def corpus(self):
        return []

    def fallbacks(self, rng):
        """Lists of fixed-operand dicts tried when the full problem is not decided."""
        return []

    def observe(self, m, bufs, res):
        return None

    # -----------------------------------------------------------------
    def machine(self, ctx, dec, fixed=None):
        m = Machine(ctx.progs[self.backend], decisions=dec)
        m.fork_ok = self.forks
        self.prepare(m)
        bufs = {}
        for n, size, word, his in self.inputs():
            bufs[n] = Buf(m, n, size, word, his, fixed=(fixed or {}).get(n))
        m.A.assumed = list(self.assume(m, bufs))
        return m, bufs

    def solve(self, ctx, fixed=None, rep=None):
        """Explore all paths; returns (status, candidates, notes)."""
        work = [[]]
        n = 0
        cands = self.cands = []
        status = "holds"
        notes = []
        self.paths = []
        while work:
            dec = work.pop()
            n += 1
            if n > self.maxpaths:
                return "undecided", cands, notes + ["path limit"]
            m, bufs = self.machine(ctx, dec, fixed)
            try:
                res = self.execute(m, bufs)
            except Panic as e:
                work.extend(m.pending)
                if e.where:
                    notes.append("panic: %s" % e)
                st, mod = m.lia.query(lambda enc: [], m.path, model=True)
                if st == "unsat":
                    continue
                status = "fails"
                cands.append((m, bufs, mod or {}, "panic " + e.msg))
                if len(cands) > 6:
                    return status, cands, notes
                continue
            except PathEnd:
                work.extend(m.pending)
                continue
            work.extend(m.pending)
            if rep is not None:
                rep["functions"] |= m.called
                rep["steps"] += m.steps
            for label, v in self.claims(m, bufs, res):
                if rep is not None:
                    rep["claims"] += 1
                if v.st == "holds":
                    continue
                notes.append("%s: %s" % (label, v))
                if v.st == "fails":
                    status = "fails"
                    cands.append((m, bufs, v.model or {}, label))
                else:
                    if status == "holds":
                        status = "undecided"
                    cands.append((m, bufs, {}, label))
                if len(cands) > 6:
                    return status, cands, notes
            self.paths.append((m, bufs, res))
        if rep is not None:
            rep["paths"] += n
        return status, cands, notes

    def run(self, ctx):
        t0 = time.time()
        rng = random.Random("%s/%s/%d" % (self.name, self.backend, ctx.seed))
        rep = {"name": self.name, "backend": self.backend, "bounds": self.bounds, "functions": set(), "steps": 0,
               "claims": 0, "paths": 0, "validated": 0, "notes": []}
        for k in STATS:
            STATS[k] = 0
        nat = ctx.native(self.backend)
        self.budget = ctx.budget()
        self.cands = []
        try:
            self._run(ctx, rng, rep, nat)
        finally:
            nat.close()
        rep["functions"] = sorted(rep["functions"])
        rep["solver"] = dict(STATS)
        rep["wall"] = time.time() - t0
        return rep

    def _try(self, nat, vals, rep, why):
        """Native replay of one candidate input."""
        try:
            msg = self.check(nat, vals)
        except native.Crash as e:
            msg = "panic: %s" % e
        if msg:
            rep["status"] = "violation"
            rep["cex"] = {"inputs": {k: bytes(v).hex() for k, v in vals.items()}, "message": msg, "from": why}
            return True
        return False

    def valid(self, vals):
        return True

    def _run(self, ctx, rng, rep, nat):
        try:
            status, cands, notes = timed(.6 * self.budget, self.solve, ctx, None, rep)
        except (Unsupported, Inconclusive) as e:
            status, cands, notes = "undecided", self.cands, ["unsupported: %s" % e]
        except Exception as e:
            if os.environ.get("VERIF_TRACE"):
                raise
            status, cands, notes = "undecided", [], ["engine: %s %s" % (type(e).__name__, e), traceback.format_exc()[-600:]]
        rep["notes"] += notes
        if status == "holds":
            rep["status"] = "holds"
            self.validate(ctx, rng, rep, nat)
            return
        # replay solver models
        for m, bufs, mod, label in cands:
            for k in range(3):
                vals = {n: b.bytes(m.A, mod, rng if k else None) for n, b in bufs.items()}
                if self.valid(vals) and self._try(nat, vals, rep, "solver model for " + label):
                    return
        # boundary inputs
        for vals in self.corpus():
            if self.valid(vals) and self._try(nat, vals, rep, "boundary input"):
                return
        # concretise operands, solve again exactly
        t0 = time.time()
        ok = 0
        decided = []
        for fixed in self.fallbacks(rng):
            if time.time() - t0 > .25 * self.budget:
                break
            try:
                st, cands, notes = timed(.25 * self.budget, self.solve, ctx, fixed, rep)
            except (Unsupported, Inconclusive) as e:
                rep["notes"].append("reduced: unsupported: %s" % e)
                continue
            except Exception as e:
                rep["notes"].append("reduced: engine: %s %s" % (type(e).__name__, e))
                continue
            if st == "holds":
                ok += 1
                decided.append({k: v.hex() for k, v in fixed.items()})
                continue
            rep["notes"] += ["reduced: " + x for x in notes]
            for m, bufs, mod, label in cands:
                vals = {n: b.bytes(m.A, mod, rng) for n, b in bufs.items()}
                if self.valid(vals) and self._try(nat, vals, rep, "solver model, operands fixed, for " + label):
                    return
        # directed replay of random valid inputs
        for _ in range(300 if ctx.tier == "quick" else 3000):
            vals = self.sample(rng)
            if self._try(nat, vals, rep, "sampled input after undecided query"):
                return
        if ok and status != "fails":
            rep["status"] = "holds-reduced"
            rep["reduced"] = decided
            return
        rep["status"] = "undecided"

    def validate(self, ctx, rng, rep, nat):
        """Translator validation: predicted outputs against the native code; also the vacuity witness."""
        hits = 0
        for _ in range(4):
            vals = self.sample(rng)
            if vals is None:
                return
            if self._try(nat, vals, rep, "validation input"):
                return
            for m, bufs, res in self.paths:
                obs = self.observe(m, bufs, res)
                if obs is None:
                    continue
                env = {}
                for n, b in bufs.items():
                    env.update(b.env(vals[n]))
                ev = Eval(m.A, env)
                try:
                    if any((ev.num(p) < 0 if rel == ">=" else ev.num(p) != 0) for rel, p in list(m.path) + list(m.A.assumed)):
                        continue
                    want = [ev.poly(p) for p in obs]
                except Unsupported:
                    continue
                got = self.native_observe(nat, vals)
                if want != got:
                    rep["status"] = "undecided"
                    rep["notes"].append("translator mismatch: predicted %r, native %r for %r" % (want, got, {k: v.hex() for k, v in vals.items()}))
                    return
                hits += 1
        rep["validated"] = hits
