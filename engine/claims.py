"""Claims over the results of a symbolic run, decided by the solver."""
import itertools
import time
from poly import *
from solve import Inconclusive, run_smt, STATS, num


class Verdict:
    """holds / fails (with model) / unknown"""

    def __init__(self, st, model=None, why=""):
        self.st, self.model, self.why = st, model, why

    def __repr__(self):
        return "Verdict(%s%s)" % (self.st, ": " + self.why if self.why else "")


HOLDS = Verdict("holds")


def residual(p, N):
    """Terms of p (integer or dyadic, N odd) that do not vanish mod N."""
    r = {}
    for m, c in p.t.items():
        if c % N:
            r[m] = c % N
    return r


def identity_mod(A, p, N):
    """Have the solver check p*2^e = N*K term by term; K is the exhibited quotient."""
    names = {}
    lhs, rhs = [], []
    for m, c in p.t.items():
        n = "1" if not m else names.setdefault(m, "x%d" % len(names))
        lhs.append("(* %s %s)" % (num(c), n))
        rhs.append("(* %s %s)" % (num(c // N), n))
    if not lhs:
        return True
    txt = "".join("(declare-const %s Int)" % n for n in names.values())
    txt += "(assert (not (= (+ 0 %s) (* %d (+ 0 %s)))))(check-sat)" % (" ".join(lhs), N, " ".join(rhs))
    st, _ = run_smt("(set-logic ALL)" + txt, 30)
    return st == "unsat"


def substitute(A, p, a, q):
    """p with atom a replaced by polynomial q."""
    r = ZERO
    keep = {}
    for k, c in p.t.items():
        if a in k:
            rest = list(k)
            rest.remove(a)
            r = padd(r, A.mul(Poly({tuple(rest): c}, p.e), q))
        else:
            keep[k] = c
    return padd(r, Poly(keep, p.e))


def facts(m, ats):
    """Solver-proved facts about 0/1 atoms: constant, or equal/opposite to an earlier one."""
    A = m.A
    ats = [a for a in ats if A.dom[a] == (0, 1)]
    key = lambda x: ("fact", x, len(m.path))
    out = {}
    known = []
    for a in ats:
        hit = None
        for v in (0, 1):
            if m.lia.feasible((), [psub(patom(a), pconst(v))], m.path, timeout=2, packonly=True) == "unsat":
                hit = pconst(1 - v)
                break
        if hit is None:
            for b in known:
                for q in (patom(b), psub(pconst(1), patom(b))):
                    # a != q impossible <=> a + q = 1 infeasible
                    if m.lia.feasible((), [psub(padd(patom(a), q), pconst(1))], m.path, timeout=2, packonly=True) == "unsat":
                        hit = q
                        break
                if hit is not None:
                    break
        if hit is None:
            known.append(a)
        else:
            out[a] = hit
    return out


def sampled(m, p, N, tries=12):
    """A model of the path with p != 0 mod N among a few assignments, or None: saves the search when one is easy."""
    A, r = m.A, m.rnd
    ins = [a for a in range(len(A.kind)) if A.kind[a] == "input"]
    t0 = time.time()
    for i in range(-len(m.wits), tries):
        if time.time() - t0 > 2:
            return None
        base = m.wits[i][1].v if i < 0 else {}
        env = {a: base[a] if a in base else m.assign[a] if a in m.assign else r.choice((A.lo[a], A.hi[a], r.randint(A.lo[a], A.hi[a]), r.randint(A.lo[a], A.hi[a]))) for a in ins}
        ev = Eval(A, env)
        try:
            if any((ev.num(x) < 0 if rel == ">=" else ev.num(x) != 0) for rel, x in m.path + A.assumed):
                continue
            if ev.num(p) % N:
                return env
        except (Unsupported, RecursionError, TypeError):
            return None
    return None


def congruent(m, p, N, model=True):
    """p = 0 mod N for all inputs admitted by the path and assumptions."""
    A = m.A
    p = m.apply_assign(p)
    r = residual(p, N)
    if r:
        for kinds in (("nm",), ("nm", "fd")):
            q = m.apply_assign(A.expand(p, kinds))
            r2 = residual(q, N)
            if len(r2) < len(r):
                p, r = q, r2
    if not r:
        return HOLDS if identity_mod(A, p, N) else Verdict("unknown", why="identity check")
    env = sampled(m, p, N)
    if env is not None:
        return Verdict("fails", env, "congruence")
    ats = sorted({a for k in r for a in k})
    if len(ats) <= 12 and all(A.dom[a] is not None for a in ats):
        for a, q in facts(m, ats).items():
            p = substitute(A, p, a, q)
        r = residual(p, N)
        if not r:
            return HOLDS if identity_mod(A, p, N) else Verdict("unknown", why="identity check")
    fin = Poly({k: v for k, v in p.t.items() if k not in r}, p.e)
    if not identity_mod(A, fin, N):
        return Verdict("unknown", why="identity check")
    # residual atoms
    ats = sorted({a for k in r for a in k})
    if all(A.dom[a] is not None and A.base[a] == a for a in ats):
        n = 1
        for a in ats:
            n *= len(A.dom[a])
        if n <= 4096:
            groups = [[]]
            bad = []
            for vals in itertools.product(*[A.dom[a] for a in ats]):
                env = dict(zip(ats, vals))
                v = 0
                for k, c in r.items():
                    x = c
                    for a in k:
                        x *= env[a]
                    v += x
                if v % N:
                    bad.append(env)
            if not bad:
                return HOLDS

            def build(enc):
                for a in ats:
                    enc.need(a)
                return ["(or %s)" % " ".join("(and %s)" % " ".join("(= %s %s)" % (enc.v(a), num(v)) for a, v in e.items()) for e in bad)]
            st, mod = m.lia.query(build, m.path, model=True)
            if st == "unsat":
                return HOLDS
            return Verdict("fails" if st == "sat" else "unknown", mod, "congruence")
    # small quotient: p = N*q for some q in a small range
    lo, hi = A.range2(p)
    if (hi - lo) // N <= 64 and p.e == 0:
        qs = range(-(-lo // N), hi // N + 1)

        def build(enc):
            t = enc.lin(p, p.e)
            return ["(not (or false %s))" % " ".join("(= %s %s)" % (t, num(q * N)) for q in qs)]
        st, mod = m.lia.query(build, m.path, model=True)
        if st == "unsat":
            return HOLDS
        return Verdict("fails" if st == "sat" else "unknown", mod, "congruence")
    return Verdict("unknown", None, "congruence residual of %d terms" % len(r))


def always_ge(m, p, packonly=False, timeout=None):
    """p >= 0 on all admitted inputs."""
    p = m.apply_assign(p)
    lo, hi = m.A.range2(p)
    if p.is_const() and p.e == 0 and p.const() >= 0:
        return HOLDS

    def build(enc):
        return ["(not %s)" % enc.ge(p)]
    st, mod = m.lia.query(build, m.path, model=True, packonly=packonly, timeout=timeout)
    if st == "unsat":
        return HOLDS
    return Verdict("fails" if st == "sat" else "unknown", mod, "range")


def always_eq(m, p):
    p = m.apply_assign(p)

    def build(enc):
        return ["(not %s)" % enc.eq(p)]
    st, mod = m.lia.query(build, m.path, model=True)
    if st == "unsat":
        return HOLDS
    return Verdict("fails" if st == "sat" else "unknown", mod, "equality")
