"""SMT interface: integer-linear (with monomial abstraction) queries to z3/cvc5."""
import os, re, subprocess, sys, time, select, signal
from poly import *
from poly import _gcd

Z3 = os.environ.get("VERIF_Z3", "z3-new")


class SolverError(Exception):
    pass


class Inconclusive(Exception):
    pass


STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "cross": 0}


def run_smt(text, timeout=60, solver="z3"):
    """One-shot query. Returns (status, output)."""
    t = time.time()
    if solver == "z3":
        cmd = [Z3, "-in", "-T:%d" % int(timeout + 1)]
    elif solver == "z3old":
        cmd = ["z3", "-in", "-T:%d" % int(timeout + 1)]
    else:
        cmd = ["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), "--produce-models"]
    try:
        r = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 10)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    STATS["queries"] += 1
    STATS["time"] += time.time() - t
    if os.environ.get("VERIF_SLOW") and time.time() - t > 3:
        import traceback
        print("SLOW %.1fs %s %s" % (time.time() - t, out[:8].strip(), [f.name + ":" + str(f.lineno) for f in traceback.extract_stack()[-9:-1]]), file=sys.stderr, flush=True)
    first = out.strip().split("\n")[0].strip() if out.strip() else ""
    if "(error" in out.split("(model", 1)[0] and first not in ("unsat",):
        if first != "sat":
            STATS["unknown"] += 1
            return "unknown", out
    if first in ("sat", "unsat"):
        STATS[first] += 1
        return first, out
    STATS["unknown"] += 1
    return "unknown", out


def num(c):
    return str(c) if c >= 0 else "(- %d)" % -c


class Encoder:
    """Collects atoms reachable from polynomials and emits definitions."""

    def __init__(self, A, pack=False, depth=None):
        self.A = A
        self.depth = depth
        self.cur = 0
        self.pack = pack
        self.packs = {}
        self.skipped = 0
        self.seen = set()
        self.monos = set()
        self.decl = []
        self.defs = []
        self.queue = []
        self.lemmas = []

    def v(self, a):
        return "a%d" % a

    def mono(self, m):
        if len(m) == 1:
            self.need(m[0])
            return self.v(m[0])
        n = "m" + "_".join(map(str, m))
        if m not in self.monos:
            self.monos.add(m)
            A = self.A
            self.decl.append("(declare-const %s Int)" % n)
            for a in m:
                self.need(a)
            b = None
            for i, a in enumerate(m):
                if A.lo[a] == 0 and A.hi[a] == 1:
                    b = i
                    break
            if b is not None:
                rest = m[:b] + m[b + 1:]
                r = self.mono(rest)
                self.defs.append("(= %s (ite (= %s 0) 0 %s))" % (n, self.v(m[b]), r))
            else:
                lo, hi = A.mono_range(m)
                self.defs.append("(<= %s %s %s)" % (num(lo), n, num(hi)))
                # McCormick bounds for products of two
                if len(m) == 2 and m[0] != m[1]:
                    x, y = m
                    xl, xh, yl, yh = A.lo[x], A.hi[x], A.lo[y], A.hi[y]
                    vx, vy = self.v(x), self.v(y)
                    self.defs.append("(>= %s (+ (* %s %s) (* %s %s) %s))" % (n, num(xl), vy, num(yl), vx, num(-xl * yl)))
                    self.defs.append("(>= %s (+ (* %s %s) (* %s %s) %s))" % (n, num(xh), vy, num(yh), vx, num(-xh * yh)))
                    self.defs.append("(<= %s (+ (* %s %s) (* %s %s) %s))" % (n, num(xh), vy, num(yl), vx, num(-xh * yl)))
                    self.defs.append("(<= %s (+ (* %s %s) (* %s %s) %s))" % (n, num(xl), vy, num(yh), vx, num(-xl * yh)))
        return n

    def need(self, a):
        if a in self.seen:
            return
        self.seen.add(a)
        A = self.A
        v = self.v(a)
        self.decl.append("(declare-const %s Int)" % v)
        self.defs.append("(<= %s %s %s)" % (num(A.lo[a]), v, num(A.hi[a])))
        self.queue.append((a, self.cur + 1))

    def lin(self, p, scale=0):
        """SMT term of p * 2^scale, where scale >= p.e."""
        s = scale - p.e
        ts = []
        items = p.t.items()
        if self.pack:
            A = self.A
            big = [(m, c) for m, c in items if m and not all(A.dom[a] is not None for a in m)]
            if len(big) >= 8:
                items = [(m, c) for m, c in items if not m or all(A.dom[a] is not None for a in m)]
                g = 0
                for m, c in big:
                    g = _gcd(g, c)
                if max(big)[1] < 0:
                    g = -g
                key = frozenset((m, c // g) for m, c in big)
                n = self.packs.get(key)
                if n is None:
                    n = "q%d" % len(self.packs)
                    self.packs[key] = n
                    lo, hi = A.range(Poly({m: c // g for m, c in big}))
                    self.decl.append("(declare-const %s Int)" % n)
                    self.defs.append("(<= %s %s %s)" % (num(lo), n, num(hi)))
                ts.append("(* %s %s)" % (num(g << s), n))
        for m, c in items:
            c <<= s
            if not m:
                ts.append(num(c))
            else:
                n = self.mono(m)
                ts.append(n if c == 1 else "(* %s %s)" % (num(c), n))
        if not ts:
            return "0"
        if len(ts) == 1:
            return ts[0]
        return "(+ %s)" % " ".join(ts)

    def ge(self, p):
        return "(>= %s 0)" % self.lin(p, p.e)

    def eq(self, p):
        return "(= %s 0)" % self.lin(p, p.e)

    def flush(self):
        A = self.A
        while self.queue:
            a, self.cur = self.queue.pop(0)
            if self.depth is not None and self.cur > self.depth:
                self.skipped += 1
                continue
            k = A.kind[a]
            d = A.data[a]
            v = self.v(a)
            if k == "floor":
                p, s = d
                e = p.e
                t = self.lin(p, e)
                self.defs.append("(<= (* %d %s) %s)" % (1 << (s + e), v, t))
                self.defs.append("(<= %s (+ (* %d %s) %d))" % (t, 1 << (s + e), v, (((1 << s) - 1) << e)))
            elif k == "ge":
                p = d[0]
                t = self.lin(p, p.e)
                self.defs.append("(or (and (= %s 1) (>= %s 0)) (and (= %s 0) (<= %s %s)))" % (v, t, v, t, num(-(1 << p.e))))
            elif k in ("let", "fd", "nm"):
                if isinstance(d, Poly) and not (k == "nm" and self.pack):
                    self.defs.append("(= (* %d %s) %s)" % (1 << d.e, v, self.lin(d, d.e)))
                else:
                    self.skipped += 1
                if k == "fd" and A.hi[a] - A.lo[a] + 1 != len(A.dom[a]):
                    self.defs.append("(or %s)" % " ".join("(= %s %s)" % (v, num(x)) for x in A.dom[a]))
            elif k == "ind":
                b, kk = d
                self.need(b)
                self.defs.append("(= %s (ite (= %s %s) 1 0))" % (v, self.v(b), num(kk)))
            elif k in ("and", "or", "xor") and d[0].e == 0 and d[1].e == 0:
                self.bitwise(k, v, a, d)

    def bitwise(self, k, v, a, d):
        A = self.A
        p, q = self.lin(d[0]), self.lin(d[1])
        n = max(A.range2(x)[1] for x in d).bit_length()
        if n <= 8 and min(A.range2(x)[0] for x in d) >= 0:
            # bit by bit
            names = []
            for t, y in (("l", p), ("r", q), ("o", v)):
                bs = ["%s_%d_%d" % (t, a, i) for i in range(n)]
                self.decl += ["(declare-const %s Int)" % b for b in bs]
                self.defs += ["(<= 0 %s 1)" % b for b in bs]
                self.defs.append("(= %s (+ 0 %s))" % (y, " ".join("(* %d %s)" % (1 << i, b) for i, b in enumerate(bs))))
                names.append(bs)
            for l, r, o in zip(*names):
                self.defs.append("(= %s (ite (%s (= %s 1) (= %s 1)) 1 0))" % (o, k, l, r))
            return
        if k == "and":
            self.defs += ["(<= %s %s)" % (v, p), "(<= %s %s)" % (v, q)]
            return
        self.defs.append("(<= %s (+ %s %s))" % (v, p, q))
        if k == "or":
            self.defs += ["(>= %s %s)" % (v, p), "(>= %s %s)" % (v, q)]
        else:
            self.defs += ["(>= %s (- %s %s))" % (v, p, q), "(>= %s (- %s %s))" % (v, q, p), "(=> (= %s %s) (= %s 0))" % (p, q, v)]

    def text(self, asserts, model=False):
        self.flush()
        out = ["(set-option :produce-models true)" if model else "", "(set-logic ALL)"]
        out += self.decl
        for d in self.defs:
            out.append("(assert %s)" % d)
        for s in asserts:
            out.append("(assert %s)" % s)
        out.append("(check-sat)")
        if model:
            vs = [self.v(a) for a in self.seen]
            if vs:
                out.append("(get-value (%s))" % " ".join(vs))
        return "\n".join(out)


def parse_model(out):
    m = {}
    for a, b in re.findall(r'\(a(\d+) (\(- \d+\)|\d+)\)', out):
        m[int(a)] = -int(b[3:-1]) if b[0] == "(" else int(b)
    return m


class LIA:
    """Satisfiability of conjunctions over one atom registry + path constraints."""

    def __init__(self, A, timeout=30):
        self.A = A
        self.timeout = timeout
        self.cache = {}
        self.cross = False

    def query(self, build, path=(), model=False, timeout=None, solver="z3", packonly=False):
        """build(enc) -> list of SMT assertions; path: list of (rel, poly)."""
        # first with long sums abstracted to bounded variables, then exactly
        for pack in (True, False):
            enc = Encoder(self.A, pack)
            asserts = build(enc)
            for rel, p in list(path) + list(self.A.assumed):
                asserts.append(enc.ge(p) if rel == ">=" else enc.eq(p))
            txt = enc.text(asserts, model)
            if pack:
                if not enc.packs and not enc.skipped:
                    continue
                st, _ = run_smt(enc.text(asserts, False), min(10, self.timeout if timeout is None else timeout), solver)
                if st == "unsat":
                    return st, None
                if packonly:
                    return "unknown", None
        key = txt
        if not model and key in self.cache:
            return self.cache[key], None
        st, out = run_smt(txt, self.timeout if timeout is None else timeout, solver)
        if os.environ.get("VERIF_DUMP"):
            open("/tmp/dump_%d.smt2" % STATS["queries"], "w").write(txt + "\n; " + st)
        if not model:
            self.cache[key] = st
        if model and st == "sat":
            return st, parse_model(out)
        return st, None

    def local(self, p, depth=2):
        """Is p >= 0 impossible from the definitions of its atoms, unfolded to the given depth?"""
        enc = Encoder(self.A, True, depth)
        txt = enc.text([enc.ge(p)])
        st = self.cache.get(txt)
        if st is None:
            st = self.cache[txt] = run_smt(txt, 2)[0]
        return st == "unsat"

    def feasible(self, p_ge=(), p_eq=(), path=(), timeout=None, packonly=False):
        def b(enc):
            return [enc.ge(p) for p in p_ge] + [enc.eq(p) for p in p_eq]
        return self.query(b, path, timeout=timeout, packonly=packonly)[0]
