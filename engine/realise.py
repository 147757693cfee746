"""Concrete inputs on a path: the equations of the path are solved over the field, one parameter at a time.

Nothing here decides anything: an input found this way only counts when the native code misbehaves on it.
"""
import time
import ref
from spec import P


# ------------------------------------------------------------------ univariate polynomials mod P (lists, low first)
def trim(f):
    while f and not f[-1]:
        f.pop()
    return f


def pmul(a, b):
    """Product by Kronecker substitution."""
    if not a or not b:
        return []
    w = 2 * 448 + 16
    n = w // 8
    x = int.from_bytes(b"".join(c.to_bytes(n, "little") for c in a), "little")
    y = int.from_bytes(b"".join(c.to_bytes(n, "little") for c in b), "little")
    z = (x * y).to_bytes(n * (len(a) + len(b)), "little")
    return trim([int.from_bytes(z[i * n:(i + 1) * n], "little") % P for i in range(len(a) + len(b) - 1)])


def pmod(a, f):
    a = list(a)
    i = pow(f[-1], -1, P)
    d = len(f) - 1
    while len(a) > d:
        c = a[-1] * i % P
        if c:
            o = len(a) - 1 - d
            for j in range(d):
                a[o + j] = (a[o + j] - c * f[j]) % P
        a.pop()
    return trim(a)


def pgcd(a, b):
    while b:
        a, b = b, pmod(a, b)
    return a


def psub(a, b):
    n = max(len(a), len(b))
    return trim([((a[i] if i < len(a) else 0) - (b[i] if i < len(b) else 0)) % P for i in range(n)])


def ppow(b, e, f):
    r = [1]
    for i in range(e.bit_length() - 1, -1, -1):
        r = pmod(pmul(r, r), f)
        if e >> i & 1:
            r = pmod(pmul(r, b), f)
    return r


def roots(f, rng):
    """Roots mod P."""
    f = trim(list(f))
    if len(f) < 2:
        return []
    if len(f) == 2:
        return [-f[0] * pow(f[1], -1, P) % P]
    out = []
    g = pgcd(f, psub(ppow([0, 1], P, f), [0, 1]))
    work = [g]
    while work:
        g = work.pop()
        if len(g) < 2:
            continue
        if len(g) == 2:
            out.append(-g[0] * pow(g[1], -1, P) % P)
            continue
        h = psub(ppow([rng.randrange(P), 1], (P - 1) // 2, g), [1])
        a = pgcd(g, h)
        if not 1 < len(a) < len(g):
            work.append(g)
            continue
        b, r, i = [], list(g), pow(a[-1], -1, P)
        while len(r) >= len(a):                      # exact division
            c = r[-1] * i % P
            b.insert(0, c)
            o = len(r) - len(a)
            for j in range(len(a)):
                r[o + j] = (r[o + j] - c * a[j]) % P
            r.pop()
        work += [a, trim(b)]
    return out


def interpolate(ev, limit=72):
    """Coefficients of the polynomial function ev, or None."""
    xs, dd = [], []
    zeros = 0
    t = 1
    while len(xs) < limit:
        t += 1
        y = ev(t)
        if y is None:
            continue
        for x, c in zip(xs, dd):
            y = (y - c) * pow(t - x, -1, P) % P
        xs.append(t)
        dd.append(y)
        zeros = zeros + 1 if not y else 0
        if zeros >= 3:
            break
    else:
        return None
    f = []
    for x, c in zip(reversed(xs), reversed(dd)):
        f = [0] + f
        for i in range(len(f) - 1):
            f[i] = (f[i] - x * f[i + 1]) % P
        f[0] = (f[0] + c) % P
    return trim(f)


# ------------------------------------------------------------------ elements a + b*s with s^2 = r
class Ext:
    __slots__ = ("a", "b", "r")

    def __init__(self, a, b, r):
        self.a, self.b, self.r = a, b, r

    def mul(self, o):
        return Ext((self.a * o.a + self.b * o.b * self.r) % P, (self.a * o.b + self.b * o.a) % P, self.r)


# ------------------------------------------------------------------ the search
class Param:
    """One thing that can be varied: kind in y (curve ordinate), z (scaling), v (field value), s (quartic parameter)."""

    def __init__(self, kind, name, atoms):
        self.kind, self.name, self.atoms = kind, name, atoms


class Search:
    def __init__(self, ob, m, S, rng):
        from curveob import Point, FieldKind, Raw, D
        self.ob, self.m, self.S, self.rng, self.R = ob, m, S, rng, m.R
        R = m.R
        idx = {n: a for a, n in enumerate(R.names) if R.akind[a] == "in"}
        self.params = []
        self.kinds = {}
        for n, k in ob.ins:
            if isinstance(k, Point):
                if hasattr(k, "quartic"):
                    self.kinds[n] = "j"
                    if "s" + n in idx and "r" + n in idx:
                        self.params.append(Param("s", n, (idx["s" + n], idx["r" + n])))
                else:
                    self.kinds[n] = "p"
                    if "x" + n in idx and "y" + n in idx:
                        self.params.append(Param("y", n, (idx["x" + n], idx["y" + n])))
                if "z" + n in idx:
                    self.params.append(Param("z", n, (idx["z" + n],)))
            elif isinstance(k, FieldKind):
                self.kinds[n] = "f"
                if n in idx:
                    self.params.append(Param("v", n, (idx[n],)))
            elif isinstance(k, Raw):
                self.kinds[n] = "raw"
        self.curve = {n: D[k.curve] for n, k in ob.ins if isinstance(k, Point)}
        self.raws = {}
        for key, q in m.rawval.items():
            for n, k in ob.ins:
                if self.kinds.get(n) == "raw" and "buf" in S[n]:
                    b = S[n]["buf"]
                    if b.size >= 56 and b.fixed is None and self.prefix(b) == q:
                        a = R.fac[m.rawfe[key].f[0][0]][1]
                        self.raws[n] = a
                        self.params.append(Param("raw", n, (a,)))
        self.eqs = []
        self.skipped = 0

    def prefix(self, b):
        from poly import ZERO, padd, pscale
        v = ZERO
        for i in range(56 // b.word):
            v = padd(v, pscale(b.words[i], 1 << (8 * b.word * i)))
        return v

    def atoms_of(self, fids):
        out = set()
        for f in fids:
            k, x = self.R.fac[f]
            if k == "atom":
                out.add(x)
            else:
                for mo in x:
                    for a, _ in mo:
                        out.add(a)
        return out

    def collect(self, model):
        """Equations: (numerator factors, coefficient, denominator factors, target): c*N = V*D."""
        m, R = self.m, self.R
        eqs = []
        for f, d in m.facts:
            if f[0] == "zero" and d:
                eqs.append((1, [(f[1], 1)], [], 0))
        for key, bs in m.bytes.items():
            v = m.bkey[key]
            known = [model_value(m.A, b, model) for b in bs]
            if all(k is None for k in known):
                continue
            V = 0
            for i, k in enumerate(known):
                if k is None:
                    k = self.rng.getrandbits(8)
                    if i == 0:
                        s = model.get(m.bits.get(("sign", key)))
                        if s is not None:
                            k = k & 254 | s
                V |= k << (8 * i)
            if V >= P:
                continue
            eqs.append((v.c, [(f, e) for f, e in v.f if e > 0], [(f, -e) for f, e in v.f if e < 0], V))
        # boolean meta atoms fixed by the model
        out = []
        for c, n, d, V in eqs:
            at = self.atoms_of([f for f, _ in n + d])
            if all(R.akind[a] == "in" for a in at):
                out.append((c, n, d, V, at))
            else:
                self.skipped += 1
        return out

    # ---- evaluation with one parameter free
    def ev_factor(self, f, env):
        k, x = self.R.fac[f]
        if k == "atom":
            return env[x]
        ext = any(isinstance(v, Ext) for v in env.values())
        r = next((v.r for v in env.values() if isinstance(v, Ext)), 0)
        if not ext:
            t = 0
            for mo, c in x.items():
                for a, e in mo:
                    c = c * pow(env[a], e, P) % P
                t += c
            return t % P
        ta = tb = 0
        for mo, c in x.items():
            w = Ext(c % P, 0, r)
            for a, e in mo:
                v = env[a]
                if isinstance(v, Ext):
                    if v.a == 0 and v.b == 1:
                        w = Ext(w.a * pow(r, e // 2, P) % P, w.b * pow(r, e // 2, P) % P, r)
                        if e & 1:
                            w = w.mul(v)
                    else:
                        for _ in range(e):
                            w = w.mul(v)
                else:
                    q = pow(v, e, P)
                    w = Ext(w.a * q % P, w.b * q % P, r)
            ta += w.a
            tb += w.b
        return Ext(ta % P, tb % P, r)

    def ev_eq(self, eq, env):
        c, n, d, V, _ = eq
        r = next((v.r for v in env.values() if isinstance(v, Ext)), 0)

        def prod(fs, c):
            w = Ext(c % P, 0, r)
            for f, e in fs:
                v = self.ev_factor(f, env)
                if not isinstance(v, Ext):
                    v = Ext(v, 0, r)
                for _ in range(e):
                    w = w.mul(v)
            return w
        x = prod(n, c)
        if V:
            y = prod(d, V)
            x = Ext((x.a - y.a) % P, (x.b - y.b) % P, r)
        return x

    def degree_in(self, eq, a):
        c, n, d, V, _ = eq

        def deg(fs):
            t = 0
            for f, e in fs:
                k, x = self.R.fac[f]
                t += e * ((x == a) if k == "atom" else max((dict(mo).get(a, 0) for mo in x), default=0))
            return t
        return max(deg(n), deg(d) if V else 0)

    def solve_for(self, eq, prm, env):
        """Values of the parameter's atoms satisfying eq."""
        R, rng = self.R, self.rng
        if prm.kind in ("z", "v", "raw"):
            a = prm.atoms[0]

            def ev(t):
                e = dict(env)
                e[a] = t
                return self.ev_eq(eq, e).a
            f = interpolate(ev)
            if not f or len(f) < 2:
                return []
            return [{a: t} for t in roots(f, rng) if t or prm.kind != "z"]
        if prm.kind == "y":
            ax, ay = prm.atoms
            A, Dd = self.curve[prm.name]
            K = self.degree_in(eq, ax)

            def ev(t):
                den = (A - Dd * t * t) % P
                if not den:
                    return None
                e = dict(env)
                e[ay] = t
                e[ax] = Ext(0, 1, (1 - t * t) * pow(den, -1, P) % P)
                v = self.ev_eq(eq, e)
                return (v.a * v.a - v.r * v.b * v.b) * pow(den, K, P) % P
            f = interpolate(ev)
            if not f or len(f) < 2:
                return []
            out = []
            for t in roots(f, rng):
                for sg in (0, 1):
                    p = ref.lift(self.curve[prm.name], t, sg)
                    if p is None:
                        continue
                    e = dict(env)
                    e[ax], e[ay] = p
                    v = self.ev_eq(eq, e)
                    if v.a == 0:
                        if A != 1 and ref.mul((A, Dd), (1 << 446) - 13818066809895115352007386748515426880336692474882178609894547503885, p)[0] != 0:
                            continue
                        out.append({ax: p[0], ay: p[1]})
            return out
        if prm.kind == "s":
            As, Ar = prm.atoms

            def rr(t):
                return ((1 - t * t) ** 2 + 4 * 39082 * t * t) % P

            def ev(t):
                e = dict(env)
                e[As] = t
                e[Ar] = Ext(0, 1, rr(t))
                v = self.ev_eq(eq, e)
                return (v.a * v.a - v.r * v.b * v.b) % P
            f = interpolate(ev)
            if not f or len(f) < 2:
                return []
            out = []
            for t in roots(f, rng):
                r = ref.sqrt(rr(t))
                if r is None or t in (1, P - 1):
                    continue
                for q in {r, -r % P}:
                    e = dict(env)
                    e[As], e[Ar] = t, q
                    if self.ev_eq(eq, e).a == 0:
                        out.append({As: t, Ar: q})
            return out
        return []

    def start(self, model):
        """A random assignment."""
        from curveob import D
        env, vals = {}, {}
        for n, k in self.ob.ins:
            kd = self.kinds.get(n)
            if kd == "raw":
                if "buf" in self.S[n]:
                    b = self.S[n]["buf"].bytes(self.m.A, model, self.rng)
                else:
                    b = k.bytes(self.ob, self.rng)
                vals[n] = b
                if n in self.raws:
                    env[self.raws[n]] = int.from_bytes(b[:56], "little") % P
            else:
                vals[n] = b = k.bytes(self.ob, self.rng)
                e = k.env(self.ob, n, b)
                for a, nm in enumerate(self.R.names):
                    if nm in e and self.R.akind[a] == "in":
                        env[a] = e[nm]
        return env, vals

    def finish(self, env, vals, used):
        """Input buffers from the assignment."""
        out = {}
        idx = {n: a for a, n in enumerate(self.R.names) if self.R.akind[a] == "in"}
        for n, k in self.ob.ins:
            kd = self.kinds.get(n)
            touched = any(p.name == n for p in used)
            if not touched or kd is None:
                out[n] = vals[n]
            elif kd == "raw":
                v = env[self.raws[n]]
                out[n] = v.to_bytes(56, "little") + vals[n][56:]
            elif kd == "f":
                out[n] = k.join(self.ob, {"v": env[idx[n]]}, self.rng)
            else:
                if kd == "j":
                    s, r = env[idx["s" + n]], env[idx["r" + n]]
                    p = (2 * s * ref.inv(1 - s * s) % P, (1 + s * s) * ref.inv(r) % P)
                else:
                    p = (env[idx["x" + n]], env[idx["y" + n]])
                z = env[idx["z" + n]] if "z" + n in idx else 1
                out[n] = k.build(self.ob, p, z, self.rng if self.rng.random() < .5 else None)
        return out

    def attempt(self, model):
        eqs = self.collect(model)
        env, vals = self.start(model)
        used = []
        # scale-free equations first, then those with the fewest parameters
        zs = {p.atoms[0] for p in self.params if p.kind == "z"}
        missing = set()
        for e in eqs:
            missing |= {a for a in e[4] if a not in env}
        if missing:
            self.skipped += 1
            eqs = [e for e in eqs if not (e[4] & missing)]
        eqs.sort(key=lambda e: (bool(e[4] & zs), len(e[4])))
        for i, eq in enumerate(eqs):
            if self.ev_eq(eq, env).a == 0 and self.ev_eq(eq, env).b == 0:
                continue
            cand = [p for p in self.params if p not in used and set(p.atoms) & eq[4]]
            self.rng.shuffle(cand)
            cand.sort(key=lambda p: 0 if p.kind == "z" else 1)
            done = False
            for p in cand:
                sols = self.solve_for(eq, p, env)
                if not sols:
                    continue
                # prefer the solutions that also satisfy the other equations in this parameter alone
                def score(s):
                    e = dict(env)
                    e.update(s)
                    return -sum(self.ev_eq(q, e).a == 0 for q in eqs)
                self.rng.shuffle(sols)
                sols.sort(key=score)
                env.update(sols[0])
                used.append(p)
                done = True
                break
            if not done:
                return None
        return self.finish(env, vals, used)


def model_value(A, poly, model):
    """Value of a polynomial under a partial model, or None when an atom is free."""
    v = 0
    for mo, c in poly.t.items():
        for a in mo:
            if a not in model:
                return None
            c = c * model[a]
        v += c
    return v >> poly.e if poly.e else v


def search(ob, cands, rng, seconds, tries=4):
    """Yield input assignments on the failing paths."""
    t0 = time.time()
    todo = []
    seen = set()
    for m, S, _, label in cands:
        key = repr(m.facts) + repr(m.path)
        if key in seen:
            continue
        seen.add(key)
        todo.append((m, S, label))
    # the paths with the fewest conditions first
    todo.sort(key=lambda c: (len([1 for f, d in c[0].facts if d]), len(c[0].path)))
    models = {}
    for k in range(tries):
        for i, (m, S, label) in enumerate(todo):
            if time.time() - t0 > seconds:
                return
            if i not in models:
                models[i] = {}
                if m.path:
                    st, mod = m.lia.query(lambda enc: [], m.path, model=True, timeout=10)
                    models[i] = mod if st == "sat" else None if st == "unsat" else {}
            if models[i] is None:
                continue
            s = Search(ob, m, S, rng)
            if k and not m.path and not any(d for f, d in m.facts if f[0] == "zero"):
                continue
            vals = s.attempt(models[i])
            if vals is not None:
                yield vals, label
