"""Layer 2: executes the curve code over abstract field elements.

Field elements are 64-byte cells holding FE tokens (values in engine/ring.py).  Functions that work on
limbs are recognised by running them once on tokens (they touch limbs), matched against a menu of field
operations on concrete inputs, and replaced by that operation; the limb-level proof of the match is part
of the same check (props/field.py).  Everything else is executed."""
import random
import re
import limbs
from machine import *
from poly import *
from ring import *
from spec import P

SRET = re.compile(r"sret\(\[(\d+) x i8\]\)")


class FEAccess(Unsupported):
    pass


class FE:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def mem_byte(self, m, i):
        raise FEAccess("limb access to an abstract field element at " + m.where())

    def __repr__(self):
        return "FE%r" % (self.v,)


class CB:
    """The 56 canonical bytes of a field element."""
    __slots__ = ("v", "raw")

    def __init__(self, v, raw=None):
        self.v = v

    def mem_byte(self, m, i):
        return m.canon_byte(self.v, i)


def sret(f):
    x = SRET.search(f.header)
    return int(x.group(1)) if x else 0


class FEM(Machine):
    def __init__(self, prog, be, ring=None, decisions=None, ct=False, contracts=None):
        Machine.__init__(self, prog, decisions=decisions)
        self.be = be
        self.lazysel = False         # selections between constants under a symbolic condition are abstract too
        self.R = ring or Ring()
        self.R.fork = self.ring_fork
        self.ct = ct                 # oblivious mode: no forks, opaque predicates
        self.meta = {}               # atom of the integer domain -> ("eq0", FV) | ("sign", FV)
        self.bits = {}
        self.bytes = {}
        self.open_atoms, self.open_at = set(), -1
        self.bkey = {}               # key -> FV whose canonical bytes they are
        self.signs = []              # decided signs [(FV, bit)]
        self.rawfe = {}              # byte-string key -> FV
        self.rawval = {}
        self.facts = []              # decisions taken, for concretising
        self.con = contracts if contracts is not None else CONTRACTS(prog, be)
        self.used = {}               # contracts used
        self.fresh = 0
        S = self.summaries
        S["<[u8] as subtle::ConstantTimeEq>::ct_eq"] = slice_ct_eq
        self.patterns.append((lambda n: "ed448_goldilocks" in n, self.hook))

    # ---- forks that are not branches of the program
    def fork(self, fact):
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            d = 1
            self.pending.append(self.decisions[:self.dpos] + [0])
            self.decisions = self.decisions + [1]
        self.dpos += 1
        self.facts.append((fact, d))
        return d

    def ring_fork(self, fact):
        if self.ct:
            return 0
        return self.fork(fact)

    def iszero(self, v):
        """Decide v = 0 on this path."""
        R = self.R
        if not v.c:
            return True
        for f, e in v.f:
            if not R.known_unit(f):
                return True
        return False

    def metabit(self, kind, v):
        """0/1 atom for a predicate of a field value."""
        key = (kind, v.key())
        a = self.bits.get(key)
        if a is None:
            p = self.A.input("%s%d" % (kind, len(self.bits)), 0, 1)
            a = self.bits[key] = next(iter(p.t))[0]
            self.meta[a] = (kind, v)
        return IV(patom(a), 0, 1)

    def settle_atom(self, a):
        """Fix a predicate atom on this path."""
        kind, v = self.meta[a]
        if kind == "eq0":
            d = 1 if self.iszero_split(v) else 0
        elif kind == "sign":
            d = self.sign(v)
        elif kind == "canon":
            d = self.fork(("canon", v))
        else:
            raise Unsupported(kind)
        self.assign[a] = d
        self.path.append(("==", psub(patom(a), pconst(d))))
        return d

    def iszero_split(self, v):
        """v = 0?  A value that is a constant times chi factors minus one is decided by the chi product."""
        R = self.R
        if self.iszero_trivial(v) is not None:
            return self.iszero_trivial(v)
        # pattern: c1*chi.. + c2 as a polynomial factor
        for f, e in v.f:
            if f in R.units:
                continue
            k, x = R.fac[f]
            if k == "poly":
                p = R.reduce(x)
                ats = {a for m in p for a, _ in m}
                if ats and all(R.akind[a] != "in" and R.akind[a][0] == "chi" for a in ats) and len(p) == 2:
                    ms = sorted(p, key=len)
                    if ms[0] == ():
                        c = -p[()] * pow(p[ms[1]], -1, P) % P     # chi product = c
                        if c not in (1, P - 1):
                            R.units.add(f)
                            continue
                        s = 1 if c == 1 else -1
                        fids = [R.byatom[a] for a, _ in ms[1]]
                        if self.fork(("chi", tuple(fids), s)):
                            R.setchi(fids, s)
                            return True
                        R.setchi(fids, -s)
                        R.units.add(f)
                        continue
            if not R.known_unit(f):
                return True
        return False

    def iszero_trivial(self, v):
        if not v.c:
            return True
        v = self.R.norm(v.c, dict(v.f))
        if not v.c:
            return True
        if all(f in self.R.units for f, e in v.f):
            return False
        return None

    def sign(self, v):
        R = self.R
        v = R.norm(v.c, dict(v.f))
        if not v.c:
            return 0
        # characters are +-1: fix their product first
        ch = [f for f, e in v.f if R.fac[f][0] == "atom" and R.akind[R.fac[f][1]] != "in" and R.akind[R.fac[f][1]][0] == "chi"]
        if ch:
            s = 1 if self.fork(("chi", tuple(ch), 1)) else -1
            R.setchi(ch, s)
            return self.sign(R.norm(v.c, dict(v.f)))
        if not v.f:
            return v.c & 1
        for g, b in self.signs:
            if g.f == v.f:
                if g.c == v.c:
                    return b
                if (g.c + v.c) % P == 0:
                    return 0 if self.iszero(v) else 1 - b
        for g, b in self.signs:
            for s in (1, -1):
                t = R.sum([v, FV(g.c * s, g.f)])
                if not t.c:
                    return b if s == -1 else (0 if self.iszero(v) else 1 - b)
        if self.iszero(v):
            return 0
        b = self.fork(("sign", v))
        self.signs.append((v, b))
        return b

    def settle(self, p):
        """Fix the predicate atoms p depends on, then apply."""
        for _ in range(4000):
            p = self.resolve(p)
            a = self.open_meta(p, set())
            if a is None:
                return p
            self.settle_atom(a)
        raise Unsupported("settle")

    def defs(self, a):
        d = self.A.data[a]
        if isinstance(d, Poly):
            return [d]
        if isinstance(d, tuple):
            out = [x for x in d if isinstance(x, Poly)]
            if self.A.kind[a] == "ind":
                out.append(patom(d[0]))
            return out
        return []

    def open_meta(self, p, seen):
        for k in p.t:
            for a in k:
                if a in seen or a in self.assign:
                    continue
                seen.add(a)
                if a in self.meta:
                    return a
                for q in self.defs(a):
                    r = self.open_meta(q, seen)
                    if r is not None:
                        return r
        return None

    def resolve(self, p, top=True):
        """p with every atom whose value follows from the fixed ones replaced."""
        if top and self.open_at != len(self.assign):
            self.open_atoms = set()
        p = self.apply_assign(p)
        hit = False
        for k in list(p.t):
            for a in k:
                if a not in self.assign and a not in self.open_atoms and self.defs(a):
                    v = self.known_value(a)
                    if v is not None:
                        self.assign[a] = v
                        hit = True
                    else:
                        self.open_atoms.add(a)
        if top:
            self.open_at = len(self.assign)
        return self.apply_assign(p) if hit else p

    def known_value(self, a):
        A = self.A
        if not self.assign:
            return None
        k, d = A.kind[a], A.data[a]
        if k == "ge":
            q = self.resolve(d[0], False)
            l, h = A.range(q)
            return 1 if l >= 0 else 0 if h < 0 else None
        qs = [self.resolve(q, False) for q in self.defs(a)]
        if not qs or any(not q.is_const() for q in qs):
            return None
        cs = [q.const() for q in qs]
        if k == "floor":
            return cs[0] >> d[1] if qs[0].e == 0 else None
        if k in ("let", "nm", "fd"):
            return cs[0] if qs[0].e == 0 else None
        if k == "ind":
            return int(cs[-1] == d[1])
        if k in ("xor", "and", "or"):
            return cs[0] ^ cs[1] if k == "xor" else cs[0] & cs[1] if k == "and" else cs[0] | cs[1]
        return None

    def decide(self, v, what="branch"):
        if type(v) is IV and not self.ct:
            v = IV(self.settle(self.uns(v, 1).p), 0, 1) if type(self.uns(v, 1)) is IV else self.uns(v, 1)
            v = self.norm(v, 1)
        return Machine.decide(self, v, what)

    def choice(self, c):
        """A Choice argument as 0/1, forking quietly if it is symbolic."""
        if type(c) is int:
            if c > 1:
                raise Panic("Choice out of range", self.where())
            return c
        c = self.trunc1(c)
        if type(c) is int:
            return c
        p = self.settle(c.p)
        if p.is_const():
            return p.const()
        n = len(self.events)
        fo, self.fork_ok = self.fork_ok, True
        d = Machine.decide(self, IV(p, 0, 1))
        self.fork_ok = fo
        del self.events[n:]
        return d

    # ---- bytes
    def canon_byte(self, v, i):
        key = v.key()
        if not v.f:
            return (v.c >> (8 * i)) & 255
        b = self.bytes.get(key)
        if b is None:
            s = self.metabit("sign", v)
            h = self.A.input("h", 0, 127)
            b = [padd(pscale(h, 2), s.p)]
            b += [self.A.input("cb%d_%d" % (len(self.bytes), j), 0, 255) for j in range(1, 56)]
            self.bytes[key] = b
            self.bkey[key] = v
        return IV(b[i], 0, 255)

    def read_fe(self, p, need=True):
        """FV at a pointer, or None."""
        if type(p) is not Ptr or type(p.off) is not int:
            return None
        o, off = p.o, p.off
        if off < 0 or off + 64 > o.size:
            return None
        c = o.cells.get(off)
        if c is not None and c[0] == 64:
            if isinstance(c[1], FE):
                return c[1].v
            if type(c[1]) is int:
                return self.const_fe(c[1])
            return None
        for i in range(off, off + 64):
            s = o.own.get(i)
            c = o.cells.get(s) if s is not None else None
            if c is None or type(c[1]) is not int:
                return None
        v = self.read(o, off, 64)
        return self.const_fe(v) if type(v) is int else None

    def const_fe(self, x):
        data = x.to_bytes(64, "little")
        return FV(limbs.value_of(self.be, data) % P)

    def is_token(self, p):
        c = p.o.cells.get(p.off)
        return c is not None and isinstance(c[1], FE)

    def write_fe(self, p, v):
        self.write(p.o, p.off, 64, FE(v))

    def new_fe(self, v, name="fe"):
        p = self.new(64, name)
        self.write_fe(p, v)
        return p

    def fresh_fe(self, name):
        self.fresh += 1
        return self.R.var("%s%d" % (name, self.fresh))

    def read_bytes56(self, p):
        """("cb", FV) / ("raw", value poly) of 56 bytes."""
        c = p.o.cells.get(p.off)
        if c is not None and c[0] == 56 and isinstance(c[1], CB):
            return "cb", c[1].v
        q = self.bytes_poly(p, 56)
        if q.is_const():
            return "raw", q
        # bytes of a canonical string copied one at a time
        for k, bs in self.bytes.items():
            if all(self.same_byte(p, i, bs[i]) for i in range(56)):
                return "cb", FV(k[0], k[1])
        return "raw", q

    def same_byte(self, p, i, b):
        v = self.read(p.o, p.off + i, 1)
        return isinstance(v, IV) and v.p.key() == b.key()

    def raw_fe(self, q):
        """Field value of raw little-endian bytes."""
        if q.is_const():
            return FV(q.const() % P)
        k = q.key()
        if k not in self.rawfe:
            self.rawfe[k] = self.R.var("raw%d" % len(self.rawfe))
            self.rawval[k] = q
        return self.rawfe[k]

    # ---- contracts
    def hook(self, m, f, args):
        c = self.con.lookup(self, f, args)
        if c is None:
            return NotImplemented
        role = c
        self.used[(f.pretty, f.name, role)] = self.used.get((f.pretty, f.name, role), 0) + 1
        return self.apply(role, f, args)

    def apply(self, role, f, a):
        R = self.R
        s = sret(f)
        if role in ("mul", "add", "sub"):
            x, y = self.read_fe(a[1]), self.read_fe(a[2])
            self.write_fe(a[0], {"mul": R.mul, "add": R.add, "sub": R.sub}[role](x, y))
        elif role in ("mula", "adda", "suba"):
            x, y = self.read_fe(a[0]), self.read_fe(a[1])
            self.write_fe(a[0], {"mul": R.mul, "add": R.add, "sub": R.sub}[role[:3]](x, y))
        elif role == "square":
            x = self.read_fe(a[1])
            self.write_fe(a[0], R.mul(x, x))
        elif role == "neg":
            self.write_fe(a[0], R.neg(self.read_fe(a[1])))
        elif role == "copy":
            self.write_fe(a[0], self.read_fe(a[1]))
        elif role == "reduce":
            self.write_fe(a[0], self.read_fe(a[0]))
        elif role in ("select", "assign", "swap", "cneg"):
            if self.ct and type(a[-1]) is not int:
                if role == "select":
                    self.write_fe(a[0], self.fresh_fe("t"))
                else:
                    self.write_fe(a[0], self.fresh_fe("t"))
                    if role == "swap":
                        self.write_fe(a[1], self.fresh_fe("t"))
                return None
            c = self.choice(a[-1])
            if role == "select":
                self.write_fe(a[0], self.read_fe(a[2] if c else a[1]))
            elif role == "assign":
                if c:
                    self.write_fe(a[0], self.read_fe(a[1]))
            elif role == "swap":
                if c:
                    x, y = self.read_fe(a[0]), self.read_fe(a[1])
                    self.write_fe(a[0], y)
                    self.write_fe(a[1], x)
            elif c:
                self.write_fe(a[0], R.neg(self.read_fe(a[0])))
        elif role == "to_bytes":
            v = self.read_fe(a[1])
            if not v.f:
                for i in range(56):
                    self.write(a[0].o, a[0].off + i, 1, v.c >> (8 * i) & 255)
            else:
                self.write(a[0].o, a[0].off, 56, CB(v))
        elif role == "from_bytes":
            k, q = self.read_bytes56(a[1])
            self.write_fe(a[0], q if k == "cb" else self.raw_fe(q))
        elif role in ("ct_eq", "eq"):
            return self.eqbit(R.sub(self.read_fe(a[0]), self.read_fe(a[1])))
        elif role == "is_zero":
            return self.eqbit(self.read_fe(a[0]))
        elif role == "sign":
            v = self.read_fe(a[0])
            return v.c & 1 if not v.f else self.metabit("sign", v)
        else:
            raise Unsupported("role " + role)
        return None

    def canon_is(self, v, kd, o):
        """0/1: the canonical bytes of v are those of o (read_bytes56)."""
        if kd == "cb":
            return self.eqbit(self.R.sub(v, o))
        if o.is_const():
            if o.const() >= P:
                return 0
            return self.eqbit(self.R.sub(v, FV(o.const())))
        # canonical bytes against raw bytes: equal iff same field value and the raw bytes are reduced
        same = self.eqbit(self.R.sub(v, self.raw_fe(o)))
        return self.bin("and", 8, same, self.rawcanon(o))

    def memcmp(self, a):
        if a[2] == 56:
            r = slice_ct_eq(self, None, (a[0], 56, a[1], 56))
            if type(r) is int:
                return 1 - r
            self.events.append(("memcmp", self.where()))
            return self.bin("xor", 32, r, 1)
        return Machine.memcmp(self, a)

    def equal(self, pairs):
        """Comparisons of whole encodings, written out byte by byte, are comparisons of field values."""
        if len(pairs) == 56:
            for k, bs in self.bytes.items():
                pos = {b.key(): i for i, b in enumerate(bs)}
                other = {}
                for x, y, _ in pairs:
                    for u, w in ((x, y), (y, x)):
                        if u.key() in pos:
                            other.setdefault(pos[u.key()], w)
                            break
                    else:
                        break
                if len(other) == 56:
                    ks = [other[i].key() for i in range(56)]
                    kd, o = "raw", ZERO
                    for k2, b2 in self.bytes.items():
                        if ks == [b.key() for b in b2]:
                            kd, o = "cb", self.bkey[k2]
                    if kd == "raw":
                        for i in range(56):
                            o = padd(o, pscale(other[i], 1 << (8 * i)))
                    r = self.canon_is(self.bkey[k], kd, o)
                    r = pconst(r) if type(r) is int else r.p
                    self.eqs[r.key()] = pairs
                    return r
        return Machine.equal(self, pairs)

    def eqbit(self, d):
        t = self.iszero_trivial(d)
        if t is not None:
            return int(t)
        return self.metabit("eq0", d)


def slice_ct_eq(m, f, a):
    p, n, q, k = a
    if n != k:
        return 0
    if n == 56:
        def kind(x):
            c = x.o.cells.get(x.off)
            return c[1] if c is not None and c[0] == 56 and isinstance(c[1], CB) else None
        u, v = kind(p), kind(q)
        if u is not None or v is not None:
            if u is not None and v is not None:
                return m.eqbit(m.R.sub(u.v, v.v))
            cb, other = (u, q) if u is not None else (v, p)
            return m.canon_is(cb.v, *m.read_bytes56(other))
    d = m.bytes_diff(p, q, n)
    if type(d) is int:
        return int(d == 0)
    return m.mkiv(m.A.eq0(d.p), 0, 1)


def rawcanon(m, q):
    """0/1: the raw byte value is below p."""
    return m.mkiv(m.A.ge0(psub(pconst(P - 1), q)), 0, 1)


FEM.rawcanon = rawcanon


class Contracts:
    """Which functions are field operations on limbs, decided by execution."""

    def __init__(self, prog, be):
        self.prog, self.be = prog, be
        self.cache = {}
        self.active = set()

    def lookup(self, m, f, args):
        if f.blocks is None:
            f.mod.parse(f)
        n = len(f.params)
        if n == 0 or n > 4 or len(args) != n:
            return None
        s = sret(f)
        if s not in (0, 64, 56):
            return None
        kinds = []
        tok = False
        for i, ((r, t), a) in enumerate(zip(f.params, args)):
            if i == 0 and s:
                kinds.append("o%d" % s)
                continue
            if t.k == "int":
                if t.w > 8 or i != n - 1:
                    return None
                kinds.append("c")
                tok = tok or m.lazysel and type(a) is not int
                continue
            if type(a) is not Ptr or type(a.off) is not int:
                return None
            v = m.read_fe(a)
            if v is not None:
                kinds.append("f")
                tok = tok or m.is_token(a)
                continue
            if s == 64 and n == 2 and a.off + 56 <= a.o.size and self.bytes56(m, a):
                kinds.append("b")
                tok = True
                continue
            return None
        if not tok:
            return None
        k = " ".join(kinds)
        rt = f.ret.s if hasattr(f.ret, "s") else str(f.ret)
        key = (f.name, k)
        if key in self.cache:
            return self.cache[key]
        if key in self.active:
            return None
        menu = {"o64 f f": ["mul", "add", "sub"], "o64 f": ["square", "neg", "copy"], "o64 f f c": ["select"], "f f c": ["assign", "swap"],
                "f c": ["cneg"], "f": ["reduce", "sign", "is_zero"], "f f": ["mula", "adda", "suba", "ct_eq", "eq"], "o56 f": ["to_bytes"],
                "o64 b": ["from_bytes"]}.get(k)
        if menu is None:
            self.cache[key] = None
            return None
        void = f.ret is None or rt == "void"
        menu = [r for r in menu if (r in ("sign", "is_zero", "ct_eq", "eq")) != void]
        r = None
        self.active.add(key)
        try:
            if menu and self.leaf(f, kinds):
                r = self.match(f, menu)
        finally:
            self.active.discard(key)
        self.cache[key] = r
        return r

    def bytes56(self, m, a):
        c = a.o.cells.get(a.off)
        if c is not None and c[0] == 56 and isinstance(c[1], CB):
            return True
        for i in range(56):
            s = a.o.own.get(a.off + i)
            if s is None or s not in a.o.cells:
                return False
            v = a.o.cells[s][1]
            if a.o.cells[s][0] > 1 and not isinstance(v, (int, IV)):
                return False
            if not isinstance(v, (int, IV, CB)):
                return False
        return True

    def leaf(self, f, kinds):
        """Running it on abstract elements touches limbs."""
        m = FEM(self.prog, self.be, contracts=self, ct=True)
        m.fork_ok = False
        args = []
        for i, k in enumerate(kinds):
            if k[0] == "o":
                args.append(m.new(int(k[1:])))
            elif k == "c":
                args.append(IV(m.A.input("c", 0, 1), 0, 1))
            elif k == "b":
                p = m.new(56)
                for j in range(56):
                    m.write(p.o, j, 1, IV(m.A.input("b%d" % j, 0, 255), 0, 255))
                return True
            else:
                args.append(m.new_fe(m.R.var("v%d" % i)))
        try:
            m.run(f, args)
        except FEAccess:
            return True
        except (Unsupported, Panic, PathEnd, Infeasible):
            return False
        # completed on abstract values: the bytes domain also counts as abstract
        return False

    def match(self, f, menu):
        import field
        rng = random.Random(7)
        for r in menu:
            ob = field.FieldOp(r, self.be)
            ob.f = f
            ob.funcs = [f]
            n, w, rad = limbs.REP[self.be]
            ob.box = [(1 << rad) - 1] * n
            ob.stable = False
            ok = True
            for t in range(4):
                vals = ob.sample(rng)
                mm = Machine(self.prog)
                bufs = {}
                from obl import Buf
                for nm, size, word, his in ob.inputs():
                    bufs[nm] = Buf(mm, nm, size, word, his, fixed=vals[nm])
                try:
                    res = ob.execute(mm, bufs)
                except Exception:
                    ok = False
                    break
                if isinstance(res, list):
                    got = [p.const() % P for p, _ in res]
                else:
                    got = [res.const() if isinstance(res, Poly) else mm.P_(res).const()]
                if got != ob.spec(vals):
                    ok = False
                    break
            if ok and (limbs.role(f.pretty) == r or self.prove(f, r)):
                return r
        return None

    def prove(self, f, r):
        """Limb-level proof that f is operation r and stays within the limb bounds."""
        import field, obl
        ob = field.FieldOp(r, self.be)
        ctx = obl.Ctx(None, "quick", 1)
        ctx.progs[self.be] = self.prog
        ob.setup(ctx)
        ob.f = f
        ob.funcs = [f]
        ob.paths = []
        try:
            st, c, n = obl.Obligation.solve(ob, ctx, None, None)
        except Exception:
            return False
        return st == "holds"


_con = {}


def CONTRACTS(prog, be):
    k = (id(prog), be)
    if k not in _con:
        _con[k] = Contracts(prog, be)
    return _con[k]
