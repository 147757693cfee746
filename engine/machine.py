"""Symbolic executor for LLVM IR over the polynomial domain."""
import bisect, random, time
import llir
from llir import PTR, IntTy
from poly import *
from solve import LIA, Inconclusive, STATS


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.o.name if self.o else None, self.off)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class FnPtr:
    __slots__ = ("f", "name", "mod")

    def __init__(self, f, name, mod):
        self.f, self.name, self.mod = f, name, mod


class Panic(Exception):
    def __init__(self, msg, where):
        self.msg = msg
        self.where = where
        Exception.__init__(self, "%s in %s" % (msg, where))


class PathEnd(Exception):
    pass


class Obj:
    __slots__ = ("size", "cells", "own", "name", "addr", "const", "live")

    def __init__(self, size, name, addr):
        self.size = size
        self.cells = {}
        self.own = {}
        self.name = name
        self.addr = addr
        self.const = False
        self.live = True


def zero(v):
    return type(v) is int and v == 0


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Machine:
    MAXSTEPS = 30000000

    def __init__(self, prog, atoms=None, decisions=None, lia=None):
        self.P = prog
        self.A = atoms or Atoms()
        self.lia = lia or LIA(self.A)
        self.objs = []
        self.addrs = []
        self.next_addr = 0x10000
        self.gl = {}
        self.summaries = {}
        self.decisions = decisions or []
        self.dpos = 0
        self.pending = []          # alternative decision prefixes discovered
        self.path = []             # [(rel, poly)]
        self.assign = {}
        self.wits = []               # (path length checked, evaluation)
        self.eqs = {}                # truth values of equations: the pairs of words that are equal
        self.top = {}                # upper bounds of the operands of opaque disjunctions
        self.oprng = {}              # ranges of the operands of opaque xors
        self.rnd = random.Random(1)
        self.events = []
        self.steps = 0
        self.trace = None
        self.called = set()
        self.stack = []
        self.posthook = None       # called after each executed function
        self.public = None         # predicate for data that may steer control flow
        self.fork_ok = True
        self.fe_size = 64
        self.install_builtin()

    # ------------------------------------------------------------------ memory
    def alloc(self, size, name="obj"):
        o = Obj(size, name, self.next_addr)
        self.next_addr += ((size + 127) // 64) * 64
        self.objs.append(o)
        self.addrs.append(o.addr)
        return o

    def new(self, size, name="obj"):
        return Ptr(self.alloc(size, name), 0)

    def explode(self, o, start):
        """Split the cell at start into bytes."""
        size, v = o.cells.pop(start)
        for i in range(size):
            b = self.byte_of(v, i, size)
            o.cells[start + i] = (1, b)
            o.own[start + i] = start + i

    def byte_of(self, v, i, size):
        if type(v) is int:
            return (v >> (8 * i)) & 255
        if v is UNDEF:
            return UNDEF
        if isinstance(v, IV):
            return self.bits_iv(v, 8 * i, 8 * i + 8)
        if hasattr(v, "mem_byte"):
            return v.mem_byte(self, i)
        raise Unsupported("partial access to %r" % (v,))

    def write(self, o, off, size, v):
        if o.const:
            raise Unsupported("write to constant")
        if off < 0 or off + size > o.size:
            raise Panic("out-of-bounds write", self.where())
        own, cells = o.own, o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        for i in range(off, off + size):
            s = own.get(i)
            if s is not None:
                c = cells.get(s)
                if c is None:
                    continue
                if s < off or s + c[0] > off + size:
                    self.explode(o, s)
                    if off <= i < off + size:
                        cells.pop(i, None)
                else:
                    del cells[s]
        cells[off] = (size, v)
        for i in range(off, off + size):
            own[i] = off

    def read(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if off < 0 or off + size > o.size:
            raise Panic("out-of-bounds read", self.where())
        # assemble
        pieces = []
        i = off
        end = off + size
        while i < end:
            s = o.own.get(i)
            c = o.cells.get(s) if s is not None else None
            if c is None:
                return UNDEF
            csz, v = c
            a = i - s
            b = min(csz, end - s)
            if a == 0 and b == csz:
                pieces.append((i - off, csz, v))
            else:
                if type(v) is int:
                    pieces.append((i - off, b - a, (v >> (8 * a)) & ((1 << (8 * (b - a))) - 1)))
                elif isinstance(v, IV):
                    pieces.append((i - off, b - a, self.bits_iv(v, 8 * a, 8 * b)))
                elif v is UNDEF:
                    return UNDEF
                else:
                    for j in range(a, b):
                        pieces.append((i - off + j - a, 1, self.byte_of(v, j, csz)))
            i = s + b
        if len(pieces) == 1:
            return pieces[0][2]
        if all(type(v) is int for _, _, v in pieces):
            r = 0
            for o_, s_, v in pieces:
                r |= v << (8 * o_)
            return r
        p = ZERO
        for o_, s_, v in pieces:
            if v is UNDEF:
                return UNDEF
            if type(v) is int:
                p = padd(p, pconst(v << (8 * o_)))
            elif isinstance(v, IV):
                u = self.uns(v, 8 * s_)
                p = padd(p, pscale(u.p if isinstance(u, IV) else pconst(u), 1 << (8 * o_)))
            else:
                raise Unsupported("assemble %r" % (v,))
        return self.mkiv(p, 0, (1 << (8 * size)) - 1)

    def load(self, ptr, ty):
        o, off = self.deref(ptr, ty.size)
        return self.load_at(o, off, ty)

    def load_at(self, o, off, ty):
        k = ty.k
        if k == "int" or k == "ptr":
            v = self.read(o, off, ty.size)
            if k == "ptr" and type(v) is int and v:
                return self.int2ptr(v)
            if ty.w < ty.size * 8 and k == "int":
                if type(v) is int:
                    v &= (1 << ty.w) - 1
            if k == "int" and type(v) is Ptr:
                v = self.ptr2int(v)
            return v
        if k == "struct":
            return [self.load_at(o, off + f, t) for f, t in zip(ty.offs, ty.el)]
        if k == "arr":
            s = ty.el.size
            return [self.load_at(o, off + i * s, ty.el) for i in range(ty.n)]
        raise Unsupported("load " + ty.s)

    def store(self, ptr, ty, v):
        o, off = self.deref(ptr, ty.size)
        self.store_at(o, off, ty, v)

    def store_at(self, o, off, ty, v):
        k = ty.k
        if k == "int" or k == "ptr":
            self.write(o, off, ty.size, v)
        elif k == "struct":
            for f, t, x in zip(ty.offs, ty.el, v if v is not UNDEF else [UNDEF] * ty.n):
                self.store_at(o, off + f, t, x)
        elif k == "arr":
            s = ty.el.size
            for i in range(ty.n):
                self.store_at(o, off + i * s, ty.el, v[i] if v is not UNDEF else UNDEF)
        else:
            raise Unsupported("store " + ty.s)

    def deref(self, ptr, size):
        if type(ptr) is not Ptr:
            if type(ptr) is int:
                ptr = self.int2ptr(ptr)
                if type(ptr) is int:
                    if size == 0:
                        return self.dummy(), 0
                    raise Unsupported("null/invalid dereference %r at %s" % (ptr, self.where()))
            else:
                raise Unsupported("dereference of %r at %s" % (ptr, self.where()))
        off = ptr.off
        if type(off) is not int:
            self.events.append(("address", self.where()))
            off = self.choose(off, 64)
            off = sgn(off, 64)
        return ptr.o, off

    def dummy(self):
        return self.alloc(0, "zst")

    def memcpy(self, d, s, n):
        if n == 0:
            return
        so, soff = self.deref(s, n)
        do, doff = self.deref(d, n)
        if soff < 0 or soff + n > so.size:
            raise Panic("out-of-bounds memcpy read", self.where())
        items = []
        i = soff
        end = soff + n
        own, cells = so.own, so.cells
        while i < end:
            st = own.get(i)
            c = cells.get(st) if st is not None else None
            if c is None:
                i += 1
                continue
            if st < i or st + c[0] > end:
                self.explode(so, st)
                c = cells[i]
                st = i
            items.append((st - soff, c[0], c[1]))
            i = st + c[0]
        # clear destination
        if len(items) != 1:
            own, cells = do.own, do.cells
            i, end = doff, doff + n
            while i < end:
                st = own.get(i)
                c = cells.get(st) if st is not None else None
                if c is None:
                    i += 1
                    continue
                if st >= doff and st + c[0] <= end:
                    del cells[st]
                i = st + c[0]
        pos = 0
        for off, sz, v in items:
            if off > pos:
                self.clear(do, doff + pos, off - pos)
            self.write(do, doff + off, sz, v)
            pos = off + sz
        if pos < n:
            self.clear(do, doff + pos, n - pos)

    def clear(self, o, off, n):
        if off < 0 or off + n > o.size:
            raise Panic("out-of-bounds memcpy write", self.where())
        for i in range(off, off + n):
            s = o.own.get(i)
            if s is None:
                continue
            c = o.cells.get(s)
            if c is None:
                continue
            if s < off or s + c[0] > off + n:
                self.explode(o, s)
                o.cells.pop(i, None)
            else:
                del o.cells[s]

    def ptr2int(self, p):
        if type(p) is Ptr:
            off = p.off
            if type(off) is int:
                return (p.o.addr + off) & ((1 << 64) - 1)
            return self.bin("add", 64, off, p.o.addr)
        if isinstance(p, FnPtr):
            return 0x7000000
        return p

    def int2ptr(self, v):
        if type(v) is not int:
            raise Unsupported("symbolic inttoptr")
        i = bisect.bisect_right(self.addrs, v) - 1
        if i >= 0:
            o = self.objs[i]
            if o.addr <= v <= o.addr + o.size:
                return Ptr(o, v - o.addr)
        return v

    def glob(self, mod, name):
        key = (mod.path, name)
        g = self.gl.get(key)
        if g is not None:
            return g
        f = self.P.resolve(mod, name)
        if f is not None:
            g = FnPtr(f, name, mod)
            self.gl[key] = g
            return g
        txt = mod.globals.get(name)
        if txt is None:
            # other module
            for m in self.P.mods:
                if name in m.globals and "external" not in m.globals[name].split(" ")[:2]:
                    return self.glob(m, name)
            g = FnPtr(None, name, mod)
            self.gl[key] = g
            return g
        L = llir.Lexer(txt, mod)
        while True:
            w = L.word()
            if w in ("constant", "global"):
                break
        ty = L.type()
        c = mod._const(L, ty)
        o = self.alloc(ty.size, name)
        g = Ptr(o, 0)
        self.gl[key] = g
        self.init(mod, o, 0, ty, c)
        o.const = w == "constant"
        return g

    def init(self, mod, o, off, ty, c):
        k = c[0]
        if k == "agg":
            if ty.k == "struct":
                for f, (t, x) in zip(ty.offs, c[1]):
                    self.init(mod, o, off + f, t, x)
            else:
                for i, (t, x) in enumerate(c[1]):
                    self.init(mod, o, off + i * ty.el.size, t, x)
        elif k == "bytes":
            for i, b in enumerate(c[1]):
                self.write(o, off + i, 1, b)
        elif k == "c":
            self.write(o, off, ty.size, c[1])
        elif k == "z":
            for i in range(ty.size):
                self.write(o, off + i, 1, 0)
        elif k == "u":
            pass
        elif k == "g":
            self.write(o, off, 8, self.glob(mod, c[1]))
        elif k == "x":
            self.write(o, off, 8, self.constexpr(mod, c[1]))
        elif k == "k":
            self.init(mod, o, off, ty, c[1])
        else:
            raise Unsupported("init %r" % (c,))

    def constexpr(self, mod, x):
        if x[0] == "gep":
            _, bt, b, idx = x
            base = self.val(None, b, mod)
            off = idx[0][1] * bt.size
            t = bt
            for i in idx[1:]:
                if t.k == "struct":
                    off += t.offs[i[1]]
                    t = t.el[i[1]]
                else:
                    off += i[1] * t.el.size
                    t = t.el
            return Ptr(base.o, base.off + sgn(off & ((1 << 64) - 1), 64))
        if x[0] == "inttoptr":
            v = self.val(None, x[2], mod)
            return self.int2ptr(v)
        raise Unsupported("constexpr")

    # ------------------------------------------------------------------ values
    def mkiv(self, p, lo, hi):
        if p.is_const() and p.e == 0:
            return p.const()
        if lo == hi:
            return lo
        return IV(p, lo, hi)

    def norm(self, v, w):
        """Collapse constant IVs to ints of width w."""
        if type(v) is IV:
            if v.lo == v.hi:
                return v.lo & ((1 << w) - 1)
            p = v.p
            if p.is_const() and p.e == 0:
                return p.const() & ((1 << w) - 1)
        elif type(v) is int:
            return v & ((1 << w) - 1)
        return v

    def tight(self, v):
        """Tighten an IV's range from its polynomial."""
        l, h = self.A.range2(v.p)
        if l > v.lo:
            v.lo = l
        if h < v.hi:
            v.hi = h
        return v

    def uns(self, v, w):
        """Unsigned canonical value (IV with range in [0,2^w) or int)."""
        if type(v) is int:
            return v & ((1 << w) - 1)
        if v is UNDEF:
            raise Unsupported("use of undef")
        M = 1 << w
        if v.lo >= 0 and v.hi < M:
            return v
        self.tight(v)
        if v.lo >= 0 and v.hi < M:
            return v
        return self.reduce(v, w, 0)

    def sig(self, v, w):
        if type(v) is int:
            return sgn(v & ((1 << w) - 1), w)
        if v is UNDEF:
            raise Unsupported("use of undef")
        H = 1 << (w - 1)
        if v.lo >= -H and v.hi < H:
            return v
        self.tight(v)
        if v.lo >= -H and v.hi < H:
            return v
        return self.reduce(v, w, H)

    def reduce(self, v, w, bias):
        """v mod 2^w in [-bias, 2^w - bias)."""
        A = self.A
        q = padd(v.p, pconst(bias)) if bias else v.p
        f = A.floor(q, w, v.lo + bias, v.hi + bias)
        A.note_range(f, (v.lo + bias) >> w, (v.hi + bias) >> w)
        r = psub(v.p, pscale(f, 1 << w))
        lo, hi = -bias, (1 << w) - 1 - bias
        if v.mulc is not None and not f.is_const() and bias == 0:
            r = A.let(r, lo, hi)
            A.letmul[next(iter(r.t))[0]] = v.mulc + (w,)
        res = self.mkiv(r, lo, hi)
        if type(res) is IV:
            A.note_range(r, lo, hi)
            self.tight(res)
            if res.lo == res.hi:
                return res.lo
            if res.hi - res.lo == 1 and len(r.t) > 1 and A.bases(r) is None:
                return IV(patom(A.fd(r, (res.lo, res.hi))), res.lo, res.hi)
        return res

    def bits_iv(self, v, s, e):
        """Bits [s,e) of a word as an unsigned value."""
        A = self.A
        f = A.floor(v.p, s, v.lo, v.hi)
        w = e - s
        return self.uns(self.mkiv(f, v.lo >> s, v.hi >> s), w)

    def P_(self, v):
        return v.p if type(v) is IV else pconst(v)

    def rng(self, v):
        return (v.lo, v.hi) if type(v) is IV else (v, v)

    # binary operators ------------------------------------------------------
    def bin(self, op, w, a, b):
        if type(a) is int and type(b) is int:
            return self.cbin(op, w, a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if not (isinstance(a, (int, IV)) and isinstance(b, (int, IV))):
            return self.ptrbin(op, w, a, b)
        A = self.A
        M = 1 << w
        if op in ("add", "sub"):
            if type(a) is int and op == "sub" or type(a) is int:
                if a >> (w - 1):
                    a -= M
            if type(b) is int and b >> (w - 1):
                b -= M
            al, ah = self.rng(a)
            bl, bh = self.rng(b)
            if op == "add":
                r = IV(padd(self.P_(a), self.P_(b)), al + bl, ah + bh)
                r.parts = (a, b)
                return self.norm(r, w)
            return self.norm(IV(psub(self.P_(a), self.P_(b)), al - bh, ah - bl), w)
        if op == "mul":
            return self.mul(w, a, b)
        if op == "shl":
            if type(b) is not int:
                b = self.choose(b, w)
            if type(a) is int:
                return (a << b) & (M - 1)
            return self.norm(IV(pscale(a.p, 1 << b), a.lo << b, a.hi << b), w)
        if op == "lshr":
            if type(b) is not int:
                b = self.choose(b, w)
                if type(a) is int:
                    return a >> b
            if b == 0:
                return a
            if a.lo < 0 or a.hi >= M:
                self.tight(a)
            if a.lo >= 0 and a.hi < M:
                return self.norm(IV(A.floor(a.p, b, a.lo, a.hi), a.lo >> b, a.hi >> b), w)
            # bits [b, w)
            f = IV(A.floor(a.p, b, a.lo, a.hi), a.lo >> b, a.hi >> b)
            return self.norm(self.uns(f, w - b), w)
        if op == "ashr":
            if type(b) is not int:
                b = self.choose(b, w)
                if type(a) is int:
                    return (sgn(a, w) >> b) & (M - 1)
            s = self.sig(a, w)
            if type(s) is int:
                return (s >> b) & (M - 1)
            return self.norm(IV(A.floor(s.p, b, s.lo, s.hi), s.lo >> b, s.hi >> b), w)
        if op in ("and", "or", "xor"):
            return self.norm(self.bitop(op, w, a, b), w)
        if op in ("udiv", "urem"):
            if type(b) is int and b & (b - 1) == 0 and b:
                k = b.bit_length() - 1
                u = self.uns(a, w)
                if op == "udiv":
                    return self.bin("lshr", w, u, k)
                return self.bin("and", w, u, b - 1)
        raise Unsupported("%s i%d symbolic at %s" % (op, w, self.where()))

    def ptrbin(self, op, w, a, b):
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        if isinstance(a, (int, IV)) and isinstance(b, (int, IV)):
            return self.bin(op, w, a, b)
        raise Unsupported("%s on %r, %r" % (op, a, b))

    def cbin(self, op, w, a, b):
        M = (1 << w) - 1
        if op == "add":
            return (a + b) & M
        if op == "sub":
            return (a - b) & M
        if op == "mul":
            return (a * b) & M
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & M if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (sgn(a, w) >> min(b, w - 1)) & M
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        a, b = sgn(a, w), sgn(b, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        if op == "sdiv":
            return q & M
        return (a - q * b) & M

    def named(self, v):
        """Name a long value whose range is much better known than its polynomial's."""
        if type(v) is IV and len(v.p.t) > 2:
            l, h = self.A.range(v.p)
            if h - l > 2 * (v.hi - v.lo):
                return IV(self.A.nm(v.p, v.lo, v.hi), v.lo, v.hi)
        return v

    def mul(self, w, a, b):
        M = 1 << w
        if type(a) is int:
            a, b = b, a
        orig = a
        a, b = self.named(a), self.named(b)
        if type(b) is int:
            if b == 0:
                return 0
            if b == 1:
                return a
            c = b - M if b > M - 256 else b
            if a.lo < 0 or a.hi >= M:
                self.tight(a)
                if (a.lo < -M or a.hi >= M):
                    a = self.uns(a, w)
                    if type(a) is int:
                        return (a * b) & (M - 1)
            l, h = a.lo * c, a.hi * c
            if l > h:
                l, h = h, l
            r = IV(pscale(a.p, c), l, h)
            if c > 1 and c & (c - 1):
                r.mulc = (orig.p, c)
            return self.norm(r, w)
        for x in (a, b):
            if x.lo < 0 or x.hi >= M:
                self.tight(x)
        if not (a.lo >= -M and a.hi < M):
            a = self.uns(a, w)
        if not (b.lo >= -M and b.hi < M):
            b = self.uns(b, w)
        if type(a) is int or type(b) is int:
            return self.bin("mul", w, a, b)
        c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        return self.norm(IV(self.A.mul(a.p, b.p), min(c), max(c)), w)

    def overflow(self, op, signed, w, a, b):
        """(result, overflow flag) of a checked operation."""
        if a is UNDEF or b is UNDEF:
            raise Unsupported("use of undef")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.ptr2int(a), self.ptr2int(b)
        if signed:
            a, b = self.sig(a, w), self.sig(b, w)
            L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            a, b = self.uns(a, w), self.uns(b, w)
            L, H = 0, (1 << w) - 1
        oa, ob = a, b
        if op == "mul":
            a, b = self.named(a), self.named(b)
        if type(a) is int and type(b) is int:
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            return r & ((1 << w) - 1), int(not L <= r <= H)
        A = self.A
        al, ah = self.rng(a)
        bl, bh = self.rng(b)
        if op == "add":
            r = IV(padd(self.P_(a), self.P_(b)), al + bl, ah + bh)
        elif op == "sub":
            r = IV(psub(self.P_(a), self.P_(b)), al - bh, ah - bl)
        else:
            c = (al * bl, al * bh, ah * bl, ah * bh)
            r = IV(A.mul(self.P_(a), self.P_(b)), min(c), max(c))
            x = oa if type(b) is int else ob if type(a) is int else None
            y = b if type(b) is int else a
            if x is not None and y & (y - 1):
                r.mulc = (x.p, y)
        if not (r.lo >= L and r.hi <= H):
            self.tight(r)
        if r.lo >= L and r.hi <= H:
            return self.norm(r, w), 0
        # symbolic overflow condition
        if not signed and op != "mul":
            if r.lo >= 0 and r.hi < 2 << w:
                if self.never(psub(r.p, pconst(H + 1))):
                    r.hi = H
                    return self.norm(r, w), 0
                return self.norm(r, w), self.mkiv(A.floor(r.p, w, r.lo, r.hi), 0, 1)
            if r.lo >= -1 << w and r.hi <= H:
                if self.never(psub(pconst(-1), r.p)):
                    r.lo = 0
                    return self.norm(r, w), 0
                return self.norm(r, w), self.mkiv(pscale(A.floor(r.p, w, r.lo, r.hi), -1), 0, 1)
        bad = ZERO
        if r.hi > H:
            if self.never(psub(r.p, pconst(H + 1))):
                r.hi = H
            else:
                bad = padd(bad, A.ge0(psub(r.p, pconst(H + 1))))
        if r.lo < L:
            if self.never(psub(pconst(L - 1), r.p)):
                r.lo = L
            else:
                bad = padd(bad, A.ge0(psub(pconst(L - 1), r.p)))
        return self.norm(r, w), self.mkiv(bad, 0, 1)

    def never(self, p):
        """Solver: is p >= 0 impossible under the path?"""
        return self.lia.feasible([p], (), self.path) == "unsat"

    # bitwise ---------------------------------------------------------------
    def bitop(self, op, w, a, b):
        M = (1 << w) - 1
        A = self.A
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            b &= M
            if op == "and":
                if b == 0:
                    return 0
                if b == M:
                    return a
                r01 = self.small01(a)
                if r01:
                    return a if b & 1 else 0
                # contiguous runs of ones
                p = ZERO
                i = 0
                hi = 0
                while i < w:
                    if not (b >> i) & 1:
                        i += 1
                        continue
                    j = i
                    while j < w and (b >> j) & 1:
                        j += 1
                    x = self.bits_iv(a, i, j)
                    xp = self.P_(x)
                    p = padd(p, pscale(xp, 1 << i))
                    hi += self.rng(x)[1] << i
                    i = j
                return self.mkiv(p, 0, hi)
            if op == "xor":
                if b == 0:
                    return a
                if b == M:
                    return IV(psub(pconst(-1), a.p), -1 - a.hi, -1 - a.lo)
                if self.small01(a) and b == 1:
                    return IV(psub(pconst(1), a.p), 0, 1)
            if op == "or":
                if b == 0:
                    return a
                if b == M:
                    return M
                if self.small01(a) and b == 1:
                    return 1
                u = self.uns(a, w)
                if type(u) is int:
                    return u | b
                if u.hi < (b & -b):
                    return IV(padd(u.p, pconst(b)), u.lo + b, u.hi + b)
        else:
            if self.small01(a) and self.small01(b):
                if op == "or" and self.carries(a.p, b.p):
                    return IV(padd(a.p, b.p), 0, 1)
                if op == "and":
                    return IV(self.both(a.p, b.p), 0, 1)
                if op == "or":
                    na, nb = psub(pconst(1), a.p), psub(pconst(1), b.p)
                    if na.key() in self.eqs and nb.key() in self.eqs:
                        return IV(psub(pconst(1), self.both(na, nb)), 0, 1)
                ab = A.mul(a.p, b.p)
                if op == "or":
                    return IV(psub(padd(a.p, b.p), ab), 0, 1)
                return IV(psub(padd(a.p, b.p), pscale(ab, 2)), 0, 1)
            if a.p.key() == b.p.key():
                return 0 if op == "xor" else a
        # finite-domain table
        r = self.fdtable(lambda x, y: self.cbin(op, w, x & M, y & M), [a, b], w)
        if r is not None:
            return r
        # split on a boolean atom that appears affinely in one operand
        r = self.boolsplit(op, w, a, b)
        if r is not None:
            return r
        if type(b) is int:
            if op == "xor":   # a ^ c = a + c - 2 (a & c)
                x = self.bitop("and", w, a, b)
                return self.bin("sub", w, self.bin("add", w, a, b), self.bin("shl", w, x, 1))
            x = self.bitop("and", w, a, b)
            return self.bin("sub", w, self.bin("add", w, a, b), x)
        ua, ub = self.uns(a, w), self.uns(b, w)
        if type(ua) is int or type(ub) is int:
            return self.bin(op, w, ua, ub)
        # disjoint bits
        for x, y in ((ua, ub), (ub, ua)):
            k = y.hi.bit_length()
            if self.multiple(x.p, k):
                if op == "and":
                    return 0
                return IV(padd(x.p, y.p), x.lo + y.lo, x.hi + y.hi)
        # opaque
        ka, kb = ua.p.key(), ub.p.key()
        if op == "xor":
            for x, y in ((ua, ub), (ub, ua)):
                if len(x.p.t) == 1:
                    m, c = next(iter(x.p.t.items()))
                    if c == 1 and len(m) == 1 and A.kind[m[0]] == "xor":
                        p1, p2 = A.data[m[0]]
                        for p, q in ((p1, p2), (p2, p1)):
                            if p.key() == y.p.key():
                                return self.mkiv(q, *self.oprng.get((m[0], q.key()), A.range(q)))
        key = (op, frozenset((ka, kb)))
        i = A.memo.get(key)
        if i is None:
            hi = min(ua.hi, ub.hi) if op == "and" else (1 << max(ua.hi.bit_length(), ub.hi.bit_length())) - 1
            i = A._new(op, (ua.p, ub.p), 0, hi)
            A.memo[key] = i
        if op == "or":
            self.top[ka] = max(self.top.get(ka, 0), ua.hi)
            self.top[kb] = max(self.top.get(kb, 0), ub.hi)
        if op == "xor":
            self.oprng[(i, ka)] = (ua.lo, ua.hi)
            self.oprng[(i, kb)] = (ub.lo, ub.hi)
        return IV(patom(i), A.lo[i], A.hi[i])

    def gathered(self, p):
        """For a disjunction of words and of word differences, x ^ y: the pairs of words that are equal
        exactly when it is zero, each with a bound."""
        A = self.A
        pairs = []

        def walk(p):
            if len(p.t) == 1 and p.e == 0:
                m, c = next(iter(p.t.items()))
                if c == 1 and len(m) == 1 and A.kind[m[0]] in ("or", "xor"):
                    p1, p2 = A.data[m[0]]
                    if A.kind[m[0]] == "or":
                        walk(p1)
                        walk(p2)
                    else:
                        pairs.append((p1, p2, A.hi[m[0]]))
                    return
            pairs.append((p, ZERO, self.top.get(p.key(), A.range(p)[1])))
        walk(p)
        if len(pairs) == 1 and pairs[0][1] is ZERO:
            return None
        return tuple(pairs)

    def equal(self, pairs):
        """Whether all pairs are equal: whether the numbers with these words for digits are."""
        w = max(h for _, _, h in pairs).bit_length()
        d = ZERO
        for i, (x, y, _) in enumerate(pairs):
            d = padd(d, pscale(psub(x, y), 1 << (w * i)))
        r = self.A.eq0(d)
        self.eqs[r.key()] = pairs
        return r

    def both(self, p, q):
        """The conjunction of two 0/1 values; of many equations, their joint equation."""
        e, f = self.eqs.get(p.key()), self.eqs.get(q.key())
        if e is None or f is None:
            return self.A.mul(p, q)
        g = e + tuple(x for x in f if x not in e)
        if len(p.t) * len(q.t) > 8:
            return self.equal(g)
        r = self.A.mul(p, q)
        self.eqs[r.key()] = g
        return r

    def nope(self, p):
        """As never, for questions that matter only when they are easy."""
        if self.lia.local(p):
            return True
        return self.lia.feasible([p], (), self.path, timeout=0) == "unsat"

    def hint(self, p):
        """Find the range of a difference of carries that dominates p."""
        A = self.A
        if p.e or not 2 < len(p.t) <= 8:
            return
        C = max(abs(c) for c in p.t.values())
        g = {m: c // C for m, c in p.t.items() if m and c % C == 0}
        if C < 256 or len(g) != 2 or any(len(m) != 1 or A.kind[m[0]] not in ("floor", "ge") for m in g):
            return
        g = Poly(g)
        if A.range2(g) == (-1, 1):
            if self.nope(psub(pconst(-1), g)):
                A.note_range(g, 0, 1)
            elif self.nope(psub(g, pconst(1))):
                A.note_range(g, -1, 0)

    def carries(self, p, q):
        """Two carries that are never both set."""
        A = self.A
        for x in (p, q):
            if len(x.t) > 3 or any(len(m) != 1 or A.kind[m[0]] not in ("floor", "ge") for m in x.t if m):
                return False
        s = padd(p, q)
        if A.range2(s)[1] < 2:
            return True
        return self.nope(psub(s, pconst(2)))

    def multiple(self, p, k):
        M = (1 << k) - 1
        if p.e:
            return False
        return all(c & M == 0 for c in p.t.values())

    def small01(self, v):
        if v.lo < 0 or v.hi > 1:
            self.tight(v)
        return v.lo >= 0 and v.hi <= 1

    def small_base(self, v):
        """Try to express an IV over fd atoms; returns polynomial or None."""
        A = self.A
        if type(v) is int:
            return pconst(v)
        if A.bases(v.p) is not None:
            return v.p
        return None

    def fdtable(self, fn, ops, w):
        """Compute fn over operands that depend on one or two small fd atoms."""
        A = self.A
        bases = set()
        for v in ops:
            if type(v) is IV:
                b = A.bases(v.p)
                if b is None:
                    bases = None
                    break
                bases |= b
        if bases is None:
            ops2 = self.atomize(ops)
            if ops2 is None:
                return None
            ops = ops2
            bases = set()
            for v in ops:
                if type(v) is IV:
                    bases |= A.bases(v.p)
        bases = sorted(bases)
        n = 1
        for b in bases:
            n *= len(A.dom[b])
        if n > 1024 or len(bases) > 4:
            return None
        M = 1 << w

        def rec(i, env):
            if i == len(bases):
                vals = [A.evalfd(v.p, env) if type(v) is IV else v for v in ops]
                return fn(*vals)
            b = bases[i]
            return [rec(i + 1, {**env, b: k}) for k in A.dom[b]]
        tab = rec(0, {})
        flat = []

        def walk(t):
            if isinstance(t, list):
                for x in t:
                    walk(x)
            else:
                flat.append(t)
        walk(tab)
        # choose signed view when that is narrower
        sg = [sgn(x & (M - 1), w) for x in flat] if w > 1 else flat
        use_s = max(map(abs, sg)) < max(flat)

        def build(t, i):
            if i == len(bases):
                return sgn(t & (M - 1), w) if use_s else t
            sub = [build(x, i + 1) for x in t]
            if i == len(bases) - 1:
                return A.table(bases[i], sub)
            # polynomial-valued table
            dom = A.dom[bases[i]]
            r = ZERO
            for k, s in zip(dom, sub):
                r = padd(r, A.mul(A.ind(bases[i], k), s))
            return r
        try:
            p = build(tab, 0)
        except Unsupported:
            return None
        if use_s:
            return self.mkiv(p, min(sg), max(sg))
        return self.mkiv(p, min(flat), max(flat))

    def atomize(self, ops):
        """Name small-range operands as fd atoms so that tables apply."""
        A = self.A
        out = []
        # candidate base: arguments of ge atoms with a small range, or an operand itself
        bases = []
        for v in ops:
            if type(v) is IV:
                for m in v.p.t:
                    for a in m:
                        if A.kind[a] == "ge":
                            R = A.data[a][0]
                            bases.append(R)
        for v in ops:
            if type(v) is IV:
                bases.append(v.p)
        for R in bases:
            c0 = R.t.get((), 0)
            R0 = psub(R, pconst(c0)) if R.e == 0 else R
            if not R0.t:
                continue
            lo, hi = self.small_range(R0)
            if hi - lo >= FDMAX:
                continue
            lead = max((m for m in R0.t if m), key=lambda m: (len(m), m))
            lc = R0.t[lead]
            ok = True
            res = []
            fdp = None
            for v in ops:
                if type(v) is int:
                    res.append(v)
                    continue
                p = v.p
                if p.e or R0.e:
                    ok = False
                    break
                c = p.t.get(lead, 0)
                if c % lc:
                    ok = False
                    break
                if c:
                    rem = psub(p, pscale(R0, c // lc))
                else:
                    rem = p
                # remaining ge atoms over R
                rem2 = ZERO
                for m, cc in rem.t.items():
                    x = pconst(cc)
                    for a in m:
                        if A.kind[a] == "ge" and psub(A.data[a][0], R0).is_const():
                            if fdp is None:
                                fdp = A.fd(R0, tuple(range(lo, hi + 1)))
                            off = psub(A.data[a][0], R0).const()
                            x = A.mul(x, A.table(fdp, [1 if k + off >= 0 else 0 for k in A.dom[fdp]]))
                        elif A.base[a] is not None:
                            x = A.mul(x, patom(a))
                        else:
                            ok = False
                    rem2 = padd(rem2, x)
                if not ok:
                    break
                if c:
                    if fdp is None:
                        fdp = A.fd(R0, tuple(range(lo, hi + 1)))
                    rem2 = padd(rem2, pscale(patom(fdp), c // lc))
                res.append(self.mkiv(rem2, v.lo, v.hi))
            if ok:
                return res
        return None

    def small_range(self, p):
        """Range of p, using the solver when the interval is close to small."""
        A = self.A
        key = ("srange", p.key())
        r = A.memo.get(key)
        if r is not None:
            return r
        lo, hi = A.range(p)
        if hi - lo < 4 * FDMAX and hi - lo > 1:
            # shrink from both sides with the solver
            def possible_ge(v):
                return self.lia.feasible([psub(p, pconst(v))], (), ()) != "unsat"

            def possible_le(v):
                return self.lia.feasible([psub(pconst(v), p)], (), ()) != "unsat"
            l, h = lo, hi
            while l < h:           # largest v with p>=v possible
                m = (l + h + 1) // 2
                if possible_ge(m):
                    l = m
                else:
                    h = m - 1
            nhi = l
            l, h = lo, nhi
            while l < h:
                m = (l + h) // 2
                if possible_le(m):
                    h = m
                else:
                    l = m + 1
            lo, hi = l, nhi
        A.memo[key] = (lo, hi)
        return lo, hi

    def boolsplit(self, op, w, a, b):
        """f(a,b) by cases on a 0/1 atom occurring in the narrower operand."""
        A = self.A
        cand = []
        for v in (a, b):
            if type(v) is IV:
                bs = set()
                for m in v.p.t:
                    for x in m:
                        if A.dom[x] == (0, 1) and A.base[x] == x:
                            bs.add(x)
                for x in bs:
                    cand.append((len(v.p.t), x, v))
        if not cand:
            return None
        cand.sort(key=lambda c: c[0])
        # prefer an operand that becomes constant on both sides
        for _, x, v in cand:
            v0, v1 = self.subst(v, x, 0), self.subst(v, x, 1)
            ok = False
            if op in ("or", "and", "xor") and (zero(v0) or zero(v1)):
                other = b if v is a else a
                q0, q1 = self.subst(other, x, 0), self.subst(other, x, 1)
                ok = (zero(v0) or zero(q0)) and (zero(v1) or zero(q1))
            if ok or (type(v0) is int and type(v1) is int) or op == "xor" and (type(v0) is int or type(v1) is int):
                other = b if v is a else a
                o0, o1 = (self.subst(other, x, 0), self.subst(other, x, 1)) if type(other) is IV else (other, other)
                r0 = self.bin(op, w, v0 if type(v0) is IV else v0 & ((1 << w) - 1), o0)
                r1 = self.bin(op, w, v1 if type(v1) is IV else v1 & ((1 << w) - 1), o1)
                l0, h0 = self.rng(r0)
                l1, h1 = self.rng(r1)
                p0, p1 = self.P_(r0), self.P_(r1)
                return self.mkiv(padd(p0, A.mul(patom(x), psub(p1, p0))), min(l0, l1), max(h0, h1))
        return None

    def subst(self, v, a, k):
        if type(v) is int:
            return v
        t = {}
        for m, c in v.p.t.items():
            if a in m:
                if k == 0:
                    continue
                m = tuple(x for x in m if x != a)
                c = c * k
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        p = Poly(t, v.p.e)
        if p.is_const() and p.e == 0:
            return p.const()
        l, h = self.A.range(p)
        return self.mkiv(p, max(l, v.lo) if max(l, v.lo) <= min(h, v.hi) else l, min(h, v.hi) if max(l, v.lo) <= min(h, v.hi) else h)

    # comparisons -------------------------------------------------------------
    def icmp(self, c, w, a, b):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            a, b = self.ptr2int(a), self.ptr2int(b)
        if type(a) is int and type(b) is int:
            if c == "eq":
                return int(a == b)
            if c == "ne":
                return int(a != b)
            if c[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            c = c[1:]
            return int(a < b if c == "lt" else a <= b if c == "le" else a > b if c == "gt" else a >= b)
        if a is UNDEF or b is UNDEF:
            raise Unsupported("compare undef")
        A = self.A
        if c in ("eq", "ne"):
            # pick the view that needs no reduction
            H = 1 << (w - 1)

            def view(x):
                if type(x) is int:
                    return True, True
                return (x.lo >= 0 and x.hi < 2 * H), (x.lo >= -H and x.hi < H)
            ua, sa = view(a)
            ub, sb = view(b)
            if (sa and sb) and not (ua and ub):
                a, b = self.sig(a, w), self.sig(b, w)
            else:
                a, b = self.uns(a, w), self.uns(b, w)
            if type(a) is int and type(b) is int:
                return int((a == b) == (c == "eq"))
            for x, y in ((a, b), (b, a)):
                if y == 0 and type(y) is int and type(x) is IV:
                    g = self.gathered(x.p)
                    if g is not None:
                        r = self.equal(g)
                        return self.mkiv(r if c == "eq" else psub(pconst(1), r), 0, 1)
            d = psub(self.P_(a), self.P_(b))
            al, ah = self.rng(a)
            bl, bh = self.rng(b)
            if ah < bl or bh < al:
                r = ZERO
            elif type(b) is int and (b == al or b == ah) and type(a) is IV:
                if b == al:
                    r = psub(pconst(1), A.ge0(psub(d, pconst(1))))
                else:
                    r = A.ge0(d)
            else:
                r = A.eq0(d)
            if al >= 0 and bl >= 0:
                old = self.eqs.get(r.key(), ((0, 0, 0),))
                if len(old) == 1:
                    self.eqs[r.key()] = ((self.P_(a), self.P_(b), max(ah, bh, old[0][2])),)
            if c == "ne":
                r = psub(pconst(1), r)
            return self.mkiv(r, 0, 1)
        if c[0] == "s":
            a, b = self.sig(a, w), self.sig(b, w)
        else:
            a, b = self.uns(a, w), self.uns(b, w)
        if type(a) is int and type(b) is int:
            return self.icmp("s" + c[1:], w + 2, a & ((1 << (w + 2)) - 1), b & ((1 << (w + 2)) - 1))
        al, ah = self.rng(a)
        bl, bh = self.rng(b)
        c = c[1:]
        d = psub(self.P_(a), self.P_(b))
        # comparison of a sum with one of its operands: the difference is the other operand
        for x, y, sg in ((a, b, 1), (b, a, -1)):
            if type(x) is IV and x.parts is not None and type(y) is IV:
                for u, v in (x.parts, x.parts[::-1]):
                    if u is y and type(v) is IV:
                        if v.lo >= 0 and sg == 1:
                            if c == "lt":
                                return 0
                            if c == "ge":
                                return 1
                        if v.lo >= 0 and sg == -1:
                            if c == "gt":
                                return 0
                            if c == "le":
                                return 1
        self.hint(d)
        if c == "ge":
            p = 1 if al >= bh else 0 if ah < bl else A.ge0(d)
        elif c == "lt":
            p = 0 if al >= bh else 1 if ah < bl else psub(pconst(1), A.ge0(d))
        elif c == "le":
            p = 1 if bl >= ah else 0 if bh < al else A.ge0(pscale(d, -1))
        else:
            p = 0 if bl >= ah else 1 if bh < al else psub(pconst(1), A.ge0(pscale(d, -1)))
        if type(p) is int:
            return p
        return self.mkiv(p, 0, 1)

    # branching -----------------------------------------------------------------
    def apply_assign(self, p):
        if not self.assign:
            return p
        A = self.A
        hit = False
        for m in p.t:
            for a in m:
                if a in self.assign:
                    hit = True
        if not hit:
            return p
        r = ZERO
        for m, c in p.t.items():
            keep = []
            for a in m:
                if a in self.assign:
                    c *= self.assign[a]
                else:
                    keep.append(a)
            if c:
                r = padd(r, Poly({tuple(keep): c}, p.e))
        return r

    def decide(self, v, what="branch"):
        if type(v) is int:
            return v & 1
        if v is UNDEF:
            raise Unsupported("branch on undef at " + self.where())
        v = self.uns(v, 1)
        if type(v) is int:
            return v
        p = self.apply_assign(v.p)
        if p.is_const():
            return p.const()
        l, h = self.A.range(p)
        if l >= 1:
            return 1
        if h <= 0:
            return 0
        one = psub(p, pconst(1))
        s1 = self.reachable(one)
        if s1 == "unsat":
            self.assume(p, 0)
            return 0
        s0 = self.reachable(p)
        if s0 == "unsat":
            self.assume(p, 1)
            return 1
        self.events.append((what, self.where()))
        if not self.fork_ok:
            raise Unsupported("symbolic branch at " + self.where())
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            d = 1
            self.pending.append(self.decisions[:self.dpos] + [0])
            self.decisions = self.decisions + [1]
        self.dpos += 1
        self.assume(p, d)
        return d

    def reachable(self, q):
        """Can q be zero on this path?  A concrete witness answers yes; otherwise the solver does."""
        if self.witness(q, 0):
            return "sat"
        st = self.lia.feasible((), [q], self.path, timeout=2)
        if st == "unknown":
            st = "sat" if self.witness(q, 400) else self.lia.feasible((), [q], self.path)
        return st

    def witness(self, q, tries):
        """A random assignment of the inputs satisfying the path and q = 0."""
        A = self.A
        n = len(self.path)
        t0 = time.time()
        for i in range(-len(self.wits), tries):
            if i < 0:
                done, ev = self.wits[i]
            else:
                if time.time() - t0 > 4:
                    return False
                done = 0
                ev = Eval(A, {a: self.assign[a] if a in self.assign else self.rnd.choice((A.lo[a], A.hi[a], self.rnd.randint(A.lo[a], A.hi[a])))
                              for a in range(len(A.kind)) if A.kind[a] == "input"})
            try:
                if i < 0:
                    for a in range(len(A.kind) - 1, -1, -1):
                        if A.kind[a] == "input" and a not in ev.v:
                            ev.v[a] = self.assign[a] if a in self.assign else self.rnd.randint(A.lo[a], A.hi[a])
                if any((ev.num(x) < 0 if rel == ">=" else ev.num(x) != 0) for rel, x in self.path[done:] + (A.assumed if not done else [])):
                    if i < 0:
                        self.wits[i] = (0, ev)
                    continue
                if i < 0:
                    self.wits[i] = (n, ev)
                if ev.num(q) == 0:
                    if i >= 0:
                        self.wits = self.wits[-5:] + [(n, ev)]
                    return True
            except (Unsupported, RecursionError):
                return False
        return False

    def assume(self, p, d):
        self.path.append(("==", psub(p, pconst(d))))
        if len(p.t) <= 2 and p.e == 0:
            c0 = p.t.get((), 0)
            ms = [m for m in p.t if m]
            if len(ms) == 1 and len(ms[0]) == 1:
                a = ms[0][0]
                c = p.t[ms[0]]
                if (d - c0) % c == 0:
                    self.assign[a] = (d - c0) // c

    def choose(self, v, w):
        """Concretise a symbolic value by forking over its feasible values."""
        v = self.uns(v, w)
        if type(v) is int:
            return v
        p = self.apply_assign(v.p)
        if p.is_const():
            return p.const()
        lo, hi = self.small_range(p)
        lo, hi = max(lo, v.lo), min(hi, v.hi)
        if hi - lo > 512:
            raise Unsupported("concretising wide value at " + self.where())
        while lo < hi:
            c = self.A.eq0(psub(p, pconst(lo)))
            if self.decide(self.mkiv(c, 0, 1), "value"):
                return lo
            lo += 1
        return lo

    def where(self):
        return " < ".join(f.pretty for f in reversed(self.stack[-4:]))

    # ------------------------------------------------------------------ execution
    def val(self, regs, o, mod):
        k = o[0]
        if k == "r":
            return regs[o[1]]
        if k == "c":
            return o[1]
        if k == "g":
            return self.glob(mod, o[1])
        if k == "u":
            return self.undef(o[1])
        if k == "z":
            return self.zero(o[1])
        if k == "x":
            return self.constexpr(mod, o[1])
        if k == "k":
            return self.aggconst(mod, o[1])
        raise Unsupported("operand %r" % (o,))

    def aggconst(self, mod, c):
        if c[0] == "agg":
            return [self.aggconst(mod, x) if x[0] in ("agg", "bytes") else self.val(None, x, mod) for t, x in c[1]]
        if c[0] == "bytes":
            return list(c[1])
        return self.val(None, c, mod)

    def undef(self, ty):
        if ty.k in ("struct",):
            return [self.undef(t) for t in ty.el]
        if ty.k == "arr":
            return [self.undef(ty.el) for _ in range(ty.n)]
        return UNDEF

    def zero(self, ty):
        if ty.k == "struct":
            return [self.zero(t) for t in ty.el]
        if ty.k == "arr":
            return [self.zero(ty.el) for _ in range(ty.n)]
        return 0

    def call_pretty(self, name, args):
        f = self.P.by_pretty(name)
        if f is None:
            raise KeyError(name)
        return self.call(f, args)

    def call(self, f, args):
        s = self.summaries.get(f.pretty)
        if s is None:
            for pat, h in self.patterns:
                if pat(f.pretty):
                    s = h
                    break
        if s is not None:
            r = s(self, f, args)
            if r is not NotImplemented:
                return r
        r = self.run(f, args)
        if self.posthook is not None:
            self.posthook(self, f, args)
        return r

    def run(self, f, args):
        mod = f.mod
        if f.blocks is None:
            mod.parse(f)
        self.called.add(f.pretty)
        self.stack.append(f)
        if len(self.stack) > 200:
            raise Unsupported("recursion")
        regs = [None] * f.nreg
        for (r, t), a in zip(f.params, args):
            regs[r] = a
        blocks = f.blocks
        cur = f.entry
        prev = None
        val = self.val
        while True:
            code = blocks[cur]
            nxt = None
            for ins in code:
                self.steps += 1
                op = ins[0]
                if op == "load":
                    o = ins[3]
                    p = regs[o[1]] if o[0] == "r" else val(regs, o, mod)
                    if type(p) is Ptr and type(p.off) is int:
                        c = p.o.cells.get(p.off)
                        t = ins[2]
                        if c is not None and c[0] == t.size and t.k == "int" and t.w == t.size * 8 and type(c[1]) is not Ptr:
                            regs[ins[1]] = c[1]
                            continue
                    regs[ins[1]] = self.load(p, ins[2])
                elif op == "store":
                    o = ins[2]
                    v = regs[o[1]] if o[0] == "r" else val(regs, o, mod)
                    o = ins[3]
                    p = regs[o[1]] if o[0] == "r" else val(regs, o, mod)
                    self.store(p, ins[1], v)
                elif op == "bin":
                    a = val(regs, ins[4], mod)
                    b = val(regs, ins[5], mod)
                    if type(a) is int and type(b) is int:
                        regs[ins[1]] = self.cbin(ins[2], ins[3].w, a, b)
                    else:
                        regs[ins[1]] = self.bin(ins[2], ins[3].w, a, b)
                elif op == "gep":
                    regs[ins[1]] = self.gep(val(regs, ins[3], mod), ins[2], [(t, val(regs, x, mod)) for t, x in ins[4]])
                elif op == "br":
                    nxt = ins[2] if self.decide(val(regs, ins[1], mod)) else ins[3]
                    break
                elif op == "jmp":
                    nxt = ins[1]
                    break
                elif op == "icmp":
                    regs[ins[1]] = self.icmp(ins[2], ins[3].w, val(regs, ins[4], mod), val(regs, ins[5], mod))
                elif op == "call":
                    r = self.docall(f, mod, regs, ins)
                    if ins[1] is not None:
                        regs[ins[1]] = r
                    if ins[5] is not None:
                        nxt = ins[5]
                        break
                elif op == "alloca":
                    regs[ins[1]] = Ptr(self.alloc(ins[2], "a"), 0)
                elif op == "extractvalue":
                    v = val(regs, ins[2], mod)
                    for i in ins[3]:
                        v = v[i]
                    regs[ins[1]] = v
                elif op == "insertvalue":
                    v = val(regs, ins[3], mod)
                    if v is UNDEF:
                        v = self.undef(ins[2])
                    regs[ins[1]] = self.insert(v, val(regs, ins[4], mod), ins[5])
                elif op == "zext":
                    v = val(regs, ins[3], mod)
                    regs[ins[1]] = v if type(v) is int else UNDEF if v is UNDEF else self.uns(v, ins[2].w)
                elif op == "sext":
                    v = val(regs, ins[3], mod)
                    if type(v) is int:
                        v = sgn(v, ins[2].w) & ((1 << ins[4].w) - 1)
                    elif v is not UNDEF:
                        v = self.sig(v, ins[2].w)
                        if type(v) is int:
                            v &= (1 << ins[4].w) - 1
                    regs[ins[1]] = v
                elif op == "trunc":
                    v = val(regs, ins[3], mod)
                    if type(v) is int:
                        v &= (1 << ins[4].w) - 1
                    elif ins[4].w == 1 and type(v) is IV:
                        v = self.uns(v, 1)
                    elif type(v) is Ptr:
                        v = self.ptr2int(v) & ((1 << ins[4].w) - 1)
                    regs[ins[1]] = v
                elif op == "ret":
                    self.stack.pop()
                    return None if ins[1] is None else val(regs, ins[2], mod)
                elif op == "select":
                    regs[ins[1]] = self.select(ins[2], val(regs, ins[3], mod), val(regs, ins[4], mod), val(regs, ins[5], mod))
                elif op == "phi":
                    regs[ins[1]] = val(regs, ins[3][prev], mod)
                elif op == "switch":
                    nxt = self.switch(ins, val(regs, ins[2], mod))
                    break
                elif op == "ptrtoint":
                    regs[ins[1]] = self.ptr2int(val(regs, ins[3], mod))
                elif op == "inttoptr":
                    v = val(regs, ins[3], mod)
                    regs[ins[1]] = self.int2ptr(v) if type(v) is int else v
                elif op in ("copy",):
                    regs[ins[1]] = val(regs, ins[2], mod)
                elif op == "unreachable":
                    raise Unsupported("unreachable executed at " + self.where())
                elif op == "fence":
                    pass
                elif op == "asm":
                    pass
                else:
                    raise Unsupported("instruction %s at %s" % (op, self.where()))
            if nxt is None:
                raise Unsupported("fell off block")
            prev, cur = cur, nxt
            if self.steps > self.MAXSTEPS:
                raise Unsupported("step limit")

    def insert(self, v, e, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insert(v[idx[0]], e, idx[1:])
        return v

    def switch(self, ins, v):
        w = ins[1].w
        if type(v) is not int:
            v = self.choose(v, w)
        for c, l in ins[4]:
            if c == v:
                return l
        return ins[3]

    def select(self, ty, c, a, b):
        if type(c) is not int:
            if c is UNDEF:
                raise Unsupported("select undef")
            c = self.uns(c, 1)
        if type(c) is int:
            return a if c & 1 else b
        if isinstance(a, (int, IV)) and isinstance(b, (int, IV)) and ty.k == "int":
            w = ty.w
            H = 1 << (w - 1)
            al, ah = self.rng(a)
            bl, bh = self.rng(b)
            # use a common view
            if w == 1:
                a, b = self.uns(a, 1), self.uns(b, 1)
            elif min(al, bl) < 0:
                a, b = self.sig(a, w), self.sig(b, w)
            al, ah = self.rng(a)
            bl, bh = self.rng(b)
            p = padd(self.P_(b), self.A.mul(c.p, psub(self.P_(a), self.P_(b))))
            return self.norm(IV(p, min(al, bl), max(ah, bh)), w)
        return a if self.decide(c, "select") else b

    def gep(self, base, bt, idx):
        off = 0
        sym = None
        t = bt
        first = True
        for it, v in idx:
            if first:
                s = t.size
                first = False
            elif t.k == "struct":
                off += t.offs[v]
                t = t.el[v]
                continue
            else:
                t = t.el
                s = t.size
            if type(v) is int:
                off += sgn(v, it.w) * s
            else:
                x = self.bin("mul", 64, self.sig(v, it.w), s)
                sym = x if sym is None else self.bin("add", 64, sym, x)
        if type(base) is int:
            b = self.int2ptr(base)
            if type(b) is int:
                if sym is not None:
                    raise Unsupported("gep on integer")
                return (b + off) & ((1 << 64) - 1)
            base = b
        if not isinstance(base, Ptr):
            raise Unsupported("gep base %r at %s" % (base, self.where()))
        if sym is None and type(base.off) is int:
            return Ptr(base.o, base.off + off)
        o = base.off if type(base.off) is IV else base.off & ((1 << 64) - 1)
        n = self.bin("add", 64, o, off & ((1 << 64) - 1))
        if sym is not None:
            n = self.bin("add", 64, n, sym)
        if type(n) is int:
            n = sgn(n, 64)
        return Ptr(base.o, n)

    def docall(self, f, mod, regs, ins):
        _, dst, rt, callee, args, nxt = ins
        a = [self.val(regs, x, mod) for t, x in args]
        if callee[0] == "g":
            name = callee[1]
            if name.startswith("llvm."):
                return self.intrinsic(name, a, rt)
            g = self.P.resolve(mod, name)
            if g is None:
                return self.external(mod, name, a, rt)
            return self.call(g, a)
        fp = self.val(regs, callee, mod)
        if isinstance(fp, FnPtr):
            if fp.f is None:
                return self.external(fp.mod, fp.name, a, rt)
            return self.call(fp.f, a)
        raise Unsupported("indirect call through %r" % (fp,))

    def intrinsic(self, name, a, rt):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = a[2]
            if type(n) is not int:
                n = self.choose(n, 64)
            self.memcpy(a[0], a[1], n)
            return None
        if name.startswith("llvm.memset"):
            n = a[2]
            o, off = self.deref(a[0], n)
            v = a[1]
            if type(v) is int and n % 8 == 0 and off % 8 == 0 and v == 0:
                for i in range(0, n, 1):
                    self.write(o, off + i, 1, 0)
            else:
                for i in range(n):
                    self.write(o, off + i, 1, v)
            return None
        if ".with.overflow." in name:
            k = name.split(".")[1]
            w = int(name.rsplit("i", 1)[1])
            r, fl = self.overflow(k[1:], k[0] == "s", w, a[0], a[1])
            return [r, fl]
        if name.startswith("llvm.ctpop"):
            if type(a[0]) is int:
                return bin(a[0]).count("1")
        if name.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias")):
            return None
        if name.startswith("llvm.expect"):
            return a[0]
        if name.startswith("llvm.trap"):
            raise Panic("trap", self.where())
        if name.startswith(("llvm.bswap",)):
            w = int(name.rsplit("i", 1)[1])
            v = a[0]
            if type(v) is int:
                return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
            n = w // 8
            p = ZERO
            for i in range(n):
                p = padd(p, pscale(self.P_(self.bits_iv(v, 8 * i, 8 * i + 8)), 1 << (8 * (n - 1 - i))))
            return self.mkiv(p, 0, (1 << w) - 1)
        if name.startswith(("llvm.fshl", "llvm.fshr")):
            w = int(name.rsplit("i", 1)[1])
            x, y, s = a
            if type(s) is int:
                s %= w
                if name.startswith("llvm.fshr"):
                    s = (w - s) % w
                if s == 0:
                    return x if name.startswith("llvm.fshl") else (y if a[2] % w == 0 else x)
                return self.bin("or", w, self.bin("shl", w, x, s), self.bin("lshr", w, y, w - s))
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            w = int(name.rsplit("i", 1)[1])
            c = self.icmp(name[5] + ("lt" if name.endswith("min", 0, 9) or "min" in name else "gt"), w, a[0], a[1])
            return self.select(IntTy(w), c, a[0], a[1])
        if name.startswith(("llvm.uadd.sat", "llvm.usub.sat")):
            w = int(name.rsplit("i", 1)[1])
            r, fl = self.overflow(name[6:9], False, w, a[0], a[1])
            return self.select(IntTy(w), fl, 0 if "sub" in name else (1 << w) - 1, r)
        if name.startswith("llvm.abs"):
            w = int(name.rsplit("i", 1)[1])
            s = self.sig(a[0], w)
            if type(s) is int:
                return abs(s)
            c = self.icmp("slt", w, s, 0)
            return self.select(IntTy(w), c, self.bin("sub", w, 0, s), s)
        raise Unsupported("intrinsic " + name)

    PANICS = ("core9panicking", "core6option13", "core6result13", "unwrap_failed", "expect_failed", "panic",
              "slice_index", "slice5index", "copy_from_slice_impl", "handle_error", "handle_alloc_error", "len_mismatch")

    def external(self, mod, name, a, rt):
        h = self.externals.get(name)
        if h:
            return h(a)
        if "___rust_alloc_zeroed" in name:
            p = self.new(a[0], "heap")
            for i in range(a[0]):
                self.write(p.o, i, 1, 0)
            return p
        if "___rust_alloc" in name and "realloc" not in name:
            return self.new(a[0], "heap")
        if "___rust_dealloc" in name or "no_alloc_shim" in name:
            return None
        if "___rust_realloc" in name:
            p = self.new(a[3], "heap")
            self.memcpy(p, a[0], min(a[1], a[3]))
            return p
        if name in ("memcmp", "bcmp"):
            return self.memcmp(a)
        if name in ("memcpy", "memmove"):
            self.memcpy(a[0], a[1], a[2])
            return a[0]
        if any(x in name for x in self.PANICS):
            raise Panic("panic: " + name, self.where())
        raise Unsupported("external " + name)

    def memcmp(self, a):
        n = a[2]
        d = self.bytes_diff(a[0], a[1], n)
        if type(d) is int:
            return 0 if d == 0 else 1
        eq = self.A.eq0(d.p)
        self.events.append(("memcmp", self.where()))
        return self.mkiv(psub(pconst(1), eq), 0, 1)

    def bytes_poly(self, ptr, n):
        """Little-endian value of n bytes."""
        o, off = self.deref(ptr, n)
        p = ZERO
        i = 0
        while i < n:
            s = o.own.get(off + i)
            c = o.cells.get(s) if s is not None else None
            if c is None:
                raise Unsupported("uninitialised bytes")
            if s == off + i and i + c[0] <= n and isinstance(c[1], (int, IV)):
                v, sz = c[1], c[0]
            else:
                v, sz = self.read(o, off + i, 1), 1
            u = self.uns(v, 8 * sz)
            p = padd(p, pscale(self.P_(u), 1 << (8 * i)))
            i += sz
        return p

    def bytes_diff(self, a, b, n):
        d = psub(self.bytes_poly(a, n), self.bytes_poly(b, n))
        if d.is_const():
            return d.const()
        return IV(d, *self.A.range(d))

    # ------------------------------------------------------------------ builtin summaries
    def install_builtin(self):
        S = self.summaries
        self.patterns = []
        self.externals = {}

        def black_box(m, f, a):
            return a[0]
        S["subtle::black_box::<u8>"] = black_box
        S["core::hint::black_box::<u8>"] = black_box

        def slice_ct_eq(m, f, a):
            p, n, q, k = a
            if n != k:
                return 0
            d = m.bytes_diff(p, q, n)
            if type(d) is int:
                return int(d == 0)
            return m.mkiv(m.A.eq0(d.p), 0, 1)
        S["<[u8] as subtle::ConstantTimeEq>::ct_eq"] = slice_ct_eq

        def int_ct_eq(w):
            def h(m, f, a):
                x = m.load(a[0], IntTy(w))
                y = m.load(a[1], IntTy(w))
                return m.icmp("eq", w, x, y)
            return h
        for w in (8, 16, 32, 64):
            S["<u%d as subtle::ConstantTimeEq>::ct_eq" % w] = int_ct_eq(w)

        def int_sel(w):
            def h(m, f, a):
                x = m.load(a[0], IntTy(w))
                y = m.load(a[1], IntTy(w))
                c = a[2]
                c1 = m.trunc1(c)
                return m.select(IntTy(w), c1, y, x)
            return h
        for w in (8, 16, 32, 64):
            S["<u%d as subtle::ConditionallySelectable>::conditional_select" % w] = int_sel(w)

    def trunc1(self, c):
        """A Choice byte known to be 0 or 1, as an i1."""
        if type(c) is int:
            if c > 1:
                raise Panic("Choice out of range", self.where())
            return c
        c = self.uns(c, 8)
        if type(c) is IV and c.hi > 1:
            self.tight(c)
            if c.hi > 1:
                if self.never(psub(c.p, pconst(2))):
                    c = IV(c.p, 0, 1)
                else:
                    raise Unsupported("Choice out of range at " + self.where())
        return c
