"""Limb-level view of field elements: representations, the functions on them, and the box of
limb values that the field operations can produce."""
import itertools
import re
from poly import *
from machine import *
from claims import *
from obl import Buf
from spec import P

REP = {"fiat": (8, 8, 56), "u32b": (16, 4, 28)}     # limbs, bytes per limb, radix
FE = r"ed448_goldilocks::field::[\w:]*FieldElement\w*"
ROLES = [
    ("mul", r"^<&?%s as core::ops::arith::Mul(<&?%s>)?>::mul$"),
    ("add", r"^<&?%s as core::ops::arith::Add(<&?%s>)?>::add$"),
    ("sub", r"^<&?%s as core::ops::arith::Sub(<&?%s>)?>::sub$"),
    ("neg", r"^<&?%s as core::ops::arith::Neg>::neg$"),
    ("neg", r"^<%s>::negate$"),
    ("square", r"^<%s>::square$"),
    ("invert", r"^<%s>::invert$"),
    ("isqrt", r"^<%s>::inverse_square_root$"),
    ("sqrt_ratio", r"^<%s>::sqrt_ratio$"),
    ("to_bytes", r"^<%s>::to_bytes$"),
    ("from_bytes", r"^<%s>::from_bytes$"),
    ("sign", r"^<%s>::is_negative$"),
    ("is_zero", r"^<%s>::is_zero$"),
    ("ct_eq", r"^<%s as subtle::ConstantTimeEq>::ct_eq$"),
    ("eq", r"^<%s as core::cmp::PartialEq>::eq$"),
    ("select", r"^<%s as subtle::ConditionallySelectable>::conditional_select$"),
    ("assign", r"^<%s as subtle::ConditionallySelectable>::conditional_assign$"),
    ("swap", r"^<%s as subtle::ConditionallySelectable>::conditional_swap$"),
    ("cneg", r"^<%s as subtle::ConditionallyNegatable>::conditional_negate$"),
    ("reduce", r"^<%s>::(strong|weak)_reduce$"),
    ("zero", r"^<%s>::zero$"),
    ("one", r"^<%s>::one$"),
    ("minus_one", r"^<%s>::minus_one$"),
    ("zero", r"^<%s as core::default::Default>::default$"),
    ("copy", r"^<%s as core::clone::Clone>::clone$"),
]
_roles = [(r, re.compile(p.replace("%s", FE))) for r, p in ROLES]


def role(pretty):
    for r, p in _roles:
        if p.match(pretty):
            return r
    return None


def functions(prog):
    """{role: [Func]} of the field element type in this program."""
    out = {}
    for s, f in prog.funcs.items():
        if "FieldElement" in f.pretty:
            r = role(f.pretty)
            if r:
                out.setdefault(r, []).append(f)
    for v in out.values():
        v.sort(key=lambda f: f.pretty)
    return out


def limbs_of(be, data):
    n, w, rad = REP[be]
    return [int.from_bytes(data[w * i:w * i + w], "little") for i in range(n)]


def value_of(be, data):
    return sum(x << (REP[be][2] * i) for i, x in enumerate(limbs_of(be, data)))


def from_limbs(be, ls):
    return b"".join(x.to_bytes(REP[be][1], "little") for x in ls)


def encode(be, v):
    """The plain representation of an integer below 2^448."""
    n, w, rad = REP[be]
    return from_limbs(be, [v >> (rad * i) & ((1 << rad) - 1) for i in range(n)])


def fevalue(be, words):
    rad = REP[be][2]
    r = ZERO
    for i, x in enumerate(words):
        r = padd(r, pscale(x, 1 << (rad * i)))
    return r


def febuf(m, be, name, box, fixed=None):
    n, w, rad = REP[be]
    b = Buf(m, name, 64, w, list(box), fixed=fixed)
    b.fe = fevalue(be, b.words)
    return b


def upper(m, p):
    """Upper bound of p, by cases on the 0/1 atoms that multiply other terms."""
    A = m.A
    sel = set()
    for k in p.t:
        if len(k) > 1:
            sel |= {a for a in k if A.lo[a] == 0 and A.hi[a] == 1}
    if not sel or len(sel) > 3:
        return A.range2(p)[1]
    best = None
    for vals in itertools.product((0, 1), repeat=len(sel)):
        env = dict(zip(sorted(sel), vals))
        t = {}
        for k, c in p.t.items():
            for a in k:
                if a in env:
                    c *= env[a]
            if c:
                k = tuple(a for a in k if a not in env)
                t[k] = t.get(k, 0) + c
        q = Poly({k: c for k, c in t.items() if c}, p.e)
        h = A.range2(q)[1]
        best = h if best is None else max(best, h)
    return best


def readfe(m, be, ptr):
    """(value polynomial, upper bounds of the limbs) of the element at ptr."""
    n, w, rad = REP[be]
    ws, his = [], []
    for i in range(n):
        v = m.read(ptr.o, ptr.off + w * i, w)
        if v is UNDEF:
            raise Unsupported("undefined limb")
        v = m.uns(v, 8 * w)
        if type(v) is int:
            ws.append(pconst(v))
            his.append(v)
        else:
            ws.append(v.p)
            his.append(min(v.hi, upper(m, v.p)))
    return fevalue(be, ws), his


def join(a, b):
    return [max(x, y) for x, y in zip(a, b)]


_box = {}


def closure(prog, be):
    """Per-limb upper bounds closed under decoding and the field operations, as computed from
    their code (interval part of the symbolic values). Returns (box, stable)."""
    key = (id(prog), be)
    if key in _box:
        return _box[key]
    n, w, rad = REP[be]
    fs = functions(prog)
    box = [0] * n
    for r in ("zero", "one"):
        for f in fs.get(r, []):
            m = Machine(prog)
            o = m.new(64, "o")
            m.run(f, [o])
            box = join(box, readfe(m, be, o)[1])
    for f in fs.get("from_bytes", []):
        m = Machine(prog)
        m.fork_ok = False
        b = Buf(m, "b", 56, 1)
        o = m.new(64, "o")
        try:
            m.run(f, [o, b.ptr])
            box = join(box, readfe(m, be, o)[1])
        except (Unsupported, Panic):
            box = join(box, [(1 << rad) - 1] * n)
    stable = False
    failed = []
    for it in range(32):
        new = list(box)
        for r, k in (("mul", 2), ("add", 2), ("sub", 2), ("neg", 1), ("square", 1), ("cneg", 1)):
            for f in fs.get(r, []):
                m = Machine(prog)
                m.fork_ok = False
                a = febuf(m, be, "a", box)
                b = febuf(m, be, "b", box)
                o = m.new(64, "o")
                try:
                    if r == "cneg":
                        c = m.A.input("c", 0, 1)
                        m.run(f, [a.ptr, IV(c, 0, 1)])
                        o = a.ptr
                    else:
                        m.run(f, [o, a.ptr, b.ptr][:k + 1])
                    new = join(new, readfe(m, be, o)[1])
                except (Unsupported, Panic) as e:
                    failed.append((f.pretty, str(e)))
        if new == box:
            stable = True
            break
        box = new
    if not stable:
        failed.append(("closure", "limb bounds do not stabilise"))
    _box[key] = (box, stable, failed)
    return _box[key]


def cap(be):
    rad = REP[be][2]
    return (1 << rad) + (1 << (rad - 2))


_hull = {}


def hull(prog, be, nat):
    """Largest limb met when the natively compiled operations are applied, a few rounds deep, to
    decoded extreme and random elements: what is certainly in the reach of the field operations."""
    key = (id(prog), be)
    if key in _hull:
        return _hull[key]
    import random
    n, w, rad = REP[be]
    fs = functions(prog)
    rng = random.Random(5)
    vs = [0, 1, 2, P - 1, P, P + 1, 2**448 - 1, 2**224, 2**224 - 1] + [rng.getrandbits(448) for _ in range(8)]
    dec = [nat.call(fs["from_bytes"][0].name, bytes(64), v.to_bytes(56, "little"))[1][0] for v in vs]
    pool = list(dec)
    top = lambda e: max(limbs_of(be, e))
    best = max(map(top, pool))
    for rnd in range(6):
        new = []
        for r, k in (("mul", 2), ("add", 2), ("sub", 2), ("neg", 1), ("square", 1)):
            for f in fs.get(r, [])[:2]:
                for _ in range(24):
                    args = [rng.choice(pool) for _ in range(k)]
                    try:
                        new.append(nat.call(f.name, bytes(64), *args)[1][0])
                    except Exception:
                        continue
        new.sort(key=top, reverse=True)
        best = max([best] + [top(e) for e in new[:1]])
        pool = new[:24] + rng.sample(dec, 6) + [rng.choice(new)] if new else pool
    _hull[key] = best
    return best


def bounded(ctx, be):
    """closure, except that bounds which only the interval analysis thinks exceeded are cut at
    the cap. Returns (box, stable, failed, cut)."""
    prog = ctx.progs[be]
    box, stable, failed = closure(prog, be)
    c = cap(be)
    if max(box) <= c or be not in ctx.libs:
        return box, stable, failed, False
    nat = ctx.native(be)
    try:
        h = hull(prog, be, nat)
    finally:
        nat.close()
    if h > c:
        return box, stable, failed, False
    return [min(x, c) for x in box], stable, failed, True


def constants(prog, be):
    """Field constants stored in the crate's read-only data (64-byte objects)."""
    n, w, rad = REP[be]
    out = set()
    m = Machine(prog)
    for mod in prog.mods:
        if "ed448_goldilocks" not in mod.path.rsplit("/", 1)[-1]:
            continue
        for name, txt in mod.globals.items():
            if "constant" not in txt.split("{")[0] and "constant" not in txt[:80]:
                continue
            mm = re.search(r"constant <\{ \[(\d+) x i8\] \}>", txt) or re.search(r"constant \[(\d+) x i8\]", txt)
            if not mm or int(mm.group(1)) % 64:
                continue
            try:
                g = m.glob(mod, name)
                size = int(mm.group(1))
                for off in range(0, size, 64):
                    v = m.read(g.o, off, 64)
                    if type(v) is int:
                        ls = [v >> (8 * w * i) & ((1 << (8 * w)) - 1) for i in range(n)]
                        if all(x < 1 << (rad + 2) for x in ls):
                            out.add(tuple(ls))
            except Exception:
                continue
    return sorted(out)
