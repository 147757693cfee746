"""Reference arithmetic used to judge native replays: affine curve laws on Python integers."""
from spec import P

ED = (1, -39081 % P)
TW = (-1 % P, -39082 % P)
MA = 156326


def inv(x):
    return pow(x, P - 2, P)


def is_sq(x):
    return x % P == 0 or pow(x, (P - 1) // 2, P) == 1


def sqrt(x):
    r = pow(x, (P + 1) // 4, P)
    return r if r * r % P == x % P else None


def on(c, p):
    a, d = c
    x, y = p
    return (a * x * x + y * y - 1 - d * x * x * y * y) % P == 0


def add(c, p, q):
    a, d = c
    (x1, y1), (x2, y2) = p, q
    k = d * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + y1 * x2) * inv(1 + k) % P, (y1 * y2 - a * x1 * x2) * inv(1 - k) % P)


def exceptional(c, p, q):
    """A denominator of the affine addition law vanishes."""
    k = c[1] * p[0] * q[0] * p[1] * q[1] % P
    return k in (1, P - 1)


def neg(p):
    return (-p[0] % P, p[1])


# extended coordinates for long computations (complete on the points used)
def eadd(c, p, q):
    a, d = c
    X1, Y1, Z1, T1 = p
    X2, Y2, Z2, T2 = q
    A, B, C, D = X1 * X2, Y1 * Y2, d * T1 * T2, Z1 * Z2
    E_, F, G, H = (X1 * Y2 + Y1 * X2) % P, (D - C) % P, (D + C) % P, (B - a * A) % P
    return (E_ * F % P, G * H % P, F * G % P, E_ * H % P)


def mul(c, n, p):
    if n < 0:
        return mul(c, -n, neg(p))
    r = (0, 1, 1, 0)
    q = (p[0], p[1], 1, p[0] * p[1] % P)
    while n:
        if n & 1:
            r = eadd(c, r, q)
        q = eadd(c, q, q)
        n >>= 1
    z = inv(r[2])
    return (r[0] * z % P, r[1] * z % P)


def lift(c, y, sign=0):
    """Point with this y, or None."""
    a, d = c
    x2 = (1 - y * y) * inv(a - d * y * y) % P
    if (a - d * y * y) % P == 0:
        return None
    x = sqrt(x2)
    if x is None:
        return None
    if x & 1 != sign:
        x = -x % P
    return (x, y % P)


def rand_point(c, rng):
    while True:
        p = lift(c, rng.randrange(P), rng.getrandbits(1))
        if p:
            return p


LOW = {ED: [(0, 1), (0, P - 1), (1, 0), (P - 1, 0)], TW: [(0, 1), (0, P - 1)]}


def phi(p):
    """Ed448 -> twisted isogeny (and with sign, back)."""
    return iso(1, p)


def psi(p):
    return iso(-1, p)


def iso(a, p):
    x, y = p
    return (2 * x * y * inv(y * y - a * x * x) % P, (y * y + a * x * x) * inv(2 - y * y - a * x * x) % P)


def ladder(u, n):
    """x-only multiplication, projective pair; returns u(nP) with 0 for infinity."""
    a24 = 39081
    x1 = u % P
    x2, z2, x3, z3 = 1, 0, x1, 1
    for i in range(n.bit_length() - 1, -1, -1):
        b = n >> i & 1
        if b:
            x2, z2, x3, z3 = x3, z3, x2, z2
        A, B = x2 + z2, x2 - z2
        AA, BB = A * A, B * B
        E_ = AA - BB
        C, D = x3 + z3, x3 - z3
        DA, CB = D * A, C * B
        x3, z3 = (DA + CB) ** 2 % P, x1 * (DA - CB) ** 2 % P
        x2, z2 = AA * BB % P, E_ * (AA + a24 * E_) % P
        if b:
            x2, z2, x3, z3 = x3, z3, x2, z2
    return x2 * inv(z2) % P
