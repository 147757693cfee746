"""Planted bugs: written from the property text and the code."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


S = "src/field/scalar.rs"
PRE = '''use ed448_goldilocks::Scalar;
fn le(words: [u32; 14]) -> Scalar { let mut b = [0u8; 56]; for i in 0..14 { b[4*i..4*i+4].copy_from_slice(&words[i].to_le_bytes()); } Scalar::from_bytes(b) }
fn lm1() -> Scalar { Scalar::zero() - Scalar::one() }
'''

bug("b01-add-early-exit", "C01",
    [(S, '''    // Now reduce the results
    sub_extra(&result, &MODULUS, chain as u32)
''', '''    // Nothing to reduce when the top word shows the sum to be below the order
    if chain == 0 && result[13] <= MODULUS[13] {
        return result;
    }

    // Now reduce the results
    sub_extra(&result, &MODULUS, chain as u32)
''')],
    PRE + '''fn main() {
    let s = lm1() + Scalar::from(3u32); // l + 2 = 2
    assert!(s == Scalar::from(2u32));
}
''', "a sum between the order and 2^446", "sums just above the order come back unreduced")

bug("b02-canonical-mid-compare", "C04",
    [(S, '''        let reduced = sub_extra(&candidate, &MODULUS, 0);

        if candidate == reduced {
            Some(candidate)''', '''        // Compare with the order word by word from the top
        let mut below = false;
        for i in (0..14).rev() {
            if candidate[i] != MODULUS[i] {
                below = candidate[i] < MODULUS[i] || i == 6 && candidate[i] >> 31 != 0;
                break;
            }
        }

        if below {
            Some(candidate)''')],
    PRE + '''fn main() {
    let mut c = [0xffu8; 57]; c[56] = 0; c[55] = 0x3f;
    assert!(Scalar::from_canonical_bytes(c).is_none());
    let lm1 = lm1().to_bytes();
    let mut l = [0u8; 57]; l[..56].copy_from_slice(&lm1);
    assert!(Scalar::from_canonical_bytes(l).is_some());
    l[0] += 1;
    assert!(Scalar::from_canonical_bytes(l).is_none());
    l[0] -= 1;
    l[27] = 0xff; // word 6 becomes 0xffca23e9 > 0x7cca23e9
    assert!(Scalar::from_canonical_bytes(l).is_none());
}
''', "a 57-byte string that agrees with the order in words 7 to 13 and has the top bit of word 6 set", "non-canonical scalars above the order are accepted")

bug("b03-mont-lost-carry", "C02",
    [(S, '''        chain += (saved as u64) + (carry as u64);
        result[14 - 1] = chain as u32;
        carry = (chain >> 32) as u32;
''', '''        // neither word can wrap: both operands are below 2^446
        let top = (chain as u32).wrapping_add(saved).wrapping_add(carry);
        carry = 0;
        result[14 - 1] = top;
''')],
    PRE + '''fn main() {
    let a = Scalar::from_bytes([0xff; 56]);
    // 2^448 - 1 reduced: wide reduction of the same integer
    let mut w = [0u8; 114]; w[..56].copy_from_slice(&[0xff; 56]);
    let r = Scalar::from_canonical_bytes({ let mut x = [0u8; 57]; x[..56].copy_from_slice(&(a * Scalar::one()).to_bytes()); x });
    assert!(r.is_some());
    // square of 2^448-1 against repeated addition of halves: (2^448-1) = 4*(2^446-1)+3
    let mut b = [0xffu8; 56]; b[55] = 0x3f;
    let q = Scalar::from_bytes(b) * Scalar::one(); // 2^446-1 mod l
    let want1 = q + q + q + q + Scalar::from(3u32);
    assert!(a * Scalar::one() == want1);
    assert!(a * a == want1 * want1);
}
''', "operands above the order (unreduced scalars of 447 or 448 bits) whose Montgomery accumulator exceeds 2^448", "products of large unreduced scalars lose the top carry")

EXT = "src/curve/edwards/extended.rs"
MON = "src/curve/montgomery/montgomery.rs"
DEC = "src/decaf/decaf.rs"
DOP = "src/decaf/ops.rs"
FM = "src/field/mod.rs"
FIAT = "src/field/fiat_u64/prime_field.rs"
U32 = "src/field/u32/prime_field.rs"
KAR = "src/field/u32/karatsuba.rs"
TEX = "src/curve/twedwards/extended.rs"
TXT = "src/curve/twedwards/extensible.rs"
DAA = "src/curve/scalar_mul/double_and_add.rs"
VB = "src/curve/scalar_mul/variable_base.rs"
WN = "src/curve/scalar_mul/window/wnaf/mod.rs"

EPRE = PRE + '''use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
fn mul(p: &ExtendedPoint, s: &Scalar) -> ExtendedPoint { // plain double and add
    let mut r = ExtendedPoint::identity();
    for b in s.bits().into_iter().rev() { r = r.double(); if b { r = r + *p; } }
    r
}
fn p_bytes() -> [u8; 56] { let mut b = [0xffu8; 56]; b[28] = 0xfe; b }
fn seq(k: u64) -> Scalar { // a fixed pseudo-random scalar below 2^446
    let mut x = k.wrapping_mul(0x9e3779b97f4a7c15) | 1; let mut b = [0u8; 56];
    for v in b.iter_mut() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *v = (x >> 32) as u8; }
    b[55] &= 0x3f; Scalar::from_bytes(b)
}
'''

bug("b04-decaf-skip-top-bits", "C16",
    [(DAA, "for bit in s.bits().into_iter().rev() {", "// the order has 446 bits\n    for bit in s.bits().into_iter().take(446).rev() {")],
    EPRE + '''fn main() {
    let g = DecafPoint::generator();
    let mut b = [0u8; 56]; b[55] = 0x40; // 2^446
    let mut h = [0u8; 56]; h[55] = 0x20; // 2^445
    let half = &g * &Scalar::from_bytes(h);
    assert!((&half + &half).equals(&(&g * &Scalar::from_bytes(b))));
}
''', "a scalar of 447 or 448 bits", "bits 446 and 447 of the scalar are ignored by Decaf multiplication")

bug("b05-ladder-skip-top-bit", "C20",
    [(MON, "for s in (0..448).rev() {", "for s in (0..447).rev() {")],
    EPRE + '''fn main() {
    let g = MontgomeryPoint::generator();
    let mut b = [0u8; 56]; b[55] = 0x80;
    let mut h = [0u8; 56]; h[55] = 0x40;
    let half = &g * &Scalar::from_bytes(h);
    assert!(&half * &Scalar::from(2) == &g * &Scalar::from_bytes(b));
}
''', "a scalar with bit 447 set", "the top bit of the scalar is ignored by the ladder")

bug("b06-eq-uses-t", "C12",
    [(EXT, '''        let YZ = self.Y * other.Z;
        let ZY = self.Z * other.Y;

        (XZ.ct_eq(&ZX)) & (YZ.ct_eq(&ZY))''', '''        let TZ = self.T * other.Z;
        let ZT = self.Z * other.T;

        (XZ.ct_eq(&ZX)) & (TZ.ct_eq(&ZT))''')],
    EPRE + '''fn main() {
    let i = ExtendedPoint::identity();
    assert!(i == i);
    assert!(i.torque() != i);
}
''', "the point (0, -1) compared with the identity", "the point of order two compares equal to the identity")

bug("b07-add-same-x", "C11",
    [(EXT, '''    pub fn add(&self, other: &ExtendedPoint) -> ExtendedPoint {
        let aXX''', '''    pub fn add(&self, other: &ExtendedPoint) -> ExtendedPoint {
        if self.X == other.X && self.Z == other.Z && self.T != other.T {
            // other = -self
            return ExtendedPoint::identity();
        }
        let aXX''')],
    EPRE + '''fn main() {
    let g = ExtendedPoint::generator();
    let q = g.negate().torque(); // (x, -y)
    let s = g + q;
    assert!(s == ExtendedPoint::identity().torque());
}
''', "two points (x, y) and (x, -y)", "adding (x, -y) to (x, y) gives the identity instead of (0, -1)")

bug("b08-isqrt-zero", "C09",
    [(FM, '''        let is_residue = l0.ct_eq(&FieldElement::one());
        (l1, is_residue)''', '''        let is_residue = l0.ct_eq(&FieldElement::one()) | self.is_zero();
        (l1, is_residue)''')],
    EPRE + '''fn main() {
    let mut b = p_bytes(); b[0] = 0xfe; // p - 1: even, 1 - s^2 = 0
    assert!(CompressedDecaf(b).decompress().is_none());
}
''', "the inverse square root of zero (the Decaf encoding p - 1)", "zero is reported to have an inverse square root and the Decaf string p-1 is accepted")

bug("b10-torsion-x-only", "C23",
    [(EXT, '''        (self * BASEPOINT_ORDER) == Self::identity()''', '''        bool::from((self * BASEPOINT_ORDER).X.is_zero())''')],
    EPRE + '''fn main() {
    let g = ExtendedPoint::generator();
    assert!(g.is_torsion_free());
    assert!(!(g + ExtendedPoint::identity().torque()).is_torsion_free());
}
''', "a point with a component of order two", "points of order 2 or 2l are reported torsion free")

bug("b12-projective-masks-top-bit", "C28",
    [(MON, '''        ProjectiveMontgomeryPoint {
            U: FieldElement::from_bytes(&self.0),
            W: FieldElement::one(),
        }
    }
}''', '''        // Implementations must mask the most significant bit of the final byte
        let mut bytes = self.0;
        bytes[55] &= 0x7f;
        ProjectiveMontgomeryPoint {
            U: FieldElement::from_bytes(&bytes),
            W: FieldElement::one(),
        }
    }
}''')],
    EPRE + '''fn main() {
    let mut b = [1u8; 56]; b[55] = 0x91;
    assert!(MontgomeryPoint(b).to_projective().to_affine() == MontgomeryPoint(b));
}
''', "a u-coordinate of 2^447 or more", "the top bit of u is dropped when converting to projective form")

bug("b13-sum-empty", "C26",
    [(EXT, "iter.fold(ExtendedPoint::identity(), |acc, item| acc + item.borrow())", '''let mut iter = iter;
        let first = *iter.next().expect("at least one point").borrow();
        iter.fold(first, |acc, item| acc + item.borrow())''')],
    EPRE + '''fn main() {
    let v: Vec<ExtendedPoint> = vec![];
    assert!(v.iter().sum::<ExtendedPoint>() == ExtendedPoint::identity());
}
''', "summing an empty iterator", "the empty sum panics instead of giving the identity")

bug("b14-sub-assign-swapped", "C26",
    [(EXT, "*self = (self as &ExtendedPoint) - _rhs;", "*self = _rhs - (self as &ExtendedPoint);")],
    EPRE + '''fn main() {
    let g = ExtendedPoint::generator();
    let h = g.double().double();
    let mut a = g; a -= h;
    assert!(a == g - h);
}
''', "the assigning subtraction operator", "a -= b computes b - a")

bug("b16-window-start", "C15",
    [(VB, '''    for i in (0..113).rev() {
''', '''    // Leading zero digits contribute nothing
    let bytes = s.to_bytes();
    let used = (0..56).rev().find(|&i| bytes[i] != 0).map_or(1, |i| i + 1);
    let top = if bytes[used - 1] < 0xf8 { 2 * used } else { 2 * used + 1 };

    for i in (0..top).rev() {
''')],
    EPRE + '''fn main() {
    let g = ExtendedPoint::generator();
    for k in 1..2000u32 {
        let s = Scalar::from(k);
        assert!(g * s == mul(&g, &s), "{}", k);
    }
    let mut b = [0xffu8; 56];
    for n in 1..56 { b[56 - n] = 0; let s = Scalar::from_bytes(b); assert!(g * s == mul(&g, &s), "{}", n); }
    let s = Scalar::from(4 * 0xf7f9); assert!(g * s == mul(&g, &s));
    let s = Scalar::from(4 * 0x88); assert!(g * s == mul(&g, &s));
}
''', "a scalar whose quarter has a leading byte between 0x88 and 0xf7", "the carry out of the leading digit is dropped")

bug("b17-branch-on-bit", "C24",
    [(DAA, '''        let mut p = ExtendedPoint::identity();
        p.conditional_assign(point, Choice::from(bit as u8));
        result = result.add(&p);''', '''        let _ = Choice::from(bit as u8);
        if bit {
            result = result.add(point);
        }''')],
    EPRE + '''fn main() {
    // count field work through the time of a sparse and a dense scalar
    let g = DecafPoint::generator();
    let t = |s: &Scalar| { let mut best = u128::MAX; for _ in 0..15 { let i = std::time::Instant::now(); std::hint::black_box(&g * s); best = best.min(i.elapsed().as_nanos()); } best };
    let (a, b) = (t(&Scalar::zero()), t(&Scalar::from_bytes([0xff; 56])));
    assert!(b < a + a / 5, "{} {}", a, b);
}
''', "comparing executions with different scalars", "Decaf scalar multiplication branches on the scalar's bits")

bug("b18-decaf-raw-equality", "C19",
    [(DEC, '''        self.0.X * other.0.Y == self.0.Y * other.0.X
    }

    // pub fn add''', '''        self.0 == other.0
    }

    // pub fn add''')],
    EPRE + '''fn main() {
    let g = DecafPoint::generator();
    for k in 1..40u64 {
        let p = &g * &seq(k);
        assert!(p.compress().decompress().unwrap().equals(&p), "{}", k);
    }
}
''', "an element held as the other coset representative", "representatives of the same Decaf element compare unequal")

bug("b19-scalar-eq-short", "C04",
    [(S, "self.to_bytes().ct_eq(&other.to_bytes())", "self.to_bytes()[..55].ct_eq(&other.to_bytes()[..55])")],
    PRE + '''fn main() {
    let mut b = [7u8; 56]; let a = Scalar::from_bytes(b); b[55] = 9;
    assert!(a != Scalar::from_bytes(b));
}
''', "two scalars that differ in the top byte only", "scalars that differ in the last byte compare equal")

bug("b20-to-montgomery-identity-one", "C21",
    [(EXT, '''        let u = yy * (FieldElement::one() - dyy) * (FieldElement::one() - yy).invert();
''', '''        let u = if affine.x == FieldElement::zero() && affine.y != FieldElement::one() {
            // the point of order two
            FieldElement::one()
        } else {
            yy * (FieldElement::one() - dyy) * (FieldElement::one() - yy).invert()
        };
''')],
    EPRE + '''fn main() {
    let t = ExtendedPoint::identity().torque();
    assert!(t.to_montgomery() == MontgomeryPoint([0; 56]));
}
''', "mapping the point (0, -1)", "the point of order two maps to u = 1 instead of 0")

bug("b21-halve-window", "C03",
    [(S, "let mask = 0u32.wrapping_sub(self[0] & 1);", "let mask = 0u32.wrapping_sub(self[0] & 1 & (self[13] >> 29 ^ 1 | self[12]));")],
    PRE + '''fn main() {
    for k in [5u8, 6, 7, 8] {
        let mut b = [0u8; 56]; b[0] = k; b[55] = 0x20; b[40] = 9;
        let a = Scalar::from_bytes(b);
        let h = a.halve();
        assert!(h + h == a);
    }
}
''', "an odd scalar of 2^445 or more whose word 12 is even", "halving an odd scalar forgets to add the order")

bug("b22-wide-top-bit", "C05",
    [(S, "if i < 2 { input[i + 112] } else { 0 });", "if i < 2 { input[i + 112] & (0x7f | input[111]) } else { 0 });")],
    PRE + '''fn main() {
    // 2^911 and 2^910: the first must be twice the second
    let mut a = [0u8; 114]; a[113] = 0x80;
    let mut b = [0u8; 114]; b[113] = 0x40;
    let h = Scalar::from_bytes_mod_order_wide(&b);
    assert!(Scalar::from_bytes_mod_order_wide(&a) == h + h);
}
''', "a wide integer with bit 911 set and bit 895 clear", "the top bit of a wide integer is dropped")

bug("b23-decaf-sub-same", "C13",
    [(DOP, "DecafPoint(self.0.to_extensible().sub_extended(&other.0).to_extended())", '''if self.0.X * other.0.Z == self.0.Z * other.0.X && self.0.Z != other.0.Z {
            return DecafPoint(self.0.double());
        }
        DecafPoint(self.0.to_extensible().sub_extended(&other.0).to_extended())''')],
    EPRE + '''fn main() {
    let g = DecafPoint::generator();
    for k in 1..30 {
        let p = &g * &seq(k);
        let r = p.compress().decompress().unwrap();
        assert!((&p - &r).equals(&DecafPoint::identity()), "{}", k);
        assert!((&p - &p).equals(&DecafPoint::identity()), "{}", k);
    }
}
''', "subtracting from a point the same point in another scaling", "P - P gives 2P when the two are scaled differently")

bug("b24-decompress-no-minus-one", "C17",
    [(EXT, '''        if is_res.unwrap_u8() != 1 {
            return None;
        }

        // Compute''', '''        if is_res.unwrap_u8() != 1 || (numerator.is_zero() & y.is_negative().ct_eq(&Choice::from(0u8))).unwrap_u8() == 1 {
            return None;
        }

        // Compute''')],
    EPRE + '''fn main() {
    let t = ExtendedPoint::identity().torque();
    let d = t.compress().decompress();
    assert!(d.is_some() && d.unwrap() == t);
}
''', "the encoding of the point (0, -1)", "the point of order two compresses but no longer decompresses")

bug("b25-decaf-negative-high", "C18",
    [(DEC, "|| s.is_negative().unwrap_u8() == 1u8 {", "|| (s.is_negative().unwrap_u8() == 1u8 && self.0[55] & 0x80 == 0) {")],
    EPRE + '''fn main() {
    let g = DecafPoint::generator();
    let mut n = 0;
    for k in 1..60u64 {
        let c = (&g * &seq(k)).compress();
        // the negative of a canonical encoding, p - s
        let (p, mut r, mut bor) = (p_bytes(), [0u8; 56], 0i32);
        for i in 0..56 { let d = p[i] as i32 - c.0[i] as i32 - bor; bor = (d < 0) as i32; r[i] = (d & 255) as u8; }
        n += (r[55] & 0x80 != 0) as u32;
        assert!(CompressedDecaf(r).decompress().is_none());
    }
    assert!(n > 0);
}
''', "a negative field element of 2^447 or more", "negative encodings with the top bit set are accepted")

bug("b26-wnaf-double-point", "C15",
    [(WN, '''            table[i] = P.add_projective_niels(&table[i - 1]).to_projective_niels();''', '''            table[i] = if point.X == point.Z { P.double().to_projective_niels() } else { P.add_projective_niels(&table[i - 1]).to_projective_niels() };''')],
    EPRE + '''fn main() {
    // points of the Ed448 curve whose image on the twisted curve has x = 1: 2xy = y^2 - x^2
    let enc: [[u8; 57]; 2] = [
        [55,38,6,250,155,50,178,161,149,99,180,217,7,138,39,143,171,93,237,135,9,239,138,183,10,15,47,144,56,94,47,43,87,232,175,21,199,79,228,59,179,53,127,113,4,183,241,195,169,191,168,197,176,120,85,183,0],
        [215,20,236,242,254,230,228,62,28,54,157,134,147,210,194,192,55,132,129,87,233,94,199,5,184,205,193,213,76,42,14,189,18,135,32,12,49,136,214,176,218,175,113,226,119,103,46,7,9,5,49,121,79,216,205,36,128],
    ];
    for e in enc.iter() {
        let p = CompressedEdwardsY(*e).decompress().unwrap();
        for k in [40u32, 44, 100, 0x7ffffff] {
            let s = Scalar::from(k);
            assert!(&p * &s == mul(&p, &s));
        }
    }
}
''', "a point whose image on the twisted curve has x = 1", "the window table is wrong for one pair of points")

bug("b27-panic-on-y-zero", "C25",
    [(EXT, '''        let (mut x, is_res) = FieldElement::sqrt_ratio''', '''        debug_assert!(!bool::from(y.is_zero()), "x is one");
        let (mut x, is_res) = FieldElement::sqrt_ratio''')],
    EPRE + '''fn main() {
    let c = CompressedEdwardsY([0u8; 57]);
    let p = c.decompress();
    assert!(p.is_some());
}
''', "decompressing y = 0 in a build with debug assertions", "decompressing the points of order four panics")

bug("b28-mont-eq-reduces", "C28",
    [(MON, '''        self.0.ct_eq(&other.0)''', '''        FieldElement::from_bytes(&self.0).ct_eq(&FieldElement::from_bytes(&other.0))''')],
    EPRE + '''fn main() {
    assert!(MontgomeryPoint(p_bytes()) != MontgomeryPoint([0u8; 56]));
}
''', "a non-reduced u-coordinate compared with its reduction", "Montgomery points with different bytes compare equal")

bug("b29-decaf-vmul-mask", "C16",
    [(DOP, '''    fn mul(self, scalar : Scalar) -> DecafPoint {
        DecafPoint(double_and_add(&self.0, &scalar))''', '''    fn mul(self, scalar : Scalar) -> DecafPoint {
        let mut s = scalar;
        s.0[13] &= 0x7fffffff;
        DecafPoint(double_and_add(&self.0, &s))''')],
    EPRE + '''fn main() {
    let g = DecafPoint::generator();
    let s = Scalar::from_bytes([0xa5; 56]);
    let want = &g * &s;
    assert!((g * s).equals(&want));
}
''', "the by-value form with a scalar of 2^447 or more", "the top bit of the scalar is ignored in one operator form")

bug("b30-smul-short", "C15",
    [(EXT, '''        // Compute floor(s/4)
''', '''        if scalar.0[1..] == [0u32; 13] {
            // short scalars: plain double and add
            let mut r = ExtendedPoint::identity();
            for i in (0..31).rev() {
                r = r.double();
                if scalar.0[0] >> i & 1 == 1 {
                    r = r.add(self);
                }
            }
            return r;
        }
        // Compute floor(s/4)
''')],
    EPRE + '''fn main() {
    let g = ExtendedPoint::generator();
    for k in [1u32, 7, 0x7fffffff, 0x80000000, 0xfffffff1] {
        assert!(g * Scalar::from(k) == mul(&g, &Scalar::from(k)));
    }
}
''', "a scalar between 2^31 and 2^32", "the shortcut for short scalars drops bit 31")

bug("b32-add-zz-byte", "C11",
    [(EXT, "        let ZZ = self.Z * other.Z; // Z1Z2\n        let YY = self.Y * other.Y;", "        let mut ZZ = self.Z * other.Z; // Z1Z2\n        if ZZ.to_bytes()[55] == 0xff && ZZ.to_bytes()[0] == 0 {\n            ZZ = ZZ + FieldElement::one();\n        }\n        let YY = self.Y * other.Y;")],
    EPRE + '''fn main() {
    let g = ExtendedPoint::generator();
    let mut p = g;
    for i in 0..1000000u32 {
        p = p + g; // accumulates projectively
        if i % 20000 == 0 { assert!(p.compress().decompress() == Some(p), "{}", i); }
    }
}
''', "a product Z1*Z2 whose first byte is 00 and last byte ff", "one addition in 65536 leaves the curve")

bug("b33-fiat-square-small", "C06",
    [(FIAT, '''    pub(crate) fn square(&self) -> FieldElement56 {
''', '''    pub(crate) fn square(&self) -> FieldElement56 {
        if (self.0).0[1..] == [0u64; 7] {
            // fits one limb
            let wide = (self[0] as u128) * (self[0] as u128);
            let mut small = FieldElement56::zero();
            (small.0).0[0] = (wide as u64) & ((1 << 56) - 1);
            (small.0).0[1] = ((wide >> 64) as u64) << 8 | (wide as u64) >> 60;
            return small;
        }
''')],
    EPRE + '''fn main() {
    // y and y + p name the same coordinate
    for y in 0x0edcba9876543200u64 >> 8..(0x0edcba9876543200u64 >> 8) + 64 {
        let mut a = [0u8; 57]; a[..8].copy_from_slice(&y.to_le_bytes());
        let mut b = [0u8; 57]; b[..56].copy_from_slice(&p_bytes());
        let mut c = 0u16;
        for i in 0..56 { c += b[i] as u16 + a[i] as u16; b[i] = c as u8; c >>= 8; }
        let (p, q) = (CompressedEdwardsY(a).decompress(), CompressedEdwardsY(b).decompress());
        assert!(p == q, "{:x}", y);
    }
}
''', "an element between 2^28 and 2^56", "the square of a one-limb element loses bits 56 to 59")

bug("b34-zeroize-short", "C27",
    [(MON, '''#[cfg_attr(feature = "zeroize", derive(Zeroize))]
pub struct MontgomeryPoint(pub [u8; 56]);
''', '''pub struct MontgomeryPoint(pub [u8; 56]);

#[cfg(feature = "zeroize")]
impl Zeroize for MontgomeryPoint {
    fn zeroize(&mut self) {
        for word in self.0.chunks_exact_mut(16) {
            word.zeroize();
        }
    }
}
''')],
    '''use ed448_goldilocks::curve::MontgomeryPoint;
use zeroize::Zeroize;
fn main() {
    let mut p = MontgomeryPoint([0xa5; 56]);
    p.zeroize();
    assert!(p.0 == [0u8; 56]);
}
''', "the zeroize feature", "the last eight bytes survive", features='"fiat_u64_backend", "zeroize"', deps='zeroize = "1"\n')

bug("b35-sign-raw-limb", "C08",
    [(FIAT, '''        let bytes = self.to_bytes();
        (bytes[0] & 1).into()''', '''        let mut x = *self;
        x.strong_reduce();
        ((x[0] & 1) as u8).into()''')],
    EPRE + '''fn main() {
    for k in 0..200u64 {
        let g = ExtendedPoint::generator() * seq(k + 1);
        let z = g - g;
        assert!(z.compress().0 == ExtendedPoint::identity().compress().0);
        let d = &DecafPoint::generator() * &seq(k + 1);
        assert!((&d - &d).compress() == DecafPoint::identity().compress());
    }
}
''', "an element held as a value of p or more", "the sign is that of the unreduced representative")
bug("b36-add-fast-path", "C01",
    [(S, "    // Now reduce the results\n", '''    // Two scalars below 2^445 have a sum below 2^446
    if a[13] < 0x2000_0000 && b[13] < 0x2000_0000 {
        return result;
    }
    // Now reduce the results
''')],
    '''use ed448_goldilocks::Scalar;
fn main() {
    let h = (Scalar::zero() - Scalar::one()).halve();
    let k = h + Scalar::one();
    assert!(h + k == Scalar::zero());
    assert!(h + h == Scalar::zero() - Scalar::one());
}
''', "two addends below 2^445 whose sum lies between the group order and 2^446", "the sum is not reduced")
bug("b37-mul-short-operands", "C02",
    [(S, "        let unreduced = montgomery_multiply(&self, &rhs);", '''        // The product of two half-size operands fits the limbs
        if self.0[7..].iter().chain(rhs.0[7..].iter()).all(|w| *w == 0) {
            let mut product = Scalar::zero();
            for i in 0..7 {
                let mut chain = 0u64;
                for j in 0..7 {
                    chain += (self[i] as u64) * (rhs[j] as u64) + (product[i + j] as u64);
                    product[i + j] = chain as u32;
                    chain >>= 32;
                }
                product[i + 7] = chain as u32;
            }
            return product;
        }
        let unreduced = montgomery_multiply(&self, &rhs);''')],
    '''use ed448_goldilocks::Scalar;
fn main() {
    let mut b = [0u8; 56];
    for x in b[..28].iter_mut() {
        *x = 0xff;
    }
    let a = Scalar::from_bytes(b);
    let p = a * a;
    assert!(Scalar::from_canonical_bytes(p.to_bytes_rfc_8032()).is_some());
    assert!(p == p + Scalar::zero());
    assert!((a * Scalar::one()) == a);
}
''', "two operands below 2^224 with a product of at least the group order", "the product is not reduced")
