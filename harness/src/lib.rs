//! Entry points through which the checks drive the public API of the crate.
//! Everything takes pointers, so that the symbolic executor and the native
//! replay lay out the same memory.
#![allow(non_snake_case, improper_ctypes_definitions, clippy::missing_safety_doc)]

use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use rand_core::{CryptoRng, Error, RngCore};
use std::ptr::{read, write};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

/// A generator that hands out the bytes of a buffer in order.
pub struct BufRng {
    pub buf: *const u8,
    pub pos: usize,
}
impl RngCore for BufRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe { std::ptr::copy_nonoverlapping(self.buf.add(self.pos), dest.as_mut_ptr(), dest.len()) };
        self.pos += dest.len();
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for BufRng {}

macro_rules! h {
    ($name:ident, $out:ty, ($($a:ident : $t:ty),*), $e:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(out: *mut $out, $($a: *const $t),*) {
            let r: $out = $e;
            write(out, r);
        }
    };
}
macro_rules! hb {
    ($name:ident, ($($a:ident : $t:ty),*), $e:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: *const $t),*) -> u8 {
            let r: bool = $e;
            r as u8
        }
    };
}
/// Option-valued calls: returns 1 and writes the value, or returns 0.
macro_rules! ho {
    ($name:ident, $out:ty, ($($a:ident : $t:ty),*), $e:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(out: *mut $out, $($a: *const $t),*) -> u8 {
            let r: Option<$out> = $e;
            match r {
                Some(v) => { write(out, v); 1 }
                None => 0,
            }
        }
    };
}

// ---- scalars ----
h!(h_scalar_add, Scalar, (a: Scalar, b: Scalar), *a + *b);
h!(h_scalar_sub, Scalar, (a: Scalar, b: Scalar), *a - *b);
h!(h_scalar_mul, Scalar, (a: Scalar, b: Scalar), *a * *b);
h!(h_scalar_invert, Scalar, (a: Scalar), (*a).invert());
h!(h_scalar_halve, Scalar, (a: Scalar), (*a).halve());
h!(h_scalar_from_bytes, Scalar, (a: [u8; 56]), Scalar::from_bytes(*a));
h!(h_scalar_to_bytes, [u8; 56], (a: Scalar), (*a).to_bytes());
h!(h_scalar_to_bytes57, [u8; 57], (a: Scalar), (*a).to_bytes_rfc_8032());
ho!(h_scalar_from_canonical, Scalar, (a: [u8; 57]), Scalar::from_canonical_bytes(*a));
h!(h_scalar_wide, Scalar, (a: [u8; 114]), Scalar::from_bytes_mod_order_wide(&*a));
hb!(h_scalar_eq, (a: Scalar, b: Scalar), *a == *b);
hb!(h_scalar_cteq, (a: Scalar, b: Scalar), bool::from((*a).ct_eq(&*b)));
h!(h_scalar_one, Scalar, (), Scalar::one());
h!(h_scalar_zero, Scalar, (), Scalar::zero());
h!(h_scalar_default, Scalar, (), Scalar::default());
h!(h_scalar_from_u32, Scalar, (a: u32), Scalar::from(*a));
h!(h_scalar_index, u32, (a: Scalar, i: usize), (&*a)[*i]);
h!(h_scalar_set, Scalar, (a: Scalar, i: usize, w: u32), { let mut x = *a; x[*i] = *w; x });
#[no_mangle]
pub unsafe extern "C" fn h_scalar_bits(out: *mut bool, a: *const Scalar) -> usize {
    let v = (*a).bits();
    for i in 0..v.len() {
        *out.add(i) = v[i];
    }
    v.len()
}
/// Writes the scalar and the number of bytes drawn.
#[no_mangle]
pub unsafe extern "C" fn h_scalar_random(out: *mut Scalar, buf: *const u8, drawn: *mut usize) {
    let mut rng = BufRng { buf, pos: 0 };
    let s = Scalar::random(&mut rng);
    write(out, s);
    *drawn = rng.pos;
}

// ---- Ed448 points ----
type E = ExtendedPoint;
h!(h_ed_add, E, (a: E, b: E), (*a).add(&*b));
h!(h_ed_double, E, (a: E), (*a).double());
h!(h_ed_negate, E, (a: E), (*a).negate());
h!(h_ed_torque, E, (a: E), (*a).torque());
h!(h_ed_identity, E, (), E::identity());
h!(h_ed_default, E, (), E::default());
h!(h_ed_generator, E, (), E::generator());
h!(h_ed_add_rr, E, (a: E, b: E), &*a + &*b);
h!(h_ed_add_vr, E, (a: E, b: E), *a + &*b);
h!(h_ed_add_rv, E, (a: E, b: E), &*a + *b);
h!(h_ed_add_vv, E, (a: E, b: E), *a + *b);
h!(h_ed_sub_rr, E, (a: E, b: E), &*a - &*b);
h!(h_ed_sub_vr, E, (a: E, b: E), *a - &*b);
h!(h_ed_sub_rv, E, (a: E, b: E), &*a - *b);
h!(h_ed_sub_vv, E, (a: E, b: E), *a - *b);
h!(h_ed_adda_r, E, (a: E, b: E), { let mut x = *a; x += &*b; x });
h!(h_ed_adda_v, E, (a: E, b: E), { let mut x = *a; x += *b; x });
h!(h_ed_suba_r, E, (a: E, b: E), { let mut x = *a; x -= &*b; x });
h!(h_ed_suba_v, E, (a: E, b: E), { let mut x = *a; x -= *b; x });
h!(h_ed_neg_r, E, (a: E), -&*a);
h!(h_ed_neg_v, E, (a: E), -*a);
h!(h_ed_scalar_mul, E, (a: E, s: Scalar), (*a).scalar_mul(&*s));
h!(h_ed_scalar_mod_four, E, (a: E, s: Scalar), (*a).scalar_mod_four(&*s));
h!(h_ed_mul_rr, E, (a: E, s: Scalar), &*a * &*s);
h!(h_ed_mul_vr, E, (a: E, s: Scalar), *a * &*s);
h!(h_ed_mul_rv, E, (a: E, s: Scalar), &*a * *s);
h!(h_ed_mul_vv, E, (a: E, s: Scalar), *a * *s);
h!(h_ed_lmul_rr, E, (a: E, s: Scalar), &*s * &*a);
h!(h_ed_lmul_vr, E, (a: E, s: Scalar), *s * &*a);
h!(h_ed_lmul_rv, E, (a: E, s: Scalar), &*s * *a);
h!(h_ed_lmul_vv, E, (a: E, s: Scalar), *s * *a);
h!(h_ed_mula_r, E, (a: E, s: Scalar), { let mut x = *a; x *= &*s; x });
h!(h_ed_mula_v, E, (a: E, s: Scalar), { let mut x = *a; x *= *s; x });
hb!(h_ed_eq, (a: E, b: E), *a == *b);
hb!(h_ed_cteq, (a: E, b: E), bool::from((*a).ct_eq(&*b)));
h!(h_ed_select, E, (a: E, b: E, c: u8), E::conditional_select(&*a, &*b, Choice::from(*c)));
h!(h_ed_affine_roundtrip, E, (a: E), (*a).to_affine().to_extended());
h!(h_ed_compress, [u8; 57], (a: E), (*a).compress().0);
ho!(h_ed_decompress, E, (a: [u8; 57]), CompressedEdwardsY(*a).decompress());
h!(h_ed_to_montgomery, [u8; 56], (a: E), (*a).to_montgomery().0);
hb!(h_ed_torsion_free, (a: E), (*a).is_torsion_free());
macro_rules! hsum {
    ($r:ident, $v:ident, $n:literal) => {
        h!($r, E, (a: [E; $n]), (*a).iter().sum());
        h!($v, E, (a: [E; $n]), (*a).iter().copied().sum());
    };
}
hsum!(h_ed_sum0_r, h_ed_sum0_v, 0);
hsum!(h_ed_sum1_r, h_ed_sum1_v, 1);
hsum!(h_ed_sum2_r, h_ed_sum2_v, 2);
hsum!(h_ed_sum3_r, h_ed_sum3_v, 3);
hsum!(h_ed_sum4_r, h_ed_sum4_v, 4);
hsum!(h_ed_sum5_r, h_ed_sum5_v, 5);
hsum!(h_ed_sum6_r, h_ed_sum6_v, 6);

// ---- Decaf ----
type D = DecafPoint;
h!(h_de_add_rr, D, (a: D, b: D), &*a + &*b);
h!(h_de_add_vv, D, (a: D, b: D), read(a) + read(b));
h!(h_de_sub_rr, D, (a: D, b: D), &*a - &*b);
h!(h_de_sub_vv, D, (a: D, b: D), read(a) - read(b));
h!(h_de_sub, D, (a: D, b: D), (*a).sub(&*b));
h!(h_de_neg_r, D, (a: D), -&*a);
h!(h_de_neg_v, D, (a: D), -read(a));
h!(h_de_identity, D, (), D::identity());
h!(h_de_generator, D, (), D::generator());
hb!(h_de_equals, (a: D, b: D), (*a).equals(&*b));
h!(h_de_mul_rr, D, (a: D, s: Scalar), &*a * &*s);
h!(h_de_mul_vv, D, (a: D, s: Scalar), read(a) * *s);
h!(h_de_lmul_rr, D, (a: D, s: Scalar), &*s * &*a);
h!(h_de_lmul_vv, D, (a: D, s: Scalar), *s * read(a));
h!(h_de_compress, [u8; 56], (a: D), (*a).compress().0);
ho!(h_de_decompress, D, (a: [u8; 56]), CompressedDecaf(*a).decompress());
hb!(h_cd_eq, (a: [u8; 56], b: [u8; 56]), CompressedDecaf(*a) == CompressedDecaf(*b));
h!(h_cd_identity, [u8; 56], (), CompressedDecaf::identity().0);

// ---- Montgomery ----
type M = MontgomeryPoint;
h!(h_mo_mul, M, (a: M, s: Scalar), &*a * &*s);
h!(h_mo_lmul, M, (a: M, s: Scalar), &*s * &*a);
hb!(h_mo_low_order, (a: M), (*a).is_low_order());
hb!(h_mo_eq, (a: M, b: M), *a == *b);
h!(h_mo_generator, M, (), M::generator());
h!(h_mo_proj_affine, M, (a: M), (*a).to_projective().to_affine());
#[no_mangle]
pub unsafe extern "C" fn h_mo_zeroize(a: *mut M) {
    use zeroize::Zeroize;
    (*a).zeroize();
}
