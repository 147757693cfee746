"""Development tool: behaviour-preserving edits; the checks must stay quiet.
Usage: refac.py [id...]   (applies to /repo, runs the tests and the listed checks, undoes the change)"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/field/scalar.rs"
EXT = "src/curve/edwards/extended.rs"
MON = "src/curve/montgomery/montgomery.rs"
DEC = "src/decaf/decaf.rs"
DOP = "src/decaf/ops.rs"
FM = "src/field/mod.rs"
FIAT = "src/field/fiat_u64/prime_field.rs"
U32 = "src/field/u32/prime_field.rs"
KAR = "src/field/u32/karatsuba.rs"
TEX = "src/curve/twedwards/extended.rs"
TXT = "src/curve/twedwards/extensible.rs"
DAA = "src/curve/scalar_mul/double_and_add.rs"
VB = "src/curve/scalar_mul/variable_base.rs"
WN = "src/curve/scalar_mul/window/wnaf/mod.rs"
R = []


def refac(id, props, edits):
    R.append((id, props.split(), edits))


refac("r01-daa-index", "C16 C24 C25", [(DAA, "for bit in s.bits().into_iter().rev() {", "let bits = s.bits();\n    for i in (0..bits.len()).rev() {\n        let bit = bits[i];")])
refac("r02-vb-inner-loop", "C15 C21 C24 C25", [(VB, '''        result = result.double();
        result = result.double();
        result = result.double();
        result = result.double();
''', '''        for _ in 0..4 {
            result = result.double();
        }
''')])
refac("r03-vb-helper", "C15 C24 C25", [(VB, '''        // The mask is the top bit, will be 1 for negative numbers, 0 for positive numbers
        let mask = scalar[i] >> 7;
        let sign = mask & 0x1;
        // Use the mask to get the absolute value of scalar
        let abs_value = ((scalar[i] + mask) ^ mask) as u32;

        let mut neg_P = lookup.select(abs_value);
        neg_P.conditional_negate(Choice::from((sign) as u8));

        result = result.add_projective_niels(&neg_P);
''', '''        let (abs_value, sign) = split_digit(scalar[i]);
        let mut addend = lookup.select(abs_value);
        addend.conditional_negate(sign);

        result = result.add_projective_niels(&addend);
'''), (VB, "pub fn variable_base(", '''/// Absolute value and sign of a digit
fn split_digit(digit: i8) -> (u32, Choice) {
    let mask = digit >> 7;
    let abs = (digit ^ mask) - mask;
    (abs as u32, Choice::from((mask & 1) as u8))
}

pub fn variable_base(''')])
refac("r04-daa-inline", "C16 C24 C25", [(DAA, '''        result = result.double();

        let mut p = ExtendedPoint::identity();
        p.conditional_assign(point, Choice::from(bit as u8));
        result = result.add(&p);''', '''        let doubled = result.to_extensible().double();

        let p = ExtendedPoint::conditional_select(
            &ExtendedPoint::identity(),
            point,
            Choice::from(bit as u8),
        );
        result = doubled.add_extended(&p).to_extended();''')])
refac("r05-ed-add-share", "C11 C15 C21 C23 C26", [(EXT, '''        let X = {
            let x_1 = (self.X * other.Y) + (self.Y * other.X);
            let x_2 = ZZ - dTT;
            x_1 * x_2
        };
        let Y = {
            let y_1 = YY - aXX;
            let y_2 = ZZ + dTT;
            y_1 * y_2
        };

        let T = {
            let t_1 = YY - aXX;
            let t_2 = (self.X * other.Y) + (self.Y * other.X);
            t_1 * t_2
        };

        let Z = { (ZZ - dTT) * (ZZ + dTT) };

        ExtendedPoint { X, Y, Z, T }''', '''        let E = (self.X + self.Y) * (other.X + other.Y) - aXX - YY;
        let F = ZZ - dTT;
        let G = ZZ + dTT;
        let H = YY - aXX;

        ExtendedPoint {
            X: E * F,
            Y: G * H,
            Z: F * G,
            T: E * H,
        }''')])
refac("r06-ed-double-dedicated", "C11 C15 C21 C23", [(EXT, '''        self.add(&self)
    }''', '''        let A = self.X.square();
        let B = self.Y.square();
        let C = self.Z.square() + self.Z.square();
        let E = (self.X + self.Y).square() - A - B;
        let G = A + B;
        let F = G - C;
        let H = A - B;
        ExtendedPoint {
            X: E * F,
            Y: G * H,
            Z: F * G,
            T: E * H,
        }
    }''')])
refac("r07-to-mont-short", "C21", [(EXT, '''        let yy = affine.y.square();
        let dyy = EDWARDS_D * yy;

        let u = yy * (FieldElement::one() - dyy) * (FieldElement::one() - yy).invert();
''', '''        // u = (y / x)^2
        let u = (affine.y * affine.x.invert()).square();
''')])
refac("r08-ladder-split", "C20 C21 C10 C24 C25", [(MON, '''    let t0 = P.U + P.W;
    let t1 = P.U - P.W;
    let t2 = Q.U + Q.W;
    let t3 = Q.U - Q.W;

    let t4 = t0.square(); // (U_P + W_P)^2 = U_P^2 + 2 U_P W_P + W_P^2
    let t5 = t1.square(); // (U_P - W_P)^2 = U_P^2 - 2 U_P W_P + W_P^2
''', '''    let (t0, t1) = P.sum_and_difference();
    let (t2, t3) = Q.sum_and_difference();

    let t4 = t0.square(); // (U_P + W_P)^2 = U_P^2 + 2 U_P W_P + W_P^2
    let t5 = t1.square(); // (U_P - W_P)^2 = U_P^2 - 2 U_P W_P + W_P^2
'''), (MON, '''impl ProjectiveMontgomeryPoint {
    pub fn identity()''', '''impl ProjectiveMontgomeryPoint {
    fn sum_and_difference(&self) -> (FieldElement, FieldElement) {
        (self.U + self.W, self.U - self.W)
    }

    pub fn identity()''')])
refac("r09-ladder-inline", "C20 C21 C10 C24 C25", [(MON, '''            differential_add_and_double(&mut x0, &mut x1, &affine_u);
''', '''            let a = x0.U + x0.W;
            let b = x0.U - x0.W;
            let aa = a.square();
            let bb = b.square();
            let e = aa - bb;
            let da = (x1.U - x1.W) * a;
            let cb = (x1.U + x1.W) * b;
            x1.U = (da + cb).square();
            x1.W = affine_u * (da - cb).square();
            x0.U = aa * bb;
            x0.W = e * (bb + A_PLUS_TWO_OVER_FOUR * e);
''')])
refac("r10-scalar-add-overflowing", "C01 C05 C26 C24 C25", [(S, '''    let mut chain = 0u64;
    //XXX: Can unroll all of these for loops. They are mainly just ripple carry/borrow adders.
    for i in 0..14 {
        chain += (a[i] as u64) + (b[i] as u64);
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the carry
        chain >>= 32;
    }

    // Now reduce the results
    sub_extra(&result, &MODULUS, chain as u32)''', '''    let mut carry = false;
    for ((r, x), y) in result.0.iter_mut().zip(a.0.iter()).zip(b.0.iter()) {
        let (s, c1) = x.overflowing_add(*y);
        let (s, c2) = s.overflowing_add(carry as u32);
        *r = s;
        carry = c1 | c2;
    }

    // Now reduce the results
    sub_extra(&result, &MODULUS, carry as u32)''')])
refac("r11-sub-extra-select", "C01 C02 C03 C04 C05 C24 C25", [(S, '''        chain += (result[i] as i64) + ((MODULUS[i] as i64) & borrow);
''', '''        let limb = MODULUS[i] & (borrow as u32);
        chain += i64::from(result[i]) + i64::from(limb);
''')])
refac("r12-mont-mul-u128", "C02 C03 C05 C24 C25", [(S, '''        for j in 0..14 {
            chain += mul_add(x[i], y[j], result[j]);
            result[j] = chain as u32;
            chain >>= 32;
        }

        let saved''', '''        for (r, yj) in result.0.iter_mut().zip(y.0.iter()) {
            chain += (x[i] as u64) * (*yj as u64) + (*r as u64);
            *r = chain as u32;
            chain >>= 32;
        }

        let saved'''), (S, '''        for j in 0..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);
            if j > 0 {
                result[j - 1] = chain as u32;
            }
            chain >>= 32;
        }''', '''        chain += mul_add(multiplicand, MODULUS[0], result[0]);
        chain >>= 32;
        for j in 1..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);
            result[j - 1] = chain as u32;
            chain >>= 32;
        }''')])
refac("r13-canonical-compare", "C04 C25", [(S, '''        let reduced = sub_extra(&candidate, &MODULUS, 0);

        if candidate == reduced {
            Some(candidate)
        } else {
            None
        }''', '''        // candidate < MODULUS, most significant word first
        for i in (0..14).rev() {
            if candidate[i] < MODULUS[i] {
                return Some(candidate);
            }
            if candidate[i] > MODULUS[i] {
                return None;
            }
        }
        None''')])
refac("r14-scalar-bytes-std", "C04 C05 C15 C24 C25", [(S, '''        let load7 = |input: &[u8]| -> u64 {
            (input[0] as u64)
                | ((input[1] as u64) << 8)
                | ((input[2] as u64) << 16)
                | ((input[3] as u64) << 24)
        };

        let mut res = Scalar::zero();
        for i in 0..14 {
            // Load i'th 32 bytes
            let out = load7(&bytes[i * 4..]);
            res[i] = out as u32;
        }

        res''', '''        let mut res = Scalar::zero();
        for (limb, chunk) in res.0.iter_mut().zip(bytes.chunks_exact(4)) {
            *limb = u32::from_le_bytes([chunk[0], chunk[1], chunk[2], chunk[3]]);
        }

        res'''), (S, '''        for i in 0..14 {
            let mut l = self.0[i];
            for j in 0..4 {
                res[4 * i + j] = l as u8;
                l >>= 8;
            }
        }
        res''', '''        for (chunk, limb) in res.chunks_exact_mut(4).zip(self.0.iter()) {
            chunk.copy_from_slice(&limb.to_le_bytes());
        }
        res''')])
refac("r15-radix16-words", "C15 C24 C25", [(S, '''        // radix-16
        for i in 0..56 {
            output[2 * i] = bot_half(bytes[i]) as i8;
            output[2 * i + 1] = top_half(bytes[i]) as i8;
        }''', '''        // radix-16
        let _ = bytes;
        let _ = (bot_half as fn(u8) -> u8, top_half as fn(u8) -> u8);
        for (i, digit) in output.iter_mut().enumerate().take(112) {
            *digit = ((self.0[i / 8] >> (4 * (i % 8))) & 15) as i8;
        }''')])
refac("r16-bits-iter", "C15 C16 C20 C24 C25", [(S, '''        let mut bits: Vec<bool> = Vec::with_capacity(14 * 32);
        // We have 14 limbs, each 32 bits
        // First we iterate each limb
        for limb in self.0.iter() {
            // Then we iterate each bit in the limb
            for j in 0..32 {
                bits.push(limb & (1 << j) != 0)
            }
        }
''', '''        let mut bits = vec![false; 14 * 32];
        for (i, bit) in bits.iter_mut().enumerate() {
            *bit = (self.0[i / 32] >> (i % 32)) & 1 == 1;
        }
''')])
refac("r17-u32-weak-loop", "C07 C08 C11 C24 C25", [(U32, '''        self[15] = (self[15] & MASK) + (self[14] >> 28);
        self[14] = (self[14] & MASK) + (self[13] >> 28);
        self[13] = (self[13] & MASK) + (self[12] >> 28);
        self[12] = (self[12] & MASK) + (self[11] >> 28);
        self[11] = (self[11] & MASK) + (self[10] >> 28);
        self[10] = (self[10] & MASK) + (self[9] >> 28);
        self[9] = (self[9] & MASK) + (self[8] >> 28);
        self[8] = (self[8] & MASK) + (self[7] >> 28);
        self[7] = (self[7] & MASK) + (self[6] >> 28);
        self[6] = (self[6] & MASK) + (self[5] >> 28);
        self[5] = (self[5] & MASK) + (self[4] >> 28);
        self[4] = (self[4] & MASK) + (self[3] >> 28);
        self[3] = (self[3] & MASK) + (self[2] >> 28);
        self[2] = (self[2] & MASK) + (self[1] >> 28);
        self[1] = (self[1] & MASK) + (self[0] >> 28);
''', '''        for i in (1..16).rev() {
            self[i] = (self[i] & MASK) + (self[i - 1] >> 28);
        }
''')])
refac("r18-u32-weak-late", "C07 C08 C11", [(U32, '''        self[16 / 2] += limb16_mod;

''', ""), (U32, "self[8] = (self[8] & MASK) + (self[7] >> 28);", "self[8] = (self[8] & MASK) + (self[7] >> 28) + limb16_mod;")])
refac("r19-fiat-helpers", "C06 C08 C11 C24 C25", [(FIAT, '''        let mut result = FieldElement56::zero();
        let mut self_loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_relax(&mut self_loose, &self.0);
        let mut rhs_loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_relax(&mut rhs_loose, &rhs.0);
        fiat_p448_carry_mul(&mut result.0, &self_loose, &rhs_loose);
        result''', '''        let mut result = FieldElement56::zero();
        fiat_p448_carry_mul(&mut result.0, &self.relaxed(), &rhs.relaxed());
        result'''), (FIAT, '''impl FieldElement56 {
    /// Squares a field element''', '''impl FieldElement56 {
    fn relaxed(&self) -> fiat_p448_loose_field_element {
        let mut loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_relax(&mut loose, &self.0);
        loose
    }

    /// Squares a field element'''), (FIAT, '''        let mut self_loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_relax(&mut self_loose, &self.0);
        let mut result = FieldElement56::zero();
        fiat_p448_carry_square(&mut result.0, &self_loose);
        result''', '''        let mut result = FieldElement56::zero();
        fiat_p448_carry_square(&mut result.0, &self.relaxed());
        result'''), (FIAT, '''        let mut result_loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_opp(&mut result_loose, &self.0);
        let mut result = FieldElement56::zero();
        fiat_p448_carry(&mut result.0, &result_loose);
        result''', '''        FieldElement56::zero() - *self''')])
refac("r20-decompress-helper", "C17 C25", [(EXT, '''        // Recover x using y
        let y = FieldElement::from_bytes(&y_bytes);
        let yy = y.square();
        let dyy = EDWARDS_D * yy;
        let numerator = FieldElement::one() - yy;
        let denominator = FieldElement::one() - dyy;

        let (mut x, is_res) = FieldElement::sqrt_ratio(&numerator, &denominator);
        if is_res.unwrap_u8() != 1 {
            return None;
        }

        // Compute correct sign of x
        let compressed_sign_bit = Choice::from(sign >> 7);
        let is_negative = x.is_negative();
        x.conditional_negate(compressed_sign_bit ^ is_negative);

        return Some(AffinePoint { x, y }.to_extended());''', '''        let y = FieldElement::from_bytes(&y_bytes);
        let (x, is_res) = Self::recover_x(&y, Choice::from(sign >> 7));
        if bool::from(is_res) {
            Some(AffinePoint { x, y }.to_extended())
        } else {
            None
        }
    }

    /// The x coordinate with the given sign
    fn recover_x(y: &FieldElement, sign: Choice) -> (FieldElement, Choice) {
        let yy = y.square();
        let numerator = FieldElement::one() - yy;
        let denominator = FieldElement::one() - EDWARDS_D * yy;

        let (x, is_res) = FieldElement::sqrt_ratio(&numerator, &denominator);
        let other = x.negate();
        let flip = sign ^ x.is_negative();
        (FieldElement::conditional_select(&x, &other, flip), is_res)''')])
refac("r21-decaf-decode-late-reject", "C18 C19 C25", [(DEC, '''        let s_is_negative = s.is_negative();
        if s_encoding_is_canonical.unwrap_u8() == 0u8 || s.is_negative().unwrap_u8() == 1u8 {
            return None;
        }
''', '''        let s_is_valid = *s_encoding_is_canonical & !s.is_negative();
'''), (DEC, '''        if ok.unwrap_u8() == 0 {
            return None;
        }
''', '''        if !bool::from(ok & s_is_valid) {
            return None;
        }
''')])
refac("r22-low-order-field", "C22 C25", [(MON, '''        let point = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
        (point == LOW_A) || (point == LOW_B) || (point == LOW_C)''', '''        let u = FieldElement::from_bytes(&self.0);
        let low = [
            FieldElement::zero(),
            FieldElement::one(),
            FieldElement::minus_one(),
        ];
        low.iter().any(|l| *l == u)''')])
refac("r23-mod-four-loop", "C15 C24 C25", [(EXT, '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));

        result''', '''        let multiples = [zero_p, one_p, two_p, three_p];
        let mut result = zero_p;
        for (i, multiple) in multiples.iter().enumerate() {
            result.conditional_assign(multiple, s_mod_four.ct_eq(&(i as u32)));
        }

        result''')])
refac("r24-table-double", "C15 C24 C25", [(WN, '''        for i in 1..8 {
            table[i] = P.add_projective_niels(&table[i - 1]).to_projective_niels();
        }
''', '''        let mut multiple = point.to_extensible();
        for entry in table.iter_mut().skip(1) {
            multiple = multiple.add_extended(point);
            *entry = multiple.to_projective_niels();
        }
''')])
refac("r25-sum-loop", "C26 C25", [(EXT, "iter.fold(ExtendedPoint::identity(), |acc, item| acc + item.borrow())", '''let mut total = ExtendedPoint::identity();
        for point in iter {
            total += point.borrow();
        }
        total''')])
refac("r26-compress-slice", "C17 C25", [(EXT, '''        for i in 0..y_bytes.len() {
            compressed_bytes[i] = y_bytes[i]
        }
        *compressed_bytes.last_mut().unwrap() = (sign as u8) << 7;''', '''        compressed_bytes[..56].copy_from_slice(&y_bytes);
        compressed_bytes[56] = if sign == 1 { 0x80 } else { 0 };''')])
refac("r27-scalar-invert-simple", "C03 C25", [(S, '''        let mut pre_comp = [Scalar::zero(); 8];
        let mut result = Scalar::zero();
''', '''        let base = montgomery_multiply(self, &R2);
        let mut acc = base;
        for i in (0..445).rev() {
            acc = acc.square();
            let mut w = MODULUS[i / 32];
            if i < 32 {
                w -= 2;
            }
            if (w >> (i % 32)) & 1 == 1 {
                acc = montgomery_multiply(&acc, &base);
            }
        }
        return montgomery_multiply(&acc, &Scalar::one());
    }

    #[allow(dead_code)]
    fn invert_windowed(&self) -> Self {
        let mut pre_comp = [Scalar::zero(); 8];
        let mut result = Scalar::zero();
''')])
refac("r28-iso-projective", "C14 C15 C21 C23 C25", [(EXT, '''        // Convert to affine now, then derive extended version later
        let affine = self.to_affine();
        let x = affine.x;
        let y = affine.y;

        // Compute x
        let xy = x * y;
        let x_numerator = xy + xy;
        let x_denom = y.square() - (a * x.square());
        let new_x = x_numerator * x_denom.invert();

        // Compute y
        let y_numerator = y.square() + (a * x.square());
        let y_denom = (FieldElement::one() + FieldElement::one()) - y.square() - (a * x.square());
        let new_y = y_numerator * y_denom.invert();

        TwistedExtendedPoint {
            X: new_x,
            Y: new_y,
            Z: FieldElement::one(),
            T: new_x * new_y,
        }''', '''        let XX = a * self.X.square();
        let YY = self.Y.square();
        let ZZ = self.Z.square();
        let XY = self.X * self.Y;

        let x_num = XY + XY;
        let x_den = YY - XX;
        let y_num = YY + XX;
        let y_den = ZZ + ZZ - YY - XX;

        TwistedExtendedPoint {
            X: x_num * y_den,
            Y: y_num * x_den,
            Z: x_den * y_den,
            T: x_num * y_num,
        }''')])
refac("r29-invert-chain", "C09 C12 C17 C25", [(FM, '''        (x223.square_n(223) * x222).square_n(2) * _1
    }''', '''        let tail = x223.square_n(223) * x222;
        tail.square().square() * self
    }'''), (FM, '''        let mut result = self.square();

        // Decrease value by 1 since we just did a squaring
        n = n - 1;

        for _ in 0..n {
            result = result.square();
        }

        result''', '''        let mut result = *self;
        while n > 0 {
            result = result.square();
            n -= 1;
        }
        result''')])
refac("r30-decaf-compress-helper", "C19 C18 C24 C25", [(DEC, '''        let mut ratio = isr * XX_TT;
        let altx = ratio * DECAF_FACTOR; // Sign choice
        ratio.conditional_negate(altx.is_negative());
        let k = ratio * Z - T;

        let mut s = k * NEG_EDWARDS_D * isr * X;
        s.conditional_negate(s.is_negative());

        CompressedDecaf(s.to_bytes())
    }
}''', '''        let mut ratio = isr * XX_TT;
        let altx = ratio * DECAF_FACTOR; // Sign choice
        ratio.conditional_negate(altx.is_negative());
        let k = ratio * Z - T;

        CompressedDecaf(absolute(isr * X * k * NEG_EDWARDS_D).to_bytes())
    }
}

/// The non-negative one of x and -x
fn absolute(x: FieldElement) -> FieldElement {
    use subtle::ConditionallySelectable;
    FieldElement::conditional_select(&x, &x.negate(), x.is_negative())
}''')])
refac("r31-u32-strong-loops", "C08 C07 C24 C25", [(U32, '''        carry += add_carry(self[9], m);
        self[9] = (carry as u32) & MASK;
        carry >>= 28;
        carry += add_carry(self[10], m);
        self[10] = (carry as u32) & MASK;
        carry >>= 28;
        carry += add_carry(self[11], m);
        self[11] = (carry as u32) & MASK;
        carry >>= 28;
        carry += add_carry(self[12], m);
        self[12] = (carry as u32) & MASK;
        carry >>= 28;
        carry += add_carry(self[13], m);
        self[13] = (carry as u32) & MASK;
        carry >>= 28;
        carry += add_carry(self[14], m);
        self[14] = (carry as u32) & MASK;
        carry >>= 28;
        carry += add_carry(self[15], m);
        self[15] = (carry as u32) & MASK;

        // This last shift is only needed for the asserts that follow
        carry >>= 28;
''', '''        for limb in self.0[9..].iter_mut() {
            carry += add_carry(*limb, m);
            *limb = (carry as u32) & MASK;
            carry >>= 28;
        }
''')])
refac("r32-swap-by-hand", "C20 C24", [(MON, '''        let mut swap = 0;
        for s in (0..448).rev() {
            let bit = bits[s] as u8;
            let choice: u8 = (swap ^ bit) as u8;

            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(choice));
            differential_add_and_double(&mut x0, &mut x1, &affine_u);

            swap = bit;
        }
        // Undo the swap left pending by the least significant bit
        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
''', '''        for bit in bits.into_iter().rev() {
            let choice = Choice::from(bit as u8);
            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, choice);
            differential_add_and_double(&mut x0, &mut x1, &affine_u);
            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, choice);
        }
''')])
refac("r33-daa-decaf-macro", "C16 C26", [(DOP, '''        DecafPoint(double_and_add(&point.0,self))''', '''        point * self''')])
refac("r34-halve-branchless2", "C03", [(S, '''        for i in 0..13 {
            result[i] = (result[i] >> 1) | (result[i + 1] << 31);
        }
        result[13] = (result[13] >> 1) | ((chain << 31) as u32);
''', '''        let mut high = chain as u32;
        for limb in result.0.iter_mut().rev() {
            let low = *limb & 1;
            *limb = (*limb >> 1) | (high << 31);
            high = low;
        }
''')])
refac("r35-mod-four-bits", "C15", [(EXT, '''        let mut result = ExtendedPoint::identity();
        result.conditional_assign(&zero_p, Choice::from((s_mod_four == 0) as u8));
        result.conditional_assign(&one_p, Choice::from((s_mod_four == 1) as u8));
        result.conditional_assign(&two_p, Choice::from((s_mod_four == 2) as u8));
        result.conditional_assign(&three_p, Choice::from((s_mod_four == 3) as u8));

        result''', '''        let low = Choice::from((s_mod_four & 1) as u8);
        let high = Choice::from((s_mod_four >> 1) as u8);
        let even = ExtendedPoint::conditional_select(&zero_p, &two_p, high);
        let odd = ExtendedPoint::conditional_select(&one_p, &three_p, high);
        ExtendedPoint::conditional_select(&even, &odd, low)''')])
refac("r36-scalar-div-shift", "C15", [(S, '''        for i in 0..=12 {
            self.0[i] = (self.0[i + 1] << 30) | (self.0[i] >> 2);
        }
        self.0[13] >>= 2''', '''        let mut carry = 0u32;
        for limb in self.0.iter_mut().rev() {
            let next = *limb << 30;
            *limb = (*limb >> 2) | carry;
            carry = next;
        }''')])
refac("r37-isqrt-check", "C09 C17 C18 C19 C25", [(FM, '''        let is_residue = l0.ct_eq(&FieldElement::one());
        (l1, is_residue)''', '''        let check = l1.square() * self;
        let is_residue = check.ct_eq(&FieldElement::one());
        let root = l1;
        (root, is_residue)''')])
refac("r38-squaren-while", "C09 C12 C25", [(FM, '''        let mut result = self.square();

        // Decrease value by 1 since we just did a squaring
        n = n - 1;

        for _ in 0..n {
            result = result.square();
        }

        result''', '''        let mut result = *self;
        while n > 0 {
            result = result.square();
            n -= 1;
        }
        result''')])
refac("r39-wide-helper", "C05 C25", [(S, '''        let lo: [u8; 56] = std::array::from_fn(|i| input[i]);
        let lo = Scalar::from_bytes(lo);''', '''        let chunk = |from: usize, len: usize| -> Scalar {
            let mut buf = [0u8; 56];
            buf[..len].copy_from_slice(&input[from..from + len]);
            Scalar::from_bytes(buf)
        };
        let lo = chunk(0, 56);'''), (S, '''        let hi: [u8; 56] = std::array::from_fn(|i| input[i + 56]);
        let hi = Scalar::from_bytes(hi);''', '''        let hi = chunk(56, 56);'''), (S, '''        let top: [u8; 56] = std::array::from_fn(|i| if i < 2 { input[i + 112] } else { 0 });
        let top = Scalar::from_bytes(top);''', '''        let top = chunk(112, 2);'''), (S, "add(&lo, &hi).add(top)", "let high = hi + top;\n        high + lo")])
refac("r40-wide-horner", "C05", [(S, '''        // ((hi*R^2)/R) = hi * R mod ℓ
        let hi = montgomery_multiply(&hi, &R2);
''', ""), (S, '''        // ((top*R^2)/R) = top * R mod ℓ
        let top = montgomery_multiply(&top, &R2);
        // (((top*R)*R^2)/R) = top * R^2 mod ℓ
        let top = montgomery_multiply(&top, &R2);
''', '''        // Horner: (top * R + hi) * R + lo
        let top = montgomery_multiply(&top, &R2);
        let hi = montgomery_multiply(&hi, &R);
        let upper = montgomery_multiply(&add(&top, &hi), &R2);
'''), (S, "add(&lo, &hi).add(top)", "add(&upper, &lo)")])
refac("r41-add-zip-iter", "C01 C05 C25 C24", [(S, '''    for i in 0..14 {
        chain += (a[i] as u64) + (b[i] as u64);
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the carry
        chain >>= 32;
    }
''', '''    for (out, (x, y)) in result.0.iter_mut().zip(a.0.iter().zip(b.0.iter())) {
        let sum = u64::from(*x) + u64::from(*y) + chain;
        *out = (sum & 0xffff_ffff) as u32;
        chain = sum >> 32;
    }
''')])
refac("r42-sub-borrow-u64", "C01 C02 C04 C05 C24 C25", [(S, '''    let mut chain = 0i64;
    for i in 0..14 {
        chain += a[i] as i64 - b[i] as i64;
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the borrow
        chain >>= 32
    }
''', '''    let mut borrow_bit = 0u64;
    for i in 0..14 {
        let d = (a[i] as u64).wrapping_sub(b[i] as u64).wrapping_sub(borrow_bit);
        result[i] = d as u32;
        borrow_bit = (d >> 32) & 1;
    }
    let mut chain = -(borrow_bit as i64);
''')])
refac("r43-sub-helper", "C01 C02 C04 C05", [(S, '''    // a - b
    let mut chain = 0i64;
    for i in 0..14 {
        chain += a[i] as i64 - b[i] as i64;
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the borrow
        chain >>= 32
    }
''', '''    let (diff, mut chain) = sub_words(a, b);
    result = diff;
'''), (S, '''fn montgomery_multiply(x''', '''fn sub_words(a: &Scalar, b: &Scalar) -> (Scalar, i64) {
    let mut out = [0u32; 14];
    let mut chain = 0i64;
    for i in 0..14 {
        let t = a.0[i] as i64 - b.0[i] as i64 + chain;
        out[i] = t as u32;
        chain = t >> 32;
    }
    (Scalar(out), chain)
}

fn montgomery_multiply(x''')])
refac("r44-mont-split-loops", "C02 C03 C05", [(S, '''        for j in 0..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);
            if j > 0 {
                result[j - 1] = chain as u32;
            }
            chain >>= 32;
        }
''', '''        chain += mul_add(multiplicand, MODULUS[0], result[0]);
        chain >>= 32;
        for j in 1..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);
            result[j - 1] = chain as u32;
            chain >>= 32;
        }
''')])
refac("r45-mont-fused-array", "C02 C03 C05", [(S, '''    let mut result = Scalar::zero();
    let mut carry = 0u32;

    // (a * b ) + c
    let mul_add = |a: u32, b: u32, c: u32| -> u64 { ((a as u64) * (b as u64)) + (c as u64) };

    for i in 0..14 {
        let mut chain = 0u64;
        for j in 0..14 {
            chain += mul_add(x[i], y[j], result[j]);
            result[j] = chain as u32;
            chain >>= 32;
        }

        let saved = chain as u32;
        let multiplicand = result[0].wrapping_mul(MONTGOMERY_FACTOR);
        chain = 0u64;

        for j in 0..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);
            if j > 0 {
                result[j - 1] = chain as u32;
            }
            chain >>= 32;
        }
        chain += (saved as u64) + (carry as u64);
        result[14 - 1] = chain as u32;
        carry = (chain >> 32) as u32;
    }

    sub_extra(&result, &MODULUS, carry)''', '''    let mut t = [0u32; 16];
    for &xi in x.0.iter() {
        let mut c = 0u64;
        for j in 0..14 {
            let v = (xi as u64) * (y.0[j] as u64) + (t[j] as u64) + c;
            t[j] = v as u32;
            c = v >> 32;
        }
        let v = (t[14] as u64) + c;
        t[14] = v as u32;
        t[15] = (v >> 32) as u32;

        let m = t[0].wrapping_mul(MONTGOMERY_FACTOR);
        let mut c = ((m as u64) * (MODULUS.0[0] as u64) + (t[0] as u64)) >> 32;
        for j in 1..14 {
            let v = (m as u64) * (MODULUS.0[j] as u64) + (t[j] as u64) + c;
            t[j - 1] = v as u32;
            c = v >> 32;
        }
        let v = (t[14] as u64) + c;
        t[13] = v as u32;
        t[14] = t[15] + ((v >> 32) as u32);
    }
    let mut result = Scalar::zero();
    result.0.copy_from_slice(&t[..14]);
    sub_extra(&result, &MODULUS, t[14])''')])
refac("r46-canonical-match", "C04 C25", [(S, '''        if bytes[56] != 0u8 || (bytes[55] >> 6) != 0u8 {
            return None;
        }
        let bytes: [u8; 56] = std::array::from_fn(|i| bytes[i]);
        let candidate = Scalar::from_bytes(bytes);

        let reduced = sub_extra(&candidate, &MODULUS, 0);

        if candidate == reduced {
            Some(candidate)
        } else {
            None
        }''', '''        let (last, low) = match bytes.split_last() {
            Some(parts) => parts,
            None => return None,
        };
        let mut raw = [0u8; 56];
        raw.copy_from_slice(low);
        let high_bits = *last | (raw[55] & 0xc0);
        let candidate = Scalar::from_bytes(raw);
        let is_reduced = candidate.ct_eq(&sub_extra(&candidate, &MODULUS, 0));
        match (high_bits, is_reduced.unwrap_u8()) {
            (0, 1) => Some(candidate),
            _ => None,
        }''')])
refac("r47-scalar-bytes-chunks", "C04 C05 C15", [(S, '''        let mut res = [0u8; 56];

        for i in 0..14 {
            let mut l = self.0[i];
            for j in 0..4 {
                res[4 * i + j] = l as u8;
                l >>= 8;
            }
        }
        res''', '''        let mut res = [0u8; 56];
        for (chunk, limb) in res.chunks_exact_mut(4).zip(self.0.iter()) {
            for (j, byte) in chunk.iter_mut().enumerate() {
                *byte = (*limb >> (8 * j)) as u8;
            }
        }
        res''')])
refac("r48-radix16-carry", "C15 C24 C25", [(S, '''        for i in 0..112 {
            let carry = (output[i] + 8) >> 4;
            output[i] -= carry << 4;
            output[i + 1] += carry;
        }
''', '''        let mut carry = 0i8;
        for digit in output.iter_mut().take(112) {
            let value = *digit + carry;
            carry = (value + 8) >> 4;
            *digit = value - (carry << 4);
        }
        output[112] = carry;
''')])
refac("r49-vb-first-digit", "C15 C24 C25", [(VB, '''    for i in (0..113).rev() {
        result = result.double();
        result = result.double();
        result = result.double();
        result = result.double();
''', '''    for (i, digit) in scalar.iter().enumerate().rev() {
        if i != 112 {
            for _ in 0..4 {
                result = result.double();
            }
        }
        let digit = *digit;
'''), (VB, "let mask = scalar[i] >> 7;", "let mask = digit >> 7;"), (VB, "((scalar[i] + mask) ^ mask) as u32", "((digit + mask) ^ mask) as u32")])
refac("r50-vb-abs-sub", "C15 C24 C25", [(VB, "let abs_value = ((scalar[i] + mask) ^ mask) as u32;", "let abs_value = ((scalar[i] ^ mask) - mask) as u32;")])
refac("r51-select-zip", "C15 C24 C25", [(WN, '''        for i in 1..9 {
            let swap = index.ct_eq(&(i as u32));
            result.conditional_assign(&self.0[i - 1], swap);
        }
        result''', '''        for (entry, k) in self.0.iter().zip(1u32..) {
            result = ProjectiveNielsPoint::conditional_select(&result, entry, k.ct_eq(&index));
        }
        result''')])
refac("r52-table-from-fn", "C15 C25", [(WN, '''        let mut table = [P.to_projective_niels(); 8];

        for i in 1..8 {
            table[i] = P.add_projective_niels(&table[i - 1]).to_projective_niels();
        }

        LookupTable(table)''', '''        let first = P.to_projective_niels();
        let mut acc = P;
        let table = std::array::from_fn(|i| {
            if i > 0 {
                acc = acc.add_projective_niels(&first);
            }
            acc.to_projective_niels()
        });
        LookupTable(table)''')])
refac("r53-decompress-select", "C17 C25", [(EXT, '''        let (mut x, is_res) = FieldElement::sqrt_ratio(&numerator, &denominator);
        if is_res.unwrap_u8() != 1 {
            return None;
        }

        // Compute correct sign of x
        let compressed_sign_bit = Choice::from(sign >> 7);
        let is_negative = x.is_negative();
        x.conditional_negate(compressed_sign_bit ^ is_negative);

        return Some(AffinePoint { x, y }.to_extended());''', '''        let (root, is_res) = FieldElement::sqrt_ratio(&numerator, &denominator);
        let flip = root.is_negative() ^ Choice::from((sign & 0x80) >> 7);
        let x = FieldElement::conditional_select(&root, &root.negate(), flip);
        let point = AffinePoint { x, y }.to_extended();
        if bool::from(is_res) { Some(point) } else { None }''')])
refac("r54-compress-from-fn", "C17 C25 C24", [(EXT, '''        let mut compressed_bytes = [0u8; 57];

        let sign = affine_x.is_negative().unwrap_u8();

        let y_bytes = affine_y.to_bytes();
        for i in 0..y_bytes.len() {
            compressed_bytes[i] = y_bytes[i]
        }
        *compressed_bytes.last_mut().unwrap() = (sign as u8) << 7;
        CompressedEdwardsY(compressed_bytes)''', '''        let y_bytes = affine_y.to_bytes();
        let last = affine_x.is_negative().unwrap_u8() << 7;
        CompressedEdwardsY(std::array::from_fn(|i| if i == 56 { last } else { y_bytes[i] }))''')])
refac("r55-ed-eq-diff", "C12 C23 C24 C25", [(EXT, '''        let XZ = self.X * other.Z;
        let ZX = self.Z * other.X;

        let YZ = self.Y * other.Z;
        let ZY = self.Z * other.Y;

        (XZ.ct_eq(&ZX)) & (YZ.ct_eq(&ZY))''', '''        let dx = self.X * other.Z - self.Z * other.X;
        let dy = self.Y * other.Z - self.Z * other.Y;
        dx.is_zero() & dy.is_zero()''')])
refac("r56-montgomery-proj", "C21 C25", [(EXT, '''        let affine = self.to_affine();

        let yy = affine.y.square();
        let dyy = EDWARDS_D * yy;

        let u = yy * (FieldElement::one() - dyy) * (FieldElement::one() - yy).invert();

        MontgomeryPoint(u.to_bytes())''', '''        // u = y^2 / x^2
        let u = (self.X.invert() * self.Y).square();
        MontgomeryPoint(u.to_bytes())''')])
refac("r57-ladder-swap-in-place", "C20 C21 C24 C25", [(MON, '''        let mut swap = 0;
        for s in (0..448).rev() {
            let bit = bits[s] as u8;
            let choice: u8 = (swap ^ bit) as u8;

            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(choice));
            differential_add_and_double(&mut x0, &mut x1, &affine_u);

            swap = bit;
        }
        // Undo the swap left pending by the least significant bit
        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
''', '''        for bit in bits.into_iter().rev() {
            let choice = Choice::from(u8::from(bit));
            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, choice);
            differential_add_and_double(&mut x0, &mut x1, &affine_u);
            ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, choice);
        }
''')])
refac("r58-low-order-any", "C22 C25", [(MON, "(point == LOW_A) || (point == LOW_B) || (point == LOW_C)", "[LOW_A, LOW_B, LOW_C].iter().any(|low| point == *low)")])
refac("r59-decaf-decode-and", "C18 C19 C25", [(DEC, '''        let s_is_negative = s.is_negative();
        if s_encoding_is_canonical.unwrap_u8() == 0u8 || s.is_negative().unwrap_u8() == 1u8 {
            return None;
        }
''', '''        let acceptable = *s_encoding_is_canonical & !s.is_negative();
        if !bool::from(acceptable) {
            return None;
        }
''')])
refac("r60-decaf-sub-via-add", "C13 C26 C25", [(DOP, "DecafPoint(self.0.to_extensible().sub_extended(&other.0).to_extended())", "self + &(-other)")])
refac("r61-ext-add-direct", "C13 C16 C15", [(TXT, '''        let E = (self.X + self.Y) * (other.X + other.Y) - A - B;
        let F = D - C;''', '''        let E = self.X * other.Y + self.Y * other.X;
        let F = D - C;'''), (TXT, "let C = self.Z.square() + self.Z.square();", "let ZZ = self.Z.square();\n        let C = ZZ + ZZ;")])
refac("r62-u32-select-array", "C07 C06 C12 C24", [(U32, '''        FieldElement28([
            u32::conditional_select(&a.0[0], &b.0[0], choice),
            u32::conditional_select(&a.0[1], &b.0[1], choice),
            u32::conditional_select(&a.0[2], &b.0[2], choice),
            u32::conditional_select(&a.0[3], &b.0[3], choice),
            u32::conditional_select(&a.0[4], &b.0[4], choice),
            u32::conditional_select(&a.0[5], &b.0[5], choice),
            u32::conditional_select(&a.0[6], &b.0[6], choice),
            u32::conditional_select(&a.0[7], &b.0[7], choice),
            u32::conditional_select(&a.0[8], &b.0[8], choice),
            u32::conditional_select(&a.0[9], &b.0[9], choice),
            u32::conditional_select(&a.0[10], &b.0[10], choice),
            u32::conditional_select(&a.0[11], &b.0[11], choice),
            u32::conditional_select(&a.0[12], &b.0[12], choice),
            u32::conditional_select(&a.0[13], &b.0[13], choice),
            u32::conditional_select(&a.0[14], &b.0[14], choice),
            u32::conditional_select(&a.0[15], &b.0[15], choice),
        ])''', '''        let mask = (choice.unwrap_u8() as u32).wrapping_neg();
        FieldElement28(std::array::from_fn(|i| a.0[i] ^ (mask & (a.0[i] ^ b.0[i]))))''')])
refac("r63-u32-bias-loop", "C07 C08 C11 C25", [(U32, '''        FieldElement28([
            a[0].wrapping_add(lo[0]),
            a[1].wrapping_add(lo[1]),
            a[2].wrapping_add(lo[2]),
            a[3].wrapping_add(lo[3]),
            a[4].wrapping_add(lo[0]),
            a[5].wrapping_add(lo[1]),
            a[6].wrapping_add(lo[2]),
            a[7].wrapping_add(lo[3]),
            a[8].wrapping_add(hi[0]),
            a[9].wrapping_add(hi[1]),
            a[10].wrapping_add(hi[2]),
            a[11].wrapping_add(hi[3]),
            a[12].wrapping_add(lo[0]),
            a[13].wrapping_add(lo[1]),
            a[14].wrapping_add(lo[2]),
            a[15].wrapping_add(lo[3]),
        ])''', '''        let _ = (lo, hi);
        let mut out = *a;
        for (i, limb) in out.0.iter_mut().enumerate() {
            *limb = limb.wrapping_add(if i == 8 { co2 } else { co1 });
        }
        out''')])
refac("r64-u32-bytes-le", "C08 C07 C17", [(U32, '''            let mut l = (limbs[2 * i] as u64) + ((limbs[2 * i + 1] as u64) << 28);

            for j in 0..7 {
                res[7 * i + j] = l as u8;
                l >>= 8;
            }''', '''            let l = (limbs[2 * i] as u64) | ((limbs[2 * i + 1] as u64) << 28);
            res[7 * i..7 * i + 7].copy_from_slice(&l.to_le_bytes()[..7]);''')])
refac("r65-u32-strong-fn", "C08 C07 C24 C25", [(U32, '''        let mut scarry = 0i64;
        scarry += sub_carry(self[0], 0xfffffff);
        self[0] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[1], 0xfffffff);
        self[1] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[2], 0xfffffff);
        self[2] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[3], 0xfffffff);
        self[3] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[4], 0xfffffff);
        self[4] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[5], 0xfffffff);
        self[5] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[6], 0xfffffff);
        self[6] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[7], 0xfffffff);
        self[7] = (scarry as u32) & MASK;
        scarry >>= 28;
        scarry += sub_carry(self[8], 0xffffffe);
        self[8] = (scarry as u32) & MASK;
        scarry >>= 28;
''', '''        let mut scarry = 0i64;
        for i in 0..9 {
            let m = if i == 8 { 0xffffffe } else { 0xfffffff };
            let d = sub_carry(self[i], m) + scarry;
            self[i] = (d & (MASK as i64)) as u32;
            scarry = d >> 28;
        }
''')])
refac("r66-fiat-strong-bytes", "C06 C08 C12 C25", [(FIAT, '''        let mut self_loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_relax(&mut self_loose, &self.0);
        fiat_p448_carry(&mut self.0, &self_loose);''', '''        let bytes = self.to_bytes();
        *self = FieldElement56::from_bytes(&bytes);''')])
refac("r67-fiat-neg-as-sub", "C06 C11 C25", [(FIAT, '''        let mut result_loose = fiat_p448_loose_field_element([0; 8]);
        fiat_p448_opp(&mut result_loose, &self.0);
        let mut result = FieldElement56::zero();
        fiat_p448_carry(&mut result.0, &result_loose);
        result''', '''        FieldElement56::zero() - *self''')])
refac("r68-iso-shared", "C14 C15 C25", [(EXT, '''        let xy = x * y;
        let x_numerator = xy + xy;
        let x_denom = y.square() - (a * x.square());
        let new_x = x_numerator * x_denom.invert();

        // Compute y
        let y_numerator = y.square() + (a * x.square());
        let y_denom = (FieldElement::one() + FieldElement::one()) - y.square() - (a * x.square());
        let new_y = y_numerator * y_denom.invert();
''', '''        let yy = y.square();
        let axx = a * x.square();
        let sum = yy + axx;
        let x_denom = yy - axx;
        let y_denom = FieldElement::one() + FieldElement::one() - sum;
        // One inversion for both denominators
        let inv = (x_denom * y_denom).invert();
        let new_x = (x * y + x * y) * inv * y_denom;
        let new_y = sum * inv * x_denom;
''')])
refac("r69-scalar-mul-order", "C15 C23 C25", [(EXT, '''        // Use isogeny and dual isogeny to compute phi^-1((s/4) * phi(P))
        let partial_result = variable_base(&self.to_twisted(), &scalar_div_four).to_untwisted();
        // Add partial result to (scalar mod 4) * P
        partial_result.add(&self.scalar_mod_four(&scalar))''', '''        let remainder = self.scalar_mod_four(scalar);
        let twisted = self.to_twisted();
        let quarter = variable_base(&twisted, &scalar_div_four);
        &remainder + &quarter.to_untwisted()''')])
refac("r70-sum-assign", "C26 C25", [(EXT, "iter.fold(ExtendedPoint::identity(), |acc, item| acc + item.borrow())", "let mut total = ExtendedPoint::identity();\n        for item in iter {\n            total += item.borrow();\n        }\n        total")])
refac("r71-daa-select-sum", "C16 C24 C25", [(DAA, '''        let mut p = ExtendedPoint::identity();
        p.conditional_assign(point, Choice::from(bit as u8));
        result = result.add(&p);''', '''        let sum = result.add(point);
        result.conditional_assign(&sum, Choice::from(u8::from(bit)));''')])
refac("r72-halve-windows", "C03 C25", [(S, '''        for i in 0..14 {
            chain += (self[i] as u64) + ((MODULUS[i] & mask) as u64);
            result[i] = chain as u32;
            chain >>= 32
        }

        for i in 0..13 {
            result[i] = (result[i] >> 1) | (result[i + 1] << 31);
        }
        result[13] = (result[13] >> 1) | ((chain << 31) as u32);
''', '''        let mut words = [0u32; 15];
        for i in 0..14 {
            chain += (self[i] as u64) + ((MODULUS[i] & mask) as u64);
            words[i] = chain as u32;
            chain >>= 32
        }
        words[14] = chain as u32;
        for (i, pair) in words.windows(2).enumerate() {
            result[i] = (pair[0] >> 1) | (pair[1] << 31);
        }
''')])
PRO = "src/curve/twedwards/projective.rs"
AFF = "src/curve/twedwards/affine.rs"


def between(path, start, end):
    """The text of /repo's file from `start` up to and including `end`"""
    t = open("/repo/" + path).read()
    i = t.index(start)
    return t[i:t.index(end, i) + len(end)]


refac("r73-add-adc", "C01 C05 C25", [(S, '''        chain += (a[i] as u64) + (b[i] as u64);
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the carry
        chain >>= 32;
    }

    // Now reduce the results
    sub_extra(&result, &MODULUS, chain as u32)''', '''        let (limb, carry) = adc(a[i], b[i], chain as u32);
        result[i] = limb;
        chain = carry as u64;
    }

    // Now reduce the results
    sub_extra(&result, &MODULUS, chain as u32)'''), (S, "/// Computes a + b mod p\n", '''/// Adds two limbs and a carry; returns the low limb and the new carry
#[inline]
fn adc(a: u32, b: u32, carry: u32) -> (u32, u32) {
    let (t, c1) = a.overflowing_add(b);
    let (t, c2) = t.overflowing_add(carry);
    (t, (c1 as u32) + (c2 as u32))
}

/// Computes a + b mod p
''')])
refac("r74-sub-mask32", "C01 C02 C03 C05 C25", [(S, '''    chain = 0i64;
    for i in 0..14 {
        chain += (result[i] as i64) + ((MODULUS[i] as i64) & borrow);
        // Low 32 bits are the results
        result[i] = chain as u32;
        // 33rd bit is the carry
        chain >>= 32;
    }

    result
''', '''    add_masked_modulus(&mut result, borrow as u32);

    result
'''), (S, "fn montgomery_multiply(", '''/// Adds the modulus, limb by limb masked with `mask`
fn add_masked_modulus(value: &mut Scalar, mask: u32) {
    let mut carry = 0u64;
    for (limb, m) in value.0.iter_mut().zip(MODULUS.0.iter()) {
        carry += u64::from(*limb) + u64::from(*m & mask);
        *limb = carry as u32;
        carry >>= 32;
    }
}

fn montgomery_multiply(''')])
refac("r75-mont-rows", "C02 C03 C05 C25", [(S, '''        let mut chain = 0u64;
        for j in 0..14 {
            chain += mul_add(x[i], y[j], result[j]);
            result[j] = chain as u32;
            chain >>= 32;
        }

        let saved = chain as u32;
        let multiplicand''', '''        let saved = add_row(&mut result, x[i], y);
        let multiplicand'''), (S, '''        chain = 0u64;

        for j in 0..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);''', '''        let mut chain = 0u64;

        for j in 0..14 {
            chain += mul_add(multiplicand, MODULUS[j], result[j]);'''), (S, "fn montgomery_multiply(", '''/// acc += a * b, returning the limb that is carried out
fn add_row(acc: &mut Scalar, a: u32, b: &Scalar) -> u32 {
    let mut carry = 0u32;
    for j in 0..14 {
        let t = (a as u64) * (b[j] as u64) + (acc[j] as u64) + (carry as u64);
        acc[j] = t as u32;
        carry = (t >> 32) as u32;
    }
    carry
}

fn montgomery_multiply(''')])
refac("r76-mont-cios16", "C02 C03 C05 C25", [(S, between(S, "    let mut result = Scalar::zero();\n    let mut carry = 0u32;\n\n    // (a * b ) + c", "    sub_extra(&result, &MODULUS, carry)\n"), '''    let mut t = [0u32; 16];
    for i in 0..14 {
        let mut carry = 0u64;
        for j in 0..14 {
            let v = (x[i] as u64) * (y[j] as u64) + (t[j] as u64) + carry;
            t[j] = v as u32;
            carry = v >> 32;
        }
        let v = (t[14] as u64) + carry;
        t[14] = v as u32;
        t[15] = (v >> 32) as u32;

        let m = t[0].wrapping_mul(MONTGOMERY_FACTOR);
        let v = (m as u64) * (MODULUS[0] as u64) + (t[0] as u64);
        let mut carry = v >> 32;
        for j in 1..14 {
            let v = (m as u64) * (MODULUS[j] as u64) + (t[j] as u64) + carry;
            t[j - 1] = v as u32;
            carry = v >> 32;
        }
        let v = (t[14] as u64) + carry;
        t[13] = v as u32;
        t[14] = t[15] + ((v >> 32) as u32);
    }
    let mut result = Scalar::zero();
    result.0.copy_from_slice(&t[..14]);

    sub_extra(&result, &MODULUS, t[14])
''')])
refac("r77-canonical-no-shift", "C04 C25", [(S, "if bytes[56] != 0u8 || (bytes[55] >> 6) != 0u8 {", "if bytes[56] != 0u8 {")])
refac("r78-canonical-top-down", "C04 C25", [(S, '''        let reduced = sub_extra(&candidate, &MODULUS, 0);

        if candidate == reduced {
            Some(candidate)
        } else {
            None
        }
''', '''        for i in (0..14).rev() {
            if candidate[i] < MODULUS[i] {
                return Some(candidate);
            }
            if candidate[i] > MODULUS[i] {
                return None;
            }
        }
        None
''')])
refac("r79-wide-reorder", "C05 C25", [(S, between(S, "        let lo: [u8; 56] = std::array::from_fn(|i| input[i]);", "        add(&lo, &hi).add(top)\n"), '''        let part = |from: usize, len: usize| -> Scalar {
            let mut bytes = [0u8; 56];
            bytes[..len].copy_from_slice(&input[from..from + len]);
            Scalar::from_bytes(bytes)
        };
        let times_r = |s: Scalar| montgomery_multiply(&s, &R2);

        let top = times_r(times_r(part(112, 2)));
        let hi = times_r(part(56, 56));
        let lo = montgomery_multiply(&part(0, 56), &R);

        top + hi + lo
''')])
refac("r80-invert-bools", "C03 C25", [(S, "let mut started: usize = 0;", "let mut started = false;"), (S, '''            if started != 0 {
                result = result.square()
            }
''', '''            if started {
                result = montgomery_multiply(&result, &result);
            }
'''), (S, '''                if started != 0 {
                    result = montgomery_multiply(
                        &result,
                        &pre_comp[trailing >> (scalar_window_bits + 1)],
                    )
                } else {
                    result = pre_comp[trailing >> (scalar_window_bits + 1)];
                    started = 1
                }
''', '''                let power = pre_comp[trailing >> (scalar_window_bits + 1)];
                result = if started {
                    montgomery_multiply(&result, &power)
                } else {
                    power
                };
                started = true;
''')])
refac("r81-is-zero-fold", "C08 C09 C12 C24 C25", [(FM, "        self.ct_eq(&FieldElement::zero())\n    }\n    /// Inverts", '''        let acc = self.to_bytes().iter().fold(0u8, |acc, b| acc | b);
        acc.ct_eq(&0u8)
    }
    /// Inverts''')])
refac("r82-isqrt-named", "C09 C17 C18 C25", [(FM, between(FM, "        let (mut l0, mut l1, mut l2) = (", "        (l1, is_residue)\n"), '''        // x_n = self^(2^n - 1)
        let x2 = self.square() * self;
        let x3 = x2.square() * self;
        let x6 = x3.square_n(3) * x3;
        let x9 = x6.square_n(3) * x3;
        let x18 = x9.square_n(9) * x9;
        let x19 = x18.square() * self;
        let x37 = x19.square_n(18) * x18;
        let x74 = x37.square_n(37) * x37;
        let x111 = x74.square_n(37) * x37;
        let x222 = x111.square_n(111) * x111;
        let x223 = x222.square() * self;
        let root = x223.square_n(223) * x222;

        let is_residue = (root.square() * self).ct_eq(&FieldElement::one());
        (root, is_residue)
''')])
refac("r83-sqrt-ratio-order", "C09 C17 C25", [(FM, "let zero_u = u.ct_eq(&FieldElement::zero());\n        (inv_sqrt_x * u, zero_u | is_res)", "let root = *u * inv_sqrt_x;\n        (root, is_res | u.is_zero())")])
refac("r84-decompress-recover", "C17 C25", [(EXT, between(EXT, "        // Recover x using y\n", "        x.conditional_negate(compressed_sign_bit ^ is_negative);\n\n        return Some(AffinePoint { x, y }.to_extended());"), '''        let y = FieldElement::from_bytes(&y_bytes);
        let x = recover_x(&y, Choice::from(sign >> 7))?;

        Some(AffinePoint { x, y }.to_extended())'''), (EXT, "impl ConstantTimeEq for ExtendedPoint {", '''/// Solves the curve equation for x, given y and the sign of x
fn recover_x(y: &FieldElement, sign: Choice) -> Option<FieldElement> {
    let yy = y.square();
    let (mut x, is_res) = FieldElement::sqrt_ratio(
        &(FieldElement::one() - yy),
        &(FieldElement::one() - EDWARDS_D * yy),
    );
    if !bool::from(is_res) {
        return None;
    }
    x.conditional_negate(x.is_negative() ^ sign);
    Some(x)
}

impl ConstantTimeEq for ExtendedPoint {''')])
refac("r85-to-affine-normalise", "C12 C13 C14 C17 C25", [(EXT, '''        let mut x = self.X * INV_Z;
        x.strong_reduce();

        let mut y = self.Y * INV_Z;
        y.strong_reduce();

        AffinePoint { x, y }''', '''        let reduced = |c: FieldElement| {
            let mut c = c * INV_Z;
            c.strong_reduce();
            c
        };

        AffinePoint {
            x: reduced(self.X),
            y: reduced(self.Y),
        }'''), (TEX, '''        let mut x = self.X * INV_Z;
        x.strong_reduce();
        let mut y = self.Y * INV_Z;
        y.strong_reduce();

        AffinePoint { x, y }''', '''        let mut affine = AffinePoint {
            x: INV_Z * self.X,
            y: INV_Z * self.Y,
        };
        affine.x.strong_reduce();
        affine.y.strong_reduce();
        affine''')])
refac("r86-ladder-fold", "C20 C24 C25", [(MON, '''        for s in (0..448).rev() {
            let bit = bits[s] as u8;
            let choice: u8 = (swap ^ bit) as u8;
''', '''        for &b in bits.iter().rev() {
            let bit = u8::from(b);
            let choice: u8 = swap ^ bit;
''')])
refac("r87-low-order-contains", "C22 C25", [(MON, "(point == LOW_A) || (point == LOW_B) || (point == LOW_C)", "[LOW_A, LOW_B, LOW_C].contains(&point)")])
refac("r88-decaf-equals-diff", "C19 C25", [(DEC, "self.0.X * other.0.Y == self.0.Y * other.0.X", "let diff = self.0.X * other.0.Y - self.0.Y * other.0.X;\n        diff.is_zero().into()")])
refac("r89-decaf-compress-order", "C19 C25", [(DEC, between(DEC, "        let XX_TT = (X + T) * (X - T);", "        s.conditional_negate(s.is_negative());\n"), '''        let num = X.square() - T.square();
        let (isr, _) = (num * NEG_EDWARDS_D * X.square()).inverse_square_root();
        let isr_x = NEG_EDWARDS_D * isr * X;
        let ratio = {
            let r = num * isr;
            let flip = (r * DECAF_FACTOR).is_negative();
            let mut out = r;
            out.conditional_negate(flip);
            out
        };

        let mut s = isr_x * (Z * ratio - T);
        let negative = s.is_negative();
        s.conditional_negate(negative);
''')])
refac("r90-decaf-decode-helper", "C18 C25", [(DEC, between(DEC, "        let s = FieldElement::from_bytes(&self.0);\n        //XX", "            return None;\n        }\n\n        let ss"), '''        let s = self.decode_s()?;

        let ss'''), (DEC, "    // XXX: We allow the identity point\n", '''    /// The field element, when it is canonical and non-negative
    fn decode_s(&self) -> Option<FieldElement> {
        let s = FieldElement::from_bytes(&self.0);
        let canonical = s.to_bytes().ct_eq(&self.0);
        if bool::from(canonical & !s.is_negative()) {
            Some(s)
        } else {
            None
        }
    }

    // XXX: We allow the identity point
'''), (DEC, '''        if ok.unwrap_u8() == 0 {
            return None;
        }
''', '''        if !bool::from(ok) {
            return None;
        }
''')])
refac("r91-ext-double-2xy", "C13 C15 C16 C25", [(TXT, "let E = (self.X + self.Y).square() - A - B;\n        let G = D + B;", "let XY = self.X * self.Y;\n        let E = XY + XY;\n        let G = B - A;"), (TXT, "let H = D - B;", "let H = D - B; // -(A + B)")])
refac("r92-sub-ext-neg", "C13 C25", [(TXT, between(TXT, "    pub fn sub_extended(&self, other: &ExtendedPoint) -> ExtensiblePoint {", "            Z: F * G,\n        }\n"), '''    pub fn sub_extended(&self, other: &ExtendedPoint) -> ExtensiblePoint {
        self.add_extended(&other.negate())
''')])
refac("r93-ext-add-assemble", "C13 C15 C16 C25", [(TXT, '''        let E = (self.X + self.Y) * (other.X + other.Y) - A - B;
        let F = D - C;
        let G = D + C;
        let H = B + A;
        ExtensiblePoint {
            X: E * F,
            Y: G * H,
            T1: E,
            T2: H,
            Z: F * G,
        }
''', '''        let E = self.X * other.Y + self.Y * other.X;
        ExtensiblePoint::assemble(E, D - C, D + C, A + B)
'''), (TXT, '''        let F = Z - C;
        let G = Z + C;
        ExtensiblePoint {
            X: E * F,
            Y: G * D,
            Z: F * G,
            T1: E,
            T2: D,
        }
    }
    /// Converts an extensible point to an extended point
''', '''        ExtensiblePoint::assemble(E, Z - C, Z + C, D)
    }
    /// The point (E/G, H/F)
    fn assemble(
        E: FieldElement,
        F: FieldElement,
        G: FieldElement,
        H: FieldElement,
    ) -> ExtensiblePoint {
        ExtensiblePoint {
            X: E * F,
            Y: G * H,
            Z: F * G,
            T1: E,
            T2: H,
        }
    }
    /// Converts an extensible point to an extended point
''')])
refac("r94-affine-add-hoist", "C13 C25", [(AFF, between(AFF, "        let y_numerator = self.y * other.y + self.x * other.x;", "        AffinePoint { x, y }\n"), '''        let xx = self.x * other.x;
        let yy = self.y * other.y;
        let cross = TWISTED_D * xx * yy;
        let x_numerator = (self.x + self.y) * (other.x + other.y) - xx - yy;

        AffinePoint {
            x: x_numerator * (FieldElement::one() + cross).invert(),
            y: (xx + yy) * (FieldElement::one() - cross).invert(),
        }
''')])
refac("r95-kara-loops", "C07 C25", [(KAR, between(KAR, "    let (mut z0, mut z1, mut z2) = (0i128, 0i128, 0i128);\n\n    // j=0", "    // Final step\n"), '''    let (mut z0, mut z1) = (0i128, 0i128);

    for j in 0..8 {
        for i in 0..=j {
            let lo = m(a[j - i], b[i]);
            z1 += m(aa[j - i], bb[i]) - lo;
            z0 += m(a[8 + j - i], b[8 + i]) + lo;
        }
        for i in (j + 1)..8 {
            let mid = m(aa[8 + j - i], bb[i]);
            z1 += m(a[16 + j - i], b[8 + i]) + mid;
            z0 += mid - m(a[8 + j - i], b[i]);
        }
        c[j] = (z0 & MASK) as u32;
        c[j + 8] = (z1 & MASK) as u32;
        z0 >>= 28;
        z1 >>= 28;
    }

    // Final step
''')])
refac("r96-kara-square-as-mul", "C07 C25", [(U32, "        karatsuba::square(self)\n", "        karatsuba::mul(self, self)\n")])
refac("r97-bits-from-bytes", "C04 C16 C20 C25", [(S, '''        for limb in self.0.iter() {
            // Then we iterate each bit in the limb
            for j in 0..32 {
                bits.push(limb & (1 << j) != 0)
            }
        }
''', '''        for byte in self.to_bytes().iter() {
            for j in 0..8 {
                bits.push((byte >> j) & 1 == 1)
            }
        }
''')])
refac("r98-niels-from-extended", "C13 C15 C25", [(WN, '''        let P = point.to_extensible();

        let mut table = [P.to_projective_niels(); 8];

        for i in 1..8 {
            table[i] = P.add_projective_niels(&table[i - 1]).to_projective_niels();
        }
''', '''        let mut table = [ProjectiveNielsPoint::identity(); 8];
        let base = point.to_extensible().to_projective_niels();
        let mut multiple = point.to_extensible();
        for entry in table.iter_mut() {
            *entry = multiple.to_projective_niels();
            multiple = multiple.add_projective_niels(&base);
        }
''')])
refac("r99-u32-sub-inline", "C07 C25", [(U32, '''        self = FieldElement28::bias(&self, 2);
        let mut inter_res = self.sub_no_reduce(&rhs);
        inter_res.weak_reduce();
        inter_res
''', '''        // 2p keeps every limb of the difference non-negative
        self = FieldElement28::bias(&self, 2);
        for i in 0..16 {
            self[i] -= rhs[i];
        }
        self.weak_reduce();
        self
''')])
refac("r100-kara-i64", "C07 C25", [(KAR, between(KAR, "pub(crate) fn mul(", "// XXX: unroll and re-write"), between(KAR, "pub(crate) fn mul(", "// XXX: unroll and re-write").replace("i128", "i64"))])
refac("r101-iso-x-zero", "C14 C15 C25", [(EXT, "        // Compute x\n        let xy", "        if bool::from(x.is_zero()) {\n            return TwistedExtendedPoint::identity();\n        }\n\n        // Compute x\n        let xy")])
refac("r102-vb-112", "C15 C24 C25", [(VB, "for i in (0..113).rev() {", "// the recoded scalar is below 2^447: the last digit is zero\n    for i in (0..112).rev() {")])
refac("r103-torsion-compress", "C23 C25", [(EXT, "(self * BASEPOINT_ORDER) == Self::identity()", "let q = self * BASEPOINT_ORDER;\n        q.compress().0 == Self::identity().compress().0")])
refac("r104-radix-centre", "C15 C24 C25", [(S, "let carry = (output[i] + 8) >> 4;", "let carry = (output[i] + 7) >> 4;")])
refac("r105-torsion-shortcut", "C23 C25", [(EXT, "(self * BASEPOINT_ORDER) == Self::identity()", "if bool::from(self.X.is_zero() | self.Y.is_zero()) {\n            return *self == Self::identity();\n        }\n        (self * BASEPOINT_ORDER) == Self::identity()")])
refac("r106-ed-sub-same", "C11 C26 C25", [(EXT, "        self.add(&other.negate())", "        if self == other {\n            return ExtendedPoint::identity();\n        }\n        self.add(&other.negate())")])
refac("r107-field-eq-fold", "C08 C12 C24 C25", [(FM, '''        self.to_bytes().ct_eq(&other.to_bytes())
''', '''        let (a, b) = (self.to_bytes(), other.to_bytes());
        let mut diff = 0u8;
        for i in 0..56 {
            diff |= a[i] ^ b[i];
        }
        diff.ct_eq(&0)
''')])
refac("r108-scalar-eq-limbs", "C04 C24 C25", [(S, '''        self.to_bytes().ct_eq(&other.to_bytes())
''', '''        let diff = self
            .0
            .iter()
            .zip(other.0.iter())
            .fold(0u32, |acc, (a, b)| acc | (a ^ b));
        diff.ct_eq(&0)
''')])
refac("r109-canonical-borrow", "C04 C25", [(S, '''        let reduced = sub_extra(&candidate, &MODULUS, 0);

        if candidate == reduced {
''', '''        let mut borrow = 0i64;
        for i in 0..14 {
            borrow = (candidate[i] as i64 - MODULUS[i] as i64 + borrow) >> 32;
        }

        // candidate - modulus is negative exactly for a reduced candidate
        if borrow != 0 {
''')])
refac("r110-decaf-canon-fold", "C18 C25", [(DEC, "let s_encoding_is_canonical = &s_bytes_check[..].ct_eq(&self.0);", "let s_encoding_is_canonical = s_bytes_check\n            .iter()\n            .zip(self.0.iter())\n            .fold(0u8, |acc, (a, b)| acc | (a ^ b))\n            .ct_eq(&0);")])
refac("r111-mont-eq-loop", "C28 C25", [(MON, "        self.0.ct_eq(&other.0)\n", '''        let mut equal = Choice::from(1u8);
        for i in 0..self.0.len() {
            equal &= self.0[i].ct_eq(&other.0[i]);
        }
        equal
''')])
refac("r112-decaf-canon-array-eq", "C18 C25", [(DEC, "if s_encoding_is_canonical.unwrap_u8() == 0u8 || s.is_negative().unwrap_u8() == 1u8 {", "if s_bytes_check != self.0 || bool::from(s_is_negative) {")])
refac("r113-low-order-bytes", "C22 C25", [(MON, '''        let point = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
        (point == LOW_A) || (point == LOW_B) || (point == LOW_C)''', '''        let reduced = FieldElement::from_bytes(&self.0).to_bytes();
        reduced == LOW_A.0 || reduced == LOW_B.0 || reduced == LOW_C.0''')])
refac("r114-sign-helper-loop", "C17 C25", [(EXT, '''        for i in 0..y_bytes.len() {
            compressed_bytes[i] = y_bytes[i]
        }
        *compressed_bytes.last_mut().unwrap() = (sign as u8) << 7;
''', '''        for (dst, src) in compressed_bytes.iter_mut().zip(y_bytes.iter()) {
            *dst = *src;
        }
        if sign == 1 {
            compressed_bytes[56] |= 0x80;
        }
''')])
refac("r115-decompress-match", "C17 C25", [(EXT, '''        let (sign, b) = self.0.split_last().unwrap();

        let mut y_bytes: [u8; 56] = [0; 56];
        y_bytes.copy_from_slice(&b);
''', '''        let sign = self.0[56] & 0x80;
        let y_bytes: [u8; 56] = std::array::from_fn(|i| self.0[i]);
'''), (EXT, "let compressed_sign_bit = Choice::from(sign >> 7);\n        let is_negative = x.is_negative();\n        x.conditional_negate(compressed_sign_bit ^ is_negative);", "if bool::from(x.is_negative()) != (sign != 0) {\n            x = x.negate();\n        }")])
