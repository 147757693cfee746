"""Which obligations decide which property."""
import scalar
import field
import curve
import group
import ct

BASE = ["rustc 1.99.1 emits LLVM IR that means what the Rust source means (opt-level 0, overflow and debug checks on)",
        "the IR executor in /verif/engine (validated against the native build on every run)",
        "z3's unsat answers"]


def obligations(prop, tier):
    f = globals()[prop]
    obs, extra = f(tier)
    return obs, {"level": "other", "assumptions": BASE + extra}


def C01(tier):
    return [scalar.add_ob(), scalar.sub_ob()], []


def C02(tier):
    return [scalar.mul_ob()], []


def C03(tier):
    return [scalar.halve_ob()], []


def C03(tier):
    return [scalar.Invert(), scalar.halve_ob()], ["Fermat's little theorem for the prime l (inverse = power l-2)"]


def C04(tier):
    return scalar.codec_obs(), []


def C05(tier):
    return [scalar.wide_ob(), scalar.random_ob()], []


def C06(tier):
    return field.arith("fiat"), []


def C07(tier):
    return field.arith("u32b"), []


def C08(tier):
    return field.codecs("fiat") + field.codecs("u32b"), []


LAW = ["p is prime", "the affine Edwards addition law is complete on Ed448 (d is not a square), so its denominators never vanish"]


def both(f):
    return [o for b in BOTH for o in f(b)]


BOTH = ("fiat", "u32b")


def deps(codecs=False):
    """The limb-level proofs behind the field operations that the curve layer abstracts."""
    out = []
    for b in BOTH:
        out += field.arith(b) + (field.codecs(b) if codecs else [])
    for o in out:
        o.dep = True
    return out


def C09(tier):
    return both(curve.c09) + deps(True), ["p is prime, p = 3 mod 4: Fermat's little theorem and Euler's criterion"]


def C12(tier):
    return both(curve.c12) + deps(True), LAW


def C11(tier):
    return both(curve.c11) + deps(), LAW


def C13(tier):
    return both(curve.c13) + deps(), ["p is prime"]


def C14(tier):
    return both(curve.c14) + deps(), ["p is prime", "Ed448 has no point of order 8 and its image on the twisted curve avoids the points where the formulas degenerate (group order 4l)"]


def C17(tier):
    return both(curve.c17) + deps(True), LAW


def C21(tier):
    return both(curve.c21) + both(curve.c21b) + [o for b in BOTH for o in (group.c20(b)[0], group.c15(b)[0])] + deps(True), LAW + GROUP


def C22(tier):
    return both(curve.c22) + deps(True), ["p is prime"]


DECAF = ["p is prime", "the Decaf group is 2E/{(0,1),(0,-1)} of the twisted curve and its points are exactly (2s/(1-s^2), (1+s^2)/r) with r^2 = (1-s^2)^2 + 4*39082 s^2"]


def C18(tier):
    return both(curve.c18) + deps(True), DECAF


def C19(tier):
    return both(curve.c19) + deps(True), DECAF


GROUP = ["the affine laws make the points a group (associativity), of order 4l on Ed448; the isogenies are homomorphisms whose compositions are multiplication by 4, with image of order l on the twisted curve, where the twisted law has no exceptions"]


def C15(tier):
    return both(group.c15) + deps(), LAW + GROUP


def C16(tier):
    return both(group.c16) + deps(), LAW + GROUP + DECAF[1:]


def C20(tier):
    return both(group.c20) + deps(True), ["p is prime", "the x-only doubling and differential addition formulas of a Montgomery curve or its twist are correct whenever the u-coordinate of the difference is not 0"]


def C23(tier):
    return both(group.c23) + deps(True), LAW + GROUP


def C26(tier):
    return both(group.c26) + [scalar.add_ob(), scalar.sub_ob(), scalar.mul_ob()] + deps(), LAW + GROUP + DECAF[1:]


def C10(tier):
    out = []
    for b in BOTH:
        out += curve.c10(b) + [group.c20(b)[0], group.Torsion(b)]
    return out + [scalar.add_ob(), scalar.sub_ob(), scalar.mul_ob()] + deps(True), LAW + GROUP + DECAF[1:]


def C27(tier):
    return both(curve.c27), []


def C28(tier):
    return both(curve.c28) + deps(True), ["p is prime"]


def C24(tier):
    return both(ct.c24), ["the field operations are constant time in the sense shown by the limb-level obligations of this same check", "constant-time primitives of the subtle crate (ct_eq, conditional_select of integers) are taken as such", "compilation to machine code keeps branch-free IR branch-free"]


def C25(tier):
    return both(ct.c25), ["limb bounds closed under the field operations (computed and checked on every run)"]


NOTE = ("The solver shows the claim for every input within the stated bounds, over the IR compiled from the current tree. "
        "Trusted: rustc's IR generation, the IR executor (compared with the native build on every run), z3.")
NOTES = {}
NA = {}
