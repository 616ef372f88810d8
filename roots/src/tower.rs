use ff::{Field, PrimeField};
use halo2curves::bn256::*;
use halo2curves::serde::SerdeObject;
use halo2curves::FieldExt;
use subtle::*;

macro_rules! ext_roots {
    ($m:ident, $f:ty) => {
        pub mod $m {
            use super::*;
            type F = $f;
            pub fn add(a: &F, b: &F) -> F { F::add(a, b) }
            pub fn sub(a: &F, b: &F) -> F { F::sub(a, b) }
            pub fn mul(a: &F, b: &F) -> F { F::mul(a, b) }
            pub fn neg(a: &F) -> F { F::neg(a) }
            pub fn square(a: &F) -> F { F::square(a) }
            pub fn double(a: &F) -> F { F::double(a) }
            pub fn tr_double(a: &F) -> F { <F as Field>::double(a) }
            pub fn tr_square(a: &F) -> F { <F as Field>::square(a) }
            pub fn mul_assign(a: &mut F, b: &F) { F::mul_assign(a, b) }
            pub fn square_assign(a: &mut F) { F::square_assign(a) }
            pub fn double_assign(a: &mut F) { F::double_assign(a) }
            pub fn op_add(a: F, b: F) -> F { a + b }
            pub fn op_sub(a: F, b: F) -> F { a - b }
            pub fn op_mul(a: F, b: F) -> F { a * b }
            pub fn op_neg(a: F) -> F { -a }
            pub fn rr_add(a: &F, b: &F) -> F { a + b }
            pub fn rr_sub(a: &F, b: &F) -> F { a - b }
            pub fn rr_mul(a: &F, b: &F) -> F { a * b }
            pub fn r_neg(a: &F) -> F { -a }
            pub fn as_add(a: &mut F, b: F) { *a += b }
            pub fn as_sub(a: &mut F, b: F) { *a -= b }
            pub fn as_mul(a: &mut F, b: F) { *a *= b }
            pub fn ar_add(a: &mut F, b: &F) { *a += b }
            pub fn ar_sub(a: &mut F, b: &F) { *a -= b }
            pub fn ar_mul(a: &mut F, b: &F) { *a *= b }
            pub fn frobenius(a: &mut F, k: usize) { a.frobenius_map(k) }
            pub fn invert(a: &F) -> CtOption<F> { <F as Field>::invert(a) }
            pub fn is_zero(a: &F) -> Choice { <F as Field>::is_zero(a) }
            pub fn ct_eq(a: &F, b: &F) -> Choice { a.ct_eq(b) }
            pub fn select(a: &F, b: &F, c: Choice) -> F { F::conditional_select(a, b, c) }
            pub fn zero() -> F { <F as Field>::zero() }
            pub fn one() -> F { <F as Field>::one() }
        }
    };
}
ext_roots!(fq2, Fq2);
ext_roots!(fq6, Fq6);
ext_roots!(fq12, Fq12);
pub mod x2 {
    use super::*;
    pub fn conjugate(a: &mut Fq2) { a.conjugate() }
    pub fn mul_by_nonresidue(a: &mut Fq2) { a.mul_by_nonresidue() }
    pub fn mul_by_xi(a: &mut Fq2) { a.mul_by_xi() }
    pub fn norm(a: &Fq2) -> Fq { a.norm() }
    pub fn inv(a: &Fq2) -> CtOption<Fq2> { a.invert() }
    pub fn to_bytes(a: &Fq2) -> [u8; 64] { a.to_bytes() }
    pub fn from_bytes(a: &[u8; 64]) -> CtOption<Fq2> { Fq2::from_bytes(a) }
    pub fn to_repr(a: &Fq2) -> [u8; 64] { let r = a.to_repr(); let mut o = [0u8; 64]; o.copy_from_slice(r.as_ref()); o }
    pub fn cmp(a: &Fq2, b: &Fq2) -> core::cmp::Ordering { a.cmp(b) }
    pub fn is_odd(a: &Fq2) -> Choice { a.is_odd() }
    pub fn from_u64(a: u64) -> Fq2 { Fq2::from(a) }
    pub fn from_u128(a: u128) -> Fq2 { Fq2::from_u128(a) }
    pub fn sqrt(a: &Fq2) -> CtOption<Fq2> { a.sqrt() }
    pub fn pow(a: &Fq2, e: &[u64; 4]) -> Fq2 { FieldExt::pow(a, e) }
    pub fn from_repr(b: &[u8; 64]) -> CtOption<Fq2> { let mut r = <Fq2 as PrimeField>::Repr::default(); r.as_mut().copy_from_slice(b); Fq2::from_repr(r) }
    pub fn from_raw(b: &[u8]) -> Option<Fq2> { Fq2::from_raw_bytes(b) }
    pub fn from_bool(b: bool) -> Fq2 { Fq2::from(b) }
    pub fn write_raw(a: &Fq2, o: &mut Vec<u8>) -> halo2curves::io::Result<()> { a.write_raw(o) }
    pub fn read_raw(b: &mut &[u8]) -> halo2curves::io::Result<Fq2> { Fq2::read_raw(b) }
    pub fn to_raw(a: &Fq2) -> Vec<u8> { a.to_raw_bytes() }
    pub fn eq(a: &Fq2, b: &Fq2) -> bool { a == b }
}
pub mod x6 {
    use super::*;
    pub fn mul_by_nonresidue(a: &mut Fq6) { a.mul_by_nonresidue() }
    pub fn mul_by_v(a: &mut Fq6) { a.mul_by_v() }
    pub fn mul_by_1(a: &mut Fq6, c1: &Fq2) { a.mul_by_1(c1) }
    pub fn mul_by_01(a: &mut Fq6, c0: &Fq2, c1: &Fq2) { a.mul_by_01(c0, c1) }
    pub fn eq(a: &Fq6, b: &Fq6) -> bool { a == b }
}
pub mod x12 {
    use super::*;
    pub fn conjugate(a: &mut Fq12) { a.conjugate() }
    pub fn inv(a: &Fq12) -> CtOption<Fq12> { a.invert() }
    pub fn mul_by_014(a: &mut Fq12, c0: &Fq2, c1: &Fq2, c4: &Fq2) { a.mul_by_014(c0, c1, c4) }
    pub fn mul_by_034(a: &mut Fq12, c0: &Fq2, c3: &Fq2, c4: &Fq2) { a.mul_by_034(c0, c3, c4) }
    pub fn cyclotomic_square(a: &mut Fq12) { a.cyclotomic_square() }
    pub fn eq(a: &Fq12, b: &Fq12) -> bool { a == b }
}
pub mod pairing {
    use super::*;
    use halo2curves::pairing::*;
    use group::Group;
    pub fn final_exp(a: &Gt) -> Gt { a.final_exponentiation() }
    pub fn prepare(q: G2Affine) -> G2Prepared { G2Prepared::from_affine(q) }
    pub fn prepare2(q: G2Affine) -> G2Prepared { G2Prepared::from(q) }
    pub fn miller1(p: &G1Affine, q: &G2Prepared) -> Gt { <Bn256 as MultiMillerLoop>::multi_miller_loop(&[(p, q)]) }
    pub fn miller2(p: &G1Affine, q: &G2Prepared, p2: &G1Affine, q2: &G2Prepared) -> Gt { <Bn256 as MultiMillerLoop>::multi_miller_loop(&[(p, q), (p2, q2)]) }
    pub fn pair(p: &G1Affine, q: &G2Affine) -> Gt { <Bn256 as Engine>::pairing(p, q) }
    pub fn pair_with(p: &G1Affine, q: &G2Affine) -> Gt { p.pairing_with(q) }
    pub fn pair_with2(q: &G2Affine, p: &G1Affine) -> Gt { q.pairing_with(p) }
    pub fn gt_add(a: &Gt, b: &Gt) -> Gt { a + b }
    pub fn gt_sub(a: &Gt, b: &Gt) -> Gt { a - b }
    pub fn gt_neg(a: &Gt) -> Gt { -a }
    pub fn gt_double(a: &Gt) -> Gt { a.double() }
    pub fn gt_tr_double(a: &Gt) -> Gt { Group::double(a) }
    pub fn gt_id() -> Gt { <Gt as Group>::identity() }
    pub fn gt_is_id(a: &Gt) -> Choice { Group::is_identity(a) }
    pub fn gt_mul(a: &Gt, s: &Fr) -> Gt { a * s }
}
