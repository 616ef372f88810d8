use ff::Field;
use group::Curve;
use halo2_proofs::arithmetic::*;
use halo2_proofs::plonk::Assigned;
use halo2_proofs::poly::*;
use halo2curves::bn256::{Fr, G1, G1Affine};
pub mod assigned {
    use super::*;
    type A = Assigned<Fr>;
    pub fn add_vv(a: A, b: A) -> A { a + b }
    pub fn add_vr(a: A, b: &A) -> A { a + b }
    pub fn add_rv(a: &A, b: A) -> A { a + b }
    pub fn add_rr(a: &A, b: &A) -> A { a + b }
    pub fn add_vf(a: A, b: Fr) -> A { a + b }
    pub fn add_rf(a: &A, b: Fr) -> A { a + b }
    pub fn add_av(a: &mut A, b: A) { *a += b }
    pub fn add_ar(a: &mut A, b: &A) { *a += b }
    pub fn sub_vv(a: A, b: A) -> A { a - b }
    pub fn sub_vr(a: A, b: &A) -> A { a - b }
    pub fn sub_rv(a: &A, b: A) -> A { a - b }
    pub fn sub_rr(a: &A, b: &A) -> A { a - b }
    pub fn sub_vf(a: A, b: Fr) -> A { a - b }
    pub fn sub_rf(a: &A, b: Fr) -> A { a - b }
    pub fn sub_av(a: &mut A, b: A) { *a -= b }
    pub fn sub_ar(a: &mut A, b: &A) { *a -= b }
    pub fn mul_vv(a: A, b: A) -> A { a * b }
    pub fn mul_vr(a: A, b: &A) -> A { a * b }
    pub fn mul_vf(a: A, b: Fr) -> A { a * b }
    pub fn mul_rf(a: &A, b: Fr) -> A { a * b }
    pub fn mul_av(a: &mut A, b: A) { *a *= b }
    pub fn mul_ar(a: &mut A, b: &A) { *a *= b }
    pub fn neg_v(a: A) -> A { -a }
    pub fn neg_r(a: &A) -> A { -a }
    pub fn eq(a: &A, b: &A) -> bool { a == b }
    pub fn double(a: &A) -> A { a.double() }
    pub fn square(a: &A) -> A { a.square() }
    pub fn cube(a: &A) -> A { a.cube() }
    pub fn invert(a: &A) -> A { a.invert() }
    pub fn is_zero(a: &A) -> bool { a.is_zero_vartime() }
    pub fn numerator(a: &A) -> Fr { a.numerator() }
    pub fn denominator(a: &A) -> Option<Fr> { a.denominator() }
    pub fn evaluate(a: A) -> Fr { a.evaluate() }
    pub fn from_f(a: Fr) -> A { a.into() }
    pub fn from_rf(a: &Fr) -> A { a.into() }
    pub fn from_ra(a: &A) -> A { a.into() }
    pub fn from_t(a: (Fr, Fr)) -> A { a.into() }
}
pub mod arith {
    use super::*;
    pub fn eval(p: &[Fr], x: Fr) -> Fr { eval_polynomial(p, x) }
    pub fn inner(a: &[Fr], b: &[Fr]) -> Fr { compute_inner_product(a, b) }
    pub fn kate(a: &Vec<Fr>, b: Fr) -> Vec<Fr> { kate_division(a, b) }
    pub fn lagrange(p: &[Fr], e: &[Fr]) -> Vec<Fr> { lagrange_interpolate(p, e) }
    pub fn fft(a: &mut [Fr], w: Fr, k: u32) { best_fft(a, w, k) }
    pub fn fft_g(a: &mut [G1], w: Fr, k: u32) { best_fft(a, w, k) }
    pub fn msm(c: &[Fr], b: &[G1Affine]) -> G1 { best_multiexp(c, b) }
    pub fn small_msm(c: &[Fr], b: &[G1Affine]) -> G1 { small_multiexp(c, b) }
    pub fn g_lagrange(g: Vec<G1>, k: u32) -> Vec<G1Affine> { g_to_lagrange(g, k) }
    pub fn twiddle(w: Fr, k: u32, d: u32, l: bool) -> Vec<Fr> { generate_twiddle_lookup_table(w, k, d, l) }
}
pub mod domain {
    use super::*;
    type D = EvaluationDomain<Fr>;
    pub fn new(j: u32, k: u32) -> D { D::new(j, k) }
    pub fn to_coeff(d: &D, a: Polynomial<Fr, LagrangeCoeff>) -> Polynomial<Fr, Coeff> { d.lagrange_to_coeff(a) }
    pub fn to_ext(d: &D, a: Polynomial<Fr, Coeff>) -> Polynomial<Fr, ExtendedLagrangeCoeff> { d.coeff_to_extended(a) }
    pub fn to_parts(d: &D, a: &Polynomial<Fr, Coeff>) -> Vec<Polynomial<Fr, LagrangeCoeff>> { d.coeff_to_extended_parts(a) }
    pub fn to_bparts(d: &D, a: &[Polynomial<Fr, Coeff>]) -> Vec<Vec<Polynomial<Fr, LagrangeCoeff>>> { d.batched_coeff_to_extended_parts(a) }
    pub fn from_parts(d: &D, a: Vec<Polynomial<Fr, LagrangeCoeff>>) -> Polynomial<Fr, ExtendedLagrangeCoeff> { d.extended_from_lagrange_vec(a) }
    pub fn from_ext(d: &D, a: Polynomial<Fr, ExtendedLagrangeCoeff>) -> Vec<Fr> { d.extended_to_coeff(a) }
    pub fn div_van(d: &D, a: Polynomial<Fr, ExtendedLagrangeCoeff>) -> Polynomial<Fr, ExtendedLagrangeCoeff> { d.divide_by_vanishing_poly(a) }
    pub fn rot_ext(d: &D, a: &Polynomial<Fr, ExtendedLagrangeCoeff>, r: Rotation) -> Polynomial<Fr, ExtendedLagrangeCoeff> { d.rotate_extended(a, r) }
    pub fn rot_omega(d: &D, v: Fr, r: Rotation) -> Fr { d.rotate_omega(v, r) }
    pub fn l_i(d: &D, x: Fr, xn: Fr, a: i32, b: i32) -> Vec<Fr> { d.l_i_range(x, xn, a..b) }
    pub fn l_ii(d: &D, x: Fr, xn: Fr, a: i32, b: i32) -> Vec<Fr> { d.l_i_range(x, xn, a..=b) }
    pub fn lag_vec(d: &D, a: Vec<Fr>) -> Polynomial<Fr, LagrangeCoeff> { d.lagrange_from_vec(a) }
    pub fn cof_vec(d: &D, a: Vec<Fr>) -> Polynomial<Fr, Coeff> { d.coeff_from_vec(a) }
    pub fn emp_c(d: &D) -> Polynomial<Fr, Coeff> { d.empty_coeff() }
    pub fn emp_l(d: &D) -> Polynomial<Fr, LagrangeCoeff> { d.empty_lagrange() }
    pub fn emp_e(d: &D) -> Polynomial<Fr, ExtendedLagrangeCoeff> { d.empty_extended() }
    pub fn con_l(d: &D, s: Fr) -> Polynomial<Fr, LagrangeCoeff> { d.constant_lagrange(s) }
    pub fn con_e(d: &D, s: Fr) -> Polynomial<Fr, ExtendedLagrangeCoeff> { d.constant_extended(s) }
    pub fn omega(d: &D) -> Fr { d.get_omega() }
    pub fn omega_inv(d: &D) -> Fr { d.get_omega_inv() }
    pub fn ext_omega(d: &D) -> Fr { d.get_extended_omega() }
    pub fn padd(a: Polynomial<Fr, Coeff>, b: &Polynomial<Fr, Coeff>) -> Polynomial<Fr, Coeff> { a + b }
    pub fn psub(a: Polynomial<Fr, Coeff>, b: &Polynomial<Fr, Coeff>) -> Polynomial<Fr, Coeff> { a - b }
    pub fn pmul(a: Polynomial<Fr, Coeff>, b: Fr) -> Polynomial<Fr, Coeff> { a * b }
    pub fn psubs(a: &Polynomial<Fr, Coeff>, b: Fr) -> Polynomial<Fr, Coeff> { a - b }
    pub fn rot(a: &Polynomial<Fr, LagrangeCoeff>, r: Rotation) -> Polynomial<Fr, LagrangeCoeff> { a.rotate(r) }
}
