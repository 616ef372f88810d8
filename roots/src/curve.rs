use group::{Curve, Group, GroupEncoding};
use group::prime::PrimeCurveAffine;
use group::cofactor::CofactorGroup;
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};
use subtle::*;

macro_rules! curve_roots {
    ($m:ident, $j:ty, $a:ty, $b:ty, $s:ty, $n:expr) => {
        pub mod $m {
            use super::*;
            type J = $j; type A = $a; type B = $b; type S = $s;
            pub fn rr_jj(a: &J, b: &J) -> J { a + b }
            pub fn rr_ja(a: &J, b: &A) -> J { a + b }
            pub fn rr_aj(a: &A, b: &J) -> J { a + b }
            pub fn rr_aa(a: &A, b: &A) -> J { a + b }
            pub fn op_jj(a: J, b: J) -> J { a + b }
            pub fn op_ja(a: J, b: A) -> J { a + b }
            pub fn op_aj(a: A, b: J) -> J { a + b }
            pub fn op_aa(a: A, b: A) -> J { a + b }
            pub fn as_jj(a: &mut J, b: J) { *a += b }
            pub fn as_ja(a: &mut J, b: A) { *a += b }
            pub fn ar_jj(a: &mut J, b: &J) { *a += b }
            pub fn ar_ja(a: &mut J, b: &A) { *a += b }
            pub fn srr_jj(a: &J, b: &J) -> J { a - b }
            pub fn srr_ja(a: &J, b: &A) -> J { a - b }
            pub fn srr_aj(a: &A, b: &J) -> J { a - b }
            pub fn srr_aa(a: &A, b: &A) -> J { a - b }
            pub fn sop_jj(a: J, b: J) -> J { a - b }
            pub fn sop_ja(a: J, b: A) -> J { a - b }
            pub fn sop_aj(a: A, b: J) -> J { a - b }
            pub fn sop_aa(a: A, b: A) -> J { a - b }
            pub fn sas_jj(a: &mut J, b: J) { *a -= b }
            pub fn sas_ja(a: &mut J, b: A) { *a -= b }
            pub fn sar_jj(a: &mut J, b: &J) { *a -= b }
            pub fn sar_ja(a: &mut J, b: &A) { *a -= b }
            pub fn gadd(a: &mut J, b: &J) { halo2curves::Group::group_add(a, b) }
            pub fn gsub(a: &mut J, b: &J) { halo2curves::Group::group_sub(a, b) }
            pub fn gzero() -> J { <J as halo2curves::Group>::group_zero() }
            pub fn double(a: &J) -> J { a.double() }
            pub fn neg_j(a: J) -> J { -a }
            pub fn rneg_j(a: &J) -> J { -a }
            pub fn neg_a(a: A) -> A { -a }
            pub fn rneg_a(a: &A) -> A { -a }
            pub fn mul_j(a: J, s: S) -> J { a * s }
            pub fn mul_a(a: A, s: S) -> J { a * s }
            pub fn rmul_j(a: &J, s: &S) -> J { a * s }
            pub fn rmul_a(a: &A, s: &S) -> J { a * s }
            pub fn amul_j(a: &mut J, s: S) { *a *= s }
            pub fn gscale(a: &mut J, s: &S) { halo2curves::Group::group_scale(a, s) }
            pub fn eq_j(a: &J, b: &J) -> bool { a == b }
            pub fn ct_eq_j(a: &J, b: &J) -> Choice { a.ct_eq(b) }
            pub fn eq_a(a: &A, b: &A) -> bool { a == b }
            pub fn ct_eq_a(a: &A, b: &A) -> Choice { a.ct_eq(b) }
            pub fn sel_j(a: &J, b: &J, c: Choice) -> J { J::conditional_select(a, b, c) }
            pub fn sel_a(a: &A, b: &A, c: Choice) -> A { A::conditional_select(a, b, c) }
            pub fn on_j(a: &J) -> Choice { CurveExt::is_on_curve(a) }
            pub fn on_a(a: &A) -> Choice { CurveAffine::is_on_curve(a) }
            pub fn to_affine(a: &J) -> A { a.to_affine() }
            pub fn aff_from(a: J) -> A { A::from(a) }
            pub fn to_curve(a: &A) -> J { a.to_curve() }
            pub fn cur_from(a: A) -> J { J::from(a) }
            pub fn id_j() -> J { J::identity() }
            pub fn id_a() -> A { A::identity() }
            pub fn def_j() -> J { J::default() }
            pub fn def_a() -> A { A::default() }
            pub fn is_id_j(a: &J) -> Choice { a.is_identity() }
            pub fn is_id_a(a: &A) -> Choice { a.is_identity() }
            pub fn gen_j() -> J { <J as Group>::generator() }
            pub fn gen_a() -> A { <A as PrimeCurveAffine>::generator() }
            pub fn b() -> B { <J as CurveExt>::b() }
            pub fn ab() -> B { <A as CurveAffine>::b() }
            pub fn a() -> B { <J as CurveExt>::a() }
            pub fn aa() -> B { <A as CurveAffine>::a() }
            pub fn from_xy(x: B, y: B) -> CtOption<A> { A::from_xy(x, y) }
            pub fn new_jac(x: B, y: B, z: B) -> CtOption<J> { J::new_jacobian(x, y, z) }
            pub fn jac_coords(a: &J) -> (B, B, B) { a.jacobian_coordinates() }
            pub fn norm0(p: [J; 0]) -> [A; 0] { let mut q = [A::identity(); 0]; J::batch_normalize(&p, &mut q); q }
            pub fn norm1(p: [J; 1]) -> [A; 1] { let mut q = [A::generator(); 1]; J::batch_normalize(&p, &mut q); q }
            pub fn norm2(p: [J; 2]) -> [A; 2] { let mut q = [A::generator(); 2]; J::batch_normalize(&p, &mut q); q }
            pub fn norm3(p: [J; 3]) -> [A; 3] { let mut q = [A::generator(); 3]; J::batch_normalize(&p, &mut q); q }
            pub fn enc_a(a: &A) -> [u8; $n] { let r = a.to_bytes(); let mut o = [0u8; $n]; o.copy_from_slice(r.as_ref()); o }
            pub fn enc_j(a: &J) -> [u8; $n] { let r = a.to_bytes(); let mut o = [0u8; $n]; o.copy_from_slice(r.as_ref()); o }
            pub fn dec_a(b: &[u8; $n]) -> CtOption<A> { let mut r = <A as GroupEncoding>::Repr::default(); r.as_mut().copy_from_slice(b); A::from_bytes(&r) }
            pub fn dec_u(b: &[u8; $n]) -> CtOption<A> { let mut r = <A as GroupEncoding>::Repr::default(); r.as_mut().copy_from_slice(b); A::from_bytes_unchecked(&r) }
            pub fn dec_j(b: &[u8; $n]) -> CtOption<J> { let mut r = <J as GroupEncoding>::Repr::default(); r.as_mut().copy_from_slice(b); J::from_bytes(&r) }
            pub fn raw_a(b: &[u8]) -> Option<A> { A::from_raw_bytes(b) }
            pub fn raw_j(b: &[u8]) -> Option<J> { J::from_raw_bytes(b) }
            pub fn rd_a(b: &mut &[u8]) -> halo2curves::io::Result<A> { A::read_raw(b) }
            pub fn rd_j(b: &mut &[u8]) -> halo2curves::io::Result<J> { J::read_raw(b) }
            pub fn wr_a(a: &A, o: &mut Vec<u8>) -> halo2curves::io::Result<()> { a.write_raw(o) }
            pub fn wr_j(a: &J, o: &mut Vec<u8>) -> halo2curves::io::Result<()> { a.write_raw(o) }
            pub fn traw_a(a: &A) -> Vec<u8> { a.to_raw_bytes() }
            pub fn traw_j(a: &J) -> Vec<u8> { a.to_raw_bytes() }
            pub fn sum3(a: [J; 3]) -> J { a.iter().sum() }
            pub fn clear_cofactor(a: &J) -> J { a.clear_cofactor() }
            pub fn torsion_free(a: &J) -> Choice { a.is_torsion_free() }
        }
    };
}
curve_roots!(g1, halo2curves::bn256::G1, halo2curves::bn256::G1Affine, halo2curves::bn256::Fq, halo2curves::bn256::Fr, 32);
curve_roots!(g2, halo2curves::bn256::G2, halo2curves::bn256::G2Affine, halo2curves::bn256::Fq2, halo2curves::bn256::Fr, 64);
curve_roots!(secp, halo2curves::secp256k1::Secp256k1, halo2curves::secp256k1::Secp256k1Affine, halo2curves::secp256k1::Fp, halo2curves::secp256k1::Fq, 33);
pub fn endo_g1(a: &halo2curves::bn256::G1) -> halo2curves::bn256::G1 { a.endo() }
