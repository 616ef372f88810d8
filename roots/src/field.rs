use ff::{Field, PrimeField};
use halo2curves::serde::SerdeObject;
use halo2curves::FieldExt;
use subtle::*;

macro_rules! field_roots {
    ($m:ident, $f:ty) => {
        pub mod $m {
            use super::*;
            type F = $f;
            pub fn add(a: &F, b: &F) -> F { F::add(a, b) }
            pub fn sub(a: &F, b: &F) -> F { F::sub(a, b) }
            pub fn neg(a: &F) -> F { F::neg(a) }
            pub fn mul(a: &F, b: &F) -> F { F::mul(a, b) }
            pub fn square(a: &F) -> F { F::square(a) }
            pub fn double(a: &F) -> F { F::double(a) }
            pub fn tr_double(a: &F) -> F { <F as Field>::double(a) }
            pub fn tr_square(a: &F) -> F { <F as Field>::square(a) }
            pub fn op_add(a: F, b: F) -> F { a + b }
            pub fn op_sub(a: F, b: F) -> F { a - b }
            pub fn op_mul(a: F, b: F) -> F { a * b }
            pub fn op_neg(a: F) -> F { -a }
            pub fn rr_add(a: &F, b: &F) -> F { a + b }
            pub fn rr_sub(a: &F, b: &F) -> F { a - b }
            pub fn rr_mul(a: &F, b: &F) -> F { a * b }
            pub fn r_neg(a: &F) -> F { -a }
            pub fn ro_add(a: &F, b: F) -> F { a + b }
            pub fn ro_sub(a: &F, b: F) -> F { a - b }
            pub fn ro_mul(a: &F, b: F) -> F { a * b }
            pub fn or_add(a: F, b: &F) -> F { a + b }
            pub fn or_sub(a: F, b: &F) -> F { a - b }
            pub fn or_mul(a: F, b: &F) -> F { a * b }
            pub fn as_add(a: &mut F, b: F) { *a += b }
            pub fn as_sub(a: &mut F, b: F) { *a -= b }
            pub fn as_mul(a: &mut F, b: F) { *a *= b }
            pub fn ar_add(a: &mut F, b: &F) { *a += b }
            pub fn ar_sub(a: &mut F, b: &F) { *a -= b }
            pub fn ar_mul(a: &mut F, b: &F) { *a *= b }
            pub fn g_add(a: &mut F, b: &F) { halo2curves::Group::group_add(a, b) }
            pub fn g_sub(a: &mut F, b: &F) { halo2curves::Group::group_sub(a, b) }
            pub fn g_mul(a: &mut F, b: &F) { halo2curves::Group::group_scale(a, b) }
            pub fn g_zero() -> F { halo2curves::Group::group_zero() }
            pub fn from_u64(a: u64) -> F { F::from(a) }
            pub fn from_bool(a: bool) -> F { F::from(a) }
            pub fn from_raw(a: [u64; 4]) -> F { F::from_raw(a) }
            pub fn from_u128(a: u128) -> F { F::from_u128(a) }
            pub fn from_repr(a: [u8; 32]) -> CtOption<F> { F::from_repr(a) }
            pub fn from_bytes(a: &[u8; 32]) -> CtOption<F> { F::from_bytes(a) }
            pub fn to_repr(a: &F) -> [u8; 32] { a.to_repr() }
            pub fn to_bytes(a: &F) -> [u8; 32] { a.to_bytes() }
            pub fn into_bytes(a: F) -> [u8; 32] { a.into() }
            pub fn into_bytes_r(a: &F) -> [u8; 32] { a.into() }
            pub fn is_odd(a: &F) -> Choice { a.is_odd() }
            pub fn from_bytes_wide(a: &[u8; 64]) -> F { F::from_bytes_wide(a) }
            pub fn get_lower_128(a: &F) -> u128 { a.get_lower_128() }
            pub fn get_lower_32(a: &F) -> u32 { pasta_curves::arithmetic::SqrtRatio::get_lower_32(a) }
            pub fn ct_eq(a: &F, b: &F) -> Choice { a.ct_eq(b) }
            pub fn eq(a: &F, b: &F) -> bool { a == b }
            pub fn cmp(a: &F, b: &F) -> core::cmp::Ordering { a.cmp(b) }
            pub fn partial_cmp(a: &F, b: &F) -> Option<core::cmp::Ordering> { a.partial_cmp(b) }
            pub fn select(a: &F, b: &F, c: Choice) -> F { F::conditional_select(a, b, c) }
            pub fn zero() -> F { F::zero() }
            pub fn one() -> F { F::one() }
            pub fn tr_zero() -> F { <F as Field>::zero() }
            pub fn tr_one() -> F { <F as Field>::one() }
            pub fn default() -> F { F::default() }
            pub fn is_zero(a: &F) -> Choice { a.is_zero() }
            pub fn is_zero_vartime(a: &F) -> bool { a.is_zero_vartime() }
            pub fn invert(a: &F) -> CtOption<F> { a.invert() }
            pub fn sqrt(a: &F) -> CtOption<F> { a.sqrt() }
            pub fn pow(a: &F, e: &[u64; 4]) -> F { a.pow(e) }
            pub fn pow_vartime(a: &F, e: [u64; 4]) -> F { a.pow_vartime(e) }
            pub fn generator() -> F { F::multiplicative_generator() }
            pub fn root_of_unity() -> F { F::root_of_unity() }
            pub fn root_of_unity_inv() -> F { F::ROOT_OF_UNITY_INV }
            pub fn two_inv() -> F { F::TWO_INV }
            pub fn delta() -> F { F::DELTA }
            pub fn zeta() -> F { F::ZETA }
            pub fn modulus_str() -> &'static str { F::MODULUS }
            pub fn s() -> u32 { F::S }
            pub fn num_bits() -> u32 { F::NUM_BITS }
            pub fn capacity() -> u32 { F::CAPACITY }
            pub fn from_raw_bytes(b: &[u8]) -> Option<F> { F::from_raw_bytes(b) }
            pub fn from_raw_bytes_unchecked(b: &[u8]) -> F { F::from_raw_bytes_unchecked(b) }
            pub fn to_raw_bytes(a: &F) -> Vec<u8> { a.to_raw_bytes() }
            pub fn read_raw(b: &mut &[u8]) -> halo2curves::io::Result<F> { F::read_raw(b) }
            pub fn read_raw_unchecked(b: &mut &[u8]) -> F { F::read_raw_unchecked(b) }
            pub fn write_raw(a: &F, b: &mut Vec<u8>) -> halo2curves::io::Result<()> { a.write_raw(b) }
        }
    };
}
field_roots!(bn_fq, halo2curves::bn256::Fq);
field_roots!(bn_fr, halo2curves::bn256::Fr);
field_roots!(secp_fp, halo2curves::secp256k1::Fp);
field_roots!(secp_fq, halo2curves::secp256k1::Fq);
