//! Fiat-Shamir transcripts
use halo2_proofs::transcript::*;
use halo2curves::bn256::*;
use halo2curves::io;
type Ch = Challenge255<G1Affine>;
macro_rules! tr { ($m:ident, $R:ident, $W:ident) => { pub mod $m {
    use super::*;
    pub type R<'a> = $R<&'a [u8], G1Affine, Ch>;
    pub type W = $W<Vec<u8>, G1Affine, Ch>;
    pub fn r_init<'a>(r: &'a [u8]) -> R<'a> { R::init(r) }
    pub fn w_init(w: Vec<u8>) -> W { W::init(w) }
    pub fn w_finalize(w: W) -> Vec<u8> { w.finalize() }
    pub fn r_squeeze<'a>(t: &mut R<'a>) -> Fr { t.squeeze_challenge().get_scalar() }
    pub fn w_squeeze(t: &mut W) -> Fr { t.squeeze_challenge().get_scalar() }
    pub fn r_scalar_challenge<'a>(t: &mut R<'a>) -> Fr { *t.squeeze_challenge_scalar::<()>() }
    pub fn w_scalar_challenge(t: &mut W) -> Fr { *t.squeeze_challenge_scalar::<()>() }
    pub fn r_common_point<'a>(t: &mut R<'a>, p: G1Affine) -> io::Result<()> { t.common_point(p) }
    pub fn w_common_point(t: &mut W, p: G1Affine) -> io::Result<()> { t.common_point(p) }
    pub fn r_common_scalar<'a>(t: &mut R<'a>, p: Fr) -> io::Result<()> { t.common_scalar(p) }
    pub fn w_common_scalar(t: &mut W, p: Fr) -> io::Result<()> { t.common_scalar(p) }
    pub fn read_point<'a>(t: &mut R<'a>) -> io::Result<G1Affine> { t.read_point() }
    pub fn read_scalar<'a>(t: &mut R<'a>) -> io::Result<Fr> { t.read_scalar() }
    pub fn write_point(t: &mut W, p: G1Affine) -> io::Result<()> { t.write_point(p) }
    pub fn write_scalar(t: &mut W, p: Fr) -> io::Result<()> { t.write_scalar(p) }
} } }
tr!(blake, Blake2bRead, Blake2bWrite);
tr!(keccak, Keccak256Read, Keccak256Write);
tr!(pos, PoseidonRead, PoseidonWrite);
