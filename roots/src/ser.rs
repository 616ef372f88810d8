//! Serialization of keys and parameters, over a ghost writer and a ghost reader
use crate::plonk::*;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::kzg::commitment::*;
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::*;
use halo2curves::io;
type Er = halo2_proofs::plonk::Error;
#[inline(never)] pub fn ghost_put(t: &mut u64, b: &[u8]) -> io::Result<()> { if *t > b.len() as u64 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_get(t: &mut u64, b: &mut [u8]) -> io::Result<()> { if *t > b.len() as u64 { Ok(()) } else { Err("") } }
pub struct GW(u64);
impl io::Write for GW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { ghost_put(&mut self.0, b)?; Ok(b.len()) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { ghost_put(&mut self.0, b) }
}
pub struct GD(u64);
impl io::Read for GD {
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { ghost_get(&mut self.0, b) }
}
pub fn vk_write(k: &VerifyingKey<G1Affine>, w: &mut GW, f: SerdeFormat) -> io::Result<()> { k.write(w, f) }
pub fn pk_write(k: &ProvingKey<G1Affine>, w: &mut GW, f: SerdeFormat) -> io::Result<()> { k.write(w, f) }
pub fn vk_bytes(k: &VerifyingKey<G1Affine>, f: SerdeFormat) -> Vec<u8> { k.to_bytes(f) }
pub fn pk_bytes(k: &ProvingKey<G1Affine>, f: SerdeFormat) -> Vec<u8> { k.to_bytes(f) }
macro_rules! circuit { ($m:ident, $c:ident) => { pub mod $m {
    use super::*;
    pub fn pk(p: &ParamsKZG<Bn256>, vk: VerifyingKey<G1Affine>) -> Result<ProvingKey<G1Affine>, Er> { keygen_pk(p, vk, &$c(0)) }
    pub fn vk_read(r: &mut GD, f: SerdeFormat) -> io::Result<VerifyingKey<G1Affine>> { VerifyingKey::read::<_, $c>(r, f) }
    pub fn pk_read(r: &mut GD, f: SerdeFormat) -> io::Result<ProvingKey<G1Affine>> { ProvingKey::read::<_, $c>(r, f) }
    pub fn vk_from(b: &[u8], f: SerdeFormat) -> io::Result<VerifyingKey<G1Affine>> { VerifyingKey::from_bytes::<$c>(b, f) }
    pub fn pk_from(b: &[u8], f: SerdeFormat) -> io::Result<ProvingKey<G1Affine>> { ProvingKey::from_bytes::<$c>(b, f) }
} } }
circuit!(c0, C0);
circuit!(c1, C1);
circuit!(c2, C2);
circuit!(c3, C3);
pub fn params_write(p: &ParamsKZG<Bn256>, w: &mut GW, f: SerdeFormat) -> io::Result<()> { p.write_custom(w, f) }
pub fn params_read(r: &mut GD, f: SerdeFormat) -> io::Result<ParamsKZG<Bn256>> { ParamsKZG::read_custom(r, f) }
pub fn params_write_std(p: &ParamsKZG<Bn256>, w: &mut GW) -> io::Result<()> { Params::write(p, w) }
pub fn params_read_std(r: &mut GD) -> io::Result<ParamsKZG<Bn256>> { Params::read(r) }
pub fn params_shrink(p: &mut ParamsKZG<Bn256>) { p.shrink(ckb_bf_base::SHRINK_K) }
pub fn params_read_verifier(r: &mut GD) -> io::Result<ParamsKZG<Bn256>> { ckb_bf_base::utils::read_verifier_params(r) }
