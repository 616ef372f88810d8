//! The real prover over the ghost transcript and a ghost multi-opening prover
use crate::plonk::*;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::kzg::commitment::*;
use halo2_proofs::poly::*;
use halo2_proofs::transcript::*;
use halo2curves::bn256::*;
use halo2curves::io;
type Sch = KZGCommitmentScheme<Bn256>;
type Err = halo2_proofs::plonk::Error;
#[inline(never)] pub fn ghost_write_point(t: &mut u64, _p: G1Affine) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_write_scalar(t: &mut u64, _p: Fr) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_open<Q>(_q: Q) { }
impl TranscriptWrite<G1Affine, GChal> for GT {
    fn write_point(&mut self, p: G1Affine) -> io::Result<()> { ghost_write_point(&mut self.0, p) }
    fn write_scalar(&mut self, s: Fr) -> io::Result<()> { ghost_write_scalar(&mut self.0, s) }
}
pub struct GRng(u64);
impl rand_core::RngCore for GRng {
    fn next_u32(&mut self) -> u32 { self.0 as u32 }
    fn next_u64(&mut self) -> u64 { self.0 }
    fn fill_bytes(&mut self, _: &mut [u8]) {}
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand_core::Error> { Ok(()) }
}
macro_rules! ghost_prover { ($n:ident, $q:expr) => {
    pub struct $n;
    impl<'p> Prover<'p, Sch> for $n {
        const QUERY_INSTANCE: bool = $q;
        fn new(_: &'p ParamsKZG<Bn256>) -> Self { $n }
        fn create_proof<'com, E: EncodedChallenge<G1Affine>, T: TranscriptWrite<G1Affine, E>, R, I>(&self, _r: R, _t: &mut T, queries: I) -> io::Result<()>
        where I: IntoIterator<Item = ProverQuery<'com, G1Affine>> + Clone, R: rand_core::RngCore {
            for q in queries { ghost_open(q) }
            Ok(())
        }
    }
} }
ghost_prover!(PR, false);
ghost_prover!(PRI, true);
macro_rules! prover { ($m:ident, $c:ident) => { pub mod $m {
    use super::*;
    pub fn pk(p: &ParamsKZG<Bn256>, vk: VerifyingKey<G1Affine>) -> Result<ProvingKey<G1Affine>, Err> { keygen_pk(p, vk, &$c(0)) }
    pub fn prove(p: &ParamsKZG<Bn256>, pk: &ProvingKey<G1Affine>, c: &[$c], i: &[&[&[Fr]]], r: GRng, t: &mut GT) -> Result<(), Err> { create_proof::<Sch, PR, GChal, GRng, GT, $c>(p, pk, c, i, r, t) }
    pub fn prove_q(p: &ParamsKZG<Bn256>, pk: &ProvingKey<G1Affine>, c: &[$c], i: &[&[&[Fr]]], r: GRng, t: &mut GT) -> Result<(), Err> { create_proof::<Sch, PRI, GChal, GRng, GT, $c>(p, pk, c, i, r, t) }
} } }
prover!(c0, C0);
prover!(c1, C1);
prover!(c2, C2);
prover!(c3, C3);
