//! KZG parameters, multi-opening provers and verifiers, strategies.  The transcript is a ghost one: its reads, writes and
//! challenges are the (contracted) calls of the ghost_* functions.
use ff::Field;
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::kzg::commitment::*;
use halo2_proofs::poly::kzg::msm::{DualMSM, MSMKZG};
use halo2_proofs::poly::kzg::multiopen::*;
use halo2_proofs::poly::kzg::strategy::*;
use halo2_proofs::poly::*;
use halo2_proofs::transcript::*;
use halo2curves::bn256::*;
use halo2curves::io;
#[inline(never)] pub fn ghost_read_point(t: &mut u64) -> io::Result<G1Affine> { if *t > 0 { Ok(G1Affine::default()) } else { Err("") } }
#[inline(never)] pub fn ghost_read_scalar(t: &mut u64) -> io::Result<Fr> { if *t > 0 { Ok(Fr::one()) } else { Err("") } }
#[inline(never)] pub fn ghost_common_point(t: &mut u64, _p: G1Affine) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_common_scalar(t: &mut u64, _p: Fr) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_write_point(t: &mut u64, _p: G1Affine) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_write_scalar(t: &mut u64, _p: Fr) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_squeeze(t: &mut u64) -> Fr { Fr::from(*t) }
#[inline(never)] pub fn ghost_rng(t: &mut u64) -> u64 { *t += 1; *t }
#[derive(Clone, Debug)]
pub struct GChal(Fr);
impl EncodedChallenge<G1Affine> for GChal {
    type Input = [u8; 64];
    fn new(_: &[u8; 64]) -> Self { GChal(Fr::one()) }
    fn get_scalar(&self) -> Fr { self.0 }
}
pub struct GT(u64);
impl Transcript<G1Affine, GChal> for GT {
    fn squeeze_challenge(&mut self) -> GChal { GChal(ghost_squeeze(&mut self.0)) }
    fn common_point(&mut self, p: G1Affine) -> io::Result<()> { ghost_common_point(&mut self.0, p) }
    fn common_scalar(&mut self, s: Fr) -> io::Result<()> { ghost_common_scalar(&mut self.0, s) }
}
impl TranscriptRead<G1Affine, GChal> for GT {
    fn read_point(&mut self) -> io::Result<G1Affine> { ghost_read_point(&mut self.0) }
    fn read_scalar(&mut self) -> io::Result<Fr> { ghost_read_scalar(&mut self.0) }
}
impl TranscriptWrite<G1Affine, GChal> for GT {
    fn write_point(&mut self, p: G1Affine) -> io::Result<()> { ghost_write_point(&mut self.0, p) }
    fn write_scalar(&mut self, s: Fr) -> io::Result<()> { ghost_write_scalar(&mut self.0, s) }
}
pub struct GRng(u64);
impl rand_core::RngCore for GRng {
    fn next_u32(&mut self) -> u32 { ghost_rng(&mut self.0) as u32 }
    fn next_u64(&mut self) -> u64 { ghost_rng(&mut self.0) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d.iter_mut() { *b = ghost_rng(&mut self.0) as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
type P = ParamsKZG<Bn256>;
type Sch = KZGCommitmentScheme<Bn256>;
type VQ<'a> = VerifierQuery<'a, G1Affine, MSMKZG<Bn256>>;
type PQ<'a> = ProverQuery<'a, G1Affine>;
type PE = halo2_proofs::poly::Error;
type E = halo2_proofs::plonk::Error;
pub fn shplonk_verify<'a>(p: &'a P, t: &mut GT, q: Vec<VQ<'a>>, acc: DualMSM<'a, Bn256>) -> Result<GuardKZG<'a, Bn256>, PE> { VerifierSHPLONK::new(p).verify_proof(t, q, acc) }
pub fn gwc_verify<'a>(p: &'a P, t: &mut GT, q: Vec<VQ<'a>>, acc: DualMSM<'a, Bn256>) -> Result<GuardKZG<'a, Bn256>, PE> { VerifierGWC::new(p).verify_proof(t, q, acc) }
pub fn shplonk_prove<'a>(p: &'a P, t: &mut GT, q: Vec<PQ<'a>>) -> io::Result<()> { ProverSHPLONK::new(p).create_proof(GRng(1), t, q) }
pub fn gwc_prove<'a>(p: &'a P, t: &mut GT, q: Vec<PQ<'a>>) -> io::Result<()> { ProverGWC::new(p).create_proof(GRng(1), t, q) }
pub fn single<'a>(p: &'a P, g: Result<GuardKZG<'a, Bn256>, E>) -> Result<(), E> { VerificationStrategy::<Sch, VerifierSHPLONK<Bn256>>::process(SingleStrategy::new(p), |_| g) }
pub fn single_gwc<'a>(p: &'a P, t: &mut GT, q: Vec<VQ<'a>>) -> Result<(), E> { VerificationStrategy::<Sch, VerifierGWC<Bn256>>::process(SingleStrategy::new(p), |a| VerifierGWC::new(p).verify_proof(t, q, a).map_err(|_| E::Opening)) }
pub fn accumulate<'a>(p: &'a P, s: AccumulatorStrategy<'a, Bn256>, t: &mut GT, q: Vec<VQ<'a>>) -> Result<AccumulatorStrategy<'a, Bn256>, E> { VerificationStrategy::<Sch, VerifierGWC<Bn256>>::process(s, |a| VerifierGWC::new(p).verify_proof(t, q, a).map_err(|_| E::Opening)) }
pub fn acc_new<'a>(p: &'a P) -> AccumulatorStrategy<'a, Bn256> { <AccumulatorStrategy<Bn256> as VerificationStrategy<Sch, VerifierGWC<Bn256>>>::new(p) }
pub fn acc_finalize<'a>(s: AccumulatorStrategy<'a, Bn256>) -> bool { VerificationStrategy::<Sch, VerifierGWC<Bn256>>::finalize(s) }
pub fn dual_new<'a>(p: &'a P) -> DualMSM<'a, Bn256> { DualMSM::new(p) }
pub fn dual_check<'a>(d: DualMSM<'a, Bn256>) -> bool { d.check() }
pub fn dual_scale<'a>(d: &mut DualMSM<'a, Bn256>, e: Fr) { d.scale(e) }
pub fn dual_add<'a>(d: &mut DualMSM<'a, Bn256>, e: DualMSM<'a, Bn256>) { d.add_msm(e) }
pub fn msm_append(m: &mut MSMKZG<Bn256>, s: Fr, p: G1) { m.append_term(s, p) }
pub fn msm_add(m: &mut MSMKZG<Bn256>, o: &MSMKZG<Bn256>) { m.add_msm(o) }
pub fn msm_scale(m: &mut MSMKZG<Bn256>, s: Fr) { m.scale(s) }
pub fn msm_combine(m: &mut MSMKZG<Bn256>, s: Fr) { m.combine_with_base(s) }
pub fn msm_eval(m: &MSMKZG<Bn256>) -> G1 { m.eval() }
pub fn msm_check(m: &MSMKZG<Bn256>) -> bool { m.check() }
pub fn setup_s(k: u32, s: Fr) -> P { P::unsafe_setup_with_s(k, s) }
pub fn setup(k: u32) -> P { P::setup(k, GRng(1)) }
pub fn downsize(p: &mut P, k: u32) { p.downsize(k) }
pub fn shrink(p: &mut P, k: u32) { p.shrink(k) }
pub fn commit(p: &P, f: &Polynomial<Fr, Coeff>, b: Blind<Fr>) -> G1 { p.commit(f, b) }
pub fn commit_lagrange(p: &P, f: &Polynomial<Fr, LagrangeCoeff>, b: Blind<Fr>) -> G1 { p.commit_lagrange(f, b) }
pub fn domain(j: u32, k: u32) -> EvaluationDomain<Fr> { EvaluationDomain::new(j, k) }
pub fn poly_mul(a: Polynomial<Fr, Coeff>, s: Fr) -> Polynomial<Fr, Coeff> { a * s }
pub fn poly_add<'a>(a: Polynomial<Fr, Coeff>, b: &'a Polynomial<Fr, Coeff>) -> Polynomial<Fr, Coeff> { a + b }
pub fn poly_sub<'a>(a: Polynomial<Fr, Coeff>, b: &'a Polynomial<Fr, Coeff>) -> Polynomial<Fr, Coeff> { a - b }
