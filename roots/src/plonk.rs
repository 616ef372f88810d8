//! Ghost transcript, ghost multi-opening verifier and ghost strategy: the real plonk verifier is generic over them, so the
//! reads, challenges and opening claims of a run become the (contracted) calls of the ghost_* functions.
use ff::Field;
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::kzg::commitment::*;
use halo2_proofs::poly::kzg::msm::{DualMSM, MSMKZG};
use halo2_proofs::poly::kzg::multiopen::*;
use halo2_proofs::poly::kzg::strategy::*;
use halo2_proofs::poly::*;
use halo2_proofs::poly::VerifierQuery;
use halo2_proofs::transcript::*;
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::*;
use halo2curves::io;

#[inline(never)] pub fn ghost_read_point(t: &mut u64) -> io::Result<G1Affine> { if *t > 0 { Ok(G1Affine::default()) } else { Err("") } }
#[inline(never)] pub fn ghost_read_scalar(t: &mut u64) -> io::Result<Fr> { if *t > 0 { Ok(Fr::one()) } else { Err("") } }
#[inline(never)] pub fn ghost_common_point(t: &mut u64, _p: G1Affine) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_common_scalar(t: &mut u64, _p: Fr) -> io::Result<()> { if *t > 0 { Ok(()) } else { Err("") } }
#[inline(never)] pub fn ghost_squeeze(t: &mut u64) -> Fr { Fr::from(*t) }
#[inline(never)] pub fn ghost_query<Q>(_q: Q) { }
#[inline(never)] pub fn ghost_bytes(t: &mut u64, b: &mut [u8]) -> io::Result<()> { if *t > b.len() as u64 { Ok(()) } else { Err("") } }

#[derive(Clone, Debug)]
pub struct GChal(Fr);
impl EncodedChallenge<G1Affine> for GChal {
    type Input = [u8; 64];
    fn new(_: &[u8; 64]) -> Self { GChal(Fr::one()) }
    fn get_scalar(&self) -> Fr { self.0 }
}
pub struct GT(pub u64);
impl Transcript<G1Affine, GChal> for GT {
    fn squeeze_challenge(&mut self) -> GChal { GChal(ghost_squeeze(&mut self.0)) }
    fn common_point(&mut self, p: G1Affine) -> io::Result<()> { ghost_common_point(&mut self.0, p) }
    fn common_scalar(&mut self, s: Fr) -> io::Result<()> { ghost_common_scalar(&mut self.0, s) }
}
impl TranscriptRead<G1Affine, GChal> for GT {
    fn read_point(&mut self) -> io::Result<G1Affine> { ghost_read_point(&mut self.0) }
    fn read_scalar(&mut self) -> io::Result<Fr> { ghost_read_scalar(&mut self.0) }
}
pub struct GR(u64);
impl io::Read for GR {
    fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { ghost_bytes(&mut self.0, b) }
}
type Sch = KZGCommitmentScheme<Bn256>;
pub struct Gd;
impl Guard<Sch> for Gd { type MSMAccumulator = u64; }
macro_rules! ghost_verifier { ($n:ident, $q:expr) => {
    pub struct $n;
    impl<'p> Verifier<'p, Sch> for $n {
        type Guard = Gd;
        type MSMAccumulator = u64;
        const QUERY_INSTANCE: bool = $q;
        fn new(_: &'p ParamsKZG<Bn256>) -> Self { $n }
        fn verify_proof<'com, E: EncodedChallenge<G1Affine>, T: TranscriptRead<G1Affine, E>, I>(&self, _t: &mut T, queries: I, _m: u64) -> Result<Gd, halo2_proofs::poly::Error>
        where 'p: 'com, I: IntoIterator<Item = VerifierQuery<'com, G1Affine, MSMKZG<Bn256>>> + Clone {
            for q in queries { ghost_query(q) }
            Ok(Gd)
        }
    }
    impl<'p> VerificationStrategy<'p, Sch, $n> for GS {
        type Output = ();
        fn new(_: &'p ParamsKZG<Bn256>) -> Self { GS }
        fn process(self, f: impl FnOnce(u64) -> Result<Gd, halo2_proofs::plonk::Error>) -> Result<(), halo2_proofs::plonk::Error> { f(0).map(|_| ()) }
        fn finalize(self) -> bool { true }
    }
} }
pub struct GS;
ghost_verifier!(GV, false);
ghost_verifier!(GVI, true);

/// A ghost floor planner: assigns the fixed cells, selectors and copies its configuration lists (fixed values are ghost values)
#[derive(Clone)]
pub struct Cfg { pub adv: Vec<(Column<Advice>, usize)>, pub sel: Vec<(Selector, Vec<usize>)>, pub fix: Vec<(Column<Fixed>, usize)>, pub copy: Vec<(Column<Any>, usize, Column<Any>, usize)> }
#[inline(never)] pub fn ghost_value<F: Field>(c: &Column<Fixed>, r: usize) -> F { if r == c.index() { F::one() } else { F::zero() } }
#[inline(never)] pub fn ghost_adv<F: Field>(c: &Column<Advice>, r: usize, id: u64) -> F { if r == c.index() + id as usize { F::one() } else { F::zero() } }
pub struct GP;
impl FloorPlanner for GP {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(cs: &mut CS, circuit: &C, config: C::Config, _: Vec<Column<Fixed>>) -> Result<(), halo2_proofs::plonk::Error> {
        let cfg: &Cfg = unsafe { &*(&config as *const C::Config as *const Cfg) };
        let id: u64 = unsafe { *(circuit as *const C as *const u64) };
        for (c, r) in cfg.adv.iter() { cs.assign_advice(|| "", *c, *r, || Value::known(ghost_adv::<F>(c, *r, id)))?; }
        for (s, rows) in cfg.sel.iter() { for r in rows.iter() { cs.enable_selector(|| "", s, *r)?; } }
        for (c, r) in cfg.fix.iter() { cs.assign_fixed(|| "", *c, *r, || Value::known(ghost_value::<F>(c, *r)))?; }
        for (a, i, b, j) in cfg.copy.iter() { cs.copy(*a, *i, *b, *j)?; }
        Ok(())
    }
}
/// Circuits whose configurations exercise every kind of constraint
macro_rules! circ { ($n:ident, |$m:ident| $b:block) => {
    #[derive(Clone, Default)] pub struct $n(pub u64);
    impl Circuit<Fr> for $n {
        type Config = Cfg;
        type FloorPlanner = GP;
        fn without_witnesses(&self) -> Self { $n(self.0) }
        fn configure($m: &mut ConstraintSystem<Fr>) -> Cfg $b
        fn synthesize(&self, _: Cfg, _: impl Layouter<Fr>) -> Result<(), halo2_proofs::plonk::Error> { Ok(()) }
    }
} }
fn cells(c: &[Column<Advice>]) -> Vec<(Column<Advice>, usize)> { let mut v = vec![]; for x in c.iter() { for r in 0..6 { v.push((*x, r)) } } v }
fn any<T: Into<Column<Any>>>(t: T) -> Column<Any> { t.into() }
// gates only: fixed-column gate and a rotated product
circ!(C0, |m| {
    let a = m.advice_column(); let b = m.advice_column(); let f = m.fixed_column();
    m.create_gate("g", |m| {
        let x = m.query_advice(a, Rotation::cur()); let y = m.query_advice(b, Rotation::next()); let z = m.query_advice(a, Rotation::prev()); let q = m.query_fixed(f, Rotation::cur());
        vec![q.clone() * (x.clone() * y.clone() - z.clone()), q * (x + y * Fr::from(5) - z + Expression::Constant(Fr::from(7)))]
    });
    Cfg { adv: cells(&[a, b]), sel: vec![], fix: vec![(f, 0), (f, 3)], copy: vec![] }
});
// selectors (three simple ones, one complex), instance queries, one permutation set, one single-column lookup
circ!(C1, |m| {
    let a = m.advice_column(); let b = m.advice_column(); let i = m.instance_column(); let t = m.fixed_column();
    let s = m.selector(); let cs = m.complex_selector(); let s2 = m.selector(); let s3 = m.selector();
    m.enable_equality(a); m.enable_equality(i);
    m.create_gate("g", |m| {
        let s = m.query_selector(s); let x = m.query_advice(a, Rotation::cur()); let y = m.query_advice(b, Rotation::cur()); let z = m.query_instance(i, Rotation::cur()); let zn = m.query_instance(i, Rotation::next());
        vec![s * (x * y - z + zn)]
    });
    m.create_gate("h", |m| { let s = m.query_selector(s2); let x = m.query_advice(a, Rotation::cur()); let y = m.query_advice(b, Rotation::cur()); vec![s.clone() * (x.clone() - y.clone() * Fr::from(3)), s * (x + y)] });
    m.create_gate("k", |m| { let s = m.query_selector(s3); let x = m.query_advice(a, Rotation::cur()); vec![s * (x - Expression::Constant(Fr::from(11)))] });
    m.lookup_any("l", |m| { let c = m.query_selector(cs); let x = m.query_advice(a, Rotation::cur()); let t = m.query_fixed(t, Rotation::cur()); vec![(c * x, t)] });
    Cfg { adv: cells(&[a, b]), sel: vec![(s, vec![0, 2]), (cs, vec![1, 2, 3]), (s2, vec![1, 4]), (s3, vec![0, 5])], fix: vec![(t, 0), (t, 1), (t, 2)], copy: vec![(any(a), 0, any(i), 1), (any(a), 2, any(a), 5), (any(i), 1, any(a), 2), (any(a), 0, any(a), 5)] }
});
// several permutation sets over every column kind, a two-column lookup, a second phase with a challenge
circ!(C2, |m| {
    let a: Vec<_> = (0..5).map(|_| m.advice_column()).collect();
    let p = m.advice_column_in(SecondPhase); let ch = m.challenge_usable_after(FirstPhase);
    let f = m.fixed_column(); let k = m.fixed_column(); let i = m.instance_column(); let j = m.instance_column();
    let t0 = m.fixed_column(); let t1 = m.fixed_column();
    for x in &a { m.enable_equality(*x); }
    m.enable_equality(i); m.enable_equality(j); m.enable_equality(p); m.enable_constant(k);
    m.create_gate("g", |m| {
        let q = m.query_fixed(f, Rotation::cur()); let x = m.query_advice(a[0], Rotation::cur()); let y = m.query_advice(a[1], Rotation(2)); let z = m.query_advice(p, Rotation::cur()); let c = m.query_challenge(ch);
        let v = m.query_instance(j, Rotation::prev());
        vec![q.clone() * (x.clone() * c.clone() + y - z.clone()), q * (z - c * x) * v]
    });
    m.lookup_any("l", |m| { let x = m.query_advice(a[2], Rotation::cur()); let y = m.query_advice(a[3], Rotation::next()); let q = m.query_fixed(f, Rotation::cur()); let t0 = m.query_fixed(t0, Rotation::cur()); let t1 = m.query_fixed(t1, Rotation::cur()); vec![(q.clone() * x, t0), (q * y, t1)] });
    m.lookup_any("l2", |m| { let x = m.query_advice(a[0], Rotation::cur()); let t0 = m.query_fixed(t0, Rotation::cur()); vec![(x, t0)] });
    Cfg { adv: cells(&[a[0], a[1], a[2], a[3], a[4], p]), sel: vec![], fix: vec![(f, 1), (k, 2), (t0, 0), (t1, 0), (t1, 4)], copy: vec![(any(a[0]), 0, any(a[4]), 3), (any(a[4]), 3, any(p), 1), (any(k), 2, any(a[1]), 2), (any(i), 0, any(a[2]), 0), (any(j), 3, any(a[3]), 4), (any(a[0]), 0, any(p), 1), (any(a[2]), 0, any(a[2]), 0)] }
});
// every form of expression: constants 0, 1, 2 on either side, squares, scalings by 0, 1 and others, nested negations, far rotations, equal sub-expressions
circ!(C3, |m| {
    let a = m.advice_column(); let b = m.advice_column(); let f = m.fixed_column(); let t = m.fixed_column(); let ts = m.complex_selector();
    let c = |n: u64| Expression::Constant(Fr::from(n));
    m.create_gate("g", |m| {
        let x = m.query_advice(a, Rotation::cur()); let y = m.query_advice(b, Rotation::cur()); let xf = m.query_advice(a, Rotation(-5)); let yf = m.query_advice(b, Rotation(7)); let q = m.query_fixed(f, Rotation::cur());
        vec![
            q.clone() * (x.clone() * c(2) + c(2) * y.clone() * x.clone()),
            q.clone() * (x.clone() * x.clone() - (-y.clone()) + y.clone() * y.clone() * y.clone()),
            q.clone() * ((c(0) - x.clone()) + (-(y.clone() * c(1))) + c(1) * yf.clone() + x.clone() * Fr::zero() + yf.clone() * Fr::one() * Fr::from(9) + xf.clone() * Fr::from(2)),
            (-c(3)) * x.clone() * q.clone() + c(0) * y.clone() + (xf.clone() - c(0)) * q.clone() - (-(q.clone() * (x.clone() - y.clone()))) + (c(0) + q.clone() * y.clone() * yf.clone()) + (-(x.clone() * c(0))),
            q * (x.clone() + y.clone()) * (y + x) * (xf - yf),
        ]
    });
    m.lookup_any("l", |m| { let x = m.query_advice(a, Rotation::cur()); let y = m.query_advice(b, Rotation::cur()); let q = m.query_fixed(f, Rotation::cur()); let t = m.query_fixed(t, Rotation(2)); let ts = m.query_selector(ts); vec![(-(q.clone() * x.clone()) + y.clone() * q * y, t.clone()), (x, ts * t * Expression::Constant(Fr::from(2)))] });
    Cfg { adv: cells(&[a, b]), sel: vec![(ts, vec![2, 3, 5])], fix: vec![(f, 0), (f, 3), (t, 1), (t, 4)], copy: vec![] }
});
pub fn vk3(p: &ParamsKZG<Bn256>) -> Result<VerifyingKey<G1Affine>, halo2_proofs::plonk::Error> { keygen_vk(p, &C3(0)) }
pub fn vk0(p: &ParamsKZG<Bn256>) -> Result<VerifyingKey<G1Affine>, halo2_proofs::plonk::Error> { keygen_vk(p, &C0(0)) }
pub fn vk1(p: &ParamsKZG<Bn256>) -> Result<VerifyingKey<G1Affine>, halo2_proofs::plonk::Error> { keygen_vk(p, &C1(0)) }
pub fn vk2(p: &ParamsKZG<Bn256>) -> Result<VerifyingKey<G1Affine>, halo2_proofs::plonk::Error> { keygen_vk(p, &C2(0)) }
pub fn verify(p: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, i: &[&[&[Fr]]], t: &mut GT) -> Result<(), halo2_proofs::plonk::Error> {
    verify_proof::<Sch, GV, GChal, GT, GS>(p, vk, GS, i, t)
}
pub fn verify_q(p: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, i: &[&[&[Fr]]], t: &mut GT) -> Result<(), halo2_proofs::plonk::Error> {
    verify_proof::<Sch, GVI, GChal, GT, GS>(p, vk, GS, i, t)
}
