//! poseidon against an independent reference (Grain parameters, unoptimised rounds, variable-length sponge)
use ff::{Field, PrimeField};
use halo2curves::FieldExt;
use harness::*;
use num_bigint::BigUint;
use poseidon::{Poseidon, Spec, State};
struct Ref<F> { t: usize, rf: usize, rp: usize, rc: Vec<Vec<F>>, mds: Vec<Vec<F>> }
struct Lfsr { w: u128 }
impl Lfsr {
    // bit 79 of w is the oldest
    fn step(&mut self) -> bool { let g = |i: u32| self.w >> (79 - i) & 1; let b = g(62) ^ g(51) ^ g(38) ^ g(23) ^ g(13) ^ g(0); self.w = ((self.w << 1) | b) & ((1u128 << 80) - 1); b == 1 }
    fn bit(&mut self) -> bool { loop { let k = self.step(); let b = self.step(); if k { return b } } }
    fn word(&mut self, n: usize) -> BigUint { let mut x = BigUint::from(0u8); for _ in 0..n { x = x * 2u8 + self.bit() as u8 } x }
}
fn val<F: FieldExt>(x: &F) -> BigUint { BigUint::from_bytes_le(x.to_repr().as_ref()) }
fn to<F: FieldExt>(x: &BigUint) -> F { let mut q = <F as PrimeField>::Repr::default(); q.as_mut().copy_from_slice(&le32(x)); F::from_repr(q).unwrap() }
fn md<F: FieldExt>() -> BigUint { val(&(-F::one())) + 1u64 }
impl<F: FieldExt> Ref<F> {
    fn new(t: usize, rf: usize, rp: usize) -> Self {
        let p = md::<F>(); let n = p.bits() as usize;
        let mut w = 0u128; let mut put = |v: u128, k: u32| w = (w << k) | v;
        put(1, 2); put(0, 4); put(n as u128, 12); put(t as u128, 12); put(rf as u128, 10); put(rp as u128, 10); put((1 << 30) - 1, 30);
        let mut g = Lfsr { w };
        for _ in 0..160 { g.step(); }
        let rc = (0..rf + rp).map(|_| (0..t).map(|_| loop { let x = g.word(n); if x < p { break to::<F>(&x) } }).collect()).collect();
        let xs: Vec<F> = (0..t).map(|_| to(&(g.word(n) % &p))).collect();
        let ys: Vec<F> = (0..t).map(|_| to(&(g.word(n) % &p))).collect();
        let mds = xs.iter().map(|x| ys.iter().map(|y| (*x + y).invert().unwrap()).collect()).collect();
        Ref { t, rf, rp, rc, mds }
    }
    fn perm(&self, s: &mut Vec<F>) {
        for (i, c) in self.rc.iter().enumerate() {
            for (x, c) in s.iter_mut().zip(c) { *x = *x + c }
            let full = i < self.rf / 2 || i >= self.rf / 2 + self.rp;
            for x in s.iter_mut().take(if full { self.t } else { 1 }) { let y = *x * *x; *x = *x * y * y }
            *s = self.mds.iter().map(|r| r.iter().zip(s.iter()).fold(F::zero(), |a, (m, x)| a + *m * *x)).collect();
        }
    }
}
struct Sponge<'a, F> { r: &'a Ref<F>, s: Vec<F>, pend: Vec<F> }
impl<'a, F: FieldExt> Sponge<'a, F> {
    fn new(r: &'a Ref<F>) -> Self { let mut s = vec![F::zero(); r.t]; s[0] = to(&(BigUint::from(1u8) << 64u32)); Sponge { r, s, pend: vec![] } }
    fn absorb(&mut self, x: F) { self.pend.push(x); if self.pend.len() == self.r.t - 1 { self.flush() } }
    fn flush(&mut self) { for (i, x) in std::mem::take(&mut self.pend).into_iter().enumerate() { self.s[i + 1] = self.s[i + 1] + x } let r = self.r; r.perm(&mut self.s) }
    fn squeeze(&mut self) -> F { self.pend.push(F::one()); self.flush(); self.s[1] }
}
fn go<F: FieldExt, const T: usize, const RATE: usize>(name: &str, rf: usize, rp: usize, iters: u64, r: &mut Rng) -> u64 {
    let mut n = 0; let m = md::<F>();
    let rnd = |r: &mut Rng| -> F { if r.below(3) == 0 { to(&(edge(r, &m) % &m)) } else { F::random(r) } };
    case(format!("{} T={} rounds {}+{}", name, T, rf, rp));
    let re = Ref::<F>::new(T, rf, rp);
    let sp = match catch(|| Spec::<F, T, RATE>::new(rf, rp)) { Some(s) => s, None => { fail("the parameters cannot be generated", &format!("{} T={} rounds {}+{}", name, T, rf, rp)); return 1 } };
    // parameters that are kept as they are
    let mds: Vec<Vec<F>> = sp.mds_matrices().mds().rows().iter().map(|x| x.to_vec()).collect();
    if mds != re.mds { fail("the MDS matrix is not that of the Grain generator", &format!("{} T={} rounds {}+{} got {:?}", name, T, rf, rp, mds)) }
    if sp.r_f() != rf { fail("number of full rounds", &format!("{} got {}", rf, sp.r_f())) }
    if sp.constants().start().first().map(|x| x.to_vec()) != re.rc.first().cloned() { fail("the first round constants are not those of the Grain generator", &format!("{} T={} rounds {}+{}", name, T, rf, rp)) }
    // permutation, iterated
    let mut st = State::<F, T>::default(); let mut ex = { let mut s = vec![F::zero(); T]; s[0] = to(&(BigUint::from(1u8) << 64u32)); s };
    for i in 0..4 { sp.permute(&mut st); re.perm(&mut ex); n += 1; if st.words().to_vec() != ex { fail("the permutation differs from the reference", &format!("{} T={} rounds {}+{}: initial state permuted {} times", name, T, rf, rp, i + 1)); break } }
    let h0 = Poseidon::<F, T, RATE>::new(rf, rp);
    for _ in 0..iters {
        let mut h = h0.clone(); let mut s = Sponge::new(&re); let mut log = vec![];
        for _ in 0..1 + r.below(4) {
            for _ in 0..r.below(4) { let k = match r.below(4) { 0 => 0, 1 => RATE, 2 => r.below(RATE + 1), _ => r.below(3 * RATE + 2) }; let v: Vec<F> = (0..k).map(|_| rnd(r)).collect(); log.push(format!("update {:?}", v)); h.update(&v); for x in v { s.absorb(x) } }
            log.push("squeeze".into()); n += 1;
            let (a, b) = (catch(|| h.squeeze()), s.squeeze());
            if a != Some(b) { fail("a squeezed element differs from the Poseidon sponge of the absorbed elements", &format!("{} T={} rounds {}+{}: {} -> {:?}", name, T, rf, rp, log.join("; "), a)); break }
        }
    }
    n
}
fn main() {
    quiet(); guard(60, 6);
    let a = args(); let mut r = Rng(a.seed); let mut n = 0;
    use halo2curves::bn256::Fr; use halo2curves::pasta::{Fp as Pp, Fq as Pq}; use halo2curves::secp256k1::Fq as Sq;
    n += go::<Fr, 2, 1>("bn256 Fr", 8, 56, a.iters, &mut r);
    n += go::<Fr, 3, 2>("bn256 Fr", 8, 57, a.iters, &mut r);
    n += go::<Fr, 4, 3>("bn256 Fr", 8, 56, a.iters, &mut r);
    n += go::<Fr, 5, 4>("bn256 Fr", 8, 57, a.iters, &mut r);
    n += go::<Fr, 5, 4>("bn256 Fr", 8, 60, a.iters, &mut r);
    n += go::<Fr, 9, 8>("bn256 Fr", 8, 63, a.iters, &mut r);
    n += go::<Pp, 3, 2>("pasta Fp", 8, 56, a.iters, &mut r);
    n += go::<Pq, 5, 4>("pasta Fq", 8, 60, a.iters, &mut r);
    n += go::<Sq, 3, 2>("secp256k1 Fq", 8, 57, a.iters, &mut r);
    n += go::<Fr, 3, 2>("bn256 Fr", 2, 1, a.iters, &mut r);
    n += go::<Fr, 3, 2>("bn256 Fr", 4, 3, a.iters, &mut r);
    n += go::<Fr, 4, 3>("bn256 Fr", 6, 12, a.iters, &mut r);
    case_end();
    done(n, "Poseidon permutations and sponge outputs against the reference");
}
