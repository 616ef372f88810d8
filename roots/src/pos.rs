//! Poseidon permutation, sponge and parameter generation
use halo2curves::bn256::Fr;
use poseidon::{Poseidon, Spec, State};
macro_rules! pos { ($m:ident, $t:expr) => { pub mod $m {
    use super::*;
    pub type P = Poseidon<Fr, $t, { $t - 1 }>;
    pub type S = Spec<Fr, $t, { $t - 1 }>;
    pub type St = State<Fr, $t>;
    pub fn perm(r_f: usize, r_p: usize, st: &mut St) { S::new(r_f, r_p).permute(st) }
    pub fn state() -> St { St::default() }
    pub fn words(s: &St) -> [Fr; $t] { s.words() }
    pub fn new(r_f: usize, r_p: usize) -> P { P::new(r_f, r_p) }
    pub fn update(p: &mut P, x: &[Fr]) { p.update(x) }
    pub fn squeeze(p: &mut P) -> Fr { p.squeeze() }
    pub fn seq(r_f: usize, r_p: usize, a: &[Fr], b: &[Fr], c: &[Fr]) -> [Fr; 3] {
        let mut p = P::new(r_f, r_p);
        p.update(a);
        p.update(b);
        let x = p.squeeze();
        p.update(c);
        let y = p.squeeze();
        let z = p.squeeze();
        [x, y, z]
    }
} } }
pos!(t2, 2);
pos!(t3, 3);
pos!(t5, 5);
pos!(t9, 9);
