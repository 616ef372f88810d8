use ff::{Field, PrimeField};
use group::{Curve, Group, GroupEncoding};
use group::prime::PrimeCurveAffine;
use group::cofactor::CofactorGroup;
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};
use harness::*;
use num_bigint::BigUint;
use subtle::*;
// ---- oracle: affine arithmetic over Fp[i]/(i^2+1)
type E = (BigUint, BigUint);
type Pt = Option<(E, E)>;
#[derive(Clone)]
struct Or { p: BigUint, b: E, ext: bool }
impl Or {
    fn add(&self, a: &E, b: &E) -> E { ((&a.0 + &b.0) % &self.p, (&a.1 + &b.1) % &self.p) }
    fn neg(&self, a: &E) -> E { ((&self.p - &a.0) % &self.p, (&self.p - &a.1) % &self.p) }
    fn sub(&self, a: &E, b: &E) -> E { self.add(a, &self.neg(b)) }
    fn mul(&self, a: &E, b: &E) -> E { ((&a.0 * &b.0 + &self.p * &self.p - &a.1 * &b.1) % &self.p, (&a.0 * &b.1 + &a.1 * &b.0) % &self.p) }
    fn inv(&self, a: &E) -> E {
        let n = (&a.0 * &a.0 + &a.1 * &a.1) % &self.p;
        let i = n.modpow(&(&self.p - 2u64), &self.p);
        ((&a.0 * &i) % &self.p, ((&self.p - &a.1) * &i) % &self.p)
    }
    fn pow(&self, a: &E, e: &BigUint) -> E { let mut r = (BigUint::from(1u64), BigUint::from(0u64)); for i in (0..e.bits()).rev() { r = self.mul(&r, &r); if e.bit(i) { r = self.mul(&r, a) } } r }
    fn is_sq(&self, a: &E) -> bool { let q = if self.ext { &self.p * &self.p } else { self.p.clone() }; let r = self.pow(a, &((q - 1u64) >> 1u32)); (r.0 == BigUint::from(1u64) && r.1 == BigUint::from(0u64)) || (a.0 == BigUint::from(0u64) && a.1 == BigUint::from(0u64)) }
    fn rhs(&self, x: &E) -> E { self.add(&self.mul(x, &self.mul(x, x)), &self.b) }
    fn on(&self, x: &E, y: &E) -> bool { self.mul(y, y) == self.rhs(x) }
    fn psum(&self, a: &Pt, b: &Pt) -> Pt {
        let (p, q) = match (a, b) { (None, x) | (x, None) => return x.clone(), (Some(p), Some(q)) => (p, q) };
        let l = if p.0 == q.0 {
            if p.1 != q.1 { return None }
            let t = self.mul(&p.0, &p.0); let t3 = self.add(&t, &self.add(&t, &t));
            self.mul(&t3, &self.inv(&self.add(&p.1, &p.1)))
        } else { self.mul(&self.sub(&q.1, &p.1), &self.inv(&self.sub(&q.0, &p.0))) };
        let x = self.sub(&self.sub(&self.mul(&l, &l), &p.0), &q.0);
        Some((x.clone(), self.sub(&self.mul(&l, &self.sub(&p.0, &x)), &p.1)))
    }
    fn pneg(&self, a: &Pt) -> Pt { a.as_ref().map(|(x, y)| (x.clone(), self.neg(y))) }
    fn pmul(&self, a: &Pt, k: &BigUint) -> Pt { let mut r = None; for i in (0..k.bits()).rev() { r = self.psum(&r, &r); if k.bit(i) { r = self.psum(&r, a) } } r }
}
fn bl(b: &[u8]) -> BigUint { BigUint::from_bytes_le(b) }
trait Fe: Copy { fn e(&self) -> E; fn of(e: &E) -> Self; const D: usize; fn rawlen() -> usize { 32 * Self::D } }
macro_rules! fe1 { ($t:ty) => { impl Fe for $t { const D: usize = 1; fn e(&self) -> E { (bl(self.to_repr().as_ref()), BigUint::from(0u64)) } fn of(e: &E) -> Self { <$t>::from_repr(le32(&e.0)).unwrap() } } } }
fe1!(halo2curves::bn256::Fq);
fe1!(halo2curves::secp256k1::Fp);
impl Fe for halo2curves::bn256::Fq2 { const D: usize = 2; fn e(&self) -> E { (self.c0.e().0, self.c1.e().0) } fn of(e: &E) -> Self { halo2curves::bn256::Fq2 { c0: Fe::of(&(e.0.clone(), BigUint::from(0u64))), c1: Fe::of(&(e.1.clone(), BigUint::from(0u64))) } } }
fn sgn(y: &E) -> bool { if y.0 != BigUint::from(0u64) { y.0.bit(0) } else { y.1.bit(0) } }
macro_rules! curve { ($m:ident, $j:ty, $a:ty, $b:ty, $s:ty, $n:expr, $p:expr, $bc:expr, $ord:expr, $h:expr, $tag:expr) => { mod $m {
    use super::*;
    type J = $j; type A = $a; type B = $b; type S = $s;
    fn oracle() -> Or { let p = big($p); let bc = $bc; let b = if B::D == 2 { let i = BigUint::from(82u64).modpow(&(&p - 2u64), &p); ((BigUint::from(27u64) * &i) % &p, ((&p - 3u64) * &i) % &p) } else { (BigUint::from(bc as u64), BigUint::from(0u64)) }; Or { p, b, ext: B::D == 2 } }
    fn pt(a: &A) -> Pt { let c = (a.x.e(), a.y.e()); let z = (BigUint::from(0u64), BigUint::from(0u64)); if c.0 == z && c.1 == z { None } else { Some(c) } }
    fn ptj(o: &Or, a: &J) -> Pt { let (x, y, z) = a.jacobian_coordinates(); let ze = z.e(); if ze == (BigUint::from(0u64), BigUint::from(0u64)) { return None } let i = o.inv(&ze); let i2 = o.mul(&i, &i); Some((o.mul(&x.e(), &i2), o.mul(&y.e(), &o.mul(&i2, &i)))) }
    fn mk_a(p: &Pt) -> A { match p { None => A { x: B::zero(), y: B::zero() }, Some((x, y)) => A { x: B::of(x), y: B::of(y) } } }
    fn mk_j(g: &mut Rng, o: &Or, p: &Pt) -> J {
        let rz = |g: &mut Rng| -> E { loop { let e = (edge(g, &o.p) % &o.p, if B::D == 2 { edge(g, &o.p) % &o.p } else { BigUint::from(0u64) }); if e != (BigUint::from(0u64), BigUint::from(0u64)) { return e } } };
        match p {
            None => { if g.below(2) == 0 { J::new_jacobian(B::zero(), B::zero(), B::zero()).unwrap() } else { let (x, y) = (rz(g), rz(g)); J::new_jacobian(B::of(&x), B::of(&y), B::zero()).unwrap() } }
            Some((x, y)) => { let z = match g.below(3) { 0 => (BigUint::from(1u64), BigUint::from(0u64)), _ => rz(g) }; let z2 = o.mul(&z, &z); J::new_jacobian(B::of(&o.mul(x, &z2)), B::of(&o.mul(y, &o.mul(&z2, &z))), B::of(&z)).unwrap() }
        }
    }
    fn sc(g: &mut Rng, r: &BigUint, pool: &[BigUint]) -> BigUint { if !pool.is_empty() && g.below(3) == 0 { return &pool[g.below(pool.len())] % r } edge(g, r) % r }
    fn to_s(k: &BigUint) -> S { S::from_repr(le32(k)).unwrap() }
    pub fn law(a: &Args) -> u64 {
        let o = oracle(); let r = big($ord); let mut g = Rng(a.seed ^ 0xc0);
        let gen = pt(&A::generator());
        let t = $tag;
        let (gx, gy) = gen.clone().unwrap();
        if !o.on(&gx, &gy) || o.pmul(&gen, &r).is_some() || ptj(&o, &J::generator()) != gen { fail(&format!("{}: generator", t), "") }
        if <J as CurveExt>::b().e() != o.b || <A as CurveAffine>::b().e() != o.b { fail(&format!("{}: b", t), "") }
        // pool of curve points: multiples of the generator and (for a cofactor) other points
        let mut pts: Vec<Pt> = vec![None, gen.clone()];
        for i in 2..8u64 { pts.push(o.pmul(&gen, &BigUint::from(i))) }
        for _ in 0..6 { let k = sc(&mut g, &r, &a.pool); pts.push(o.pmul(&gen, &k)) }
        pts.push(o.pneg(&gen));
        let mut found = 0; let mut xi = 1u64;
        while found < 4 { let x: E = (BigUint::from(xi), BigUint::from(if B::D == 2 { xi % 3 } else { 0 })); xi += 1; let f = o.rhs(&x); if o.is_sq(&f) { if let Some(y) = Option::<B>::from(B::of(&f).sqrt()) { if o.on(&x, &y.e()) { pts.push(Some((x, y.e()))); found += 1 } else { fail(&format!("{}: sqrt", t), &format!("{:?}", x)) } } else { fail(&format!("{}: sqrt of a square is None", t), &format!("{:?}", x)); found += 1 } } }
        let mut n = 0;
        for it in 0..a.iters {
            let p = pts[g.below(pts.len())].clone();
            let q = match g.below(5) { 0 => p.clone(), 1 => o.pneg(&p), _ => pts[g.below(pts.len())].clone() };
            let (pj, qj, pa, qa) = (mk_j(&mut g, &o, &p), mk_j(&mut g, &o, &q), mk_a(&p), mk_a(&q));
            let s = o.psum(&p, &q); let d = o.psum(&p, &o.pneg(&q));
            let inp = format!("{}: P = {:?}, Q = {:?}", t, pj, qj);
            let mut ck = |what: &str, v: &J, w: &Pt| if ptj(&o, v) != *w { fail(&format!("{}: {}", t, what), &inp) };
            ck("J + J", &(pj + qj), &s); ck("&J + &J", &(&pj + &qj), &s); ck("J + A", &(pj + qa), &s); ck("A + J", &(pa + qj), &s); ck("A + A", &(pa + qa), &s);
            ck("J - J", &(pj - qj), &d); ck("J - A", &(pj - qa), &d); ck("A - J", &(pa - qj), &d); ck("A - A", &(pa - qa), &d);
            { let mut x = pj; x += qj; ck("J += J", &x, &s); let mut x = pj; x += qa; ck("J += A", &x, &s); let mut x = pj; x -= qj; ck("J -= J", &x, &d); let mut x = pj; x -= qa; ck("J -= A", &x, &d); }
            ck("double", &pj.double(), &o.psum(&p, &p)); ck("neg", &(-pj), &o.pneg(&p)); ck("to_curve", &pa.to_curve(), &p);
            if pt(&pj.to_affine()) != p { fail(&format!("{}: to_affine", t), &inp) }
            if pt(&(-pa)) != o.pneg(&p) { fail(&format!("{}: affine neg", t), &inp) }
            if (pj == qj) != (p == q) || bool::from(pj.ct_eq(&qj)) != (p == q) || (pa == qa) != (p == q) || bool::from(pa.ct_eq(&qa)) != (p == q) { fail(&format!("{}: equality", t), &inp) }
            if bool::from(pj.is_identity()) != p.is_none() || bool::from(pa.is_identity()) != p.is_none() { fail(&format!("{}: is_identity", t), &inp) }
            if !bool::from(CurveExt::is_on_curve(&pj)) || !bool::from(CurveAffine::is_on_curve(&pa)) { fail(&format!("{}: is_on_curve", t), &inp) }
            let bad = A { x: pa.x, y: pa.y + B::one() };
            { let (bx, by) = (bad.x.e(), bad.y.e()); if bool::from(CurveAffine::is_on_curve(&bad)) != o.on(&bx, &by) || bool::from(A::from_xy(bad.x, bad.y).is_some()) != o.on(&bx, &by) { fail(&format!("{}: is_on_curve off the curve", t), &inp) } }
            if it % 4 == 0 {
                let k = sc(&mut g, &r, &a.pool); let ks = to_s(&k);
                let w = o.pmul(&p, &k);
                ck(&format!("J * {:x}", k), &(pj * ks), &w); ck(&format!("A * {:x}", k), &(pa * ks), &w);
                let l = g.below(9);
                let ps: Vec<Pt> = (0..l).map(|_| pts[g.below(pts.len())].clone()).collect();
                let js: Vec<J> = ps.iter().map(|p| mk_j(&mut g, &o, p)).collect();
                let mut out = vec![A::generator(); l];
                match catch(std::panic::AssertUnwindSafe(|| J::batch_normalize(&js, &mut out))) { None => fail(&format!("{}: batch_normalize panics", t), &format!("{:?}", js)), Some(()) => for i in 0..l { if pt(&out[i]) != ps[i] { fail(&format!("{}: batch_normalize entry", t), &format!("{} of {:?}", i, js)) } } }
                let sum: J = js.iter().sum(); let w = ps.iter().fold(None, |x, y| o.psum(&x, y));
                ck("sum", &sum, &w);
                if ptj(&o, &J::conditional_select(&pj, &qj, Choice::from((it / 4 % 2) as u8))) != if it / 4 % 2 == 1 { q.clone() } else { p.clone() } { fail(&format!("{}: select", t), &inp) }
            }
            if it % 16 == 0 {
                let tf = o.pmul(&p, &r).is_none();
                if bool::from(pj.is_torsion_free()) != tf { fail(&format!("{}: is_torsion_free", t), &inp) }
                let c = ptj(&o, &pj.clear_cofactor());
                if o.pmul(&c, &r).is_some() { fail(&format!("{}: clear_cofactor leaves the subgroup", t), &inp) }
            }
            n += 1;
        }
        n
    }
    fn enc(p: &Pt) -> [u8; $n] { let mut o = [0u8; $n]; if let Some((x, y)) = p { o[..32].copy_from_slice(&le32(&x.0)); if B::D == 2 { o[32..64].copy_from_slice(&le32(&x.1)); } if sgn(y) { o[$n - 1] |= 0x80 } } o }
    fn dec(o: &Or, b: &[u8; $n]) -> Option<Pt> {
        let mut t = *b; let s = t[$n - 1] >> 7 == 1; t[$n - 1] &= 0x7f;
        let x: E = (bl(&t[..32]), if B::D == 2 { bl(&t[32..64]) } else { BigUint::from(0u64) });
        if x.0 >= o.p || x.1 >= o.p || t[32 * B::D..].iter().any(|v| *v != 0) { return None }
        if x == (BigUint::from(0u64), BigUint::from(0u64)) && !s { return Some(None) }
        let f = o.rhs(&x); if !o.is_sq(&f) { return None }
        let y = Option::<B>::from(B::of(&f).sqrt())?.e();
        if o.mul(&y, &y) != f { return None }
        Some(Some((x, if sgn(&y) == s { y } else { o.neg(&y) })))
    }
    fn rep(b: &[u8; $n]) -> <A as GroupEncoding>::Repr { let mut r = <A as GroupEncoding>::Repr::default(); r.as_mut().copy_from_slice(b); r }
    pub fn codec(a: &Args) -> u64 {
        let o = oracle(); let r = big($ord); let mut g = Rng(a.seed ^ 0xc1); let t = $tag;
        let gen = pt(&A::generator());
        let mut pts: Vec<Pt> = vec![None, gen.clone(), o.pneg(&gen)];
        for _ in 0..12 { let k = sc(&mut g, &r, &a.pool); pts.push(o.pmul(&gen, &k)) }
        if B::D == 2 { // points whose y has c0 = 0 or c1 = 0
            let mut xi = 0u64; let mut found = 0;
            while found < 3 && xi < 2000 { xi += 1; let y: E = if xi % 2 == 0 { (BigUint::from(0u64), BigUint::from(xi)) } else { (BigUint::from(xi), BigUint::from(0u64)) };
                let c = o.sub(&o.mul(&y, &y), &o.b); // x^3 = c
                let q2 = &o.p * &o.p - 1u64; let mut th = q2.clone(); let mut three = 0; while (&th % 3u64) == BigUint::from(0u64) { th = &th / 3u64; three += 1 }
                let one = (BigUint::from(1u64), BigUint::from(0u64));
                if o.pow(&c, &(&q2 / 3u64)) != one { continue }
                // c^(k) with 3k = 1 mod th, times a correction by brute force over 3^three-th roots
                let k = { let m = &th % 3u64; let inv = if m == BigUint::from(1u64) { (&th * 2u64 + 1u64) / 3u64 } else { (&th + 1u64) / 3u64 }; inv };
                let x0 = o.pow(&c, &k);
                let mut z = (BigUint::from(2u64), BigUint::from(1u64)); while o.pow(&z, &(&q2 / 3u64)) == one { z.0 += 1u64 }
                let z = o.pow(&z, &th); let mut x = x0; for _ in 0..(3u64.pow(three)) { if o.mul(&x, &o.mul(&x, &x)) == c { pts.push(Some((x.clone(), y.clone()))); pts.push(Some((x.clone(), o.neg(&y)))); found += 1; break } x = o.mul(&x, &z) }
            }
        }
        let mut n = 0;
        for it in 0..a.iters {
            let p = pts[g.below(pts.len())].clone();
            let (pa, pj) = (mk_a(&p), mk_j(&mut g, &o, &p));
            let e = enc(&p); let inp = format!("{}: {:?} {:02x?}", t, p, e);
            if pa.to_bytes().as_ref() != &e[..] || pj.to_bytes().as_ref() != &e[..] { fail(&format!("{}: to_bytes", t), &inp) }
            // decode: valid, perturbed and arbitrary strings
            let mut b = e;
            match g.below(6) { 0 => {} 1 => { let i = g.below($n); b[i] ^= 1 << g.below(8) } 2 => { b[$n - 1] ^= 0x80 } 3 => { let i = g.below(8); b[$n - 1] ^= 1 << i }
                4 => { for c in 0..B::D { let v = bl(&b[32 * c..32 * c + 32]) + &o.p; if v.bits() <= 256 && g.below(2) == 0 { b[32 * c..32 * c + 32].copy_from_slice(&le32(&v)) } } }
                _ => { for c in 0..B::D { b[32 * c..32 * c + 32].copy_from_slice(&le32(&edge(&mut g, &o.p))) } if $n % 32 != 0 { b[$n - 1] = [0, 0x80, 1, 0x40, 0xff][g.below(5)] } } }
            let w = dec(&o, &b); let di = format!("{}: {:02x?}", t, b);
            match catch(|| Option::<A>::from(A::from_bytes(&rep(&b)))) { None => fail(&format!("{}: from_bytes panics", t), &di), Some(v) => { if v.as_ref().map(pt) != w { fail(&format!("{}: from_bytes", t), &di) } if let Some(v) = v { if v.to_bytes().as_ref() != &b[..] { fail(&format!("{}: two encodings of one point", t), &di) } } } }
            match catch(|| Option::<J>::from(J::from_bytes(&{ let mut r = <J as GroupEncoding>::Repr::default(); r.as_mut().copy_from_slice(&b); r }))) { None => fail(&format!("{}: J::from_bytes panics", t), &di), Some(v) => if v.as_ref().map(|v| ptj(&o, v)) != w { fail(&format!("{}: J::from_bytes", t), &di) } }
            // raw format
            let rl = B::rawlen();
            let mut ra = pa.to_raw_bytes(); let mut rj = pj.to_raw_bytes();
            if ra.len() != 2 * rl || rj.len() != 3 * rl { fail(&format!("{}: to_raw_bytes length", t), &inp); continue }
            { let mut o2: Vec<u8> = vec![]; pa.write_raw(&mut o2).unwrap(); let mut o3: Vec<u8> = vec![]; pj.write_raw(&mut o3).unwrap(); if o2 != ra || o3 != rj { fail(&format!("{}: write_raw", t), &inp) } }
            match g.below(4) { 0 => {} 1 => { let i = g.below(ra.len()); ra[i] ^= 1; let i = g.below(rj.len()); rj[i] ^= 1 } 2 => { let k = g.below(4) + 1; ra.truncate(ra.len() - k); rj.truncate(rj.len() - k) } _ => { let v = le32(&edge(&mut g, &o.p)); ra[..32].copy_from_slice(&v); rj[rl..rl + 32].copy_from_slice(&v) } }
            let canon = |v: &[u8]| v.chunks(32).all(|c| bl(c) < o.p);
            let rinv = (BigUint::from(1u64) << 256u32).modpow(&(&o.p - 2u64), &o.p);
            let co = |v: &[u8]| -> Vec<E> { v.chunks(rl).map(|c| ((bl(&c[..32]) * &rinv) % &o.p, if B::D == 2 { (bl(&c[32..]) * &rinv) % &o.p } else { BigUint::from(0u64) })).collect() };
            let z0 = (BigUint::from(0u64), BigUint::from(0u64));
            let oka = ra.len() == 2 * rl && canon(&ra) && { let c = co(&ra); o.on(&c[0], &c[1]) || (c[0] == z0 && c[1] == z0) };
            let okj = rj.len() == 3 * rl && canon(&rj) && { let c = co(&rj); c[2] == z0 || { let z2 = o.mul(&c[2], &c[2]); let z6 = o.mul(&z2, &o.mul(&z2, &z2)); o.mul(&c[1], &c[1]) == o.add(&o.mul(&c[0], &o.mul(&c[0], &c[0])), &o.mul(&o.b, &z6)) } };
            let (ia, ij) = (format!("{}: {:02x?}", t, ra), format!("{}: {:02x?}", t, rj));
            match catch(|| A::from_raw_bytes(&ra)) { None => fail(&format!("{}: from_raw_bytes panics", t), &ia), Some(v) => if v.is_some() != oka || v.map_or(false, |v| v.to_raw_bytes() != ra) { fail(&format!("{}: from_raw_bytes", t), &ia) } }
            match catch(|| J::from_raw_bytes(&rj)) { None => fail(&format!("{}: J::from_raw_bytes panics", t), &ij), Some(v) => if v.is_some() != okj || v.map_or(false, |v| v.to_raw_bytes() != rj) { fail(&format!("{}: J::from_raw_bytes", t), &ij) } }
            match catch(|| { let mut rd = &ra[..]; A::read_raw(&mut rd) }) { None => fail(&format!("{}: read_raw panics", t), &ia), Some(v) => if v.is_ok() != oka || v.map_or(false, |v| v.to_raw_bytes() != ra) { fail(&format!("{}: read_raw", t), &ia) } }
            match catch(|| { let mut rd = &rj[..]; J::read_raw(&mut rd) }) { None => fail(&format!("{}: J::read_raw panics", t), &ij), Some(v) => if v.is_ok() != okj || v.map_or(false, |v| v.to_raw_bytes() != rj) { fail(&format!("{}: J::read_raw", t), &ij) } }
            n += 1; let _ = it;
        }
        n
    }
} } }
curve!(g1, halo2curves::bn256::G1, halo2curves::bn256::G1Affine, halo2curves::bn256::Fq, halo2curves::bn256::Fr, 32, "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", 3, "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", 1, "G1");
curve!(g2, halo2curves::bn256::G2, halo2curves::bn256::G2Affine, halo2curves::bn256::Fq2, halo2curves::bn256::Fr, 64, "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", 0, "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", 2, "G2");
curve!(secp, halo2curves::secp256k1::Secp256k1, halo2curves::secp256k1::Secp256k1Affine, halo2curves::secp256k1::Fp, halo2curves::secp256k1::Fq, 33, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 7, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 1, "secp256k1");
fn main() {
    let a = args();
    quiet(); guard(60, 8);
    let mut n = 0;
    match a.rest[0].as_str() {
        "law" => { n += g1::law(&a); n += g2::law(&a); n += secp::law(&a); done(n, "group law of G1, G2 and secp256k1 against affine big-integer arithmetic") }
        _ => { n += g1::codec(&a); n += g2::codec(&a); n += secp::codec(&a); done(n, "compressed and raw point encodings against a byte-level reference") }
    }
}
