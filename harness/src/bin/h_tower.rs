use ff::{Field, PrimeField};
use group::{Curve, Group};
use group::prime::PrimeCurveAffine;
use halo2curves::bn256::*;
use halo2curves::pairing::*;
use halo2curves::serde::SerdeObject;
use halo2curves::FieldExt;
use harness::*;
use num_bigint::BigUint;
use subtle::*;
// ---- oracle: Fq[w]/(w^12 - 18 w^6 + 82)
type W = Vec<BigUint>;
struct O { p: BigUint, frob: Vec<Vec<W>> }
fn zero() -> W { vec![BigUint::from(0u64); 12] }
impl O {
    fn mul(&self, a: &W, b: &W) -> W {
        let mut r = vec![BigUint::from(0u64); 23];
        for i in 0..12 { if a[i] != BigUint::from(0u64) { for j in 0..12 { r[i + j] += &a[i] * &b[j]; } } }
        for i in (12..23).rev() { let c = &r[i] % &self.p; r[i - 6] += &c * 18u64; r[i - 12] += (&self.p - &c) * 82u64; }
        r[..12].iter().map(|x| x % &self.p).collect()
    }
    fn pow(&self, a: &W, e: &BigUint) -> W {
        let mut r = zero(); r[0] = BigUint::from(1u64);
        for i in (0..e.bits()).rev() { r = self.mul(&r, &r); if e.bit(i) { r = self.mul(&r, a); } }
        r
    }
    fn add(&self, a: &W, b: &W) -> W { (0..12).map(|i| (&a[i] + &b[i]) % &self.p).collect() }
    fn neg(&self, a: &W) -> W { (0..12).map(|i| (&self.p - &a[i]) % &self.p).collect() }
    fn frob(&self, a: &W, k: usize) -> W {
        let mut r = zero();
        for i in 0..12 { for j in 0..12 { r[j] = (&r[j] + &a[i] * &self.frob[k % 12][i][j]) % &self.p; } }
        r
    }
    fn new(p: &str) -> O {
        let mut o = O { p: big(p), frob: vec![] };
        let mut g = zero(); g[1] = BigUint::from(1u64);
        for _ in 0..12 {
            let mut one = zero(); one[0] = BigUint::from(1u64);
            let mut im = vec![one];
            for i in 0..11 { let n = o.mul(&im[i], &g); im.push(n); }
            o.frob.push(im);
            let pp = o.p.clone(); g = o.pow(&g, &pp);
        }
        o
    }
}
trait El: Copy + core::fmt::Debug + Field + ConstantTimeEq + ConditionallySelectable { const D: usize; fn mk(c: &[Fq]) -> Self; fn co(&self) -> Vec<Fq>; fn frobm(&mut self, k: usize); fn ma(&mut self, o: &Self); fn sa(&mut self); fn da(&mut self); }
impl El for Fq2 { const D: usize = 2; fn mk(c: &[Fq]) -> Self { Fq2 { c0: c[0], c1: c[1] } } fn co(&self) -> Vec<Fq> { vec![self.c0, self.c1] } fn frobm(&mut self, k: usize) { self.frobenius_map(k) } fn ma(&mut self, o: &Self) { Fq2::mul_assign(self, o) } fn sa(&mut self) { self.square_assign() } fn da(&mut self) { self.double_assign() } }
impl El for Fq6 { const D: usize = 6; fn mk(c: &[Fq]) -> Self { Fq6 { c0: Fq2::mk(&c[0..2]), c1: Fq2::mk(&c[2..4]), c2: Fq2::mk(&c[4..6]) } } fn co(&self) -> Vec<Fq> { [self.c0.co(), self.c1.co(), self.c2.co()].concat() } fn frobm(&mut self, k: usize) { self.frobenius_map(k) } fn ma(&mut self, o: &Self) { Fq6::mul_assign(self, o) } fn sa(&mut self) { self.square_assign() } fn da(&mut self) { self.double_assign() } }
impl El for Fq12 { const D: usize = 12; fn mk(c: &[Fq]) -> Self { Fq12 { c0: Fq6::mk(&c[..6]), c1: Fq6::mk(&c[6..]) } } fn co(&self) -> Vec<Fq> { [self.c0.co(), self.c1.co()].concat() } fn frobm(&mut self, k: usize) { self.frobenius_map(k) } fn ma(&mut self, o: &Self) { Fq12::mul_assign(self, o) } fn sa(&mut self) { self.square_assign() } fn da(&mut self) { self.double_assign() } }
fn val(f: &Fq) -> BigUint { BigUint::from_bytes_le(f.to_repr().as_ref()) }
fn slot(d: usize, i: usize) -> (usize, bool) { match d { 2 => (0, i == 1), 6 => (2 * (i / 2), i % 2 == 1), _ => { let (a, b) = (i / 6, i % 6); (2 * (b / 2) + a, b % 2 == 1) } } }
fn w<E: El>(o: &O, e: &E) -> W {
    let mut r = zero();
    for (i, c) in e.co().iter().enumerate() { let (m, u) = slot(E::D, i); let v = val(c); if u { r[m + 6] += &v; r[m] += (&o.p - &v) * 9u64; } else { r[m] += v; } }
    r.iter().map(|x| x % &o.p).collect()
}
fn coord(r: &mut Rng, p: &BigUint) -> Fq {
    match r.below(10) { 0 | 1 => Fq::zero(), 2 => Fq::one(), 3 => -Fq::one(), 4 => Fq::from(r.u64() % 16), _ => Fq::from_repr(le32(&(edge(r, p) % p))).unwrap() }
}
fn rnd<E: El>(r: &mut Rng, p: &BigUint) -> E {
    let dense = r.below(3);
    E::mk(&(0..E::D).map(|_| match dense { 0 => Fq::random(&mut *r), 1 => coord(r, p), _ => if r.below(3) == 0 { coord(r, p) } else { Fq::zero() } }).collect::<Vec<_>>())
}
fn tower<E: El>(n: &str, o: &O, a: &Args) -> u64 {
    let mut g = Rng(a.seed ^ E::D as u64);
    for i in 0..a.iters {
        let (x, y): (E, E) = (rnd(&mut g, &o.p), if i % 7 == 0 { E::zero() } else { rnd(&mut g, &o.p) });
        let y = if i % 11 == 0 { x } else if i % 13 == 0 { -x } else { y };
        let (wx, wy) = (w(o, &x), w(o, &y));
        let inp = format!("x={:?} y={:?}", x, y);
        case(inp.clone());
        let ck = |op: &str, got: &E, want: &W| if &w(o, got) != want { fail(&format!("{}.{}", n, op), &inp) };
        ck("add", &(x + y), &o.add(&wx, &wy)); ck("sub", &(x - y), &o.add(&wx, &o.neg(&wy))); ck("neg", &(-x), &o.neg(&wx));
        let m = o.mul(&wx, &wy); ck("mul", &(x * y), &m);
        { let mut t = x; t *= y; ck("mul_assign", &t, &m); let mut t = x; t.ma(&y); ck("mul_assign", &t, &m); let mut t = x; t += y; ck("add_assign", &t, &o.add(&wx, &wy)); let mut t = x; t -= y; ck("sub_assign", &t, &o.add(&wx, &o.neg(&wy))); }
        let s = o.mul(&wx, &wx); ck("square", &x.square(), &s); { let mut t = x; t.sa(); ck("square_assign", &t, &s); }
        let d = o.add(&wx, &wx); ck("double", &x.double(), &d); { let mut t = x; t.da(); ck("double_assign", &t, &d); }
        let z = wx.iter().all(|c| *c == BigUint::from(0u64));
        if bool::from(x.is_zero()) != z || x.is_zero_vartime() != z { fail(&format!("{}.is_zero", n), &inp) }
        if (x == y) != (wx == wy) || bool::from(x.ct_eq(&y)) != (wx == wy) { fail(&format!("{}.eq", n), &inp) }
        for c in [0u8, 1] { ck("select", &E::conditional_select(&x, &y, Choice::from(c)), if c == 1 { &wy } else { &wx }) }
        let k = if g.below(4) == 0 { (g.u64() >> g.below(60)) as usize } else { g.below(26) };
        { let mut t = x; t.frobm(k); if w(o, &t) != o.frob(&wx, k % 12) { fail(&format!("{}.frobenius_map", n), &format!("power={} {}", k, inp)) } }
        let iv: Option<E> = x.invert().into();
        match iv { Some(t) => { let mut one = zero(); one[0] = BigUint::from(1u64); if o.mul(&w(o, &t), &wx) != one { fail(&format!("{}.invert", n), &inp) } }, None => if !z { fail(&format!("{}.invert of non-zero is None", n), &inp) } }
        if z && bool::from(x.invert().is_some()) { fail(&format!("{}.invert(0)", n), &inp) }
    }
    a.iters
}
fn extra(o: &O, a: &Args) -> u64 {
    let mut g = Rng(a.seed ^ 99);
    let e = |k: usize| { let mut z = zero(); z[k] = BigUint::from(1u64); z };
    let mut n = 0;
    for i in 0..a.iters {
        let x2: Fq2 = rnd(&mut g, &o.p); let c: Vec<Fq2> = (0..3).map(|_| rnd(&mut g, &o.p)).collect();
        let x6: Fq6 = rnd(&mut g, &o.p); let x12: Fq12 = rnd(&mut g, &o.p);
        let inp = format!("x2={:?} x6={:?} x12={:?} c={:?}", x2, x6, x12, c);
        case(inp.clone()); n += 1;
        macro_rules! ck { ($n:expr, $v:expr, $w:expr) => { if w(o, &$v) != $w { fail($n, &inp) } } }
        { let mut t = x2; t.conjugate(); ck!("fq2.conjugate", t, o.frob(&w(o, &x2), 1)); }
        { let mut t = x2; t.mul_by_nonresidue(); ck!("fq2.mul_by_nonresidue", t, o.mul(&w(o, &x2), &e(6))); }
        { let mut t = x2; t.mul_by_xi(); ck!("fq2.mul_by_xi", t, o.mul(&w(o, &x2), &e(6))); }
        if w(o, &Fq2 { c0: x2.norm(), c1: Fq::zero() }) != o.mul(&w(o, &x2), &o.frob(&w(o, &x2), 1)) { fail("fq2.norm", &inp) }
        { let mut t = x6; t.mul_by_nonresidue(); ck!("fq6.mul_by_nonresidue", t, o.mul(&w(o, &x6), &e(2))); }
        { let mut t = x6; t.mul_by_v(); ck!("fq6.mul_by_v", t, o.mul(&w(o, &x6), &e(2))); }
        let cw: Vec<W> = c.iter().map(|z| w(o, z)).collect();
        let sp = |l: &[(usize, usize)]| { let mut s = zero(); for (k, pw) in l { s = o.add(&s, &o.mul(&cw[*k], &e(*pw))); } s };
        { let mut t = x6; t.mul_by_1(&c[0]); ck!("fq6.mul_by_1", t, o.mul(&w(o, &x6), &sp(&[(0, 2)]))); }
        { let mut t = x6; t.mul_by_01(&c[0], &c[1]); ck!("fq6.mul_by_01", t, o.mul(&w(o, &x6), &sp(&[(0, 0), (1, 2)]))); }
        { let mut t = x12; t.mul_by_014(&c[0], &c[1], &c[2]); ck!("fq12.mul_by_014", t, o.mul(&w(o, &x12), &sp(&[(0, 0), (1, 2), (2, 3)]))); }
        { let mut t = x12; t.mul_by_034(&c[0], &c[1], &c[2]); ck!("fq12.mul_by_034", t, o.mul(&w(o, &x12), &sp(&[(0, 0), (1, 1), (2, 3)]))); }
        { let mut t = x12; t.conjugate(); ck!("fq12.conjugate", t, o.frob(&w(o, &x12), 6)); }
        if !bool::from(x12.is_zero()) {
            let mut f = x12; f.conjugate(); let f = f * x12.invert().unwrap(); let mut h = f; h.frobenius_map(2); let h = h * f;
            let mut t = h; t.cyclotomic_square(); if t != h * h { fail("fq12.cyclotomic_square", &format!("{:?}", h)) }
        }
        if i % 8 == 0 {
            let s: Option<Fq2> = x2.sqrt().into();
            let nr = val(&x2.norm()).modpow(&((&o.p - 1u64) >> 1u32), &o.p);
            let is_sq = nr <= BigUint::from(1u64);
            match s { Some(t) => if t * t != x2 { fail("fq2.sqrt", &inp) } else if !is_sq { fail("fq2.sqrt of non-residue", &inp) }, None => if is_sq { fail("fq2.sqrt of a square is None", &inp) } }
            let s: Option<Fq2> = (x2 * x2).sqrt().into(); match s { Some(t) => if t != x2 && t != -x2 { fail("fq2.sqrt(x^2)", &inp) }, None => fail("fq2.sqrt(x^2) is None", &inp) }
            let ex = edge(&mut g, &o.p); let d = ex.to_u64_digits(); let mut el = [0u64; 4]; el[..d.len()].copy_from_slice(&d);
            ck!("fq2.pow", FieldExt::pow(&x2, &el), o.pow(&w(o, &x2), &ex));
            ck!("fq2.pow_vartime", x2.pow_vartime(el), o.pow(&w(o, &x2), &ex));
        }
    }
    n
}
fn codecs(o: &O, a: &Args) -> u64 {
    let mut g = Rng(a.seed ^ 9);
    let mut n = 0;
    for _ in 0..a.iters * 8 {
        n += 1;
        let x2: Fq2 = rnd(&mut g, &o.p); let inp = format!("{:?}", x2);
        case(inp.clone());
        let b = x2.to_bytes();
        if b[..32] != le32(&val(&x2.c0)) || b[32..] != le32(&val(&x2.c1)) || x2.to_repr().as_ref() != &b[..] { fail("fq2.to_bytes", &inp) }
        let (r0, r1) = (edge(&mut g, &o.p), edge(&mut g, &o.p));
        let mut raw = [0u8; 64]; raw[..32].copy_from_slice(&le32(&r0)); raw[32..].copy_from_slice(&le32(&r1));
        let canon = r0 < o.p && r1 < o.p; let ri = format!("bytes c0={:x} c1={:x}", r0, r1);
        match catch(|| Option::<Fq2>::from(Fq2::from_bytes(&raw))) { None => fail("fq2.from_bytes panics", &ri), Some(v) => if v.is_some() != canon || v.map_or(false, |v| val(&v.c0) != r0 || val(&v.c1) != r1) { fail("fq2.from_bytes", &ri) } }
        let mut rp = <Fq2 as PrimeField>::Repr::default(); rp.as_mut().copy_from_slice(&raw);
        match catch(|| Option::<Fq2>::from(Fq2::from_repr(rp))) { None => fail("fq2.from_repr panics", &ri), Some(v) => if v.is_some() != canon || v.map_or(false, |v| val(&v.c0) != r0 || val(&v.c1) != r1) { fail("fq2.from_repr", &ri) } }
        match Fq2::from_raw_bytes(&raw) { Some(v) => if !canon || v.to_raw_bytes() != raw { fail("fq2.from_raw_bytes", &ri) }, None => if canon { fail("fq2.from_raw_bytes", &ri) } }
        { let mut rd = &raw[..]; match Fq2::read_raw(&mut rd) { Ok(v) => if !canon || v.to_raw_bytes() != raw || !rd.is_empty() { fail("fq2.read_raw", &ri) }, Err(_) => if canon { fail("fq2.read_raw", &ri) } } }
        { let mut o2: Vec<u8> = vec![]; x2.write_raw(&mut o2).unwrap(); if o2 != x2.to_raw_bytes() || Fq2::from_raw_bytes(&o2) != Some(x2) { fail("fq2.write_raw", &inp) } }
        let y2: Fq2 = rnd(&mut g, &o.p);
        let key = |t: &Fq2| (val(&t.c1), val(&t.c0));
        if x2.cmp(&y2) != key(&x2).cmp(&key(&y2)) || x2.partial_cmp(&y2) != Some(x2.cmp(&y2)) { fail("fq2.cmp", &format!("{:?} {:?}", x2, y2)) }
        { let (a, b) = (val(&x2.c0), val(&x2.c1)); let zero = x2.c0 == halo2curves::bn256::Fq::zero();
          if bool::from(x2.is_odd()) != (a.bit(0) || (zero && b.bit(0))) { fail("fq2.is_odd", &inp) } }
    }
    n
}
fn pairing_checks(o: &O, a: &Args) -> u64 {
    let mut g = Rng(a.seed ^ 5);
    let (g1, g2) = (G1::generator(), G2::generator());
    let one = Gt::identity();
    let e0 = Bn256::pairing(&G1Affine::from(g1), &G2Affine::from(g2));
    if e0 == one { fail("pairing of the generators is one", "g1, g2"); }
    if e0 * &Fr::zero() != one || (e0 * &(-Fr::one())) + e0 != one { fail("pairing result is not in the order-r group", "g1, g2"); }
    let p = big("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001");
    let scalar = |g: &mut Rng| Fr::from_repr(le32(&(edge(g, &p) % &p))).unwrap();
    let mut n = 0;
    for i in 0..a.iters {
        let (x, y) = (scalar(&mut g), scalar(&mut g)); let z = scalar(&mut g);
        let inp = format!("x={:?} y={:?} z={:?}", x, y, z); case(inp.clone()); n += 1;
        let (px, qy) = ((g1 * x).to_affine(), (g2 * y).to_affine());
        let pz = (g1 * z).to_affine();
        let r = match catch(|| Bn256::pairing(&px, &qy)) { Some(r) => r, None => { fail("pairing panics", &inp); continue } };
        if r != e0 * &(x * y) { fail("pairing(xP, yQ) != pairing(P, Q)^(xy)", &inp) }
        if px.pairing_with(&qy) != r || qy.pairing_with(&px) != r { fail("pairing_with", &inp) }
        if (x * y).is_zero_vartime() != bool::from(r.is_identity()) { fail("pairing degenerate", &inp) }
        let (q1, q2) = (G2Prepared::from(qy), G2Prepared::from_affine((g2 * z).to_affine()));
        match catch(|| Bn256::multi_miller_loop(&[(&px, &q1), (&pz, &q2)]).final_exponentiation()) {
            Some(m) => if m != e0 * &(x * y + z * z) { fail("multi_miller_loop of two pairs", &inp) }, None => fail("multi_miller_loop panics", &inp) }
        if i % 4 == 0 {
            let qn = G2Prepared::from_affine(G2Affine::identity()); let pn = G1Affine::identity();
            if Bn256::multi_miller_loop(&[(&px, &qn), (&pn, &q1), (&pz, &q1)]).final_exponentiation() != e0 * &(z * y) { fail("identity pairs do not contribute", &inp) }
            if Bn256::multi_miller_loop(&[]).final_exponentiation() != one { fail("empty product", &inp) }
            if Bn256::pairing(&pn, &qy) != one || Bn256::pairing(&px, &G2Affine::identity()) != one { fail("pairing with the identity", &inp) }
        }
        if r + r != r.double() || r - r != one || -r + r != one || Group::double(&r) != r + r || r * &z != e0 * &(x * y * z) { fail("Gt operations", &inp) }
        if (r == e0) != (x * y == Fr::one()) || bool::from(r.ct_eq(&e0)) != (r == e0) { fail("Gt equality", &inp) }
    }
    let _ = o;
    n
}
fn main() {
    quiet(); guard(60, 8);
    let a = args();
    let o = O::new("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47");
    let mut n = 0;
    let run = |nm: &str, f: &dyn Fn() -> u64| match catch(|| f()) { Some(k) => k, None => { fail(&format!("{} panicked", nm), &format!("seed={}", a.seed)); 0 } };
    if a.rest.iter().any(|x| x == "tower") {
        n += run("fq2", &|| tower::<Fq2>("fq2", &o, &a)); n += run("fq6", &|| tower::<Fq6>("fq6", &o, &a)); n += run("fq12", &|| tower::<Fq12>("fq12", &o, &a));
        n += run("extension", &|| extra(&o, &a));
        case_end(); done(n, "edge-biased Fq2/Fq6/Fq12 operands against polynomial arithmetic in Fq[w]");
    } else if a.rest.iter().any(|x| x == "codec") {
        n += run("fq2 codec", &|| codecs(&o, &a));
        case_end(); done(n, "Fq2 encodings, order and sign against a byte-level reference");
    } else {
        n += run("pairing", &|| pairing_checks(&o, &a));
        case_end(); done(n, "bilinearity, non-degeneracy, multi-pair products, identity pairs, target-group operations");
    }
}
