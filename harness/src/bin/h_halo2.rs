use ff::{Field, PrimeField};
use group::{Curve, Group as _, GroupEncoding, prime::PrimeCurveAffine};
use halo2_proofs::arithmetic::*;
use halo2_proofs::plonk::Assigned;
use halo2_proofs::poly::*;
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Fr, G1, G1Affine};
use halo2curves::CurveAffine as CA;
use harness::*;
use num_bigint::BigUint;
fn val(x: &Fr) -> BigUint { BigUint::from_bytes_le(x.to_repr().as_ref()) }
fn md() -> BigUint { val(&(-Fr::one())) + 1u64 }
fn fr(x: &BigUint) -> Fr { Fr::from_repr(le32(x)).unwrap() }
fn rf(r: &mut Rng) -> Fr { let m = md(); fr(&(edge(r, &m) % &m)) }
fn rnd(r: &mut Rng) -> Fr { if r.below(3) == 0 { rf(r) } else { Fr::random(r) } }
fn pw(x: &Fr, mut e: u64) -> Fr { let mut b = *x; let mut o = Fr::one(); while e > 0 { if e & 1 == 1 { o = o * b } b = b * b; e >>= 1 } o }
fn evalp(p: &[Fr], x: &Fr) -> Fr { let mut o = Fr::zero(); let mut w = Fr::one(); for c in p { o = o + *c * w; w = w * x } o }
fn mulp(a: &[Fr], b: &[Fr]) -> Vec<Fr> { if a.is_empty() || b.is_empty() { return vec![] } let mut o = vec![Fr::zero(); a.len() + b.len() - 1]; for i in 0..a.len() { for j in 0..b.len() { o[i + j] = o[i + j] + a[i] * b[j] } } o }
fn smul<C: CA>(k: &C::Scalar, p: &C) -> C::Curve { let b = k.to_repr(); let mut o = C::Curve::identity(); for i in (0..256).rev() { o = o.double(); if b.as_ref()[i / 8] >> (i % 8) & 1 == 1 { o = o + *p } } o }
fn root(k: u32) -> Fr { let mut w = <Fr as PrimeField>::root_of_unity(); for _ in k..Fr::S { w = w * w } w }
fn msm_case<C: CA>(name: &str, r: &mut Rng, n: usize) {
    let m = BigUint::from_bytes_le((-C::Scalar::one()).to_repr().as_ref()) + 1u64;
    let g = C::generator();
    let sc: Vec<C::Scalar> = (0..n).map(|_| { let v = edge(r, &m) % &m; let mut q = <C::Scalar as PrimeField>::Repr::default(); q.as_mut().copy_from_slice(&le32(&v)); C::Scalar::from_repr(q).unwrap() }).collect();
    let mut bs: Vec<C> = vec![];
    for i in 0..n { let b = match r.below(8) { 0 => C::identity(), 1 if i > 0 => bs[r.below(i)], 2 if i > 0 => -bs[r.below(i)], _ => (g * C::Scalar::from(r.u64())).to_affine() }; bs.push(b) }
    let inp = || format!("{} n={} scalars={:?} bases={:?}", name, n, sc, bs);
    case(format!("{} multiexp n={}", name, n));
    let mut want = C::Curve::identity();
    for i in 0..n { want = want + smul::<C>(&sc[i], &bs[i]) }
    match catch(|| best_multiexp(&sc, &bs)) { Some(x) if x == want => {}, x => fail("best_multiexp is not the sum of scalar*base", &format!("{} got {:?}", inp(), x)) }
    match catch(|| small_multiexp(&sc, &bs)) { Some(x) if x == want => {}, x => fail("small_multiexp is not the sum of scalar*base", &format!("{} got {:?}", inp(), x)) }
}
fn poly(a: &Args, r: &mut Rng) {
    let mut cases = 0u64;
    let dbig = EvaluationDomain::<Fr>::new(3, 20);
    for it in 0..a.iters {
        // multi-scalar multiplication
        let n = match r.below(6) { 0 => r.below(5), 1 => 28 + r.below(10), 2 => r.below(70), 3 => r.below(8), _ => r.below(34) };
        let n = if it < 40 { it as usize } else { n };
        msm_case::<G1Affine>("bn256 G1", r, n);
        if it % 7 == 0 { msm_case::<halo2curves::secp256k1::Secp256k1Affine>("secp256k1", r, n.min(6)) }
        // polynomials
        let n = r.below(12); let p: Vec<Fr> = (0..n).map(|_| rnd(r)).collect(); let x = rnd(r);
        let q: Vec<Fr> = (0..n).map(|_| rnd(r)).collect();
        case(format!("eval/inner/kate n={}", n));
        if catch(|| eval_polynomial(&p, x)) != Some(evalp(&p, &x)) { fail("eval_polynomial is not the value of the polynomial", &format!("p={:?} x={:?}", p, x)) }
        let ip = p.iter().zip(&q).fold(Fr::zero(), |s, (a, b)| s + *a * b);
        if catch(|| compute_inner_product(&p, &q)) != Some(ip) { fail("compute_inner_product is not the inner product", &format!("{:?} {:?}", p, q)) }
        if n > 0 {
            let k = catch(|| kate_division(&p, x));
            let ok = k.as_ref().map_or(false, |k| k.len() == n - 1 && { let mut t = mulp(k, &[-x, Fr::one()]); t.resize(n, Fr::zero()); t[0] = t[0] + evalp(&p, &x); t == p });
            if !ok { fail("kate_division is not the quotient by X - b", &format!("p={:?} b={:?} got {:?}", p, x, k)) }
        }
        let np = r.below(8); let mut pts: Vec<Fr> = vec![]; while pts.len() < np { let x = rnd(r); if !pts.contains(&x) { pts.push(x) } }
        let ev: Vec<Fr> = (0..np).map(|_| rnd(r)).collect();
        let l = catch(|| lagrange_interpolate(&pts, &ev));
        if !l.as_ref().map_or(false, |l| l.len() == np && (0..np).all(|i| evalp(l, &pts[i]) == ev[i])) { fail("lagrange_interpolate does not interpolate", &format!("points={:?} evals={:?}", pts, ev)) }
        // fft
        let k = (it % 7) as u32 + if it % 50 == 49 { 4 } else { 0 }; let n = 1usize << k; let w = root(k);
        case(format!("fft k={}", k));
        let v: Vec<Fr> = (0..n).map(|_| rnd(r)).collect();
        let f = catch(|| { let mut b = v.clone(); best_fft(&mut b, w, k); b });
        if !f.as_ref().map_or(false, |f| (0..n).all(|i| (n > 128 && i % 37 != 0) || f[i] == evalp(&v, &pw(&w, i as u64)))) { fail("best_fft is not the evaluation at the powers of omega", &format!("k={} values={:?}", k, &v[..n.min(8)])) }
        if k <= 3 {
            let gs: Vec<G1> = v.iter().map(|s| G1::generator() * s).collect();
            let f = catch(|| { let mut b = gs.clone(); best_fft(&mut b, w, k); b });
            if !f.map_or(false, |f| (0..n).all(|i| f[i] == G1::generator() * evalp(&v, &pw(&w, i as u64)))) { fail("best_fft over group elements", &format!("k={} logs={:?}", k, v)) }
            let f = catch(|| g_to_lagrange::<G1Affine>(gs.clone(), k));
            // L_i(x) coefficient vector: (1/n) sum_j omega^{-ij} X^j
            let ninv = Fr::from(n as u64).invert().unwrap();
            let winv = w.invert().unwrap();
            if !f.map_or(false, |f| f.len() == n && (0..n).all(|i| f[i] == (G1::generator() * (evalp(&v, &pw(&winv, i as u64)) * ninv)).to_affine())) { fail("g_to_lagrange is not the commitment to the Lagrange basis", &format!("k={} logs={:?}", k, v)) }
        }
        // evaluation domains
        let j = 2 + r.below(8) as u32; let k = 1 + (it % 5) as u32; let n = 1usize << k;
        case(format!("domain j={} k={}", j, k));
        let d = match catch(|| EvaluationDomain::<Fr>::new(j, k)) { Some(d) => d, None => { fail("EvaluationDomain::new panics", &format!("j={} k={}", j, k)); continue } };
        let ek = d.extended_k(); let en = d.extended_len();
        let tag = format!("j={} k={} v={:?}", j, k, &v[..4.min(v.len())]);
        if d.k() != k || en != 1 << ek || en < n * (j as usize - 1) || (ek > k && en / 2 >= n * (j as usize - 1)) || d.get_quotient_poly_degree() != j as usize - 1 { fail("EvaluationDomain sizes", &tag) }
        if d.get_omega() != root(k) || d.get_omega() * d.get_omega_inv() != Fr::one() || d.get_extended_omega() != root(ek) { fail("EvaluationDomain generators", &tag) }
        let v: Vec<Fr> = (0..n).map(|_| rnd(r)).collect();
        let w = root(k);
        let c = catch(|| d.lagrange_to_coeff(d.lagrange_from_vec(v.clone())));
        let cs: Vec<Fr> = match &c { Some(c) => c.to_vec(), None => vec![] };
        if cs.len() != n || (0..n).any(|i| evalp(&cs, &pw(&w, i as u64)) != v[i]) { fail("lagrange_to_coeff is not the interpolation over the domain", &tag); continue }
        let c = c.unwrap();
        let rot = (r.below(9) as i32 - 4).clamp(-(n as i32), n as i32);
        let x = rnd(r);
        if catch(|| d.rotate_omega(x, Rotation(rot))) != Some(if rot < 0 { x * pw(&w.invert().unwrap(), -rot as u64) } else { x * pw(&w, rot as u64) }) { fail("rotate_omega", &format!("{} rot={}", tag, rot)) }
        let big = match r.below(3) { 0 => r.u64() as i32, 1 => (r.below(1 << 17) as i32) - (1 << 16), _ => *[i32::MIN, i32::MAX, -256, 256, -65536, 65536, -32768].get(r.below(7)).unwrap() };
        { let w = root(20); if catch(|| dbig.rotate_omega(x, Rotation(big))) != Some(if big < 0 { x * pw(&w.invert().unwrap(), -(big as i64) as u64) } else { x * pw(&w, big as u64) }) { fail("rotate_omega", &format!("k=20 x={:?} rot={}", x, big)) } }
        let lv = d.lagrange_from_vec(v.clone());
        let rt = catch(|| lv.rotate(Rotation(rot)));
        if !rt.map_or(false, |p| (0..n).all(|i| p[i] == v[(i as i64 + rot as i64).rem_euclid(n as i64) as usize])) { fail("Polynomial::rotate", &format!("{} rot={}", tag, rot)) }
        // the extended coset is g * <extended omega>, g being one fixed cube root of unity
        let e = catch(|| d.coeff_to_extended(c.clone()));
        let ew = root(ek);
        let zs = [<Fr as FieldExt>::ZETA, <Fr as FieldExt>::ZETA.square()];
        let mut z = None;
        if let Some(e) = &e { for g in zs { if e.len() == en && (0..en).all(|i| e[i] == evalp(&cs, &(g * pw(&ew, i as u64)))) { z = Some(g) } } }
        if z.is_none() { fail("coeff_to_extended is not the evaluation over a coset of the extended domain", &tag); continue }
        let z = z.unwrap(); let e = e.unwrap();
        let parts = catch(|| d.coeff_to_extended_parts(&c));
        let back = parts.and_then(|p| catch(|| d.extended_from_lagrange_vec(p)));
        if !back.map_or(false, |b| (0..en).all(|i| b[i] == e[i])) { fail("coeff_to_extended_parts / extended_from_lagrange_vec disagree with coeff_to_extended", &tag) }
        let re = catch(|| d.rotate_extended(&e, Rotation(rot)));
        if !re.map_or(false, |b| (0..en).all(|i| b[i] == e[(i as i64 + rot as i64 * (en / n) as i64).rem_euclid(en as i64) as usize])) { fail("rotate_extended", &format!("{} rot={}", tag, rot)) }
        let bk = catch(|| d.extended_to_coeff(e.clone()));
        if !bk.map_or(false, |b| b.len() == n * (j as usize - 1) && (0..b.len()).all(|i| b[i] == if i < n { cs[i] } else { Fr::zero() })) { fail("extended_to_coeff is not the inverse of coeff_to_extended", &tag) }
        let dv = catch(|| d.divide_by_vanishing_poly(e.clone()));
        if !dv.map_or(false, |b| (0..en).all(|i| b[i] * (pw(&(z * pw(&ew, i as u64)), n as u64) - Fr::one()) == e[i])) { fail("divide_by_vanishing_poly", &tag) }
        let x = Fr::random(&mut *r); let xn = pw(&x, n as u64); let (lo, hi) = (-(r.below(n) as i32), 1 + r.below(n) as i32);
        let li = catch(|| d.l_i_range(x, xn, lo..hi));
        let ninv = Fr::from(n as u64).invert().unwrap();
        if !li.map_or(false, |l| l.len() == (hi - lo) as usize && (lo..hi).all(|i| { let wi = if i < 0 { pw(&w.invert().unwrap(), -i as u64) } else { pw(&w, i as u64) }; l[(i - lo) as usize] * (x - wi) == (xn - Fr::one()) * wi * ninv })) { fail("l_i_range is not the Lagrange basis at x", &format!("{} x={:?} {}..{}", tag, x, lo, hi)) }
        let m = rnd(r); let o: Vec<Fr> = (0..n).map(|_| rnd(r)).collect(); let oc = d.coeff_from_vec(o.clone());
        if catch(|| (c.clone() + &oc).to_vec()) != Some((0..n).map(|i| cs[i] + o[i]).collect()) || catch(|| (c.clone() - &oc).to_vec()) != Some((0..n).map(|i| cs[i] - o[i]).collect()) || catch(|| (c.clone() * m).to_vec()) != Some((0..n).map(|i| cs[i] * m).collect()) { fail("Polynomial + - *", &format!("{} {:?}", tag, m)) }
        if catch(|| (&c - m).to_vec()) != Some((0..n).map(|i| if i == 0 { cs[0] - m } else { cs[i] }).collect()) { fail("Polynomial - constant", &tag) }
        cases += 1;
    }
    case_end();
    done(cases, "multiexp (n up to 70), fft (k up to 10), eval, inner product, kate division, interpolation, domains (j 2..9, k 1..5) against schoolbook definitions");
}
fn assigned(a: &Args, r: &mut Rng) {
    type A = Assigned<Fr>;
    let inv = |x: Fr| x.invert().unwrap_or(Fr::zero());
    fn v(a: &A) -> Fr { match a { Assigned::Zero => Fr::zero(), Assigned::Trivial(x) => *x, Assigned::Rational(n, d) => *n * d.invert().unwrap_or(Fr::zero()) } }
    let mk = |r: &mut Rng| -> A { let z = |r: &mut Rng| match r.below(4) { 0 => Fr::zero(), 1 => Fr::one(), _ => rf(r) }; match r.below(4) { 0 => Assigned::Zero, 1 => Assigned::Trivial(z(r)), _ => Assigned::Rational(z(r), z(r)) } };
    let mut n = 0;
    for _ in 0..a.iters {
        let (x, y, f) = (mk(r), mk(r), if r.below(4) == 0 { Fr::zero() } else { rf(r) });
        let tag = format!("{:?} , {:?} , {:?}", x, y, f);
        case(tag.clone());
        let (vx, vy) = (v(&x), v(&y));
        let ck = |what: &str, got: Option<A>, want: Fr| { match got { Some(g) if v(&g) == want => {}, g => fail(what, &format!("{} got {:?}", tag, g)) } };
        ck("Assigned +", catch(|| x + y), vx + vy); ck("Assigned + &", catch(|| x + &y), vx + vy); ck("& + Assigned", catch(|| &x + y), vx + vy); ck("& + &", catch(|| &x + &y), vx + vy);
        ck("Assigned + F", catch(|| x + f), vx + f); ck("& + F", catch(|| &x + f), vx + f);
        ck("Assigned -", catch(|| x - y), vx - vy); ck("Assigned - &", catch(|| x - &y), vx - vy); ck("& - Assigned", catch(|| &x - y), vx - vy); ck("& - &", catch(|| &x - &y), vx - vy);
        ck("Assigned - F", catch(|| x - f), vx - f); ck("& - F", catch(|| &x - f), vx - f);
        ck("Assigned *", catch(|| x * y), vx * vy); ck("Assigned * &", catch(|| x * &y), vx * vy); ck("Assigned * F", catch(|| x * f), vx * f); ck("& * F", catch(|| &x * f), vx * f);
        ck("Assigned +=", catch(|| { let mut t = x; t += y; t }), vx + vy); ck("Assigned -=", catch(|| { let mut t = x; t -= y; t }), vx - vy); ck("Assigned *=", catch(|| { let mut t = x; t *= y; t }), vx * vy);
        ck("Assigned neg", catch(|| -x), -vx); ck("Assigned double", catch(|| x.double()), vx + vx); ck("Assigned square", catch(|| x.square()), vx * vx); ck("Assigned cube", catch(|| x.cube()), vx * vx * vx); ck("Assigned invert", catch(|| x.invert()), inv(vx));
        if catch(|| x.evaluate()) != Some(vx) { fail("Assigned evaluate", &tag) }
        if catch(|| x.is_zero_vartime()) != Some(vx == Fr::zero()) { fail("Assigned is_zero_vartime", &tag) }
        if catch(|| x == y) != Some(vx == vy) { fail("Assigned ==", &tag) }
        if catch(|| x == Assigned::Trivial(vx)) != Some(true) { fail("Assigned == its value", &tag) }
        n += 1;
    }
    case_end();
    done(n, "every Assigned operation on zero/trivial/rational fractions incl. zero denominators, against the field values");
}
// ---------------------------------------------------------------- transcripts
#[derive(Clone, Debug, PartialEq)]
enum Op { P(G1Affine), S(Fr), Cp(G1Affine), Cs(Fr), Q }
fn bytes_of(ops: &[Op], keccak: bool) -> (Vec<u8>, Vec<[u8; 64]>) {
    use sha3::Digest;
    let mut h: Vec<u8> = if keccak { b"Halo2-Transcript".to_vec() } else { vec![] }; let mut proof = vec![]; let mut ch = vec![];
    for o in ops { match o {
        Op::P(p) | Op::Cp(p) => { let c = p.coordinates().unwrap(); h.push(1); h.extend(c.x().to_repr().as_ref()); h.extend(c.y().to_repr().as_ref()); if matches!(o, Op::P(_)) { proof.extend(p.to_bytes().as_ref()) } }
        Op::S(s) | Op::Cs(s) => { h.push(2); h.extend(s.to_repr().as_ref()); if matches!(o, Op::S(_)) { proof.extend(s.to_repr().as_ref()) } }
        Op::Q => { h.push(0); let mut d = [0u8; 64];
            if keccak { for (i, t) in [10u8, 11].iter().enumerate() { let mut k = sha3::Keccak256::new(); k.update(&h); k.update([*t]); d[i * 32..i * 32 + 32].copy_from_slice(&k.finalize()) } }
            else { d.copy_from_slice(blake2b_simd::Params::new().hash_length(64).personal(b"Halo2-Transcript").hash(&h).as_bytes()) }
            ch.push(d) }
    } }
    (proof, ch)
}
type C255 = Challenge255<G1Affine>;
fn drive_w<T: TranscriptWrite<G1Affine, C255>>(t: &mut T, ops: &[Op]) -> Result<Vec<Fr>, ()> {
    let mut o = vec![];
    for x in ops { match x { Op::P(p) => t.write_point(*p).map_err(|_| ())?, Op::S(s) => t.write_scalar(*s).map_err(|_| ())?, Op::Cp(p) => t.common_point(*p).map_err(|_| ())?, Op::Cs(s) => t.common_scalar(*s).map_err(|_| ())?, Op::Q => o.push(t.squeeze_challenge().get_scalar()) } }
    Ok(o)
}
fn drive_r<T: TranscriptRead<G1Affine, C255>>(t: &mut T, ops: &[Op]) -> Result<Vec<Fr>, String> {
    let mut o = vec![];
    for x in ops { match x { Op::P(p) => { let q = t.read_point().map_err(|e| e.to_string())?; if q != *p { return Err("another point is read".into()) } } Op::S(s) => { let q = t.read_scalar().map_err(|e| e.to_string())?; if q != *s { return Err("another scalar is read".into()) } }
        Op::Cp(p) => t.common_point(*p).map_err(|e| e.to_string())?, Op::Cs(s) => t.common_scalar(*s).map_err(|e| e.to_string())?, Op::Q => o.push(t.squeeze_challenge().get_scalar()) } }
    Ok(o)
}
fn tr(a: &Args, r: &mut Rng) {
    let mut n = 0u64;
    let gen = |r: &mut Rng| match r.below(5) { 0 => Op::P((G1::generator() * rnd(r)).to_affine()), 1 => Op::S(rnd(r)), 2 => Op::Cp((G1::generator() * rnd(r)).to_affine()), 3 => Op::Cs(rnd(r)), _ => Op::Q };
    for it in 0..a.iters {
        let len = 1 + r.below(if it % 5 == 0 { 24 } else { 7 }); let mut ops: Vec<Op> = (0..len).map(|_| gen(r)).collect(); ops.push(Op::Q);
        case(format!("transcript {:?}", ops));
        macro_rules! go { ($nm:expr, $W:ident, $R:ident, $k:expr, $slow:expr) => { if !$slow || it % 40 == 0 {
            let run = |ops: &[Op]| catch(|| { let mut w = $W::<_, G1Affine, C255>::init(vec![]); let c = drive_w(&mut w, ops); (w.finalize(), c) });
            let info = |x: String| format!("{} {:?}: {}", $nm, ops, x);
            match run(&ops) {
                Some((proof, Ok(c))) => { n += 1;
                    if let Some(k) = $k { let (p, d) = bytes_of(&ops, k); let d: Vec<Fr> = d.iter().map(|x| fr(&(BigUint::from_bytes_le(x) % md()))).collect();
                        if p != proof { fail("the written proof is not the sequence of encodings", &info(format!("{:?}", proof))) }
                        if d != c { fail("a challenge is not the reduced digest of everything absorbed", &info(format!("{:?}", c))) } }
                    let mut rd = $R::<_, G1Affine, C255>::init(&proof[..]);
                    match catch(|| drive_r(&mut rd, &ops)) { Some(Ok(d)) if d == c => {}, x => fail("reader and writer disagree on the challenges", &info(format!("writer {:?} reader {:?}", c, x))) }
                    // any other history leads to other challenges
                    for _ in 0..3 { let mut o = ops.clone(); let i = r.below(o.len());
                        match r.below(5) { 0 => { o.remove(i); }, 1 => { let x = o[i].clone(); o.insert(i, x) }, 2 => { let x = gen(r); o[i] = x }, 3 => { let j = r.below(o.len()); o.swap(i, j) }, _ => { o[i] = match &o[i] { Op::P(p) | Op::Cp(p) => Op::Cp(-*p), Op::S(s) | Op::Cs(s) => Op::Cs(*s + Fr::one()), Op::Q => continue } } }
                        let norm = |v: &[Op]| v.iter().map(|x| match x { Op::P(p) => Op::Cp(*p), Op::S(s) => Op::Cs(*s), x => x.clone() }).collect::<Vec<_>>();
                        if norm(&o) == norm(&ops) || o.last() != Some(&Op::Q) { continue }
                        n += 1;
                        match run(&o) { Some((_, Ok(e))) if e.last() != c.last() => {}, x => fail("two histories lead to the same challenge", &info(format!("and {:?}: {:?}", o, x.map(|y| y.1)))) } }
                    if !proof.is_empty() { let cut = r.below(proof.len()); let mut rd = $R::<_, G1Affine, C255>::init(&proof[..cut]); match catch(|| drive_r(&mut rd, &ops)) { Some(Err(_)) => {}, x => fail("a truncated proof is read", &info(format!("{} bytes: {:?}", cut, x))) } }
                }
                x => fail("a transcript cannot be written", &info(format!("{:?}", x))),
            }
        } } }
        go!("Blake2b", Blake2bWrite, Blake2bRead, Some(false), false); go!("Keccak256", Keccak256Write, Keccak256Read, Some(true), false); go!("Poseidon", PoseidonWrite, PoseidonRead, None::<bool>, true);
    }
    case_end();
    done(n, "transcript histories (Blake2b, Keccak-256, Poseidon)");
}
fn main() {
    quiet(); guard(60, 6);
    let a = args();
    let mut r = Rng(a.seed);
    match a.rest.first().map(|s| s.as_str()) { Some("poly") => poly(&a, &mut r), Some("tr") => tr(&a, &mut r), Some("assigned") => assigned(&a, &mut r), _ => panic!("mode") }
}
