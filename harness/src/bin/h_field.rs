use ff::{Field, PrimeField};
use halo2curves::serde::SerdeObject;
use halo2curves::FieldExt;
use harness::*;
use num_bigint::BigUint;
use pasta_curves::arithmetic::SqrtRatio;
use subtle::*;
struct O { p: BigUint, r: BigUint, rinv: BigUint }
fn run<F>(name: &str, p: &str, a: &Args) -> u64
where F: FieldExt + SerdeObject + PrimeField<Repr = [u8; 32]> + SqrtRatio + Ord + From<bool> {
    let p = big(p);
    let r = (BigUint::from(1u64) << 256u32) % &p;
    let o = O { rinv: r.modpow(&(&p - 2u64), &p), r, p: p.clone() };
    let mut g = Rng(a.seed);
    let mut pool: Vec<BigUint> = a.pool.clone();
    for _ in 0..200 { pool.push(edge(&mut g, &p)); }
    let limbs = |f: &F| BigUint::from_bytes_le(&f.to_raw_bytes());
    let val = |f: &F| limbs(f) * &o.rinv % &o.p;
    let ck = |op: &str, got: &F, want: &BigUint, inp: String| {
        if limbs(got) >= o.p || &val(got) != want { fail(&format!("{}.{}", name, op), &format!("{} limbs={:x} want={:x}", inp, limbs(got), want)); }
    };
    let mut n = 0u64;
    for i in 0..a.iters {
        let (x, y) = if (i as usize) < pool.len() * 2 { (pool[i as usize % pool.len()].clone(), pool[g.below(pool.len())].clone()) } else { (edge(&mut g, &p), edge(&mut g, &p)) };
        // integers as limbs (Montgomery form) and as values
        let (xm, ym) = (&x % &p, &y % &p);
        let fx: F = F::from_raw_bytes_unchecked(&le32(&xm));
        let fy: F = F::from_raw_bytes_unchecked(&le32(&ym));
        let (vx, vy) = (&xm * &o.rinv % &p, &ym * &o.rinv % &p);
        let inp = format!("x_limbs={:x} y_limbs={:x}", xm, ym);
        n += 1;
        ck("add", &(fx + fy), &((&vx + &vy) % &p), inp.clone());
        ck("sub", &(fx - fy), &((&vx + &p - &vy) % &p), inp.clone());
        ck("mul", &(fx * fy), &(&vx * &vy % &p), inp.clone());
        ck("square", &fx.square(), &(&vx * &vx % &p), inp.clone());
        ck("double", &fx.double(), &(&vx * 2u64 % &p), inp.clone());
        ck("neg", &(-fx), &((&p - &vx) % &p), inp.clone());
        { let mut t = fx; t += fy; ck("add_assign", &t, &((&vx + &vy) % &p), inp.clone()); }
        { let mut t = fx; t -= &fy; ck("sub_assign", &t, &((&vx + &p - &vy) % &p), inp.clone()); }
        { let mut t = fx; t *= fy; ck("mul_assign", &t, &(&vx * &vy % &p), inp.clone()); }
        if (fx == fy) != (vx == vy) || bool::from(fx.ct_eq(&fy)) != (vx == vy) || fx != fx.clone() { fail(&format!("{}.eq", name), &inp); }
        if fx.cmp(&fy) != vx.cmp(&vy) || fx.partial_cmp(&fy) != Some(vx.cmp(&vy)) { fail(&format!("{}.cmp", name), &inp); }
        if bool::from(fx.is_zero()) != (vx == BigUint::from(0u64)) { fail(&format!("{}.is_zero", name), &inp); }
        if fx.to_repr() != le32(&vx) { fail(&format!("{}.to_repr", name), &inp); }
        if bool::from(fx.is_odd()) != vx.bit(0) { fail(&format!("{}.is_odd", name), &inp); }
        if fx.to_raw_bytes() != le32(&xm) { fail(&format!("{}.to_raw_bytes", name), &inp); }
        if fx.get_lower_128() != { let m = &vx & ((BigUint::from(1u64) << 128u32) - 1u64); let d = m.to_u64_digits(); (d.get(0).copied().unwrap_or(0) as u128) | (d.get(1).copied().unwrap_or(0) as u128) << 64 } { fail(&format!("{}.get_lower_128", name), &inp); }
        if fx.get_lower_32() != (vx.to_u64_digits().get(0).copied().unwrap_or(0) as u32) { fail(&format!("{}.get_lower_32", name), &inp); }
        for c in [0u8, 1] { let s = F::conditional_select(&fx, &fy, Choice::from(c)); if limbs(&s) != *(if c == 1 { &ym } else { &xm }) { fail(&format!("{}.select", name), &inp); } }
        // raw 256-bit integers
        let raw = format!("n={:x}", x);
        let fr: Option<F> = F::from_repr(le32(&x)).into();
        match fr { Some(f) => { if x >= p { fail(&format!("{}.from_repr accepts non-canonical", name), &raw) } else { ck("from_repr", &f, &x, raw.clone()) } }, None => if x < p { fail(&format!("{}.from_repr rejects canonical", name), &raw) } }
        match F::from_raw_bytes(&le32(&x)) { Some(f) => if x >= p || limbs(&f) != x { fail(&format!("{}.from_raw_bytes", name), &raw) }, None => if x < p { fail(&format!("{}.from_raw_bytes", name), &raw) } }
        { let b = le32(&x); let mut rd = &b[..]; match F::read_raw(&mut rd) { Ok(f) => if x >= p || limbs(&f) != x || !rd.is_empty() { fail(&format!("{}.read_raw", name), &raw) }, Err(_) => if x < p { fail(&format!("{}.read_raw", name), &raw) } } 
          let mut w: Vec<u8> = vec![]; if fx.write_raw(&mut w).is_err() || w != le32(&xm) { fail(&format!("{}.write_raw", name), &inp) } }
        { let mut wide = [0u8; 64]; wide[..32].copy_from_slice(&le32(&x)); wide[32..].copy_from_slice(&le32(&y)); let w = BigUint::from_bytes_le(&wide); ck("from_bytes_wide", &F::from_bytes_wide(&wide), &(w % &p), format!("lo={:x} hi={:x}", x, y)); }
        { let d = x.to_u64_digits(); let l = d.get(0).copied().unwrap_or(0); let h = d.get(1).copied().unwrap_or(0);
          ck("from_u64", &F::from(l), &(BigUint::from(l) % &p), format!("{:x}", l));
          ck("from_u128", &F::from_u128(l as u128 | (h as u128) << 64), &(BigUint::from(l as u128 | (h as u128) << 64) % &p), raw.clone()); }
        if i % 64 == 0 {
            let e = y.to_u64_digits(); let mut el = [0u64; 4]; el[..e.len()].copy_from_slice(&e);
            ck("pow", &fx.pow(&el), &vx.modpow(&y, &p), inp.clone());
            ck("pow_vartime", &fx.pow_vartime(el), &vx.modpow(&y, &p), inp.clone());
            let iv: Option<F> = fx.invert().into();
            match iv { Some(f) => ck("invert", &f, &vx.modpow(&(&p - 2u64), &p), inp.clone()), None => if vx != BigUint::from(0u64) { fail(&format!("{}.invert", name), &inp) } }
            if vx == BigUint::from(0u64) && bool::from(fx.invert().is_some()) { fail(&format!("{}.invert(0)", name), &inp) }
            let sq: Option<F> = fx.sqrt().into();
            let e2 = vx.modpow(&((&p - 1u64) >> 1u32), &p);
            let is_sq = e2 <= BigUint::from(1u64);
            match sq { Some(f) => { let w = val(&f); if &w * &w % &p != vx { fail(&format!("{}.sqrt", name), &inp) } if !is_sq { fail(&format!("{}.sqrt of a non-square", name), &inp) } }, None => if is_sq { fail(&format!("{}.sqrt missing", name), &inp) } }
            let s2: Option<F> = fx.square().sqrt().into();
            match s2 { Some(f) => if f != fx && f != -fx { fail(&format!("{}.sqrt(x^2)", name), &inp) }, None => fail(&format!("{}.sqrt(x^2) missing", name), &inp) }
        }
    }
    // 2-adic structure: sqrt of every root-of-unity power (Tonelli-Shanks worst cases)
    n
}
fn main() {
    quiet();
    let a = args();
    let mut n = 0;
    macro_rules! go { ($n:expr, $f:ty, $p:expr) => { match catch(|| run::<$f>($n, $p, &a)) { Some(k) => n += k, None => fail(&format!("{} panicked", $n), &format!("seed={}", a.seed)) } } }
    go!("bn_fq", halo2curves::bn256::Fq, "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47");
    go!("bn_fr", halo2curves::bn256::Fr, "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001");
    go!("secp_fp", halo2curves::secp256k1::Fp, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
    go!("secp_fq", halo2curves::secp256k1::Fq, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    // Tonelli-Shanks on all 2-power orders
    {
        use halo2curves::bn256::Fr; use halo2curves::secp256k1::Fq;
        let mut w = Fr::root_of_unity();
        for k in 0..Fr::S { let s: Option<Fr> = w.sqrt().into(); if s.is_some() != (k > 0) { fail("bn_fr.sqrt(root of unity)", &format!("w^(2^{})", k)) } if let Some(s) = s { if s.square() != w { fail("bn_fr.sqrt(root of unity)", &format!("w^(2^{})", k)) } } w = w.square(); n += 1; }
        let mut w = Fq::root_of_unity();
        for k in 0..Fq::S { let s: Option<Fq> = w.sqrt().into(); if s.is_some() != (k > 0) { fail("secp_fq.sqrt(root of unity)", &format!("w^(2^{})", k)) } w = w.square(); n += 1; }
    }
    done(n, "edge-biased operands, 4 fields, every public arithmetic and codec operation");
}
