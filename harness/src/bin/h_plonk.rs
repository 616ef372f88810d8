//! random circuits through the real key generation, prover, verifier and MockProver
use ff::Field;
use halo2_proofs::circuit::{floor_planner::V1, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::helpers::SerdeFormat;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Params, ParamsProver, Verifier, MSM};
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
use halo2_proofs::poly::kzg::msm::{DualMSM, MSMKZG};
use halo2_proofs::poly::kzg::strategy::{AccumulatorStrategy, SingleStrategy};
use halo2_proofs::poly::{Rotation, VerificationStrategy, VerifierQuery};
use halo2_proofs::transcript::*;
use group::{prime::PrimeCurveAffine, Curve, Group, GroupEncoding};
use halo2curves::bn256::{Bn256, Fr, G1, G1Affine};
use halo2curves::io;
use harness::*;
use std::sync::Mutex;
type Sch = KZGCommitmentScheme<Bn256>;
#[derive(Clone, Debug, Copy, PartialEq, Eq, Hash)]
enum Col { A(usize), I(usize), F(usize) }
#[derive(Clone, Debug)]
enum Guard { Simple, Complex, Fixed }
#[derive(Clone, Debug)]
struct Gate { guard: Guard, rows: Vec<usize>, terms: Vec<(u64, Vec<(Col, i32)>)>, phase2: bool }
#[derive(Clone, Debug)]
struct Lk { arity: usize, table: Vec<Vec<u64>>, rows: Vec<usize>, any: bool }
#[derive(Clone, Debug)]
struct Shape { k: u32, free: usize, ins: usize, fix: usize, gates: Vec<Gate>, lks: Vec<Lk>, copies: Vec<((Col, usize), (Col, usize))>, eq: Vec<Col>, rows: usize }
static SHAPE: Mutex<Option<Shape>> = Mutex::new(None);
fn shape() -> Shape { SHAPE.lock().unwrap().clone().unwrap() }
#[derive(Clone)]
struct Cfg { s: Shape, adv: Vec<Column<Advice>>, outs: Vec<Column<Advice>>, lcols: Vec<Vec<Column<Advice>>>, ins: Vec<Column<Instance>>, fix: Vec<Column<Fixed>>, gsel: Vec<Option<Selector>>, gfix: Vec<Option<Column<Fixed>>>, lsel: Vec<(Selector, Option<Selector>)>, ltab: Vec<Vec<TableColumn>>, lany: Vec<Vec<Column<Fixed>>>, ch: Option<Challenge> }
fn configure(m: &mut ConstraintSystem<Fr>) -> Cfg {
    let s = shape();
    let adv: Vec<_> = (0..s.free).map(|_| m.advice_column()).collect();
    let ins: Vec<_> = (0..s.ins).map(|_| m.instance_column()).collect();
    let fix: Vec<_> = (0..s.fix).map(|_| m.fixed_column()).collect();
    for c in &s.eq { match c { Col::A(i) => m.enable_equality(adv[*i]), Col::I(i) => m.enable_equality(ins[*i]), Col::F(i) => m.enable_equality(fix[*i]) } }
    let p2 = s.gates.iter().any(|g| g.phase2);
    let outs: Vec<_> = s.gates.iter().map(|g| if g.phase2 { m.advice_column_in(SecondPhase) } else { m.advice_column() }).collect();
    let ch = if p2 { Some(m.challenge_usable_after(FirstPhase)) } else { None };
    let lcols: Vec<Vec<_>> = s.lks.iter().map(|l| (0..l.arity).map(|_| m.advice_column()).collect()).collect();
    let mut gsel = vec![]; let mut gfix = vec![];
    for (g, gate) in s.gates.iter().enumerate() {
        let sel = match gate.guard { Guard::Simple => Some(m.selector()), Guard::Complex => Some(m.complex_selector()), Guard::Fixed => None };
        let gf = if sel.is_none() { Some(m.fixed_column()) } else { None };
        m.create_gate("gate", |m| {
            let q = match (sel, gf) { (Some(x), _) => m.query_selector(x), (_, Some(f)) => m.query_fixed(f, Rotation::cur()), _ => unreachable!() };
            let mut e = Expression::Constant(Fr::zero());
            for (ti, (c, fs)) in gate.terms.iter().enumerate() {
                let mut t: Option<Expression<Fr>> = None;
                for (col, rot) in fs {
                    let x = match col { Col::A(i) => m.query_advice(adv[*i], Rotation(*rot)), Col::I(i) => m.query_instance(ins[*i], Rotation(*rot)), Col::F(i) => m.query_fixed(fix[*i], Rotation(*rot)) };
                    t = Some(match t { None => x, Some(t) => t * x });
                }
                // the same term c * t, written in one of several ways
                let k = |c: Fr| Expression::Constant(c); let (c1, z) = (Fr::from(*c), Fr::zero());
                e = match (t, (*c as usize + 3 * ti + g) % 10) {
                    (None, n) => if n % 2 == 0 { e + k(c1) } else { e - k(-c1) },
                    (Some(t), 0) => e - t * (-c1),
                    (Some(t), 1) => e + (k(z) - t * (-c1)),
                    (Some(t), 2) => k(c1) * t + e,
                    (Some(t), 3) => e - (-(t * c1)),
                    (Some(t), 4) => (t * c1 - k(z)) + e,
                    (Some(t), 5) => e + t.clone() * k(z) + t * k(Fr::one()) * c1,
                    (Some(t), 6) => (k(z) + t.clone() * k(Fr::from(2)) - t) * c1 + e,
                    (Some(t), 7) => -((-e) - t * c1),
                    (Some(t), _) => e + t * c1,
                };
            }
            if gate.phase2 { e = e * m.query_challenge(ch.unwrap()); }
            let o = m.query_advice(outs[g], Rotation::cur());
            if g % 2 == 0 { vec![q * (e - o)] } else { vec![q.clone() * (o.clone() - e.clone()), q * (o - e) * Expression::Constant(Fr::from(3))] }
        });
        gsel.push(sel); gfix.push(gf);
    }
    let mut lsel = vec![]; let mut ltab = vec![]; let mut lany = vec![];
    for (j, l) in s.lks.iter().enumerate() {
        let sel = m.complex_selector();
        // every other table of fixed columns is itself switched by a selector (which is on over the whole table)
        let tsel = if l.any && j % 2 == 0 { Some(m.complex_selector()) } else { None };
        let tabs: Vec<TableColumn> = if l.any { vec![] } else { (0..l.arity).map(|_| m.lookup_table_column()).collect() };
        let anys: Vec<Column<Fixed>> = if l.any { (0..l.arity).map(|_| m.fixed_column()).collect() } else { vec![] };
        if l.any { m.lookup_any("la", |m| { let q = m.query_selector(sel); (0..l.arity).map(|i| { let x = m.query_advice(lcols[j][i], Rotation::cur()); let t = m.query_fixed(anys[i], Rotation::cur()); let t = match tsel { Some(s) => m.query_selector(s) * t, None => t }; (q.clone() * x, t) }).collect() }); }
        else { m.lookup("l", |m| { let q = m.query_selector(sel); (0..l.arity).map(|i| { let x = m.query_advice(lcols[j][i], Rotation::cur()); (q.clone() * x, tabs[i]) }).collect() }); }
        lsel.push((sel, tsel)); ltab.push(tabs); lany.push(anys);
    }
    Cfg { s, adv, outs, lcols, ins, fix, gsel, gfix, lsel, ltab, lany, ch }
}
#[derive(Clone, Debug, Default)]
struct Wit { free: Vec<Vec<Fr>>, ins: Vec<Vec<Fr>>, fix: Vec<Vec<Fr>>, lk: Vec<Vec<Vec<Fr>>>, bump: Vec<(usize, usize, Fr)> }
#[derive(Clone)]
struct Circ<const V: usize> { w: Option<Wit> }
fn cell(w: &Wit, c: Col, r: i64) -> Fr { let r = r as usize; match c { Col::A(i) => w.free[i][r], Col::I(i) => w.ins[i].get(r).copied().unwrap_or(Fr::zero()), Col::F(i) => w.fix[i][r] } }
fn body(w: &Wit, g: &Gate, r: usize) -> Fr {
    let mut e = Fr::zero();
    for (c, fs) in &g.terms { let mut t = Fr::from(*c); for (col, rot) in fs { t = t * cell(w, *col, r as i64 + *rot as i64) } e = e + t }
    e
}
fn synth(w: &Option<Wit>, c: Cfg, mut ly: impl Layouter<Fr>) -> Result<(), Error> {
    let s = c.s.clone();
    let chv = match c.ch { Some(x) => ly.get_challenge(x), None => Value::known(Fr::one()) };
    let wv = |f: &dyn Fn(&Wit) -> Fr| -> Value<Fr> { match w { Some(w) => Value::known(f(w)), None => Value::unknown() } };
    let fixv = fixed_values(&s);
    ly.assign_region(|| "main", |mut rg| {
        let mut cells = std::collections::HashMap::new();
        for i in 0..s.free { for r in 0..s.rows { let x = rg.assign_advice(|| "a", c.adv[i], r, || wv(&|w| w.free[i][r]))?; cells.insert((Col::A(i), r), x.cell()); } }
        for i in 0..s.fix { for r in 0..s.rows { let x = rg.assign_fixed(|| "f", c.fix[i], r, || Value::known(fixv[i][r]))?; cells.insert((Col::F(i), r), x.cell()); } }
        for (g, gate) in s.gates.iter().enumerate() {
            for r in 2..s.rows - 2 {
                let base = wv(&|w| { let mut v = body(w, gate, r); for (bg, br, d) in &w.bump { if *bg == g && *br == r { v = v + d } } v });
                let v = if gate.phase2 { base * chv } else { base };
                rg.assign_advice(|| "o", c.outs[g], r, || v)?;
            }
            for r in &gate.rows { match (&c.gsel[g], &c.gfix[g]) { (Some(x), _) => x.enable(&mut rg, *r)?, (_, Some(f)) => { rg.assign_fixed(|| "gf", *f, *r, || Value::known(Fr::from(1 + *r as u64)))?; } _ => {} } }
        }
        for (j, l) in s.lks.iter().enumerate() {
            for i in 0..l.arity { for r in 0..s.rows { rg.assign_advice(|| "l", c.lcols[j][i], r, || wv(&|w| w.lk[j][i][r]))?; } }
            for r in &l.rows { c.lsel[j].0.enable(&mut rg, *r)? }
            if let Some(t) = c.lsel[j].1 { for r in 0..l.table.len() { t.enable(&mut rg, r)? } }
            if l.any { for i in 0..l.arity { for (r, row) in l.table.iter().enumerate() { rg.assign_fixed(|| "t", c.lany[j][i], r, || Value::known(Fr::from(row[i])))?; } } }
        }
        for (a, b) in &s.copies { if let (Some(x), Some(y)) = (cells.get(a), cells.get(b)) { rg.constrain_equal(*x, *y)? } }
        Ok(cells)
    }).and_then(|cells| {
        for (a, b) in &s.copies {
            let (a, b) = if let (Col::I(_), _) = a { (b, a) } else { (a, b) };
            if let (Col::I(i), r) = b { ly.constrain_instance(cells[a], c.ins[*i], *r)? }
        }
        for (j, l) in s.lks.iter().enumerate() { if !l.any {
            ly.assign_table(|| "t", |mut t| { for i in 0..l.arity { for (r, row) in l.table.iter().enumerate() { t.assign_cell(|| "t", c.ltab[j][i], r, || Value::known(Fr::from(row[i])))?; } } Ok(()) })?;
        } }
        Ok(())
    })
}
macro_rules! cc { ($v:expr, $fp:ty) => {
    impl Circuit<Fr> for Circ<$v> {
        type Config = Cfg; type FloorPlanner = $fp;
        fn without_witnesses(&self) -> Self { Circ { w: None } }
        fn configure(m: &mut ConstraintSystem<Fr>) -> Cfg { configure(m) }
        fn synthesize(&self, c: Cfg, ly: impl Layouter<Fr>) -> Result<(), Error> { synth(&self.w, c, ly) }
    }
} }
cc!(0, SimpleFloorPlanner);
cc!(1, V1);
fn fixed_values(s: &Shape) -> Vec<Vec<Fr>> { (0..s.fix).map(|i| (0..s.rows).map(|r| Fr::from(((i * 7 + r * 3) % 11) as u64)).collect()).collect() }
/// a shape that uses every row the blinding leaves: at least max(3, queries of an advice column) + 3 rows are reserved
fn tight_shape(r: &mut Rng) -> Shape {
    for _ in 0..20 {
        let slack = 6 + r.below(3); let s = gen_shape_(r, slack);
        let d = (0..s.free).map(|i| { let mut q: Vec<i32> = s.gates.iter().flat_map(|g| g.terms.iter().flat_map(|t| t.1.iter().filter(|x| matches!(x.0, Col::A(j) if j == i)).map(|x| x.1).collect::<Vec<_>>()).collect::<Vec<_>>()).collect(); q.push(0); q.sort(); q.dedup(); q.len() }).max().unwrap_or(0);
        if d.max(3) + 3 <= slack { return s }
    }
    gen_shape(r)
}
fn gen_shape(r: &mut Rng) -> Shape { gen_shape_(r, 8) }
fn gen_shape_(r: &mut Rng, slack: usize) -> Shape {
    let k = 4 + r.below(2) as u32; let rows = (1usize << k) - slack;
    let free = 1 + r.below(4); let ins = r.below(3); let fix = r.below(3);
    let mut all: Vec<Col> = (0..free).map(Col::A).chain((0..ins).map(Col::I)).chain((0..fix).map(Col::F)).collect();
    let ng = 1 + r.below(3);
    let gates = (0..ng).map(|_| {
        let terms = (0..1 + r.below(3)).map(|_| (1 + r.u64() % 5, (0..r.below(4)).map(|_| (all[r.below(all.len())], r.below(5) as i32 - 2)).collect())).collect();
        let mut rows: Vec<usize> = (2..rows - 2).filter(|_| r.below(4) == 0).collect(); if rows.is_empty() { rows.push(2 + r.below(3)) }
        Gate { guard: match r.below(4) { 0 => Guard::Complex, 1 => Guard::Fixed, _ => Guard::Simple }, rows, terms, phase2: r.below(4) == 0 }
    }).collect();
    let lks = (0..r.below(3)).map(|_| {
        let arity = 1 + r.below(2); let n = 1 + r.below(rows - 2);
        let mut table: Vec<Vec<u64>> = (0..n).map(|_| (0..arity).map(|_| r.u64() % 50).collect()).collect(); table.push(vec![0; arity]);
        let mut lr: Vec<usize> = (0..rows).filter(|_| r.below(3) == 0).collect(); if lr.is_empty() { lr.push(r.below(rows)) }
        Lk { arity, table, rows: lr, any: r.below(2) == 0 }
    }).collect();
    let mut copies = vec![]; let mut eq = vec![];
    if r.below(4) != 0 {
        let n = all.len(); for i in 0..n { let j = r.below(n); all.swap(i, j) }
        eq = all[..1 + r.below(n)].to_vec();
        if !eq.iter().any(|c| matches!(c, Col::A(_))) { eq.push(Col::A(0)) }
        // few rows, so that chains, merges and redundant copies occur
        let (lo, span) = if r.below(3) == 0 { (0, rows) } else { (r.below(rows - 4), 1 + r.below(4)) };
        for _ in 0..r.below(10) {
            let a = (eq[r.below(eq.len())], lo + r.below(span)); let b = (eq[r.below(eq.len())], lo + r.below(span));
            let adv = |c: &(Col, usize)| matches!(c.0, Col::A(_));
            // instance cells are copied from advice cells; two fixed cells may hold different constants
            if (adv(&a) || adv(&b)) && a != b { copies.push((a, b)) }
        }
    }
    Shape { k, free, ins, fix, gates, lks, copies, eq, rows }
}
fn gen_wit(r: &mut Rng, s: &mut Shape) -> Wit {
    let fix = fixed_values(s);
    let rv = |r: &mut Rng| match r.below(4) { 0 => Fr::zero(), 1 => Fr::from(r.u64() % 10), 2 => -Fr::from(r.u64() % 3), _ => Fr::random(r) };
    let mut w = Wit { free: (0..s.free).map(|_| (0..s.rows).map(|_| rv(r)).collect()).collect(), ins: vec![], fix, lk: vec![], bump: vec![] };
    for _ in 0..s.ins { let n = 1 + r.below(s.rows); w.ins.push((0..n).map(|_| rv(r)).collect()) }
    // drop copies that no assignment satisfies (distinct constants or missing public values), settle the others
    let mut classes: Vec<Vec<(Col, usize)>> = vec![];
    let mut keep = vec![];
    for (a, b) in s.copies.clone() {
        let find = |cl: &Vec<Vec<(Col, usize)>>, x: &(Col, usize)| cl.iter().position(|c| c.contains(x));
        let ia = find(&classes, &a); let ib = find(&classes, &b);
        let mut m: Vec<(Col, usize)> = vec![];
        match (ia, ib) { (Some(x), Some(y)) if x == y => m = classes[x].clone(), _ => { if let Some(x) = ia { m.extend(classes[x].clone()) } else { m.push(a) } if let Some(y) = ib { m.extend(classes[y].clone()) } else if !m.contains(&b) { m.push(b) } } }
        let fixeds: std::collections::HashSet<String> = m.iter().filter(|c| matches!(c.0, Col::F(_))).map(|c| format!("{:?}", cell(&w, c.0, c.1 as i64))).collect();
        if fixeds.len() > 1 || m.iter().any(|c| match c.0 { Col::I(i) => c.1 >= w.ins[i].len(), _ => false }) { continue }
        keep.push((a, b));
        let (ra, rb) = (ia, ib); let mut rm: Vec<usize> = ra.into_iter().chain(rb).collect(); rm.sort(); rm.dedup(); for x in rm.into_iter().rev() { classes.remove(x); }
        classes.push(m);
    }
    s.copies = keep;
    for c in &classes {
        let v = c.iter().find(|c| matches!(c.0, Col::F(_))).map(|c| cell(&w, c.0, c.1 as i64)).unwrap_or(cell(&w, c[0].0, c[0].1 as i64));
        for (col, rr) in c { match col { Col::A(i) => w.free[*i][*rr] = v, Col::I(i) => w.ins[*i][*rr] = v, _ => {} } }
    }
    for l in &s.lks {
        let mut cols = vec![vec![Fr::zero(); s.rows]; l.arity];
        for rr in 0..s.rows { if l.rows.contains(&rr) { let t = &l.table[r.below(l.table.len())]; for i in 0..l.arity { cols[i][rr] = Fr::from(t[i]) } } else { for i in 0..l.arity { cols[i][rr] = rv(r) } } }
        w.lk.push(cols);
    }
    w
}
fn insts(ws: &[Wit]) -> Vec<Vec<Vec<Fr>>> { ws.iter().map(|w| w.ins.clone()).collect() }
fn prove<C: Circuit<Fr>>(p: &ParamsKZG<Bn256>, pk: &ProvingKey<G1Affine>, cs: &[C], ins: &[Vec<Vec<Fr>>], gwc: bool, r: &mut Rng) -> Option<Result<Vec<u8>, Error>> {
    let i1: Vec<Vec<&[Fr]>> = ins.iter().map(|i| i.iter().map(|c| &c[..]).collect()).collect();
    let i2: Vec<&[&[Fr]]> = i1.iter().map(|i| &i[..]).collect();
    let mut t = Blake2bWrite::<_, _, Challenge255<_>>::init(vec![]);
    let rr = Rng(r.u64());
    catch(|| { if gwc { create_proof::<Sch, ProverGWC<_>, _, _, _, _>(p, pk, cs, &i2, rr, &mut t) } else { create_proof::<Sch, ProverSHPLONK<_>, _, _, _, _>(p, pk, cs, &i2, rr, &mut t) } }).map(|x| x.map(|_| t.finalize()))
}
/// None: the verifier panicked
fn verify(p: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, proof: &[u8], ins: &[Vec<Vec<Fr>>], gwc: bool) -> Option<bool> {
    let i1: Vec<Vec<&[Fr]>> = ins.iter().map(|i| i.iter().map(|c| &c[..]).collect()).collect();
    let i2: Vec<&[&[Fr]]> = i1.iter().map(|i| &i[..]).collect();
    let mut t = Blake2bRead::<_, _, Challenge255<_>>::init(proof);
    catch(|| if gwc { verify_proof::<Sch, VerifierGWC<_>, _, _, _>(p, vk, SingleStrategy::new(p), &i2, &mut t).is_ok() } else { verify_proof::<Sch, VerifierSHPLONK<_>, _, _, _>(p, vk, SingleStrategy::new(p), &i2, &mut t).is_ok() })
}
fn accumulate(p: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, proofs: &[(&[u8], &[Vec<Vec<Fr>>])], gwc: bool) -> Option<bool> {
    catch(|| {
        let mut st = AccumulatorStrategy::new(p);
        for (proof, ins) in proofs {
            let i1: Vec<Vec<&[Fr]>> = ins.iter().map(|i| i.iter().map(|c| &c[..]).collect()).collect();
            let i2: Vec<&[&[Fr]]> = i1.iter().map(|i| &i[..]).collect();
            let mut t = Blake2bRead::<_, _, Challenge255<_>>::init(*proof);
            let x = if gwc { verify_proof::<Sch, VerifierGWC<_>, _, _, _>(p, vk, st, &i2, &mut t) } else { verify_proof::<Sch, VerifierSHPLONK<_>, _, _, _>(p, vk, st, &i2, &mut t) };
            match x { Ok(s) => st = s, Err(_) => return false }
        }
        VerificationStrategy::<Sch, VerifierSHPLONK<_>>::finalize(st)
    })
}
/// a Blake2b transcript that remembers the last challenge
struct Spy<'a>(Blake2bRead<&'a [u8], G1Affine, Challenge255<G1Affine>>, Fr);
impl<'a> Transcript<G1Affine, Challenge255<G1Affine>> for Spy<'a> {
    fn squeeze_challenge(&mut self) -> Challenge255<G1Affine> { let c = self.0.squeeze_challenge(); self.1 = c.get_scalar(); c }
    fn common_point(&mut self, p: G1Affine) -> io::Result<()> { self.0.common_point(p) }
    fn common_scalar(&mut self, s: Fr) -> io::Result<()> { self.0.common_scalar(s) }
}
impl<'a> TranscriptRead<G1Affine, Challenge255<G1Affine>> for Spy<'a> {
    fn read_point(&mut self) -> io::Result<G1Affine> { self.0.read_point() }
    fn read_scalar(&mut self) -> io::Result<Fr> { self.0.read_scalar() }
}
fn last_challenge(p: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, proof: &[u8], ins: &[Vec<Vec<Fr>>]) -> Fr {
    let i1: Vec<Vec<&[Fr]>> = ins.iter().map(|i| i.iter().map(|c| &c[..]).collect()).collect();
    let i2: Vec<&[&[Fr]]> = i1.iter().map(|i| &i[..]).collect();
    let mut t = Spy(Blake2bRead::init(proof), Fr::zero());
    let _ = verify_proof::<Sch, VerifierSHPLONK<_>, _, _, _>(p, vk, SingleStrategy::new(p), &i2, &mut t);
    t.1
}
/// proofs whose errors cancel under a challenge that can be computed beforehand
fn cancel(r: &mut Rng, p: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, pr: [&[u8]; 2], ins: &[Vec<Vec<Fr>>], info: &dyn Fn(&str) -> String) -> u64 {
    use rand_core::SeedableRng;
    let (u1, u2) = (last_challenge(p, vk, pr[0], ins), last_challenge(p, vk, pr[1], ins));
    let g = p.get_g(); let d = |u: Fr, s: Fr| (g[1].to_curve() - g[0] * u) * s;
    let shift = |q: &[u8], x: G1| { let mut q = q.to_vec(); let at = q.len() - 32; let mut c = <G1Affine as GroupEncoding>::Repr::default(); c.as_mut().copy_from_slice(&q[at..]);
        let h = G1Affine::from_bytes(&c).unwrap().to_curve() + x; q[at..].copy_from_slice(h.to_affine().to_bytes().as_ref()); q };
    let e = Fr::from(1 + r.u64() / 2);
    let mut n = 0;
    for rho in [Fr::random(rand_chacha::ChaCha20Rng::seed_from_u64(42)), Fr::random(rand_chacha::ChaCha20Rng::seed_from_u64(0)), Fr::one(), -Fr::one(), Fr::zero(), Fr::from(2)] {
        for swap in [false, true] {
            let (a, b) = if swap { (-rho, Fr::one()) } else { (Fr::one(), -rho) };
            let (q1, q2) = (shift(pr[0], d(u2, a * e)), shift(pr[1], d(u1, b * e))); n += 1;
            match accumulate(p, vk, &[(&q1, ins), (&q2, ins)], false) { Some(false) => {}, x => fail("a batch of proofs of which at least one is invalid is accepted or panics", &info(&format!("{:?}; challenge {:?}, alone: {:?} {:?}; proofs {:?} {:?}", x, rho, verify(p, vk, &q1, ins, false), verify(p, vk, &q2, ins, false), q1, q2))) }
        }
    }
    n
}
fn mock<C: Circuit<Fr>>(k: u32, c: &C, w: &Wit, want: bool) -> Option<bool> {
    // this MockProver reports public cells queried under a selector as unassigned: no verdict to compare
    if shape().gates.iter().any(|g| !matches!(g.guard, Guard::Fixed) && g.terms.iter().any(|t| t.1.iter().any(|x| matches!(x.0, Col::I(_))))) { return Some(want) }
    catch(|| MockProver::run(k, c, w.ins.clone()).map(|m| m.verify().is_ok()).unwrap_or(false))
}
fn run<const V: usize>(r: &mut Rng, s: &mut Shape, modes: &str) -> u64 where Circ<V>: Circuit<Fr> {
    let k = s.k; let mut n = 0;
    let wit = gen_wit(r, s);
    *SHAPE.lock().unwrap() = Some(s.clone());
    let info = |w: &Wit, x: &str| format!("{}; shape {:?}; free {:?}; instance {:?}; lookups {:?}; bump {:?}", x, s, w.free, w.ins, w.lk, w.bump);
    let params = ParamsKZG::<Bn256>::setup(k, Rng(r.u64()));
    let empty = Circ::<V> { w: None };
    let (vk, pk) = match catch(|| { let vk = keygen_vk(&params, &empty)?; let pk = keygen_pk(&params, vk.clone(), &empty)?; Ok::<_, Error>((vk, pk)) }) {
        Some(Ok(x)) => x, x => { fail("key generation fails", &info(&wit, &format!("{:?}", x.map(|y| y.err())))); return 1 }
    };
    let gwc = r.below(2) == 1;
    let np = if r.below(3) == 0 { 2 } else { 1 };
    let circ = |w: &Wit| Circ::<V> { w: Some(w.clone()) };
    if mock(k, &circ(&wit), &wit, true) != Some(true) { fail("MockProver refuses a satisfying witness", &info(&wit, &format!("{:?}", MockProver::run(k, &circ(&wit), wit.ins.clone()).map(|m| m.verify())))) }
    let good = vec![wit.clone(); np]; let gi = insts(&good);
    let cs: Vec<_> = good.iter().map(circ).collect();
    let proof = match prove(&params, &pk, &cs, &gi, gwc, r) { Some(Ok(p)) => p, x => { fail("no proof for a satisfying witness", &info(&wit, &format!("{:?}", x))); return 1 } };
    if verify(&params, &vk, &proof, &gi, gwc) != Some(true) { fail("an honest proof is rejected", &info(&wit, if gwc { "GWC" } else { "SHPLONK" })); return 1 }
    n += 1;
    if modes.contains("honest") {
        // several proofs at once, of different witnesses, under both multi-opening schemes
        for np in [1usize, 2, 3] { for gwc in [false, true] {
            if np == 3 && gwc != (r.below(2) == 0) { continue }
            let ws: Vec<Wit> = (0..np).map(|_| {
                let mut w = wit.clone();
                for c in 0..s.free { for rr in 0..s.rows { if !s.copies.iter().any(|(a, b)| *a == (Col::A(c), rr) || *b == (Col::A(c), rr)) && r.below(3) != 0 { w.free[c][rr] = Fr::random(&mut *r) } } }
                for (c, col) in w.ins.iter_mut().enumerate() { for rr in 0..col.len() { if !s.copies.iter().any(|(a, b)| *a == (Col::I(c), rr) || *b == (Col::I(c), rr)) && r.below(2) == 0 { col[rr] = Fr::random(&mut *r) } } }
                for (j, l) in s.lks.iter().enumerate() { let one = r.below(3) == 0; let t0 = r.below(l.table.len()); for &rr in &l.rows { let t = &l.table[if one { t0 } else { r.below(l.table.len()) }]; for i in 0..l.arity { w.lk[j][i][rr] = Fr::from(t[i]) } } }
                w
            }).collect();
            let gi = insts(&ws); let cs: Vec<_> = ws.iter().map(circ).collect(); n += 1;
            match prove(&params, &pk, &cs, &gi, gwc, r) {
                Some(Ok(p)) => if verify(&params, &vk, &p, &gi, gwc) != Some(true) { fail("an honest proof is rejected", &info(&ws[0], &format!("{} proofs, {}", np, if gwc { "GWC" } else { "SHPLONK" }))) }
                x => fail("no proof for a satisfying witness", &info(&ws[0], &format!("{} proofs -> {:?}", np, x.map(|y| y.err())))),
            }
        } }
    }
    if modes.contains("sound") {
        let mut bad: Vec<(String, Wit)> = vec![];
        for (g, gate) in s.gates.iter().enumerate() { let rr = gate.rows[r.below(gate.rows.len())]; let mut w = wit.clone(); w.bump.push((g, rr, if r.below(2) == 0 { Fr::one() } else { Fr::random(&mut *r) })); bad.push((format!("gate {} violated at row {}", g, rr), w)) }
        if !s.copies.is_empty() { for _ in 0..2 {
            let (a, b) = s.copies[r.below(s.copies.len())]; let mut w = wit.clone();
            let t = if let (Col::A(_), _) = a { if r.below(2) == 0 || !matches!(b.0, Col::A(_)) { a } else { b } } else { b };
            if let Col::A(i) = t.0 { w.free[i][t.1] = w.free[i][t.1] + Fr::one(); bad.push((format!("copy {:?} = {:?} violated", a, b), w)) }
        } }
        for (j, l) in s.lks.iter().enumerate() {
            let rr = l.rows[r.below(l.rows.len())]; let mut w = wit.clone();
            let mut tup: Vec<u64> = vec![0; l.arity]; let mut okk = false;
            for _ in 0..40 { for i in 0..l.arity { tup[i] = if r.below(2) == 0 { l.table[r.below(l.table.len())][i] } else { r.u64() % 60 } } if !l.table.contains(&tup) { okk = true; break } }
            if okk { for i in 0..l.arity { w.lk[j][i][rr] = Fr::from(tup[i]) } bad.push((format!("lookup {} violated at row {}", j, rr), w)) }
        }
        for (what, w) in &bad {
            n += 1;
            match mock(k, &circ(w), w, false) { Some(false) => {}, x => fail("MockProver accepts a violated constraint", &info(w, &format!("{} -> {:?}", what, x))) }
            let mut ws = vec![wit.clone(); np]; let at = r.below(np); ws[at] = w.clone();
            let cs: Vec<_> = ws.iter().map(circ).collect();
            match prove(&params, &pk, &cs, &insts(&ws), gwc, r) {
                Some(Ok(p)) => match verify(&params, &vk, &p, &insts(&ws), gwc) { Some(false) => {
                    if r.below(3) == 0 { if let Some(true) = accumulate(&params, &vk, &[(&proof, &gi), (&p, &insts(&ws))], gwc) { fail("an accumulator with a bad proof is accepted", &info(w, what)) } }
                } x => fail("a proof of a violated constraint is accepted", &info(w, &format!("{} -> {:?}", what, x))) },
                Some(Err(_)) => {} None => if !what.starts_with("lookup") { fail("create_proof panics", &info(w, what)) },
            }
        }
        // rows on which nothing is enforced are free
        let mut w = wit.clone();
        for (g, gate) in s.gates.iter().enumerate() { for rr in 2..s.rows - 2 { if !gate.rows.contains(&rr) && r.below(2) == 0 { w.bump.push((g, rr, Fr::one())) } } }
        if !w.bump.is_empty() {
            n += 1;
            if mock(k, &circ(&w), &w, true) != Some(true) { fail("MockProver enforces a gate on a row whose selector is off", &info(&w, "")) }
            match prove(&params, &pk, &[circ(&w)], &insts(&[w.clone()]), gwc, r) { Some(Ok(p)) if verify(&params, &vk, &p, &insts(&[w.clone()]), gwc) == Some(true) => {}, _ => fail("a gate is enforced on a row whose selector is off", &info(&w, "")) }
        }
    }
    if modes.contains("bind") {
        // public inputs
        for (c, col) in wit.ins.iter().enumerate() {
            let mut i = gi.clone(); let at = r.below(np); let rr = r.below(col.len()); i[at][c][rr] = i[at][c][rr] + Fr::one(); n += 1;
            match verify(&params, &vk, &proof, &i, gwc) { Some(false) => {}, x => fail("a proof is accepted with another public input", &info(&wit, &format!("column {} row {} -> {:?}", c, rr, x))) }
            let mut i = gi.clone(); let last = i[at][c].pop(); if last.is_some() { match verify(&params, &vk, &proof, &i, gwc) { Some(false) => {}, x => fail("a proof is accepted with a shorter public input", &info(&wit, &format!("column {} -> {:?}", c, x))) } }
        }
        if np == 2 { match verify(&params, &vk, &proof, &gi[..1], gwc) { Some(false) => {}, x => fail("a proof of two circuits is accepted for one", &info(&wit, &format!("{:?}", x))) } }
        // tampering
        for _ in 0..6 {
            let mut p = proof.clone(); let at = r.below(p.len()); p[at] ^= 1 << r.below(8); n += 1;
            match verify(&params, &vk, &p, &gi, gwc) { Some(false) => {}, x => fail("a tampered proof is accepted or panics", &info(&wit, &format!("byte {} of {:?} -> {:?}", at, proof, x))) }
        }
        // two equal-sized elements exchanged
        let m = proof.len() / 32;
        for _ in 0..3 { let (a, b) = (r.below(m), r.below(m)); let mut p = proof.clone(); let t = p[a * 32..a * 32 + 32].to_vec(); let u = p[b * 32..b * 32 + 32].to_vec(); if t != u { p[a * 32..a * 32 + 32].copy_from_slice(&u); p[b * 32..b * 32 + 32].copy_from_slice(&t); n += 1;
            match verify(&params, &vk, &p, &gi, gwc) { Some(false) => {}, x => fail("a proof with two elements exchanged is accepted or panics", &info(&wit, &format!("{} {} -> {:?}", a, b, x))) } } }
        for cut in [0, 1, 31, 32, proof.len() / 2, proof.len() - 1] { n += 1; match verify(&params, &vk, &proof[..cut], &gi, gwc) { Some(false) => {}, x => fail("a truncated proof is accepted or panics", &info(&wit, &format!("{} bytes -> {:?}", cut, x))) } }
        // other parameters
        let p2 = ParamsKZG::<Bn256>::setup(k, Rng(r.u64()));
        match verify(&p2, &vk, &proof, &gi, gwc) { Some(false) => {}, x => fail("a proof is accepted under other parameters", &info(&wit, &format!("{:?}", x))) }
        match accumulate(&params, &vk, &[(&proof, &gi), (&proof, &gi)], gwc) { Some(true) => {}, x => fail("two honest proofs are not accepted together", &info(&wit, &format!("{:?}", x))) }
        if !gwc { if let Some(Ok(p2)) = prove(&params, &pk, &cs, &gi, gwc, r) { n += cancel(r, &params, &vk, [&proof, &p2], &gi, &|x| info(&wit, x)) } }
        let bump = |f: &dyn Fn(&mut Vec<u8>)| { let mut p = proof.clone(); f(&mut p); p };
        let tail = bump(&|p| { let l = p.len(); p[l - 1] ^= 0x40 });
        for o in [[(&proof[..], &gi[..]), (&tail[..], &gi[..])], [(&tail[..], &gi[..]), (&proof[..], &gi[..])]] { match accumulate(&params, &vk, &o, gwc) { Some(false) => {}, x => fail("an accumulator with a tampered proof is accepted", &info(&wit, &format!("{:?}", x))) } }
    }
    if modes.contains("keys") { n += keys::<V>(r, &params, &vk, &pk, &proof, &gi, gwc, &wit, &info) }
    n
}
fn keys<const V: usize>(r: &mut Rng, params: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, pk: &ProvingKey<G1Affine>, proof: &[u8], gi: &[Vec<Vec<Fr>>], gwc: bool, wit: &Wit, info: &dyn Fn(&Wit, &str) -> String) -> u64 where Circ<V>: Circuit<Fr> {
    let mut n = 0;
    let fmts = [(SerdeFormat::Processed, "Processed"), (SerdeFormat::RawBytes, "RawBytes"), (SerdeFormat::RawBytesUnchecked, "RawBytesUnchecked")];
    let (f, name) = fmts[r.below(3)];
    let mut b = vec![]; vk.write(&mut b, f).unwrap();
    n += 1;
    match catch(|| VerifyingKey::<G1Affine>::read::<_, Circ<V>>(&mut &b[..], f)) {
        Some(Ok(v2)) => {
            let mut b2 = vec![]; v2.write(&mut b2, f).unwrap(); if b2 != b { fail("a verifying key read back is written differently", &info(wit, name)) }
            if format!("{:?}", v2.pinned()) != format!("{:?}", vk.pinned()) { fail("a verifying key read back differs", &info(wit, name)) }
            if verify(params, &v2, proof, gi, gwc) != Some(true) { fail("a verifying key read back rejects an honest proof", &info(wit, name)) }
        }
        x => fail("a written verifying key cannot be read", &info(wit, &format!("{} {:?}", name, x.map(|x| x.err())))),
    }
    match catch(|| vk.to_bytes(f)) { Some(b3) if b3 == b => {}, x => fail("VerifyingKey::to_bytes differs from write", &info(wit, &format!("{} {:?}", name, x.map(|b| b.len())))) }
    let mut b = vec![]; pk.write(&mut b, f).unwrap(); n += 1;
    match catch(|| ProvingKey::<G1Affine>::read::<_, Circ<V>>(&mut &b[..], f)) {
        Some(Ok(p2)) => {
            let mut b2 = vec![]; p2.write(&mut b2, f).unwrap(); if b2 != b { fail("a proving key read back is written differently", &info(wit, name)) }
            let np = gi.len(); let cs: Vec<_> = (0..np).map(|_| Circ::<V> { w: Some(wit.clone()) }).collect();
            match prove(params, &p2, &cs, gi, gwc, r) { Some(Ok(p)) if verify(params, vk, &p, gi, gwc) == Some(true) => {}, _ => fail("a proving key read back makes no valid proof", &info(wit, name)) }
        }
        x => fail("a written proving key cannot be read", &info(wit, &format!("{} {:?}", name, x.map(|x| x.err())))),
    }
    // truncated and corrupted input (checked formats): refused, without panicking
    let (cf, cname) = fmts[r.below(2)];
    for which in 0..3 {
        let mut b = vec![]; match which { 0 => vk.write(&mut b, cf).unwrap(), 1 => pk.write(&mut b, cf).unwrap(), _ => params.write_custom(&mut b, cf).unwrap() }
        let what = ["verifying key", "proving key", "parameters"][which];
        let read = |b: &[u8]| -> Option<bool> { match which {
            0 => catch(|| VerifyingKey::<G1Affine>::read::<_, Circ<V>>(&mut &b[..], cf).is_ok()),
            1 => catch(|| ProvingKey::<G1Affine>::read::<_, Circ<V>>(&mut &b[..], cf).is_ok()),
            _ => catch(|| ParamsKZG::<Bn256>::read_custom(&mut &b[..], cf).is_ok()) } };
        let mut vkb = vec![]; vk.write(&mut vkb, cf).unwrap();
        for j in 0..3 {
            let cut = match j { 0 => r.below(b.len()), 1 => b.len() - 1 - r.below(40), _ => vkb.len().min(b.len()) - 1 - r.below(60.min(vkb.len() - 1)) }; n += 1;
            match read(&b[..cut]) { Some(false) => {}, x => fail("truncated input is not refused", &info(wit, &format!("{} {} cut at {} of {}: {:?}", what, cname, cut, b.len(), x))) }
        }
        // the first point: x coordinate not below the modulus
        let off = if which == 2 { 4 } else { 8 };
        if (which == 2 || !vk.fixed_commitments().is_empty()) && b.len() >= off + 32 {
            let mut c = b.clone(); for x in &mut c[off..off + 31] { *x = 0xff } c[off + 31] |= 0x7f; n += 1;
            match read(&c) { Some(false) => {}, x => fail("an invalid point is not refused", &info(wit, &format!("{} {}: {:?}", what, cname, x))) }
            if cf as u8 == SerdeFormat::RawBytes as u8 {
                let mut c = b.clone(); c[off + 32] ^= 1; n += 1;
                match read(&c) { Some(false) => {}, x => fail("a point off the curve is not refused", &info(wit, &format!("{} {}: {:?}", what, cname, x))) }
            }
        }
    }
    {
        // verifier parameters as the project ships them
        let mut sp = params.clone(); sp.shrink(ckb_bf_base::SHRINK_K); let mut b = vec![]; Params::write(&sp, &mut b).unwrap(); n += 1;
        match catch(|| ckb_bf_base::utils::read_verifier_params::<Bn256, _>(&mut &b[..])) {
            Some(Ok(p2)) => { let mut b2 = vec![]; Params::write(&p2, &mut b2).unwrap(); if b2 != b || Params::<G1Affine>::n(&p2) != Params::<G1Affine>::n(&sp) { fail("verifier parameters read back differ", &info(wit, "")) } if verify(&p2, vk, proof, gi, gwc) != Some(true) { fail("verifier parameters read back reject an honest proof", &info(wit, "")) } }
            x => fail("written verifier parameters cannot be read", &info(wit, &format!("{:?}", x.map(|x| x.err())))),
        }
        let cut = r.below(b.len()); n += 1;
        match catch(|| ckb_bf_base::utils::read_verifier_params::<Bn256, _>(&mut &b[..cut]).is_ok()) { Some(false) => {}, x => fail("truncated input is not refused", &info(wit, &format!("verifier parameters cut at {} of {}: {:?}", cut, b.len(), x))) }
    }
    let mut b = vec![]; params.write_custom(&mut b, f).unwrap(); n += 1;
    match catch(|| ParamsKZG::<Bn256>::read_custom(&mut &b[..], f)) {
        Some(Ok(p2)) => { let mut b2 = vec![]; p2.write_custom(&mut b2, f).unwrap(); if b2 != b { fail("parameters read back are written differently", &info(wit, name)) } if verify(&p2, vk, proof, gi, gwc) != Some(true) { fail("parameters read back reject an honest proof", &info(wit, name)) } }
        x => fail("written parameters cannot be read", &info(wit, &format!("{} {:?}", name, x.map(|x| x.err())))),
    }
    n
}
/// verdict of the multi-opening verifiers against the opening equation, the secret being known to the test
fn kzg(r: &mut Rng) -> u64 {
    let rf = |r: &mut Rng| Fr::random(Rng(r.u64()));
    let s = rf(r); let p = ParamsKZG::<Bn256>::unsafe_setup_with_s(1 + r.below(2) as u32, s); let g = G1::generator();
    let nc = 1 + r.below(4); let np = 1 + r.below(3);
    let xs: Vec<Fr> = (0..np).map(|_| rf(r)).collect();
    let cs: Vec<Fr> = (0..nc).map(|i| if r.below(9) == 0 && i > 0 { Fr::zero() } else { rf(r) }).collect();
    let aff: Vec<G1Affine> = cs.iter().map(|c| (g * c).to_affine()).collect();
    let as_msm: Vec<bool> = (0..nc).map(|_| r.below(3) == 0).collect();
    let msms: Vec<MSMKZG<Bn256>> = cs.iter().map(|c| { let mut m = MSMKZG::new(); let a = rf(r); m.append_term(Fr::from(3), g * a); m.append_term(Fr::one(), g * (*c - a * Fr::from(3))); m }).collect();
    let nq = 1 + r.below(7); let pat: Vec<(usize, usize)> = (0..nq).map(|_| (r.below(nc), r.below(np))).collect();
    let mut ev = vec![vec![Fr::zero(); np]; nc]; for row in ev.iter_mut() { for e in row.iter_mut() { *e = rf(r) } }
    let honest = ev.clone();
    let pw = |x: Fr, n: usize| x.pow_vartime(&[n as u64]);
    let mut n = 0;
    let qs = |ev: &Vec<Vec<Fr>>| -> Vec<VerifierQuery<G1Affine, MSMKZG<Bn256>>> { pat.iter().map(|&(c, x)| if as_msm[c] { VerifierQuery::new_msm(&msms[c], xs[x], ev[c][x]) } else { VerifierQuery::new_commitment(&aff[c], xs[x], ev[c][x]) }).collect() };
    let point = |x: Fr| (g * x).to_affine().to_bytes().as_ref().to_vec();
    let gwc = r.below(2) == 1;
    let mut t = Blake2bRead::<_, G1Affine, Challenge255<G1Affine>>::init(&[][..]);
    let y = t.squeeze_challenge().get_scalar();
    let (bytes, u, wit): (Vec<u8>, Fr, Vec<Fr>);
    let sets_sh: Vec<(Vec<usize>, Vec<usize>)>; let mut sets_g: Vec<(usize, Vec<usize>)> = vec![];
    {
        let mut cl: Vec<(usize, Vec<usize>)> = vec![];
        for &(c, x) in &pat { match cl.iter_mut().find(|z| z.0 == c) { Some(z) => { if !z.1.contains(&x) { z.1.push(x); z.1.sort() } }, None => cl.push((c, vec![x])) } }
        let mut v: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        for (c, s) in cl { match v.iter_mut().find(|z| z.0 == s) { Some(z) => z.1.push(c), None => v.push((s, vec![c])) } }
        sets_sh = v;
        for &(c, x) in &pat { match sets_g.iter_mut().find(|z| z.0 == x) { Some(z) => z.1.push(c), None => sets_g.push((x, vec![c])) } }
    }
    let used: Vec<usize> = (0..np).filter(|x| pat.iter().any(|q| q.1 == *x)).collect();
    // the residue of the equation without the last witness, and the factor of that witness
    if gwc {
        let v = y; let mut w: Vec<Fr> = sets_g.iter().map(|_| rf(r)).collect();
        // (s - x_i) W_i = sum_j v^j (C_j - e_j) for every point
        for (i, (x, c)) in sets_g.iter().enumerate() { w[i] = c.iter().enumerate().map(|(j, &c)| pw(v, j) * (cs[c] - ev[c][*x])).fold(Fr::zero(), |a, b| a + b) * (s - xs[*x]).invert().unwrap(); }
        let b: Vec<u8> = w.iter().flat_map(|x| point(*x)).collect();
        u = Fr::zero(); bytes = b; wit = w;
    } else {
        let v = t.squeeze_challenge().get_scalar(); let h1 = rf(r);
        t.common_point((g * h1).to_affine()).unwrap(); u = t.squeeze_challenge().get_scalar();
        let z = |l: &[usize]| l.iter().fold(Fr::one(), |a, x| a * (u - xs[*x]));
        let diff = |l: &[usize]| { let d: Vec<usize> = used.iter().copied().filter(|x| !l.contains(x)).collect(); z(&d) };
        let mut right = Fr::zero(); let i0 = diff(&sets_sh[0].0).invert().unwrap();
        for (i, (l, c)) in sets_sh.iter().enumerate() {
            let mut inner = Fr::zero();
            for (j, &c) in c.iter().enumerate() {
                let mut ru = Fr::zero();
                for &a in l { let mut t = ev[c][a]; for &b in l { if a != b { t = t * (u - xs[b]) * (xs[a] - xs[b]).invert().unwrap() } } ru = ru + t }
                inner = inner + pw(y, j) * (cs[c] - ru);
            }
            right = right + pw(v, i) * diff(l) * i0 * inner;
        }
        let h2 = (right - z(&sets_sh[0].0) * h1) * (s - u).invert().unwrap();
        bytes = [point(h1), point(h2)].concat(); wit = vec![h1, h2];
    }
    let verdict = |bytes: &[u8], ev: &Vec<Vec<Fr>>| -> Option<bool> { catch(|| {
        let mut t = Blake2bRead::<_, G1Affine, Challenge255<G1Affine>>::init(bytes);
        let acc = DualMSM::new(&p);
        let g = if gwc { VerifierGWC::new(&p).verify_proof(&mut t, qs(ev), acc).map_err(|_| ()) } else { VerifierSHPLONK::new(&p).verify_proof(&mut t, qs(ev), acc).map_err(|_| ()) };
        match g { Ok(g) => VerificationStrategy::<Sch, VerifierGWC<_>>::process(SingleStrategy::new(&p), |_| Ok(g)).is_ok(), Err(_) => false }
    }) };
    let info = |x: String| format!("{}; {} queries (commitment, point) {:?}; points {:?}; MSM {:?}; secret {:?}; commitments [c]G {:?}; claims {:?}; witnesses {:?}, u {:?}", x, if gwc { "GWC" } else { "SHPLONK" }, pat, xs, as_msm, s, cs, ev, wit, u);
    n += 1;
    match verdict(&bytes, &ev) { Some(true) => {}, x => fail("an opening that satisfies its equation is not accepted", &info(format!("{:?}", x))) }
    // other claims with the same witnesses
    for k in 0..5 {
        let mut e = honest.clone(); let d = rf(r);
        let (c, x) = pat[r.below(nq)]; e[c][x] = e[c][x] + d;
        if k > 1 { let (c2, x2) = pat[r.below(nq)]; if (c2, x2) == (c, x) { continue } e[c2][x2] = e[c2][x2] - d; if k == 4 { let t = e[c][x]; e[c][x] = honest[c2][x2]; e[c2][x2] = honest[c][x]; let _ = t; } }
        if pat.iter().all(|&(c, x)| e[c][x] == honest[c][x]) { continue }
        n += 1;
        match verdict(&bytes, &e) { Some(false) => {}, x => fail("an opening is accepted for values the commitments do not have", &info(format!("{:?} for claims {:?}", x, e))) }
    }
    for i in 0..wit.len() { let mut b = bytes.clone(); b[i * 32..i * 32 + 32].copy_from_slice(&point(wit[i] + rf(r))); n += 1; match verdict(&b, &ev) { Some(false) => {}, x => fail("an opening is accepted with another witness", &info(format!("{:?}, witness {}", x, i))) } }
    n
}
fn main() {
    quiet(); guard(120, 10);
    let a = args(); let mut r = Rng(a.seed);
    let mode = a.rest.first().cloned().unwrap_or_default();
    let mut n = 0;
    for it in 0..a.iters {
        let seed = r.u64(); let mut q = Rng(seed);
        case(format!("{} circuit seed {}", mode, seed));
        if mode == "kzg" { n += kzg(&mut q); continue }
        let mut s = if mode == "honest" { tight_shape(&mut q) } else { gen_shape(&mut q) };
        n += if it % 4 == 3 { run::<1>(&mut q, &mut s, &mode) } else { run::<0>(&mut q, &mut s, &mode) };
    }
    case_end();
    done(n, "proof cases over random circuits (gates, selectors, lookups, copies, challenges, SHPLONK/GWC, one or two proofs)");
}
