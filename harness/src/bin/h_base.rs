//! native stage for the zkVM circuit: a recording `Assignment`, an independent evaluator of gates, lookups and
//! copy constraints, honest and forged traces
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_base::utils::DOMAIN;
use ckb_bf_vm::interpreter::{Interpreter, Register};
use ckb_bf_vm::matrix::*;
use ff::{Field, PrimeField};
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::*;
use halo2curves::bn256::Fr;
use harness::*;
use std::collections::{HashMap, HashSet};

type C<const R: usize> = MyCircuit<Fr, R>;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Col { A(usize), F(usize), I(usize) }
fn col(c: Column<Any>) -> Col { match c.column_type() { Any::Advice(_) => Col::A(c.index()), Any::Fixed => Col::F(c.index()), Any::Instance => Col::I(c.index()) } }
fn seli(s: &Selector) -> usize { let d = format!("{:?}", s); d.trim_start_matches("Selector(").split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap() }

#[derive(Clone, Default)]
struct Rec {
    cells: HashMap<Col2, Fr>, sel: HashSet<(usize, usize)>, fill: HashMap<usize, (usize, Fr)>,
    copies: Vec<(Col, usize, Col, usize)>, inst: Vec<Vec<Fr>>, chal: Vec<Fr>, rows: usize, unknown: bool, dup: Option<String>,
}
type Col2 = (Col, usize);
impl Assignment<Fr> for Rec {
    fn enter_region<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn annotate_column<A, AR>(&mut self, _: A, _: Column<Any>) where A: FnOnce() -> AR, AR: Into<String> {}
    fn exit_region(&mut self) {}
    fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error> where A: FnOnce() -> AR, AR: Into<String> {
        self.sel.insert((seli(s), row)); self.rows = self.rows.max(row + 1); Ok(()) }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<Fr>, Error> { Ok(Value::known(self.inst[c.index()].get(row).copied().unwrap_or(Fr::zero()))) }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fr>>, A: FnOnce() -> AR, AR: Into<String> {
        let v = match to().inner { Some(v) => { let a: Assigned<Fr> = v.into(); a.evaluate() } None => { self.unknown = true; Fr::zero() } };
        if let Some(o) = self.cells.insert((Col::A(c.index()), row), v) { if o != v { self.dup = Some(format!("advice {} row {} assigned twice with different values", c.index(), row)) } }
        self.rows = self.rows.max(row + 1); Ok(()) }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fr>>, A: FnOnce() -> AR, AR: Into<String> {
        let v = match to().inner { Some(v) => { let a: Assigned<Fr> = v.into(); a.evaluate() } None => { self.unknown = true; Fr::zero() } };
        self.cells.insert((Col::F(c.index()), row), v); self.rows = self.rows.max(row + 1); Ok(()) }
    fn copy(&mut self, a: Column<Any>, ar: usize, b: Column<Any>, br: usize) -> Result<(), Error> { self.copies.push((col(a), ar, col(b), br)); Ok(()) }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<Fr>>) -> Result<(), Error> {
        self.fill.insert(c.index(), (row, to.inner.map(|x| x.evaluate()).unwrap_or(Fr::zero()))); Ok(()) }
    fn get_challenge(&self, c: Challenge) -> Value<Fr> { Value::known(self.chal[c.index()]) }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}
impl Rec {
    fn get(&self, c: Col, row: i64) -> Fr {
        if row < 0 { return Fr::zero() }
        let row = row as usize;
        match c {
            Col::I(i) => self.inst[i].get(row).copied().unwrap_or(Fr::zero()),
            Col::F(i) => if let Some(v) = self.cells.get(&(c, row)) { *v } else { match self.fill.get(&i) { Some((s, v)) if row >= *s => *v, _ => Fr::zero() } },
            _ => self.cells.get(&(c, row)).copied().unwrap_or(Fr::zero()),
        }
    }
    fn eval(&self, e: &Ex, row: usize) -> Fr {
        match e {
            Ex::C(c) => *c,
            Ex::S(i) => if self.sel.contains(&(*i, row)) { Fr::one() } else { Fr::zero() },
            Ex::Q(c, r) => self.get(*c, row as i64 + r),
            Ex::Ch(i) => self.chal[*i],
            Ex::Neg(a) => -self.eval(a, row),
            Ex::Add(a, b) => self.eval(a, row) + self.eval(b, row),
            Ex::Mul(a, b) => { let x = self.eval(a, row); if x.is_zero().unwrap_u8() == 1 { return x } x * self.eval(b, row) }
        }
    }
}
enum Ex { C(Fr), S(usize), Q(Col, i64), Ch(usize), Neg(Box<Ex>), Add(Box<Ex>, Box<Ex>), Mul(Box<Ex>, Box<Ex>) }
fn conv(e: &Expression<Fr>) -> Ex {
    e.evaluate(&|c| Ex::C(c), &|s| Ex::S(seli(&s)), &|q| Ex::Q(Col::F(q.column_index()), q.rotation().0 as i64), &|q| Ex::Q(Col::A(q.column_index()), q.rotation().0 as i64),
        &|q| Ex::Q(Col::I(q.column_index()), q.rotation().0 as i64), &|c| Ex::Ch(c.index()), &|a| Ex::Neg(Box::new(a)), &|a, b| Ex::Add(Box::new(a), Box::new(b)), &|a, b| Ex::Mul(Box::new(a), Box::new(b)), &|a, s| Ex::Mul(Box::new(a), Box::new(Ex::C(s))))
}
fn cl(m: &Matrix) -> Matrix { let mut o = Matrix::default(); o.program = m.program.clone(); o.processor_matrix = m.processor_matrix.clone(); o.memory_matrix = m.memory_matrix.iter().map(|x| mrow(x.cycle, x.memory_pointer, x.memory_value)).collect(); o.instruction_matrix = m.instruction_matrix.iter().map(|x| irow(x.instruction_pointer, x.current_instruction, x.next_instruction)).collect(); o.input_matrix = m.input_matrix.clone(); o.output_matrix = m.output_matrix.clone(); o }
fn mrow(clk: Fr, mp: Fr, mv: Fr) -> MemoryMatrixRow { MemoryMatrixRow::from(&Register { cycle: clk, memory_pointer: mp, memory_value: mv, ..Default::default() }) }
fn irow(ip: Fr, ci: Fr, ni: Fr) -> InstructionMatrixRow { InstructionMatrixRow::from(&Register { instruction_pointer: ip, current_instruction: ci, next_instruction: ni, ..Default::default() }) }
struct Sys { cs: ConstraintSystem<Fr>, cfg: String, eq: HashSet<Col>, gates: Vec<Ex>, lks: Vec<(Vec<Ex>, Vec<Ex>)> }
fn sys<const R: usize>() -> (Sys, <C<R> as Circuit<Fr>>::Config) {
    let mut cs = ConstraintSystem::<Fr>::default();
    let cfg = C::<R>::configure(&mut cs);
    let eq = cs.permutation().get_columns().into_iter().map(col).collect();
    let d = format!("{:?}", cfg);
    let gates = cs.gates().iter().flat_map(|g| g.polynomials().iter().map(conv).collect::<Vec<_>>()).collect();
    let lks = cs.lookups().iter().map(|l| (l.input_expressions.iter().map(conv).collect(), l.table_expressions.iter().map(conv).collect())).collect();
    (Sys { cs, cfg: d, eq, gates, lks }, cfg)
}
fn record<const R: usize>(m: &Matrix, inst: Vec<Vec<Fr>>, chal: Vec<Fr>) -> Option<(Sys, Rec)> {
    let (s, cfg) = sys::<R>();
    let mut rec = Rec { inst, chal, ..Default::default() };
    let circuit = C::<R>::new(cl(m));
    let consts = s.cs.constants().clone();
    let r = catch(std::panic::AssertUnwindSafe(|| <C<R> as Circuit<Fr>>::FloorPlanner::synthesize(&mut rec, &circuit, cfg, consts)))?;
    r.ok()?;
    Some((s, rec))
}
/// first violated constraint of the recorded assignment
fn verdict(s: &Sys, r: &Rec) -> Result<(), String> {
    for (k, p) in s.gates.iter().enumerate() { for row in 0..r.rows + 1 { if r.eval(p, row) != Fr::zero() { return Err(format!("gate polynomial {} at row {}", k, row)) } } }
    for (inp, tab) in &s.lks {
        let t: HashSet<Vec<[u8; 32]>> = (0..r.rows + 1).map(|row| tab.iter().map(|e| r.eval(e, row).to_repr()).collect()).collect();
        for row in 0..r.rows + 1 { let v: Vec<[u8; 32]> = inp.iter().map(|e| r.eval(e, row).to_repr()).collect(); if !t.contains(&v) { return Err(format!("lookup at row {}", row)) } }
    }
    for (a, ar, b, br) in &r.copies {
        if !s.eq.contains(a) || !s.eq.contains(b) { return Err("copy on a column without equality".into()) }
        if r.get(*a, *ar as i64) != r.get(*b, *br as i64) { return Err(format!("copy {:?}@{} = {:?}@{}", a, ar, b, br)) } }
    Ok(())
}
fn f(v: u64) -> Fr { Fr::from(v) }
fn fs(v: &[u64]) -> Vec<Fr> { v.iter().map(|x| f(*x)).collect() }
fn compile(src: &[u8]) -> Option<Vec<u64>> {
    let mut out: Vec<u64> = vec![]; let mut st = vec![];
    for &c in src {
        if !b"<>+-,.[]".contains(&c) { continue }
        match c {
            b'[' => { st.push(out.len()); out.push(c as u64); out.push(0) }
            b']' => { let lb = st.pop()?; let rb = out.len(); out.push(c as u64); out.push(lb as u64 + 2); out[lb + 1] = rb as u64 + 2 }
            _ => out.push(c as u64),
        }
    }
    if st.is_empty() && !out.is_empty() { Some(out) } else { None }
}
/// what a cheating prover changes at step `at`
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault { None, Mv(u64), Big(u64), Mp(i64), Ip(i64), IpTo(u64), OtherBranch, Ci(u64), ReadOther(u64), ReadFree, OutOther, Stop, Land(u64), Wrap(u64), Mvi(u64), Clk(i64), Skip }
#[derive(Clone, Default)]
struct Init { clk: u64, ip: u64, mp: u64, mv: u64 }
struct Tr { m: Matrix, faulted: bool }
/// builds a whole trace of a (possibly cheating) run; all tables consistent with the cheated rows
fn trace(code: &[u64], input: &[u64], range: u64, cap: usize, at: usize, fault: Fault, init: Init) -> Option<Tr> {
    let get = |i: u64| code.get(i as usize).copied().unwrap_or(0);
    let (mut ip, mut mp, mut clk) = (init.ip, init.mp, init.clk);
    let mut used = 0usize; let mut mem: HashMap<u64, u64> = HashMap::new(); mem.insert(mp, init.mv);
    let mut rows: Vec<[u64; 5]> = vec![]; let mut mvis: Vec<Option<u64>> = vec![]; let mut out = vec![]; let mut inp = vec![]; let mut faulted = false;
    let mut step = 0usize;
    loop {
        let mv = *mem.entry(mp).or_insert(0);
        let end = ip >= code.len() as u64;
        let mut ci = if end { 0 } else { get(ip) };
        let hit = step == at;
        if hit { if let Fault::Ci(o) = fault { if o != ci { ci = o; faulted = true } } }
        rows.push([clk, ip, ci, if end { 0 } else { get(ip + 1) }, mp]);
        mvis.push(None);
        if hit { if let Fault::Mvi(x) = fault { if f(x) * f(mv) != Fr::one() && !(mv == 0 && x == 0) { *mvis.last_mut().unwrap() = Some(x); faulted = true } } }
        out.push((rows.len() - 1, mv));
        if (end && ci == 0) || (hit && fault == Fault::Stop) { if !end { faulted = true } break }
        if rows.len() > cap { return None }
        let cur = mv; let r = range;
        let mut nmv = mv; let (mut nip, mut nmp) = (ip + 1, mp);
        match ci as u8 {
            b'<' => { if mp == 0 { return None } nmp = mp - 1 }
            b'>' => nmp = mp + 1,
            b'+' => nmv = ((mv as u128 + 1) % r as u128) as u64, b'-' => nmv = ((mv as u128 + r as u128 - 1) % r as u128) as u64,
            b',' => { if used == input.len() { return None } nmv = input[used]; used += 1;
                if hit { match fault { Fault::ReadOther(v) if v != nmv => { nmv = v; faulted = true } Fault::ReadFree => used -= 1, _ => {} } } inp.push(nmv) }
            b'.' => {}
            b'[' => nip = if cur == 0 { get(ip + 1) } else { ip + 2 },
            b']' => nip = if cur != 0 { get(ip + 1) } else { ip + 2 },
            _ => return None,
        }
        if hit { match fault {
            Fault::Mv(d) if d % r != 0 && nmp == mp => { nmv = (nmv + d) % r; faulted = true }
            Fault::Wrap(v) if nmv != v && nmp == mp => { nmv = v; faulted = true }
            Fault::Big(v) if nmp == mp => { nmv = v; faulted = true }
            Fault::Mp(d) => { let x = nmp as i64 + d; if x < 0 || d == 0 { return None } nmp = x as u64; faulted = true }
            Fault::Ip(d) => { let x = nip as i64 + d; if x < 0 || d == 0 { return None } nip = x as u64; faulted = true }
            Fault::IpTo(v) if v != nip => { nip = v; faulted = true }
            Fault::OtherBranch if ci as u8 == b'[' || ci as u8 == b']' => { let o = if nip == ip + 2 { get(ip + 1) } else { ip + 2 }; if o == nip { return None } nip = o; faulted = true }
            _ => {} } }
        mem.insert(mp, nmv);
        if hit { if let Fault::Land(v) = fault { if nmp != mp { let o = *mem.entry(nmp).or_insert(0); if o != v { mem.insert(nmp, v); faulted = true } } } }
        ip = nip; mp = nmp; clk += 1;
        if hit { if let Fault::Clk(d) = fault { clk = (clk as i64 + d) as u64; faulted = true } }
        step += 1;
    }
    if fault == Fault::ReadFree { faulted = inp != input[..inp.len().min(input.len())] }
    let val = |v: u64| if v >= 1 << 40 { -f(v.wrapping_neg()) } else { f(v) };
    let mut m = Matrix::default();
    m.program = fs(code);
    m.input_matrix = fs(&inp);
    let mut ir: Vec<[u64; 3]> = (0..code.len() as u64).map(|i| [i, get(i), get(i + 1)]).collect();
    let mut mr = vec![];
    let mut outs = vec![];
    for (k, r) in rows.iter().enumerate() {
        let mv = out[k].1; let fmv = val(mv);
        let inv = match mvis[k] { Some(x) => f(x), None => if mv == 0 { Fr::zero() } else { fmv.invert().unwrap() } };
        m.processor_matrix.push(Register { cycle: f(r[0]), instruction_pointer: f(r[1]), current_instruction: f(r[2]), next_instruction: f(r[3]), memory_pointer: f(r[4]), memory_value: fmv, memory_value_inverse: inv });
        ir.push([r[1], r[2], r[3]]); mr.push((r[4], r[0], fmv));
        if r[2] == b'.' as u64 && k + 1 < rows.len() { outs.push(fmv) }
    }
    if fault == Fault::OutOther { if at < outs.len() { outs[at] += Fr::one(); faulted = true } else { return None } }
    if fault == Fault::Skip { if at < outs.len() { let z = outs[..=at].iter().all(|x| *x == Fr::zero()); outs.remove(at); faulted = !z } else { return None } }
    ir.sort_by_key(|x| x[0]); mr.sort_by_key(|x| (x.0, x.1));
    m.instruction_matrix = ir.iter().map(|x| irow(f(x[0]), f(x[1]), f(x[2]))).collect();
    m.memory_matrix = mr.iter().map(|x| mrow(f(x.1), f(x.0), x.2)).collect();
    m.output_matrix = outs;
    Some(Tr { m, faulted })
}
fn pubs(code: &[Fr], input: &[Fr]) -> Vec<Vec<Fr>> {
    let mk = |v: &[Fr]| { let mut o = vec![f(v.len() as u64)]; o.extend_from_slice(v); o };
    vec![mk(code), mk(input)]
}
fn challenges(r: &mut Rng) -> Vec<Fr> { (0..16).map(|_| Fr::random(&mut *r)).collect() }
fn hx(v: Fr) -> String { let mut s = String::from("0x"); for b in v.to_repr().iter().rev() { s += &format!("{:02x}", b) } s }

const PROGS: [(&str, &[u64]); 14] = [("+", &[]), ("+>+<.", &[]), (",.", &[65]), (",>,<.>.", &[0, 255]), ("-.", &[]), ("+[-]", &[]), ("[+]", &[]), ("++[>+<-]>.", &[]), (",[.,]", &[3, 9, 0]), ("[-]>+<[.]>-", &[]),
    (",[->+>+<<]>>[-<<+>>]<.", &[4]), ("+++[>++[>+<-]<-]>>.", &[]), (">>,<<,>.>.", &[7, 200]), (",+.,-.", &[255, 0])];
fn progs(r: &mut Rng, n: u64) -> Vec<(Vec<u8>, Vec<u64>)> {
    let mut v: Vec<(Vec<u8>, Vec<u64>)> = PROGS.iter().map(|(s, i)| (s.as_bytes().to_vec(), i.to_vec())).collect();
    let mut wrap = vec![b'+'; 256]; wrap.extend_from_slice(b".-."); v.push((wrap, vec![]));
    for _ in 0..n {
        let mut s = vec![]; let len = 1 + r.below(14); let mut d = 0;
        while s.len() < len { match r.below(12) { 0 => { s.push(b'['); d += 1 } 1 if d > 0 => { s.push(b']'); d -= 1 } 2 => s.extend_from_slice(b"[-]"), 3 => s.push(b','), 4 => s.push(b'.'), 5 | 6 => s.push(b'>'), 7 => s.push(b'<'), 8 | 9 => s.push(b'+'), 10 => s.push(b'-'), _ => s.extend_from_slice(b"++[>+<-]") } }
        while d > 0 { s.push(b']'); d -= 1 }
        let k = r.below(4); v.push((s, (0..k).map(|_| match r.below(3) { 0 => 0, 1 => 255, _ => r.u64() % 256 }).collect()));
    }
    v
}
fn show(s: &[u8], i: &[u64], fault: &str) -> String { format!("program {:?} input {:?} {}", String::from_utf8_lossy(s), i, fault) }

fn dump<const R: usize>(src: &[u8], input: &[u64], r: &mut Rng) {
    let code = compile(src).unwrap();
    let mut it = Interpreter::new(); it.set_code(fs(&code)); it.set_input(fs(input)); it.run();
    let m = it.matrix;
    let (s, rec) = match record::<R>(&m, pubs(&fs(&code), &m.input_matrix.clone()), challenges(r)) { Some(x) => x, None => { println!("{{\"nodump\":1}}"); return } };
    let e2s = |e: &Expression<Fr>| e.evaluate(&|c| format!("[\"c\",\"{}\"]", hx(c)), &|s| format!("[\"s\",{}]", seli(&s)), &|q| format!("[\"f\",{},{}]", q.column_index(), q.rotation().0), &|q| format!("[\"a\",{},{}]", q.column_index(), q.rotation().0),
        &|q| format!("[\"i\",{},{}]", q.column_index(), q.rotation().0), &|c| format!("[\"ch\",{}]", c.index()), &|a| format!("[\"neg\",{}]", a), &|a, b| format!("[\"+\",{},{}]", a, b), &|a, b| format!("[\"*\",{},{}]", a, b), &|a, s| format!("[\"*\",{},[\"c\",\"{}\"]]", a, hx(s)));
    let gates: Vec<String> = s.cs.gates().iter().map(|g| format!("[{}]", g.polynomials().iter().map(|p| e2s(p)).collect::<Vec<_>>().join(","))).collect();
    let lks: Vec<String> = s.cs.lookups().iter().map(|l| format!("[[{}],[{}]]", l.input_expressions.iter().map(|p| e2s(p)).collect::<Vec<_>>().join(","), l.table_expressions.iter().map(|p| e2s(p)).collect::<Vec<_>>().join(","))).collect();
    let cj = |c: &Col| match c { Col::A(i) => format!("[\"a\",{}]", i), Col::F(i) => format!("[\"f\",{}]", i), Col::I(i) => format!("[\"i\",{}]", i) };
    let sel: Vec<String> = rec.sel.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
    let cells: Vec<String> = rec.cells.iter().map(|((c, r), v)| format!("[{},{},\"{}\"]", cj(c), r, hx(*v))).collect();
    let fill: Vec<String> = rec.fill.iter().map(|(c, (r, v))| format!("[{},{},\"{}\"]", c, r, hx(*v))).collect();
    let copies: Vec<String> = rec.copies.iter().map(|(a, ar, b, br)| format!("[{},{},{},{}]", cj(a), ar, cj(b), br)).collect();
    let eq: Vec<String> = s.eq.iter().map(|c| cj(c)).collect();
    let ph: Vec<String> = s.cs.advice_column_phase().iter().map(|x| x.to_string()).collect();
    let chp: Vec<String> = s.cs.challenge_phase().iter().map(|x| x.to_string()).collect();
    println!("{{\"dump\":1,\"config\":\"{}\",\"gates\":[{}],\"lookups\":[{}],\"sel\":[{}],\"cells\":[{}],\"fill\":[{}],\"copies\":[{}],\"eq\":[{}],\"phase\":[{}],\"chphase\":[{}],\"np\":{},\"nm\":{},\"ni\":{},\"nin\":{},\"nout\":{},\"ncode\":{}}}",
        esc(&s.cfg), gates.join(","), lks.join(","), sel.join(","), cells.join(","), fill.join(","), copies.join(","), eq.join(","), ph.join(","), chp.join(","),
        m.processor_matrix.len(), m.memory_matrix.len(), m.instruction_matrix.len(), m.input_matrix.len(), m.output_matrix.len(), code.len());
}
fn honest<const R: usize>(src: &[u8], input: &[u64], r: &mut Rng, bits: u64) -> Option<(Vec<u64>, Matrix)> {
    let code = compile(src)?;
    trace(&code, input, R as u64, 1500, usize::MAX, Fault::None, Init::default())?;
    let shown = show(src, input, "");
    case(shown.clone());
    let m = catch(|| { let mut it = Interpreter::new(); it.set_code(fs(&code)); it.set_input(fs(input)); if bits != 8 { it.set_bits(bits) } it.run(); it.matrix })?;
    case_end();
    let p = pubs(&fs(&code), &m.input_matrix.clone());
    match record::<R>(&m, p, challenges(r)) {
        None => { fail("synthesis of an honest run fails", &shown); None }
        Some((s, rec)) => {
            if rec.unknown { fail("synthesis leaves witness values unknown", &shown) }
            if let Some(d) = &rec.dup { fail("conflicting cell assignment", &format!("{} {}", shown, d)) }
            if let Err(e) = verdict(&s, &rec) { fail("an honest run does not satisfy the circuit", &format!("{}: {}", shown, e)); return None }
            Some((code, m))
        }
    }
}
fn reject<const R: usize>(what: &str, shown: &str, m: &Matrix, inst: Vec<Vec<Fr>>, r: &mut Rng) -> bool {
    match record::<R>(m, inst, challenges(r)) {
        None => true,
        Some((s, rec)) => match verdict(&s, &rec) { Err(_) => match repaired(&s, &rec) { None => true, Some(w) => { fail(what, &format!("{}; the prover also sets {}", shown, w)); false } }, Ok(()) => { fail(what, shown); false } },
    }
}
/// a prover may also rewrite witness cells at the ends of failing equalities; is the result accepted?
fn repaired(s: &Sys, r: &Rec) -> Option<String> {
    let bad: Vec<_> = r.copies.iter().filter(|(a, ar, b, br)| r.get(*a, *ar as i64) != r.get(*b, *br as i64)).collect();
    if bad.is_empty() || bad.len() > 6 { return None }
    for mask in 0..1u32 << bad.len() {
        let mut q = r.clone(); let mut w = String::new(); let mut ok = true;
        for (k, (a, ar, b, br)) in bad.iter().enumerate() {
            let (x, xr, y, yr) = if mask >> k & 1 == 0 { (*a, *ar, *b, *br) } else { (*b, *br, *a, *ar) };
            if !matches!(x, Col::A(_)) { ok = false; break }
            q.cells.insert((x, xr), q.get(y, yr as i64)); w += &format!("{:?}@{} = {:?}@{} ", x, xr, y, yr);
        }
        if ok && verdict(s, &q).is_ok() { return Some(w) }
    }
    None
}
/// a matrix from explicit rows [clk, ip, ci, ni, mp, mv] (signed), memory rows in the given order
fn build(code: &[u64], rows: &[[i64; 6]], listing: Vec<[i64; 3]>, mem: Option<Vec<[i64; 3]>>, input: &[u64]) -> Matrix {
    let g = |v: i64| if v < 0 { -f((-v) as u64) } else { f(v as u64) };
    let mut m = Matrix::default(); m.program = fs(code); m.input_matrix = fs(input);
    for r in rows { let mv = g(r[5]); m.processor_matrix.push(Register { cycle: g(r[0]), instruction_pointer: g(r[1]), current_instruction: g(r[2]), next_instruction: g(r[3]), memory_pointer: g(r[4]), memory_value: mv, memory_value_inverse: Option::<Fr>::from(mv.invert()).unwrap_or(Fr::zero()) }) }
    let mut ir = listing; ir.extend(rows.iter().map(|r| [r[1], r[2], r[3]])); ir.sort_by_key(|x| x[0]);
    let mr = mem.unwrap_or_else(|| { let mut v: Vec<[i64; 3]> = rows.iter().map(|r| [r[0], r[4], r[5]]).collect(); v.sort_by_key(|x| (x[1], x[0])); v });
    m.instruction_matrix = ir.iter().map(|x| irow(g(x[0]), g(x[1]), g(x[2]))).collect();
    m.memory_matrix = mr.iter().map(|x| mrow(g(x[0]), g(x[1]), g(x[2]))).collect();
    for (k, r) in rows.iter().enumerate() { if r[2] == b'.' as i64 && k + 1 < rows.len() { m.output_matrix.push(g(r[5])) } }
    m
}
fn listing(code: &[u64], shift: i64) -> Vec<[i64; 3]> { (0..code.len()).map(|i| [i as i64 - shift, code[i] as i64, code.get(i + 1).copied().unwrap_or(0) as i64]).collect() }
/// runs of a prover that does not follow the interpreter: all must be refused
fn strategies(r: &mut Rng) -> u64 {
    let mut n = 0;
    let c = |s: &str| compile(s.as_bytes()).unwrap();
    let (inc, dec, out, shl, shr, get, rb) = (b'+' as i64, b'-' as i64, b'.' as i64, b'<' as i64, b'>' as i64, b',' as i64, b']' as i64);
    let pb = |code: &[u64], inp: &[u64]| pubs(&fs(code), &fs(inp));
    // left of the first cell
    for v in [0i64, 7] { let code = c("<."); let rows = [[0, 0, shl, out, 0, 0], [1, 1, out, 0, -1, v], [2, 2, 0, 0, -1, v]];
        n += 1; reject::<DOMAIN>("a run that leaves the tape is accepted", &format!("program \"<.\", cell -1 holds {}", v), &build(&code, &rows, listing(&code, 0), None, &[]), pb(&code, &[]), r); }
    // first memory row not zero: the processor starts at cell 0 = 0, but the table also lists an earlier row
    // a jump to a target that is not in the program
    { let code = c("[+]."); let mut l = listing(&code, 0); l[0][2] = 2;
        let rows = [[0, 0, b'[' as i64, 2, 0, 0], [1, 2, inc, rb, 0, 0], [2, 3, rb, 2, 0, 1], [3, 2, inc, rb, 0, 1]];
        let mut rows = rows.to_vec(); let mut clk = 3; let mut mv = 1i64;
        while mv != 0 { mv = (mv + 1) % 256; clk += 1; rows.push([clk, 3, rb, 2, 0, mv]); if mv == 0 { break } clk += 1; rows.push([clk, 2, inc, rb, 0, mv]) }
        rows.push([clk + 1, 5, out, 0, 0, 0]); rows.push([clk + 2, 6, 0, 0, 0, 0]);
        n += 1; reject::<DOMAIN>("a jump to a target that is not in the program is accepted", "program \"[+].\", the loop is entered on a zero cell", &build(&code, &rows, l, None, &[]), pb(&code, &[]), r); }
    { let code = c("+[-]."); let mut l = listing(&code, 0); l[1][2] = 5; l[4][2] = 3; // ] jumps to itself plus...
        let rows = [[0, 0, inc, b'[' as i64, 0, 0], [1, 1, b'[' as i64, 5, 0, 1], [2, 3, dec, rb, 0, 1], [3, 4, rb, 3, 0, 0], [4, 6, out, 0, 0, 0], [5, 7, 0, 0, 0, 0]];
        n += 1; reject::<DOMAIN>("a next-instruction column that is not the program is accepted", "program \"+[-].\" with altered next instructions", &build(&code, &rows, l, None, &[]), pb(&code, &[]), r); }
    // start in the middle of the program
    { let code = c("+-."); for s in [1i64, 2] { let mut rows = vec![]; let mut mv = 0;
        for k in s..3 { rows.push([k - s, k - s, code[k as usize] as i64, code.get(k as usize + 1).copied().unwrap_or(0) as i64, 0, mv]); if code[k as usize] as i64 == dec { mv = 255 } }
        rows.push([3 - s, 3 - s, 0, 0, 0, mv]);
        n += 1; reject::<DOMAIN>("a run that starts in the middle of the program is accepted", &format!("program \"+-.\", first instruction {}", s), &build(&code, &rows, listing(&code, s), None, &[]), pb(&code, &[]), r); } }
    // an instruction executed past the end of the program
    { let code = c("+"); let rows = [[0, 0, inc, 0, 0, 0], [1, 1, rb, 0, 0, 1], [2, 0, inc, 0, 0, 1], [3, 1, rb, 0, 0, 2]];
        n += 1; reject::<DOMAIN>("a run that continues past the end of the program is accepted", "program \"+\" executed twice", &build(&code, &rows, listing(&code, 0), None, &[]), pb(&code, &[]), r);
        let mut l = listing(&code, 0); l[0][2] = rb;
        let rows = [[0, 0, inc, rb, 0, 0], [1, 1, rb, 0, 0, 1], [2, 0, inc, rb, 0, 1], [3, 1, rb, 0, 0, 2]];
        n += 1; reject::<DOMAIN>("a run that continues past the end of the program is accepted", "program \"+\" executed twice (next instruction altered)", &build(&code, &rows, l, None, &[]), pb(&code, &[]), r);
        let code = c("+-"); let rows = [[0, 0, inc, dec, 0, 0], [1, 1, dec, 0, 0, 1]];
        n += 1; reject::<DOMAIN>("a run that stops early is accepted", "program \"+-\" stops after one step", &build(&code, &rows, listing(&code, 0), None, &[]), pb(&code, &[]), r);
        let rows = [[0, 0, inc, dec, 0, 0], [1, 1, dec, 0, 0, 1], [2, 2, 0, 0, 0, 0], [3, 0, inc, dec, 0, 0]];
        n += 1; reject::<DOMAIN>("a run that restarts is accepted", "program \"+-\" restarts after its end", &build(&code, &rows, listing(&code, 0), None, &[]), pb(&code, &[]), r); }
    // an instruction that is not in the program and not an opcode
    { let code = c("+-"); let rows = [[0, 0, 7, dec, 0, 0], [1, 1, dec, 0, 0, 0], [2, 2, 0, 0, 0, 255]];
        n += 1; reject::<DOMAIN>("an illegal instruction is accepted", "program \"+-\", first instruction 7", &build(&code, &rows, listing(&code, 0), None, &[]), pb(&code, &[]), r); }
    // inputs of the public statement that the run never read
    for (rest, lead) in [(vec![255u64], vec![0u64]), (vec![3], vec![0, 0]), (vec![3], vec![9]), (vec![3], vec![1])] { let code = c(",."); let v = rest[0] as i64;
        let rows = [[0, 0, get, out, 0, 0], [1, 1, out, 0, 0, v], [2, 2, 0, 0, 0, v]];
        let mut full = lead.clone(); full.extend(rest);
        n += 1; reject::<DOMAIN>("a run that skips a public input value is accepted", &format!("program \",.\", public input {:?}, run reads {}", full, v), &build(&code, &rows, listing(&code, 0), None, &full), pb(&code, &full), r); }
    // running products and sums that do not start at their initial values
    { let code = c("+>+<."); let rows = [[0, 0, inc, shr, 0, 0], [1, 1, shr, inc, 0, 1], [2, 2, inc, shl, 1, 0], [3, 3, shl, out, 1, 1], [4, 4, out, 0, 0, 9], [5, 5, 0, 0, 0, 9]];
        let m = build(&code, &rows, listing(&code, 0), Some(vec![[0, 0, 0], [1, 0, 1], [4, 0, 1], [5, 0, 1], [2, 1, 0], [3, 1, 1]]), &[]);
        if let Some((s, rec)) = record::<DOMAIN>(&m, pb(&code, &[]), challenges(r)) {
            let phases = s.cs.advice_column_phase();
            let acc: Vec<usize> = (0..phases.len()).filter(|i| phases[*i] == 1).collect();
            for a in &acc { for b in &acc { if a < b { for v in [Fr::zero(), Fr::one()] {
                let mut r2 = rec.clone();
                for c in [a, b] { let keys: Vec<Col2> = r2.cells.keys().filter(|k| k.0 == Col::A(*c)).copied().collect(); for k in keys { r2.cells.insert(k, v); } }
                n += 1; if verdict(&s, &r2).is_ok() { fail("running products that do not start at their initial value are accepted", &format!("program \"+>+<.\" reading 9 from cell 0, columns {} and {} constant", a, b)) }
            } } } } } }
    // memory rows of one cell out of cycle order (known finding)
    { let code = c("+>+<."); let rows = [[0, 0, inc, shr, 0, 0], [1, 1, shr, inc, 0, 1], [2, 2, inc, shl, 1, 0], [3, 3, shl, out, 1, 1], [4, 4, out, 0, 0, 0], [5, 5, 0, 0, 0, 0]];
        let m = build(&code, &rows, listing(&code, 0), Some(vec![[4, 0, 0], [5, 0, 0], [0, 0, 0], [1, 0, 1], [2, 1, 0], [3, 1, 1]]), &[]);
        n += 1;
        if let Some((s, rec)) = record::<DOMAIN>(&m, pb(&code, &[]), challenges(r)) { if verdict(&s, &rec).is_ok() {
            fail_key("memory-order", "memory rows of one cell out of cycle order are accepted", "program \"+>+<.\": cell 0 is read back as 0 after it was set to 1; memory rows ordered (clk,mp,mv) (4,0,0) (5,0,0) (0,0,0) (1,0,1) (2,1,0) (3,1,1)") } } }
    n
}
fn main() {
    let a = args(); quiet(); guard(30, 12);
    let mut r = Rng(a.seed);
    let mut n = 0u64;
    match a.rest[0].as_str() {
        "dump" => dump::<DOMAIN>(a.rest[1].as_bytes(), &a.rest.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<u64>>()).unwrap_or(vec![]), &mut r),
        "honest" => {
            for (s, i) in progs(&mut r, a.iters) { if honest::<DOMAIN>(&s, &i, &mut r, 8).is_some() { n += 1 }
                let i2: Vec<u64> = i.iter().map(|x| x % 16).collect(); if honest::<16>(&s, &i2, &mut r, 4).is_some() { n += 1 } }
            for len in [255usize, 256, 257, 300] { let mut s = vec![b'>'; len]; s.extend_from_slice(b"+[-]<."); if honest::<DOMAIN>(&s, &[], &mut r, 8).is_some() { n += 1 } }
            done(n, "honest runs recorded through the real configure/synthesize, every gate, lookup and copy evaluated");
        }
        "steps" | "forge" => {
            let steps = a.rest[0] == "steps";
            let mut kinds: Vec<Fault> = vec![Fault::Mv(1), Fault::Mv(2), Fault::Mv(255), Fault::Mv(128), Fault::Wrap(0), Fault::Wrap(255), Fault::Wrap(1), Fault::Big(256), Fault::Big(257), Fault::Big(511), Fault::Big(1 << 20), Fault::Big(u64::MAX), Fault::Big(u64::MAX - 254), Fault::Mp(1), Fault::Mp(-1), Fault::Mp(2), Fault::Ip(1), Fault::Ip(-1), Fault::Ip(2), Fault::IpTo(0), Fault::OtherBranch, Fault::Mvi(0), Fault::Mvi(1), Fault::Mvi(7), Fault::Clk(1), Fault::Clk(-1), Fault::Clk(5)];
            if !steps { kinds = vec![Fault::Ci(b'+' as u64), Fault::Ci(b'-' as u64), Fault::Ci(b'.' as u64), Fault::Ci(b'<' as u64), Fault::Ci(b'>' as u64), Fault::Ci(b',' as u64), Fault::Ci(b'[' as u64), Fault::Ci(b']' as u64), Fault::ReadOther(1), Fault::ReadOther(77), Fault::ReadFree, Fault::OutOther, Fault::Skip, Fault::Stop, Fault::Land(1), Fault::Land(9), Fault::Land(0)] }
            for (s, i) in progs(&mut r, a.iters) {
                let code = match compile(&s) { Some(c) => c, None => continue };
                let base = match trace(&code, &i, 256, 400, usize::MAX, Fault::None, Init::default()) { Some(t) => t, None => continue };
                let len = base.m.processor_matrix.len();
                let p = pubs(&fs(&code), &base.m.input_matrix);
                for k in 0..len.min(12) { let at = if len <= 12 { k } else { r.below(len) };
                    for fk in &kinds {
                        if let Some(t) = trace(&code, &i, 256, 600, at, *fk, Init::default()) { if t.faulted {
                            n += 1; let shown = show(&s, &i, &format!("fault {:?} at step {}", fk, at));
                            // the cheating prover keeps the true public input
                            let inst = if steps { pubs(&fs(&code), &t.m.input_matrix) } else { let mut q = p.clone(); q[1] = { let mut o = vec![f(t.m.input_matrix.len() as u64)]; o.extend(fs(&i[..t.m.input_matrix.len().min(i.len())])); o }; q };
                            reject::<DOMAIN>(if steps { "a wrong step is accepted" } else { "a forged trace is accepted" }, &shown, &t.m, inst, &mut r);
                        } }
                    } }
                for init in [Init { clk: 1, ..Default::default() }, Init { mv: 3, ..Default::default() }, Init { mp: 1, ..Default::default() }, Init { ip: 1, ..Default::default() }] {
                    if steps { if let Some(t) = trace(&code, &i, 256, 600, usize::MAX, Fault::None, init.clone()) { n += 1; let inst = pubs(&fs(&code), &t.m.input_matrix);
                        reject::<DOMAIN>("a wrong initial state is accepted", &show(&s, &i, &format!("clk {} ip {} mp {} mv {}", init.clk, init.ip, init.mp, init.mv)), &t.m, inst, &mut r); } }
                }
            }
            if !steps { n += strategies(&mut r) }
            done(n, "cheated traces (one fault at one step, continued consistently) evaluated against the real constraint system");
        }
        "bind" => {
            for (s, i) in progs(&mut r, a.iters) {
                let code = match compile(&s) { Some(c) => c, None => continue };
                let t = match trace(&code, &i, 256, 300, usize::MAX, Fault::None, Init::default()) { Some(t) => t, None => continue };
                let good = pubs(&fs(&code), &t.m.input_matrix);
                if let Some((sy, rec)) = record::<DOMAIN>(&t.m, good.clone(), challenges(&mut r)) {
                    if verdict(&sy, &rec).is_err() { continue } // completeness is another property
                    n += 1;
                    // a different public statement with the prover's tables unchanged
                    for c in 0..2 { for row in 0..good[c].len() { for d in [1u64, 256] {
                        let mut rec2 = rec.clone(); rec2.inst[c][row] += f(d); n += 1;
                        if verdict(&sy, &rec2).is_ok() { fail("a changed public value is accepted", &show(&s, &i, &format!("instance column {} row {}", c, row))) }
                    } } }
                    // the same change with every witness cell tied to it changed along (fixed cells stay)
                    for c in 0..2 { for row in 0..good[c].len() {
                        let mut cl: HashSet<Col2> = HashSet::new(); cl.insert((Col::I(c), row));
                        loop { let k = cl.len(); for (a, ar, b, br) in &rec.copies { if cl.contains(&(*a, *ar)) { cl.insert((*b, *br)); } else if cl.contains(&(*b, *br)) { cl.insert((*a, *ar)); } } if cl.len() == k { break } }
                        let mut rec2 = rec.clone(); rec2.inst[c][row] += f(1); n += 1;
                        for k in cl { if matches!(k.0, Col::A(_)) { if let Some(v) = rec2.cells.get_mut(&k) { *v += f(1) } } }
                        if verdict(&sy, &rec2).is_ok() { fail("a public value can be changed together with a witness cell nothing else constrains", &show(&s, &i, &format!("instance column {} row {}", c, row))) }
                    } }
                    // the trace of one program against the public statement of another (tables re-synthesised)
                    for row in 1..good[0].len() { for b in b"<>+-.,[]" { if good[0][row] != f(*b as u64) {
                        let mut q = good.clone(); q[0][row] = f(*b as u64); n += 1;
                        reject::<DOMAIN>("a proof for another program is accepted", &show(&s, &i, &format!("program slot {} replaced by {:?}", row - 1, *b as char)), &t.m, q, &mut r);
                        if row > 12 { break }
                    } } }
                    for row in 1..good[1].len() { let mut q = good.clone(); q[1][row] += Fr::one(); n += 1; reject::<DOMAIN>("a proof for another input is accepted", &show(&s, &i, &format!("input {} changed", row - 1)), &t.m, q, &mut r); }
                    for c in 0..2 {
                        let mut q = good.clone(); q[c].push(f(43)); q[c][0] += Fr::one(); n += 1; reject::<DOMAIN>("a longer public statement is accepted", &show(&s, &i, &format!("column {}", c)), &t.m, q, &mut r);
                        if good[c].len() > 1 { let mut q = good.clone(); q[c].pop(); q[c][0] -= Fr::one(); n += 1; reject::<DOMAIN>("a shorter public statement is accepted", &show(&s, &i, &format!("column {}", c)), &t.m, q, &mut r); }
                        if good[c].len() > 2 { let mut q = good.clone(); let l = q[c].len(); if q[c][l - 1] != q[c][l - 2] { q[c].swap(l - 1, l - 2); n += 1; reject::<DOMAIN>("a permuted public statement is accepted", &show(&s, &i, &format!("column {}", c)), &t.m, q, &mut r); } }
                    }
                }
            }
            done(n, "public statements perturbed in one value, in length and in order against fixed and re-synthesised tables");
        }
        _ => {}
    }
}
