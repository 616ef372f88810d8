//! shared helpers of the native (bounded, differential) stage
use num_bigint::BigUint;
use std::cell::RefCell;
pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
}
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
thread_local! { static FAILS: RefCell<std::collections::BTreeMap<String, u32>> = RefCell::new(Default::default()); }
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
}
/// report a concrete failing input (at most 3 per kind)
pub fn fail(what: &str, input: &str) {
    FAILS.with(|f| {
        let mut f = f.borrow_mut();
        let n = f.entry(what.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 { println!("{{\"fail\":\"{}\",\"input\":\"{}\"}}", esc(what), esc(input)); }
    });
}
/// like `fail`, for one specific history that known_findings.json may list under `key`
pub fn fail_key(key: &str, what: &str, input: &str) { println!("{{\"fail\":\"{}\",\"key\":\"{}\",\"input\":\"{}\"}}", esc(what), esc(key), esc(input)); }
pub fn done(cases: u64, what: &str) { println!("{{\"cases\":{},\"what\":\"{}\"}}", cases, esc(what)); }
pub struct Args { pub seed: u64, pub iters: u64, pub pool: Vec<BigUint>, pub rest: Vec<String> }
pub fn args() -> Args {
    let mut a = Args { seed: 1, iters: 1000, pool: vec![], rest: vec![] };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--iters" => a.iters = it.next().unwrap().parse().unwrap(),
            "--pool" => a.pool = it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| big(s)).collect(),
            _ => a.rest.push(x),
        }
    }
    a
}
pub fn big(s: &str) -> BigUint { BigUint::parse_bytes(s.trim_start_matches("0x").as_bytes(), 16).unwrap() }
pub fn le32(x: &BigUint) -> [u8; 32] { let mut o = [0u8; 32]; let b = x.to_bytes_le(); o[..b.len()].copy_from_slice(&b); o }
pub fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
/// an edge-biased 256-bit integer
pub fn edge(r: &mut Rng, p: &BigUint) -> BigUint {
    let pl = p.to_u64_digits();
    let mut v = [0u64; 4];
    match r.below(8) {
        0 => { return BigUint::from(r.u64() % 4) }
        1 => { return p - 1u64 - (r.u64() % 4) }
        2 => { let k = r.below(256); return BigUint::from(1u64) << k }
        3 => { let k = r.below(256); return (BigUint::from(1u64) << k) - 1u64 }
        4 => { return (p >> 1u32) + r.u64() % 3 }
        5 => { for x in v.iter_mut() { *x = r.u64() } }
        _ => for i in 0..4 {
            v[i] = match r.below(9) { 0 => 0, 1 => u64::MAX, 2 => pl[i], 3 => pl[i].wrapping_add(1), 4 => pl[i].wrapping_sub(1), 5 => 1, 6 => 1 << 63, 7 => u64::MAX - 1, _ => r.u64() }
        }
    }
    let mut b = vec![];
    for x in v { b.extend_from_slice(&x.to_le_bytes()); }
    BigUint::from_bytes_le(&b)
}
// ---- guard against code that never returns or eats all memory
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
static CASE: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
pub fn guard(secs: u64, gb: u64) {
    unsafe { setrlimit(9, &[gb << 30, gb << 30]); }
    std::thread::spawn(move || {
        let mut last = 0; let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Ordering::SeqCst);
            if t == last && t % 2 == 1 { same += 1 } else { same = 0; last = t }
            if same >= 2 * secs {
                println!("{{\"fail\":\"no result within {} s\",\"input\":\"{}\"}}", secs, esc(&CASE.lock().unwrap()));
                std::process::exit(0);
            }
        }
    });
}
pub fn case(s: String) { *CASE.lock().unwrap() = s; let t = TICK.load(Ordering::SeqCst); TICK.store((t + 1) | 1, Ordering::SeqCst); }
pub fn case_end() { let t = TICK.load(Ordering::SeqCst); if t % 2 == 1 { TICK.store(t + 1, Ordering::SeqCst) } }
