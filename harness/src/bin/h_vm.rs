//! native stage for the compiler and the interpreter: reference semantics against the real code
use ckb_bf_vm::code;
use ckb_bf_vm::interpreter::Interpreter;
use ff::Field;
use halo2curves::bn256::Fr;
use harness::*;

/// bracket-matching reference compiler; None: unmatched `]`
fn rcompile(src: &[u8]) -> Option<Vec<u64>> {
    let mut out: Vec<u64> = vec![]; let mut st = vec![];
    for &c in src {
        if !b"<>+-,.[]".contains(&c) { continue }
        match c {
            b'[' => { st.push(out.len()); out.push(c as u64); out.push(0) }
            b']' => { let lb = st.pop()?; let rb = out.len(); out.push(c as u64); out.push(lb as u64 + 2); out[lb + 1] = rb as u64 + 2 }
            _ => out.push(c as u64),
        }
    }
    Some(out)
}
#[derive(Clone, Debug, PartialEq)]
struct St { cyc: u64, ip: u64, ci: u64, ni: u64, mp: u64, mv: u64 }
struct Run { states: Vec<St>, out: Vec<u64>, used: usize, mem: Vec<u64>, abort: bool }
fn rrun(code: &[u64], input: &[u64], bits: u64, cap: usize) -> Option<Run> {
    let m = 1u64 << bits;
    let (mut ip, mut mp, mut used, mut cyc) = (0usize, 0usize, 0usize, 0u64);
    let mut mem = vec![0u64]; let mut out = vec![]; let mut states = vec![];
    let at = |i: usize| code.get(i).copied().unwrap_or(0);
    loop {
        states.push(St { cyc, ip: ip as u64, ci: if ip < code.len() { at(ip) } else { 0 }, ni: if ip + 1 < code.len() { at(ip + 1) } else { 0 }, mp: mp as u64, mv: mem[mp] });
        if ip >= code.len() { return Some(Run { states, out, used, mem, abort: false }) }
        if states.len() > cap { return None }
        let mut abort = false;
        match at(ip) as u8 {
            b'<' => { if mp == 0 { abort = true } else { mp -= 1 } ip += 1 }
            b'>' => { mp += 1; if mp == mem.len() { mem.push(0) } ip += 1 }
            b'+' => { mem[mp] = (mem[mp] + 1) % m; ip += 1 }
            b'-' => { mem[mp] = (mem[mp] + m - 1) % m; ip += 1 }
            b',' => { if used == input.len() { abort = true } else { mem[mp] = input[used]; used += 1 } ip += 1 }
            b'.' => { out.push(mem[mp]); ip += 1 }
            b'[' => if mem[mp] == 0 { ip = at(ip + 1) as usize } else { ip += 2 },
            b']' => if mem[mp] != 0 { ip = at(ip + 1) as usize } else { ip += 2 },
            _ => unreachable!(),
        }
        if abort { return Some(Run { states, out, used, mem, abort: true }) }
        cyc += 1;
    }
}
fn f(v: u64) -> Fr { Fr::from(v) }
fn fs(v: &[u64]) -> Vec<Fr> { v.iter().map(|x| f(*x)).collect() }
fn gen(r: &mut Rng, n: usize, depth: usize) -> Vec<u8> {
    let mut s = vec![];
    while s.len() < n {
        match r.below(14) {
            0 if depth > 0 => { s.push(b'['); let k = r.below(n / 2 + 1); s.extend(gen(r, k, depth - 1)); s.push(b']') }
            1 if depth > 0 => s.extend_from_slice(b"[-]"),
            2 if depth > 0 => s.extend_from_slice(b"+++[>++<-]>"),
            3 => s.push(b','), 4 => s.push(b'.'), 5 | 6 => s.push(b'>'), 7 => { s.push(b'<') } 8 | 9 | 10 => s.push(b'+'), 11 | 12 => s.push(b'-'),
            _ => if r.below(3) == 0 { s.push(b'x') } else { s.extend_from_slice(b">+<") },
        }
    }
    s
}
fn compile_case(src: &[u8]) {
    let want = rcompile(src);
    let shown = || if src.len() > 80 { format!("({} bytes) {}", src.len(), String::from_utf8_lossy(&src[..80])) } else { format!("{:?}", String::from_utf8_lossy(src)) };
    let got = catch(|| code::compile_to_u16(src.to_vec()));
    match (want, got) {
        (None, None) => {}
        (None, Some(_)) => fail("compile: unmatched ] accepted", &shown()),
        (Some(_), None) => fail("compile: aborts on a well-bracketed program", &shown()),
        (Some(w), Some(g)) => {
            if g.iter().map(|x| *x as u64).collect::<Vec<_>>() != w { fail("compile_to_u16: wrong slots", &shown()) }
            match catch(|| code::compile(src.to_vec())) { Some(c) if c == fs(&w) => {} _ => fail("compile: wrong field encoding", &shown()) }
        }
    }
}
fn run_case(which: &str, src: &[u8], input: &[u64], bits: u64) -> bool {
    let code = match rcompile(src) { Some(c) => c, None => return false };
    if code.is_empty() { return false }
    let r = match rrun(&code, input, bits, 3000) { Some(r) => r, None => return false };
    let shown = format!("program {:?} input {:?} bits {}", String::from_utf8_lossy(src), input, bits);
    case(shown.clone());
    let mut it = Interpreter::new();
    it.set_code(fs(&code)); it.set_input(fs(input));
    if bits != 8 { it.set_bits(bits) }
    let ok = catch(std::panic::AssertUnwindSafe(|| it.run())).is_some();
    case_end();
    if !ok { if !r.abort { fail("run aborts on a well-behaved program", &shown) } return true }
    if r.abort { fail("run accepts a program that leaves the tape or over-reads its input", &shown); return true }
    let m = &it.matrix;
    if which == "p02" {
        if m.output_matrix != fs(&r.out) { fail("output differs from the Brainfuck semantics", &shown) }
        if m.input_matrix != fs(&input[..r.used]) { fail("consumed input differs", &shown) }
        let tape = fs(&r.mem); let z = Fr::zero();
        if (0..tape.len().max(it.memory.len())).any(|i| it.memory.get(i).unwrap_or(&z) != tape.get(i).unwrap_or(&z)) { fail("final tape differs", &shown) }
        let l = r.states.last().unwrap();
        if it.register.cycle != f(l.cyc) || it.register.instruction_pointer != f(l.ip) || it.register.memory_pointer != f(l.mp) { fail("final registers differ", &shown) }
    } else {
        if m.program != fs(&code) || it.code != fs(&code) { fail("program column differs", &shown) }
        if m.processor_matrix.len() != r.states.len() { fail("processor table: row count", &shown); return true }
        for (a, b) in m.processor_matrix.iter().zip(&r.states) {
            let inv = if b.mv == 0 { Fr::zero() } else { f(b.mv).invert().unwrap() };
            if (a.cycle, a.instruction_pointer, a.current_instruction, a.next_instruction, a.memory_pointer, a.memory_value, a.memory_value_inverse)
                != (f(b.cyc), f(b.ip), f(b.ci), f(b.ni), f(b.mp), f(b.mv), inv) { fail("processor table: row differs from the machine state", &shown); break }
        }
        let mut ir: Vec<(u64, u64, u64)> = (0..code.len()).map(|i| (i as u64, code[i], code.get(i + 1).copied().unwrap_or(0))).collect();
        ir.extend(r.states.iter().map(|s| (s.ip, s.ci, s.ni)));
        ir.sort_by_key(|x| x.0);
        if m.instruction_matrix.len() != ir.len() || m.instruction_matrix.iter().zip(&ir).any(|(a, b)| (a.instruction_pointer, a.current_instruction, a.next_instruction) != (f(b.0), f(b.1), f(b.2))) { fail("instruction table differs", &shown) }
        let mut mr: Vec<(u64, u64, u64)> = r.states.iter().map(|s| (s.cyc, s.mp, s.mv)).collect();
        mr.sort_by_key(|x| x.1);
        if m.memory_matrix.len() != mr.len() || m.memory_matrix.iter().zip(&mr).any(|(a, b)| (a.cycle, a.memory_pointer, a.memory_value) != (f(b.0), f(b.1), f(b.2))) { fail("memory table differs", &shown) }
    }
    true
}
fn exhaustive(alpha: &[u8], max: usize, f: &mut dyn FnMut(&[u8])) {
    let mut idx: Vec<usize> = vec![];
    loop {
        let s: Vec<u8> = idx.iter().map(|i| alpha[*i]).collect();
        f(&s);
        let mut k = 0;
        loop {
            if k == idx.len() { idx.push(0); break }
            idx[k] += 1;
            if idx[k] < alpha.len() { break }
            idx[k] = 0; k += 1;
        }
        if idx.len() > max { return }
    }
}
fn main() {
    let a = args(); quiet(); guard(4, 8);
    let mut r = Rng(a.seed);
    let which = a.rest[0].as_str();
    let mut n = 0u64;
    match which {
        "p01" => {
            exhaustive(b"+[]x", if a.iters > 5000 { 9 } else { 8 }, &mut |s| { compile_case(s); n += 1 });
            for b in 0..=255u8 { for pre in [&b""[..], b"[", b"+", b"[]"] { let mut s = pre.to_vec(); s.push(b); if pre == b"[" { s.push(b']') } compile_case(&s); n += 1 } }
            // every byte in every small context, every pair of bytes around an instruction
            for b in 0..=255u8 { for t in ["+@+", "@[+]", "[@+@]", "+@\n+", "@@+", "+@ +@-", "[@]@[-]", "@+@+"] {
                let mut s = vec![]; for c in t.bytes() { s.push(if c == b'@' { b } else { c }) } compile_case(&s); n += 1 } }
            for b in 0..=255u8 { for c in 0..=255u8 { compile_case(&[b'+', b, c, b'-']); n += 1 } }
            for _ in 0..a.iters { let k = 1 + r.below(40); let mode = r.below(3);
                let s: Vec<u8> = (0..k).map(|_| match mode { 0 => r.u64() as u8, 1 => b"<>+-,.[]+-<> \n\r\t;#/*ab0"[r.below(23)], _ => b"[]+;\n#\"/"[r.below(8)] }).collect(); compile_case(&s); n += 1 }
            for i in 0..a.iters { let len = 1 + r.below(if i % 10 == 0 { 4000 } else { 60 }); let s = gen(&mut r, len, 12); compile_case(&s); n += 1 }
            for d in [1usize, 2, 50, 130, 300, 5000, 16383] { let mut s = vec![b'['; d]; s.extend(vec![b']'; d]); compile_case(&s); n += 1 }
            for l in [255usize, 256, 257, 32766, 32767, 32768, 65531] { let mut s = vec![b'+'; l]; s.extend_from_slice(b"[]"); compile_case(&s); n += 1; }
            done(n, "all programs over {+,[,],x} up to 8 bytes, every byte in eight contexts, every byte pair, random byte strings, random and deeply nested programs");
        }
        _ => {
            exhaustive(b"+[].,<>-", if a.iters > 5000 { 5 } else { 4 }, &mut |s| { if run_case(which, s, &[3, 0, 255], 8) { n += 1 } });
            let fixed: [&[u8]; 9] = [b"+", b"++>+++++[<+>-]++++++++[<++++++>-]<.", b",>,>,<<.>.>.", b"-.", b"+[-]", b"-[-]", b">>>>+<<<<", b"++++[>+++[>++<-]<-]>>.", b"[[]]"];
            for s in fixed { if run_case(which, s, &[1, 2, 3], 8) { n += 1 } }
            let mut wrap = vec![b'+'; 300]; wrap.push(b'.'); wrap.extend(vec![b'-'; 600]); wrap.push(b'.'); run_case(which, &wrap, &[], 8);
            for bits in [1u64, 2, 4, 7, 9, 12, 16, 24, 32, 60] { for s in [&b"-."[..], b"-.+.", b",+.--.", b"->-<[.+]>.", b",[->+<]>.", b".,.>.<-.+."] { for v in [0u64, 1, (1 << bits) - 1, (1 << bits) / 2] { if run_case(which, s, &[v], bits) { n += 1 } } } }
            for len in [255usize, 256, 257, 300, 600] { let mut s = vec![b'>'; len]; s.extend_from_slice(b"+."); s.extend(vec![b'<'; len]); s.extend_from_slice(b"-.>,.<"); if run_case(which, &s, &[7, 9], 8) { n += 1 }
                let mut s = vec![b'+'; len]; s.extend_from_slice(b"[>+>++<<-]>."); s.extend(vec![b'>'; len]); s.extend_from_slice(b"+[<]+,."); if run_case(which, &s, &[0, 9], 8) { n += 1 } }
            for len in [100usize, 255, 256, 260, 520] { let mut s = vec![]; for _ in 0..len { s.extend_from_slice(b",.") } let input: Vec<u64> = (0..len as u64 + 2).map(|i| (i * 7 + 3) % 256).collect(); if run_case(which, &s, &input, 8) { n += 1 } if run_case(which, &s, &input[..len - 1], 8) { n += 1 } }
            { let mut s = vec![b'+', b'[', b'-']; s.extend(vec![b'>'; 300]); s.extend_from_slice(b"+[-<+>]<.[-]]>."); if run_case(which, &s, &[], 8) { n += 1 } }
            for i in 0..a.iters {
                let len = 1 + r.below(if i % 4 == 0 { 60 } else { 14 });
                let s = gen(&mut r, len, 3);
                let bits = [8, 8, 8, 1, 2, 4, 16, 32][r.below(8)];
                let k = r.below(8);
                let input: Vec<u64> = (0..k).map(|_| match r.below(4) { 0 => 0, 1 => (1 << bits) - 1, _ => r.u64() % (1 << bits) }).collect();
                if run_case(which, &s, &input, bits) { n += 1 }
            }
            done(n, "all programs over the 8 instructions up to 4 bytes and random programs of <= 3000 steps");
        }
    }
}
