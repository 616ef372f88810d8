SEEDS = {}
def seed(id, prop, edits, deps, demo, needs, breaks):
    SEEDS[id] = dict(property=prop, edits=edits, deps=deps, demo=demo, needs=needs, breaks=breaks)

seed("S01", "P01", [("ckb_bf_vm/src/code.rs", '''    for i in code {
        if !filter''', '''    let mut comment = false;
    for i in code {
        if i == b'\\n' {
            comment = false;
        } else if i == b';' {
            comment = true;
        }
        if comment {
            continue;
        }
        if !filter''')], ["ckb_bf_vm"], '''
fn main() {
    let want: Vec<u16> = vec![0x2b, 0x2d];
    let got = ckb_bf_vm::code::compile_to_u16(b"+ ; the next one counts too -\\n".to_vec());
    println!("{got:?}");
    assert_eq!(got, want);
    assert_eq!(ckb_bf_vm::code::compile_to_u16(b"+x-\\n".to_vec()), want);
}
''', "a source text with a semicolon before an instruction on the same line", "instructions after a semicolon are dropped, so the compiled program is not the instruction sequence of the source")

seed("S02", "P02", [("ckb_bf_vm/src/interpreter.rs", "self.memory[self.register.mp()] = Fr::from((1 << self.bits) - 1)", "self.memory[self.register.mp()] = Fr::from(u8::MAX as u64)")],
 ["ckb_bf_vm", "halo2curves"], '''
use halo2curves::bn256::Fr;
fn main() {
    let run = |bits: Option<u64>| { let mut it = ckb_bf_vm::interpreter::Interpreter::new();
        it.set_code(ckb_bf_vm::code::compile(b"-.".to_vec()));
        if let Some(b) = bits { it.set_bits(b) }
        it.run(); it.matrix.output_matrix.clone() };
    assert_eq!(run(None), vec![Fr::from(255)]);
    assert_eq!(run(Some(16)), vec![Fr::from(65535)]);
    assert_eq!(run(Some(4)), vec![Fr::from(15)]);
}
''', "a cell width other than 8 bits and a decrement of a zero cell", "wrap-around below zero ignores the configured cell width")

seed("S03", "P03", [("ckb_bf_vm/src/interpreter.rs", "self.matrix.memory_matrix.sort_by_key(|row| row.memory_pointer);", "self.matrix.memory_matrix.sort_by_key(|row| row.memory_pointer.get_lower_128() as u8);")],
 ["ckb_bf_vm", "halo2curves"], '''
fn main() {
    let mut it = ckb_bf_vm::interpreter::Interpreter::new();
    let mut src = vec![b'>'; 300]; src.extend_from_slice(b"+");
    it.set_code(ckb_bf_vm::code::compile(src));
    it.run();
    for w in it.matrix.memory_matrix.windows(2) { assert!(w[0].memory_pointer <= w[1].memory_pointer, "memory trace not ordered"); }
}
''', "a program that touches cell 256 or beyond", "the memory trace is ordered by the memory pointer modulo 256")

seed("S04", "P08", [("halo2curves/src/derive/field.rs", "(((self.0[0] | self.0[1] | self.0[2] | self.0[3]) == 0) as u64).wrapping_sub(1);", "(((self.0[1] | self.0[2] | self.0[3]) == 0) as u64).wrapping_sub(1);")],
 ["halo2curves", "ff"], '''
use ff::PrimeField;
use halo2curves::bn256::Fr;
fn main() {
    // the element whose internal (Montgomery) form is the single limb 1
    let mut raw = [0u8; 32]; raw[0] = 1;
    let a = <Fr as halo2curves::serde::SerdeObject>::from_raw_bytes(&raw).unwrap();
    let b = -a;
    println!("{:?} {:?}", a, b);
    assert_eq!(a + b, Fr::from(0));
    assert_ne!(b.to_repr(), Fr::from(0).to_repr());
}
''', "an operand whose Montgomery form fits in the lowest limb (probability 2^-192 at random)", "negation of such an element returns zero")

seed("S05", "P09", [("halo2curves/src/bn256/fr.rs", '''        let (_, borrow) = sbb(tmp.0[0], MODULUS.0[0], 0);
        let (_, borrow) = sbb(tmp.0[1], MODULUS.0[1], borrow);
        let (_, borrow) = sbb(tmp.0[2], MODULUS.0[2], borrow);
        let (_, borrow) = sbb(tmp.0[3], MODULUS.0[3], borrow);''', '''        let (_, borrow) = sbb(tmp.0[1], MODULUS.0[1], 0);
        let (_, borrow) = sbb(tmp.0[2], MODULUS.0[2], borrow);
        let (_, borrow) = sbb(tmp.0[3], MODULUS.0[3], borrow);''')],
 ["halo2curves", "ff"], '''
use ff::PrimeField;
use halo2curves::bn256::Fr;
fn main() {
    // r - 5: canonical, but its upper three limbs equal those of the modulus
    let a = -Fr::from(5);
    let enc = a.to_repr();
    let back = Option::<Fr>::from(Fr::from_repr(enc));
    println!("{back:?}");
    assert_eq!(back, Some(a));
}
''', "a canonical encoding whose upper three limbs equal those of the modulus", "some canonical encodings are refused, so decoding does not invert encoding")

MOCK = '''
use ckb_bf_base::{main_config::MyCircuit, utils::DOMAIN};
use ckb_bf_vm::{code, interpreter::Interpreter, matrix::*};
use halo2_proofs::dev::MockProver;
use halo2_proofs::halo2curves::bn256::Fr;
fn accepted(m: Matrix, program: &str, input: &[u64]) -> bool {
    let mut p = code::compile(program.as_bytes().to_vec());
    p.insert(0, Fr::from(p.len() as u64));
    let mut i: Vec<Fr> = input.iter().map(|x| Fr::from(*x)).collect();
    i.insert(0, Fr::from(i.len() as u64));
    MockProver::run(10, &MyCircuit::<Fr, { DOMAIN }>::new(m), vec![p, i]).unwrap().verify().is_ok()
}
#[allow(dead_code)]
fn honest(program: &str, input: &[u64]) -> Matrix {
    let mut vm = Interpreter::new();
    vm.set_code(code::compile(program.as_bytes().to_vec()));
    vm.set_input(input.iter().map(|x| Fr::from(*x)).collect());
    vm.run();
    vm.matrix
}
#[allow(dead_code)]
fn mem(c: u64, p: u64, v: u64) -> MemoryMatrixRow { MemoryMatrixRow { cycle: Fr::from(c), memory_pointer: Fr::from(p), memory_value: Fr::from(v), interweave_indicator: Fr::zero() } }
'''
BASE = ["ckb_bf_base", "ckb_bf_vm", "halo2_proofs", "ff"]
seed("S06", "P04", [("ckb_bf_base/src/processor_table.rs", '''            let expr1 = (deselectors[LB].clone() + deselectors[RB].clone() + deselectors[PUTCHAR].clone())
                * (next_mv.clone() - cur_mv.clone());''', '''            let expr1 = (deselectors[LB].clone() + deselectors[RB].clone()) * (next_mv.clone() - cur_mv.clone());'''),
 ("ckb_bf_base/src/processor_table.rs", "(deselectors[SHL].clone() + deselectors[SHR].clone() + deselectors[GETCHAR].clone()) * (zero.clone());",
  "(deselectors[SHL].clone() + deselectors[SHR].clone() + deselectors[GETCHAR].clone() + deselectors[PUTCHAR].clone())\n                    * (zero.clone());")], BASE, MOCK + '''
use ff::Field;
fn main() {
    assert!(accepted(honest("+.", &[]), "+.", &[]), "honest");
    // after the output step the cell silently becomes 9
    let mut m = honest("+.", &[]);
    m.processor_matrix[2].memory_value = Fr::from(9);
    m.processor_matrix[2].memory_value_inverse = Fr::from(9).invert().unwrap();
    m.memory_matrix = vec![mem(0, 0, 0), mem(1, 0, 1), mem(2, 0, 9)];
    assert!(!accepted(m, "+.", &[]), "a cell that changes during an output step is accepted");
}
''', "a dishonest trace in which the current cell changes during an output step", "the output step no longer forces the cell to stay the same, so a prover can set any cell to any value")
seed("S07", "P05", [("ckb_bf_base/src/memory_table.rs", "if idx < memory_matrix.len() - 1 {", "if idx + 2 < memory_matrix.len() {")], BASE, MOCK + '''
use ff::Field;
fn main() {
    assert!(accepted(honest("+>", &[]), "+>", &[]), "honest");
    let mut m = honest("+>", &[]);
    m.processor_matrix[2].memory_value = Fr::from(7);
    m.processor_matrix[2].memory_value_inverse = Fr::from(7).invert().unwrap();
    m.memory_matrix = vec![mem(0, 0, 0), mem(1, 0, 1), mem(2, 1, 7)];
    assert!(!accepted(m, "+>", &[]), "a fresh cell with value 7 is accepted");
}
''', "a dishonest memory table whose last row does not follow from the one before", "the transition into the last memory row is unconstrained, so the last-touched cell may hold any value")
seed("S08", "P06", [("ckb_bf_base/src/main_config.rs", "region.constrain_equal(code_rs.cell(), inst_code_rs.cell())?;", "region.constrain_equal(inst_code_rs.cell(), inst_code_rs.cell())?;"), ("ckb_bf_base/src/main_config.rs", "let (code_len, code_rs) =", "let (code_len, _) =")], BASE, MOCK + '''
fn main() {
    assert!(accepted(honest("+-", &[]), "+-", &[]), "honest");
    assert!(!accepted(honest("+-", &[]), "-+", &[]), "the run of one program is accepted for another");
    assert!(!accepted(honest("+-.", &[]), "...", &[]), "the run of one program is accepted for another");
}
''', "a proof made by running a different program of the same length", "the instruction table is no longer tied to the public program")
seed("S09", "P07", [("ckb_bf_base/src/output_table.rs", "let output_matrix = &matrix.output_matrix;", '''// a zero adds nothing to the running sum
                let output_matrix: alloc::vec::Vec<&Fr> = matrix.output_matrix.iter().filter(|v| **v != Fr::zero()).collect();'''),
 ("ckb_bf_base/src/output_table.rs", "|| Value::known(*v))?;", "|| Value::known(**v))?;")], BASE, MOCK + '''
fn main() {
    assert!(accepted(honest("+.", &[]), "+.", &[]), "honest");
    assert!(accepted(honest("+.-.", &[]), "+.-.", &[]), "an honest run that prints 0 is refused");
}
''', "a program that outputs the value 0", "zero outputs are left out of the output table although the trace counts them, so honest runs that print a zero are refused")

CUR = ["halo2curves", "ff", "group", "subtle"]
seed("S10", "P10", [("halo2curves/src/bn256/fq2.rs", "if alpha == neg1 {", "if alpha == Fq2::zero() {")], CUR, '''
use ff::Field;
use halo2curves::bn256::{Fq, Fq2};
fn main() {
    // squares of purely imaginary elements: -y^2
    for k in 1..20u64 {
        let y = Fq2 { c0: Fq::zero(), c1: Fq::from(k) };
        let x = y * y;
        let r: Option<Fq2> = x.sqrt().into();
        let r = r.expect("a square has a root");
        assert!(r * r == x, "root of -{}^2", k);
    }
    let y = Fq2 { c0: Fq::from(3), c1: Fq::from(7) };
    let r: Fq2 = (y * y).sqrt().unwrap();
    assert!(r * r == y * y);
}
''', "an element of the base field that is not a square there, e.g. the square of a purely imaginary element", "Fq2::sqrt returns a wrong root for elements with alpha = -1")
seed("S11", "P11", [("halo2curves/src/bn256/engine.rs", """        if !bool::from(p.is_identity()) && !q.is_zero() {
            pairs.push((p, q.coeffs.iter()));
        }""", """        // an identity contributes nothing
        if bool::from(p.is_identity()) || q.is_zero() {
            break;
        }
        pairs.push((p, q.coeffs.iter()));""")], CUR, '''
use ff::Field;
use group::{Curve, Group};
use group::prime::PrimeCurveAffine;
use halo2curves::bn256::*;
use halo2curves::pairing::*;
fn main() {
    let q = G2Affine::generator();
    let e = <Bn256 as Engine>::pairing(&G1Affine::generator(), &q);
    let p = G2Prepared::from_affine(q);
    let two = <Bn256 as MultiMillerLoop>::multi_miller_loop(&[(&G1Affine::identity(), &p), (&G1Affine::generator(), &p)]).final_exponentiation();
    assert!(two == e, "e(O, Q) * e(P, Q) != e(P, Q)");
}
''', "a product of pairings in which a pair with the identity precedes another pair", "every pair after an identity pair is dropped from the product")
seed("S12", "P12", [("halo2curves/src/derive/curve.rs", "*q = $name_affine::conditional_select(&q, &$name_affine::identity(), skip);\n", "\n")], CUR, '''
use ff::Field;
use group::{Curve, Group};
use group::prime::PrimeCurveAffine;
use halo2curves::bn256::*;
use halo2curves::CurveExt;
fn main() {
    let id = G1::new_jacobian(Fq::from(5), Fq::from(9), Fq::zero()).unwrap();
    assert!(bool::from(id.is_identity()));
    let ps = [G1::generator(), id, G1::generator().double()];
    let mut qs = [G1Affine::generator(); 3];
    G1::batch_normalize(&ps, &mut qs);
    for (p, q) in ps.iter().zip(qs.iter()) { assert!(p.to_affine() == *q, "batch_normalize differs from to_affine"); }
}
''', "a batch that contains the identity in a representation other than (0, 0, 0)", "batch_normalize turns the identity into a finite point")
seed("S13", "P13", [("halo2curves/src/derive/curve.rs", "CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {", "CtOption::new(Self::identity(), x.is_zero()).or_else(|| {")], CUR, '''
use group::GroupEncoding;
use group::prime::PrimeCurveAffine;
use halo2curves::bn256::*;
fn main() {
    let z = G1Affine::identity().to_bytes();
    assert!(bool::from(G1Affine::from_bytes(&z).unwrap().is_identity()));
    let mut s = z; let n = s.as_ref().len(); s.as_mut()[n - 1] |= 0x80;
    let d: Option<G1Affine> = G1Affine::from_bytes(&s).into();
    if let Some(p) = d { assert!(p.to_bytes().as_ref() == s.as_ref(), "two encodings of one point"); }
}
''', "an all-zero x coordinate with the sign bit set", "a second encoding of the identity is accepted")

H2 = ["halo2_proofs", "halo2curves", "ff", "group"]
seed("S14", "P14", [("halo2_proofs/src/poly/domain.rs", ".pow_vartime(&[(rotation.0 as i64).unsigned_abs()]);", ".pow_vartime(&[rotation.0.unsigned_abs() as u8 as u64]);")], H2, '''
use ff::Field;
use halo2_proofs::poly::*;
use halo2curves::bn256::*;
fn main() {
    let d = EvaluationDomain::<Fr>::new(3, 10);
    for r in [-1i32, -5, -255, -256, -300] {
        let mut w = Fr::from(5);
        for _ in 0..-r { w = w * d.get_omega_inv(); }
        assert!(d.rotate_omega(Fr::from(5), Rotation(r)) == w, "rotation by {}", r);
    }
}
''', "a rotation of 256 rows or more backwards", "the point of the opening is not the rotated one")
seed("S15", "P15", [("halo2_proofs/src/plonk/assigned.rs", """            // One side is x/0 which maps to zero.
            (Self::Rational(_, denominator), x) | (x, Self::Rational(_, denominator))
                if denominator.is_zero_vartime() =>
            {
                x.is_zero_vartime()
            }
""", """            // Both sides are x/0 which maps to zero.
            (Self::Rational(_, lhs), Self::Rational(_, rhs))
                if lhs.is_zero_vartime() && rhs.is_zero_vartime() =>
            {
                true
            }
""")], H2, '''
use ff::Field;
use halo2_proofs::plonk::Assigned;
use halo2curves::bn256::*;
fn main() {
    let a = Assigned::Rational(Fr::zero(), Fr::zero());
    let b = Assigned::Rational(Fr::from(3), Fr::from(4));
    assert!(a.evaluate() == Fr::zero() && b.evaluate() != Fr::zero());
    assert!(a != b, "0/0 stands for zero and differs from 3/4");
    assert!(a == Assigned::Trivial(Fr::zero()));
}
''', "comparing 0/0 with a non-zero fraction", "0/0 compares equal to every fraction")

PROVE = """
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::kzg::commitment::*;
use halo2_proofs::poly::kzg::multiopen::*;
use halo2_proofs::poly::kzg::strategy::SingleStrategy;
use halo2_proofs::poly::Rotation;
use halo2_proofs::transcript::*;
use halo2curves::bn256::*;
use ff::Field;
struct Rng(u64);
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 ^ (self.0 >> 29) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
fn proof<C: Circuit<Fr>>(p: &ParamsKZG<Bn256>, key: &C, cs: &[C], ins: &[&[&[Fr]]]) -> Result<(VerifyingKey<G1Affine>, Vec<u8>), Error> {
    let vk = keygen_vk(p, key)?; let pk = keygen_pk(p, vk.clone(), key)?;
    let mut t = Blake2bWrite::<_, _, Challenge255<_>>::init(vec![]);
    create_proof::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<_>, _, _, _, _>(p, &pk, cs, ins, Rng(7), &mut t)?;
    Ok((vk, t.finalize()))
}
fn check(p: &ParamsKZG<Bn256>, vk: &VerifyingKey<G1Affine>, pr: &[u8], ins: &[&[&[Fr]]]) -> bool {
    let mut t = Blake2bRead::<_, _, Challenge255<_>>::init(pr);
    verify_proof::<KZGCommitmentScheme<Bn256>, VerifierSHPLONK<_>, _, _, _>(p, vk, SingleStrategy::new(p), ins, &mut t).is_ok()
}
fn accepted<C: Circuit<Fr>>(k: u32, key: &C, cs: &[C], ins: &[&[&[Fr]]]) -> bool {
    let p = ParamsKZG::<Bn256>::setup(k, Rng(3));
    match proof(&p, key, cs, ins) { Ok((vk, pr)) => check(&p, &vk, &pr, ins), Err(_) => false }
}
"""
H2P = H2 + ["rand_core"]
seed("S16", "P16", [("halo2_proofs/src/plonk/evaluation.rs", """                    parts,
                    ValueSource::Theta(),
""", """                    parts,
                    ValueSource::Constant(1),
"""), ("halo2_proofs/src/plonk/lookup/prover.rs", "acc * *theta + &expression", "acc + &expression"),
 ("halo2_proofs/src/plonk/lookup/verifier.rs", "|acc, eval| acc * &*theta + &eval", "|acc, eval| acc + &eval")], H2P, PROVE + """
#[derive(Clone)] struct C { v: (u64, u64) }
impl Circuit<Fr> for C {
    type Config = (Selector, [Column<Advice>; 2], [TableColumn; 2]); type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self { self.clone() }
    fn configure(m: &mut ConstraintSystem<Fr>) -> Self::Config {
        let s = m.complex_selector(); let a = [m.advice_column(), m.advice_column()]; let t = [m.lookup_table_column(), m.lookup_table_column()];
        m.lookup("xor", |m| { let s = m.query_selector(s); (0..2).map(|i| (s.clone() * m.query_advice(a[i], Rotation::cur()), t[i])).collect() });
        (s, a, t)
    }
    fn synthesize(&self, (s, a, t): Self::Config, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        l.assign_region(|| "r", |mut r| {
            s.enable(&mut r, 0)?;
            r.assign_advice(|| "", a[0], 0, || Value::known(Fr::from(self.v.0)))?;
            r.assign_advice(|| "", a[1], 0, || Value::known(Fr::from(self.v.1)))?; Ok(())
        })?;
        l.assign_table(|| "t", |mut tb| { for (i, (x, y)) in [(0u64, 0u64), (1, 4), (2, 8), (3, 16)].iter().enumerate() { tb.assign_cell(|| "", t[0], i, || Value::known(Fr::from(*x)))?; tb.assign_cell(|| "", t[1], i, || Value::known(Fr::from(*y)))?; } Ok(()) })
    }
}
fn main() {
    let ok = C { v: (2, 8) };
    assert!(accepted(4, &ok, &[ok.clone()], &[&[]]));
    for v in [(2, 4), (8, 2), (1, 16), (4, 1), (2, 3), (7, 3)] { assert!(!accepted(4, &ok, &[C { v }], &[&[]]), "({}, {}) is not in the table", v.0, v.1) }
}
""", "a lookup of two or more columns with a pair that is not in the table but has the sum of one that is", "the columns of a lookup are added up without the challenge, so rows are no longer compared as tuples")

seed("S17", "P17", [("halo2_proofs/src/poly/kzg/multiopen/shplonk/prover.rs", """                    .zip(powers(*y))
                    .map(|(numerator, power_of_y)|""", """                    .zip(powers(E::Scalar::one()))
                    .map(|(numerator, power_of_y)|"""),
 ("halo2_proofs/src/poly/kzg/multiopen/shplonk/prover.rs", "inner_contributions.into_iter().zip(powers(*y))", "inner_contributions.into_iter().zip(powers(E::Scalar::one()))"),
 ("halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs", ".zip(powers(*y))", ".zip(powers(E::Scalar::one()))")], H2P, PROVE + """
use halo2_proofs::poly::kzg::msm::*;
use halo2_proofs::poly::{VerificationStrategy, VerifierQuery};
use group::{prime::PrimeCurveAffine, Curve, Group, GroupEncoding};
fn main() {
    // constant polynomials: the openings need no witness at all
    let p = ParamsKZG::<Bn256>::setup(3, Rng(3));
    let g = G1::generator(); let (a, b) = (Fr::from(5), Fr::from(9)); let (ca, cb) = ((g * a).to_affine(), (g * b).to_affine());
    let x = Fr::from(77); let proof: Vec<u8> = [G1Affine::identity().to_bytes().as_ref().to_vec(), G1Affine::identity().to_bytes().as_ref().to_vec()].concat();
    let open = |ea: Fr, eb: Fr| -> bool {
        let mut t = Blake2bRead::<_, G1Affine, Challenge255<G1Affine>>::init(&proof[..]);
        let q: Vec<VerifierQuery<G1Affine, MSMKZG<Bn256>>> = vec![VerifierQuery::new_commitment(&ca, x, ea), VerifierQuery::new_commitment(&cb, x, eb)];
        let guard = match VerifierSHPLONK::new(&p).verify_proof(&mut t, q, DualMSM::new(&p)) { Ok(g) => g, Err(_) => return false };
        VerificationStrategy::<KZGCommitmentScheme<Bn256>, VerifierSHPLONK<Bn256>>::process(SingleStrategy::new(&p), |_| Ok(guard)).is_ok()
    };
    assert!(open(a, b), "an honest opening is rejected");
    for d in 1..5u64 { let d = Fr::from(d); assert!(!open(a + d, b - d), "5 and 9 open to other values with the same sum") }
    assert!(!open(b, a));
}
""", "claims about two commitments opened at the same points that are wrong by opposite amounts", "the claims of one rotation set are added up without the challenge y, in the prover and in the verifier")

S18_OLD = """        self.state.update(&[BLAKE2B_PREFIX_POINT]);
        let coords: Coordinates<C> = Option::from(point.coordinates())
            .ok_or("cannot write points at infinity to the transcript")?;
        self.state.update(coords.x().to_repr().as_ref());
        self.state.update(coords.y().to_repr().as_ref());
"""
S18_NEW = """        self.state.update(&[BLAKE2B_PREFIX_POINT]);
        let coords: Coordinates<C> = Option::from(point.coordinates())
            .ok_or("cannot write points at infinity to the transcript")?;
        self.state.update(coords.x().to_repr().as_ref());
"""
seed("S18", "P18", [("halo2_proofs/src/transcript.rs", S18_OLD, S18_NEW, 0), ("halo2_proofs/src/transcript.rs", S18_OLD, S18_NEW)], H2, """
use halo2_proofs::transcript::*;
use halo2curves::bn256::*;
use group::Curve;
fn main() {
    let p = (G1::generator() * Fr::from(5)).to_affine();
    let w = |q: G1Affine| { let mut t = Blake2bWrite::<_, G1Affine, Challenge255<G1Affine>>::init(vec![]); t.write_point(q).unwrap(); let c = t.squeeze_challenge().get_scalar(); (t.finalize(), c) };
    let r = |b: &[u8]| { let mut t = Blake2bRead::<_, G1Affine, Challenge255<G1Affine>>::init(b); let q = t.read_point().unwrap(); (q, t.squeeze_challenge().get_scalar()) };
    let ((a, ca), (b, cb)) = (w(p), w(-p));
    assert_eq!(r(&a), (p, ca)); assert_eq!(r(&b), (-p, cb));
    assert_ne!(ca, cb, "the challenge does not tell a commitment from its negation");
}
""", "a commitment replaced by its negation after the challenges are known", "the transcripts absorb only the x coordinate of points, on both sides")

POS = ["poseidon", "halo2curves"]
seed("S19", "P19", [("poseidon/src/poseidon.rs", """        self.spec.permute(&mut self.state);
        // Flush the absorption line
        self.absorbing.clear();
        // Returns the challenge""", """        self.spec.permute(&mut self.state);
        // Returns the challenge""")], POS, """
use halo2curves::bn256::Fr;
use poseidon::Poseidon;
fn main() {
    let new = || Poseidon::<Fr, 3, 2>::new(8, 57);
    let e = |v: &[u64]| v.iter().map(|x| Fr::from(*x)).collect::<Vec<_>>();
    for n in 0..5usize {
        // after a squeeze nothing is pending: the padding one has closed the block, so that the next squeeze
        // continues from a full block
        let m = e(&[3, 1, 4, 1, 5][..n]);
        let mut a = new(); a.update(&m); let x = a.squeeze(); let y = a.squeeze();
        let mut b = new(); b.update(&m); b.update(&e(&[1])); if (n + 1) % 2 != 0 { b.update(&e(&[0])) }
        // a and b have absorbed the same blocks
        assert_eq!(b.squeeze(), y, "second squeeze after {} elements", n); assert_ne!(x, y);
    }
}
""", "a hasher that is squeezed again after a squeeze with pending elements", "squeeze leaves the pending elements in the absorption line, so that they are absorbed again")

seed("S20", "P20", [("halo2_proofs/src/plonk/evaluation.rs", """                        if result_a == ValueSource::Constant(0) {
                            self.add_calculation(Calculation::Negate(result_b))
                        } else if""", """                        if result_a == ValueSource::Constant(0) {
                            result_b
                        } else if""")], H2P, PROVE + """
#[derive(Clone)] struct C { zero_first: bool }
impl Circuit<Fr> for C {
    type Config = (Selector, Column<Advice>, Column<Advice>); type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self { self.clone() }
    fn configure(m: &mut ConstraintSystem<Fr>) -> Self::Config {
        let s = m.selector(); let a = m.advice_column(); let b = m.advice_column();
        m.create_gate("running difference", |m| {
            let s = m.query_selector(s); let x = m.query_advice(a, Rotation::cur()); let y = m.query_advice(b, Rotation::cur());
            // 0 - x + y, as a fold that starts from zero gives it
            vec![s * ([x].into_iter().fold(Expression::Constant(Fr::zero()), |acc, e| acc - e) + y)]
        });
        (s, a, b)
    }
    fn synthesize(&self, (s, a, b): Self::Config, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        l.assign_region(|| "r", |mut r| {
            for i in 0..3 { s.enable(&mut r, i)?; for c in [a, b] { r.assign_advice(|| "", c, i, || Value::known(Fr::from(i as u64 * 5 + 1)))?; } }
            Ok(())
        })
    }
}
fn main() {
    let c = C { zero_first: true };
    assert!(halo2_proofs::dev::MockProver::run(4, &c, vec![]).unwrap().verify().is_ok());
    assert!(accepted(4, &c, &[c.clone()], &[&[]]), "the proof of a satisfied circuit is rejected");
}
""", "a gate in which an expression is subtracted from the constant zero (a fold that starts at zero)", "the prover's evaluator drops the negation, so its quotient differs from the verifier's and honest proofs are rejected")

seed("S21", "P21", [("halo2_proofs/src/plonk/circuit.rs", """            .flat_map(|lookup| lookup.input_expressions.iter_mut().chain(lookup.table_expressions.iter_mut()))
        {
            replace_selectors(expr, &selector_replacements, true);
        }
        self
    }
""", """            .flat_map(|lookup| lookup.input_expressions.iter_mut())
        {
            replace_selectors(expr, &selector_replacements, true);
        }
        self
    }
""")], H2P, PROVE + """
use halo2_proofs::SerdeFormat;
#[derive(Clone)] struct C;
impl Circuit<Fr> for C {
    type Config = (Selector, Selector, Column<Advice>, Column<Fixed>); type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self { self.clone() }
    fn configure(m: &mut ConstraintSystem<Fr>) -> Self::Config {
        let s = m.complex_selector(); let t = m.complex_selector(); let a = m.advice_column(); let f = m.fixed_column();
        // the table is the part of the fixed column which the second selector switches on
        m.lookup_any("l", |m| { let s = m.query_selector(s); let t = m.query_selector(t); let x = m.query_advice(a, Rotation::cur()); let y = m.query_fixed(f, Rotation::cur()); vec![(s * x, t * y)] });
        (s, t, a, f)
    }
    fn synthesize(&self, (s, t, a, f): Self::Config, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        l.assign_region(|| "r", |mut r| {
            for i in 0..4 {
                r.assign_fixed(|| "", f, i, || Value::known(Fr::from(i as u64 + 3)))?; if i < 3 { t.enable(&mut r, i)? }
                s.enable(&mut r, i)?; r.assign_advice(|| "", a, i, || Value::known(Fr::from(i as u64 % 3 + 3)))?;
            }
            Ok(())
        })
    }
}
fn main() {
    let p = ParamsKZG::<Bn256>::setup(5, Rng(3));
    let (vk, pr) = proof(&p, &C, &[C], &[&[]]).unwrap();
    assert!(check(&p, &vk, &pr, &[&[]]));
    let mut b = vec![]; vk.write(&mut b, SerdeFormat::RawBytes).unwrap();
    let vk2 = VerifyingKey::<G1Affine>::read::<_, C>(&mut &b[..], SerdeFormat::RawBytes).unwrap();
    assert!(check(&p, &vk2, &pr, &[&[]]), "the key that was written and read again rejects the proof");
}
""", "a lookup whose table expression contains a complex selector, and a verifying key that was written and read", "a verifying key read back keeps the virtual selector in the table expressions of its lookups, so that it is a different key (and panics when it is used)")
