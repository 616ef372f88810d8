use ckb_bf_vm::code;
use ckb_bf_vm::interpreter::{Interpreter, Register};
use ckb_bf_vm::matrix::{InstructionMatrixRow, MemoryMatrixRow};
use halo2curves::bn256::Fr;
pub fn compile_to_u16(c: Vec<u8>) -> Vec<u16> { code::compile_to_u16(c) }
pub fn compile(c: Vec<u8>) -> Vec<Fr> { code::compile(c) }
pub fn easygen(c: &str) -> Vec<Fr> { code::easygen(c) }
pub fn new() -> Interpreter { Interpreter::new() }
pub fn set_code(i: &mut Interpreter, c: Vec<Fr>) { i.set_code(c) }
pub fn set_input(i: &mut Interpreter, c: Vec<Fr>) { i.set_input(c) }
pub fn set_bits(i: &mut Interpreter, c: u64) { i.set_bits(c) }
pub fn run(i: &mut Interpreter) { i.run() }
pub fn instr_row(r: &Register) -> InstructionMatrixRow { InstructionMatrixRow::from(r) }
pub fn mem_row(r: &Register) -> MemoryMatrixRow { MemoryMatrixRow::from(r) }
