NA = {}
p("P01", "Compiled jump targets match bracket nesting",
  "For every source text, compilation keeps exactly the eight Brainfuck instructions in order and drops every other byte. Each loop-open instruction is followed by the slot just after its matching loop-close pair, and each loop-close by the slot just after its matching loop-open pair, at any nesting depth; a loop-close with no open loop is refused. This holds for every program of at most 65535 compiled slots.",
  ["programs"], "every byte string whose compiled form has at most 65535 slots",
  "The tests compile a handful of fixed programs; nesting depth, interleaving of comments and distances between brackets are unbounded.",
  ["ckb_bf_vm/src/code.rs"], [("single pass with a bracket stack and back-patching", "ckb_bf_vm/src/code.rs compile_to_u16"), ("embedding into field elements", "ckb_bf_vm/src/code.rs compile")],
  "proof: loop invariant of the compiler loop, one obligation per source byte class, from an arbitrary loop state; element-wise embedding bounded in length; native differential stage bounded")
p("P02", "Interpreter implements Brainfuck semantics, step by step",
  "Executing a compiled program performs, at every step, exactly the Brainfuck effect of the current instruction: pointer moves by one, cells wrap modulo two to the configured cell width, loops branch on the current cell only, input is consumed in order one value per read, output appends the current cell, and no other cell changes. The tape starts as zeros and grows on demand, execution stops exactly when the instruction pointer leaves the program, and moving left of the first cell or reading past the input aborts.",
  ["programs", "inputs"], "every compiled program, every input, every reachable machine state (unbounded length of run, tape and program)",
  "The tests run five programs; the step relation must hold from every state, including wrap-around at both ends, tape growth, jumps to the end of the program and reads at the input boundary.",
  ["ckb_bf_vm/src/interpreter.rs"], [("main loop and instruction dispatch", "ckb_bf_vm/src/interpreter.rs run"), ("constructor and setters", "ckb_bf_vm/src/interpreter.rs new/set_code/set_input/set_bits")],
  "proof: loop invariant of the interpreter loop, one obligation per instruction from an arbitrary state with symbolic program, tape and input; cell widths 1, 8, 16 as separate obligations; native differential stage bounded")
p("P03", "The execution trace records exactly the machine states",
  "Running a program leaves one processor-trace row per machine state, in order, holding the cycle, instruction pointer, current and next instruction, memory pointer, cell value and its inverse (zero for zero), including the terminal state. The instruction trace is exactly the program listing plus one row per state ordered by instruction pointer, and the memory trace is exactly one row per state ordered by memory pointer and then by cycle. The input trace lists exactly the values read and the output trace exactly the values written.",
  ["programs", "inputs"], "every compiled program, every input, every reachable machine state",
  "Tests never look at the trace tables row by row; a wrong row only shows up as a proof that fails for particular programs.",
  ["ckb_bf_vm/src/interpreter.rs", "ckb_bf_vm/src/matrix.rs"], [("row recording before each step and at termination", "ckb_bf_vm/src/interpreter.rs run"), ("row projections", "ckb_bf_vm/src/matrix.rs From<&Register>")],
  "proof: rows appended by one arbitrary iteration, by the program-listing loop and by the epilogue, including the sort keys and stability; native differential stage bounded")
p("P04", "Every processor row follows by exactly one Brainfuck step",
  "The constraints on two consecutive processor-trace rows accept precisely the Brainfuck steps: for each of the eight instructions and for a zero or non-zero current cell, cycle, instruction pointer, memory pointer and cell value of the next row are forced to the step result (cell values wrapping within 0..255), input and output steps feed their running sums with the right value, and any other instruction value is refused. The first row is forced to the initial state and the last row makes no step. Nothing that is a correct step is refused.",
  ["programs", "inputs", "prover-chosen traces"], "all field values of all cells of two adjacent rows",
  "Tests only run honest traces; what a dishonest prover may write into the rows ranges over all field elements.",
  ["ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/range_table.rs"],
  [("step gates", "ckb_bf_base/src/processor_table.rs configure"), ("running sums and products", "ckb_bf_base/src/processor_table.rs configure_second_phase"), ("which rows carry the gates", "ckb_bf_base/src/processor_table.rs load_table")],
  "proof: the polynomials built by the real configure are shown equivalent to the step relation, per instruction and cell case, by ideal membership over the scalar field; native forged-trace stage bounded")
p("P05", "Auxiliary tables tie memory, program, input and output to the trace",
  "Whatever a prover writes, satisfied constraints force: memory rows start at cell zero with value zero, move to the next cell only, enter a cell with value zero and otherwise change it only in the following cycle; instruction rows start at address zero, advance by one slot with the next-instruction value equal to the following slot and end past the program; all tables are compared with the processor trace through the same challenges, equal starting values and equal final values; and table contents are committed before the challenges are drawn. Thus every executed instruction, jump target, read-back cell, input and output value comes from the program, the tape and the input.",
  ["prover-chosen traces"], "all field values in all tables, all challenges",
  "Tests only run honest traces; soundness quantifies over all dishonest tables.",
  ["ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/output_table.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/utils.rs"],
  [("row relations of each table", "ckb_bf_base/src/*_table.rs configure"), ("running products and sums", "ckb_bf_base/src/*_table.rs configure_second_phase"), ("final equalities", "ckb_bf_base/src/main_config.rs load_table")],
  "proof: row relations and fingerprints by ideal membership over the scalar field; that equal products over random challenges mean equal multisets is the standard Schwartz-Zippel argument and is assumed; one known finding (memory rows out of cycle order); native forged-trace stage bounded")
p("P06", "The proof is bound to the public program and the public input",
  "The public statement is the program length, every program slot, the input length and every input value, in order. Each public value is tied by an equality to the table entry used by the execution, and each length to the number of rows, so a trace accepted for one statement is refused for any statement that differs in any value, in order or in length.",
  ["programs", "inputs", "prover-chosen traces"], "every program, every input, every differing public statement",
  "Tests verify matching statements only.",
  ["ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/main_config.rs"],
  [("copies from the instance columns", "ckb_bf_base/src/program_table.rs, input_table.rs load_table"), ("length constraints", "ckb_bf_base/src/main_config.rs load_table")],
  "proof where stated: equality classes recorded from the real synthesis (bounded to recorded programs); native perturbation stage bounded")
p("P07", "Every honest execution satisfies the circuit",
  "For every program that terminates without leaving the tape to the left and every input it consumes completely, the trace recorded by the interpreter satisfies every gate, lookup and equality of the circuit, for every value of the challenges.",
  ["programs", "inputs"], "every terminating program and input, every challenge",
  "Tests prove a few programs; wrap-around, empty tables, nested and skipped loops, tape growth and row order all have to be accepted.",
  ["ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/main_config.rs"],
  [("witness assignment", "ckb_bf_base/src/*_table.rs load_table"), ("gates", "ckb_bf_base/src/*_table.rs configure")],
  "proof: honest row relations imply every polynomial (ideal membership); witness assignment and whole traces by the native stage, bounded")
p("P08", "Prime-field arithmetic is exact modulo the field prime",
  "For each of the four 256-bit prime fields, addition, subtraction, negation, doubling, multiplication, squaring, inversion, square root, exponentiation, equality, zero test and constant-time selection return the mathematically correct residue for all operands, always in fully reduced form. Inversion succeeds exactly on non-zero elements and a square root is returned exactly for squares. The published field constants satisfy their defining equations.",
  ["inputs"], "all pairs of field elements (2^508 operand pairs per operation)",
  "Tests sample random elements; carry, borrow and final-subtraction corner cases have probability around 2^-64 under random sampling.",
  ["halo2curves/src/bn256/fq.rs", "halo2curves/src/bn256/fr.rs", "halo2curves/src/secp256k1/fp.rs", "halo2curves/src/secp256k1/fq.rs", "halo2curves/src/derive/field.rs", "halo2curves/src/arithmetic.rs"],
  [("Montgomery multiplication and reduction", "halo2curves/src/derive/field.rs"), ("carry arithmetic", "halo2curves/src/arithmetic.rs"), ("operator traits", "halo2curves/src/derive/*.rs")],
  "proof: limb-level symbolic execution of the MIR, polynomial normal forms modulo the prime plus z3 for carries and ranges; exponentiation bounded to listed exponents for every base; native differential stage bounded")
p("P09", "Field encodings are canonical bijections",
  "For each prime field, encoding an element yields the 32 little-endian bytes of its unique integer below the modulus and decoding accepts exactly those byte strings, so encode and decode are mutually inverse and every non-canonical string is refused. Conversions from integers, raw limbs and 64 uniform bytes give the value modulo the prime, ordering and parity follow the canonical integer, and the raw in-memory format accepts exactly reduced limbs and rejects short input.",
  ["inputs"], "all 2^256 byte strings and all field elements",
  "Tests round-trip random elements only; non-canonical inputs at and above the modulus and truncated inputs are practically never sampled.",
  ["halo2curves/src/derive/field.rs", "halo2curves/src/bn256/fr.rs", "halo2curves/src/bn256/fq.rs", "halo2curves/src/secp256k1/fp.rs", "halo2curves/src/secp256k1/fq.rs", "halo2curves/src/serde.rs", "halo2curves/src/io.rs"],
  [("from_repr / to_repr", "halo2curves/src/bn256/fr.rs and siblings"), ("raw serialisation", "halo2curves/src/derive/field.rs field_common / serde"), ("no_std readers and writers", "halo2curves/src/io.rs")],
  "proof: limb-level symbolic execution of the MIR for every byte string; lengths of raw inputs checked at listed sizes; native differential stage bounded")
p("P10", "Extension-field arithmetic of the pairing tower is exact",
  "For the degree 2, 6 and 12 extensions of the bn256 base field, addition, subtraction, negation, doubling, multiplication (dense and sparse), squaring, cyclotomic squaring on the cyclotomic subgroup, conjugation, every power of Frobenius, multiplication by the non-residues, inversion, square root, norm, equality and zero test return the element defined by the tower (u^2 = -1, v^3 = 9 + u, w^2 = v), for all operands. Inversion succeeds exactly on non-zero elements and a square root is returned exactly for squares.",
  ["inputs"], "all tower elements (up to twelve base-field coordinates each)",
  "Tests sample random dense elements; wrong coefficients in sparse, zero-coordinate or rarely used operations survive them.",
  ["halo2curves/src/bn256/fq2.rs", "halo2curves/src/bn256/fq6.rs", "halo2curves/src/bn256/fq12.rs"],
  [("Fq2", "halo2curves/src/bn256/fq2.rs"), ("Fq6", "halo2curves/src/bn256/fq6.rs"), ("Fq12", "halo2curves/src/bn256/fq12.rs")],
  "proof: every operation executed from MIR over abstract base-field values and compared coordinate by coordinate with the single extension Fq[w]/(w^12-18w^6+82); inversion level by level over the contracts of the level below; native differential stage bounded")
p("P11", "The pairing is the optimal ate pairing, bilinear and non-degenerate",
  "For all points P of G1 and Q of G2 the pairing evaluates the optimal ate function of Q at P and raises it to a fixed non-degenerate multiple of (q^12-1)/r: each doubling and addition step returns the line through the current points and the correct next point, the lines multiply up to the divisor of the optimal ate function, and pairs containing the identity contribute one. A product of pairings over several pairs is the product of the single pairings. Target-group addition, negation, doubling and multiplication by every scalar are those of the cyclic group of order r.",
  ["inputs"], "all points of both groups, all scalars, lists of pairs",
  "Tests check bilinearity for a few scalars; the identity cases, single lines and rarely taken bits of the loop count need an argument over all points.",
  ["halo2curves/src/bn256/engine.rs"],
  [("line functions", "halo2curves/src/bn256/engine.rs G2Prepared::from_affine"), ("Miller loop", "halo2curves/src/bn256/engine.rs multi_miller_loop"), ("final exponentiation", "halo2curves/src/bn256/engine.rs final_exponentiation")],
  "proof: line and point identities as polynomial identities, divisor bookkeeping of the loop for one and two pairs, exponent bookkeeping of the final exponentiation; that this function is a pairing is the published theorem and is assumed; native stage bounded")
p("P12", "Curve operations implement the elliptic-curve group law",
  "On each of the three curves, addition and subtraction of any two points in any mix of affine and Jacobian form, doubling, negation, equality, conversion between the forms (single and batched), multiplication by every scalar, sums, cofactor clearing and the subgroup test agree with the group law, whatever the representation of the operands: equal and opposite operands, the identity in any representation, and points outside the prime-order subgroup included. Membership tests are true exactly on the curve, and the generators lie on the curve and have the prime group order.",
  ["inputs"], "all pairs of curve points, all Jacobian representations, all scalars",
  "Tests check identities on a few random points in one representation; equal, opposite and identity operands in mixed forms and rarely set scalar bits are not sampled.",
  ["halo2curves/src/derive/curve.rs", "halo2curves/src/bn256/curve.rs", "halo2curves/src/secp256k1/curve.rs", "halo2curves/src/derive/*.rs"],
  [("curve macro", "halo2curves/src/derive/curve.rs new_curve_impl"), ("curve constants, cofactor, endomorphism", "halo2curves/src/bn256/curve.rs"), ("secp256k1", "halo2curves/src/secp256k1/curve.rs")],
  "proof: every operation executed from MIR on each case of the group law, inputs parametrised by affine values, results compared as polynomial identities; scalar multiplication for every scalar bit string over the group contracts; batch normalisation and sums of 0..3 points are bounded; native stage bounded")
p("P13", "Point encodings are canonical and always on the curve",
  "For each curve, every byte string either is refused or decodes to a point that lies on the curve and re-encodes to the same string, and every curve point decodes from its encoding; nothing makes decoding panic. The sign bit tells a point from its negative, all-zero bytes encode exactly the identity, and bits outside the x coordinate and the sign must be zero. The raw formats preserve coordinates in order, accept exactly reduced coordinates of curve points, and report wrong lengths or short input as an error. The degree-2 extension field has the same canonical encoding property.",
  ["inputs"], "all byte strings and all points, in affine and Jacobian form",
  "Tests round-trip a few random points; non-canonical, truncated, off-curve and sign-ambiguous strings are not tried.",
  ["halo2curves/src/derive/curve.rs", "halo2curves/src/bn256/fq2.rs", "halo2curves/src/serde.rs"],
  [("compressed encoding", "halo2curves/src/derive/curve.rs GroupEncoding"), ("raw encoding", "halo2curves/src/derive/curve.rs SerdeObject"), ("Fq2 encoding and sign", "halo2curves/src/bn256/fq2.rs")],
  "proof: every outcome of decoding followed for all byte strings over the base-field encoding contracts (P09) and the square-root contract (P08, P10); raw input lengths at listed sizes; native stage bounded")
p("P14", "Polynomial, FFT and multiexp routines compute their definitions",
  "For every input: best_multiexp and small_multiexp return the sum of scalar times base for any number of terms, zero and repeated scalars and identity or opposite bases included; best_fft returns the values of the polynomial at the powers of omega (over field and group elements); polynomial evaluation, inner product, division by X - b, Lagrange interpolation and conversion of a commitment key to the Lagrange basis return the exact result. An evaluation domain has the size, extended size and primitive roots its parameters define; conversions between coefficient, Lagrange and extended-coset form are mutually inverse evaluations at the right points, rotations move by whole rows, division by the vanishing polynomial and the Lagrange basis values are exact for every index including negative ones.",
  ["inputs"], "all coefficient vectors and scalars; all sizes (proved for multiexp, at listed sizes otherwise)",
  "Tests run one size on random vectors; window boundaries, bucket states, negative indices, rotations and domain degrees that are powers of two or not are rarely hit.",
  ["halo2_proofs/src/arithmetic.rs", "halo2_proofs/src/poly/domain.rs", "halo2_proofs/src/poly.rs"],
  [("multiexp, FFT, division, interpolation", "halo2_proofs/src/arithmetic.rs"), ("evaluation domains", "halo2_proofs/src/poly/domain.rs EvaluationDomain"), ("polynomial operators", "halo2_proofs/src/poly.rs")],
  "proof: best_multiexp by loop invariant for any number of terms (window chosen at the listed lengths); domain constants for every k; the other routines symbolically in all values at listed sizes (bounded in size); native differential stage bounded")
p("P15", "Deferred fractions behave like the field elements they stand for",
  "For all fractions (zero, trivial, or numerator over denominator with any values, a zero denominator standing for zero): addition, subtraction, multiplication, negation, doubling, squaring, cubing and inversion in every operand form, comparison, zero test, conversions and final evaluation agree with field arithmetic on the values the fractions stand for, so the cell value committed by the prover is the one the circuit computed.",
  ["inputs"], "all pairs of fractions in all representations, all operand forms",
  "Tests sample single operations at random; zero numerators and denominators in one operand of one form are rarely combined.",
  ["halo2_proofs/src/plonk/assigned.rs"],
  [("Assigned", "halo2_proofs/src/plonk/assigned.rs")],
  "proof: every operator executed from MIR for each pair of representations, result compared with the field value by normalisation modulo the defining relations; native stage bounded")
p("P16", "An accepted proof enforces every gate, copy constraint and lookup",
  "For every circuit and key: the verifying key commits exactly to the circuit's fixed cells, to selector values (each selector zero on the rows where it is off and non-zero where it is on, also after selectors are combined) and to a permutation whose cycles are the classes of cells the circuit copies; and for every proof, instance and transcript, verify_proof absorbs the key digest and every public value, reads commitments and evaluations and draws challenges in the protocol's order, and demands that the quotient opens to the y-combination of every gate polynomial, every permutation constraint of every column set and every lookup constraint, each with the right rotations, Lagrange values, challenges and blinding rows, for each of the proofs verified together, divided by x^n - 1. So a witness violating a gate on an enabled row, a copy or a lookup is rejected, and one violating nothing is accepted.",
  ["inputs"], "all keys' values, proofs, instances and challenges; all witnesses",
  "Tests prove and verify one satisfied circuit; a constraint missing from (or altered in) both prover and verifier, a lost copy or a selector leaking to another row leaves every such test passing.",
  ["halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk/keygen.rs", "halo2_proofs/src/plonk/permutation/keygen.rs", "halo2_proofs/src/plonk/permutation/verifier.rs", "halo2_proofs/src/plonk/lookup/verifier.rs", "halo2_proofs/src/plonk/vanishing/verifier.rs", "halo2_proofs/src/plonk/circuit.rs", "halo2_proofs/src/plonk/circuit/compress_selectors.rs"],
  [("verifier", "halo2_proofs/src/plonk/verifier.rs verify_proof"), ("permutation, lookup and vanishing arguments", "halo2_proofs/src/plonk/{permutation,lookup,vanishing}/verifier.rs"), ("key generation", "halo2_proofs/src/plonk/keygen.rs, permutation/keygen.rs, circuit/compress_selectors.rs")],
  "proof per circuit shape: the real keygen_vk and verify_proof are executed from MIR on three circuits that use every kind of constraint (bounded in shape; all values, keys, challenges and instances symbolic) and the resulting identity is matched term by term against the specification; native stage on random circuits and forged witnesses bounded")

p("P20", "create_proof proves every satisfied circuit and the verifier accepts the proof",
  "For every circuit, key, satisfying witness, public values, number of proofs made together and randomness, create_proof succeeds and verify_proof accepts its output: prover and verifier absorb, write / read and draw the same values in the same order; each opening the verifier checks is of the polynomial the prover committed to, at the same point, with the evaluation it wrote; the committed advice rows are the assigned cells; permutation and lookup products start at one, follow their recurrence over the usable rows and end at one when copied cells agree and (A', S') permutes (A, S); permute_expression_pair returns such a pair with every A'_i equal to S'_i or A'_{i-1}, and an error exactly when an input is not in the table; and the quotient the prover divides is, at every point of the extended coset, the combination of gate, permutation and lookup constraints the verifier evaluates (for every form of expression and rotation), within the degree allotted to it.",
  ["inputs"], "all witnesses, public values, randomness and challenges (outside {0} and the domain)",
  "Tests prove a few circuits with fixed expressions; a prover that mistreats a constant on one side of a sum, a far rotation, the last row, a duplicate in a table, a second proof or a third permutation set still proves those.",
  ["halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/evaluation.rs", "halo2_proofs/src/plonk/permutation/prover.rs", "halo2_proofs/src/plonk/permutation/keygen.rs", "halo2_proofs/src/plonk/lookup/prover.rs", "halo2_proofs/src/plonk/vanishing/prover.rs", "halo2_proofs/src/plonk/keygen.rs"],
  [("prover", "halo2_proofs/src/plonk/prover.rs create_proof"), ("quotient", "halo2_proofs/src/plonk/evaluation.rs Evaluator::evaluate_h, GraphEvaluator"), ("arguments", "halo2_proofs/src/plonk/{permutation,lookup,vanishing}/prover.rs"), ("proving key", "halo2_proofs/src/plonk/keygen.rs keygen_pk")],
  "proof per circuit shape: the real keygen, create_proof and verify_proof are executed from MIR on four circuits (bounded in shape; witness, public values, randomness, challenges symbolic) over the contracts of the domain transforms (P14), with the identities between prover and verifier decided at random field points (error below 2^-240); permute_expression_pair on all order patterns of up to 3 rows and sampled ones of 9 (bounded); native stage on random circuits bounded")

p("P17", "KZG openings are accepted only for values the committed polynomials have",
  "For every setup secret, committed polynomials, set of opening points and claims: setup produces the powers of the secret and the Lagrange basis of the evaluation domain, and downsize and shrink keep them consistent; commitments are the linear combinations of that basis; SHPLONK and GWC verifiers accept exactly when the pairing equation of their protocol holds for the claims, each claim weighed by its own powers of challenges drawn after it is fixed, whatever the order, grouping or repetition of the queries; honest provers' messages satisfy that equation; SingleStrategy accepts exactly on a passing check, and AccumulatorStrategy accepts a batch only if every proof in it is valid (up to the collision probability of a challenge that depends on all of them).",
  ["inputs"], "all secrets, commitments, points, claims, witnesses and challenges",
  "Tests open a handful of honest polynomials at fixed points; a claim that is not weighed by a challenge, a batch challenge that can be predicted or a point set paired with the wrong claims still accepts every honest opening.",
  ["halo2_proofs/src/poly/kzg/commitment.rs", "halo2_proofs/src/poly/kzg/msm.rs", "halo2_proofs/src/poly/kzg/strategy.rs", "halo2_proofs/src/poly/kzg/multiopen/shplonk.rs", "halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs", "halo2_proofs/src/poly/kzg/multiopen/shplonk/prover.rs", "halo2_proofs/src/poly/kzg/multiopen/gwc.rs", "halo2_proofs/src/poly/kzg/multiopen/gwc/verifier.rs", "halo2_proofs/src/poly/kzg/multiopen/gwc/prover.rs"],
  [("SHPLONK", "halo2_proofs/src/poly/kzg/multiopen/shplonk*"), ("GWC", "halo2_proofs/src/poly/kzg/multiopen/gwc*"), ("pairing check and strategies", "halo2_proofs/src/poly/kzg/{msm,strategy}.rs"), ("parameters and commitments", "halo2_proofs/src/poly/kzg/commitment.rs")],
  "proof per query pattern: the real verifiers, provers, strategies and setup are executed from MIR (bounded in query pattern, polynomial size and k; secret, commitments, claims, points of the verifiers and challenges symbolic) over the contracts of Fr, G1, G2 and the pairing; the native stage compares real verdicts with the opening equation and tries batches whose errors cancel")

p("P18", "Fiat-Shamir challenges bind the whole transcript, alike for prover and verifier",
  "For every history of transcript operations, and for the Blake2b, Keccak-256 and Poseidon transcripts: reader and writer start from the same state; absorbing, writing or reading a point or a scalar changes the state by the same data on both sides, and that data contains all of the point (both coordinates) or scalar; in the Blake2b and Keccak transcripts points, scalars and challenges are told apart, so that different histories are absorbed as different byte strings; a challenge is the reduction of a 64-byte string derived from everything absorbed so far and drawing it changes the state; write appends exactly the canonical encoding, read consumes exactly it, returns the decoded element and refuses invalid or truncated encodings; finalize returns what was written.",
  ["inputs", "histories"], "all operation histories, points, scalars and proof bytes",
  "Tests run prover and verifier on the same code, so data that neither side absorbs (or challenges that do not depend on it) is invisible to them while it lets a prover choose it after seeing the challenge.",
  ["halo2_proofs/src/transcript.rs", "halo2_proofs/src/transcript/poseidon.rs"],
  [("Blake2b and Keccak-256 transcripts", "halo2_proofs/src/transcript.rs"), ("Poseidon transcript", "halo2_proofs/src/transcript/poseidon.rs")],
  "proof of every operation on an arbitrary past state (no bound: the operations are straight-line), over contracts of blake2b_simd, sha3, the Poseidon sponge, element encodings (P13) and wide reduction (P09); native stage against an independent computation of the digests bounded")
p("P19", "Poseidon is the reference permutation and sponge for every input",
  "For every sequence of absorbed elements, however they are split over calls and interleaved with squeezes, the hasher yields the Poseidon sponge: capacity word 2^64, blocks of RATE elements added to the rate words in order, each full block permuted once, a squeeze adds the pending elements followed by a one, permutes once, returns word 1, and leaves nothing pending. The optimised permutation (merged constants, sparse matrices) equals the plain one (add round constants, fifth power of all words or of word 0, multiply by the MDS matrix) for every state, and constants and MDS matrix are those of the Grain generator for the field, width and round numbers.",
  ["inputs", "histories"], "all messages, splits and squeeze patterns; the parameter sets listed in the evidence",
  "Tests hash a few fixed vectors at two widths and squeeze once; the equality must hold for every state and for the width the transcript uses, and hashers are squeezed many times.",
  ["poseidon/src/poseidon.rs", "poseidon/src/permutation.rs", "poseidon/src/spec.rs", "poseidon/src/matrix.rs", "poseidon/src/grain.rs"],
  [("sponge", "poseidon/src/poseidon.rs update/squeeze"), ("optimised permutation", "poseidon/src/permutation.rs permute"), ("optimised constants and sparse matrices", "poseidon/src/spec.rs"), ("parameter generation", "poseidon/src/grain.rs")],
  "proof: permutation equal to the reference for all states and all round constants at five parameter sets (MDS matrix by an independent Grain generator), squeeze and initial state from an arbitrary history unbounded, absorption from an arbitrary history bounded in the elements per call; Grain output compared natively (it depends on the parameters only); native stage against an independent sponge bounded")
p("P21", "Written keys and parameters read back equal, and bad input is refused",
  "For every circuit, key, parameters and each of the three formats: writing a verifying key, a proving key or KZG parameters and reading the bytes back yields an equal key or parameters (domain, commitments, constraint system with its selector substitutions, digest, polynomials, points), consuming exactly the bytes written, so what one side proves with the written keys the other side verifies with the ones it read; this includes the shrunk verifier parameters read by read_verifier_params, every form of selector expression, and to_bytes / from_bytes. In the checked formats (Processed, RawBytes), input that ends early anywhere, or holds an invalid field or point encoding anywhere, is refused with an error and never with a panic, and no element is taken unchecked.",
  ["inputs", "fault_sequences"], "all values, formats, points of truncation and positions of an invalid encoding",
  "Tests never serialize a key with combined selectors in each format, nor cut the bytes at every position; a field read in the wrong order, endianness or format only shows with specific circuits, and an unchecked point only with hostile bytes.",
  ["halo2_proofs/src/plonk.rs", "halo2_proofs/src/helpers.rs", "halo2_proofs/src/plonk/circuit.rs", "halo2_proofs/src/plonk/circuit/compress_selectors.rs", "halo2_proofs/src/plonk/permutation.rs", "halo2_proofs/src/poly.rs", "halo2_proofs/src/poly/kzg/commitment.rs", "ckb_bf_base/src/utils.rs"],
  [("keys", "halo2_proofs/src/plonk.rs VerifyingKey/ProvingKey read, write, to_bytes, from_bytes"), ("selector expressions", "halo2_proofs/src/plonk/circuit.rs Expression::read/write, ckb_recreate_side_effect; compress_selectors.rs"), ("parameters", "halo2_proofs/src/poly/kzg/commitment.rs write_custom, read_custom; ckb_bf_base/src/utils.rs read_verifier_params"), ("formats", "halo2_proofs/src/helpers.rs")],
  "proof of every Expression form by structural induction (symbolic indices below 2^32, rotations, scalars; sub-expressions by contract); keys of four circuits, parameters up to k = 3 and polynomials up to 4 values with symbolic contents (bounded in shape), the reader's contract choosing nondeterministically where the input ends or an encoding is invalid; native stage bounded")
