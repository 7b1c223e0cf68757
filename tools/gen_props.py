#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Goldilocks base-field arithmetic is exact and canonical",
 "For all field elements, addition, subtraction, negation, doubling, multiplication, squaring, inversion and conversion to and from integers return exactly the result modulo p = 2^64-2^32+1, always stored as the unique canonical representative, so that equality of elements is equality of values. The inverse of zero is zero (the library's convention, fixed by its tests), and integers outside [0,p) are rejected, not wrapped.",
 ["inputs"], "all pairs of the p canonical representations (about 2^128 pairs) and all 64-bit integers",
 "the tests sample a few thousand random values and never the carry and borrow corners, which have probability around 2^-32",
 ["fields/src/field_gl.rs"],
 [("Montgomery multiplication and reduction", "mont_reduce, mul_assign"), ("carry-correcting add/double", "FrRepr::add_nocarry, mul2, Fr::reduce"), ("inversion by addition chain", "Fr::inverse, exp_acc"), ("integer conversion", "from_repr, into_repr, as_int")])
prop("P02", "Cubic and quintic extension elements obey the field laws",
 "For all elements of the cubic and the quintic extension, in every mix of embedded base-field and full operands and in owned, assigning and by-value operator forms, sum, difference, product, negation, doubling, squaring, scalar multiplication, exponentiation, inverse and quotient equal the mathematical result in F_p[x]/(x^3-x-1) and F_p[x]/(x^5-3) respectively. None of these operations fails on any operand except inversion of zero, and batch inversion returns the element-wise inverses.",
 ["inputs"], "all operand pairs of both extension fields and all dimension mixes",
 "the existing tests use fixed or random full-dimension operands and only some operators; mixed dimensions and the assigning forms are unsampled",
 ["starky/src/f3g.rs", "starky/src/f5g.rs"],
 [("cubic arithmetic", "f3g.rs Add/Sub/Mul/Neg/Div, inv, square, exp, batch_inverse"), ("quintic arithmetic", "f5g.rs Add/Sub/Mul/Neg/Div, inv, square, exp, batch_inverse")])
prop("P03", "Extension-element equality and ordering are consistent and total",
 "For all extension elements, equality holds exactly when all coefficients agree (the equality predicate takes an embedded base-field element to equal itself written with zero upper coefficients), and between elements of the same representation the ordering predicates form one total lexicographic order on the coefficients' integer values: exactly one of less, equal, greater holds, and the non-strict forms are their unions. Every comparison terminates.",
 ["inputs"], "all pairs of elements of both extensions and both dimension encodings",
 "tests compare a handful of fixed elements; ties in leading coefficients never arise by sampling",
 ["starky/src/f3g.rs", "starky/src/f5g.rs"],
 [("comparison predicates", "f3g.rs/f5g.rs _eq, gt, geq, lt, leq, PartialEq")])
prop("P04", "NTT, inverse NTT and coset extension are exact for every worker count",
 "For every polynomial, column count and power-of-two size, and whatever the number of worker threads or processors, the (serial and parallel) forward transform yields the evaluations over the subgroup in natural order, the inverse transform undoes it, and low-degree extension yields the evaluations of the same polynomial on the shifted larger domain. The result never depends on transforms performed earlier in the process.",
 ["inputs", "schedules", "configurations", "histories"], "all coefficient vectors; sizes, column counts, worker counts and orders of earlier calls within the bounds",
 "tests run fixed inputs on the one machine's processor count; block splitting depends on the processor count and the reversal table on call history",
 ["starky/src/fft.rs", "starky/src/fft_p.rs", "starky/src/fft_worker.rs", "starky/src/helper.rs", "starky/src/polutils.rs"],
 [("serial FFT", "fft.rs FFT::fft/ifft"), ("parallel block FFT", "fft_p.rs fft/ifft/interpolate"), ("workers", "fft_worker.rs"), ("zerofier, polynomial evaluation helpers", "polutils.rs")])
prop("P05", "Goldilocks Poseidon equals its specification on every state",
 "For every 12-element state and every input length the hash accepts, the optimised permutation returns exactly what the plain round-by-round Poseidon permutation with the published round constants and MDS matrix returns, in every output-length variant. Hashing is a pure function of its inputs.",
 ["inputs"], "all 12-element states (p^12) and all argument shapes",
 "tests compare four fixed vectors; a wrong partial-round sparse matrix entry can cancel on structured vectors only there",
 ["starky/src/poseidon_opt.rs", "starky/src/poseidon_constants_opt.rs"],
 [("optimised partial rounds", "poseidon_opt.rs hash_inner/partial rounds")])
prop("P06", "BN128 and BLS12-381 Poseidon equal their specified permutations at every width",
 "For every state and every supported width, the reference and the optimised Poseidon permutations over the BN128 and BLS12-381 scalar fields return exactly what the plain round-by-round permutation returns with the round constants, matrix and round numbers each is specified with (circomlib's for BN128, Neptune's for optimised BLS12-381), for the same inputs, initial state and output count. Inputs of unsupported width are rejected with an error.",
 ["inputs", "configurations"], "all states over both 254/255-bit fields at widths 2..17",
 "tests compare a few fixed vectors at a few widths; each width has its own constant tables",
 ["starky/src/poseidon_bn128.rs", "starky/src/poseidon_bn128_opt.rs", "starky/src/poseidon_bls12381.rs", "starky/src/poseidon_bls12381_opt.rs"],
 [("optimised permutation", "poseidon_bn128_opt.rs / poseidon_bls12381_opt.rs"), ("reference permutation", "poseidon_bn128.rs / poseidon_bls12381.rs")])
prop("P07", "Leaf hashing follows its specification; prover and verifier agree",
 "For every row of field elements and every row width, the leaf digest is the documented sponge or tree fold of that row, and the digest a prover stores in a commitment tree equals the digest a verifier recomputes from the opened row. Rows differing in any element or in width up to the packing limits are absorbed through every element: no element is ignored.",
 ["inputs", "configurations"], "all rows; widths up to the bound; all three hash back ends",
 "tests hash fixed rows of a few widths and never compare the committing path with the verifying path over widths",
 ["starky/src/linearhash.rs", "starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs"],
 [("Goldilocks sponge", "linearhash.rs"), ("BN128 fold", "linearhash_bn128.rs hash_element_array/hash_element_matrix"), ("BLS12-381 fold", "linearhash_bls12381.rs")])
prop("P08", "Merkle commitments open: every honest opening verifies",
 "For every matrix of field elements and every row index, the opening returned by the committed tree contains exactly that row and verifies against the tree's root, for all heights and widths and for all three hash back ends. The committed matrix can be read back element by element and the root depends only on the matrix, not on the number of worker threads.",
 ["inputs", "configurations", "schedules"], "all matrices; heights, widths, indices within the bounds",
 "tests open one or two rows of fixed matrices; odd node counts, heights below the arity and narrow rows are not covered",
 ["starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs"],
 [("tree construction", "merkelize"), ("opening", "get_group_proof"), ("verification", "verify_group_proof")])
prop("P09", "Merkle openings bind the row, its index and the root",
 "For every root, row index, claimed row and sibling path, verification accepts only if the root equals the fold of that row's digest with the siblings in the positions the index prescribes. Hence changing any element of the row, moving it to another index, or altering a used path element makes verification fail unless the hash collides.",
 ["inputs"], "all rows, indices, sibling paths and roots (idealising the hash as collision free)",
 "tests only check acceptance of honest openings; rejecting every dishonest opening quantifies over all forged rows and paths",
 ["starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs"],
 [("path folding", "merkle_calculate_root_from_proof / calculate_root_from_proof"), ("leaf digest", "calculate_root_from_group_proof")])
prop("P10", "Fiat-Shamir transcript: every absorbed value determines every challenge",
 "For every sequence of absorb and squeeze operations the challenges equal those of the specified sponge: each absorbed element enters the state in order, a squeeze after an absorb permutes first, and successive squeezes walk the permutation's output before permuting again. Prover and verifier performing the same operations obtain the same challenges.",
 ["inputs", "histories"], "all absorbed values; all operation sequences up to the bound; three back ends",
 "tests check one fixed sequence of values per back end",
 ["starky/src/transcript.rs", "starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
 [("absorb/squeeze", "put, get_fields1, get_field, update_state")])
prop("P11", "Query positions are uniform bit slices of the transcript, always in range",
 "For every transcript state, number of queries and domain size, each query position equals the specified consecutive bits of the squeezed field elements' integer values and is smaller than the domain size. Exactly the requested number of positions is returned and no bit is used twice.",
 ["inputs", "configurations"], "all squeezed element values; query counts and bit widths within the bounds",
 "tests compare one fixed draw; bit boundaries between squeezed elements are hit by particular count/width combinations only",
 ["starky/src/transcript.rs", "starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
 [("bit extraction", "get_permutations")])
prop("P12", "FRI completeness: an honest low-degree polynomial always verifies",
 "For every polynomial of degree below the bound and every step configuration, the low-degree proof produced for its evaluations is accepted by the verifier, each folding layer equals the evaluation of the folded polynomial, and the final polynomial is transmitted in full. This holds for all challenges and query positions.",
 ["inputs", "configurations"], "all polynomials, challenges and positions; domain sizes and step lists within the bounds",
 "the tests that reach it need the full prover on fixed circuits and are not part of the reliably passing suite",
 ["starky/src/fri.rs"],
 [("folding and commitment", "FRI::prove"), ("folding check", "FRI::verify")])
prop("P13", "FRI soundness: acceptance implies every folding, opening and degree check",
 "For every proof, acceptance implies that at every query and layer the opened row verifies against that layer's root at the position derived from the query, that the interpolation of the row at the folding challenge equals the value opened in the next layer, and that the final polynomial has all coefficients above the degree bound zero. Malformed lengths are rejected.",
 ["inputs"], "all proof contents, challenges and positions; shapes within the bounds",
 "no test feeds a dishonest proof",
 ["starky/src/fri.rs"],
 [("verifier", "FRI::verify")])
prop("P14", "STARK verification accepts only if constraints, openings and FRI hold",
 "For every proof and public input, acceptance implies that the challenges were derived from the roots, public inputs and evaluations in protocol order, that the claimed evaluations satisfy the compiled constraint identity at the challenge point, that every opened row is bound to its root, and that the low-degree test ran on the values derived from those openings. A proof altered in any of these is rejected.",
 ["inputs"], "all proofs and public inputs for the bounded programs",
 "no test feeds an altered proof; only acceptance of one honest proof per fixture is exercised, and those tests are outside the reliable suite",
 ["starky/src/stark_verify.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_fri_ver.rs"],
 [("verifier", "stark_verify"), ("verifier programs", "generate_constraint_polynomial_verifier, generate_fri_verifier")])
prop("P15", "STARK completeness: every satisfying trace yields an accepted proof",
 "For every program and every execution trace satisfying its constraints (including lookups, permutations and connections), the prover's proof is accepted by the verifier for all challenges, and for a trace violating a constraint the honest prover's proof is not accepted except for exceptional challenges. This holds for every worker count and chunk size.",
 ["inputs", "programs", "schedules"], "all satisfying traces of the bounded programs; all challenges",
 "the fixtures are a handful of fixed traces",
 ["starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/interpreter.rs"],
 [("prover", "stark_gen"), ("verifier", "stark_verify")])
prop("P16", "Compiled constraint programs mean what the constraint language says",
 "For every expression tree of the constraint language (constants, columns, next-row references, publics, challenges, sums, differences, products, negations, references), evaluating the compiled program gives, at every row, the value of the expression at that row with cyclic next-row references. The result is the same whether evaluated row by row or in parallel chunks.",
 ["inputs", "programs"], "all column values; expression trees and sizes within the bounds",
 "tests compile fixed fixtures and check only end-to-end acceptance",
 ["starky/src/starkinfo_codegen.rs", "starky/src/interpreter.rs", "starky/src/expressionops.rs"],
 [("code generation", "starkinfo_codegen.rs pil_code_gen, eval_exp"), ("block compilation", "interpreter.rs compile_code, Block::eval")])
prop("P17", "Lookup and permutation helper columns encode the argument exactly",
 "For every lookup whose values are contained in its table, the computed helper columns are the sorted interleaving the argument requires and the grand-product column starts and closes at one; for permutations and connections the grand product closes exactly when the multisets agree or the copy cycles hold. If a lookup value is missing from the table, or the product does not close, the prover reports it instead of continuing.",
 ["inputs"], "all column contents and challenges of the bounded sizes",
 "fixtures use a few fixed columns; multiplicities and ties are unsampled",
 ["starky/src/stark_gen.rs", "starky/src/starkinfo_Z.rs"],
 [("sorted helpers", "calculate_H1H2"), ("grand product", "calculate_Z"), ("helper constraints", "starkinfo_Z.rs")])
prop("P18", "Degree splitting preserves the constraint",
 "For every constraint expression and every blow-up bound, introducing intermediate columns to reduce the degree yields constraints whose conjunction is equivalent to the original expression, with every resulting expression within the allowed degree. No sub-expression is dropped.",
 ["inputs", "programs"], "all column values; expression trees within the bound",
 "fixtures exercise one degree pattern",
 ["starky/src/starkinfo_cp_prover.rs"],
 [("intermediate polynomial choice", "calculate_im_pols, generate_constraint_polynomial")])
prop("P19", "Digests and scalars convert back and forth without loss",
 "For every digest, converting to a scalar of the outer field and back returns the same digest, converting any scalar to a digest never fails, and serialised digests, field and extension elements deserialise to equal values. Distinct values have distinct encodings.",
 ["inputs"], "all digests and all scalars of the supported fields",
 "tests convert a few random values; limbs at or above p have probability 2^-32 and are never drawn",
 ["starky/src/digest.rs", "starky/src/serializer.rs", "starky/src/helper.rs", "starky/src/traits.rs"],
 [("digest conversions", "ElementDigest::from_scalar/as_scalar/new/as_elements"), ("serialisation", "serializer.rs"), ("big integer conversions", "helper.rs")])
prop("P20", "Execution-trace files round-trip",
 "For every set of columns, saving a trace and loading it back into the same layout yields the same values at the same column, index and row, even when reads return short. A truncated file, or one containing an integer outside the field, is reported as an error and never loops or yields a partly filled trace.",
 ["inputs", "configurations", "fault_sequences"], "all column values; layouts and file lengths within the bounds; all read-chunk sizes",
 "no reliable test covers it: the module is exercised only by the end-to-end fixtures",
 ["starky/src/polsarray.rs"],
 [("binary trace format", "PolsArray::new/save/load/get/set")])
prop("P21", "Circuit files are parsed exactly or rejected",
 "For every byte sequence, reading a circuit file either returns the header, constraints, wire map and custom gates exactly as encoded, regardless of section order, or returns an error. It never panics, never loops forever and never returns data that was not in the file.",
 ["inputs"], "all byte sequences up to the bounded file size and section counts",
 "tests parse one or two well-formed files",
 ["algebraic-gpu/src/r1cs_file.rs", "algebraic-gpu/src/reader.rs", "algebraic/src/reader.rs"],
 [("binary circuit reader", "from_reader, read_header, read_constraints, read_map, read_custom_gates_*")])
prop("P22", "Witness files round-trip and malformed ones are rejected",
 "For every witness vector, writing it and reading it back yields the same vector. A file that is truncated, carries the wrong field or wrong element size, or contains an element outside the field is rejected with an error rather than yielding a shorter or different witness.",
 ["inputs", "fault_sequences"], "all witness values and all byte sequences up to the bounded size",
 "tests read one well-formed file",
 ["algebraic-gpu/src/reader.rs", "algebraic/src/reader.rs"],
 [("witness reader", "load_witness_from_bin_reader, load_witness_from_array"), ("witness writer", "save_witness_to_bin_file")])
prop("P23", "Translating rank-1 constraints to gate form preserves satisfiability",
 "For every rank-1 constraint over any number of wires and any coefficients, the emitted gates and auxiliary additions hold for an assignment extended by the auxiliary values if and only if the original constraint holds. Custom gates and their parameters are carried over unchanged.",
 ["inputs", "programs"], "all coefficients and all assignments; constraint shapes within the bound",
 "the module has no reliable test; satisfiability equivalence quantifies over all assignments",
 ["recursion/src/r1cs2plonk.rs"],
 [("constraint splitting", "r1cs2plonk, process, reduce_coefs")])
prop("P24", "Compressor layout keeps every gate, wire and copy constraint",
 "For every translated circuit, the gate table places each gate's coefficients and wires on a row so that the rows' gate equations together with the copy permutation are satisfied exactly by assignments satisfying the circuit, the permutation links exactly the cells holding the same wire, and public inputs occupy the declared cells. The trace size is a power of two large enough for all rows.",
 ["inputs", "programs"], "all circuits within the bounded numbers of gates of each kind; all assignments",
 "the module is outside the reliable tests, which only render its constraint text",
 ["recursion/src/compressor12/plonk_setup.rs", "recursion/src/compressor12/compressor12_exec.rs"],
 [("row placement and copy permutation", "PlonkSetup::new, plonk_setup_compressor"), ("witness placement", "compressor12_exec exec")])
prop("P25", "Compressor constraints realise the Poseidon, extension and FFT gates",
 "The generated constraint program enforces, on all rows where a selector is active, exactly the intended relation: the generic gate equation, one Poseidon round step, the cubic-extension multiply-add, the degree-four evaluation and the four-point FFT. For every bound on trace size and number of public inputs the program exposes the public inputs at the declared positions.",
 ["inputs", "configurations"], "all cell and selector values; public input counts within the bound",
 "the tests compare the rendered text with one recorded file",
 ["recursion/src/compressor12/compressor12_pil.rs", "recursion/src/compressor12/constants.rs"],
 [("constraint text", "compressor12_pil.rs render"), ("gate constants", "constants.rs")])
prop("P26", "Execution files and witness extension are faithful",
 "For every list of auxiliary additions and cell map, writing the execution file and reading it back gives the same data, and extending a witness computes each auxiliary value as the stated linear combination before any cell uses it. Every cell of the trace receives the value of the wire mapped to it, and unmapped cells are zero.",
 ["inputs", "histories"], "all additions, maps and witness values within the bounds",
 "the module is outside the reliable tests",
 ["recursion/src/compressor12/compressor12_exec.rs", "recursion/src/compressor12/compressor12_setup.rs", "recursion/src/io_utils.rs"],
 [("exec file", "write_exec_file, read_exec_file, io_utils.rs"), ("witness extension", "compressor12_exec exec")])
prop("P27", "Joining two proofs keeps both inputs intact",
 "For every pair of proof input objects, the joined object contains every entry of each input under its own distinct prefix with its value unchanged, and the shared verification key once. Nothing is lost, merged or swapped between the two.",
 ["inputs"], "all pairs of input objects within the bounded shapes",
 "one fixed pair is tested",
 ["starky/src/zkin_join.rs"], [("joining", "join_zkin")])
prop("P28", "Integer helpers: logarithms, bit reversal and chunking are exact",
 "For every machine integer, the logarithm helpers return the floor of the base-two logarithm, bit reversal is an involution within its width, and big-integer/limb conversions are inverse to each other. None of them depends on earlier calls.",
 ["inputs", "histories"], "all machine integers and widths",
 "tests check small values",
 ["starky/src/helper.rs", "starky/src/fft_p.rs", "starky/src/fft.rs"],
 [("log2", "helper.rs log2_any, fft.rs log2"), ("bit reversal", "fft_p.rs BR")])
prop("P29", "Vectorised field and hash kernels equal the scalar ones",
 "For all lanes and all values, packed addition, subtraction, multiplication, squaring and the vectorised hash return, lane by lane, exactly the scalar results. Selecting a vector instruction set at build time never changes any proof.",
 ["inputs", "configurations"], "all lane values; both vector widths",
 "the vector code is not compiled in the default build, so no reliable test runs it",
 ["fields/src/arch/x86_64/avx2_field_gl.rs", "fields/src/arch/x86_64/avx512_field_gl.rs", "starky/src/arch"],
 [("packed arithmetic", "fields/src/arch")])
prop("P30", "Generated verifier circuits accept exactly what the native verifier accepts",
 "For every program the emitted verifier circuit's constraints are satisfiable for a proof exactly when the native verifier accepts that proof. The proof input file assigns every signal the circuit declares.",
 ["programs", "inputs"], "all programs and all proofs",
 "no test relates circuit and native verifier",
 ["starky/src/stark_verifier_circom.rs", "starky/src/stark_verifier_circom_onchain.rs", "starky/src/pil2circom.rs", "stark-circuits/circuits"],
 [("circuit text generation", "stark_verifier_circom.rs")])
prop("P31", "Groth16 proofs and keys survive export and re-import",
 "For every proof, verification key and public input vector, the exported JSON denotes the same group elements and scalars, re-importing it gives equal values, and verification of the re-imported data gives the same verdict. Malformed or non-member points are rejected with an error.",
 ["inputs"], "all proofs, keys and malformed documents",
 "tests re-import fixed fixtures",
 ["groth16/src/json_utils.rs", "groth16/src/api.rs", "recursion-gnark/ffi/src/json_util.rs", "recursion-gnark/ffi/src/proof.rs", "recursion-gnark/ffi/src/verifier.rs"],
 [("JSON conversion", "json_utils.rs, recursion-gnark/ffi/src/json_util.rs")])
prop("P32", "Composed proving pipelines and chunked execution are consistent",
 "For every guest program and input, splitting an execution into chunks, proving each and aggregating yields an accepted final proof whose public values are those of the whole execution. Stage outputs are consumed by the next stage exactly as written.",
 ["programs", "inputs", "histories"], "all guest programs and inputs",
 "the end-to-end scripts run fixed examples outside the reliable suite",
 ["zkvm/src/lib.rs", "zkit/src/main.rs", "test"],
 [("chunked execution", "zkvm"), ("stage composition", "zkit CLI")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
with open(out, "w") as f:
    for p in P:
        if s: jsonschema.validate(p, s)
        f.write(json.dumps(p) + "\n")
print(len(P))
