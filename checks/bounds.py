"""What each check covers: the engines that decide it, the functions encoded, the bounds, and what lies outside."""

LIFTED = ("The listed functions are compiled from /repo's current sources against a field type whose elements are symbolic terms, "
          "executed on symbolic inputs, every branch on a symbolic value explored; each assertion is handed to z3 as an equality of "
          "polynomials modulo the field prime over all values of the variables, and a counterexample is replayed on the real code. "
          "At one evaluation point per case the symbolic execution is compared with the real build.")
A_ASSUME = ["base-field operations are exact (P01 decides them)",
            "equalities are decided after multiplying out to polynomials; atoms of the polynomials are left uninterpreted by the solver, which is sound for 'holds'"]

IRX = ("The listed functions are compiled from /repo's current sources to LLVM IR; the IR is executed symbolically instruction by instruction, "
       "machine words being linear integer terms with exact wrap-around, every branch explored; each assertion is handed to z3 over linear integer "
       "arithmetic, and a counterexample is replayed on the compiled code. The IR execution is compared with the compiled code on concrete points.")

LLX = ("The listed functions are compiled from /repo's current sources, with the standard library, to one LLVM IR module (fat link-time optimisation); the IR is "
       "executed symbolically instruction by instruction: memory addresses are concrete, bytes and words are concrete or z3 bit-vector terms, and at a branch both of whose "
       "sides the solver finds feasible both are followed. Each assertion on each path is a solver query over all inputs of that path; panics, out-of-bounds accesses and "
       "exceeded step limits end a path and count as violations; a counterexample is replayed on the same harness compiled natively. A sample of finished paths is run natively and compared.")
LLX_ASSUME = ["the compiler's translation to LLVM IR (rustc 1.88, opt-level 1) preserves the program's meaning", "the few libc functions the code reaches behave as modelled (allocation succeeds, memcpy, memcmp)"]

PROPS = {
    "P01": dict(
        engines=["m"], explain=IRX,
        assumptions=["x^(p-1)=1 for non-zero x (Fermat), to read exponentiation and inversion chains as one power", "products of 32-bit pieces are uninterpreted except for their ranges and the facts that tie them to the product of the operands",
                     "allocations in error paths are smaller than 2^63 bytes"],
        functions=["fields::field_gl::Fr: mul_assign, square, add_assign, sub_assign, double, negate, inverse, pow, exp, operators in every ownership form, from_repr, from_raw_repr, into_repr, as_int, from_u64/From conversions, Ord, Eq, is_zero, constants"],
        bounds={"quick": "every pair of canonical elements and every u64, on the optimised IR and on the IR with overflow checks; exponent chains for about 130 exponents on every base",
                "thorough": "same, longer solver limits"},
        outside="sqrt and legendre, FrRepr::num_bits and shifts"),
    "P02": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME + ["an element has zero norm only if it is zero (x^3-x-1 and x^5-3 are irreducible over the base field)"],
        functions=["starky::f3g::F3G: all operators, Field and FieldExtension methods", "starky::f5g::F5G: same", "starky::polutils::{batch_inverse,eval_pol,pol_mul_axi}"],
        bounds={"quick": "all coefficients; exponents 0..16 (cubic) and 0..6 (quintic) on full elements, up to 2^30 on elements with zero upper part; batches of up to 8 base elements and up to 4 mixed; polynomials of up to 5 coefficients",
                "thorough": "as quick, exponents 0..40 and 0..10"},
        outside="longer batches and polynomials, larger exponents on full elements, batches with two or more full elements"),
    "P04": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME,
        functions=['starky::fft::FFT::{fft,ifft}', 'starky::fft_p::{fft,ifft,interpolate,BR,BRs,bit_reverse,interpolate_prepare,interpolate_bit_reverse,...}', 'starky::fft_worker', 'starky::polutils::{extend_pol,eval_pol}', 'starky::constant::get_max_workers'],
        bounds={"quick": 'all coefficients symbolic: serial transforms of 2^0..2^7 points (2^4 extension coefficients), parallel ones of 2^0..2^6 points with 1..3 columns and 1, 2, 5 processors, extension of up to 2^4 points by up to 2^3; coefficients over 16 symbolic values in transforms of up to 2^13 points, so that several blocks per layer and several chunks of even and odd length occur; transforms of other sizes before; cubic and base fields',
                "thorough": 'serial 2^9, parallel 2^8 (one symbolic block: 2^17), extension of 2^6 points'},
        outside='larger sizes, more columns, scheduling of threads (the parallel pieces are pure functions of their inputs; they are run one after the other)'),
    "P05": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME,
        functions=['starky::poseidon_opt::Poseidon::{hash,hash_inner}, constants included'],
        bounds={"quick": 'all 12 state elements symbolic, output lengths 0..12, input lengths 0..16, three mixed concrete/symbolic states, three hashes in a row against the published constants and matrix',
                "thorough": 'same'},
        outside='the vectorised variants (not built without avx features)'),
    "P06": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME,
        functions=['starky::poseidon_{bn128,bls12381}::Poseidon::hash*', 'starky::poseidon_{bn128,bls12381}_opt::Poseidon::{hash,hash_ex,hash_inner}, constants included'],
        bounds={"quick": 'every supported width (1..16 inputs), initial state zero and symbolic, output counts 1 and all; widths 0, 17, 18, 32 rejected; parameters regenerated from the Grain generator',
                "thorough": 'same'},
        outside=''),
    "P07": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME + ["a digest's words form an integer below the outer modulus"],
        functions=['starky::linearhash::LinearHash::*', 'starky::linearhash_bn128::LinearHashBN128::*', 'starky::linearhash_bls12381::LinearHashBLS12381::*', 'starky::digest::*'],
        bounds={"quick": 'rows of 0..40 and selected widths up to 145 elements, all symbolic; ten explicit batch sizes; words at the packing limits',
                "thorough": 'widths up to 110 and 200, 257, 512, 513'},
        outside='wider rows'),
    "P08": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME + ["a digest's words form an integer below the outer modulus"],
        functions=['starky::merklehash{,_bn128,_bls12381}: merkelize, merklize_level, get_group_proof, verify_group_proof, get_element, to_extend, root', 'the leaf hashes of P07'],
        bounds={"quick": 'outer-field trees of 289 one-column rows (five rows arbitrary); all cells symbolic: heights 1..9 and widths 1, 3, 4, 5, 9 (binary trees), heights 1, 2, 3, 15..18 and widths 1, 3, 4, 7 (16-ary trees), every row opened, several processor counts; 8201 x 2 and 5 x 16384 with symbolic cells at the chunk borders',
                "thorough": 'heights 1..20, 16-ary trees of 257 rows'},
        outside='taller trees, heights above 2^31'),
    "P09": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME + ["a digest's words form an integer below the outer modulus"],
        functions=['starky::merklehash{,_bn128,_bls12381}: verify_group_proof, calculate_root_from_group_proof, merkle_calculate_root_from_proof, eq_root', 'the leaf hashes of P07'],
        bounds={"quick": 'row, path and root symbolic: widths 1..17, depths 0..3 and every index (binary; also depth 9 and 20), depths 0..3 and every position (16-ary); acceptance is compared with the fold for arbitrary roots, and for one changed element, sibling or index at a time',
                "thorough": 'depth 4 with every index'},
        outside="deeper paths, index bits above the path's depth (ignored by the code), sibling vectors shorter than a level"),
    "P10": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME + ['absorbed digests are below the outer modulus'],
        functions=['starky::transcript::TranscriptGL::*', 'starky::transcript_bn128::TranscriptBN128::*', 'starky::transcript_bls12381::TranscriptBLS128::*'],
        bounds={"quick": 'every schedule of up to 4 (base field) or 3 (outer fields) operations out of: absorb 1, 4, rate-1, rate elements, squeeze 1, 11, squeeze a challenge; 22 longer schedules; absorbed values symbolic; absorbing in one call and one by one',
                "thorough": 'schedules of up to 5 and 4 operations'},
        outside='longer schedules'),
    "P12": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME + ["trees and the transcript are stand-ins that record every call: an opening of what was committed verifies, challenges are arbitrary field elements, positions are those of the case (P07-P11 decide the real ones)"],
        functions=["starky::fri::FRI::{prove,verify}", "starky::fri::{get_transposed_buffer,get3,split3}", "starky::polutils::{eval_pol,pol_mul_axi}", "starky::fft::FFT::ifft"],
        bounds={"quick": "nine step configurations of 2 to 5 domain bits, one to four steps, folding by 2, 4 and 8, blow-up 2, 4 and 8, with one or two query positions each; polynomials of 1, half, one less than all, and all coefficients below the bound, arbitrary in the base field and in the extension; all challenges",
                "thorough": "same, longer solver limits"},
        outside="larger domains and other positions; the quintic extension (the code fixes three coefficients)"),
    "P13": dict(
        engines=["a"], explain=LIFTED, assumptions=A_ASSUME + ["trees and the transcript are stand-ins that record every call: an opening is accepted or not as the case says, challenges are arbitrary field elements, positions are those of the case (P07-P11 decide the real ones)", "the degree bound is the code's and the reference implementation's: coefficients above 2^(last step's bits - blow-up bits) are zero, that one itself is not looked at"],
        functions=["starky::fri::FRI::verify", "starky::fri::{get3,split3}", "starky::polutils::eval_pol", "starky::fft::FFT::ifft"],
        bounds={"quick": "nine step configurations of 2 to 5 domain bits, one to four steps, folding by 2, 4 and 8, with one or two query positions; every opened value, root, path, final value and challenge arbitrary; every opening refused in turn; final polynomials, layers, queries, openings and rows of 3 to 8 other lengths each",
                "thorough": "same, longer solver limits"},
        outside="larger domains, other positions, two folds by four in one proof, missing sibling paths (the tree's part)"),
    "P29": dict(
        engines=["m"], explain=IRX + " Lanes whose obligations differ only in variable names are decided once.",
        assumptions=["products of 32-bit pieces are uninterpreted except for their ranges and the facts that tie them to the product of the operands"],
        functions=["fields::arch::x86_64::{avx2,avx512}_field_gl: add, sub, mul, neg, square, reduce, scalar and assigning forms, from, zeros, ones, default, interleave, pack_slice, as_slice (one compilation per instruction set)"],
        bounds={"quick": "every canonical value in every lane; reduce: every pair of u64 per lane",
                "thorough": "same, longer solver limits"},
        outside="the vectorised Poseidon (starky/src/arch), division by a scalar, operands that are not canonical"),
    "P03": dict(
        engines=["d"], explain=LLX, assumptions=LLX_ASSUME + ["elements are stored as plain integers below p in the model of the base field (P01 decides the Montgomery representation); replays use the real field"],
        functions=["starky::f3g::F3G::{_eq,gt,lt,geq,leq,eq,ne,new,From<Fr>}", "starky::f5g::F5G: same", "derived PartialEq"],
        bounds={"quick": "all coefficients of both operands: two full, two embedded, one embedded and one full; quintic pairs that agree in all but one arbitrary coefficient",
                "thorough": "same"},
        outside="nothing of the statement; `==` between different representations compares the representation too, and is not claimed"),
    "P11": dict(
        engines=["d"], explain=LLX, assumptions=LLX_ASSUME + ["what the permutation returns is arbitrary (P05, P06 decide it): every squeezed element is any element of its field", "field elements are stored as plain integers in the model of the base field and as p - value in the model of the outer fields; big integers are fixed-width words; replays use the real types"],
        functions=["starky::transcript::TranscriptGL::get_permutations", "starky::transcript_bn128::TranscriptBN128::get_permutations", "starky::transcript_bls12381::TranscriptBLS128::get_permutations", "get_fields1 and update_state of each", "helper::fr_to_biguint"],
        bounds={"quick": "per transcript 6 to 9 combinations of query count (up to 253), bits per query (1 to 63) and elements squeezed before (0 to 51), chosen around the 63- and 253-bit word ends and around the end of one permutation's output; all element values; and, for code that branches on bits, three neighbouring bits arbitrary at each word end, the others all 0 or all 1",
                "thorough": "also 128 queries of 20 and 23 bits"},
        outside="other combinations; no queries or zero bits (the code's word count underflows; never asked for); which positions a verifier then uses"),
    "P19": dict(
        engines=["d"], explain=LLX, assumptions=LLX_ASSUME + ["field elements are stored as plain integers in the model of the base field and as p - value in the model of the outer fields (Montgomery factor -1); big integers are fixed-width words; replays use the real types", "serializer.rs is compiled without the impls for whole STARK proofs"],
        functions=["starky::digest::{ElementDigest::{new,as_elements,from_scalar,as_scalar,is_dim_1},Serialize,Deserialize,to_bn128,to_bls12381}", "starky::serializer (F3G, F5G)", "starky::field_bn128::Fr and field_bls12381::Fr Serialize, Deserialize", "starky::helper::{fr_to_biguint,biguint_to_be}"],
        bounds={"quick": "conversions: all digests, all scalars, all values of four elements below the modulus; JSON (through serde_json): one element at a time in windows of 4 to 256 values around 0, 996, 2^32 and p, the rest fixed; outer fields in windows of 8 values at 0 and 996 and the four values below the modulus",
                "thorough": "windows of 256 values for every element, and across 2^64 for the outer fields"},
        outside="JSON of other values (decimal conversion is one loop for all), malformed JSON, the STARK proof's own layout"),
    "P21": dict(
        engines=["d"], explain=LLX, assumptions=LLX_ASSUME + ["field elements are stored as plain integers in the model of the fields; replays use the derived Montgomery form for the 32-byte fields", "template names are ASCII"],
        functions=["algebraic_gpu::r1cs_file::{from_reader,read_header,read_constraints,read_constraint_vec,read_map,read_custom_gates_list,read_custom_gates_uses_list,read_to_string,read_field} for fields of 8 and 32 bytes", "algebraic_gpu::reader::load_r1cs_from_bin"],
        bounds={"quick": "well-formed files with every field, count, wire, coefficient and label arbitrary: up to 2 constraints of up to 5 terms, 6 wires, 2 custom gates, 3 uses, all orders of the three sections and rotations of five, unknown sections between them. "
                         "Malformed ones: each file of up to 208 bytes cut at every point; every 32-bit word of a file replaced by an arbitrary value (section sizes: below 64 and seven large ones); each section's contents arbitrary up to 41, 40, 25, 10, 24 bytes; any one section missing; "
                         "every file of up to 24 bytes; every header; any coefficient; any wire counts",
                "thorough": "custom gate sections of up to 14 bytes"},
        outside="JSON circuits, opening files, larger files, the copy of the reader in algebraic/ (bellman_ce is not there offline)"),
    "P22": dict(
        engines=["d"], explain=LLX, assumptions=LLX_ASSUME + ["field elements are stored as plain integers in the model of the fields; replays use the derived Montgomery form for the 32-byte fields", "the compiled circuit (WebAssembly) is a table of functions returning arbitrary words"],
        functions=["algebraic_gpu::reader::load_witness_from_bin_reader", "algebraic_gpu::witness::WitnessCalculator::{save_witness_from_bin_writer,calculate_witness…} over a stand-in for wasmer"],
        bounds={"quick": "every byte sequence of up to 75 bytes, 76, 107 and 140 bytes (BN254), another curve's field, an 8-byte field; a well-formed file cut at every point; every header word arbitrary; witnesses of 0, 1 and 3 arbitrary elements written and read back",
                "thorough": "also 204 bytes"},
        outside="JSON witnesses, opening files, the WebAssembly run itself, the copy of the reader in algebraic/"),
    "P28": dict(
        engines=["d"], explain=LLX, assumptions=LLX_ASSUME,
        functions=["starky::helper::{log2_any,get_ks,biguint_to_be,fr_to_biguint} with the real num-bigint", "starky::fft_p::BR with its process-wide cache (real HashMap, Mutex, lazy_static)"],
        bounds={"quick": "log2: every u64; bit reversal: every index of widths 0, 1, 3, 5 asked twice, with an arbitrary earlier call (index up to 9, width 2 or 3) before widths 2 and 3, every pair of widths below 4 one after the other; shifts for 1..4 columns; big integers of one word, and of two words in a window around multiples of 2^64, reduced into the field","thorough": "also width 8"},
        outside="wider reversals (the function has one formula for all widths up to 32), longer big integers, biguint_to_fr's decimal text"),
    "P25": dict(
        engines=["p"], explain="The real renderer is run for each configuration; every identity of the text it returns becomes a polynomial over the cells of a row and the next one, and z3 decides, for all cell and selector values at once, that each specified identity equals a rendered one and that none is left over. Differences are turned into a concrete row that one side accepts and the other rejects, and that row is evaluated against freshly rendered text.",
        assumptions=["PIL's reading of the text: ' is the next row, operators as in pilcom's grammar, intermediate polynomials are substituted", "the FFT gate's nine constants are those of its parameters (scale, firstW, incW), for four points and for two", "polynomials equal over the integers are equal in the field; pairs are formed by their value at one pseudo-random point, and only then given to the solver"],
        functions=["recursion::compressor12::compressor12_pil::render (its output, symbolically)", "recursion::compressor12::constants::CPOSEIDON"],
        bounds={"quick": "all cells, selectors and public values; traces of 2^5 rows with 0, 1, 2, 11, 12, 13, 24, 25, 36 public inputs, 2^1, 2^3, 2^10, 2^24 rows with 5",
                "thorough": "2^5 rows with 0..149 public inputs, 2^1..2^32 rows with 13"},
        outside="the constants plonk_setup writes into C, S and the selectors, pilcom's compilation of the text"),
}
