"""The properties, in one table: properties.jsonl and MANIFEST.json are generated from it (tools/mkprops.py)."""
ENG = "abstract interpretation of MIR (polynomial value numbering, gated joins, loop summaries)"
TODO = "no check is registered yet"
PROPS = [
 dict(id="C01", title="Gate combinations and lookup tables realise their truth tables",
  statement="For NOT, NAND, AND, OR, NOR, XOR, XNOR, MAJORITY and MUX and every assignment of input bits (encoded as 0 and q/4), the linear combination of the input ciphertexts that the gate hands to the bootstrap (mask and body combined alike, modulo q) puts the phase on a multiple of q/8 such that the lookup table handed along holds, for every phase within the gate's noise margin on either side, the sign (+Q/8 for true, -Q/8 for false, read negacyclically with the table stride 2N/q or 1) of the gate's boolean function; gates made of several bootstraps compose them to that function, and the result of a gate is one such ciphertext (negated plus q/4 for NOT), never an unbootstrapped sum.",
  over=["inputs","configurations"], quant="all input bit combinations, all phases within the margin, both relations of q and 2N, all ciphertext contents and dimensions",
  why="The tests evaluate a few hundred random gate calls on one or two parameter sets, each with fresh small noise; a table off by a few slots only shows up when the noise is near the tolerance bound.",
  files=["bool/src/bfhe/evaluate.rs"], mech=[("gate linear combinations","bool/src/bfhe/evaluate.rs Evaluator::{nand,and,or,...}"),("LUT builders and stride","bool/src/bfhe/evaluate.rs init_*_lut, EvaluationKey::lut_step")],
  technique="abstract interpretation of MIR: linear forms of ciphertexts and table entries at a symbolic phase, read as a truth table",
  note="Decides every gate for symbolic ring dimension, modulus (q | 2N and 2N | q), LWE dimension and ciphertext contents, with the bootstrap replaced by an arbitrary fresh ciphertext; that the bootstrap itself maps the phase through the table is not decided here. Trusts rustc's MIR, the loop summariser and the std models."),
 dict(id="C02", title="Modular arithmetic is exact and stays in range",
  statement="For every modulus value a modulus type accepts and all operands below it, the reducing operations - reduce (single words, two-word values), add, subtract, negate, multiply, divide by multiplication with the inverse, dot product - return the residue of the exact integer result, in the canonical range of that modulus type (Goldilocks words may be any representative of the right residue). The lazy reductions and lazy products return a congruent value below twice the modulus; an operation and its assigning form return the same value; none of them panics on admissible operands. This holds for plain word moduli, Barrett, power-of-two, machine wrap-around, Goldilocks and Baby Bear (Montgomery) moduli, for Shoup-factor multiplication, and for the operators of derived prime fields (sum, difference, product, quotient, negation, inverse, multiply-add and its lazy form).",
  over=["inputs","configurations"], quant="all operand values, all moduli accepted by the constructors, every primitive width, all dot-product lengths",
  why="Tests draw random operands; wrong boundary comparisons, carries and off-by-one quotients need values that random draws over 2^32 or 2^64 never hit.",
  files=["algebra/src/modulus","algebra/src/reduce","algebra_derive/src"], mech=[("Barrett, Shoup, power-of-two, Goldilocks and Baby Bear reductions","algebra/src/modulus/*"),("derived field operators","algebra_derive/src/{ops,field,fhe_field}.rs")],
  technique="abstract interpretation of MIR: value numbering of fixed-width arithmetic as exact integer terms, with quotient-estimate lemmas, compared with the residue of the specified integer expression",
  note="Decides each operation for symbolic operands and a symbolic modulus. That the inverse routines (extended gcd, addition chains) return the inverse is not decided here; division is checked relative to them. Trusts rustc's MIR and the integer models."),
 dict(id="C03", title="The transforms evaluate at the odd powers of the root, canonically",
  statement="For every power-of-two length n and every input in the documented lazy range, the forward number-theoretic transform with a table built from a primitive 2n-th root returns, in bit-reversed order, the values of the polynomial at the odd powers of the root, and the inverse transform returns the coefficients such values belong to (n = 1 included). Both return canonical residues and no intermediate value of a butterfly leaves its machine word. The monomial transforms (general coefficient, 1 and -1) return the same values as the transform of the monomial would, for every degree that callers pass (also 0, n and beyond 2n), and index the unchecked table of powers in bounds only. Building a table puts each power at its bit-reversed position and refuses a vector of powers of the wrong length.",
  over=["inputs","configurations"], quant="all input vectors, all transform lengths, all monomial degrees and coefficients",
  why="Overflowing or under-reducing a lazily reduced butterfly needs coefficients at the edge of the range at the right level; tests draw random vectors at a few lengths.",
  files=["algebra/src/transformation/ntt_table.rs"], mech=[("lazy butterflies and final normalisation","algebra/src/transformation/ntt_table.rs transform_slice, inverse_transform_slice"),("monomial transforms","algebra/src/transformation/ntt_table.rs MonomialNTT"),("table layout","algebra/src/transformation/ntt_table.rs NTTTable::new")],
  technique="abstract interpretation of MIR: loop nest of butterflies recovered as array transformers at a generic size, level, chunk and offset; inductive range invariant; comparison modulo q with the splitting of Z_q[X]/(X^n+1)",
  note="Decides 16-, 32- and 64-bit fields at symbolic length up to 2^20 and symbolic input. That the recursive splitting computes the evaluation at odd powers is standard mathematics and taken as known. The search for the root (random) and the generation of its powers are not decided here; reversing bits and field inversion are taken as named functions."),
 dict(id="C04", title="Monomial multiplication and sample extraction are exact negacyclic shifts",
  statement="Multiplying a polynomial or ring ciphertext by X^r yields, for every exponent in the documented range, exactly the negacyclic shift of its coefficients, in place, accumulating and (X^r - 1) forms alike. Extracting a scalar ciphertext from a ring ciphertext yields the mask whose inner product with the secret's coefficients is the constant term of the ring phase, in the normal, reversed and partial forms.",
  over=["inputs"], quant="all exponents, dimensions and coefficient values",
  why="Tests multiply by a few exponents; the wrap-around boundary cases (0, N-1, N, 2N-1) are single values among thousands.",
  files=["algebra/src/polynomial/native_polynomial.rs","lattice/src/rlwe.rs"], mech=[("rotation with negation","Polynomial/RLWE mul_monic_monomial*"),("extraction","RLWE::extract_*")], technique="abstract interpretation of MIR: value numbering with closed-form loop summaries, compared with the specification at a generic index",
  note="Decides every coefficient of the monomial products and extractions for symbolic dimension, exponent and contents. Trusts rustc's MIR, the loop summariser and the models of the std slice/iterator functions; field arithmetic is taken as exact here (C02 covers it)."),
 dict(id="C05", title="Gadget decomposition recomposes to the value it decomposes",
  statement="For every basis width the library accepts and every canonical value, the digits produced by the decomposition are below the basis, their number is the basis's decomposition length, and their base-weighted sum is the value. The in-place, scratch-buffer and per-digit forms, scalar and polynomial, produce the same digits whatever the destination held before.",
  over=["inputs","configurations"], quant="all values, basis widths and moduli; all previous contents of destination buffers",
  why="The tests decompose random values with one basis into zeroed destinations.",
  files=["algebra/src/decompose_basis.rs","algebra_derive/src/decomposable_field.rs","lattice/src/utils/decompose_basis.rs"], mech=[("Basis::new","algebra/src/decompose_basis.rs"),("decompose_at / decompose_lsb_bits","algebra_derive/src/decomposable_field.rs")],
  technique="abstract interpretation of MIR: value numbering with closed-form loop summaries, compared with the positional digit formula at a generic index",
  note="Decides basis parameters and every digit of every decomposition form for symbolic value, basis width, digit count and destination contents, for four field types and the integer basis. That the base-weighted sum of those digits is the value is the positional number system. Trusts rustc's MIR, the loop summariser and the std models."),
 dict(id="C06", title="The shared transform-table cache is race free and built once per size",
  statement="Any number of threads may request transform tables of any sizes concurrently: every access to the shared cache happens while its lock is held, for writing when it modifies the cache, and no thread can block on a lock it already holds. A requested size that is present when the write lock is obtained is not built again, and every caller gets a table of the size it asked for.",
  over=["schedules","histories"], quant="all interleavings of threads requesting tables, all request histories",
  why="The tests request one table size from one thread at a time; unsynchronised access to the shared map only goes wrong under a particular interleaving with a rehash.",
  files=["algebra_derive/src/ntt.rs"], mech=[("lock discipline around the static table map","algebra_derive/src/ntt.rs get_ntt_table/generate_ntt_table")],
  technique="lock-set and must-pass-through dataflow over the MIR control flow graph, interprocedural",
  note="Decides, for every NTT-deriving field type of the analysed instantiation, that each read or write of a mutable static happens with the guarding lock held in the right mode on every path, that no path acquires a lock already held, and that insertion is preceded by a re-check under the write lock. Trusts rustc's MIR and the models of std::sync primitives."),
 dict(id="C13", title="All forms of a ring or ciphertext operator compute the same function",
  statement="Every form the library offers of an operator on polynomials, scalar ciphertexts, ring ciphertexts, gadget ciphertexts and RGSW ciphertexts - by value, by reference, assigning, into a destination, with caller-provided scratch space, lazily reduced (modulo the modulus), in coefficient or transform representation - computes the same function of its operands: coefficient-wise sum, difference, negation, product and multiply-accumulate; ring product through the transform; gadget product (sum over the rows of row times digit of the decomposed polynomial); external product. Results never depend on the previous contents of destinations or scratch space, and hold for every dimension, gadget length, basis width and coefficient value.",
  over=["inputs","configurations","histories"], quant="all operand contents, dimensions, gadget lengths and basis widths, all previous contents of scratch and destination buffers",
  why="The tests exercise a few of the forms on random operands with fresh buffers; most of the hundred and sixty forms (the lazily reduced and scratch-space ones on the hot path in particular) are never compared with one another.",
  files=["algebra/src/polynomial","lattice/src/lwe.rs","lattice/src/rlwe.rs","lattice/src/gadget/rlwe.rs","lattice/src/rgsw.rs"],
  mech=[("operator implementations and their in-place forms","algebra/src/polynomial/{native,ntt}_polynomial.rs, lattice/src/{lwe,rlwe,rgsw}.rs"),("gadget and external products","lattice/src/gadget/rlwe.rs, RLWE::mul_*rgsw*")],
  technique="abstract interpretation of MIR: value numbering with closed-form loop summaries, compared with the operator's definition at a generic index",
  note="Decides every coefficient of every form for symbolic dimension, gadget length, basis width and contents. Trusts rustc's MIR, the loop summariser and the std models; the transforms are treated as mutually inverse linear maps, and modular arithmetic (C02) and digit extraction (C05) as exact."),
 dict(id="C14", title="Modulus switching rounds every component to the nearest value",
  statement="Switching a scalar ciphertext from one modulus to another maps every mask entry and the body v to round(v * after / before) reduced modulo the new modulus (halves round up), in the returning, the in-place and the assigning form, whatever the destination held before; a component that rounds up to the new modulus itself wraps to zero. The dimension is preserved and no admissible component panics.",
  over=["inputs","configurations"], quant="all component values, dimensions and pairs of moduli within the exact range of double precision",
  why="The tests switch ciphertexts only inside whole bootstraps, where a rounding error of one unit, or a component equal to the new modulus, disappears in the noise.",
  files=["fhe_core/src/modulus_switch.rs"], mech=[("rounding and wrap-around","fhe_core/src/modulus_switch.rs")],
  technique="abstract interpretation of MIR: value numbering with floating point followed as exact quotients, compared with the rounding formula at a generic component",
  note="Decides every component for symbolic value, dimension and moduli (u16 components, ring modulus of the default 32-bit field, arbitrary u16 moduli). Trusts rustc's MIR, IEEE double division being correctly rounded, the loop summariser and the std models."),
 dict(id="C18", title="The primality test never rejects a prime and enforces every round",
  statement="probably_prime answers exactly (prime or not) for all values below 64. For larger values it rejects even numbers, rejects by trial division only when a proper divisor exists, and otherwise answers true exactly when every round's base b satisfies the strong-pseudoprime condition - with n - 1 = q 2^r and q odd, b^q = 1 or b^(q 2^i) = -1 modulo n for some i < r - so that no prime is ever rejected and no composite is accepted that fails in any one of the requested rounds. The bases are not multiples of n: the first is 2, every later one is its own uniform draw from a range that contains 3..n-2.",
  over=["inputs"], quant="all values of every word size, all outcomes of every round",
  why="Tests compare the answer with trial division for a few random values; a round that is skipped or ends early accepts only rare composites.",
  files=["algebra/src/utils/prime.rs"], mech=[("Prime::probably_prime of Barrett moduli of 8 to 64 bits","algebra/src/utils/prime.rs impl_prime_check")],
  technique="abstract interpretation of MIR with a symbolic odd part of n - 1 and every admissible outcome sequence of the powers of two bases",
  note="Decides all odd parts at once, for every power of two in n - 1 for small exponents and a selection of larger ones; two rounds stand for any number of rounds. That products and powers are right is C02 and C24. The error probability of the test is a theorem about numbers and not decided. Trusts rustc's MIR and the random generator."),
 dict(id="C24", title="Powers and addition-chain inverses carry the right exponent",
  statement="Raising to a power - exp_reduce with a Barrett (8 to 64 bits), Goldilocks, Baby Bear, power-of-two or machine wrap-around modulus, and pow of the derived prime fields - multiplies out to the base to exactly the given exponent, for every exponent (0, powers of two, all ones and the largest value of its type included). exp_power_of_2_reduce squares exactly as often as asked. The inverses of Goldilocks and Baby Bear elements are the (p-2)-th power of the operand, and refuse zero with an error or a panic.",
  over=["inputs"], quant="all bases, all exponents of each exponent type",
  why="An exponentiation loop that drops a bit goes wrong only for exponents of a particular shape; tests raise to a handful of random exponents.",
  files=["algebra/src/modulus","algebra/src/reduce","algebra_derive/src/field.rs"], mech=[("square-and-multiply loops","algebra/src/modulus/{barrett,goldilocks,baby_bear,powof2,native}/ops.rs ExpReduce, ExpPowOf2Reduce"),("addition chains","algebra/src/modulus/{goldilocks,baby_bear} inverses"),("field powers","algebra_derive/src/field.rs Pow, Inv")],
  technique="abstract interpretation of MIR: exponents of products tracked as polynomials in the bits of the exponent argument",
  note="Decides every exponent at once per position of its highest and lowest set bit. That the products involved multiply is C02. Known finding: the zeroth power of a Baby Bear element is 1 instead of the Montgomery form of one, which an existing test demands. Trusts rustc's MIR, the integer models and Fermat's little theorem."),
 dict(id="C15", title="Encoding, encryption and decryption of messages agree",
  statement="For every power-of-two message space t and modulus q with t < q: encoding maps m < t to m*q/t and never returns for m >= t; decoding maps c to floor((c + q/(2t)) / (q/t)) mod t, so it inverts encoding for every error below q/(2t) in magnitude, on both sides and across the wrap at q. Encrypting m under a secret key yields a ciphertext whose phase b - <a,s> is encode(m) plus one noise draw; decryption decodes the phase, and the reported noise is the distance on the circle between the phase and the encoding of the decrypted message.",
  over=["inputs","configurations"], quant="all messages, phases, keys, masks, dimensions and pairs t < q, all message and ciphertext word types",
  why="Tests encrypt random messages with fresh small noise and one parameter set; a wrong rounding or wrap only shows at phases within one unit of a decision boundary.",
  files=["fhe_core/src/plaintext.rs","fhe_core/src/secret_key.rs","bool/src/encrypt.rs","bool/src/decrypt.rs"], mech=[("encode / decode","fhe_core/src/plaintext.rs"),("encrypt / decrypt / decrypt_with_noise","fhe_core/src/secret_key.rs"),("scalar zero sample","lattice/src/lwe.rs generate_random_zero_sample")],
  technique="abstract interpretation of MIR: value numbering with random draws as independent symbols, compared with the encoding formulas",
  note="Decides the codec for thirteen message/word type pairs and the key pack's and facade's encrypt and decrypt for symbolic key, message, mask, noise, dimension and moduli. Trusts rustc's MIR, the loop summariser, the std and rand models."),
 dict(id="C19", title="Fresh samples encrypt exactly the message they are asked for",
  statement="Every ring, transform-domain, gadget, RGSW and scalar sample the library generates decrypts under its secret key to the message it is named for plus one noise draw per coefficient: zero samples encrypt 0, value samples the constant, row i of a gadget sample of one encrypts basis^i, row i of a gadget sample of the negated secret encrypts -s*basis^i, and the two halves of an RGSW sample encrypt -s*m*basis^i and m*basis^i; a gadget sample has one row per digit. This holds for the Gaussian and for the centred binomial noise path.",
  over=["inputs","configurations"], quant="all secret keys, dimensions, gadget lengths, basis widths and random draws",
  why="The tests decrypt a few samples of one parameter set with tolerances; a wrong power in one row or a message added to one coefficient of the other half hides behind the noise tolerance or is never looked at.",
  files=["lattice/src/rlwe.rs","lattice/src/gadget/rlwe.rs","lattice/src/rgsw.rs","lattice/src/lwe.rs"], mech=[("generate_random_*_sample","lattice/src/{lwe,rlwe,rgsw}.rs, lattice/src/gadget/rlwe.rs")],
  technique="abstract interpretation of MIR: value numbering with random draws as independent symbols, phase compared at a generic coefficient of a generic row",
  note="Decides the phase of every producer for symbolic secret, dimension, gadget length and basis width. The transforms are treated as mutually inverse linear maps with ntt(1) = (1,...,1). Trusts rustc's MIR, the loop summariser, the std and rand models."),
 dict(id="C07", title="Every mask and noise term of a sample is its own fresh random draw",
  statement="In every fresh sample (scalar, ring, gadget, RGSW, message encryption) each mask entry is a separate uniform draw over the whole modulus and each noise coefficient a separate draw from the sampler that was passed in or configured (centred binomial exactly when the sampler enables it). No draw is used twice within a sample - across coefficients, rows, halves or between mask and noise - and every draw is taken from the caller's generator and consumed from it, so consecutive samples never share randomness.",
  over=["inputs","configurations","histories"], quant="all dimensions, gadget lengths, rows, coefficients and generator states",
  why="A sample with reused or missing randomness decrypts correctly, so no functional test notices; it only destroys secrecy.",
  files=["lattice/src/rlwe.rs","lattice/src/gadget/rlwe.rs","lattice/src/rgsw.rs","lattice/src/lwe.rs","fhe_core/src/secret_key.rs","algebra/src/polynomial"], mech=[("mask and noise generation","Polynomial/NTTPolynomial::random, random_with_gaussian, generate_random_*_sample"),("LWE encryption","fhe_core/src/secret_key.rs encrypt")],
  technique="provenance analysis on the abstract interpretation of MIR: draws are symbols indexed by generator and position; reuse is an equation between positions, shown infeasible",
  note="Decides provenance, pairwise distinctness over all rows and indices, and consumption for each producer with symbolic dimension, gadget length and basis width. The quality of the generator and the shape of the sampled distribution are out of reach. Trusts rustc's MIR, the loop summariser, the std and rand models."),
 dict(id="C20", title="Blind rotation multiplies the table by the monomial of the phase",
  statement="Blind rotation of a lookup table by a scalar ciphertext (a, b) modulo 2N starts from the trivial ring ciphertext (0, table * X^-b) and then performs, for every mask entry a_i in order, exactly one update: accumulator += external product of (X^{a_i} - 1) * accumulator with entry i of the blind rotation key (for a ternary key, the combination key_i.0 - X^{-a_i} * key_i.1); an update whose a_i is zero may be skipped. This holds for every value of a_i and b below 2N, every dimension, gadget length and basis width, for binary and ternary keys; no admissible input panics.",
  over=["inputs","configurations"], quant="all masks, bodies, tables, key contents, dimensions, gadget lengths and basis widths",
  why="The tests run whole gates with random ciphertexts at one dimension; the exponents 0, N and 2N-1, or one skipped or repeated round, are rare among thousands of rounds and can vanish in the noise.",
  files=["fhe_core/src/blind_rotation/binary.rs","fhe_core/src/blind_rotation/ternary.rs"], mech=[("accumulation loop","BinaryBlindRotationKey::blind_rotate, TernaryBlindRotationKey::blind_rotate")],
  technique="abstract interpretation of MIR: loop recurrence of the accumulator recovered at a generic round and compared with the definition at a generic coefficient",
  note="Decides the initial accumulator, the round count, the multiplicand, the key row and the accumulation for symbolic contents and dimensions. The external product itself is C13; C04 decides the monomial products. Trusts rustc's MIR, the loop summariser and the std models; transforms are mutually inverse linear maps."),
 dict(id="C21", title="Key switching evaluates the gadget formula on every component",
  statement="Switching a scalar ciphertext (a, b) of dimension N with the LWE key yields mask -sum_{i,j} key[i][j][d_ij].a and body b - sum_{i,j} key[i][j][d_ij].b modulo q, where d_ij is digit i of a_j and the zero digit contributes nothing; switching a ring ciphertext with the RLWE key yields the scalar ciphertext extracted from the trivial ciphertext of the body minus, chunk by chunk of the mask, the gadget product of the chunk with the chunk's key, for n' = N and n' < N. All entry points, every dimension, gadget length, basis width and coefficient value; no admissible input panics.",
  over=["inputs","configurations"], quant="all ciphertexts, key contents, dimensions, gadget lengths, basis widths and moduli",
  why="A digit paired with the wrong key row, or one coefficient of one chunk with the wrong sign, shows up only as noise in whole-gate tests at one parameter set.",
  files=["fhe_core/src/key_switch/lwe.rs","fhe_core/src/key_switch/rlwe.rs"], mech=[("key_switch_for_lwe","fhe_core/src/key_switch/lwe.rs"),("key_switch_for_rlwe / key_switch_for_lwe","fhe_core/src/key_switch/rlwe.rs")],
  technique="abstract interpretation of MIR: value numbering with closed-form loop summaries (nested sums over rows, coefficients and chunks), compared with the gadget formula at a generic index",
  note="Decides every output component for symbolic key and ciphertext contents, dimensions, gadget length and basis width. Trusts rustc's MIR, the loop summariser and the std models; modular arithmetic (C02) and digit extraction (C05) are taken as exact, transforms as mutually inverse linear maps."),
 dict(id="C22", title="Bootstrapping composes its steps in the configured order",
  statement="For each order of the steps (rotate - modulus switch - LWE key switch; rotate - RLWE key switch - modulus switch; rotate - modulus switch without key switch) and for binary and ternary keys, bootstrapping rounds the input ciphertext to modulus 2N, blindly rotates the given table by it with the evaluation key's rotation key, adds Q/8 to the constant term so that the result encodes 0 or Q/4, extracts the constant term's scalar ciphertext, and modulus switches (rounding) from Q to q and key switches each exactly once in the configured order with the evaluation key's own switching key; the result has dimension n and modulus q. No admissible input panics.",
  over=["inputs","configurations"], quant="all ciphertexts, tables, key contents, dimensions, moduli and step orders",
  why="Each test runs one default parameter set per step order; a wrong modulus or missing offset in one order, or a mask and body treated differently, is only seen as decryption failures for some inputs.",
  files=["bool/src/bfhe/evaluate.rs"], mech=[("EvaluationKey::bootstrap","bool/src/bfhe/evaluate.rs")],
  technique="abstract interpretation of MIR: blind rotation and key switching summarised by arbitrary results, arguments and results of every step compared with the composition at a generic index",
  note="Decides the hand-over between the steps for all six configurations with symbolic contents, dimensions and moduli. The steps themselves are C20, C21, C14 and C04. Trusts rustc's MIR, the loop summariser and the std models."),
 dict(id="C09", title="Evaluation keys hold fresh samples of the right message under the right key",
  statement="The blind rotation key has one entry per LWE secret coefficient s_i, in order: for a binary secret an RGSW sample of s_i; for a ternary secret a pair of RGSW samples of (1,0), (0,0), (0,1) for s_i = 1, 0, -1; all under the ring secret key, with the blind rotation basis and ring noise. The LWE key switching key holds, for every digit j, ring coefficient z and digit value v = 1..basis-1, a zero sample under the LWE secret (modulus q, key switching noise) with v*z*basis^j added to its body; the RLWE key switching key holds for every chunk of n' ring coefficients (n' = n rounded up to a power of two) and digit i a zero sample under the zero-padded LWE secret with chunk*basis^i added to its body. No two entries share a sample. The evaluation key contains the rotation key, exactly the key switching key its step order uses (none for BrMs), and the parameters of the secret keys it was generated from.",
  over=["inputs","configurations"], quant="all secret keys, dimensions, gadget lengths, basis widths, moduli, step orders and key kinds",
  why="A wrong power of the basis in one row, a sample used for two entries or one with the wrong noise width still lets whole-gate tests decrypt most of the time, and the tests never look at the key material.",
  files=["fhe_core/src/blind_rotation","fhe_core/src/key_switch/lwe.rs","fhe_core/src/key_switch/rlwe.rs","bool/src/bfhe/evaluate.rs"], mech=[("BlindRotationKey::generate","fhe_core/src/blind_rotation/{mod,binary,ternary}.rs"),("KeySwitchingLWEKey::generate","fhe_core/src/key_switch/lwe.rs"),("KeySwitchingRLWEKey::generate","fhe_core/src/key_switch/rlwe.rs"),("EvaluationKey::new","bool/src/bfhe/evaluate.rs")],
  technique="abstract interpretation of MIR: sample generators summarised by fresh symbols, every key entry at a generic index compared with the definition, provenance of the samples by generator position",
  note="Decides every entry for symbolic secrets, dimensions, gadget lengths, basis widths and modulus. The samples themselves are C19 and C07. Trusts rustc's MIR, the loop summariser and the std models; transforms are mutually inverse linear maps."),
 dict(id="C23", title="Samplers and secret keys follow the documented distributions bit by bit",
  statement="Given uniform generator bits, every binary sampler yields 0 and 1 with probability 1/2, every ternary sampler 0 with 1/2 and 1, -1 with 1/4 each, the binomial sampler the sum of 21 bits minus the sum of 21 other bits modulo q, and the uniform field sampler every residue equally often; no two entries of a vector of any length share a random bit. A Gaussian sampler built with mean m and deviation s accepts a normal draw v exactly when |v - m| is below its limit (6s or the limit given) and yields round(v) modulo q; negative deviations and limits not above the deviation are refused; the binomial replacement is used exactly for m = 0, s = 3.2. Random polynomials and secret keys (LWE key, ring key, for each step order and key kind) consist of independent draws of the configured kind, except that without key switching the ring key is the LWE key; the transformed ring key is the transform of the ring key.",
  over=["inputs","configurations"], quant="all generator outputs, vector lengths, deviations, moduli, dimensions, step orders and key kinds",
  why="A bias, a reused bit or a wrong threshold is invisible to round-trip tests: keys and noise of the wrong distribution encrypt and decrypt correctly and only lose security.",
  files=["algebra/src/random.rs","algebra/src/utils/sample.rs","lattice/src/utils/sample.rs","algebra/src/polynomial","fhe_core/src/secret_key.rs","bool/src/key_gen.rs"],
  mech=[("FieldUniformSampler::sample, FieldDiscreteGaussianSampler::{new,new_with_max,sample}","algebra/src/random.rs"),("sample_{binary,ternary,cbd}_field_vec","algebra/src/utils/sample.rs"),("sample_{binary,ternary}_values, DiscreteGaussian, TernarySampler","lattice/src/utils/sample.rs"),("SecretKeyPack::new","fhe_core/src/secret_key.rs")],
  technique="abstract interpretation of MIR: every entry as a function of generator bits; pattern tables, bit address disjointness, acceptance conditions and provenance of key entries compared with the documented distribution",
  note="Decides the mapping from generator output to samples; the generator itself (ChaCha) and rand_distr's normal variates are taken as given. Fields: the four widths, binomial only for moduli above 21. Trusts rustc's MIR, the loop summariser and the std models."),
 dict(id="C12", title="Scheme parameters are accepted exactly when compatible and read back unchanged",
  statement="For in-range basis widths, building scheme parameters succeeds, without panicking, exactly when the ring dimension N is a power of two, 2N divides Q-1, 2N is a value of the LWE modulus type, t and q are powers of two with t < q, and the keys of the step order exist (rotate - switch modulus - switch key: ring key not Gaussian; rotate - switch key - switch modulus: n <= N; no key switch: not Gaussian and n = N); every other set is refused (an error, or a panic for t and q). Every accessor of an accepted set returns the value it was built from; the noise distributions are centred with the standard deviation of their own group (LWE, ring, key switching) and, for scalar ciphertexts, the LWE modulus. The default parameter sets are accepted.",
  over=["configurations"], quant="all dimensions, moduli, key kinds, step orders and deviations",
  why="The tests build two fixed parameter sets; an acceptance condition off by one or an accessor reading the neighbouring field does not change them.",
  files=["fhe_core/src/parameter.rs","bool/src/bfhe/parameters.rs"], mech=[("Parameters::new and accessors","fhe_core/src/parameter.rs"),("default sets","bool/src/bfhe/parameters.rs")],
  technique="abstract interpretation of MIR: the constructor's gated result split under each acceptance and refusal condition, accessors evaluated on the accepted value",
  note="Decides the constructor for every combination of fields (u16 LWE modulus, 32-bit field) and each accessor on the accepted value. That ring_modulus is the modulus of the field type is the caller's business. Trusts rustc's MIR and the std models."),
 dict(id="C08", title="Decryption of evaluated ciphertexts succeeds with the designed probability",
  statement="For the shipped parameter sets the noise after any circuit of bootstrapped gates stays below q/16 except with the designed failure probability, so that decrypting a gate's output returns the gate's function of the decrypted inputs.",
  over=["inputs","histories"], quant="all circuits, keys and noise draws",
  why="The failure probability is far below what any number of test runs samples.", files=["fhe_core/src","bool/src"], mech=[("bootstrapping","bool/src/bfhe/evaluate.rs")],
  technique="", note="", na="The statement is about tail probabilities of sums of random variables propagated through products with keys; no static argument over the source in reach bounds them. The deterministic parts - formulas, message encodings, tables, composition of the steps - are C01, C05, C14, C15, C19 to C22."),
 dict(id="C10", title="Keys and samples are computationally indistinguishable from uniform",
  statement="The random generator handed in is cryptographically strong and the parameter sets meet their security level, so that ciphertexts and evaluation keys reveal nothing about the secret keys.",
  over=["inputs"], quant="all efficient distinguishers",
  why="Security cannot be observed by running the scheme.", files=["fhe_core/src/parameter.rs","algebra/src/random.rs"], mech=[("parameters","fhe_core/src/parameter.rs")],
  technique="", note="", na="A statement about all efficient adversaries and about the statistics of a generator; nothing in the source decides it. That every mask and noise term is its own fresh draw of the documented distribution is C07, C19 and C23."),
]
