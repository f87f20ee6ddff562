"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                 observe_at=observe, hook_needed=None,
                 **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

p('C01', 'Arithmetic and helpers never change their arguments',
  'Applying an arithmetic operator, polynomial or matrix utility, transform, Merkle construction, compression, interpolation, verification or protocol query leaves every number, list and table the caller passed in exactly as it was. The result never depends on how often the same arguments were used before.',
  ['inputs', 'histories'], 'every public operation, every argument value and length, every earlier sequence of calls',
  'tests use each operand once and look only at the result, so an in-place update of an operand goes unseen',
  ['starks/floatingpoint.py', 'starks/poly_utils.py', 'starks/fft.py', 'starks/merkle_tree.py', 'starks/polynomial.py', 'starks/compression.py', 'starks/fri.py', 'starks/utils.py'],
  [('floating point operators', 'starks/floatingpoint.py Fp.__add__/__sub__/__mul__/__truediv__'), ('matrix elimination', 'starks/poly_utils.py gauss'), ('transforms', 'starks/fft.py _fft, fft_1d, mul_polys'), ('tree building', 'starks/merkle_tree.py merkelize, mk_branch')],
  ['the argument objects after the call'])

p('C02', 'Challenges, proofs and verdicts depend only on their inputs',
  'Everything a prover and a verifier must agree on (challenge indices and coefficients, Merkle roots and branches, compressed proofs, transforms, verdicts, FRI challenges) is a function of the explicit inputs alone: not of the clock, the random generators, object addresses, hash randomisation or earlier calls. No library function reseeds the process-wide random generator.',
  ['inputs', 'histories', 'configurations'], 'every call history and process environment',
  'a test run fixes one process and one history, where a hidden input looks constant',
  ['starks/utils.py', 'starks/stark.py', 'starks/merkle_tree.py', 'starks/fri.py', 'starks/compression.py', 'starks/fft.py', 'starks/air.py', 'misc/blum_blum_shub.py'],
  [('challenge derivation', 'starks/utils.py get_pseudorandom_indices; starks/stark.py get_pseudorandom_ks'), ('FRI challenges', 'starks/fri.py select_random, AffineSubspaceFRI.query'), ('hashing', 'starks/merkle_tree.py blake')],
  ['return values of the challenge, hashing, transform and verification functions', 'state of the random module'])

p('C03', 'Type constructors are shared exactly by equal parameters',
  'Asking twice for the field, rational field or polynomial ring with equal parameters gives the identical class, and asking with different parameters, positional or named, never gives a class built for other parameters.',
  ['histories', 'inputs'], 'every sequence of constructor calls and every way of passing parameters',
  'the cache is process-wide; tests only ever ask for a few parameters in a fixed order',
  ['starks/numbertype.py'], [('memoization', 'starks/numbertype.py memoize')],
  ['identity and parameters of the returned class'], [('cache', 'class per parameter tuple', 'starks/numbertype.py memoize')])

p('C04', 'Mixed-type arithmetic converts correctly or raises TypeError',
  'A binary operation on operands of different types converts the lower-precedence operand (integers, base-field scalars) and yields the same value as converting it by hand, on either side of the operator. If the operand cannot be converted it raises TypeError; it never computes with an unconverted operand, and defers to the other operand exactly when that one has higher precedence.',
  ['inputs', 'programs'], 'every pair of operand types and values, both operand orders',
  'tests cover a handful of type pairs, mostly with the number on the right',
  ['starks/numbertype.py', 'starks/modp.py', 'starks/polynomial.py', 'starks/multivariate_polynomial.py', 'starks/finitefield.py'],
  [('operand coercion', 'starks/numbertype.py typecheck'), ('reflected operators', 'starks/numbertype.py DomainElement.__radd__/__rsub__/__rmul__, FieldElement.__rtruediv__')],
  ['value and type of the result, exception raised'])

p('C05', 'Integers mod p form the prime field in canonical form',
  'For every modulus and every integers, element construction, +, -, *, negation, / and inverse agree with integer arithmetic modulo p, every element is stored as its residue in 0..p-1, and two elements compare equal exactly when congruent. Multiplying an element by its inverse gives 1, and inverting a residue with no inverse raises instead of returning a value.',
  ['inputs'], 'every modulus p and every pair of integers', 'tests sample a few small primes and residues',
  ['starks/modp.py', 'starks/numbertype.py'], [('residue arithmetic', 'starks/modp.py IntegersModP.IntegerModP'), ('division', 'starks/numbertype.py FieldElement.__truediv__')],
  ['int(element), ==, !=, hash, exceptions'])

p('C06', 'Extension-field arithmetic is polynomial arithmetic mod the modulus',
  'In every extension field, every way of constructing an element (list, bytes, polynomial, integer) yields the representative reduced modulo the field polynomial, and +, -, *, negation, / and inverse agree with polynomial arithmetic modulo that polynomial. Elements compare equal exactly when their representatives are equal, a nonzero element times its inverse is 1, and inverting zero raises.',
  ['inputs', 'configurations'], 'every field, modulus polynomial and element', 'tests use a few tiny fields and few elements',
  ['starks/finitefield.py'], [('element construction and operators', 'starks/finitefield.py FiniteField.Fq')],
  ['element representatives, ==, exceptions'])

p('C07', 'Rationals mod p obey fraction arithmetic',
  'For every modulus and every fractions a/b and c/d, addition, subtraction, multiplication, negation and inversion give a fraction equal modulo p to the mathematical one, numerator and denominator stay reduced modulo p, and equality is exactly cross-multiplied congruence. Inverting a fraction with numerator zero raises.',
  ['inputs'], 'every modulus, numerator and denominator', 'there are almost no tests of this type and the values are unbounded',
  ['starks/rationals_modp.py'], [('fraction operators', 'starks/rationals_modp.py RationalsModP.RationalModP')], ['numerator and denominator, ==, !='])

p('C08', 'Univariate polynomials form the polynomial ring',
  'Over every coefficient ring and for coefficient lists of every length, +, -, *, negation, evaluation and equality of univariate polynomials agree with the mathematical operations on coefficient sequences. No polynomial ever stores trailing zero coefficients, so degree, length, leading coefficient and the zero test are those of the mathematical polynomial, whichever constructor form built it.',
  ['inputs'], 'every coefficient list of every length, over every ring', 'tests use short fixed polynomials over small primes',
  ['starks/polynomial.py'], [('ring operations', 'starks/polynomial.py polynomials_over.Polynomial'), ('normalisation', 'starks/polynomial.py strip')], ['coefficients, degree, evaluation, =='])

p('C09', 'Division and the Euclidean algorithms satisfy their identities',
  'Polynomial division with remainder returns q, r with dividend = q*divisor + r and r of smaller degree, / and % return those two parts, and dividing by zero raises. The extended Euclidean algorithm returns x, y, d with a*x + b*y = d and the same d as the plain algorithm (a greatest common divisor), for integers and polynomials in either argument order.',
  ['inputs'], 'every pair of integers or polynomials, in both orders', 'tests check a few pairs; the number of reduction steps is unbounded',
  ['starks/polynomial.py', 'starks/euclidean.py', 'starks/modp.py'], [('long division', 'starks/polynomial.py Polynomial.__divmod__/__mod__/__truediv__'), ('Euclid', 'starks/euclidean.py gcd, extended_euclidean_algorithm')], ['returned quotient, remainder, cofactors and gcd'])

p('C10', 'Exponentiation is repeated multiplication for every exponent',
  'For every element type and every integer exponent, x**n is the n-fold product of x (1 for n = 0), a negative exponent gives the power of the inverse, and modular exponentiation gives that product reduced by the modulus at every exponent including 0 and 1. Non-integer exponents raise TypeError and negative exponents of modular exponentiation raise.',
  ['inputs'], 'every base and every integer exponent', 'square-and-multiply branches on every bit of an unbounded exponent',
  ['starks/numbertype.py', 'starks/finitefield.py'], [('square and multiply', 'starks/numbertype.py DomainElement.__pow__, powmod'), ('recursive power', 'starks/finitefield.py Fq.__pow__')], ['value of the power, exceptions'])

p('C11', 'Equality is an equivalence, != its complement, hashes agree',
  'For values of the same number type, == is reflexive, symmetric and true exactly for mathematically equal values, != is always its exact negation, and equal values have equal hashes where the type is hashable.',
  ['inputs'], 'every pair of values of every number type', 'tests assert single comparisons, seldom both operators on one pair',
  ['starks/modp.py', 'starks/rationals_modp.py', 'starks/polynomial.py', 'starks/finitefield.py', 'starks/multivariate_polynomial.py'], [('comparison operators', '__eq__, __ne__ and __hash__ of the number classes')], ['results of ==, !=, hash()'])

p('C12', 'Interpolation, vanishing polynomials and batch inversion are exact',
  'For distinct points, every interpolation routine (general, 2-point, 4-point, batched) returns the polynomial of degree below the number of points through exactly the given points, and the vanishing-polynomial routine returns the monic polynomial whose roots are exactly the given ones. Batch inversion returns the inverse of every nonzero entry and 0 for every zero entry, in order and for every length.',
  ['inputs'], 'every list of points, values and entries of every length', 'tests fix the point sets; zero entries and repeated structure are not explored',
  ['starks/poly_utils.py'], [('interpolation', 'starks/poly_utils.py lagrange_interp, lagrange_interp_2, lagrange_interp_4, multi_interp_4'), ('vanishing polynomial', 'starks/poly_utils.py zpoly'), ('batch inversion', 'starks/poly_utils.py multi_inv')], ['returned polynomial coefficients and inverses'])

p('C13', 'The multiplicative FFT is the exact transform and its inverse',
  'For every root of unity of 2-power order and every coefficient list no longer than the order, the forward transform returns the values of the polynomial at the successive powers of the root, the inverse transform recovers the zero-padded list, and multiplication via the transform returns the product coefficients. Short inputs are padded with zeros to the order of the root.',
  ['inputs', 'configurations'], 'every field, root, list content and length', 'tests check a few sizes and mostly only that forward and inverse cancel',
  ['starks/fft.py'], [('recursion', 'starks/fft.py _fft, _simple_ft'), ('drivers', 'starks/fft.py fft_1d, mul_polys, NonBinaryFFT')], ['returned value and coefficient lists'])

p('C14', 'Merkle branches open every leaf and verification is the real root check',
  'For every list whose length is a power of two of at least four, the tree commits to the leaves in the documented quarter-interleaved order with each inner node the hash of its two children, the branch for index i verifies against the root and yields leaf i. Verification recomputes the hash path from leaf, index and siblings and raises unless the result equals the given root.',
  ['inputs'], 'every leaf list, index, and adversarial branch', 'tests open a few indices; a verifier that skips a comparison still accepts honest branches',
  ['starks/merkle_tree.py'], [('tree', 'starks/merkle_tree.py merkelize, permute4'), ('opening', 'starks/merkle_tree.py mk_branch, get_index_in_permuted'), ('verification', 'starks/merkle_tree.py verify_branch')], ['tree nodes, branch, returned leaf, AssertionError'])

p('C15', 'Byte encodings round-trip and leaf packing is inverted exactly',
  'Encoding a prime-field element gives exactly 32 big-endian bytes and decoding gives the element back; decoding any bytes yields a reduced element; polynomial and extension-field encodings are the concatenation of their coefficients\' encodings and decode to the same value; polynomial byte strings that are not whole 32-byte chunks are rejected. Unpacking a packed Merkle leaf returns every evaluation chunk in packing order.',
  ['inputs'], 'every element, polynomial, leaf, dimension and count', 'tests encode few elements and never compare decoding with encoding for all sizes',
  ['starks/modp.py', 'starks/polynomial.py', 'starks/finitefield.py', 'starks/rationals_modp.py', 'starks/merkle_tree.py'], [('encoders', 'to_bytes of the number classes'), ('decoders', 'bytes branches of the constructors'), ('leaf packing', 'starks/merkle_tree.py merkelize_polynomial_evaluations, unpack_merkle_leaf')], ['byte strings and decoded values'])

p('C16', 'Proof compression is lossless or raises',
  'Whatever proof is given, compression either returns a compressed form whose decompression equals the original or raises; it never returns a form that decompresses to something else. The self-check compares the full decompressed structure with the input on every path to a return, and compression back-references always fit the 2-byte position format that the decompressor reads.',
  ['inputs'], 'every branch list and FRI proof, including entries that collide with markers or back-references', 'tests compress one honest proof; markers and lengths inside the data are never tried',
  ['starks/compression.py'], [('self-check', 'starks/compression.py compress_fri, compress_branches'), ('decompression', 'starks/compression.py decompress_fri, decompress_branches')], ['compressed list, exceptions'])

p('C17', 'Challenge indices are in range, complete and respect the exclusion',
  'Index sampling returns exactly the requested number of indices, each computed from its own 4 bytes of the hash-extended entropy, all within the range and, with an exclusion factor k, never a multiple of k; a too large range is rejected. The challenge coefficients are the hashes of the root with a distinct label each, exactly as many as requested, and shorter requests are prefixes of longer ones up to four.',
  ['inputs'], 'every entropy string, range, count and exclusion factor', 'tests use one entropy value; off-by-one ranges need specific bytes',
  ['starks/utils.py', 'starks/stark.py'], [('index sampling', 'starks/utils.py get_pseudorandom_indices'), ('coefficients', 'starks/stark.py get_pseudorandom_ks')], ['returned index and coefficient lists'])

p('C18', 'STARK verification enforces every check at every sampled position',
  'The verifier returns success only if the low-degree proof verifies and, at every sampled position, all three Merkle openings verify at the right positions and roots and, for every state dimension, the transition constraint and the boundary constraint hold on the opened values; otherwise it raises. A position or dimension is never skipped.',
  ['inputs'], 'every proof, including adversarial ones, and every configuration', 'the module is not exercised by any passing test, and honest proofs pass with checks removed',
  ['starks/stark.py'], [('verifier', 'starks/stark.py STARK.verify_proof, verify_proof_at_position')], ['return value or exception of verification'])

p('C19', 'Prover and verifier derive the same transcript',
  'For the same configuration the prover opens exactly the positions, in exactly the branch order, that the verifier reads, derived from the same root, range, count and exclusion; both pass the same root of unity, degree bound and exclusion to the low-degree proof; and the proof tuple is read back in the order it was written.',
  ['inputs', 'configurations'], 'every configuration, trace and root', 'no passing test runs both sides; a mismatch only shows end to end',
  ['starks/stark.py'], [('prover', 'starks/stark.py STARK.mk_proof, compute_merkle_spot_checks'), ('verifier', 'starks/stark.py STARK.verify_proof, verify_proof_at_position')], ['positions opened and read, arguments of the low-degree proof'])

p('C20', 'The AIR faithfully represents the computation',
  'For every step polynomials and input, the execution trace starts at the input and each state is the step polynomials applied to the previous state; the witness is the transposed trace; the constraint for each dimension is the next-state variable minus the step polynomial in the current-state variables; the circuit accepts exactly when every constraint vanishes on every adjacent pair; the boundary constraints fix the input.',
  ['inputs', 'programs'], 'every computation, width, length and input', 'tests check single computations where the circuit is always satisfied',
  ['starks/air.py'], [('trace', 'starks/air.py get_computational_trace'), ('AIR parts', 'starks/air.py AIR.generate_witness, generate_boundary_constraints, generate_monotone_circuit, generate_constraint_polynomials')], ['trace, witness, constraints, circuit verdict'])

p('C21', 'Affine spaces enumerate shift plus all combinations of the basis',
  'Iterating an affine space yields shift + sum of c_i*b_i for every coefficient vector over the field exactly in product order, its length is field size to the number of basis elements, an omitted shift is zero, and the vanishing polynomial of a space is the product of (x - a) over its elements.',
  ['inputs', 'configurations'], 'every field, basis and shift', 'tests check only sizes of small spaces',
  ['starks/reedsolomon.py', 'starks/poly_utils.py', 'starks/fri.py'], [('enumeration', 'starks/reedsolomon.py AffineSpace'), ('vanishing polynomial', 'starks/poly_utils.py construct_affine_vanishing_polynomial'), ('evaluation', 'starks/fri.py eval_on_subspace')], ['iterated elements, len'])

p('C22', 'Multivariate polynomials add, multiply and evaluate exactly',
  'Sums, differences and products of multivariate polynomials collect the coefficients of each exponent vector exactly, never store zero coefficients, report a missing coefficient as zero, and have the total degree of their monomials. Evaluating at a point is the sum of coefficient times the product of powers and refuses a wrong number of arguments; lifting a univariate polynomial to a variable, and projecting to one variable, preserve the values. A polynomial compiled from a step function has the value of the function at every point of F_q^n.',
  ['inputs'], 'every polynomial, number of variables and point', 'tests use fixed small polynomials',
  ['starks/multivariate_polynomial.py', 'starks/poly_utils.py', 'starks/utils.py'], [('ring operations', 'starks/multivariate_polynomial.py MultivariatePolynomial'), ('helpers', 'starks/multivariate_polynomial.py remove_zero_coefficients, add_power_tuples; starks/poly_utils.py make_multivar, project_to_univariate; starks/utils.py generate_Xi_s'), ('compiling a function', 'starks/poly_utils.py construct_multivariate_coefficients, construct_multivariate_dirac_delta')], ['coefficient table, degree, evaluation'])

p('C23', 'Fields are built only from suitable irreducible or primitive moduli',
  'A user-supplied modulus is accepted only when it passes the irreducibility test and has the requested degree, otherwise ValueError. The irreducibility test rejects constants and checks gcd with x^(p^i)-x for every i up to half the degree; the generators return only monic polynomials of the requested degree that passed the irreducibility (or primitivity) test; the primitivity test rejects any polynomial modulo which x has order below p^m-1.',
  ['inputs', 'configurations'], 'every prime, degree and candidate polynomial', 'tests try a few small polynomials; generators are random',
  ['starks/finitefield.py', 'starks/poly_utils.py'], [('gate', 'starks/finitefield.py FiniteField'), ('tests', 'starks/poly_utils.py is_irreducible, is_primitive'), ('generators', 'starks/poly_utils.py generate_irreducible_polynomial, generate_primitive_polynomial')], ['accepted moduli, returned polynomials, ValueError'])

p('C24', 'No code path uses a name that is never bound',
  'Every name read in any function of the library or its companion modules is bound in an enclosing scope, imported from a module that defines it, or a builtin, and every attribute taken from a project module exists there, so no path fails with NameError, ImportError or use before assignment.',
  ['programs', 'inputs'], 'every function and every path, including those no test runs', 'Python resolves names only when a path runs; most of the protocol code is run by no test',
  ['starks', 'misc'], [('module imports', 'import statements of every module')], ['NameError, ImportError, UnboundLocalError'])

p('C25', 'The chain accepts only hash-linked, proven blocks and the longest chain',
  'A chain is reported valid only if every block after the first stores the hash of its predecessor and a proof valid for that predecessor and hash; conflict resolution replaces the chain only by a strictly longer valid one, the longest seen; a mined proof satisfies the proof check; a new block links to the last block, takes the pending transactions and empties the pool, and a new transaction is queued unchanged for the next block.',
  ['inputs', 'histories'], 'every chain, peer response and call history', 'the module has no running tests and peers are adversarial',
  ['misc/blockchain.py'], [('validation', 'misc/blockchain.py Blockchain.valid_chain, valid_proof, hash'), ('consensus', 'misc/blockchain.py Blockchain.resolve_conflicts'), ('mining', 'misc/blockchain.py Blockchain.proof_of_work, new_block, new_transaction')], ['verdicts, stored chain, returned block'], [('chain', 'accepted blocks', 'Blockchain.chain'), ('pending transactions', 'not yet mined', 'Blockchain.current_transactions')])

p('C26', 'Honest commitments open and verify; wrong openings do not',
  'For every one-way permutation, hardcore predicate, secret and bit, an honest commitment verifies and decodes to the committed bit, and for integers to the committed integer, bit order preserved. Verification checks every bit with its own secret, rejects when an opening or commitment is missing, and never accepts a secret whose image differs from the commitment; an integer that does not fit is refused.',
  ['inputs'], 'every permutation, predicate, secret, integer and bit length', 'the tests cannot be collected and would sample a few integers',
  ['misc/commitment.py'], [('bit scheme', 'misc/commitment.py BBSBitCommitmentScheme, BBSBitCommitmentVerifier'), ('integer scheme', 'misc/commitment.py BBSIntCommitmentScheme, BBSIntCommitmentVerifier')], ['commitment tuples, verify and decode results'])

p('C27', 'Zero-knowledge graph protocols are complete, simulable and check fully',
  'With a true isomorphism the prover\'s response is accepted for either challenge, and the simulator\'s transcript is accepted too; the verifier accepts exactly when the response is one-to-one on the vertices and maps the committed graph to the challenged one. In the 3-colouring protocol only real edges are opened, the verifier accepts only if both openings verify and the colours are two different ones of the three, and an honest prover with a proper colouring is accepted; graphs of different sizes are refused, and repeated rounds convince only if every one passes.',
  ['inputs', 'schedules'], 'every graph, isomorphism, colouring, random permutation and challenge', 'random rounds sample few permutations and challenges',
  ['misc/zero_knowledge.py', 'misc/zkp_3_coloring.py'], [('isomorphism protocol', 'misc/zero_knowledge.py ZKProver, ZKVerifier, simulate_protocol'), ('colouring protocol', 'misc/zkp_3_coloring.py ZK3ColProver, ZK3ColVerifier')], ['accepts() result, revealed openings'])

p('C28', 'Floating-point operators follow the sign and zero rules',
  'For all operands: adding zero returns the other operand; a product or quotient is zero exactly when an operand (for a quotient, the dividend) is zero, with zero significand and exponent; its sign is the exclusive-or of the signs; its significand is the field product or quotient; subtraction equals addition of the sign-flipped operand; division by zero raises; conversion to fixed point of zero is zero.',
  ['inputs'], 'every field, significand, exponent and sign', 'tests check a few numbers in one field',
  ['starks/floatingpoint.py'], [('operators', 'starks/floatingpoint.py FloatingPoint.Fp')], ['v, p, z, s of the result'])

p('C29', 'Primality test never rejects a prime; BBS uses suitable primes only',
  'For every odd number the primality test answers "not prime" only when a witness contradicting primality was found, answers correctly for 0, 1, 2, 3 and even numbers, and tests the requested number of witnesses before answering "prime". The generator modulus is a product of two numbers that are 3 mod 4 and passed the primality test, and the generator squares modulo exactly that modulus.',
  ['inputs'], 'every integer and every random witness', 'random testing of numbers says little about all numbers',
  ['misc/primality.py', 'misc/blum_blum_shub.py'], [('Miller-Rabin', 'misc/primality.py decompose, isWitness, probablyPrime'), ('generator', 'misc/blum_blum_shub.py good_prime, find_good_prime, make_modulus, blum_blum_shub, parity')], ['verdicts, returned modulus factors, generator output'])

p('C30', 'The APR reduction builds the documented spaces, rates and polynomials',
  'For every AIR, the boundary polynomial of each dimension is the product of x minus the reduced i-th power of the generator over the boundary constraints, each rate is the stated quotient by the size of the evaluation space, the evaluation spaces have the documented bases and shifts, every dimension has its three neighbour maps, and the expanded constraint variables are variable times boundary polynomial plus boundary interpolant at the neighbour.',
  ['inputs', 'configurations'], 'every AIR and security parameter', 'the tests construct one instance and look at few of its parts',
  ['starks/apr.py', 'starks/ali.py'], [('spaces', 'starks/apr.py APR.construct_L, construct_L_cmp'), ('rates', 'starks/apr.py APR.compute_rho_js, compute_rho_cmp'), ('polynomials', 'starks/apr.py APR.construct_Z_boundaries, construct_neighbors, tilde_expansion'), ('random constraint', 'starks/ali.py ALIProver.generate_random_constraint')], ['the constructed spaces, rates and polynomials'])

p('C31', 'MiMC, power cycles and power-of-two tests are exact',
  'MiMC applies x -> x^3 + constant, cycling through the constants, exactly steps-1 times modulo its prime; the power cycle of r is 1, r, r^2, ... up to but not including the return to 1; and the power-of-two test is true exactly for powers of two, for every positive integer.',
  ['inputs'], 'every input, step count, constant list, element and integer', 'tests fix one or two instances',
  ['starks/utils.py'], [('MiMC', 'starks/utils.py mimc'), ('cycle', 'starks/utils.py get_power_cycle'), ('power of two', 'starks/utils.py is_a_power_of_2')], ['returned values'])

p('C32', 'Prover polynomials are exactly the ones the verifier checks',
  'For every trace, the constraint polynomial is the shifted trace minus the step polynomial of the trace, the remainder polynomial is it divided by (x^steps-1)/(x-last) and construction raises if that division is inexact, the boundary polynomial is (trace - interpolant of input and output)/((x-1)(x-last)), and the linear combination weights trace and boundary with the four challenge coefficients and the shifted powers.',
  ['inputs', 'configurations'], 'every trace, width, length and challenge', 'no passing test runs the prover',
  ['starks/stark.py'], [('polynomials', 'starks/stark.py construct_trace_polynomials, construct_constraint_polynomials, construct_remainder_polynomials, construct_boundary_polynomials'), ('combination', 'starks/stark.py compute_pseudorandom_linear_combination_1d, compute_pseudorandom_linear_combination')], ['returned polynomials, AssertionError'])

p('C33', 'FRI rejects words far from the code and accepts codewords',
  'The proximity protocol accepts every codeword of the Reed-Solomon code and rejects, with the stated probability, every word far from it.',
  ['inputs'], 'every word, space and rate', 'soundness is a probability over challenges and words', ['starks/fri.py'], [('protocol', 'starks/fri.py AffineSubspaceFRI')], ['query verdict'])

p('C34', 'The additive FFT evaluates over the affine space and inverts',
  'The additive transform over a binary field returns the values of the polynomial on the affine space spanned by the given basis, and the inverse transform recovers the polynomial.',
  ['inputs'], 'every binary field, basis and polynomial', 'tests run one size', ['starks/fft.py'], [('additive transform', 'starks/fft.py Additive_FFT')], ['values and polynomial'])

p('C35', "A node's endpoints act on exactly its own chain",
  'Asking a node to mine adds one block that links to its last block, carries a proof valid for it, and contains the pending transactions plus a reward of one to the node itself; a complete transaction is queued unchanged, one with a missing field is refused and queues nothing. The chain is returned whole with its length, registering adds exactly the given nodes or refuses when there is no list, and resolving reports a replacement exactly when one happened.',
  ['inputs', 'histories'], 'every chain, pending pool, request body and call order', 'no test serves a request, and the answers depend on the history of requests',
  ['misc/run_blockchain.py', 'misc/blockchain.py'], [('endpoints', 'misc/run_blockchain.py mine, new_transaction, full_chain, register_nodes, consensus')], ['response body and status, chain and pending transactions after the request'])

p('C36', 'The Taylor expansion at x^2+x recombines to the polynomial',
  'For every polynomial over the two-element field and every bound that is a power of two exceeding its degree, the expansion consists of parts of degree at most one, half as many as the bound. The sum of the parts, each times the matching power of x^2+x, is the polynomial again.',
  ['inputs'], 'every binary polynomial and every power-of-two bound above its degree', 'the one test only bounds the degrees of the two halves of two polynomials', ['starks/fft.py'],
  [('Taylor expansion', 'starks/fft.py Additive_FFT.Taylor_Expansion')], ['parts of the expansion'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
  for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
    n = x['statement'].count('. ') + 1
    assert n <= 3, (x['id'], n)
    f.write(json.dumps(x) + '\n')
print(len(P))
