import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Field arithmetic is exact and canonical",
 "In both fields, addition, subtraction, negation, doubling, multiplication and squaring of any two elements return exactly the element that modular arithmetic defines, in its unique reduced representation, so that two elements compare equal exactly when they are the same residue. No operation panics or overflows, and every operator form (by value, by reference, assigning) agrees.",
 ["inputs"],"all pairs of elements of each of the two 255-bit prime fields",
 "the tests sample a few constants and one random run; carry and borrow corner cases in 256-bit limb arithmetic have probability near 2^-64 under sampling",
 ["src/fields/fp.rs","src/fields/fq.rs","src/util.rs"],
 [("Montgomery multiplication and reduction","src/fields/fp.rs mul/square/montgomery_reduce"),("carry and borrow chains","src/util.rs mac/adc/sbb"),("conditional subtraction of the modulus","src/fields/fp.rs sub/add/neg"),("operator forms","src/util.rs impl_binops_*")],
 [("limbs","four 64-bit limbs of a*2^256 mod p, always below p","src/fields/fp.rs Fp.0")],["Fp/Fq operators, to_bytes"])
p("C02","Field element encodings are canonical and faithful",
 "Writing a field element gives the 32-byte little-endian form of its residue; reading accepts exactly the 32-byte strings below the modulus, and reading and writing are inverse. Building an element from a machine integer, four raw words, or 64 wide bytes gives the residue of that integer, and taking the low 128 bits returns the residue modulo 2^128.",
 ["inputs"],"all field elements, all 32-byte and 64-byte strings, all 64/128/256-bit integers",
 "tests round-trip a handful of values; rejection at the modulus boundary and congruence for wide inputs cover a space of 2^256 and 2^512",
 ["src/fields/fp.rs","src/fields/fq.rs"],
 [("to_bytes / from_bytes","src/fields/fp.rs impl Field"),("from_raw, from_u64, from_u128, From<u64>, From<bool>","src/fields/fp.rs"),("from_bytes_wide / from_u512","src/fields/fp.rs"),("get_lower_128","src/fields/fp.rs")],None,["byte strings returned and accepted"])
p("C03","Exponentiation, inversion and square roots are correct",
 "Both exponentiation routines return the base raised to the given 256-bit exponent. Inversion returns the multiplicative inverse of every non-zero element and nothing for zero; a square root is returned exactly when one exists and squares back to the input. Batch inversion replaces every non-zero entry by its inverse, leaves zeros alone, and returns the inverse of the product of the non-zero entries.",
 ["inputs"],"all field elements, all exponents, all vectors of elements including ones with zeros at any position",
 "tests use one or two bases, and square-root inputs of high 2-adic order have probability 2^-k under sampling",
 ["src/fields/mod.rs","src/fields/fp.rs","src/fields/fq.rs"],
 [("square-and-multiply","src/fields/mod.rs pow, pow_vartime"),("Fermat inversion","src/fields/fp.rs invert"),("Tonelli-Shanks","src/fields/fp.rs sqrt"),("Montgomery's trick","src/fields/mod.rs batch_invert")])
p("C04","Field and curve constants have the advertised number-theoretic meaning",
 "The moduli are prime and form a cycle (each curve's group order is the other's base field); the advertised root of unity has order exactly 2^32, the advertised cube roots have order exactly 3, and the two S-box exponents are inverse to each other modulo the group order. The generators lie on their curves, and multiplying a point by the scalar cube root equals multiplying its x-coordinate by the base-field cube root.",
 ["configurations"],"the two fields and the two curves",
 "tests check a few of the constants; the order, the cycle and the endomorphism pairing of the right cube roots are not checked on both sides",
 ["src/fields/fp.rs","src/fields/fq.rs","src/curves/ec0.rs","src/curves/ec1.rs"],
 [("MODULUS, INV, R, R2, R3, ROOT_OF_UNITY, BETA, RESCUE_INVALPHA","src/fields/fp.rs, fq.rs"),("generator, B, 3B, BETA_SCALAR, BETA_BASE","src/curves/ec0.rs, ec1.rs")])
p("C05","Curve point operations are the elliptic-curve group law",
 "On both curves, adding, doubling, negating and subtracting points gives the group-law result for every pair of points, in every projective representation, including the identity, equal points and opposite points. Two points compare equal exactly when they are the same group element, and exactly the identity is reported as zero.",
 ["inputs"],"all pairs of points of each curve in all projective representations",
 "tests use one fixed relation between multiples of a point; exceptional pairs (identity, P+P, P-P, rescaled representatives) and equality against the identity are not all reached",
 ["src/curves/ec0.rs","src/curves/ec1.rs","src/util.rs"],
 [("complete addition","src/curves/ec0.rs Add"),("doubling","src/curves/ec0.rs double"),("negation, subtraction","src/curves/ec0.rs Neg, Sub"),("equality and identity test","src/curves/ec0.rs ct_eq, is_zero")])
p("C06","Scalar multiplication and multi-scalar multiplication are exact",
 "Multiplying a point by a scalar gives the sum of that many copies for every scalar of the full range, and a multi-scalar multiplication gives the sum of the individual products for any equal-length lists. The result does not depend on how many processors the machine has or how work is split between threads.",
 ["inputs","configurations","schedules"],"all scalars and points; all list lengths and processor counts (multi-scalar: bounded, see DESIGN)",
 "tests run one length on one machine; window, chunk and bucket boundaries depend on length, processor count and scalar bits",
 ["src/util.rs","src/curves/ec0.rs","src/curves/ec1.rs"],
 [("double-and-add","src/curves/ec0.rs Mul"),("windowed bucket method and chunking","src/util.rs multiexp")])
p("C07","Point encodings are canonical and faithful",
 "Encoding a point and decoding it returns the same group element for every point in every representation; decoding returns only points on the curve or the identity and fails when no such point exists. Affine coordinates are returned exactly for non-identity points, and building a point from coordinates succeeds exactly for coordinates on the curve, or (0,0) for the identity.",
 ["inputs"],"all points, all 32-byte strings, all coordinate pairs",
 "tests decode a few encodings; sign-bit, identity and off-curve combinations are not enumerated",
 ["src/curves/ec0.rs","src/curves/ec1.rs","src/util.rs"],
 [("to_bytes, from_bytes","src/curves/ec0.rs"),("get_xy, from_xy, is_on_curve","src/curves/ec0.rs"),("or_else / to_option","src/util.rs CtOptionExt")])
p("C08","Polynomial multiplication equals the convolution of coefficients",
 "Multiplying two polynomials given by non-empty coefficient vectors returns the vector of their exact product, of length one less than the sum of the lengths. The result does not depend on the number of processors or on whether the serial or the parallel transform is used.",
 ["inputs","configurations"],"all coefficient values; lengths and processor counts up to the stated bound",
 "tests use a few sizes on one machine; the split between serial and parallel code depends on size and processor count",
 ["src/util.rs"],
 [("multiply_polynomials","src/util.rs"),("serial and parallel transforms","src/util.rs serial_fft, parallel_fft, best_fft")])
p("C09","Inner-product helpers agree with their definitions and with each other",
 "For every number of rounds and every choice of challenges, the evaluation helper, the generator-coefficient helper, the folded-generator helper and the generator-collapsing step all compute the folding that the inner-product argument defines, so that collapsing step by step equals one combination with the computed coefficients and the evaluation helper equals the inner product of those coefficients with the powers of the point. Expanding a 128-bit challenge into a scalar follows the published endomorphism recurrence on every challenge.",
 ["inputs","configurations"],"all challenge values and points; round counts up to the stated bound; all 128-bit challenges",
 "tests check one size with random values, and challenge expansion is only compared through a full proof",
 ["src/util.rs"],
 [("compute_b, compute_g_coeffs_for_inner_product, compute_g_for_inner_product","src/util.rs"),("parallel_generator_collapse, compute_inner_product","src/util.rs"),("get_challenge_scalar","src/util.rs")])
p("C10","The Rescue hash follows its sponge definition",
 "Absorbing any sequence of elements and squeezing any number of outputs returns exactly what the Rescue sponge definition gives: zero initial state, blocks added and permuted at full rate, unfilled positions of a block padded with ones, and a further permutation of an all-padding block when the output runs out. The result depends on the sequence of calls only, and switching between absorbing and squeezing is always well defined.",
 ["inputs","histories"],"all element sequences and all interleavings of absorb and squeeze calls up to the stated length",
 "tests run one short history; block boundaries and mode switches form a family of histories",
 ["src/rescue.rs"],
 [("sponge state machine","src/rescue.rs absorb, squeeze, duplex, pad"),("permutation","src/rescue.rs rescue_f, mds, key schedule")])
p("C11","Boolean gadgets are sound and complete",
 "Every boolean gadget (allocation, XOR, AND, AND-NOT, NOR, choose, majority, comparison with constants, bit decomposition of a field element) accepts the honest assignment for every input, and any assignment satisfying its constraints has boolean outputs equal to the stated function of the inputs. Constants, negated and allocated operands behave identically.",
 ["inputs"],"all operand kinds and values and all satisfying assignments of the generated constraints",
 "tests evaluate honest assignments; soundness quantifies over all dishonest assignments",
 ["src/gadgets/boolean.rs"],
 [("AllocatedBit constraints","src/gadgets/boolean.rs"),("Boolean dispatch on operand kinds","src/gadgets/boolean.rs"),("unpack_fe","src/gadgets/boolean.rs")])
p("C12","Integer gadgets are sound and complete",
 "Every 32-bit and 64-bit word gadget (bit packing, rotation, shift, XOR, choose, majority, modular addition of several operands, multiply-accumulate) accepts the honest assignment, and any assignment satisfying its constraints gives the stated machine-integer result. Constant and allocated operands behave identically.",
 ["inputs"],"all operand values and all satisfying assignments",
 "tests evaluate honest assignments of random words; carries and dishonest assignments are not covered",
 ["src/gadgets/uint32.rs","src/gadgets/uint64.rs"],
 [("UInt32 operations and addmany","src/gadgets/uint32.rs"),("UInt64 operations, mul_acc2","src/gadgets/uint64.rs")])
p("C13","The SHA-256 gadget computes SHA-256",
 "For every message of whole bytes, the circuit's output bits equal the SHA-256 digest of the message, including padding across block boundaries, and the generated constraints accept the honest assignment and determine the output.",
 ["inputs"],"all messages, all lengths up to the stated bound",
 "tests hash a few lengths with one random message each",
 ["src/gadgets/sha256.rs","src/gadgets/uint32.rs"],
 [("padding and block iteration","src/gadgets/sha256.rs sha256"),("compression function","src/gadgets/sha256.rs sha256_compression_function")])
p("C14","Number gadgets are sound and complete",
 "Every number gadget (allocation, public-input copy, multiplication, squaring, inversion, square root, the two S-box powers, scaled and combined numbers, evaluation of a combination) accepts the honest assignment for every admissible input, and any assignment satisfying its constraints relates outputs to inputs by exactly the stated field equation. The value a gadget reports equals the value its linear combination has in the constraint system.",
 ["inputs"],"all field values and all satisfying assignments",
 "tests evaluate honest assignments on samples; soundness quantifies over all assignments",
 ["src/gadgets/num.rs"],
 [("AllocatedNum, Num","src/gadgets/num.rs"),("Combination","src/gadgets/num.rs"),("rescue_alpha, rescue_invalpha","src/gadgets/num.rs")])
p("C15","Curve-point gadgets are sound and complete",
 "Every curve-point gadget (witnessing, negation and endomorphism under a condition, incomplete, complete and conditional addition, doubling, the multiplication ladders) accepts the honest assignment for every admissible input, and any assignment satisfying its constraints yields the group-law result of the inputs. The point a gadget reports as its value is the point its coordinates have in the constraint system.",
 ["inputs"],"all points and conditions in each gadget's domain and all satisfying assignments",
 "tests evaluate honest assignments only; a missing constraint leaves every honest test passing",
 ["src/gadgets/ecc.rs"],
 [("CurvePoint operations","src/gadgets/ecc.rs"),("multiplication ladders","src/gadgets/ecc.rs multiply*, multiply_endo, multiply_inv_endo, multiply_fast")])
p("C16","The Rescue gadget agrees with the native Rescue hash",
 "For every history of absorbed and squeezed elements, the circuit version of the hash outputs the same values as the native one, accepts the honest assignment, and its constraints determine those outputs.",
 ["inputs","histories"],"all element values; histories up to the stated length",
 "tests compare one history with random inputs",
 ["src/gadgets/rescue.rs","src/rescue.rs","src/gadgets/num.rs"],
 [("RescueGadget absorb/squeeze, rescue_f, mds","src/gadgets/rescue.rs")])
p("C17","Linear combinations and synthesis denote the constraint system written",
 "Building, scaling, adding and subtracting linear combinations denotes exactly that arithmetic on the assigned values, whatever coefficient shorthand is used. Synthesising a circuit issues to the backend exactly the gates, linear constraints, public-input rows and wire values the circuit asked for, in the same order whether or not a witness is available.",
 ["inputs","programs"],"all coefficients and all sequences of allocations, inputs, multiplications and constraints",
 "tests exercise one or two fixed circuits",
 ["src/circuits.rs","src/synthesis.rs"],
 [("Coeff and LinearCombination operators","src/circuits.rs"),("Basic synthesizer gate packing","src/synthesis.rs")])
p("C18","The satisfaction checker accepts exactly the satisfied circuits",
 "Checking a circuit against public inputs reports success if and only if every multiplication gate and every linear constraint holds for the produced assignment with those inputs bound to the public-input rows and the number of inputs matches. A failing constraint, a wrong input value or a wrong number of inputs is always reported, and constraint counts equal the number of gates and constraints issued. The determinism check passes exactly the circuits that issue the same calls on both syntheses.",
 ["inputs","programs"],"all circuits (as sequences of constraint-system calls), assignments and public inputs",
 "tests use a few circuits that are satisfied",
 ["src/dev.rs","src/circuits.rs"],
 [("is_satisfied","src/dev.rs"),("constraint_count, determinism_check","src/dev.rs")])
p("C19","Constraint polynomials evaluate consistently for prover and verifier",
 "For every circuit and every pair of evaluation points, the prover's coefficients of the constraint polynomial, evaluated at the second point, equal the verifier's direct evaluation, and both equal the polynomial the circuit's gates and constraints define. For every satisfying assignment the constant term that the argument tests vanishes, and for every non-satisfying one it is a non-zero polynomial in the first point.",
 ["inputs","programs"],"all circuits as sequences of constraint-system calls and all evaluation points",
 "tests prove a few circuits end to end at random points",
 ["src/proofs.rs","src/synthesis.rs"],
 [("SxEval, SyEval","src/proofs.rs"),("compute_sx, compute_sy","src/proofs.rs Params")])
p("C20","Honest proofs verify and every tampered component is rejected",
 "A proof made from a satisfying assignment and its public inputs is accepted. Changing any single component of the proof, the public inputs, the previous-proof data handed to the verifier, or any transcript-bound value makes verification or the deferred checks fail. A packed challenge in the previous-proof data counts by the scalar it denotes (its bits 2 to 127).",
 ["inputs"],"all proof components, public inputs and previous-proof data (bounded: circuits and parameter sizes stated in DESIGN)",
 "tests verify honest proofs only and never tamper with a component",
 ["src/proofs.rs"],
 [("transcript order","src/proofs.rs Proof::new, Proof::verify"),("opening argument","src/proofs.rs MultiPolynomialOpening"),("commitments","src/proofs.rs Params::commit")])
p("C21","Deferred work and leftovers are checked completely and encoded faithfully",
 "The deferred-work and leftover records a verifier outputs are accepted exactly when the commitments and evaluations they describe are right, so changing any field of a correct record is detected; a packed challenge counts by the scalar it denotes (its bits 2 to 127). Their byte encodings bind every field at its own position.",
 ["inputs"],"all fields of the records, all challenge values",
 "tests verify correct records only",
 ["src/proofs.rs"],
 [("Leftovers::verify, Deferred::verify","src/proofs.rs"),("to_bytes","src/proofs.rs"),("Deferred::compute","src/proofs.rs")])
p("C22","Recursive verification accepts exactly chains whose every link is valid",
 "Over two parameter sets of equal size, a recursive proof created from a valid previous proof and payload verifies for that payload, and only together with valid deferred work and leftovers on both curves. Changing the payload, any leftover, the deferred record or the inner proof makes verification fail. The verification circuit accepts a previous proof exactly when the native verifier does, for the transcript, leftovers and deferred values the native verifier derives; every public input is constrained to be a bit; in the base case it binds the previous payload to the inner circuit's base payload, otherwise the previous proof's leftovers and deferred work are enforced.",
 ["inputs","histories"],"all payloads, all tampering positions of a recursive proof (bounded: chain length and parameter size stated in DESIGN)",
 "the only test of recursion is an example that verifies honest proofs",
 ["src/recursion.rs","src/proofs.rs"],
 [("RecursiveProof::verify, verify_inner, create_proof","src/recursion.rs"),("VerificationCircuit","src/recursion.rs")])
p("C23","Proofs are sound and zero-knowledge against efficient adversaries",
 "No efficient adversary produces an accepted proof for an unsatisfiable statement, and proofs reveal nothing about the witness beyond the statement.",
 ["inputs"],"all probabilistic polynomial-time adversaries",
 "a statement about adversaries, not about executions",
 ["src/proofs.rs","src/recursion.rs"],
 [("the polynomial commitment and inner-product argument","src/proofs.rs")])
p("C24","Secret-dependent field and curve operations run in constant time",
 "The running time and memory access pattern of the operations offered as constant time do not depend on the secret values.",
 ["inputs"],"all secret inputs, on the compiled code",
 "timing is not an output of a unit test",
 ["src/fields/fp.rs","src/curves/ec0.rs"],
 [("conditional selection instead of branches","src/fields/fp.rs, src/curves/ec0.rs")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P),[len(x["title"]) for x in P if len(x["title"])>80])
