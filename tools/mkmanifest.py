import json
TECH={
'C01':('contract-based deductive verification: limb-level verification conditions from the crate\'s MIR, discharged by polynomial normal form, gcd/congruence reasoning and z3','proof',
  'every field operation of both fields, all 2^512 operand pairs; MIR regenerated from /repo each run. Trusted: mirv symbolic executor, std models listed in evidence, z3'),
'C02':('contract-based deductive verification (MIR limb-level VCs, polynomial identities + z3)','proof','all inputs of every conversion; from_bytes acceptance is an iff'),
'C03':('contract-based deductive verification (MIR, abstract field domain justified by C01/C02 contracts)','proof',
  'pow, pow_vartime, invert and sqrt soundness proved for all inputs; sqrt completeness and batch inversion are bounded stand-ins (every 2-adic order sampled; slices of length <= 4 with all zero patterns), labelled bounded in the evidence'),
'C04':('contract-based deductive verification: ground and algebraic facts about the crate\'s constants evaluated from MIR and proved with primality certificates','proof','all constants; primality by Lucas certificates; group order by Hasse interval and a point of prime order'),
'C05':('contract-based deductive verification (MIR, curve operations over the abstract base field; normal forms modulo the curve equation)','proof','all pairs of points in all projective representations, case-split exhaustively; field contracts from C01-C03'),
'C06':('contract-based deductive verification (MIR, scalars by their bits, points as formal combinations)','other','scalar multiplication proved for every scalar and point in every operator form; multi-scalar multiplication verified for all scalars and bases at the listed lengths and processor counts (bounded)'),
'C07':('contract-based deductive verification (MIR, abstract base field with the C02 byte contract; case split over identity / on curve / off curve)','proof','all points and all 32-byte strings; contracts of C01-C05 used at calls'),
'C08':('contract-based deductive verification of the MIR with fixed vector lengths (polynomial identities in all coefficients)','other','all coefficient values at the listed lengths, transform sizes, processor counts and both spawn orders; bounded in those sizes'),
'C09':('contract-based deductive verification of the MIR (polynomial identities in challenges and points; affine decision diagrams for the challenge map)','other','challenge expansion proved for all 2^128 challenges; folding helpers verified for all values at the listed round counts (bounded)'),
'C10':('contract-based deductive verification of the MIR: induction over the abstract sponge state, permutation rounds over an uninterpreted field with the C03 power contract','proof','every absorb/squeeze history by induction over sponge states; round constants and key schedule evaluated from the code'),
'C11':('contract-based deductive verification of the MIR against a recorder contract for ConstraintSystem: honest values satisfy every issued constraint identically, and the constraints with unknown internal variables entail the specified output','proof','all operand kinds (variable, negated, constants, same variable twice) and all values, both fields; one known finding (non-canonical decomposition)'),
'C12':('contract-based deductive verification of the MIR: words of symbolic bits, Boolean operations through their C11 contracts, modular sums and products as exact integer identities over the constraint system','proof','all operand values, all distances, sums of 2..10 operands, both fields; bit kinds (allocated, negated, constant) in eight patterns per word'),
'C13':('contract-based deductive verification of the MIR: compression function equal to the FIPS 180-4 dataflow in a normal-form algebra of 32-bit words (word operations through their C12 contracts), padding and block loop proved per length residue with an opaque prefix of arbitrarily many blocks','proof','all blocks, chaining values and message lengths below 2^59 bits'),
'C14':('contract-based deductive verification of the MIR: each number gadget executed against the recorder contract of ConstraintSystem with symbolic field values; honest satisfaction, denotation and reported value by polynomial identity, soundness by elimination over the recorded constraints','proof','all field values; operand shapes enumerated (each coefficient kind, allocated/constant, opaque remainder of a combination of any length)'),
'C15':('contract-based deductive verification of the MIR: each curve gadget executed against the recorder contract of ConstraintSystem; honest satisfaction by polynomial identity modulo the curve equation, soundness by case-split elimination over the recorded constraints','proof','all points and coordinates of both curves, operands split exhaustively into identity / equal / opposite / generic pairs; scalar ladders by a loop invariant over the point contracts where listed in the evidence'),
'C16':('contract-based deductive verification of the MIR: the Rescue gadget state invariant (gadget state denotes the native sponge state) proved preserved by absorb and squeeze from an arbitrary state, S-boxes through their C14 contracts, against the recorder contract of ConstraintSystem; every recorded variable determined by the inputs','proof','every absorb/squeeze history by induction over gadget states; all field values; operand patterns (allocated / constant / mixed) enumerated'),
'C17':('contract-based deductive verification of the MIR: coefficient and linear-combination operators by polynomial identity; one synthesizer call from an arbitrary (symbolic) state against a recorder contract of Backend, plus enumerated call sequences for whole-program meaning, namespaces and references','other','step obligations unbounded in the number of gates and rows; combination lengths and whole call sequences bounded (listed in evidence), all values and coefficients'),
'C18':('contract-based deductive verification of the MIR: is_satisfied, constraint_count and determinism_check executed on circuits given as call sequences with symbolic values, coefficients and public inputs; every path agrees with the program meaning','other','call sequences bounded (all of length up to 3 plus longer ones), all values, coefficients and inputs; names opaque'),
'C19':('contract-based deductive verification of the MIR: compute_sx, compute_sy, Proof::new and Deferred::compute executed on circuits given as call sequences with symbolic coefficients, values and challenges; coefficients equal the polynomial the gates and constraints define, and the tested constant term equals the weighted sum of the residuals of all gates and constraints, identically','other','call sequences and parameter sizes (k=4..6) bounded; all evaluation points, coefficients and assignments'),
'C20':('contract-based deductive verification of the MIR: Proof::new against Proof::verify, Deferred::verify and Leftovers::verify, and the opening argument (new_proof against verify_proof), by polynomial identities over formal combinations of unknown generators, with the sponge as an opaque transcript; each component shifted by an unknown error; challenge map non-zero and injective by a lemma over its C09 contract','other','call sequences, parameter sizes (k=4,5) and rounds (1..4) bounded; all values, generators, challenges and errors. Idealised: a changed transcript gives independent challenges, and a verdict that is not identically true counts as rejection'),
'C21':('contract-based deductive verification of the MIR: Deferred::verify accepts exactly under the seven equations written from the definition, Leftovers::verify exactly for the commitment and generator fold, to_bytes binds each field at its own position; transcript helpers proved on their real bodies','other','parameter sizes (k=4,5) and call sequences bounded; all field values, points and challenges'),
'C22':('contract-based deductive verification of the MIR: create_proof, verify_inner and verify over the contracts of the records (C20, C21); verify_proof compared event by event with Proof::verify executed on the same arbitrary proof, verify_deferred with the seven equations of Deferred::verify, synthesize and every helper executed against the gadget contracts (C11, C14-C16)','other','parameter sizes k=4,5 and bit lengths bounded; all proofs, records, challenges, verdict combinations. Concrete search: satisfied exactly for valid steps, over 170 changed steps per curve order at k=4'),
}
NA={'C23':'a statement about computationally bounded adversaries (discrete-log hardness, random-oracle heuristics): no functional contract over the code expresses it',
'C24':'timing of compiled code is not expressible as a contract over MIR values; the deductive verifier has no timing semantics'}
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
PENDING='check under construction in this framework (see DESIGN.md)'
m=dict(version=1,setup_cmd='python3-vt -c "import z3" && cargo --version',
 checks=[dict(property=p,quick_cmd=f'python3-vt check.py {p} quick',thorough_cmd=f'python3-vt check.py {p} thorough',evidence_file=f'evidence/{p}.json',technique=TECH[p][0],level=TECH[p][1],level_note=TECH[p][2]) for p in props if p in TECH],
 not_applicable=[dict(property=p,reason=NA.get(p,PENDING)) for p in props if p not in TECH])
try: m['hooks']=json.load(open('/verif/tools/hooks.json'))
except FileNotFoundError: pass
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
