//! The verification circuit on concrete steps of small parameter size: at this size the input commitment covers the payload only, so that a proof
//! of any small circuit with the payload bits as public inputs is a valid previous proof.
use crate::prot::*;
use crate::Fx;
use halo::*;
pub struct Inner { bits: usize }
impl<F: Field> RecursiveCircuit<F> for Inner {
    fn base_payload(&self) -> Vec<bool> { (0..self.bits).map(|i| i % 3 == 1).collect() }
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS, o: &[AllocatedBit], n: &[AllocatedBit]) -> Result<(), SynthesisError> {
        assert!(o.len() == self.bits && n.len() == self.bits);
        // the first bit of the payload flips in every step
        cs.enforce_zero(LinearCombination::from(o[0].get_variable()) + n[0].get_variable() - CS::ONE); Ok(())
    }
}
/// m public inputs of the given values
struct Inp { vals: Vec<bool> }
impl<F: Field> Circuit<F> for Inp {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        for b in self.vals.iter() { let v = if *b { F::one() } else { F::zero() }; cs.alloc_input(|| "i", || Ok(v))?; }
        cs.multiply(|| "m", || Ok((F::from_u64(3), F::from_u64(5), F::from_u64(15))))?; Ok(())
    }
}
fn bits(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1 == 1)).collect() }
struct Step<E1: Curve, E2: Curve> { base: bool, p: Proof<E2>, old: Leftovers<E2>, o2: Leftovers<E1>, d: Deferred<E1::Scalar>, pay: Vec<u8>, npay: Vec<u8>, forks: Vec<u8>, lo: Leftovers<E1>, ln: Leftovers<E2>, nd: Deferred<E2::Scalar>,
    inputs: Option<Vec<E1::Scalar>>, noproof: bool }
fn clone<E1: Curve, E2: Curve>(s: &Step<E1, E2>) -> Step<E1, E2> { Step { base: s.base, p: s.p.clone(), old: s.old.clone(), o2: s.o2.clone(), d: s.d.clone(), pay: s.pay.clone(), npay: s.npay.clone(), forks: s.forks.clone(), lo: s.lo.clone(), ln: s.ln.clone(), nd: s.nd.clone(), inputs: s.inputs.clone(), noproof: s.noproof } }
fn publics<E1: Curve, E2: Curve>(s: &Step<E1, E2>) -> Vec<E1::Scalar> { let mut v = s.npay.clone(); v.extend(s.lo.to_bytes()); v.extend(s.ln.to_bytes()); v.extend(s.nd.to_bytes()); bits(&v).into_iter().map(|b| if b { Field::one() } else { Field::zero() }).collect() }
fn check<E1, E2>(params: &Params<E2>, s: &Step<E1, E2>) -> String where E1: Curve<Base = <E2 as Curve>::Scalar>, E2: Curve<Base = <E1 as Curve>::Scalar> {
    let proof = if s.noproof { None } else { Some((s.p.clone(), s.old.clone(), s.o2.clone(), s.d.clone(), s.pay.clone())) };
    let inp = s.inputs.clone().unwrap_or_else(|| publics(s));
    match quiet(|| check_verification_circuit::<E1, E2, Inner>(params, &Inner { bits: 32 }, s.base, proof, &s.npay, &s.forks, s.lo.clone(), s.ln.clone(), s.nd.clone(), &inp)) {
        Some(Ok(true)) => "sat".into(), Some(Ok(false)) => "unsat".into(), Some(Err(dev::SatisfactionError::Synthesis(_))) => "synthesis error".into(), Some(Err(_)) => "unsat".into(), None => "panic".into() }
}
fn go<E1, E2>(k: usize, sel: &str) -> String where E1: Curve<Base = <E2 as Curve>::Scalar> + 'static, E2: Curve<Base = <E1 as Curve>::Scalar> + 'static, E1::Scalar: Fx + 'static, E2::Scalar: Fx + 'static {
    let p2 = Params::<E2>::new(k); let p1 = Params::<E1>::new(k);
    let pay = vec![2u8, 0, 0, 0]; let vals = bits(&pay)[..3].to_vec(); let inps: Vec<E2::Scalar> = vals.iter().map(|b| if *b { Field::one() } else { Field::zero() }).collect();
    let c2 = Inp { vals };
    let old0 = Leftovers::dummy(&p2); let (_, old) = Proof::new::<_, Basic>(&p2, &c2, &old0).unwrap();
    let (p, _) = Proof::new::<_, Basic>(&p2, &c2, &old).unwrap();
    let (ok, ln, nd, forks) = p.verify::<_, Basic>(&old, &p2, &c2, &inps, None).unwrap(); if !ok { return "honest proof rejected".into() }
    // a genuine deferred record over the other curve
    let (_, o1) = Proof::new::<_, Basic>(&p1, &Inp { vals: vec![true] }, &Leftovers::dummy(&p1)).unwrap(); let (q, o1b) = Proof::new::<_, Basic>(&p1, &Inp { vals: vec![true] }, &o1).unwrap();
    let (_, _, d, _) = q.verify::<_, Basic>(&o1, &p1, &Inp { vals: vec![true] }, &[Field::one()], None).unwrap();
    let h = Step::<E1, E2> { base: false, p, old, o2: o1b.clone(), d, pay, npay: vec![1, 7, 0xa0, 0xff], forks, lo: o1b, ln, nd, inputs: None, noproof: false };
    let mut cases: Vec<(String, Step<E1, E2>, bool)> = vec![("honest step".into(), clone(&h), true)];
    macro_rules! c { ($n:expr, $s:ident, $b:expr) => { { let mut $s = clone(&h); $b; cases.push(($n, $s, false)); } } }
    for (n, f) in proof_tampers::<E2>(k, 5) { if n.starts_with("round") && !(n.starts_with("round 0") || n.ends_with("[4]")) || ["rx_opening", "rxy_opening", "sx_cur_opening", "tx_positive_opening", "tx_negative_opening"].contains(&&n[..]) { continue } /* those openings are read from the new deferred record */ c!(format!("proof {}", n), s, f(&mut s.p)) }
    for (n, f) in left_tampers::<E2>(k) { c!(format!("old leftovers {}", n), s, f(&mut s.old)); c!(format!("new leftovers {}", n), s, f(&mut s.ln)) }
    for (n, f) in def_tampers::<E1::Scalar>(k) { c!(format!("previous deferred {}", n), s, f(&mut s.d)) }
    // what the circuit binds of the new deferred record: everything
    for (n, f) in def_tampers::<E2::Scalar>(k) { c!(format!("new deferred {}", n), s, f(&mut s.nd)) }
    for i in 0..((1 << k) - 2).min(30) { c!(format!("previous payload bit {}", i), s, s.pay[i / 8] ^= 1 << (i % 8)) }
    c!("new payload against the inner circuit".into(), s, s.npay[0] ^= 1);
    // public inputs other than the ones assigned
    let inp = publics(&h); let n = inp.len();
    for i in vec![0usize, 1, 31, 32, 40, n / 3, n / 2, n - 1] { let mut v = inp.clone(); v[i] = E1::Scalar::one() - &v[i]; c!(format!("public input {} flipped", i), s, s.inputs = Some(v)); let mut w = inp.clone(); w[i] = E1::Scalar::from_u64(2); c!(format!("public input {} not a bit", i), s, s.inputs = Some(w)) }
    // other relations
    { let mut s = clone(&h); s.npay = vec![3, 0, 0, 0]; cases.push(("another new payload the inner circuit admits".into(), s, true)); }
    { let mut s = clone(&h); s.lo = Leftovers::dummy(&p1); cases.push(("other leftovers passed on".into(), s, true)); }
    // base case
    let base: Vec<u8> = vec![0x92, 0x24, 0x49, 0x92];
    let mut b = clone(&h); b.base = true; b.noproof = true; b.nd = Deferred::dummy(k); b.ln = Leftovers::dummy(&p2); b.lo = Leftovers::dummy(&p1); b.forks = vec![0; k]; cases.push(("base case".into(), clone(&b), true));
    { let mut s = clone(&b); s.npay[0] ^= 1; cases.push(("base case: new payload against the inner circuit".into(), s, false)); }
    { let mut s = clone(&b); s.noproof = false; s.pay = base.clone(); cases.push(("base case with the base payload given".into(), s, true)); }
    for i in vec![1usize, 2, 7, 8, 15, 30, 31] { let mut s = clone(&b); s.noproof = false; s.pay = base.clone(); s.pay[i / 8] ^= 1 << (i % 8); cases.push((format!("base case with bit {} of the base payload changed", i), s, false)); }
    { let mut s = clone(&b); s.noproof = false; s.pay = base.clone(); s.d.ky_opening = s.d.ky_opening + E1::Scalar::one(); cases.push(("base case with wrong previous deferred".into(), s, false)); }
    { let mut s = clone(&b); s.base = false; cases.push(("no base case without a previous proof".into(), s, false)); }
    { let mut s = clone(&h); s.base = true; cases.push(("base case claimed for another payload".into(), s, false)); }
    if sel == "names" { return cases.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join("|") }
    let (a, m) = { let v: Vec<usize> = sel.split('/').map(|x| x.parse().unwrap()).collect(); (v[0], v[1]) };
    let mut out = vec![];
    for (i, (n, s, want)) in cases.iter().enumerate() { if i % m != a { continue }
        let r = check::<E1, E2>(&p2, s);
        if (r == "sat") != *want { out.push(format!("{}: {}", n, r)) } }
    if out.is_empty() { "ok".into() } else { out.join(" | ") }
}
pub fn dispatch(w: &[&str]) -> String { let k = w[1].parse().unwrap(); match w[0] { "rEc1" => go::<Ec1, Ec0>(k, w[2]), _ => go::<Ec0, Ec1>(k, w[2]) } }
