//! Circuits given as programs (lists of ConstraintSystem calls), run through the real synthesizer and checkers.
use crate::{fs, hx, Fx};
use halo::*;
use std::cell::Cell;
#[derive(Clone)]
pub enum Ins<F: Field> { A(F), I(F), M(F, F, F), L(Vec<(Coeff<F>, usize)>), N, D }
impl<F> Ins<F> where F: Fx {
    fn parse(s: &str) -> Ins<F> {
        let (k, r) = s.split_at(1);
        let v: Vec<&str> = r.split(',').collect();
        match k {
            "a" => Ins::A(F::raw(hx(v[0]))), "i" => Ins::I(F::raw(hx(v[0]))), "m" => Ins::M(F::raw(hx(v[0])), F::raw(hx(v[1])), F::raw(hx(v[2]))),
            "l" => Ins::L(v.iter().filter(|x| !x.is_empty()).map(|t| { let (c, x) = t.split_at(t.find('*').unwrap()); let x = x[1..].parse().unwrap();
                (match c { "0" => Coeff::Zero, "1" => Coeff::One, "-" => Coeff::NegativeOne, _ => Coeff::Full(F::raw(hx(&c[1..]))) }, x) }).collect()),
            "n" => Ins::N, _ => Ins::D,
        }
    }
}
pub struct Prog<F: Fx> { pub runs: Vec<Vec<Ins<F>>>, pub n: Cell<usize>, pub wit: bool }
impl<F: Fx> Prog<F> {
    pub fn parse(s: &str, wit: bool) -> Self { Prog { runs: s.split('|').map(|r| r.split(';').filter(|x| !x.is_empty()).map(Ins::parse).collect()).collect(), n: Cell::new(0), wit } }
    fn go<CS: ConstraintSystem<F>>(&self, cs: &mut CS, ins: &[Ins<F>], vars: &mut Vec<Variable>) -> Result<usize, SynthesisError> {
        let mut p = 0; let mut k = 0;
        let v = |x: F| if self.wit { Ok(x) } else { Err(SynthesisError::AssignmentMissing) };
        while p < ins.len() {
            k += 1;
            let tag = format!("x{}", k);
            match &ins[p] {
                Ins::A(x) => vars.push(cs.alloc(|| tag, || v(*x))?),
                Ins::I(x) => vars.push(cs.alloc_input(|| tag, || v(*x))?),
                Ins::M(a, b, c) => { let (x, y, z) = cs.multiply(|| tag, || if self.wit { Ok((*a, *b, *c)) } else { Err(SynthesisError::AssignmentMissing) })?; vars.push(x); vars.push(y); vars.push(z) }
                Ins::L(t) => { let mut lc = LinearCombination::zero(); for (c, x) in t { lc = lc + (*c, vars[*x]); } cs.enforce_zero(lc) }
                Ins::N => { let mut d = 1; let mut e = p + 1; while e < ins.len() { match ins[e] { Ins::N => d += 1, Ins::D => d -= 1, _ => {} } if d == 0 { break } e += 1 }
                    let mut ns = cs.namespace(|| tag); self.go(&mut ns, &ins[p + 1..e], vars)?; p = e; }
                Ins::D => {}
            }
            p += 1;
        }
        Ok(p)
    }
}
impl<F: Fx> Circuit<F> for Prog<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let i = self.n.get(); self.n.set(i + 1);
        let mut vars = vec![CS::ONE];
        self.go(cs, &self.runs[i.min(self.runs.len() - 1)], &mut vars).map(|_| ())
    }
}
/// records the backend calls
pub struct Rec<F> { pub log: Vec<String>, pub val: std::collections::BTreeMap<(u8, usize), F>, pub rows: usize }
fn w(v: Variable) -> (u8, usize) { match v { Variable::A(i) => (b'A', i), Variable::B(i) => (b'B', i), Variable::C(i) => (b'C', i) } }
impl<'a, F: Fx> Backend<F> for &'a mut Rec<F> {
    type LinearConstraintIndex = usize;
    fn get_var(&self, v: Variable) -> Option<F> { self.val.get(&w(v)).cloned() }
    fn set_var<V, A, AR>(&mut self, _: Option<A>, v: Variable, val: V) -> Result<(), SynthesisError> where V: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        if let Ok(x) = val() { self.val.insert(w(v), x); }
        Ok(())
    }
    fn new_multiplication_gate<A, AR>(&mut self, _: Option<A>) where A: FnOnce() -> AR, AR: Into<String> { self.log.push("g".into()) }
    fn new_linear_constraint<A, AR>(&mut self, _: A) -> usize where A: FnOnce() -> AR, AR: Into<String> { self.rows += 1; self.log.push("r".into()); self.rows }
    fn insert_coefficient(&mut self, v: Variable, c: Coeff<F>, y: &usize) { let (k, i) = w(v); self.log.push(format!("c{},{}{},{}", y, k as char, i, fs(&c.value()))) }
    fn get_for_q(&self, q: usize) -> usize { q }
    fn new_k_power(&mut self, i: usize, v: Option<F>) -> Result<(), SynthesisError> { self.log.push(format!("k{},{}", i, v.map(|x| fs(&x)).unwrap_or("?".into()))); Ok(()) }
}
fn go<F: Fx>(a: &[&str]) -> String {
    match a[0] {
        "log" => { let p = Prog::<F>::parse(a[2], a[1] == "1"); let mut r = Rec { log: vec![], val: Default::default(), rows: 0 };
            let e = Basic::synthesize(&mut r, &p);
            let vs: Vec<String> = r.val.iter().map(|((k, i), x)| format!("v{}{},{}", *k as char, i, fs(x))).collect();
            format!("{} {} {}", if e.is_ok() { "ok" } else { "err" }, r.log.join(" "), vs.join(" ")) }
        "sat" => { let p = Prog::<F>::parse(a[1], true); let i: Vec<F> = a.get(2).map(|s| s.split(',').map(|x| F::raw(hx(x))).collect()).unwrap_or_default();
            match dev::is_satisfied::<F, _, Basic>(&p, &i) { Ok(b) => format!("ok {}", b), Err(dev::SatisfactionError::InputLength(a, b)) => format!("len {} {}", a, b), Err(dev::SatisfactionError::Multiplication(..)) => "mult".into(), Err(dev::SatisfactionError::Linear(..)) => "lin".into(), Err(_) => "synth".into() } }
        "count" => { let p = Prog::<F>::parse(a[2], a[1] == "1"); match dev::constraint_count::<F, _, Basic>(&p) { Err(_) => "err".into(), Ok(m) => {
            m.get("").map(|c| format!("{} {} {} {}", c.0.allocations, c.0.mult_constraints, c.0.total_mults, c.0.total_lcs)).unwrap_or("none".into()) } } }
        "det" => { let p = Prog::<F>::parse(a[1], true); format!("{}", dev::determinism_check::<F, _>(&p).is_ok()) }
        _ => "?".into(),
    }
}
pub fn dispatch(w: &[&str]) -> String { match w[0] { "cFp" => go::<Fp>(&w[1..]), "cFq" => go::<Fq>(&w[1..]), _ => "?".into() } }
