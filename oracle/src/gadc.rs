//! Gadgets on a recording constraint system; prints the recorded system, the outputs and the reported values.
use crate::{bytes, fs, hx, pt, Fx};
use halo::*;
pub struct Rec<F: Field> { v: Vec<F>, given: usize, kinds: Vec<u8>, gates: Vec<(usize, usize, usize)>, lcs: Vec<Vec<(F, usize)>> }
fn ix(v: Variable) -> usize { match v { Variable::A(i) | Variable::B(i) | Variable::C(i) => i } }
impl<F: Fx> Rec<F> {
    fn new() -> Self { Rec { v: vec![F::one()], given: 0, kinds: vec![b'g'], gates: vec![], lcs: vec![] } }
    fn push(&mut self, x: F) -> usize { self.v.push(x); self.kinds.push(b'w'); self.v.len() - 1 }
    fn ev(&self, l: &[(F, usize)]) -> F { let mut s = F::zero(); for (c, i) in l { s += *c * self.v[*i]; } s }
    fn sat(&self) -> bool { self.gates.iter().all(|&(a, b, c)| self.v[a] * self.v[b] == self.v[c]) && self.lcs.iter().all(|l| self.ev(l) == F::zero()) }
    fn lc(&self, l: &LinearCombination<F>) -> Vec<(F, usize)> { l.as_ref().iter().map(|(v, c)| (c.value(), ix(*v))).collect() }
    /// variables allocated so far are inputs
    fn inputs(&mut self) { for k in self.kinds.iter_mut() { *k = b'g'; } self.given = self.v.len(); self.gates.clear(); self.lcs.clear(); }
}
impl<FF: Fx> ConstraintSystem<FF> for Rec<FF> {
    type Root = Self;
    const ONE: Variable = Variable::A(0);
    fn alloc<F, A, AR>(&mut self, _: A, value: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<FF, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { let x = value()?; Ok(Variable::A(self.push(x))) }
    fn alloc_input<F, A, AR>(&mut self, _: A, value: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<FF, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { let x = value()?; let i = self.push(x); self.kinds[i] = b'g'; Ok(Variable::A(i)) }
    fn enforce_zero(&mut self, lc: LinearCombination<FF>) { let l = self.lc(&lc); self.lcs.push(l) }
    fn multiply<F, A, AR>(&mut self, _: A, values: F) -> Result<(Variable, Variable, Variable), SynthesisError> where F: FnOnce() -> Result<(FF, FF, FF), SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { let (a, b, c) = values()?; let (i, j, k) = (self.push(a), self.push(b), self.push(c)); self.gates.push((i, j, k)); Ok((Variable::A(i), Variable::A(j), Variable::A(k))) }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self, _: Option<String>) {}
    fn get_root(&mut self) -> &mut Self::Root { self }
}
type Out<F> = (Vec<(F, usize)>, Option<F>);
fn dump<F: Fx>(r: &Rec<F>, outs: Vec<Out<F>>, full: bool) -> String {
    let t = |l: &[(F, usize)]| l.iter().map(|(c, i)| format!("{}*{}", fs(c), i)).collect::<Vec<_>>().join("+");
    let o = outs.iter().map(|(l, v)| format!("{}:{}:{}", fs(&r.ev(l)), v.map(|x| fs(&x)).unwrap_or("-".into()), if full { t(l) } else { String::new() })).collect::<Vec<_>>().join(";");
    if !full { return format!("{} | {}", r.sat() as u8, o); }
    format!("{} | {} | {} | {} | {} | {}", r.sat() as u8, o, r.v.iter().map(fs).collect::<Vec<_>>().join(","), String::from_utf8(r.kinds.clone()).unwrap(),
        r.gates.iter().map(|(a, b, c)| format!("{},{},{}", a, b, c)).collect::<Vec<_>>().join(";"), r.lcs.iter().map(|l| t(l)).collect::<Vec<_>>().join(";"))
}
fn on<F: Fx>(r: &mut Rec<F>, n: Num<F>) -> Out<F> { let l = n.lc(&mut *r); (r.lc(&l), n.value()) }
fn oa<F: Fx>(r: &Rec<F>, n: &AllocatedNum<F>) -> Out<F> { (r.lc(&n.lc()), n.get_value()) }
fn ob<F: Fx>(r: &Rec<F>, b: &Boolean) -> Out<F> { (r.lc(&b.lc(Variable::A(0), Coeff::One)), b.get_value().map(|x| F::fbool(x))) }
fn bit<F: Fx>(r: &mut Rec<F>, v: bool) -> AllocatedBit { AllocatedBit::alloc(r, || Ok(v)).unwrap() }
fn boolean<F: Fx>(r: &mut Rec<F>, s: &str) -> Boolean {
    let v = &s[1..] == "1";
    match &s[..1] { "i" => Boolean::from(bit(r, v)), "n" => Boolean::from(bit(r, !v)).not(), _ => Boolean::constant(v) }
}
fn coeff<F: Fx>(s: &str) -> Coeff<F> { match s { "0" => Coeff::Zero, "1" => Coeff::One, "-" => Coeff::NegativeOne, _ => Coeff::Full(F::raw(hx(s))) } }
fn an<F: Fx>(r: &mut Rec<F>, s: &str) -> AllocatedNum<F> { let x = F::raw(hx(s)); AllocatedNum::alloc(r, || Ok(x)).unwrap() }
// a<coeff>,<value> | c<value>
fn num<F: Fx>(r: &mut Rec<F>, s: &str) -> Num<F> {
    if s.starts_with('c') { return Num::constant(F::raw(hx(&s[1..]))); }
    let p: Vec<&str> = s[1..].split(',').collect(); let a = an(r, p[1]); Num::from((coeff(p[0]), a))
}
fn comb<F: Fx>(r: &mut Rec<F>, s: &str) -> Combination<F> { let mut c = Combination::zero(); for t in s.split('/').filter(|x| !x.is_empty()) { let n = num(r, t); c = c + n; } c }
type R<T> = Result<T, SynthesisError>;
pub fn gadget<F: Fx>(op: &str, a: &[&str]) -> String {
    let mut r = Rec::<F>::new();
    match go(&mut r, op, a) { Err(e) => format!("error {:?}", e), Ok((o, full)) => dump(&r, o, full) }
}
fn go<F: Fx>(r: &mut Rec<F>, op: &str, a: &[&str]) -> R<(Vec<Out<F>>, bool)> {
    Ok((match op {
        "xor" | "and" | "andnot" | "nor" => {
            let x = bit(r, a[0] == "1"); let y = bit(r, a[1] == "1"); r.inputs();
            let z = match op { "xor" => AllocatedBit::xor(&mut *r, &x, &y)?, "and" => AllocatedBit::and(&mut *r, &x, &y)?, "andnot" => AllocatedBit::and_not(&mut *r, &x, &y)?, _ => AllocatedBit::nor(&mut *r, &x, &y)? };
            vec![ob(r, &Boolean::from(z))] }
        "bit" => { let z = bit(r, a[0] == "1"); vec![ob(r, &Boolean::from(z))] }
        "bxor" | "band" | "ch" | "maj" | "eq" => {
            let b: Vec<Boolean> = a.iter().map(|s| boolean(r, s)).collect(); r.inputs();
            let z = match op { "bxor" => Boolean::xor(&mut *r, &b[0], &b[1])?, "band" => Boolean::and(&mut *r, &b[0], &b[1])?, "ch" => Boolean::sha256_ch(&mut *r, &b[0], &b[1], &b[2])?, "maj" => Boolean::sha256_maj(&mut *r, &b[0], &b[1], &b[2])?,
                _ => { Boolean::enforce_equal(&mut *r, &b[0], &b[1])?; return Ok((vec![], true)); } };
            vec![ob(r, &z)] }
        "unpack" => { let n = num(r, a[0]); r.inputs(); let b = unpack_fe(&mut *r, &n)?; b.into_iter().map(|x| ob(r, &Boolean::from(x))).collect() }
        "sha" => {
            let mut b = vec![]; for (i, x) in bytes(a[1]).into_iter().enumerate() { for j in (0..8).rev() { let k = a[0].as_bytes()[(8 * i + 7 - j) % a[0].len()]; b.push(boolean(r, &format!("{}{}", k as char, x >> j & 1))); } }
            r.inputs(); let o = sha256::sha256(&mut *r, &b)?; return Ok((o.iter().map(|x| ob(r, x)).collect(), false)); }
        "mul" => { let x = an(r, a[0]); let y = an(r, a[1]); r.inputs(); let z = x.mul(&mut *r, &y)?; vec![oa(r, &z)] }
        "ansq" => { let x = F::raw(hx(a[0])); let (p, q) = AllocatedNum::alloc_and_square(&mut *r, || Ok(x))?; r.kinds[ix(p.get_variable())] = b'g'; vec![oa(r, &p), oa(r, &q)] }
        "inv" => { let x = an(r, a[0]); r.inputs(); let z = x.invert(&mut *r)?; vec![oa(r, &z)] }
        "sqrt" => { let x = an(r, a[0]); r.inputs(); let z = x.sqrt(&mut *r)?; vec![oa(r, &z)] }
        "inputize" => { let x = an(r, a[0]); r.inputs(); let z = x.inputize(&mut *r)?; vec![oa(r, &z)] }
        "eval" | "csq" | "alpha" | "ialpha" | "cmul" | "cadd" | "cscale" | "csub" => {
            let x = comb(r, a[0]); 
            match op {
                "eval" => { r.inputs(); let z = x.evaluate(&mut *r)?; vec![on(r, z)] }
                "csq" => { r.inputs(); let z = x.square(&mut *r)?; vec![oa(r, &z)] }
                "alpha" => { r.inputs(); let z = x.rescue_alpha(&mut *r)?; vec![on(r, z)] }
                "ialpha" => { r.inputs(); let z = x.rescue_invalpha(&mut *r)?; vec![on(r, z)] }
                "cmul" => { let y = comb(r, a[1]); r.inputs(); let z = x.mul(&mut *r, &y)?; vec![oa(r, &z)] }
                "cadd" => { let y = comb(r, a[1]); r.inputs(); let z = x + y; let l = z.lc(&mut *r); vec![(r.lc(&l), z.get_value())] }
                "csub" => { let y = an(r, a[1]); r.inputs(); let z = x - y; let l = z.lc(&mut *r); vec![(r.lc(&l), z.get_value())] }
                _ => { let k = F::raw(hx(a[1])); r.inputs(); let z = x.scale(k); let l = z.lc(&mut *r); vec![(r.lc(&l), z.get_value())] }
            } }
        "res" => {
            let ns: Vec<Num<F>> = a[1..].iter().map(|s| num(r, s)).collect(); r.inputs(); let mut g = RescueGadget::new(&mut *r)?; let mut n = 0; let mut o = vec![];
            for c in a[0].chars() { if c == 'a' { g.absorb(&mut *r, ns[n])?; n += 1; } else { let z = g.squeeze(&mut *r)?; o.push(oa(r, &z)); } }
            o }
        _ => return Ok((vec![(vec![], None)], true)),
    }, true))
}
/// p: a point allocated by its coordinates; op on points, bits given as text
pub fn ecc<C: Curve>(op: &str, a: &[&str]) -> String where C::Base: Fx, C::Scalar: Fx {
    let mut r = Rec::<C::Base>::new();
    match goe::<C>(&mut r, op, a) { Err(e) => format!("error {:?}", e), Ok((o, full)) => dump(&r, o, full) }
}
fn point<C: Curve>(r: &mut Rec<C::Base>, s: &str) -> CurvePoint<C> where C::Base: Fx, C::Scalar: Fx {
    if s == "Z" { return CurvePoint::identity(); }
    if s.starts_with('c') { let p: C = pt(&s[1..]); let (x, y) = p.get_xy().unwrap(); return CurvePoint::constant(x, y); }
    let p: C = pt(s); CurvePoint::witness(r, || Ok(p)).unwrap()
}
fn goe<C: Curve>(r: &mut Rec<C::Base>, op: &str, a: &[&str]) -> R<(Vec<Out<C::Base>>, bool)> where C::Base: Fx, C::Scalar: Fx {
    let p = point::<C>(r, a[0]); let mut full = true;
    let z = match op {
        "witness" => p,
        "double" => { r.inputs(); p.double(&mut *r)? }
        "endo" | "neg" => { let b = boolean(r, a[1]); r.inputs(); if op == "endo" { p.conditional_endo(&mut *r, &b)? } else { p.conditional_neg(&mut *r, &b)? } }
        "add" | "addi" | "dai" => { let q = point::<C>(r, a[1]); r.inputs(); match op { "add" => p.add(&mut *r, &q)?, "addi" => p.add_incomplete(&mut *r, &q)?, _ => p.double_and_add_incomplete(&mut *r, &q)? } }
        "addc" | "addci" => { let q = point::<C>(r, a[1]); let b = boolean(r, a[2]); r.inputs(); if op == "addc" { p.add_conditionally(&mut *r, &q, &b)? } else { p.add_conditionally_incomplete(&mut *r, &q, &b)? } }
        _ => { let b: Vec<AllocatedBit> = a[1].chars().map(|c| bit(r, c == '1')).collect(); r.inputs(); full = b.len() <= 4;
            match op { "multiply" => p.multiply(&mut *r, &b)?, "multiply_endo" => p.multiply_endo(&mut *r, &b)?, "multiply_inv_endo" => p.multiply_inv_endo(&mut *r, &b)?, "multiply_fast" => p.multiply_fast(&mut *r, &b)?, "multiply_inv" => p.multiply_inv(&mut *r, &b)?, _ => p.multiply_inv_fast(&mut *r, &b)? } }
    };
    let (x, y) = z.get_xy(); Ok((vec![on(r, x), on(r, y)], full))
}
