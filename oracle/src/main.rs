//! Line protocol over the real halo functions.  One request per line, one reply per line.  Only used to look for a
//! concrete failing input once the verifier has rejected (or could not decide) an obligation.
use halo::*;
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

fn hx(s: &str) -> [u64; 4] {
    let t = format!("{:0>64}", s.trim_start_matches("0x"));
    let mut r = [0u64; 4];
    for i in 0..4 { r[3 - i] = u64::from_str_radix(&t[16 * i..16 * i + 16], 16).unwrap(); }
    r
}
fn hb(b: &[u8]) -> String { b.iter().rev().map(|x| format!("{:02x}", x)).collect() }
fn bytes(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn b32(s: &str) -> [u8; 32] { let mut r = [0; 32]; r.copy_from_slice(&bytes(s)); r }
pub trait Fx: Field { fn raw(v: [u64; 4]) -> Self; fn inh(op: &str, a: &[Self]) -> Option<Self>; fn wide(b: &[u8; 64]) -> Self; fn intob(&self) -> [u8; 32]; fn f64_(v: u64) -> Self; fn fbool(v: bool) -> Self; }
macro_rules! fx { ($t:ident) => { impl Fx for $t {
    fn raw(v: [u64; 4]) -> Self { $t::from_raw(v) }
    fn wide(b: &[u8; 64]) -> Self { $t::from_bytes_wide(b) }
    fn intob(&self) -> [u8; 32] { <[u8; 32]>::from(self) }
    fn f64_(v: u64) -> Self { $t::from(v) }
    fn fbool(v: bool) -> Self { $t::from(v) }
    fn inh(op: &str, a: &[Self]) -> Option<Self> { Some(match op {
        "iadd" => $t::add(&a[0], &a[1]), "isub" => $t::sub(&a[0], &a[1]), "imul" => $t::mul(&a[0], &a[1]),
        "ineg" => $t::neg(&a[0]), "idouble" => $t::double(&a[0]), "isquare" => $t::square(&a[0]),
        "izero" => $t::zero(), "ione" => $t::one(), "default" => $t::default(),
        "oneg" => -a[0], "oneg2" => -&a[0], "oadd_rr" => &a[0] + &a[1], "oadd_vv" => a[0] + a[1], "oadd_vr" => a[0] + &a[1], "oadd_rv" => &a[0] + a[1],
        "osub_rr" => &a[0] - &a[1], "osub_vv" => a[0] - a[1], "osub_vr" => a[0] - &a[1], "osub_rv" => &a[0] - a[1],
        "omul_rr" => &a[0] * &a[1], "omul_vv" => a[0] * a[1], "omul_vr" => a[0] * &a[1], "omul_rv" => &a[0] * a[1],
        "add_assign" => { let mut x = a[0]; x += a[1]; x } "add_assign_r" => { let mut x = a[0]; x += &a[1]; x }
        "sub_assign" => { let mut x = a[0]; x -= a[1]; x } "sub_assign_r" => { let mut x = a[0]; x -= &a[1]; x }
        "mul_assign" => { let mut x = a[0]; x *= a[1]; x } "mul_assign_r" => { let mut x = a[0]; x *= &a[1]; x }
        _ => return None }) }
} } }
fx!(Fp); fx!(Fq);
fn fs<F: Fx>(x: &F) -> String { hb(&x.to_bytes()) }
fn ct<F: Fx>(x: CtOption<F>) -> String { if bool::from(x.is_some()) { fs(&x.unwrap()) } else { "none".into() } }
fn field<F: Fx>(op: &str, a: &[&str]) -> String {
    let v = |i: usize| F::raw(hx(a[i]));
    match op {
        "square" => fs(&F::square(&v(0))), "zero" => fs(&<F as Field>::zero()), "one" => fs(&<F as Field>::one()),
        "invert" => ct(v(0).invert()), "sqrt" => ct(v(0).sqrt()),
        "is_zero" => v(0).is_zero().unwrap_u8().to_string(),
        "eq" => format!("{}{}", (v(0) == v(1)) as u8, v(0).ct_eq(&v(1)).unwrap_u8()),
        "select" => fs(&F::conditional_select(&v(0), &v(1), Choice::from(a[2].parse::<u8>().unwrap()))),
        "pow" => fs(&v(0).pow(&hx(a[1]))), "pow_vartime" => fs(&v(0).pow_vartime(&hx(a[1]))),
        "to_bytes" => hb(&v(0).to_bytes()), "intob" => hb(&v(0).intob()), "from_bytes" => ct(F::from_bytes(&b32(a[0]))),
        "wide" => { let mut b = [0; 64]; b.copy_from_slice(&bytes(a[0])); fs(&F::wide(&b)) }
        "from_u64" => fs(&F::from_u64(hx(a[0])[0])), "from64" => fs(&F::f64_(hx(a[0])[0])), "fbool" => fs(&F::fbool(hx(a[0])[0] == 1)),
        "from_u128" => { let h = hx(a[0]); fs(&F::from_u128(h[0] as u128 + ((h[1] as u128) << 64))) }
        "consts" => { let e = F::RESCUE_INVALPHA; let mut b = vec![]; for w in e.iter() { b.extend_from_slice(&w.to_le_bytes()); } format!("{} {} {} {} {} {} {}", F::NUM_BITS, F::CAPACITY, F::S, fs(&F::ALPHA), fs(&F::BETA), F::RESCUE_ALPHA, hb(&b)) }
        "lower128" => format!("{:x}", v(0).get_lower_128()), "raw" => fs(&v(0)),
        "batch" => { let mut x: Vec<F> = (0..a.len()).map(v).collect(); let p = F::batch_invert(&mut x); x.push(p); x.iter().map(fs).collect::<Vec<_>>().join(" ") }
        _ => { let x: Vec<F> = (0..a.len()).map(v).collect(); match F::inh(op, &x) { Some(r) => fs(&r), None => "?".into() } }
    }
}
// points: "inf", "id" (default), "xh,yh" or sums "k*G+xh,yh" written p1+p2+... (projective representations)
fn pt<C: Curve>(s: &str) -> C where C::Base: Fx, C::Scalar: Fx {
    let mut acc: Option<C> = None;
    for t in s.split('+') {
        let p = if t == "inf" { C::zero() } else if t == "id" { C::default() } else if t == "G" { C::one() } else if t.starts_with('g') { C::one() * C::Scalar::raw(hx(&t[1..])) }
            else { let mut i = t.split(','); let x = C::Base::raw(hx(i.next().unwrap())); let y = C::Base::raw(hx(i.next().unwrap())); C::from_xy_unchecked(x, y) };
        acc = Some(match acc { None => p, Some(q) => q + p });
    }
    acc.unwrap()
}
fn ps<C: Curve>(p: &C) -> String where C::Base: Fx, C::Scalar: Fx {
    // canonical form from the projective coordinates (not through get_xy)
    let (x, y, z) = p.get_xyz();
    if bool::from(Field::is_zero(&z)) { return format!("inf:{}:{}", fs(&x), (bool::from(Field::is_zero(&y))) as u8); }
    let zi = z.invert().unwrap();
    format!("{},{}", fs(&(x * zi)), fs(&(y * zi)))
}
fn curve<C: Curve>(op: &str, a: &[&str]) -> String where C::Base: Fx, C::Scalar: Fx {
    let v = |i: usize| pt::<C>(a[i]);
    match op {
        "show" => ps(&v(0)),
        "consts" => { let (x, y, z) = C::zero().get_xyz(); format!("{} {} {} {} {} {}", fs(&C::b()), fs(&C::BETA_SCALAR), fs(&C::BETA_BASE), fs(&x), fs(&y), fs(&z)) }
        "add" => { let mut x = v(0); x += v(1); let mut y = v(0); y += &v(1); [v(0) + v(1), v(0) + &v(1), x, y].iter().map(ps).collect::<Vec<_>>().join(" ") }
        "sub" => { let mut x = v(0); x -= v(1); let mut y = v(0); y -= &v(1); [v(0) - v(1), v(0) - &v(1), x, y].iter().map(ps).collect::<Vec<_>>().join(" ") }
        "double" => ps(&v(0).double()), "neg" => ps(&-v(0)),
        "eq" => format!("{}{}", (v(0) == v(1)) as u8, v(0).ct_eq(&v(1)).unwrap_u8()),
        "is_zero" => v(0).is_zero().unwrap_u8().to_string(), "on_curve" => (v(0).is_on_curve() as u8).to_string(),
        "get_xy" => { let r = v(0).get_xy(); if bool::from(r.is_some()) { let (x, y) = r.unwrap(); format!("{},{}", fs(&x), fs(&y)) } else { "none".into() } }
        "from_xy" => { let r = C::from_xy(C::Base::raw(hx(a[0])), C::Base::raw(hx(a[1]))); if bool::from(r.is_some()) { ps(&r.unwrap()) } else { "none".into() } }
        "mul" => { let s = C::Scalar::raw(hx(a[1])); let mut x = v(0); x *= s; let mut y = v(0); y *= &s; [v(0) * s, v(0) * &s, x, y].iter().map(ps).collect::<Vec<_>>().join(" ") }
        "to_bytes" => a[0..1].iter().map(|_| { let b = v(0).to_bytes(); b.iter().map(|x| format!("{:02x}", x)).collect::<String>() }).collect(),
        "from_bytes" => { let r = C::from_bytes(&b32(a[0])); if bool::from(r.is_some()) { ps(&r.unwrap()) } else { "none".into() } }
        "select" => ps(&C::conditional_select(&v(0), &v(1), Choice::from(a[2].parse::<u8>().unwrap()))),
        "multiexp" => { let n = a.len() / 2; let s: Vec<C::Scalar> = (0..n).map(|i| C::Scalar::raw(hx(a[i]))).collect(); let p: Vec<C> = (n..2 * n).map(v).collect(); ps(&multiexp::<C::Scalar, C>(&s, &p)) }
        "collapse" => { let n = a.len() - 2; let mut p: Vec<C> = (0..n).map(v).collect(); parallel_generator_collapse(&mut p, C::Scalar::raw(hx(a[n])), C::Scalar::raw(hx(a[n + 1]))); p.iter().map(ps).collect::<Vec<_>>().join(" ") }
        _ => "?".into(),
    }
}
fn poly<F: Fx>(op: &str, a: &[&str]) -> String {
    let vs = |s: &str| -> Vec<F> { if s == "-" { vec![] } else { s.split(',').map(|x| F::raw(hx(x))).collect() } };
    let out = |v: Vec<F>| v.iter().map(fs).collect::<Vec<_>>().join(" ");
    match op {
        "polymul" => out(multiply_polynomials(vs(a[0]), vs(a[1]))),
        "inner" => fs(&compute_inner_product(&vs(a[0]), &vs(a[1]))),
        "compute_b" => fs(&compute_b(vs(a[0])[0], &vs(a[1]), &vs(a[2]))),
        "gcoeffs" => out(compute_g_coeffs_for_inner_product(&vs(a[0]), vs(a[1])[0])),
        "sponge" => { let mut r = halo::rescue::Rescue::<F>::new(); let mut o = vec![]; for x in a { if *x == "s" { o.push(r.squeeze()) } else { r.absorb(vs(x)[0]) } } out(o) }
        _ => "?".into(),
    }
}
mod circ;
mod gadc;
mod prot;
#[cfg(halo_verif)]
mod rec;
fn dispatch(l: &str) -> String {
    let w: Vec<&str> = l.split_whitespace().collect();
    match w[0] {
        "Fp" => field::<Fp>(w[1], &w[2..]), "Fq" => field::<Fq>(w[1], &w[2..]),
        "Ec0" => curve::<Ec0>(w[1], &w[2..]), "Ec1" => curve::<Ec1>(w[1], &w[2..]),
        "Pp" => poly::<Fp>(w[1], &w[2..]), "Pq" => poly::<Fq>(w[1], &w[2..]),
        "chal" => { if w[1] == "pq" { fs(&get_challenge_scalar::<Fp, Fq>(Fp::raw(hx(w[2])))) } else if w[1] == "qp" { fs(&get_challenge_scalar::<Fq, Fp>(Fq::raw(hx(w[2])))) } else { "?".into() } }
        "gFp" => gadc::gadget::<Fp>(w[1], &w[2..]), "gFq" => gadc::gadget::<Fq>(w[1], &w[2..]),
        "gEc0" => gadc::ecc::<Ec0>(w[1], &w[2..]), "gEc1" => gadc::ecc::<Ec1>(w[1], &w[2..]),
        _ => prot::dispatch(&w),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let si = io::stdin(); let so = io::stdout(); let mut o = so.lock();
    for l in si.lock().lines() {
        let l = l.unwrap();
        if l.is_empty() { continue; }
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(&l))).unwrap_or_else(|e| format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")));
        writeln!(o, "{}", r).unwrap(); o.flush().unwrap();
    }
}
