//! The protocol on programs: honest runs and every single-component change.
use crate::circ::Prog;
use crate::{fs, hx, Fx};
use halo::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }
pub type Tam<T> = Vec<(String, Box<dyn Fn(&mut T)>)>;
pub fn proof_tampers<C: Curve + 'static>(k: usize, claims: usize) -> Tam<Proof<C>> {
    let mut v: Tam<Proof<C>> = vec![];
    macro_rules! p { ($f:ident) => { v.push((stringify!($f).to_string(), Box::new(|x: &mut Proof<C>| x.$f = x.$f + C::one()))) } }
    macro_rules! s { ($f:ident) => { v.push((stringify!($f).to_string(), Box::new(|x: &mut Proof<C>| x.$f = x.$f + C::Scalar::one()))) } }
    p!(r_commitment); p!(s_cur_commitment); p!(t_positive_commitment); p!(t_negative_commitment); p!(c_commitment); p!(s_new_commitment);
    s!(rx_opening); s!(rxy_opening); s!(sx_old_opening); s!(sx_cur_opening); s!(tx_positive_opening); s!(tx_negative_opening); s!(sx_new_opening);
    v.push(("inner g".into(), Box::new(|x: &mut Proof<C>| x.inner_product.g = x.inner_product.g + C::one())));
    for j in 0..claims {
        v.push((format!("inner a[{}]", j), Box::new(move |x: &mut Proof<C>| x.inner_product.a[j] = x.inner_product.a[j] + C::Scalar::one())));
        for i in 0..k {
            v.push((format!("round {} L[{}]", i, j), Box::new(move |x: &mut Proof<C>| x.inner_product.rounds[i].L[j] = x.inner_product.rounds[i].L[j] + C::one())));
            v.push((format!("round {} R[{}]", i, j), Box::new(move |x: &mut Proof<C>| x.inner_product.rounds[i].R[j] = x.inner_product.rounds[i].R[j] + C::one())));
            v.push((format!("round {} l[{}]", i, j), Box::new(move |x: &mut Proof<C>| x.inner_product.rounds[i].l[j] = x.inner_product.rounds[i].l[j] + C::Scalar::one())));
            v.push((format!("round {} r[{}]", i, j), Box::new(move |x: &mut Proof<C>| x.inner_product.rounds[i].r[j] = x.inner_product.rounds[i].r[j] + C::Scalar::one())));
        }
    }
    v
}
pub fn left_tampers<C: Curve + 'static>(k: usize) -> Tam<Leftovers<C>> {
    let mut v: Tam<Leftovers<C>> = vec![
        ("s_new_commitment".into(), Box::new(|x: &mut Leftovers<C>| x.s_new_commitment = x.s_new_commitment + C::one())),
        ("y_new".into(), Box::new(|x: &mut Leftovers<C>| x.y_new = x.y_new + C::Scalar::one())),
        ("g_new".into(), Box::new(|x: &mut Leftovers<C>| x.g_new = x.g_new + C::one())),
    ];
    for i in 0..k { v.push((format!("challenge {}", i), Box::new(move |x: &mut Leftovers<C>| x.challenges_sq_packed_new[i] = other(x.challenges_sq_packed_new[i])))); }
    v
}
/// another packed challenge (its two lowest bits carry no meaning) whose scalar has a square root
pub fn other<F: Field>(c: F) -> F { let mut x = c; let four = F::from_u64(4); for _ in 0..64 { x = x + four; let s: F = get_challenge_scalar(x); if bool::from(s.sqrt().is_some()) { return x } } x }
pub fn def_tampers<F: Field + 'static>(k: usize) -> Tam<Deferred<F>> {
    let mut v: Tam<Deferred<F>> = vec![];
    macro_rules! s { ($($f:ident)*) => { $( v.push((stringify!($f).to_string(), Box::new(|x: &mut Deferred<F>| x.$f = x.$f + F::one()))); )* } }
    s!(x y_old y_cur y_new ky_opening tx_positive_opening tx_negative_opening sx_cur_opening rx_opening rxy_opening gx_old_opening b_x b_xy b_y_old b_y_cur b_y_new);
    for i in 0..k {
        v.push((format!("challenges_old {}", i), Box::new(move |x: &mut Deferred<F>| x.challenges_sq_packed_old[i] = other(x.challenges_sq_packed_old[i]))));
        v.push((format!("challenges_new {}", i), Box::new(move |x: &mut Deferred<F>| x.challenges_sq_packed_new[i] = other(x.challenges_sq_packed_new[i]))));
    }
    v
}
/// bytes where two encodings differ
fn diff(a: &[u8], b: &[u8]) -> Option<std::collections::BTreeSet<usize>> { if a.len() != b.len() { return None } Some((0..a.len()).filter(|i| a[*i] != b[*i]).collect()) }
fn go<C: Curve + 'static>(a: &[&str]) -> String where C::Scalar: Fx + 'static {
    let k: usize = a[1].parse().unwrap();
    let params = Params::<C>::new(k);
    match a[0] {
        "sxy" => { let (x, y) = (<C::Scalar as Fx>::raw(hx(a[2])), <C::Scalar as Fx>::raw(hx(a[3]))); let p = Prog::<C::Scalar>::parse(a[4], false);
            let q: usize = a[5].parse().unwrap();
            let sx = params.compute_sx::<_, Basic>(&p, y).unwrap(); let sy = params.compute_sy::<_, Basic>(&p, x, params.n, q).unwrap();
            format!("{} | {}", sx.iter().map(fs).collect::<Vec<_>>().join(","), sy.iter().map(fs).collect::<Vec<_>>().join(",")) }
        "prove" => {
            let text = a[2]; let wc = Prog::<C::Scalar>::parse(text, true); let vc = Prog::<C::Scalar>::parse(text, false);
            let inputs: Vec<C::Scalar> = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| <C::Scalar as Fx>::raw(hx(x))).collect()).unwrap_or_default();
            let mut old = Leftovers::dummy(&params);
            if !old.verify::<_, Basic>(&params, &vc).unwrap() { return "dummy leftovers rejected".into() }
            if !Deferred::<C::Scalar>::dummy(k).verify(k) { return "dummy deferred rejected".into() }
            let mut last = None;
            for round in 0..2 {
                let (proof, left) = match quiet(|| Proof::new::<_, Basic>(&params, &wc, &old)) { Some(Ok(x)) => x, _ => return format!("no proof in round {}", round) };
                let (ok, left2, d, _) = match quiet(|| proof.verify::<_, Basic>(&old, &params, &vc, &inputs, None)) { Some(Ok(x)) => x, _ => return format!("verify fails in round {}", round) };
                if !ok { return format!("honest proof rejected in round {}", round) }
                if left != left2 { return "leftovers differ".into() }
                if quiet(|| d.verify(k)) != Some(true) { return format!("honest deferred rejected in round {}", round) }
                if !quiet(|| left2.verify::<_, Basic>(&params, &vc).unwrap()).unwrap_or(false) { return format!("honest leftovers rejected in round {}", round) }
                last = Some((proof, old.clone(), d, left2)); old = left;
            }
            let (proof, old, d, left) = last.unwrap();
            let good = |p: &Proof<C>, o: &Leftovers<C>, i: &[C::Scalar], kc: Option<C>| -> bool { quiet(|| match p.verify::<_, Basic>(o, &params, &vc, i, kc) {
                Ok((true, l, d, _)) => d.verify(k) && l.verify::<_, Basic>(&params, &vc).unwrap(), _ => false }).unwrap_or(false) };
            // the argument is a polynomial identity checked at random challenges: an accidental acceptance has negligible probability
            for (n, f) in proof_tampers::<C>(k, proof.inner_product.a.len()) { let mut p = proof.clone(); f(&mut p); if good(&p, &old, &inputs, None) { return format!("accepted with changed proof {}", n) } }
            for (n, f) in left_tampers::<C>(k) { let mut o = old.clone(); f(&mut o); if good(&proof, &o, &inputs, None) { return format!("accepted with changed old {}", n) } }
            for j in 0..inputs.len() { let mut i = inputs.clone(); i[j] = i[j] + C::Scalar::one(); if good(&proof, &old, &i, None) { return format!("accepted with changed input {}", j) } }
            if good(&proof, &old, &inputs, Some(C::one())) { return "accepted with another input commitment".into() }
            for (n, f) in def_tampers::<C::Scalar>(k) { let mut e = d.clone(); f(&mut e); if quiet(|| e.verify(k)).unwrap_or(false) { return format!("deferred accepted with changed {}", n) } }
            for (n, f) in left_tampers::<C>(k) { let mut e = left.clone(); f(&mut e); if quiet(|| e.verify::<_, Basic>(&params, &vc).unwrap()).unwrap_or(false) { return format!("leftovers accepted with changed {}", n) } }
            "ok".into()
        }
        "enc" => {
            let vc = Prog::<C::Scalar>::parse(";", true); let old = Leftovers::dummy(&params);
            let (proof, left) = Proof::new::<_, Basic>(&params, &vc, &old).unwrap(); let (_, _, d, _) = proof.verify::<_, Basic>(&old, &params, &vc, &[], None).unwrap();
            let mut own: std::collections::BTreeMap<usize, String> = Default::default();
            for (n, f) in def_tampers::<C::Scalar>(k) { let mut e = d.clone(); f(&mut e);
                match diff(&d.to_bytes(), &e.to_bytes()) { None => return "length changes".into(), Some(s) => { if s.is_empty() { return format!("deferred encoding ignores {}", n) } for b in s { if let Some(m) = own.insert(b, n.clone()) { return format!("deferred encoding mixes {} and {}", m, n) } } } } }
            let mut own: std::collections::BTreeMap<usize, String> = Default::default();
            for (n, f) in left_tampers::<C>(k) { let mut e = left.clone(); f(&mut e);
                match diff(&left.to_bytes(), &e.to_bytes()) { None => return "length changes".into(), Some(s) => { if s.is_empty() { return format!("leftovers encoding ignores {}", n) } for b in s { if let Some(m) = own.insert(b, n.clone()) { return format!("leftovers encoding mixes {} and {}", m, n) } } } } }
            let z = Leftovers { s_new_commitment: C::zero(), ..left.clone() }; if z.to_bytes() == left.to_bytes() || z.to_bytes().len() != left.to_bytes().len() { return "identity encoding".into() }
            "ok".into()
        }
        _ => "?".into(),
    }
}
pub fn dispatch(w: &[&str]) -> String { match w[0] { #[cfg(halo_verif)] "rEc0" | "rEc1" => crate::rec::dispatch(w), "pEc0" => go::<Ec0>(&w[1..]), "pEc1" => go::<Ec1>(&w[1..]), _ => crate::circ::dispatch(w) } }
