//! P21: relational contract between two builds.  With the crate's `rayon` feature (`kp_*`, rows in the order the
//! contract of `for_each` leaves open, taken as the reverse of the sequential one) every call leaves exactly the
//! buffers the sequential build (`k_*`) leaves, padding and rows beyond the image included.
use crate::decide::*;
use crate::exec::*;
use crate::native::*;
use crate::p18::run1;
use crate::run::*;
use crate::spec::*;
use crate::term::*;

pub fn applies(f: &Fun) -> bool { !matches!(f.fam, Fam::Rotate { .. } | Fam::Mirror { .. }) }
pub fn pair(ex: &mut Ex, f: &Fun, c: &Case, cache: &Cache, effort: u32) -> Res {
    let mut r = Res::default(); if ex.st.n.len() > 1_500_000 { ex.reset_store() } else { ex.reset() }
    ex.set_detect(ISAS[c.isa].bits);
    let a = run1(ex, "k_", f, c); ex.reset(); ex.set_detect(ISAS[c.isa].bits); let b = run1(ex, "kp_", f, c); r.steps = ex.steps;
    let obl = |k: &str| format!("{}/{}/{}", f.name, ISAS[c.isa].name, k);
    let ((pl, seq), (_, par)) = match (a, b) { (Ok(a), Ok(b)) => (a, b),
        (Err(e), Err(g)) if e == g && (e == "rejected" || e == "panics") => { r.obls = 1; return r }
        (Err(e), Err(_)) => { r.unsupported = Some(e); return r }
        (a, b) => { let e = a.err().or(b.err()).unwrap();
            if e == "rejected" || e == "panics" || e.starts_with("memory") { r.obls = 1; r.fails.push(Fail { obl: obl("call.order"), kind: "value", detail: format!("one of the two builds: {}", e), cex: Some(vec![]), plane: 0, idx: 0, x: 0, y: 0 }) } else { r.unsupported = Some(e) } return r } };
    for (pi, q) in pl.iter().enumerate() { if !q.write { continue }
        for i in 0..q.len { let (y, x) = (i / q.stride, i % q.stride);
            r.obls += 1; let l = seq[pi][i]; let t = par[pi][i];
            if t == l { *r.how.entry("syntactic").or_default() += 1; continue }
            let name = obl(&format!("{}.order", q.field)); let at = |k: &str| format!("{} element ({},{}): {}", q.field, x, y, k);
            let k = h128(&key(&ex.st, t, &Exp::Exact(l), 0.)); let hit = cache.lock().unwrap().get(&k).cloned();
            let v = match hit { Some((v, _)) if !matches!(v, Verdict::Cex { .. }) => v, _ => { let v = decide(&mut ex.st, t, &Exp::Exact(l), 0., 0x21 ^ i as u64, effort); cache.lock().unwrap().insert(k, (v.clone(), 0)); v } };
            match v {
                Verdict::Ok { how, .. } => *r.how.entry(how).or_default() += 1,
                Verdict::Cex { vals, got, want } => { let (mut vs, _) = vars_of(&ex.st, t); for v in vars_of(&ex.st, l).0 { if !vs.contains(&v) { vs.push(v) } }
                    let cex = vs.iter().zip(&vals).map(|(&v, &x)| { let q = ex.st.node(v); (q.a, q.k, x) }).collect(); r.fails.push(Fail { obl: name, kind: "value", detail: at(&format!("{} with the rows in reverse order, {} in sequence", got, want.0)), cex: Some(cex), plane: pi, idx: i, x, y }) }
                Verdict::Open { why, .. } => r.open.push(Fail { obl: name, kind: "open", detail: at(why), cex: None, plane: pi, idx: i, x, y }),
                Verdict::Undef => r.fails.push(Fail { obl: name, kind: "value", detail: at("depends on uninitialised memory"), cex: Some(vec![]), plane: pi, idx: i, x, y }) }
            if r.fails.len() > 20 { return r } } }
    r
}
/// both builds on the compiled libraries, on the same samples
pub fn native_pair(nat: &mut Native, st: &mut Store, f: &Fun, c: &Case, env: &dyn Fn(u32, u64, u8) -> u64) -> Option<String> {
    let mut go = |pre: &str| { let pl = layout(f, &c.p, c.w, c.h, c.pad, c.lay); let b = buffers(st, f, c, &pl, env); let (_, d, ws) = a_bytes(f, c, &pl); (nat.run(&format!("{}{}", pre, f.name), ISAS[c.isa].bits, &b, d, ws), pl) };
    let ((rb, pl), (rl, _)) = (go("kp_"), go("k_"));
    match (rb, rl) { (NRes::Ret(0, b), NRes::Ret(0, l)) => { for (pi, q) in pl.iter().enumerate() { if !q.write { continue } for i in 0..q.len { let (y, x) = (i / q.stride, i % q.stride); let o = i * q.eb;
            if b[pi][o..o + q.eb] != l[pi][o..o + q.eb] { return Some(format!("{} element ({},{}): {:?} with the rows in reverse order, {:?} in sequence (bytes, little end first)", q.field, x, y, &b[pi][o..o + q.eb], &l[pi][o..o + q.eb])) } } } None }
        (NRes::Ret(k, _), NRes::Ret(j, _)) => if k != j { Some("only one of the two builds succeeds".into()) } else { None }, (NRes::Crash, NRes::Crash) => None, _ => Some("one of the two builds crashes".into()) }
}
