//! P18: relational contract.  A big-endian conversion called on byte-swapped samples leaves exactly the
//! values its little-endian counterpart leaves (byte-swapped when the output is YUV), element by element.
use crate::decide::*;
use crate::exec::*;
use crate::native::*;
use crate::run::*;
use crate::spec::*;
use crate::term::*;

pub fn counterpart(n: &str) -> Option<String> { n.contains("_be").then(|| n.replacen("_be", "", 1)) }
fn swap16(st: &mut Store, t: T) -> T { let lo = st.extract(t, 0, 8); let hi = st.extract(t, 8, 8); st.concat(lo, hi) }
pub fn run1(ex: &mut Ex, pre: &str, f: &Fun, c: &Case) -> Result<(Vec<Plane>, Vec<Vec<T>>), String> {
    let fu = ex.prog.func(0, &format!("{}{}", pre, f.name)).ok_or("wrapper missing")?;
    let s = setup(ex, f, c)?;
    match ex.call(&fu, vec![V::P(s.aobj, 0)])? { Out::Ret(V::K(_, 0)) => {} Out::Ret(_) => return Err("rejected".into()), Out::Div => return Err("panics".into()) }
    if ex.viol.iter().any(|v| v.pc.is_empty()) { return Err("memory obligation fails (P13)".into()) }
    let mut o = vec![];
    for (pi, pl) in s.pl.iter().enumerate() { let mut v = vec![]; if pl.write { let cells = ex.obj(s.objs[pi]).unwrap().cells.clone(); for k in 0..pl.len { let b = k * pl.eb; v.push(ex.from_cells(&cells[b..b + pl.eb], pl.eb as u8 * 8)) } } o.push(v) }
    Ok((s.pl, o))
}
/// `f` is the big-endian function, `g` its counterpart
pub fn pair(ex: &mut Ex, f: &Fun, g: &Fun, c: &Case, cg: &Case, cache: &Cache, effort: u32) -> Res {
    let mut r = Res::default(); if ex.st.n.len() > 1_500_000 { ex.reset_store() } else { ex.reset() }
    ex.set_detect(ISAS[c.isa].bits);
    let a = run1(ex, "k_", g, cg); ex.reset(); ex.set_detect(ISAS[c.isa].bits); let b = run1(ex, "k_", f, c); r.steps = ex.steps;
    let obl = |k: &str| format!("{}/{}/{}", f.name, ISAS[c.isa].name, k);
    let ((pl, le), (_, be)) = match (a, b) { (Ok(a), Ok(b)) => (a, b), (Err(e), Err(_)) => { r.unsupported = Some(e); return r } (Err(e), _) | (_, Err(e)) => {
        if e == "rejected" || e == "panics" { r.obls = 1; r.fails.push(Fail { obl: obl("call.pair"), kind: "value", detail: format!("one of the two calls {}", e), cex: Some(vec![]), plane: 0, idx: 0, x: 0, y: 0 }) } else { r.unsupported = Some(e) } return r } };
    for (pi, q) in pl.iter().enumerate() { if !q.write { continue }
        for i in 0..q.len { let (y, x) = (i / q.stride, i % q.stride); if x >= q.row || y >= q.rows { continue }
            r.obls += 1; let l = le[pi][i]; let mut t = be[pi][i]; if f.enc_out == Enc::Be { t = swap16(&mut ex.st, t) }
            if t == l { *r.how.entry("syntactic").or_default() += 1; continue }
            let name = obl(&format!("{}.pair", q.field)); let at = |k: &str| format!("{} element ({},{}): {}", q.field, x, y, k);
            let k = h128(&key(&ex.st, t, &Exp::Exact(l), 0.)); let hit = cache.lock().unwrap().get(&k).cloned();
            let v = match hit { Some((v, _)) if !matches!(v, Verdict::Cex { .. }) => v, _ => { let v = decide(&mut ex.st, t, &Exp::Exact(l), 0., 0x18 ^ i as u64, effort); cache.lock().unwrap().insert(k, (v.clone(), 0)); v } };
            match v {
                Verdict::Ok { how, .. } => *r.how.entry(how).or_default() += 1,
                Verdict::Cex { vals, got, want } => { let (mut vs, _) = vars_of(&ex.st, t); for v in vars_of(&ex.st, l).0 { if !vs.contains(&v) { vs.push(v) } }
                    let cex = vs.iter().zip(&vals).map(|(&v, &x)| { let q = ex.st.node(v); (q.a, q.k, x) }).collect(); r.fails.push(Fail { obl: name, kind: "value", detail: at(&format!("big-endian gives {} where little-endian gives {}", got, want.0)), cex: Some(cex), plane: pi, idx: i, x, y }) }
                Verdict::Open { why, .. } => r.open.push(Fail { obl: name, kind: "open", detail: at(why), cex: None, plane: pi, idx: i, x, y }),
                Verdict::Undef => r.fails.push(Fail { obl: name, kind: "value", detail: at("depends on uninitialised memory"), cex: Some(vec![]), plane: pi, idx: i, x, y }) }
            if r.fails.len() > 20 { return r } } }
    r
}
/// both functions on the compiled library, on the same samples
pub fn native_pair(nat: &mut Native, st: &mut Store, f: &Fun, g: &Fun, c: &Case, cg: &Case, env: &dyn Fn(u32, u64, u8) -> u64) -> Option<String> {
    let mut go = |f: &Fun, c: &Case| { let pl = layout(f, &c.p, c.w, c.h, c.pad, c.lay); let b = buffers(st, f, c, &pl, env); let (_, d, ws) = a_bytes(f, c, &pl); (nat.run(&format!("k_{}", f.name), ISAS[c.isa].bits, &b, d, ws), pl) };
    let ((rb, pl), (rl, _)) = (go(f, c), go(g, cg));
    match (rb, rl) { (NRes::Ret(0, b), NRes::Ret(0, l)) => { for (pi, q) in pl.iter().enumerate() { if !q.write { continue } for i in 0..q.len { let (y, x) = (i / q.stride, i % q.stride); if x >= q.row || y >= q.rows { continue } let o = i * q.eb; let mut v = b[pi][o..o + q.eb].to_vec(); if f.enc_out == Enc::Be { v.reverse() }
            if v != l[pi][o..o + q.eb] { return Some(format!("{} element ({},{}): big-endian gives {:?} where little-endian gives {:?} (bytes, little end first)", q.field, x, y, v, &l[pi][o..o + q.eb])) } } } None }
        (NRes::Ret(k, _), NRes::Ret(j, _)) => if k != j { Some("only one of the two calls succeeds".into()) } else { None }, (NRes::Crash, NRes::Crash) => None, _ => Some("one of the two calls crashes".into()) }
}
