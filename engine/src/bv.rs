//! Equality of two terms as bit vectors, for z3: back end for exact contracts whose terms differ in form.
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::*;

pub enum Eq { Equal, Differ(Vec<u64>), Unknown }
struct Z3 { ch: Child, out: BufReader<ChildStdout> }
impl Drop for Z3 { fn drop(&mut self) { let _ = self.ch.kill(); let _ = self.ch.wait(); } }
thread_local! { static Z: std::cell::RefCell<Option<Z3>> = const { std::cell::RefCell::new(None) }; }
pub static STATS: [std::sync::atomic::AtomicU64; 3] = [const { std::sync::atomic::AtomicU64::new(0) }; 3];
fn ask(q: &str) -> Option<String> {
    Z.with(|z| { let mut z = z.borrow_mut();
        if z.is_none() { let mut ch = Command::new("z3-new").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?; let out = BufReader::new(ch.stdout.take()?); *z = Some(Z3 { ch, out }); }
        let p = z.as_mut()?; let mut o = String::new();
        if p.ch.stdin.as_mut()?.write_all(q.as_bytes()).and_then(|_| p.ch.stdin.as_mut().unwrap().flush()).is_err() { *z = None; return None }
        loop { let mut l = String::new(); match p.out.read_line(&mut l) { Ok(n) if n > 0 => { if l.contains("@end") { return Some(o) } o += &l } _ => { *z = None; return None } } } })
}
/// definitions of `t` and all it is made of; None for what has no bit-vector form here
fn term(st: &Store, t: T, vars: &[T], memo: &mut HashMap<T, String>, out: &mut String) -> Option<String> {
    if let Some(s) = memo.get(&t) { return Some(s.clone()) }
    let nd = st.node(t); let w = nd.w; let s = match nd.op {
        Op::Const => format!("(_ bv{} {})", nd.k & mask(w), w),
        Op::Var => format!("v{}", vars.iter().position(|&v| v == t)?),
        op => { let mut g = |x: T| term(st, x, vars, memo, out); let (wa, wb) = (st.w(nd.a), if matches!(op, Op::ZExt | Op::SExt | Op::Extract) { 0 } else { st.w(nd.b) });
            let bin = |o: &str, a: &str, b: &str| format!("({} {} {})", o, a, b); let bit = |c: String| format!("(ite {} #b1 #b0)", c);
            let e = match op {
                Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem => { let o = match op { Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::UDiv => "bvudiv", _ => "bvurem" }; if wa != w || wb != w { return None } bin(o, &g(nd.a)?, &g(nd.b)?) }
                Op::ZExt => format!("((_ zero_extend {}) {})", w - wa, g(nd.a)?), Op::SExt => format!("((_ sign_extend {}) {})", w - wa, g(nd.a)?),
                Op::Extract => format!("((_ extract {} {}) {})", nd.k + w as u64 - 1, nd.k, g(nd.a)?), Op::Concat => { if wa + wb != w { return None } bin("concat", &g(nd.a)?, &g(nd.b)?) }
                Op::Ite => format!("(ite (distinct {} (_ bv0 {})) {} {})", g(nd.a)?, wa, g(nd.b)?, g(nd.c)?),
                Op::Eq => bit(bin("=", &g(nd.a)?, &g(nd.b)?)), Op::Ult => bit(bin("bvult", &g(nd.a)?, &g(nd.b)?)), Op::Slt => bit(bin("bvslt", &g(nd.a)?, &g(nd.b)?)),
                Op::UMin | Op::UMax | Op::SMin | Op::SMax => { let (a, b) = (g(nd.a)?, g(nd.b)?); let o = if matches!(op, Op::UMin | Op::UMax) { "bvult" } else { "bvslt" }; let c = bin(o, &a, &b); if matches!(op, Op::UMin | Op::SMin) { format!("(ite {} {} {})", c, a, b) } else { format!("(ite {} {} {})", c, b, a) } }
                Op::UAddSat => { let (a, b) = (g(nd.a)?, g(nd.b)?); let s = bin("bvadd", &a, &b); format!("(ite (bvult {} {}) (bvnot (_ bv0 {})) {})", s, a, w, s) }
                Op::USubSat => { let (a, b) = (g(nd.a)?, g(nd.b)?); format!("(ite (bvult {} {}) (_ bv0 {}) {})", a, b, w, bin("bvsub", &a, &b)) }
                Op::SAddSat | Op::SSubSat => { let x = |a: String| format!("((_ sign_extend 1) {})", a); let s = bin(if op == Op::SAddSat { "bvadd" } else { "bvsub" }, &x(g(nd.a)?), &x(g(nd.b)?)); let (hi, lo) = (mask(w) >> 1, (mask(w) >> 1) + 1);
                    format!("(ite (bvsgt {s} (_ bv{hi} {w1})) (_ bv{hi} {w}) (ite (bvslt {s} (bvneg (_ bv{lo} {w1}))) (_ bv{lo} {w}) ((_ extract {m} 0) {s})))", s = s, hi = hi, lo = lo, w = w, w1 = w + 1, m = w - 1) }
                // floating-point operations and table look-ups as uninterpreted functions of their operands
                _ => { let (kids, n) = st.kids(t); let ks: Vec<T> = kids[..n].to_vec(); let mut args = String::new(); let mut sorts = String::new(); use std::fmt::Write; for x in ks { let a = term(st, x, vars, memo, out)?; let _ = write!(args, " {}", a); let _ = write!(sorts, "(_ BitVec {}) ", st.w(x)); }
                    if n == 0 { return None } let f = format!("f_{:?}_{}_{}_{}", op, nd.k, w, sorts.chars().filter(|c| c.is_ascii_digit() || *c == ' ').collect::<String>().trim().replace(' ', "_")); if !out.contains(&format!("(declare-fun {} ", f)) { let _ = writeln!(out, "(declare-fun {} ({}) (_ BitVec {}))", f, sorts, w); } format!("({}{})", f, args) } };
            let name = format!("n{}", memo.len()); use std::fmt::Write; let _ = writeln!(out, "(define-fun {} () (_ BitVec {}) {})", name, w, e); name } };
    memo.insert(t, s.clone()); Some(s)
}
/// are the two terms equal for all values of `vars`
pub fn equal(st: &Store, a: T, b: T, vars: &[T], ms: u32) -> Eq {
    if st.w(a) != st.w(b) { return Eq::Unknown }
    let mut memo = HashMap::new(); let mut defs = String::new();
    let (Some(x), Some(y)) = (term(st, a, vars, &mut memo, &mut defs), term(st, b, vars, &mut memo, &mut defs)) else { return Eq::Unknown };
    let mut q = format!("(reset)\n(set-option :timeout {})\n(set-logic QF_UFBV)\n", ms);
    for (i, &v) in vars.iter().enumerate() { q += &format!("(declare-const v{} (_ BitVec {}))\n", i, st.w(v)); }
    q += &defs; q += &format!("(assert (distinct {} {}))\n(check-sat)\n(get-value ({}))\n(echo \"@end\")\n", x, y, (0..vars.len()).map(|i| format!("v{}", i)).collect::<Vec<_>>().join(" "));
    use std::sync::atomic::Ordering::Relaxed; STATS[0].fetch_add(1, Relaxed); let t0 = std::time::Instant::now();
    let o = ask(&q).unwrap_or_default(); STATS[1].fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
    if o.starts_with("unsat") { return Eq::Equal } if !o.starts_with("sat") { STATS[2].fetch_add(1, Relaxed); return Eq::Unknown }
    let s = o[3..].replace(['(', ')'], " "); let tk: Vec<&str> = s.split_whitespace().collect(); let mut vals = vec![0u64; vars.len()];
    for p in tk.chunks(2) { if p.len() == 2 && p[0].starts_with('v') { if let Ok(i) = p[0][1..].parse::<usize>() { let v = if let Some(h) = p[1].strip_prefix("#x") { u64::from_str_radix(h, 16) } else { u64::from_str_radix(p[1].trim_start_matches("#b"), 2) }; if let (Ok(v), true) = (v, i < vals.len()) { vals[i] = v } } } }
    Eq::Differ(vals)
}
