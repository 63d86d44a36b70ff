//! Linear and nonlinear integer obligations for z3: the validators' conditions over symbolic dimensions,
//! strides and buffer lengths are translated to mathematical integers (wrapping made explicit by `mod`).
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::*;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum Sat { Sat(Vec<(String, u64)>), Unsat, Unknown }
pub const QUICK: u32 = 400; pub const FULL: u32 = 3000;
pub static CACHE: Mutex<Option<HashMap<String, Sat>>> = Mutex::new(None);
fn parse(out: &str, model: bool) -> Sat {
    if out.starts_with("sat") { let mut m = vec![]; if model { let s = out[3..].replace(['(', ')'], " "); let w: Vec<&str> = s.split_whitespace().collect(); for p in w.chunks(2) { if p.len() == 2 { if let Ok(v) = p[1].parse::<u64>() { m.push((p[0].to_string(), v)) } } } } Sat::Sat(m) } else if out.starts_with("unsat") { Sat::Unsat } else { Sat::Unknown }
}
pub struct Smt { ch: Option<(Child, BufReader<ChildStdout>)>, pub queries: u64, pub hits: u64, pub time: f64, pub unknown: u64, pub by: [u64; 2], pub timeout_ms: u32 }
impl Smt {
    pub fn new() -> Smt { Smt { ch: None, queries: 0, hits: 0, time: 0., unknown: 0, by: [0; 2], timeout_ms: FULL } }
    fn start(&mut self) { if self.ch.is_some() { return; }
        let mut c = Command::new("z3-new").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3"); let o = BufReader::new(c.stdout.take().unwrap()); self.ch = Some((c, o)); }
    fn z3(&mut self, q: &str, get: &str, model: bool) -> Sat {
        self.start(); let txt = format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n{}(echo \"@end\")\n", self.timeout_ms, q, get);
        let (c, o) = self.ch.as_mut().unwrap(); let mut out = String::new();
        let ok = c.stdin.as_mut().unwrap().write_all(txt.as_bytes()).and_then(|_| c.stdin.as_mut().unwrap().flush()).is_ok();
        if ok { loop { let mut l = String::new(); match o.read_line(&mut l) { Ok(n) if n > 0 => { if l.contains("@end") { break; } out += &l; } _ => { out.clear(); break; } } } }
        if out.is_empty() { let (mut c, _) = self.ch.take().unwrap(); let _ = c.kill(); let _ = c.wait(); }
        parse(&out, model) }
    fn cvc5(q: &str, get: &str, model: bool, ms: u32) -> Sat {
        let txt = format!("(set-logic QF_NIA)\n(set-option :produce-models true)\n{}(check-sat)\n{}", q, get);
        let Ok(mut c) = Command::new("cvc5").args(["--lang=smt2", &format!("--tlimit={}", ms), "-"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { return Sat::Unknown };
        if let Some(mut i) = c.stdin.take() { let _ = i.write_all(txt.as_bytes()); }
        match c.wait_with_output() { Ok(o) => parse(&String::from_utf8_lossy(&o.stdout), model), _ => Sat::Unknown } }
    /// decides the conjunction; with `model`, the values of the variables when satisfiable
    pub fn check(&mut self, vars: &[(String, String)], asserts: &[String], model: bool) -> Sat {
        let mut q = String::new(); for (v, rng) in vars { q += &format!("(declare-const {} Int)\n", v); q += &format!("(assert {})\n", rng); } for a in asserts { q += &format!("(assert {})\n", a); }
        let key = format!("{}{}{}", model as u8, (self.timeout_ms <= QUICK) as u8, q);
        if let Some(r) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) { self.hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now(); self.queries += 1;
        let names: Vec<&str> = vars.iter().map(|x| x.0.as_str()).collect(); let get = if model { format!("(get-value ({}))\n", names.join(" ")) } else { String::new() };
        let quick = self.timeout_ms <= QUICK;
        // cvc5 finds models quickly, z3 most refutations, cvc5 the rest
        let mut r = Self::cvc5(&q, &get, model, 200); if r != Sat::Unknown { self.by[0] += 1 }
        if r == Sat::Unknown { r = self.z3(&q, &get, model); if r != Sat::Unknown { self.by[1] += 1 } }
        if r == Sat::Unknown && !quick { r = Self::cvc5(&q, &get, model, self.timeout_ms); if r != Sat::Unknown { self.by[0] += 1 } }
        if r == Sat::Unknown { self.unknown += 1 }
        if t0.elapsed().as_secs_f64() > 1. { if let Ok(d) = std::env::var("SMTDUMP") { use std::sync::atomic::*; static N: AtomicU32 = AtomicU32::new(0); let k = N.fetch_add(1, Ordering::Relaxed); let _ = std::fs::write(format!("{}/{}.smt2", d, k), format!("; {:.1}s {:?}\n{}(check-sat)\n", t0.elapsed().as_secs_f64(), r, q)); } }
        self.time += t0.elapsed().as_secs_f64();
        CACHE.lock().unwrap().as_mut().unwrap().insert(key, r.clone()); r
    }
}
impl Drop for Smt { fn drop(&mut self) { if let Some((mut c, _)) = self.ch.take() { drop(c.stdin.take()); let _ = c.kill(); let _ = c.wait(); } } }

#[derive(Clone)]
pub struct IE { pub s: String, pub lo: i128, pub hi: i128 }
/// translation of terms to integers; `nm` names a variable and bounds it
pub struct Tr<'x> { pub st: &'x Store, pub nm: &'x dyn Fn(u32, u64, u8) -> (String, i128, i128), memo: HashMap<T, IE>, bmemo: HashMap<T, String>, pub fresh: Vec<(String, String)> }
fn n(v: i128) -> String { if v < 0 { format!("(- {})", -v) } else { v.to_string() } }
impl<'x> Tr<'x> {
    pub fn new(st: &'x Store, nm: &'x dyn Fn(u32, u64, u8) -> (String, i128, i128)) -> Tr<'x> { Tr { st, nm, memo: HashMap::new(), bmemo: HashMap::new(), fresh: vec![] } }
    /// the dimension variable behind a term
    fn dimv(&self, mut t: T) -> Option<(String, i128, i128)> { while self.st.node(t).op == Op::ZExt { t = self.st.node(t).a } let q = self.st.node(t); if q.op != Op::Var { return None; } let v = (self.nm)(q.a, q.k, q.w); if v.0.len() == 2 && (v.0.starts_with('w') || v.0.starts_with('h')) { Some(v) } else { None } }
    fn strip(&self, mut t: T) -> T { while self.st.node(t).op == Op::ZExt { t = self.st.node(t).a } t }
    /// floor and ceiling of half a dimension, and its parity, in terms of the variable for the ceiling
    fn floorhalf(&self, t: T) -> Option<(String, i128, i128)> { let t = self.strip(t); let q = *self.st.node(t); match q.op { Op::LShr if self.st.cv(q.b) == Some(1) => self.dimv(q.a), Op::UDiv if self.st.cv(q.b) == Some(2) => self.dimv(q.a), Op::Extract if q.k == 1 => { let d = self.dimv(q.a)?; if d.2 < 2i128 << q.w { Some(d) } else { None } } _ => None } }
    fn parity(&self, t: T) -> Option<(String, i128, i128)> { let t = self.strip(t); let q = *self.st.node(t); match q.op { Op::And if self.st.cv(q.b) == Some(1) => self.dimv(q.a), Op::URem if self.st.cv(q.b) == Some(2) => self.dimv(q.a), Op::Extract if q.k == 0 && q.w == 1 => self.dimv(q.a), _ => None } }
    fn halves(&self, t: T) -> Option<IE> { let q = *self.st.node(t);
        if let Some((v, l, h)) = self.floorhalf(t) { return Some(IE { s: format!("(- {} {}h)", v, v), lo: l / 2, hi: h / 2 }); }
        if let Some((v, ..)) = self.parity(t) { return Some(IE { s: format!("(- (* 2 {}h) {})", v, v), lo: 0, hi: 1 }); }
        let ceil = |(v, l, h): (String, i128, i128)| Some(IE { s: format!("{}h", v), lo: (l + 1) / 2, hi: (h + 1) / 2 });
        match q.op {
            Op::LShr | Op::UDiv => { let k = self.st.cv(q.b)?; if k != if q.op == Op::LShr { 1 } else { 2 } { return None; } let e = *self.st.node(self.strip(q.a)); if e.op == Op::Add && self.st.cv(e.b) == Some(1) { let d = self.dimv(e.a)?; if d.2 + 1 < 1i128 << e.w { return ceil(d); } } None }
            Op::Sub => { let d = self.dimv(q.a)?; if self.floorhalf(q.b)?.0 == d.0 { ceil(d) } else { None } }
            Op::Add => { for (x, y) in [(q.a, q.b), (q.b, q.a)] { if let (Some(d), Some(e)) = (self.floorhalf(x), self.parity(y)) { if d.0 == e.0 { return ceil(d); } } } None }
            _ => None } }
    fn wrap(&self, s: String, lo: i128, hi: i128, w: u8) -> IE { let m = 1i128 << w; if lo >= 0 && hi < m { return IE { s, lo, hi }; } IE { s: format!("(mod {} {})", s, m), lo: 0, hi: m - 1 } }
    fn unk(&mut self, _t: T, w: u8) -> IE { let v = format!("k{}", self.fresh.len()); let m = 1i128 << w; self.fresh.push((v.clone(), format!("(and (<= 0 {}) (< {} {}))", v, v, m))); IE { s: v, lo: 0, hi: m - 1 } }
    fn signed(&mut self, t: T) -> String { let e = self.int(t); let w = self.st.w(t); let h = 1i128 << (w - 1); if e.hi < h { return e.s; } if let Some(k) = self.st.cv(t) { return n(sx(k, w) as i128); } format!("(ite (>= {} {}) (- {} {}) {})", e.s, h, e.s, h * 2, e.s) }
    pub fn boolean(&mut self, t: T) -> String {
        if let Some(s) = self.bmemo.get(&t) { return s.clone(); }
        let q = *self.st.node(t);
        let r = match q.op {
            Op::Const => if q.k != 0 { "true".into() } else { "false".into() },
            Op::Eq if self.st.w(q.a) == 1 => { let (a, b) = (self.boolean(q.a), self.boolean(q.b)); format!("(= {} {})", a, b) }
            Op::Eq => { let (a, b) = (self.int(q.a), self.int(q.b)); format!("(= {} {})", a.s, b.s) }
            Op::Ult => { let (a, b) = (self.int(q.a), self.int(q.b)); format!("(< {} {})", a.s, b.s) }
            Op::Slt => { let (a, b) = (self.signed(q.a), self.signed(q.b)); format!("(< {} {})", a, b) }
            Op::And => { let (a, b) = (self.boolean(q.a), self.boolean(q.b)); format!("(and {} {})", a, b) }
            Op::Or => { let (a, b) = (self.boolean(q.a), self.boolean(q.b)); format!("(or {} {})", a, b) }
            Op::Xor => { let (a, b) = (self.boolean(q.a), self.boolean(q.b)); if b == "true" { format!("(not {})", a) } else { format!("(xor {} {})", a, b) } }
            Op::Ite => { let (c, a, b) = (self.boolean(q.a), self.boolean(q.b), self.boolean(q.c)); format!("(ite {} {} {})", c, a, b) }
            Op::UMulOv => { let (a, b) = (self.int(q.a), self.int(q.b)); format!("(>= (* {} {}) {})", a.s, b.s, 1i128 << self.st.w(q.a)) }
            Op::UAddOv => { let (a, b) = (self.int(q.a), self.int(q.b)); format!("(>= (+ {} {}) {})", a.s, b.s, 1i128 << self.st.w(q.a)) }
            _ => { let e = if q.op == Op::Extract { self.int(t) } else { self.unk(t, 1) }; format!("(= {} 1)", e.s) }
        };
        self.bmemo.insert(t, r.clone()); r
    }
    pub fn int(&mut self, t: T) -> IE {
        if let Some(e) = self.memo.get(&t) { return e.clone(); }
        let q = *self.st.node(t); let w = q.w; let m = 1i128 << w;
        if let Some(e) = self.halves(t) { self.memo.insert(t, e.clone()); return e; }
        let r = match q.op {
            Op::Const => IE { s: q.k.to_string(), lo: q.k as i128, hi: q.k as i128 },
            Op::Var => { let (s, lo, hi) = (self.nm)(q.a, q.k, w); IE { s, lo, hi } }
            _ if w == 1 && !matches!(q.op, Op::Extract) => { let b = self.boolean(t); IE { s: format!("(ite {} 1 0)", b), lo: 0, hi: 1 } }
            Op::ZExt => self.int(q.a),
            Op::Add => { let a = self.int(q.a);
                if let Some(k) = self.st.cv(q.b) { if k >> (w - 1) & 1 == 1 { let k = m - k as i128; return { let e = self.wrap(format!("(- {} {})", a.s, k), a.lo - k, a.hi - k, w); self.memo.insert(t, e.clone()); e }; } }
                let b = self.int(q.b); self.wrap(format!("(+ {} {})", a.s, b.s), a.lo + b.lo, a.hi + b.hi, w) }
            Op::Sub => { let (a, b) = (self.int(q.a), self.int(q.b)); self.wrap(format!("(- {} {})", a.s, b.s), a.lo - b.hi, a.hi - b.lo, w) }
            Op::Mul => { let (a, b) = (self.int(q.a), self.int(q.b)); match (a.hi.checked_mul(b.hi), a.lo.checked_mul(b.lo)) { (Some(h), Some(l)) => self.wrap(format!("(* {} {})", a.s, b.s), l, h, w), _ => IE { s: format!("(mod (* {} {}) {})", a.s, b.s, m), lo: 0, hi: m - 1 } } }
            Op::Shl if self.st.cv(q.b).is_some() => { let k = self.st.cv(q.b).unwrap(); let a = self.int(q.a); match (k < 63).then(|| a.hi.checked_mul(1i128 << k)).flatten() { Some(h) => self.wrap(format!("(* {} {})", a.s, 1i128 << k), a.lo << k, h, w), None => self.unk(t, w) } }
            Op::LShr if self.st.cv(q.b).is_some() => { let k = self.st.cv(q.b).unwrap(); let a = self.int(q.a); IE { s: format!("(div {} {})", a.s, 1i128 << k), lo: a.lo >> k, hi: a.hi >> k } }
            Op::UDiv if self.st.cv(q.b).map_or(false, |k| k > 0) => { let k = self.st.cv(q.b).unwrap() as i128; let a = self.int(q.a); IE { s: format!("(div {} {})", a.s, k), lo: a.lo / k, hi: a.hi / k } }
            Op::URem if self.st.cv(q.b).map_or(false, |k| k > 0) => { let k = self.st.cv(q.b).unwrap() as i128; let a = self.int(q.a); IE { s: format!("(mod {} {})", a.s, k), lo: 0, hi: k - 1 } }
            Op::Extract => { let a = self.int(q.a); let (k, mm) = (1i128 << q.k, 1i128 << w); let (l, h) = (a.lo >> q.k, a.hi >> q.k); let s = if k == 1 { a.s.clone() } else { format!("(div {} {})", a.s, k) }; if h < mm { IE { s, lo: l, hi: h } } else { IE { s: format!("(mod {} {})", s, mm), lo: 0, hi: mm - 1 } } }
            Op::Concat => { let (a, b) = (self.int(q.a), self.int(q.b)); let k = 1i128 << self.st.w(q.b); IE { s: format!("(+ (* {} {}) {})", a.s, k, b.s), lo: a.lo * k + b.lo, hi: a.hi * k + b.hi } }
            Op::And if self.st.cv(q.b).map_or(false, |k| k & k.wrapping_add(1) == 0) => { let k = self.st.cv(q.b).unwrap() as i128; let a = self.int(q.a); if a.hi <= k { a } else { IE { s: format!("(mod {} {})", a.s, k + 1), lo: 0, hi: k } } }
            Op::And if self.st.cv(q.b).map_or(false, |k| { let i = !k & mask(w); i & i.wrapping_add(1) == 0 }) => { let k = (!self.st.cv(q.b).unwrap() & mask(w)) as i128; let a = self.int(q.a); IE { s: format!("(- {} (mod {} {}))", a.s, a.s, k + 1), lo: 0, hi: a.hi } }
            Op::Xor if self.st.cv(q.b) == Some(mask(w)) => { let a = self.int(q.a); IE { s: format!("(- {} {})", m - 1, a.s), lo: m - 1 - a.hi, hi: m - 1 - a.lo } }
            Op::Ite => { let c = self.boolean(q.a); let (a, b) = (self.int(q.b), self.int(q.c)); IE { s: format!("(ite {} {} {})", c, a.s, b.s), lo: a.lo.min(b.lo), hi: a.hi.max(b.hi) } }
            Op::UMin | Op::UMax => { let (a, b) = (self.int(q.a), self.int(q.b)); let mn = q.op == Op::UMin; IE { s: format!("(ite ({} {} {}) {} {})", if mn { "<" } else { ">" }, a.s, b.s, a.s, b.s), lo: if mn { a.lo.min(b.lo) } else { a.lo.max(b.lo) }, hi: if mn { a.hi.min(b.hi) } else { a.hi.max(b.hi) } } }
            Op::USubSat => { let (a, b) = (self.int(q.a), self.int(q.b)); IE { s: format!("(ite (> {} {}) (- {} {}) 0)", a.s, b.s, a.s, b.s), lo: 0, hi: a.hi } }
            _ => self.unk(t, w),
        };
        self.memo.insert(t, r.clone()); r
    }
}
