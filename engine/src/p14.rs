//! P14: the acceptance contract of every public conversion, over all dimensions, strides and buffer
//! lengths (symbolic integers, no bound): a malformed argument set is rejected before any image buffer is
//! touched, and a well-formed one gets past the validation.  Obligations are discharged by z3, one per
//! path through the validation code; a model is replayed on the compiled library.
use crate::exec::*;
use crate::ir::Ty;
use crate::native::*;
use crate::run::*;
use crate::smt::*;
use crate::spec::*;
use crate::term::*;

/// row = m * (half ? ceil(d/2) : d) with d the width or height of the image the plane belongs to
#[derive(Clone, Debug)]
pub struct PSpec { pub m: usize, pub rhalf: bool, pub ry: bool, pub nhalf: bool, pub ny: bool, pub dim: usize, pub write: bool, pub eb: usize, pub unit: usize, pub field: String }
pub fn pspecs(f: &Fun, p: &Params) -> Vec<PSpec> {
    let a = layout(f, p, 10, 26, 0, 0); let b = layout(f, p, 11, 27, 0, 0);
    a.iter().zip(&b).map(|(q, r)| {
        let (x, y) = (q.row, r.row);
        let (m, rhalf, ry) = if x * 11 == y * 10 { (x / 10, false, false) } else if x * 6 == y * 5 { (x / 5, true, false) } else if x * 27 == y * 26 { (x / 26, false, true) } else { (x / 13, true, true) };
        let (nhalf, ny) = match (q.rows, r.rows) { (26, 27) => (false, true), (13, 14) => (true, true), (10, 11) => (false, false), _ => (true, false) };
        PSpec { m: m * q.unit, rhalf, ry, nhalf, ny, dim: if q.dim > 1 { 0 } else { q.dim }, write: q.write, eb: if q.unit > 1 { 1 } else { q.eb }, unit: q.unit, field: q.field.clone() } }).collect()
}
/// the rounded-up half of a dimension is a variable of its own (`w0h`, defined in `vars`)
pub fn half(s: &str, h: bool) -> String { if h { format!("{}h", s) } else { s.into() } }
impl PSpec {
    pub fn row(&self) -> String { let d = half(&format!("{}{}", if self.ry { "h" } else { "w" }, self.dim), self.rhalf); if self.m == 1 { d } else { format!("(* {} {})", self.m, d) } }
    pub fn rows(&self) -> String { half(&format!("{}{}", if self.ny { "h" } else { "w" }, self.dim), self.nhalf) }
    pub fn crow(&self, d: [(u64, u64); 2]) -> u128 { let x = if self.ry { d[self.dim].1 } else { d[self.dim].0 } as u128; self.m as u128 * if self.rhalf { x.div_ceil(2) } else { x } }
    pub fn crows(&self, d: [(u64, u64); 2]) -> u128 { let x = if self.ny { d[self.dim].1 } else { d[self.dim].0 } as u128; if self.nhalf { x.div_ceil(2) } else { x } }
}
/// dimension pairs the function takes
pub fn ndims(f: &Fun) -> usize { f.planes.iter().map(|p| p.3 + 1).max().unwrap_or(1).max(1) }
pub fn malformed(sp: &[PSpec], nd: usize) -> Vec<(String, String)> {
    let mut o = vec![];
    for d in 0..nd { o.push((format!("zero dimension (image {})", d), format!("(or (= w{} 0) (= h{} 0))", d, d))); }
    if nd > 1 { o.push(("dimensions differ".into(), "(or (not (= w0 w1)) (not (= h0 h1)))".into())); }
    for (i, q) in sp.iter().enumerate() { let d = q.dim; let nz = format!("(> w{} 0) (> h{} 0)", d, d);
        o.push((format!("{} row longer than its stride", q.field), format!("(and {} (< s{} {}))", nz, i, q.row())));
        o.push((format!("{} buffer too short", q.field), format!("(and {} (< l{} (+ (- (* s{} {}) s{}) {})))", nz, i, i, q.rows(), i, q.row()))); }
    o
}
pub fn wellformed(f: &Fun, sp: &[PSpec], nd: usize) -> Vec<String> {
    let geo = matches!(f.fam, Fam::Mirror { .. } | Fam::Rotate { .. });
    let mut o = vec![]; for d in 0..nd { o.push(format!("(and (>= w{} 1) (>= h{} 1))", d, d)) } if nd > 1 { o.push("(and (= w0 w1) (= h0 h1))".into()) }
    for (i, q) in sp.iter().enumerate() { o.push(format!("(>= s{} {})", i, q.row())); o.push(format!("({} l{} (* s{} {}))", if geo { "=" } else { ">=" }, i, i, q.rows())); }
    o
}
pub const D32: i128 = (1 << 32) - 1;
fn vname(a: u32, k: u64, w: u8) -> (String, i128, i128) { let _ = a; match k { 0 => ("w0".into(), 0, D32), 1 => ("h0".into(), 0, D32), 2 => ("w1".into(), 0, D32), 3 => ("h1".into(), 0, D32), 10..=15 => (format!("l{}", k - 10), 0, (1 << 62) - 1), 20..=25 => (format!("s{}", k - 20), 0, D32), _ => (format!("x{}_{}", k, w), 0, (1i128 << w) - 1) } }
pub fn vars(np: usize, nd: usize, small: bool) -> Vec<(String, String)> {
    let mut v = vec![]; for d in 0..nd { for n in ["w", "h"] { v.push((format!("{}{}", n, d), format!("(and (<= 0 {}{}) (<= {}{} {}))", n, d, n, d, D32))); v.push((format!("{}{}h", n, d), format!("(and (<= {x} (* 2 {x}h)) (<= (* 2 {x}h) (+ {x} 1)))", x = format!("{}{}", n, d)))) } }
    for i in 0..np { v.push((format!("l{}", i), format!("(and (<= 0 l{}) (< l{} {}))", i, i, if small { 1i128 << 20 } else { 1 << 62 }))); v.push((format!("s{}", i), format!("(and (<= 0 s{}) (<= s{} {}))", i, i, D32))) }
    v
}
/// pc as integer conditions; variables known non-zero get the lower bound 1
pub fn conds(st: &Store, pc: &[T], extra: Option<T>) -> (Vec<String>, Vec<(String, String)>) { let (a, _, b) = conds2(st, pc, extra, &[]); (a, b) }
pub fn conds2(st: &Store, pc: &[T], extra: Option<T>, ts: &[T]) -> (Vec<String>, Vec<String>, Vec<(String, String)>) {
    let mut nz: Vec<(u32, u64)> = vec![];
    fn zeros(st: &Store, t: T, nz: &mut Vec<(u32, u64)>) { let e = *st.node(t); match e.op { Op::Or => { zeros(st, e.a, nz); zeros(st, e.b, nz) } Op::Eq if st.cv(e.b) == Some(0) => { let mut v = e.a; while st.node(v).op == Op::ZExt { v = st.node(v).a } let n = st.node(v); if n.op == Op::Var { nz.push((n.a, n.k)) } } _ => {} } }
    for &c in pc { let q = *st.node(c); if q.op == Op::Xor && st.cv(q.b) == Some(1) { zeros(st, q.a, &mut nz) } }
    let nm = |a: u32, k: u64, w: u8| { let (s, lo, hi) = vname(a, k, w); (s, if nz.contains(&(a, k)) { 1 } else { lo }, hi) };
    let mut tr = Tr::new(st, &nm); let mut o: Vec<String> = pc.iter().map(|&c| tr.boolean(c)).collect(); if let Some(e) = extra { o.push(tr.boolean(e)) } let g = ts.iter().map(|&t| tr.int(t).s).collect(); (o, g, tr.fresh)
}
pub struct Bad { pub obl: String, pub what: String, pub ret: String, pub model: Option<(Vec<(usize, usize)>, [(u64, u64); 2])> }
#[derive(Default)]
pub struct R14 { pub obls: u64, pub bad: Vec<Bad>, pub undecided: Vec<String>, pub paths: u64, pub queries: u64, pub hits: u64, pub time: f64, pub cut: u64 }

/// argument block with symbolic lengths, strides and dimensions
fn symargs(ex: &mut Ex, f: &Fun, p: &Params, sp: &[PSpec], nd: usize) -> Result<u32, String> {
    let _ = f; let mut cells = vec![]; let mut objs = vec![];
    for q in sp { objs.push(ex.alloc(vec![], if q.write { K_PLANE } else { K_ROPLANE }, 0)) }
    let put = |ex: &mut Ex, cells: &mut Vec<Cell>, t: T| { let v = ex.mkv(t); ex.to_cells(&Ty::Int(64), &v, cells) };
    for i in 0..6 { if i < sp.len() { ex.to_cells(&Ty::Ptr, &V::P(objs[i], 0), &mut cells)?; let l = ex.st.var(64, 0x800, 10 + i as u64); put(ex, &mut cells, l)?; let s = ex.st.var(32, 0x800, 20 + i as u64); let s = ex.st.zext(s, 64); put(ex, &mut cells, s)?; } else { for _ in 0..24 { cells.push(c_byte(0)) } } }
    for d in 0..2 { for k in 0..2u64 { if d < nd { let v = ex.st.var(32, 0x800, d as u64 * 2 + k); let v = ex.st.zext(v, 64); put(ex, &mut cells, v)?; } else { for _ in 0..8 { cells.push(c_byte(0)) } } } }
    for v in [p.range, p.matrix, p.mode, p.order, p.flag, p.gamma, p.depth, p.geo, p.kr.to_bits(), p.kb.to_bits()] { for k in 0..4 { cells.push(c_byte((v >> (8 * k)) as u8)) } }
    Ok(ex.alloc(cells, K_STACK, 999))
}
pub enum End { Ret(V), Panic, Touch, Stop(String) }
/// explores the validation code under `assume`, calling `end` for every feasible path
pub fn explore(ex: &mut Ex, name: &str, f: &Fun, p: &Params, sp: &[PSpec], nd: usize, assume: &[String], max: usize, smt: &std::rc::Rc<std::cell::RefCell<Smt>>, end: &mut dyn FnMut(&mut Ex, End)) -> Result<u64, String> {
    let fu = ex.prog.func(0, &format!("k_{}", name)).ok_or("wrapper missing")?;
    let mut pending = vec![vec![]]; let mut n = 0u64;
    while let Some(script) = pending.pop() {
        n += 1; if n > 400 { return Err("too many paths".into()); }
        if ex.st.n.len() > 200_000 { ex.reset_store(); } else { ex.reset(); }
        ex.path = None; ex.touched = false; ex.set_detect(ISAS[0].bits);
        let a = symargs(ex, f, p, sp, nd)?;
        let (np, asm, sm) = (sp.len(), assume.to_vec(), smt.clone());
        let feas = move |st: &Store, pc: &[T], t: T| -> bool { let (c, fr) = conds(st, pc, Some(t)); let mut vs = vars(np, nd, false); vs.extend(fr); let mut q = asm.clone(); q.extend(c); let mut s = sm.borrow_mut(); s.timeout_ms = QUICK; let r = s.check(&vs, &q, false) != Sat::Unsat; s.timeout_ms = FULL; r };
        ex.path = Some(Path { script, pos: 0, pending: vec![], feasible: Box::new(feas), max, seen: Default::default() });
        let r = ex.call(&fu, vec![V::P(a, 0)]);
        let pt = ex.path.take().unwrap(); pending.extend(pt.pending);
        if std::env::var("P14P").is_ok() { if matches!(&r, Err(e) if e == "@deep") { let (c, _) = conds(&ex.st, &ex.pc, None); for x in c { eprintln!("   {}", x) } } eprintln!("PATH {:?} touched {} viol {:?}", match &r { Ok(Out::Div) => "div", Ok(Out::Ret(_)) => "ret", Err(e) => e }, ex.touched, ex.viol.last().map(|v| (v.kind, v.msg.clone()))); }
        let e = match r { _ if ex.touched => End::Touch, Err(s) => End::Stop(s), Ok(Out::Div) => End::Panic, Ok(Out::Ret(v)) => End::Ret(v) };
        end(ex, e);
    }
    Ok(n)
}
pub fn prove(ex: &mut Ex, f: &Fun, p: &Params) -> R14 {
    let mut r = R14::default(); let sp = pspecs(f, p); let nd = ndims(f); ex.max_steps = 400_000;
    let smt = std::rc::Rc::new(std::cell::RefCell::new(Smt::new()));
    let model = |smt: &mut Smt, st: &Store, asm: &[String], pc: &[T], extra: Option<T>| -> (Sat, Option<(Vec<(usize, usize)>, [(u64, u64); 2])>) {
        let (c, fr) = conds(st, pc, extra); let mut q: Vec<String> = asm.to_vec(); q.extend(c);
        // the obligation itself first; when it fails, a small instance is looked for, then one whose buffers can be allocated
        let mut vs = vars(sp.len(), nd, false); vs.extend(fr.clone()); let s = smt.check(&vs, &q, true); if s == Sat::Unsat { return (s, None) }
        let get = |m: &Vec<(String, u64)>| { let g = |n: String| m.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(0); ((0..sp.len()).map(|i| (g(format!("l{}", i)) as usize, g(format!("s{}", i)) as usize)).collect::<Vec<_>>(), [(g("w0".into()), g("h0".into())), (g("w1".into()), g("h1".into()))]) };
        for lim in [1i128 << 5, 1 << 7, 1 << 12] { let mut vs = vars(sp.len(), nd, true); vs.extend(fr.clone()); let mut q2 = q.clone(); for d in 0..nd { q2.push(format!("(and (< w{} {}) (< h{} {}))", d, lim, d, lim)) } for i in 0..sp.len() { q2.push(format!("(< s{} {})", i, lim * 8)) }
            if let Sat::Sat(m) = smt.check(&vs, &q2, true) { return (Sat::Sat(vec![]), Some(get(&m))) } }
        if let Sat::Sat(m) = &s { let m = get(m); return (s, Some(m)) }
        (s, None) };
    // malformed arguments are rejected
    let cats = malformed(&sp, nd); let any = format!("(or {})", cats.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "));
    let mut bad = vec![]; let mut und = vec![]; let mut obls = 0; let asm = vec![any];
    let sm = smt.clone();
    let res = explore(ex, &f.name, f, p, &sp, nd, &asm, 200, &smt, &mut |ex, e| {
        obls += 1; let pc = ex.pc.clone();
        let (extra, what) = match e { End::Ret(V::K(_, k)) => if k != 0 { return } else { (None, "a malformed image is accepted") }, End::Ret(V::S(t)) => { let w = ex.st.w(t); let z = ex.st.k(w, 0); (Some(ex.st.eq(t, z)), "a malformed image is accepted") }
            End::Ret(_) => { und.push("return value".into()); return } End::Panic => (None, "a malformed image makes the call panic"), End::Touch => (None, "an image buffer is accessed although the image is malformed"), End::Stop(s) if s == "ptrtoint symbolic" || s == "@loop" => (None, "the conversion starts although the image is malformed"), End::Stop(s) => { und.push(s); return } };
        obls += cats.len() as u64 - 1;
        for (cn, cat) in &cats { match model(&mut sm.borrow_mut(), &ex.st, &[cat.clone()], &pc, extra) { (Sat::Unsat, _) => {} (Sat::Unknown, _) => und.push(format!("solver gave up: {}: {}", what, cn)), (_, m) => bad.push(Bad { obl: format!("{}/reject: {}", f.name, cn), what: what.into(), ret: "reject".into(), model: m }) } }
    });
    if let Err(s) = res { und.push(s) } else { r.paths += res.unwrap() }
    // well-formed arguments pass
    let asm = wellformed(f, &sp, nd); let sm = smt.clone(); let mut cut = 0u64;
    let res = explore(ex, &f.name, f, p, &sp, nd, &asm, 48, &smt, &mut |ex, e| {
        obls += 1; let pc = ex.pc.clone();
        let (extra, what) = match e { End::Ret(V::K(_, k)) => if k == 0 { return } else { (None, "a well-formed image is rejected") }, End::Ret(V::S(t)) => { let w = ex.st.w(t); let z = ex.st.k(w, 0); let q = ex.st.eq(t, z); (Some(ex.st.not1(q)), "a well-formed image is rejected") }
            End::Panic => (None, "a well-formed image makes the call panic before any buffer is accessed"), End::Touch => return, End::Ret(_) | End::Stop(_) => { cut += 1; return } };
        match model(&mut sm.borrow_mut(), &ex.st, &asm, &pc, extra) { (Sat::Unsat, _) => {} (Sat::Unknown, _) => und.push(format!("solver gave up: {}", what)), (_, m) => bad.push(Bad { obl: format!("{}/accept", f.name), what: what.into(), ret: "accept".into(), model: m }) }
    });
    if let Err(_) = res { cut += 1 } else { r.paths += res.unwrap() }
    ex.path = None; let s = smt.borrow(); r.queries = s.queries; r.hits = s.hits; r.time = s.time; r.obls = obls; r.bad = bad; r.undecided = und; r.cut = cut; r
}
pub fn is_malformed(sp: &[PSpec], nd: usize, bufs: &[(usize, usize)], d: [(u64, u64); 2]) -> bool {
    (0..nd).any(|k| d[k].0 == 0 || d[k].1 == 0) || (nd > 1 && d[0] != d[1]) || sp.iter().zip(bufs).any(|(q, b)| (b.1 as u128) < q.crow(d) || (b.0 as u128) < b.1 as u128 * (q.crows(d) - 1) + q.crow(d))
}
pub fn is_wellformed(f: &Fun, sp: &[PSpec], nd: usize, bufs: &[(usize, usize)], d: [(u64, u64); 2]) -> bool {
    let geo = matches!(f.fam, Fam::Mirror { .. } | Fam::Rotate { .. });
    (0..nd).all(|k| d[k].0 > 0 && d[k].1 > 0) && (nd < 2 || d[0] == d[1]) && sp.iter().zip(bufs).all(|(q, b)| (b.1 as u128) >= q.crow(d) && { let n = b.1 as u128 * q.crows(d); if geo { b.0 as u128 == n } else { b.0 as u128 >= n } })
}
/// one concrete call; Some(what) when the acceptance contract is broken
pub fn native14(nat: &mut Native, f: &Fun, p: &Params, isa: usize, bufs: &[(usize, usize)], d: [(u64, u64); 2]) -> Option<String> {
    let sp = pspecs(f, p); let nd = ndims(f); if bufs.iter().any(|b| b.0 > 1 << 22) { return None; }
    let data: Vec<(usize, usize, Vec<u8>)> = sp.iter().zip(bufs).enumerate().map(|(i, (q, b))| (b.0, b.1, (0..b.0 * q.eb).map(|k| (k * 37 + i * 11 + 5) as u8 & if q.eb == 2 && k % 2 == 1 { 3 } else { 255 }).collect())).collect();
    let ws = [p.range, p.matrix, p.mode, p.order, p.flag, p.gamma, p.depth, p.geo, p.kr.to_bits(), p.kb.to_bits()];
    let r = nat.run(&format!("k_{}", f.name), ISAS[isa].bits, &data, [(d[0].0 as usize, d[0].1 as usize), (d[1].0 as usize, d[1].1 as usize)], ws);
    if is_malformed(&sp, nd, bufs, d) {
        match r { NRes::Crash => Some("a malformed image makes the call panic or crash".into()), NRes::Ret(0, _) => Some("a malformed image is accepted".into()),
            NRes::Ret(_, o) => sp.iter().enumerate().find(|(i, q)| q.write && o[*i] != data[*i].2).map(|(_, q)| format!("the call fails but has written to {}", q.field)) }
    } else if is_wellformed(f, &sp, nd, bufs, d) {
        match r { NRes::Ret(0, _) => None, NRes::Ret(k, _) => Some(format!("a well-formed image is rejected (code {})", k)), NRes::Crash => None }
    } else { None }
}
/// concrete argument sets around the boundary of the contract (bounded stand-in for undecided paths, and native evidence)
pub fn grid(f: &Fun, p: &Params) -> Vec<(Vec<(usize, usize)>, [(u64, u64); 2])> {
    let sp = pspecs(f, p); let nd = ndims(f); let mut o = vec![];
    for (w, h) in [(6u64, 4u64), (7, 3), (33, 5), (1, 1), (2, 1), (1, 2), (16, 2)] { for pad in [0usize, 3] {
        let d = [(w, h), if nd > 1 { (w, h) } else { (0, 0) }];
        let base: Vec<(usize, usize)> = sp.iter().map(|q| { let s = q.crow(d) as usize + pad; (s * q.crows(d) as usize, s) }).collect();
        o.push((base.clone(), d));
        if !matches!(f.fam, Fam::Mirror { .. } | Fam::Rotate { .. }) { let mut b = base.clone(); for x in b.iter_mut() { x.0 += 2 * x.1 } o.push((b, d)) }
        for i in 0..sp.len() { let q = &sp[i]; let (row, rows) = (q.crow(d) as usize, q.crows(d) as usize);
            let mut b = base.clone(); b[i].0 = b[i].1 * (rows - 1) + row - 1; o.push((b, d));
            let mut b = base.clone(); b[i].0 = 0; o.push((b, d));
            if rows > 1 { let mut b = base.clone(); b[i].0 = b[i].1 * (rows - 1); o.push((b, d)); }
            for s in [row - 1, row / 2, 0, 1] { if s < row { let mut b = base.clone(); b[i].1 = s; o.push((b.clone(), d)); b[i].0 = s * rows; o.push((b, d)); } }
            if !matches!(f.fam, Fam::Mirror { .. } | Fam::Rotate { .. }) { let mut b = base.clone(); b[i].0 += 1; o.push((b, d)); let mut b = base.clone(); b[i].1 += 5; b[i].0 = b[i].1 * rows; o.push((b, d)); } }
        for k in 0..nd { for z in [(0, h), (w, 0), (0, 0), (D32 as u64, h), (w, D32 as u64), (D32 as u64, D32 as u64), (1 << 31, 2), (w + 1, h), (w, h + 1)] { let mut e = d; e[k] = z; o.push((base.clone(), e)); } }
        if nd > 1 { for z in [(w + 1, h), (w, h + 1), (w.max(2) - 1, h), (w, h.max(2) - 1)] { for k in 0..2 { let mut e = d; e[k] = z; o.push((base.clone(), e)); let mut g = d; g[1 - k] = z; let big: Vec<(usize, usize)> = sp.iter().map(|q| { let e2 = if q.dim == 1 - k { g } else { d }; let s = q.crow(e2) as usize; (s * q.crows(e2) as usize, s) }).collect(); o.push((big, g)); } } }
    } }
    o
}
pub struct Sum { pub obls: u64, pub viols: Vec<(String, Option<String>, usize, Params, Vec<(usize, usize)>, [(u64, u64); 2], String, usize)>, pub undecided: Vec<String>, pub paths: u64, pub queries: u64, pub hits: u64, pub time: f64, pub cut: u64, pub natcalls: u64, pub funs: usize, pub cases: usize, pub quiet: Vec<String> }
/// proves the acceptance contract of every function, replays counterexamples and runs the grid natively
pub fn run14(prog: &Prog, funs: &[Fun], lib: &str, pat: Option<&str>, thorough: bool, deadline: std::time::Instant) -> Sum {
    use std::sync::atomic::{AtomicUsize, Ordering}; use std::sync::Mutex;
    let mut cs: Vec<(usize, Params)> = vec![];
    for (i, f) in funs.iter().enumerate() { if let Some(p) = pat { if !crate::check::pat(p, &f.name) { continue } }
        // the option values validation can depend on: none but depth, direction and order
        let mut seen: Vec<(u32, u32, u32, u32)> = vec![];
        for p in crate::params(f, if thorough { 2 } else { 1 }) { let k = (p.depth, p.geo, p.order | p.range << 4 | p.flag << 8, p.mode); if !seen.contains(&k) { seen.push(k); cs.push((i, p)) } } }
    let out: Mutex<Sum> = Mutex::new(Sum { obls: 0, viols: vec![], undecided: vec![], paths: 0, queries: 0, hits: 0, time: 0., cut: 0, natcalls: 0, funs: 0, cases: cs.len(), quiet: vec![] });
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| { for _ in 0..8 { std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || { let mut ex = Ex::new(prog); let mut nat = Native::new(lib);
        loop { let i = next.fetch_add(1, Ordering::Relaxed); if i >= cs.len() { break; } let (fi, p) = &cs[i]; let f = &funs[*fi];
            if std::time::Instant::now() > deadline { out.lock().unwrap().undecided.push(format!("{}: not reached in the time limit", f.name)); continue; }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prove(&mut ex, f, p)));
            let r = match r { Ok(r) => r, Err(_) => { ex = Ex::new(prog); out.lock().unwrap().undecided.push(format!("{}: engine panic", f.name)); continue } };
            let mut vs = vec![]; let mut quiet = vec![]; let mut nc = 0;
            for b in r.bad { let mut conf = None; let (bufs, d) = b.model.clone().unwrap_or_default();
                if b.model.is_some() { nc += 1; conf = native14(&mut nat, f, p, 0, &bufs, d); }
                // a model the compiled code can be run on and which it handles well is not a counterexample
                let runnable = b.model.is_some() && bufs.iter().all(|x| x.0 <= 1 << 22);
                if conf.is_none() && runnable { quiet.push(format!("{}: {} {:?} {:?}", b.obl, b.what, bufs, d)) } else { vs.push((b.obl, conf, *fi, p.clone(), bufs, d, b.what, 0)) } }
            // concrete calls around the boundary
            let isas: &[usize] = if thorough { &[0, 2] } else { &[0] };
            for &isa in isas { if !crate::check::host_has(isa) { continue } let mut n = 0; for (bufs, d) in grid(f, p) { nc += 1; if let Some(w) = native14(&mut nat, f, p, isa, &bufs, d) { n += 1; if n <= 2 { vs.push((format!("{}/grid", f.name), Some(w.clone()), *fi, p.clone(), bufs, d, w, isa)) } } } }
            if std::env::var("P14T").is_ok() { eprintln!("{:.1}s {} q{} paths {} und {}", r.time, f.name, r.queries, r.paths, r.undecided.len()); }
            let mut o = out.lock().unwrap(); o.obls += r.obls; o.paths += r.paths; o.queries += r.queries; o.hits += r.hits; o.time += r.time; o.cut += r.cut; o.natcalls += nc; for u in r.undecided { let u = format!("{}: {}", f.name, u); o.undecided.push(u) } o.viols.extend(vs); o.quiet.extend(quiet);
        } }).unwrap(); } });
    let mut o = out.into_inner().unwrap(); o.funs = cs.iter().map(|c| c.0).collect::<std::collections::BTreeSet<_>>().len(); o.viols.sort_by_key(|v| (v.1.is_none(), v.2)); o
}

const TRUST14: [&str; 4] = ["rustc's translation of the sources to LLVM IR", "the engine's semantics of integer LLVM instructions", "z3 and cvc5", "dimensions and strides below 2^32 and buffer lengths below 2^62 elements (a slice cannot be longer; rotation and mirroring take usize dimensions)"];
fn plines(p: &Params) -> String { format!("params {} {} {} {} {} {} {}", p.range, p.matrix, p.mode, p.order, p.flag, p.depth, p.geo) }
pub fn check(a: &crate::check::Args, funs: &[Fun], t0: std::time::Instant) -> i32 {
    use crate::check::js; use std::fmt::Write as _;
    let m = crate::ir::load(&a.ir); let prog = Prog::new(m);
    let known = crate::check::load_known(&format!("{}/known-findings.txt", a.root));
    let r = run14(&prog, funs, &a.lib, a.pat.as_deref(), a.tier == "thorough", t0 + std::time::Duration::from_secs(if a.tier == "thorough" { 20000 } else { 560 }));
    for k in &known { if k.prop == "P14" { println!("KNOWN-FINDING: property=P14 {}", k.text) } }
    let dir = format!("{}/evidence/replay", a.root); let _ = std::fs::create_dir_all(&dir);
    let (mut nv, mut ks) = (0, 0); let mut seen: std::collections::BTreeSet<(usize, String)> = Default::default();
    for (obl, conf, fi, p, bufs, d, what, isa) in &r.viols { let f = &funs[*fi]; let cls = obl.rsplit('/').next().unwrap().split(':').next().unwrap();
        let rej = what.contains("rejected"); let cls2 = if cls == "grid" { if rej { "accept" } else { "reject" } } else { cls };
        if known.iter().any(|k| k.prop == "P14" && crate::check::glob(&k.fun, &f.name) && crate::check::glob(&k.cls, cls2) && k.cond.iter().all(|c| c == &format!("geo{}", p.geo))) { ks += 1; continue; }
        if !seen.insert((*fi, obl.clone())) { continue; } nv += 1; if nv > 12 { continue; }
        let path = format!("{}/P14-{}.replay", dir, nv - 1); let mut o = String::new();
        writeln!(o, "# replay on the compiled library: /verif/tools/replay.sh {}\nproperty P14\nfunction {}\nisa {}\n{}\ndims {} {} {} {}", path, f.name, isa, plines(p), d[0].0, d[0].1, d[1].0, d[1].1).unwrap();
        for b in bufs { writeln!(o, "buf {} {}", b.0, b.1).unwrap(); }
        writeln!(o, "# obligation {}\n# verifier: {}\n# native run: {}", obl, what, conf.as_deref().unwrap_or("no failing input found")).unwrap(); let _ = std::fs::write(&path, o);
        println!("obligation {} :: {} (image sizes {:?}, buffer length and stride {:?}; depth {} mode {} direction {})", obl, what, d, bufs, p.depth, p.mode, p.geo);
        println!("VIOLATION property=P14 replay={}{}", path, if conf.is_some() { "" } else { " no-failing-input-found" }); }
    for u in r.undecided.iter().take(10) { println!("undecided: {}", u) }
    let wall = t0.elapsed().as_secs_f64(); let fails = r.viols.len() as u64;
    let names: std::collections::BTreeSet<&str> = funs.iter().filter(|f| a.pat.as_ref().map_or(true, |p| crate::check::pat(p, &f.name))).map(|f| f.name.as_str()).collect();
    let ev = format!("{{\n \"property\": \"P14\", \"tier\": {}, \"seed\": {}, \"level\": \"proof\", \"wall_s\": {:.2},\n \"coverage\": {{\n  \"explanation\": {},\n  \"obligations\": {}, \"discharged\": {},\n  \"checker_cmd\": \"engine check P14 (tools/run_check.sh P14)\",\n  \"functions_under_contract\": {}, \"functions\": [{}],\n  \"option_sets\": {}, \"paths\": {}, \"solver\": \"z3 and cvc5 (QF_NIA)\", \"solver_queries\": {}, \"answered_from_cache\": {}, \"solver_s\": {:.1},\n  \"paths_entering_the_conversion\": {}, \"undecided\": {}, \"engine_paths_not_reproduced\": {}, \"violations\": {}, \"known_findings_matched\": {},\n  \"native_boundary_calls\": {},\n  \"bounded\": \"the native boundary calls and the panic-freedom of the conversion after validation (see P13) are bounded and not counted as proved\",\n  \"samples\": [\"reject: for all dims, strides, lengths: malformed(dims, strides, lengths) implies the call returns Err before any image byte is read or written\", \"accept: for all dims, strides, lengths: wellformed(...) implies no path of the validation returns Err\"],\n  \"trusted_base\": [{}]\n }}\n}}\n",
        js(&a.tier), a.seed, wall, js("For every public conversion the path conditions of its validation code (symbolic execution of the LLVM IR rustc emits for /repo's sources in this run, dimensions, strides and buffer lengths symbolic and unbounded) are sent to z3/cvc5: no path on malformed arguments returns Ok, panics or touches an image buffer; no path of the validation rejects well-formed arguments. Models are replayed on the compiled library."),
        r.obls, r.obls.saturating_sub(fails + r.undecided.len() as u64), names.len(), names.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), r.cases, r.paths, r.queries, r.hits, r.time, r.cut, r.undecided.len(), r.quiet.len(), nv, ks, r.natcalls, TRUST14.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = std::fs::write(format!("{}/evidence/P14.json", a.root), ev);
    println!("P14: {} functions, {} option sets, {} obligations, {} paths, {} solver queries, {} violations, {} undecided, {:.1}s", r.funs, r.cases, r.obls, r.paths, r.queries, nv, r.undecided.len(), wall);
    if nv > 0 { return 1; }
    if r.obls == 0 || r.undecided.len() as u64 * 2 > r.obls { println!("P14: the verifier could not decide this property here (vacuous run)"); return 2; }
    0
}
pub fn replay(kv: &std::collections::HashMap<&str, Vec<&str>>, txt: &str, f: &Fun, p: &Params, lib: &str) -> i32 {
    let isa: usize = kv["isa"][0].parse().unwrap(); let d: Vec<u64> = kv["dims"].iter().map(|x| x.parse().unwrap()).collect();
    let bufs: Vec<(usize, usize)> = txt.lines().filter_map(|l| { let l = l.strip_prefix("buf ")?; let (a, b) = l.split_once(' ')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect();
    match native14(&mut Native::new(lib), f, p, isa, &bufs, [(d[0], d[1]), (d[2], d[3])]) { Some(w) => { println!("{}: {}", f.name, w); println!("the contract is broken on this input"); 1 } None => { println!("the contract holds on this input"); 0 } }
}
