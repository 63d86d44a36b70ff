//! Symbolic executor for the LLVM IR of the compiled sources.
use crate::gap::*;
use crate::ir::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub type Cell = u64;
pub const C_UN: u64 = 0;
const TG: u64 = 3 << 62;
const TG_T: u64 = 1 << 62;
const TG_P: u64 = 2 << 62;
const TG_B: u64 = 3 << 62;
#[inline]
pub fn c_term(t: T, b: u8) -> Cell { TG_T | (b as u64) << 32 | t as u64 }
#[inline]
pub fn cell_term(c: Cell) -> Option<(T, u8)> { if c & TG == TG_T { Some((c as u32, (c >> 32) as u8 & 63)) } else { None } }
#[inline]
pub fn c_byte(v: u8) -> Cell { TG_B | v as u64 }
fn c_ptr(p: u32, b: u8) -> Cell { TG_P | (b as u64) << 32 | p as u64 }

#[derive(Clone, Debug)]
pub enum V { K(u8, u64), S(T), P(u32, i64), PS(u32, T), /// affine in the image size, see gap.rs
    A(u8, Rc<Aff>), PA(u32, Rc<Aff>), Vec(Rc<Vec<T>>), W(Rc<Vec<Cell>>), Agg(Rc<Vec<V>>), F(Arc<str>), Un }

pub const GL: u32 = 1 << 31;
#[derive(Clone)]
pub struct Obj { pub cells: Rc<Vec<Cell>>, pub base: u64, pub name: u32, pub kind: u8, pub zone: Option<Rc<Zone>> } // kind 0 stack,1 heap,2 plane,3 global
pub const K_STACK: u8 = 0; pub const K_HEAP: u8 = 1; pub const K_PLANE: u8 = 2; pub const K_GLOBAL: u8 = 3; pub const K_ROPLANE: u8 = 4; /// heap block of symbolic size
pub const K_OPAQUE: u8 = 5;

#[derive(Clone, Debug)]
pub struct Viol { pub pc: Vec<T>, pub kind: &'static str, pub msg: String }

pub struct Prog { pub m: Module, cache: Mutex<HashMap<String, Arc<Func>>>, lcache: Mutex<HashMap<(usize, String), Arc<Func>>>, pub used: Mutex<std::collections::BTreeMap<String, u64>> }
impl Prog {
    pub fn new(m: Module) -> Prog { Prog { m, cache: Default::default(), lcache: Default::default(), used: Default::default() } }
    pub fn func(&self, file: usize, name: &str) -> Option<Arc<Func>> {
        if let Some(t) = self.m.local.get(&(file, name.to_string())) {
            let k = (file, name.to_string());
            if let Some(f) = self.lcache.lock().unwrap().get(&k) { return Some(f.clone()); }
            let mut f = parse_fn(&self.m.files[t.file][t.start..t.end]); f.file = t.file; f.prep();
            let f = Arc::new(f); self.lcache.lock().unwrap().insert(k, f.clone()); return Some(f);
        }
        if let Some(f) = self.cache.lock().unwrap().get(name) { return Some(f.clone()); }
        let t = match self.m.fns.get(name) { Some(t) => t, None => { let (fi, tg) = self.m.aliases.get(name)?; return self.func(*fi, tg); } };
        let mut f = parse_fn(&self.m.files[t.file][t.start..t.end]); f.file = t.file; f.prep();
        let f = Arc::new(f); self.cache.lock().unwrap().insert(name.to_string(), f.clone()); Some(f)
    }
}

pub type R<X> = Result<X, String>;
pub enum Flow { Stop, Ret(V), Div }
pub enum Out { Ret(V), Div }

/// path-wise exploration with a solver (used for the validators): one run per feasible sequence of branches
pub struct Path { pub script: Vec<bool>, pub pos: usize, pub pending: Vec<Vec<bool>>, pub feasible: Box<dyn FnMut(&Store, &[T], T) -> bool>, pub max: usize, pub seen: FxMap<(usize, u32), u32> }
#[derive(Clone)]
enum Callee { F(Arc<Func>), X(Rc<str>) }

pub struct Ex<'a> {
    pub st: Store,
    pub prog: &'a Prog,
    pub mem: Vec<Option<Obj>>,
    pub glob: Vec<Obj>,
    gmap: HashMap<(usize, String), u32>,
    kcache: FxMap<usize, V>,
    ccache: FxMap<(usize, usize), Callee>,
    ptrs: Vec<V>,
    next_base: u64,
    pub pc: Vec<T>,
    pub viol: Vec<Viol>,
    pub steps: u64,
    pub max_steps: u64,
    pub forks: u32,
    pub detect: u64,
    pub calls: FxMap<usize, (Arc<Func>, u64)>,
    urc: FxMap<T, (u64, u64)>,
    tabmap: HashMap<(u8, Vec<u64>), u32>,
    pub depth: u32,
    pub trace: bool,
    pub path: Option<Path>,
    pub touched: bool,
    pub gap: Option<Gap>,
    pub cur: usize,
    affbad: std::cell::Cell<bool>,
}

pub struct Frame<'f> { pub f: &'f Func, pub regs: Vec<V>, pub loops: Vec<LoopRec> }

impl<'a> Ex<'a> {
    pub fn new(prog: &'a Prog) -> Ex<'a> {
        Ex { st: Store::new(), prog, mem: vec![None], glob: vec![], gmap: HashMap::new(), kcache: Default::default(), ccache: Default::default(), ptrs: vec![], next_base: 1 << 20, pc: vec![], viol: vec![], steps: 0, max_steps: 20_000_000, path: None, touched: false, gap: None, cur: 0, affbad: Default::default(), forks: 0, detect: 0, calls: Default::default(), urc: Default::default(), tabmap: HashMap::new(), depth: 0, trace: false }
    }
    pub fn reset(&mut self) { self.mem.clear(); self.mem.push(None); self.next_base = 1 << 20; self.pc.clear(); self.viol.clear(); self.gap = None; self.affbad.set(false); self.steps = 0; self.forks = 0; self.depth = 0; }
    pub fn reset_store(&mut self) { self.reset(); self.ptrs.clear(); self.st = Store::new(); self.glob.clear(); self.gmap.clear(); self.kcache.clear(); self.urc.clear(); self.tabmap.clear(); }
    pub fn alloc(&mut self, cells: Vec<Cell>, kind: u8, name: u32) -> u32 {
        let n = cells.len() as u64;
        let base = self.next_base; self.next_base = (base + n + 4096 + 63) & !63;
        let id = self.mem.len() as u32;
        self.mem.push(Some(Obj { cells: Rc::new(cells), base, name, kind, zone: None })); id
    }
    pub fn obj(&self, id: u32) -> Option<&Obj> { if id & GL != 0 { self.glob.get((id & !GL) as usize) } else { self.mem.get(id as usize).and_then(|x| x.as_ref()) } }
    fn cells_mut(&mut self, id: u32) -> &mut Vec<Cell> { let o = if id & GL != 0 { &mut self.glob[(id & !GL) as usize] } else { self.mem[id as usize].as_mut().unwrap() }; Rc::make_mut(&mut o.cells) }

    // ---- value helpers
    #[inline]
    pub fn t(&mut self, v: &V, w: u8) -> R<T> {
        match v { V::K(kw, k) => { Ok(self.st.k(*kw, *k)) } V::S(t) => Ok(*t), V::Un => Ok(self.st.undef(w)),
            V::P(..) => { let a = self.p2i(v)?; Ok(self.st.k(64, a)) }
            V::W(c) if c.len() <= 8 => { let c = c.clone(); Ok(self.from_cells(&c, w)) }
            V::Vec(l) if l.len() == 1 => Ok(l[0]),
            _ => Err(format!("scalar expected, got {:?}", v)) }
    }
    #[inline]
    pub fn mkv(&self, t: T) -> V { match self.st.cv(t) { Some(k) => V::K(self.st.w(t), k), None => V::S(t) } }
    fn lanes(&mut self, v: &V, n: u32, w: u8) -> R<Rc<Vec<T>>> {
        match v { V::Vec(l) => Ok(l.clone()), V::Un => { let u = self.st.undef(w); Ok(Rc::new(vec![u; n as usize])) } V::W(c) => { let c = c.clone(); let bw = (w as usize + 7) / 8; Ok(Rc::new(c.chunks(bw).map(|x| self.from_cells(x, w)).collect())) } _ => Err(format!("vector expected {:?}", v)) }
    }
    fn p2i(&self, v: &V) -> R<u64> { match v { V::P(0, o) => Ok(*o as u64), V::P(id, o) => Ok(self.obj(*id).ok_or("dead obj")?.base.wrapping_add(*o as u64)), V::F(_) => Ok(0x7000_0000), _ => Err("ptrtoint symbolic".into()) } }
    fn i2p(&self, a: u64) -> V {
        if a < (1 << 20) { return V::P(0, a as i64); }
        for (i, o) in self.mem.iter().enumerate() { if let Some(o) = o { if a >= o.base && a <= o.base + o.cells.len() as u64 { return V::P(i as u32, (a - o.base) as i64); } } }
        for (i, o) in self.glob.iter().enumerate() { if a >= o.base && a <= o.base + o.cells.len() as u64 { return V::P(i as u32 | GL, (a - o.base) as i64); } }
        V::P(0, a as i64)
    }
    pub fn from_cells(&mut self, c: &[Cell], w: u8) -> T {
        let nb = (w as usize + 7) / 8;
        debug_assert!(c.len() >= nb);
        let first = c[0];
        if first & TG == TG_T && (first >> 32) as u8 & 63 == 0 {
            let t = first as u32; let tw = self.st.w(t) as usize;
            if tw == w as usize && (1..nb).all(|i| c[i] == first + ((i as u64) << 32)) { return t; }
        }
        if first & TG == TG_B && c[..nb].iter().all(|x| x & TG == TG_B) {
            let mut k = 0u64; for i in (0..nb).rev() { k = k << 8 | (c[i] & 255) } return self.st.k(w, k);
        }
        let mut r: Option<T> = None;
        for i in 0..nb {
            let bw = if i == nb - 1 { w - 8 * (nb as u8 - 1) } else { 8 };
            let x = match c[i] & TG { C_UN => self.st.undef(8), TG_B => self.st.k(8, c[i] & 255), TG_T => { let t = c[i] as u32; let b = (c[i] >> 32) as u8 & 63; let tw = self.st.w(t); if tw < 8 { self.st.zext(t, 8) } else if tw < b * 8 + 8 { let z = self.st.zext(t, b * 8 + 8); self.st.extract(z, b * 8, 8) } else { self.st.extract(t, b * 8, 8) } } _ => { let a = self.ptr_byte(c[i]); self.st.k(8, a as u64) } };
            let x = if bw < 8 { self.st.extract(x, 0, bw) } else { x };
            r = Some(match r { None => x, Some(l) => self.st.concat(x, l) });
        }
        r.unwrap()
    }
    fn ptr_byte(&self, c: Cell) -> u8 { if is_a(&self.ptrs[c as u32 as usize]) { self.affbad.set(true); } let p = &self.ptrs[c as u32 as usize]; let b = (c >> 32) as u32 & 63; (self.p2i(p).unwrap_or(0) >> (8 * b)) as u8 }
    fn push_term(&self, t: T, out: &mut Vec<Cell>) { let w = self.st.w(t); let nb = (w + 7) / 8; match self.st.cv(t) { Some(k) => for i in 0..nb { out.push(c_byte((k >> (8 * i)) as u8)) }, None => { if self.st.node(t).op == Op::Undef { for _ in 0..nb { out.push(C_UN) } } else { for i in 0..nb { out.push(c_term(t, i)) } } } } }
    /// serialise a value of a type into memory bytes
    pub fn to_cells(&mut self, ty: &Ty, v: &V, out: &mut Vec<Cell>) -> R<()> {
        let n0 = out.len(); let sz = match ty { Ty::Int(w) => (*w as u64 + 7) / 8, _ => ty.size() };
        match v {
            V::Un => { for _ in 0..sz { out.push(C_UN) } }
            V::K(w, k) => { let nb = (*w + 7) / 8; for i in 0..nb { out.push(c_byte((k >> (8 * i)) as u8)) } }
            V::S(t) => self.push_term(*t, out),
            V::P(..) | V::PS(..) | V::F(_) | V::A(..) | V::PA(..) => { let id = self.ptrs.len() as u32; self.ptrs.push(v.clone()); for i in 0..if let V::A(w, _) = v { (*w + 7) / 8 } else { 8 } { out.push(c_ptr(id, i)) } }
            V::W(c) => out.extend_from_slice(c),
            V::Vec(l) => {
                let lw = if l.is_empty() { 8 } else { self.st.w(l[0]) };
                if lw == 1 { // bit vector
                    let l = l.clone(); let mut i = 0; while i < l.len() { let mut b: Option<T> = None; let n = (l.len() - i).min(8); for j in 0..n { b = Some(match b { None => l[i + j], Some(x) => self.st.concat(l[i + j], x) }) } let b = b.unwrap(); let b = self.st.zext(b, 8); self.push_term(b, out); i += 8 }
                } else { for &t in l.iter() { self.push_term(t, out) } }
            }
            V::Agg(a) => {
                let a = a.clone();
                match ty { Ty::Struct(fs, _) => { for i in 0..fs.len() { let (o, t) = ty.field_off(i); while (out.len() - n0) < o as usize { out.push(C_UN) } let t = t.clone(); self.to_cells(&t, &a[i], out)?; } }
                    Ty::Arr(n, t) => { for i in 0..*n as usize { self.to_cells(t, &a[i], out)?; while out.len() - n0 < (i + 1) * t.size() as usize { out.push(C_UN) } } }
                    _ => return Err("agg to_cells".into()) }
            }
        }
        while ((out.len() - n0) as u64) < sz { out.push(C_UN) }
        Ok(())
    }
    pub fn of_cells(&mut self, ty: &Ty, c: &[Cell]) -> R<V> {
        Ok(match ty {
            Ty::Int(w) if *w <= 64 => {
                let nb = (*w as usize + 7) / 8;
                if c[0] & TG == TG_B { let mut k = 0u64; let mut ok = true; for i in (0..nb).rev() { if c[i] & TG != TG_B { ok = false; break; } k = k << 8 | (c[i] & 255) } if ok { return Ok(V::K(*w as u8, k & mask(*w as u8))); } }
                if *w == 64 && c[0] & TG == TG_P { if let Some(p) = self.ptr_cells(c) { return Ok(p); } }
                if c[0] & TG == TG_P && self.gap.is_some() { if let V::A(v, a) = &self.ptrs[c[0] as u32 as usize] { let nb = (*w as u64 + 7) / 8; if *w as u8 <= *v && *w > 1 && (0..nb).all(|i| c[i as usize] == c_ptr(c[0] as u32, i as u8)) { return Ok(mka(*w as u8, (**a).clone())); } } }
                let t = self.from_cells(c, *w as u8); self.mkv(t)
            }
            Ty::Int(w) => V::W(Rc::new(c[..(*w as usize + 7) / 8].to_vec())),
            Ty::Half | Ty::Float | Ty::Double => { let t = self.from_cells(c, ty.bits() as u8); self.mkv(t) }
            Ty::Ptr => {
                if let Some(p) = self.ptr_cells(c) { return Ok(p); }
                if c[0] & TG == TG_B { let t = self.from_cells(c, 64); if let Some(a) = self.st.cv(t) { return Ok(self.i2p(a)); } }
                if c[0] == C_UN { return Ok(V::Un); }
                return Err("load of pointer from data bytes".into());
            }
            Ty::Vec(n, t) => {
                let w = t.bits() as u8;
                if w == 1 { let mut l = vec![]; for i in 0..*n as usize { let b = self.from_cells(&c[i / 8..], 8); l.push(self.st.extract(b, (i % 8) as u8, 1)); } return Ok(V::Vec(Rc::new(l))); }
                let bw = w as usize / 8; let mut l = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize { l.push(self.from_cells(&c[i * bw..], w)) }
                V::Vec(Rc::new(l))
            }
            Ty::Struct(fs, _) => { let mut v = vec![]; for i in 0..fs.len() { let (o, t) = ty.field_off(i); let t = t.clone(); v.push(self.of_cells(&t, &c[o as usize..])?) } V::Agg(Rc::new(v)) }
            Ty::Arr(n, t) => { let mut v = vec![]; for i in 0..*n { v.push(self.of_cells(t, &c[(i * t.size()) as usize..])?) } V::Agg(Rc::new(v)) }
            _ => V::Un,
        })
    }
    fn ptr_cells(&self, c: &[Cell]) -> Option<V> {
        let f = c[0]; if f & TG != TG_P || (f >> 32) & 63 != 0 { return None; }
        if c.len() >= 8 && (1..8).all(|i| c[i] == f + ((i as u64) << 32)) { let v = self.ptrs[f as u32 as usize].clone(); if let V::A(w, _) = v { if w != 64 { return None; } } Some(v) } else { None }
    }

    // ---- ranges
    pub fn urange(&mut self, t: T) -> (u64, u64) {
        if let Some(k) = self.st.cv(t) { return (k, k); }
        if let Some(&r) = self.urc.get(&t) { return r; }
        let n = *self.st.node(t); let m = mask(n.w);
        let r = match n.op {
            Op::ZExt => self.urange(n.a),
            Op::Concat => { let a = self.urange(n.a); let b = self.urange(n.b); let wb = self.st.w(n.b); if a.0 == a.1 { ((a.0 << wb) | b.0, (a.0 << wb) | b.1) } else { (a.0 << wb, (a.1 << wb) | mask(wb)) } }
            Op::Extract => { let a = self.urange(n.a); let (lo, hi) = (a.0 >> n.k, a.1 >> n.k); if hi <= m { (lo, hi) } else { (0, m) } }
            Op::Add => { let a = self.urange(n.a); let b = self.urange(n.b); match (a.1.checked_add(b.1), ()) { (Some(h), _) if h <= m => (a.0 + b.0, h), _ => (0, m) } }
            Op::Mul => { let a = self.urange(n.a); let b = self.urange(n.b); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (0, m) } }
            Op::And => { let a = self.urange(n.a); let b = self.urange(n.b); (0, a.1.min(b.1)) }
            Op::UMin => { let a = self.urange(n.a); let b = self.urange(n.b); (a.0.min(b.0), a.1.min(b.1)) }
            Op::UMax => { let a = self.urange(n.a); let b = self.urange(n.b); (a.0.max(b.0), a.1.max(b.1)) }
            Op::SMin => { let a = self.urange(n.a); let b = self.urange(n.b); let h = m >> 1; if a.1 <= h && b.1 <= h { (a.0.min(b.0), a.1.min(b.1)) } else if b.1 <= h && a.0 <= h && b.0 == b.1 { (0, m) } else { (0, m) } }
            Op::SMax => { let b = self.urange(n.b); let h = m >> 1; let a = self.urange(n.a); if b.1 <= h && a.1 <= h { (a.0.max(b.0), a.1.max(b.1)) } else if b.1 <= h { 
                // smax(x, nonneg): within [b.0, signed max of x]
                let s = self.srange(n.a); (b.0, (s.1.max(b.1 as i64)) as u64) } else { (0, m) } }
            Op::USubSat => { let a = self.urange(n.a); let b = self.urange(n.b); (a.0.saturating_sub(b.1), a.1.saturating_sub(b.0)) }
            Op::UDiv => { let a = self.urange(n.a); let b = self.urange(n.b); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (0, m) } }
            Op::URem => { let b = self.urange(n.b); if b.0 > 0 { (0, b.1 - 1) } else { (0, m) } }
            Op::Ite => { let a = self.urange(n.b); let b = self.urange(n.c); (a.0.min(b.0), a.1.max(b.1)) }
            Op::Table => { let v = &self.st.tables[n.k as usize].1; let ir = self.urc.get(&n.a).cloned().unwrap_or((0, v.len() as u64 - 1)); let _ = ir; (*v.iter().min().unwrap(), *v.iter().max().unwrap()) }
            Op::FpToUi => (0, m),
            _ => (0, m),
        };
        self.urc.insert(t, r); r
    }
    pub fn srange(&mut self, t: T) -> (i64, i64) {
        let n = *self.st.node(t); let h = (mask(n.w) >> 1) as i64;
        let u = self.urange(t); if u.1 <= h as u64 { return (u.0 as i64, u.1 as i64); }
        match n.op {
            Op::SExt => self.srange(n.a),
            Op::SMin => { let a = self.srange(n.a); let b = self.srange(n.b); (a.0.min(b.0), a.1.min(b.1)) }
            Op::SMax => { let a = self.srange(n.a); let b = self.srange(n.b); (a.0.max(b.0), a.1.max(b.1)) }
            Op::Add => { let a = self.srange(n.a); let b = self.srange(n.b); let (l, g) = (a.0 as i128 + b.0 as i128, a.1 as i128 + b.1 as i128); if l >= -(h as i128) - 1 && g <= h as i128 { (l as i64, g as i64) } else { (-h - 1, h) } }
            Op::Const => { let s = sx(n.k, n.w); (s, s) }
            _ => (-h - 1, h),
        }
    }
    /// try to decide a boolean term by ranges
    pub fn decide(&mut self, c: T) -> Option<bool> {
        if let Some(k) = self.st.cv(c) { return Some(k != 0); }
        if self.pc.contains(&c) { return Some(true); }
        let nc = self.st.not1(c); if self.pc.contains(&nc) { return Some(false); }
        let n = *self.st.node(c);
        match n.op {
            Op::Ult => { let a = self.urange(n.a); let b = self.urange(n.b); if a.1 < b.0 { return Some(true); } if a.0 >= b.1 { return Some(false); } None }
            Op::Slt => { let a = self.srange(n.a); let b = self.srange(n.b); if a.1 < b.0 { return Some(true); } if a.0 >= b.1 { return Some(false); } None }
            Op::Eq => { let a = self.urange(n.a); let b = self.urange(n.b); if a.1 < b.0 || b.1 < a.0 { return Some(false); } None }
            Op::Xor if self.st.cv(n.b) == Some(1) => self.decide(n.a).map(|x| !x),
            Op::Or => { let a = self.decide(n.a); if a == Some(true) { return a; } let b = self.decide(n.b); if b == Some(true) { return b; } if a == Some(false) && b == Some(false) { return Some(false); } None }
            Op::And => { let a = self.decide(n.a); if a == Some(false) { return a; } let b = self.decide(n.b); if b == Some(false) { return b; } if a == Some(true) && b == Some(true) { return Some(true); } None }
            _ => None,
        }
    }
    pub fn violation(&mut self, kind: &'static str, msg: String) { let pc = self.pc.clone(); self.viol.push(Viol { pc, kind, msg }); }

    // ---- constants
    fn konst(&mut self, file: usize, ty: &Ty, c: &C) -> R<V> {
        match c { C::Int(w, k) => return Ok(V::K(*w as u8, *k)), C::Null => return Ok(V::P(0, 0)), C::Undef => return Ok(V::Un), _ => {} }
        let key = c as *const C as usize;
        if let Some(v) = self.kcache.get(&key) { return Ok(v.clone()); }
        let v = self.konst0(file, ty, c)?;
        self.kcache.insert(key, v.clone()); Ok(v)
    }
    fn konst0(&mut self, file: usize, ty: &Ty, c: &C) -> R<V> {
        Ok(match c {
            C::Int(w, k) => V::K(*w as u8, *k), C::Null => V::P(0, 0), C::Undef => V::Un,
            C::Big(w, l) => { let mut o = vec![]; for i in 0..(*w as usize / 8) { o.push(c_byte((l[i / 8] >> (8 * (i % 8))) as u8)) } V::W(Rc::new(o)) }
            C::Zero => self.zero(ty)?,
            C::Vec(v) => { let (n, et) = if let Ty::Vec(n, t) = ty { (*n, (**t).clone()) } else { return Err("vec const".into()) }; let _ = n; let w = et.bits() as u8; let mut l = vec![]; for x in v { let k = self.konst0(file, &et, x)?; l.push(self.t(&k, w)?) } V::Vec(Rc::new(l)) }
            C::Splat(x) => { let (n, et) = if let Ty::Vec(n, t) = ty { (*n, (**t).clone()) } else { return Err("splat".into()) }; let k = self.konst0(file, &et, x)?; let t = self.t(&k, et.bits() as u8)?; V::Vec(Rc::new(vec![t; n as usize])) }
            C::Agg(v) => { let mut o = vec![]; for (i, x) in v.iter().enumerate() { let et = match ty { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) => (**t).clone(), _ => return Err("agg const".into()) }; o.push(self.konst0(file, &et, x)?) } V::Agg(Rc::new(o)) }
            C::Str(b) => V::Agg(Rc::new(b.iter().map(|x| V::K(8, *x as u64)).collect())),
            C::Global(n) => { if self.prog.m.local.contains_key(&(file, n.to_string())) { V::F(Arc::from(format!("{}|{}", file, n).as_str())) } else if self.prog.m.fns.contains_key(&**n) || self.prog.m.aliases.contains_key(&**n) { V::F(n.clone()) } else { self.global(file, n)? } }
            C::Gep(b, o) => { let p = self.konst0(file, &Ty::Ptr, b)?; match p { V::P(i, x) => V::P(i, x + o), _ => return Err("const gep".into()) } }
            C::IntToPtr(b) => { let p = self.konst0(file, &Ty::Int(64), b)?; match p { V::K(_, k) => self.i2p(k), _ => return Err("const inttoptr".into()) } }
            C::PtrToInt(b) => self.konst0(file, &Ty::Ptr, b)?,
            _ => V::Un,
        })
    }
    fn zero(&mut self, ty: &Ty) -> R<V> {
        Ok(match ty { Ty::Int(w) if *w <= 64 => V::K(*w as u8, 0), Ty::Int(w) => V::W(Rc::new(vec![c_byte(0); *w as usize / 8])), Ty::Half => V::K(16, 0), Ty::Float => V::K(32, 0), Ty::Double => V::K(64, 0), Ty::Ptr => V::P(0, 0),
            Ty::Vec(n, t) => { let z = self.st.k(t.bits() as u8, 0); V::Vec(Rc::new(vec![z; *n as usize])) }
            Ty::Arr(n, t) => { let z = self.zero(t)?; V::Agg(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(f, _) => { let mut o = vec![]; for t in f { o.push(self.zero(t)?) } V::Agg(Rc::new(o)) }
            _ => V::Un })
    }
    fn global(&mut self, file: usize, n: &str) -> R<V> {
        let (fi, a, b, key) = if let Some(&(a, b)) = self.prog.m.globals_text.get(&(file, n.to_string())) { (file, a, b, (file, n.to_string())) } else if let Some(&(fi, a, b)) = self.prog.m.globals.get(n) { (fi, a, b, (usize::MAX, n.to_string())) } else {
            let key = (usize::MAX, n.to_string());
            if let Some(&id) = self.gmap.get(&key) { return Ok(V::P(id | GL, 0)); }
            let cells = if n.contains("std_detect") && n.contains("CACHE") { let d = self.detect; let mut c = vec![]; for i in 0..8 { c.push(c_byte((d >> (8 * i)) as u8)) } for _ in 0..2 { for i in 0..8 { c.push(c_byte(((1u64 << 63) >> (8 * i)) as u8)) } } c } else { vec![C_UN; 16] };
            let id = self.glob.len() as u32; let base = (1u64 << 40) + ((id as u64) << 24);
            self.glob.push(Obj { cells: Rc::new(cells), base, name: 0, kind: K_GLOBAL, zone: None }); self.gmap.insert(key, id);
            return Ok(V::P(id | GL, 0));
        };
        if let Some(&id) = self.gmap.get(&key) { return Ok(V::P(id | GL, 0)); }
        let g = parse_global(&self.prog.m.files[fi][a..b]);
        let id = self.glob.len() as u32; let base = (1u64 << 40) + ((id as u64) << 24);
        self.glob.push(Obj { cells: Rc::new(vec![C_UN; g.ty.size() as usize]), base, name: 0, kind: K_GLOBAL, zone: None }); self.gmap.insert(key, id);
        if let Some(c) = &g.init { let v = self.konst0(fi, &g.ty, c)?; let mut out = vec![]; self.to_cells(&g.ty, &v, &mut out)?; self.glob[id as usize].cells = Rc::new(out); }
        Ok(V::P(id | GL, 0))
    }
    pub fn set_detect(&mut self, d: u64) { // re-initialise the feature cache word
        self.detect = d;
        let ids: Vec<u32> = self.gmap.iter().filter(|(k, _)| k.1.contains("std_detect") && k.1.contains("CACHE")).map(|(_, v)| *v).collect();
        for id in ids { let o = &mut self.glob[id as usize]; let c = Rc::make_mut(&mut o.cells); for i in 0..8 { c[i] = c_byte((d >> (8 * i)) as u8) } }
    }

    // ---- memory
    fn access(&mut self, id: u32, off: i64, n: u64, what: &'static str) -> Option<()> {
        if self.path.is_some() && self.obj(id).map_or(false, |o| matches!(o.kind, K_PLANE | K_ROPLANE)) { self.touched = true; return None; }
        let (len, kind, name) = match self.obj(id) { Some(o) => (o.cells.len() as i64, o.kind, o.name), None => (0, 0, 0) };
        if n == 0 { return Some(()); }
        if off < 0 || off + n as i64 > len {
            let m = format!("{} of {} byte(s) at offset {} of a {}-byte {}", what, n, off, len, self.objname(kind, name)); self.violation("out-of-bounds", m); return None;
        }
        if what == "write" && (kind == K_ROPLANE) { let m = format!("write at offset {} of read-only {}", off, self.objname(kind, name)); self.violation("frame", m); return None; }
        Some(())
    }
    pub fn objname(&self, kind: u8, name: u32) -> String { match kind { K_STACK => "stack buffer".into(), K_HEAP => "heap buffer".into(), K_GLOBAL => "constant".into(), _ => format!("argument buffer #{}", name) } }
    /// None = diverged on a violation
    pub fn load(&mut self, ty: &Ty, p: &V) -> R<Option<V>> {
        let n = match ty { Ty::Int(w) => (*w as u64 + 7) / 8, _ => ty.size() };
        if self.gap.is_some() && n > 0 { if let Some((id, a)) = paff(p) { if is_a(p) || self.obj(id).map_or(false, |o| o.zone.is_some()) {
            let (off, k) = self.gap_access(id, &a, n, false)?;
            if self.access(id, off, n, "read").is_none() { return Ok(None); }
            let mut c = self.obj(id).unwrap().cells[off as usize..(off as u64 + n) as usize].to_vec(); for x in c.iter_mut().skip(k as usize) { *x = C_UN }
            let r = self.of_cells(ty, &c)?; if self.affbad.replace(false) { return Err("@aff bytes of an affine value".into()); } return Ok(Some(r));
        } } }
        match p {
            V::P(id, off) => {
                if self.access(*id, *off, n, "read").is_none() { return Ok(None); }
                if n == 0 { return Ok(Some(V::Un)); }
                let c = self.obj(*id).unwrap().cells.clone();
                let r = self.of_cells(ty, &c[*off as usize..])?; if self.affbad.replace(false) { return Err("@aff bytes of an affine value".into()); } Ok(Some(r))
            }
            V::PS(id, _) if self.path.is_some() && self.obj(*id).map_or(false, |o| matches!(o.kind, K_PLANE | K_ROPLANE)) => { self.touched = true; Ok(None) }
            V::PS(id, off) => self.load_sym(ty, *id, *off, n),
            _ => Err(format!("load from {:?}", p)),
        }
    }
    fn load_sym(&mut self, ty: &Ty, id: u32, off: T, n: u64) -> R<Option<V>> {
        let (lo, hi) = self.urange(off);
        let len = self.obj(id).ok_or("no obj")?.cells.len() as u64;
        if hi >= len || hi + n > len {
            // symbolic bound: report with the condition
            let k = self.st.k(64, len - n.min(len)); let c = self.st.ult(k, off); 
            if self.decide(c) != Some(false) { self.pc.push(c); let m = format!("table read up to offset {} of {} bytes", hi, len); self.violation("out-of-bounds", m); self.pc.pop(); }
        }
        let w = match ty { Ty::Int(w) if *w <= 64 => *w as u8, Ty::Half => 16, Ty::Float => 32, _ => return Err("symbolic load of aggregate".into()) };
        let s = n.trailing_zeros() as u8; if !n.is_power_of_two() { return Err("symbolic load size".into()); }
        let lowbits = if s > 0 { self.st.extract(off, 0, s) } else { 0 };
        let ph = if s > 0 { self.st.cv(lowbits).ok_or("symbolic load phase")? } else { 0 };
        let idx = if s > 0 { self.st.extract(off, s, 64 - s) } else { off };
        let cells = self.obj(id).unwrap().cells.clone();
        let cnt = ((len - ph) / n).min(hi / n + 1); let _ = lo;
        let mut tab = Vec::with_capacity(cnt as usize); let mut symbolic = false;
        for i in 0..cnt { let o = (i * n + ph) as usize; let mut k = 0u64; for j in (0..n as usize).rev() { let c = cells[o + j]; if c & TG != TG_B { if c == C_UN { k <<= 8; continue; } symbolic = true; break; } k = k << 8 | (c & 255) } tab.push(k); }
        if symbolic {
            if cnt > 300 { return Err("symbolic load from symbolic memory".into()); }
            let mut r: Option<T> = None;
            for i in (0..cnt).rev() { let o = (i * n + ph) as usize; let x = self.from_cells(&cells[o..], w); r = Some(match r { None => x, Some(y) => { let iw = self.st.w(idx); let k = self.st.k(iw, i); let c = self.st.eq(idx, k); self.st.ite(c, x, y) } }); }
            return Ok(Some(self.mkv(r.ok_or("empty")?)));
        }
        let key = (w, tab);
        let tid = match self.tabmap.get(&key) { Some(&i) => i, None => { let i = self.st.tables.len() as u32; self.st.tables.push(Rc::new(key.clone())); self.tabmap.insert(key, i); i } };
        // index narrowed to what the range needs
        let need = 64 - (cnt.max(1) - 1).leading_zeros() as u8; let iw = self.st.w(idx); let need = need.max(1).min(iw);
        let idx = self.st.extract(idx, 0, need);
        let t = self.st.table(tid, idx);
        Ok(Some(self.mkv(t)))
    }
    pub fn store(&mut self, ty: &Ty, v: &V, p: &V) -> R<Option<()>> {
        let n = match ty { Ty::Int(w) => (*w as u64 + 7) / 8, _ => ty.size() };
        if self.gap.is_some() && n > 0 { if let Some((id, a)) = paff(p) { if is_a(p) || self.obj(id).map_or(false, |o| o.zone.is_some()) {
            let (off, k) = self.gap_access(id, &a, n, true)?;
            if self.access(id, off, n, "write").is_none() { return Ok(None); }
            let mut out = Vec::with_capacity(n as usize); self.to_cells(ty, v, &mut out)?; for x in out.iter_mut().skip(k as usize) { *x = C_UN }
            let c = self.cells_mut(id); c[off as usize..off as usize + n as usize].copy_from_slice(&out[..n as usize]); return Ok(Some(()));
        } } }
        match p {
            V::P(id, off) => {
                if self.access(*id, *off, n, "write").is_none() { return Ok(None); }
                let mut out = Vec::with_capacity(n as usize); self.to_cells(ty, v, &mut out)?;
                if n == 0 { return Ok(Some(())); }
                let c = self.cells_mut(*id); c[*off as usize..*off as usize + n as usize].copy_from_slice(&out[..n as usize]);
                Ok(Some(()))
            }
            V::PS(id, _) if self.path.is_some() && self.obj(*id).map_or(false, |o| matches!(o.kind, K_PLANE | K_ROPLANE)) => { self.touched = true; Ok(None) }
            _ => Err(format!("store to {:?}", p)),
        }
    }
    pub fn is_plane(&self, v: &V) -> bool { if let V::P(id, _) | V::PS(id, _) = v { self.path.is_some() && self.obj(*id).map_or(false, |o| matches!(o.kind, K_PLANE | K_ROPLANE)) } else { false } }
    fn memcpy(&mut self, d: &V, s: &V, n: u64) -> R<Option<()>> {
        if n == 0 { return Ok(Some(())); }
        let dn = |v: &V| if let V::PA(i, a) = v { V::P(*i, a.c) } else { v.clone() };
        let (d, s) = (&dn(d), &dn(s));
        match (d, s) { (V::P(di, doff), V::P(si, soff)) => {
            if self.access(*si, *soff, n, "read").is_none() { return Ok(None); }
            if self.access(*di, *doff, n, "write").is_none() { return Ok(None); }
            let src = self.obj(*si).unwrap().cells.clone();
            let c = self.cells_mut(*di); c[*doff as usize..*doff as usize + n as usize].copy_from_slice(&src[*soff as usize..*soff as usize + n as usize]);
            Ok(Some(()))
        } _ => Err("memcpy symbolic".into()) }
    }

    // ---- calls
    pub fn call(&mut self, f: &Arc<Func>, args: Vec<V>) -> R<Out> {
        self.depth += 1; if self.depth > 200 { return Err("recursion".into()); }
        self.calls.entry(Arc::as_ptr(f) as usize).or_insert_with(|| (f.clone(), 0)).1 += 1;
        let mut fr = Frame { f: &**f, regs: vec![V::Un; f.nregs], loops: vec![] };
        for (i, a) in args.into_iter().enumerate() { if i < f.params.len() {
            // byval parameters get their own copy
            if f.byval[i] > 0 { let n = f.byval[i]; let id = self.alloc(vec![C_UN; n as usize], K_STACK, 0); let np = V::P(id, 0); if self.memcpy(&np, &a, n)?.is_none() { self.depth -= 1; return Ok(Out::Div); } fr.regs[f.params[i].1 as usize] = np; }
            else { fr.regs[f.params[i].1 as usize] = a; } } }
        let r = self.run(&mut fr, 0, u32::MAX);
        self.depth -= 1;
        match r? { Flow::Ret(v) => Ok(Out::Ret(v)), Flow::Div => Ok(Out::Div), Flow::Stop => Err("stop at top".into()) }
    }
    #[inline]
    fn op(&mut self, fr: &Frame, o: &O) -> R<V> { match o { O::R(r) => Ok(fr.regs[*r as usize].clone()), O::K(t, c) => self.konst(fr.f.file, t, c) } }

    fn enter(&mut self, fr: &mut Frame, from: u32, to: u32) -> R<usize> {
        let b = &fr.f.blocks[to as usize]; let mut n = 0; let mut vals: Vec<(u32, V)> = vec![];
        for i in b { if let I::Phi(_, inc) = &i.i { n += 1; let o = inc.iter().find(|x| x.1 == from).ok_or("phi pred")?; let v = self.op(fr, &o.0)?; vals.push((i.dst, v)); } else { break } }
        for (d, v) in vals { fr.regs[d as usize] = v }
        Ok(n)
    }
    /// executes from the start of `blk` (phis already done) until `stop` is entered (its phis evaluated), a return, or divergence
    fn run(&mut self, fr: &mut Frame, blk: u32, stop: u32) -> R<Flow> {
        if self.gap.is_none() { return self.run0(fr, blk, stop, 0); }
        let g = self.gap.as_mut().unwrap(); g.runs += 1; let id = g.runs; let mut b = blk;
        self.gap_block(fr, id, b);
        let r = loop { match self.run0(fr, b, stop, id) { Err(e) if e == "@gap" => match self.gap_jump(fr, id) { Ok(Some(h)) => b = h, Ok(None) => break Err(e), Err(e) => break Err(e) }, r => break r } };
        fr.loops.retain(|l| l.run != id); r
    }
    fn run0(&mut self, fr: &mut Frame, blk: u32, stop: u32, rid: u32) -> R<Flow> {
        let mut blk = blk; let mut pos = { let mut n = 0; for i in &fr.f.blocks[blk as usize] { if matches!(i.i, I::Phi(..)) { n += 1 } else { break } } n };
        let f: &Func = fr.f;
        loop {
            let insts = &f.blocks[blk as usize];
            let mut next: Option<u32> = None;
            while pos < insts.len() {
                let ins = &insts[pos]; pos += 1; self.steps += 1; self.cur = ins as *const Inst as usize;
                match &ins.i {
                    I::Br(b) => { next = Some(*b); break; }
                    I::CondBr(c, a, b) => {
                        match self.op(fr, c)? {
                            V::K(_, k) => { next = Some(if k != 0 { *a } else { *b }); }
                            V::S(t) if self.path.is_some() => { self.looping(fr, blk)?; let x = self.choose(t)?; next = Some(if x { *a } else { *b }); }
                            V::S(t) => { match self.decide(t) { Some(x) => next = Some(if x { *a } else { *b }), None => { match self.fork(fr, blk, &[(t, *a)], *b, stop)? { Ok(j) => { if j == stop { return Ok(Flow::Stop); } blk = j; pos = usize::MAX; } Err(fl) => return Ok(fl) } } } }
                            V::Un => { self.violation("undefined-branch", format!("branch on an uninitialised value in {}", f.name)); return Ok(Flow::Div); }
                            x => return Err(format!("br on {:?}", x)),
                        }
                        break;
                    }
                    I::Switch(_, v, d, cs) => {
                        match self.op(fr, v)? {
                            V::K(_, k) => next = Some(cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d)),
                            V::S(t) if self.path.is_some() => { let w = self.st.w(t); let mut to = *d; for (k, b) in cs { let kk = self.st.k(w, *k); let c = self.st.eq(t, kk); if self.choose(c)? { to = *b; break; } } next = Some(to); }
                            V::S(t) => { let w = self.st.w(t); let mut arms = vec![]; for (k, b) in cs { let kk = self.st.k(w, *k); arms.push((self.st.eq(t, kk), *b)); }
                                match self.fork(fr, blk, &arms, *d, stop)? { Ok(j) => { if j == stop { return Ok(Flow::Stop); } blk = j; pos = usize::MAX; } Err(fl) => return Ok(fl) } }
                            V::Un => { self.violation("undefined-branch", format!("switch on an uninitialised value in {}", f.name)); return Ok(Flow::Div); }
                            x => return Err(format!("switch on {:?}", x)),
                        }
                        break;
                    }
                    I::Ret(_, v) => { let v = match v { Some(v) => self.op(fr, v)?, None => V::Un }; return Ok(Flow::Ret(v)); }
                    I::Unreachable => { return Ok(Flow::Div); }
                    I::Resume => return Ok(Flow::Div),
                    I::Call(ty, callee, args, nd) => {
                        let r = self.do_call(fr, ty, callee, args)?;
                        match r { Out::Div => return Ok(Flow::Div), Out::Ret(v) => { if ins.dst != NOREG { fr.regs[ins.dst as usize] = v } } }
                        if let Some(b) = nd { next = Some(*b); break; }
                    }
                    _ => { match self.step(fr, ins)? { Some(v) => { if ins.dst != NOREG { fr.regs[ins.dst as usize] = v } } None => return Ok(Flow::Div) } }
                }
            }
            if self.steps > self.max_steps { return Err("step limit".into()); }
            if pos == usize::MAX { // resumed at a join (phis done)
                if rid > 0 { self.gap_block(fr, rid, blk) }
                pos = 0; for i in &f.blocks[blk as usize] { if matches!(i.i, I::Phi(..)) { pos += 1 } else { break } }
                continue;
            }
            let nb = next.ok_or("no terminator")?;
            pos = self.enter(fr, blk, nb)?;
            if nb == stop { return Ok(Flow::Stop); }
            if rid > 0 { self.gap_block(fr, rid, nb) }
            blk = nb;
        }
    }
    /// a branch taken again and again on unknown conditions is a loop over the image: the validation is over
    fn looping(&mut self, fr: &Frame, blk: u32) -> R<()> { let p = self.path.as_mut().unwrap(); let c = p.seen.entry((fr.f as *const Func as usize, blk)).or_insert(0); *c += 1; if *c > 8 { Err("@loop".into()) } else { Ok(()) } }
    fn choose(&mut self, t: T) -> R<bool> {
        if let Some(k) = self.st.cv(t) { return Ok(k != 0); }
        if self.pc.contains(&t) { return Ok(true); }
        let nt = self.st.not1(t); if self.pc.contains(&nt) { return Ok(false); }
        let p = self.path.as_mut().unwrap();
        let x = if p.pos < p.script.len() { p.script[p.pos] } else {
            if p.pos >= p.max { return Err("@deep".into()); }
            let a = (p.feasible)(&self.st, &self.pc, t); let b = !a || (p.feasible)(&self.st, &self.pc, nt);
            if a && b { let mut q = p.script.clone(); q.push(false); p.pending.push(q); }
            p.script.push(a); a };
        p.pos += 1; self.pc.push(if x { t } else { nt }); Ok(x)
    }
    /// data-dependent branch: run every arm up to the immediate post-dominator and merge. Ok(join) or Err(final flow)
    fn fork(&mut self, fr: &mut Frame, blk: u32, arms: &[(T, u32)], dflt: u32, stop: u32) -> R<Result<u32, Flow>> {
        self.forks += 1; if self.forks > 20000 { return Err("too many forks".into()); }
        let join = fr.f.ipdom[blk as usize];
        let _ = stop;
        let mut list: Vec<(T, u32)> = vec![]; let mut rest = self.st.k(1, 1);
        for &(c, b) in arms { let x = self.st.bin(Op::And, rest, c); list.push((x, b)); let n = self.st.not1(c); rest = self.st.bin(Op::And, rest, n); }
        list.push((rest, dflt));
        let mem0 = self.mem.clone(); let regs0 = fr.regs.clone(); let pcl = self.pc.len();
        let mut acc: Option<(T, Vec<Option<Obj>>, Vec<V>, Option<V>, bool)> = None;
        let mut maxlen = mem0.len();
        for (c, b) in list {
            if self.decide(c) == Some(false) { continue; }
            let mut m = mem0.clone(); while m.len() < maxlen { m.push(None) } self.mem = m; fr.regs = regs0.clone(); self.pc.truncate(pcl); self.pc.push(c);
            self.enter(fr, blk, b)?;
            let fl = if b == join { Flow::Stop } else { self.run(fr, b, join)? };
            maxlen = maxlen.max(self.mem.len());
            let (rv, isret) = match fl { Flow::Div => continue, Flow::Stop => (None, false), Flow::Ret(v) => (Some(v), true) };
            acc = Some(match acc {
                None => (c, std::mem::take(&mut self.mem), std::mem::take(&mut fr.regs), rv, isret),
                Some((_, m1, r1, v1, isret1)) => {
                    if isret != isret1 { return Err("fork arms end differently".into()); }
                    // merge: this arm if c else accumulated
                    let m2 = std::mem::take(&mut self.mem); let r2 = std::mem::take(&mut fr.regs);
                    let mut out = vec![];
                    for i in 0..m1.len().max(m2.len()) {
                        let o = match (m1.get(i).cloned().flatten(), m2.get(i).cloned().flatten()) { (None, x) => x, (x, None) => x, (Some(a), Some(b)) => { if Rc::ptr_eq(&a.cells, &b.cells) { Some(a) } else {
                            let mut cells = (*a.cells).clone();
                            self.merge_cells(c, &b.cells, &mut cells)?;
                            Some(Obj { cells: Rc::new(cells), ..a }) } } };
                        out.push(o);
                    }
                    let mut regs = Vec::with_capacity(r1.len());
                    for (a, b) in r1.into_iter().zip(r2.into_iter()) { regs.push(self.merge_v(c, &b, &a)) }
                    let v = match (v1, rv) { (Some(a), Some(b)) => Some(self.merge_v(c, &b, &a)), _ => None };
                    (c, out, regs, v, isret)
                }
            });
        }
        self.pc.truncate(pcl);
        match acc { None => Ok(Err(Flow::Div)), Some((_, m, r, v, isret)) => { self.mem = m; fr.regs = r; if isret { Ok(Err(Flow::Ret(v.unwrap()))) } else if join == u32::MAX { Err("fork without join".into()) } else { Ok(Ok(join)) } } }
    }
    fn merge_cells(&mut self, c: T, a: &[Cell], out: &mut [Cell]) -> R<()> {
        let n = out.len(); let mut i = 0;
        while i < n {
            if a[i] == out[i] { i += 1; continue; }
            if a[i] & TG == TG_P || out[i] & TG == TG_P {
                let (pa, pb) = (if i + 8 <= n { self.ptr_cells(&a[i..]) } else { None }, if i + 8 <= n { self.ptr_cells(&out[i..]) } else { None });
                match (pa, pb) { (Some(x), Some(y)) => { if Self::veq(&x, &y) { i += 8; continue; } let m = self.merge_v(c, &x, &y); let mut o = vec![]; self.to_cells(&Ty::Ptr, &m, &mut o)?; out[i..i + 8].copy_from_slice(&o); i += 8; continue; }
                    _ => { out[i] = C_UN; i += 1; continue; } }
            }
            if a[i] == C_UN || out[i] == C_UN { if out[i] == C_UN { out[i] = a[i]; } i += 1; continue; } // undefined bytes may take any value
            // whole-term merge when both sides store terms of equal width here
            let wid = |x: &Ex, cl: &[Cell], i: usize| -> usize { let f = cl[i]; if f & TG == TG_T && (f >> 32) & 63 == 0 { let nb = (x.st.w(f as u32) as usize + 7) / 8; if i + nb <= cl.len() && (1..nb).all(|j| cl[i + j] == f + ((j as u64) << 32)) { return nb; } } 0 };
            let mut nb = wid(self, a, i).max(wid(self, out, i)); if nb == 0 || nb > 8 || i + nb > n { nb = 1 }
            if (0..nb).any(|j| a[i + j] & TG == TG_P || out[i + j] & TG == TG_P || a[i + j] == C_UN || out[i + j] == C_UN) { nb = 1 }
            let x = self.from_cells(&a[i..], 8 * nb as u8); let y = self.from_cells(&out[i..], 8 * nb as u8);
            let m = self.st.ite(c, x, y); let mut o = vec![]; self.push_term(m, &mut o); out[i..i + nb].copy_from_slice(&o[..nb]); i += nb;
        }
        Ok(())
    }
    pub fn veq(a: &V, b: &V) -> bool { match (a, b) { (V::K(w, x), V::K(v, y)) => w == v && x == y, (V::S(x), V::S(y)) => x == y, (V::P(i, x), V::P(j, y)) => i == j && x == y, (V::PS(i, x), V::PS(j, y)) => i == j && x == y, (V::A(i, x), V::A(j, y)) => i == j && x == y, (V::PA(i, x), V::PA(j, y)) => i == j && x == y, (V::Vec(x), V::Vec(y)) => x == y, (V::W(x), V::W(y)) => x == y, (V::Un, V::Un) => true, (V::F(x), V::F(y)) => x == y, (V::Agg(x), V::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| Self::veq(a, b)), _ => false } }
    fn merge_v(&mut self, c: T, a: &V, b: &V) -> V {
        if Self::veq(a, b) { return a.clone(); }
        match (a, b) {
            (V::S(_) | V::K(..), V::K(..) | V::S(_)) => { let x = self.t(a, 0).unwrap(); let y = self.t(b, 0).unwrap(); if self.st.w(x) != self.st.w(y) { return V::Un; } let t = self.st.ite(c, x, y); self.mkv(t) }
            (V::Un, x) | (x, V::Un) => x.clone(),
            (V::P(i, x), V::P(j, y)) if i == j => { let x = self.st.k(64, *x as u64); let y = self.st.k(64, *y as u64); let t = self.st.ite(c, x, y); V::PS(*i, t) }
            (V::PS(i, x), V::PS(j, y)) if i == j => { let t = self.st.ite(c, *x, *y); V::PS(*i, t) }
            (V::Vec(x), V::Vec(y)) if x.len() == y.len() => { let (x, y) = (x.clone(), y.clone()); V::Vec(Rc::new(x.iter().zip(y.iter()).map(|(&p, &q)| if self.st.w(p) == self.st.w(q) { self.st.ite(c, p, q) } else { p }).collect())) }
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => { let (x, y) = (x.clone(), y.clone()); V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.merge_v(c, p, q)).collect())) }
            _ => V::Un,
        }
    }

    fn bin(&mut self, b: B, a: T, c: T) -> T {
        match b { B::Add => self.st.bin(Op::Add, a, c), B::Sub => self.st.bin(Op::Sub, a, c), B::Mul => self.st.bin(Op::Mul, a, c), B::UDiv => self.st.bin(Op::UDiv, a, c), B::SDiv => self.st.bin(Op::SDiv, a, c), B::URem => self.st.bin(Op::URem, a, c), B::SRem => self.st.bin(Op::SRem, a, c), B::And => self.st.bin(Op::And, a, c), B::Or => self.st.bin(Op::Or, a, c), B::Xor => self.st.bin(Op::Xor, a, c), B::Shl => self.st.bin(Op::Shl, a, c), B::LShr => self.st.bin(Op::LShr, a, c), B::AShr => self.st.bin(Op::AShr, a, c),
            B::FAdd => self.st.fbin(Op::FAdd, a, c), B::FSub => self.st.fbin(Op::FSub, a, c), B::FMul => self.st.fbin(Op::FMul, a, c), B::FDiv => self.st.fbin(Op::FDiv, a, c), B::FRem => self.st.fbin(Op::FSub, a, c) }
    }
    fn icmp(&mut self, p: P, a: T, b: T) -> T {
        match p { P::Eq => self.st.eq(a, b), P::Ne => { let e = self.st.eq(a, b); self.st.not1(e) } P::Ult => self.st.ult(a, b), P::Ugt => self.st.ult(b, a), P::Ule => { let e = self.st.ult(b, a); self.st.not1(e) } P::Uge => { let e = self.st.ult(a, b); self.st.not1(e) } P::Slt => self.st.slt(a, b), P::Sgt => self.st.slt(b, a), P::Sle => { let e = self.st.slt(b, a); self.st.not1(e) } P::Sge => { let e = self.st.slt(a, b); self.st.not1(e) } }
    }
    fn step(&mut self, fr: &mut Frame, ins: &Inst) -> R<Option<V>> {
        Ok(Some(match &ins.i {
            I::Bin(b, ty, x, y) => {
                let (x, y) = (self.op(fr, x)?, self.op(fr, y)?);
                if self.gap.is_some() && (is_a(&x) || is_a(&y)) { return Ok(Some(self.gap_bin(*b, &x, &y)?)); }
                if let (V::K(w, p), V::K(_, q)) = (&x, &y) {
                    let (w, p, q) = (*w, *p, *q); let o = match b { B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem, B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr, B::FAdd => Op::FAdd, B::FSub => Op::FSub, B::FMul => Op::FMul, B::FDiv => Op::FDiv, B::FRem => return Err("frem".into()) };
                    return Ok(Some(V::K(w, eval_op(o, w, w, w, 0, p, q, 0))));
                }
                if let Ty::Vec(n, t) = ty { let w = t.bits() as u8; let (a, c) = (self.lanes(&x, *n, w)?, self.lanes(&y, *n, w)?); let l = (0..a.len()).map(|i| self.bin(*b, a[i], c[i])).collect(); return Ok(Some(V::Vec(Rc::new(l)))); }
                if ty.bits() > 64 { return Ok(Some(self.wide_bin(*b, ty.bits(), &x, &y)?)); }
                // pointer difference carried as integers
                if let (V::P(i, p), V::P(j, q)) = (&x, &y) { if *b == B::Sub && i == j { return Ok(Some(V::K(64, (p - q) as u64))); } }
                if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) { let yt = self.t(&y, ty.bits() as u8)?; let z = self.st.k(ty.bits() as u8, 0); let e = self.st.eq(yt, z); if self.decide(e) == Some(true) { self.violation("division-by-zero", format!("in {}", fr.f.name)); return Ok(None); } }
                let w = ty.bits() as u8; let a = self.t(&x, w)?; let c = self.t(&y, w)?; let t = self.bin(*b, a, c); self.mkv(t)
            }
            I::ICmp(p, ty, x, y) => {
                let (x, y) = (self.op(fr, x)?, self.op(fr, y)?);
                if self.gap.is_some() && (is_a(&x) || is_a(&y)) { let r = self.gap_icmp(*p, &x, &y)?; return Ok(Some(V::K(1, r as u64))); }
                if let Ty::Vec(n, t) = ty { let w = t.bits() as u8; let (a, c) = (self.lanes(&x, *n, w)?, self.lanes(&y, *n, w)?); let l = (0..a.len()).map(|i| self.icmp(*p, a[i], c[i])).collect(); return Ok(Some(V::Vec(Rc::new(l)))); }
                if ty.bits() > 64 { return Ok(Some(self.wide_cmp(*p, &x, &y)?)); }
                if *ty == Ty::Ptr {
                    match (&x, &y) { (V::P(i, a), V::P(j, b)) if i == j => { let r = match p { P::Eq => a == b, P::Ne => a != b, P::Ult => a < b, P::Ugt => a > b, P::Ule => a <= b, P::Uge => a >= b, _ => return Err("ptr cmp".into()) }; return Ok(Some(V::K(1, r as u64))); }
                        (V::F(_), V::P(0, 0)) | (V::P(0, 0), V::F(_)) => return Ok(Some(V::K(1, (*p == P::Ne) as u64))), _ => {} }
                    let (a, b) = (self.p2i(&x)?, self.p2i(&y)?); let r = match p { P::Eq => a == b, P::Ne => a != b, P::Ult => a < b, P::Ugt => a > b, P::Ule => a <= b, P::Uge => a >= b, _ => return Err("ptr cmp".into()) }; return Ok(Some(V::K(1, r as u64)));
                }
                if matches!(x, V::Un) || matches!(y, V::Un) { return Ok(Some(V::Un)); }
                let w = ty.bits() as u8; let a = self.t(&x, w)?; let c = self.t(&y, w)?; let t = self.icmp(*p, a, c); self.mkv(t)
            }
            I::FCmp(p, ty, x, y) => {
                let (x, y) = (self.op(fr, x)?, self.op(fr, y)?);
                if let Ty::Vec(n, t) = ty { let w = t.bits() as u8; let (a, c) = (self.lanes(&x, *n, w)?, self.lanes(&y, *n, w)?); let l = (0..a.len()).map(|i| self.st.fcmp(*p, a[i], c[i])).collect(); return Ok(Some(V::Vec(Rc::new(l)))); }
                let w = ty.bits() as u8; let a = self.t(&x, w)?; let c = self.t(&y, w)?; let t = self.st.fcmp(*p, a, c); self.mkv(t)
            }
            I::FNeg(ty, x) => { let x = self.op(fr, x)?; if let Ty::Vec(n, t) = ty { let w = t.bits() as u8; let a = self.lanes(&x, *n, w)?; let l = a.iter().map(|&z| self.st.un(Op::FNeg, w, z, 0)).collect(); return Ok(Some(V::Vec(Rc::new(l)))); } let w = ty.bits() as u8; let a = self.t(&x, w)?; let t = self.st.un(Op::FNeg, w, a, 0); self.mkv(t) }
            I::Cast(c, ty, x, ty2) => { let x = self.op(fr, x)?; if is_a(&x) { return Ok(Some(self.gap_cast(*c, &x, ty2.bits() as u8)?)); } self.cast(*c, ty, x, ty2)? }
            I::Select(ty, vc, c, x, y) => {
                let (c, x, y) = (self.op(fr, c)?, self.op(fr, x)?, self.op(fr, y)?);
                if *vc { if let Ty::Vec(n, t) = ty { let w = t.bits() as u8; let cl = self.lanes(&c, *n, 1)?; let (a, b) = (self.lanes(&x, *n, w)?, self.lanes(&y, *n, w)?); let l = (0..a.len()).map(|i| self.st.ite(cl[i], a[i], b[i])).collect(); return Ok(Some(V::Vec(Rc::new(l)))); } }
                match c { V::K(_, k) => if k != 0 { x } else { y }, V::S(t) => match self.decide(t) { Some(true) => x, Some(false) => y, None => self.merge_v(t, &x, &y) }, _ => return Err("select cond".into()) }
            }
            I::Gep(p, ty, ix) => {
                let p = self.op(fr, p)?; let mut off = 0i64; let mut sym: Option<T> = None; let mut cur = ty.clone(); let mut first = true; let mut aoff: Option<Aff> = None;
                for (it, o) in ix {
                    let v = self.op(fr, o)?;
                    if let V::A(_, a) = &v { let s = if first { first = false; cur.size() } else { let (s, t2) = match &cur { Ty::Arr(_, t) => (t.size(), (**t).clone()), _ => return Err("gep aff".into()) }; cur = t2; s }; let t = a.scale(s as i64); aoff = Some(match aoff { None => t, Some(x) => x.add(&t) }); continue; }
                    if first { let s = cur.size(); first = false; match v { V::K(w, k) => off = off.wrapping_add(sx(k, w).wrapping_mul(s as i64)), _ => { let w = it.bits() as u8; let t = self.t(&v, w)?; let t = self.st.sext(t, 64); let k = self.st.k(64, s); let m = self.st.mul(t, k); sym = Some(match sym { None => m, Some(q) => self.st.add(q, m) }) } } }
                    else { match v { V::K(w, k) => { let (o, t2) = cur.field_off(sx(k, w) as usize); off += o as i64; cur = t2.clone() } _ => { let (s, t2) = match &cur { Ty::Arr(_, t) => (t.size(), (**t).clone()), _ => return Err("gep sym".into()) }; let w = it.bits() as u8; let t = self.t(&v, w)?; let t = self.st.sext(t, 64); let k = self.st.k(64, s); let m = self.st.mul(t, k); sym = Some(match sym { None => m, Some(q) => self.st.add(q, m) }); cur = t2 } } }
                }
                if aoff.is_some() || is_a(&p) { let (i, b) = paff(&p).ok_or("@aff gep")?; if sym.is_some() { return Err("@aff gep".into()); } let mut r = b.add(&Aff::k(off)); if let Some(t) = aoff { r = r.add(&t) } return Ok(Some(mkpa(i, r))); }
                match (p, sym) { (V::P(i, o), None) => V::P(i, o.wrapping_add(off)), (V::P(i, o), Some(s)) => { let k = self.st.k(64, o.wrapping_add(off) as u64); let t = self.st.add(s, k); self.mkp(i, t) } (V::PS(i, o), s) => { let k = self.st.k(64, off as u64); let mut t = self.st.add(o, k); if let Some(s) = s { t = self.st.add(t, s) } self.mkp(i, t) } (V::Un, _) => V::Un, (x, _) => return Err(format!("gep on {:?}", x)) }
            }
            I::Load(ty, p) => { let p = self.op(fr, p)?; return self.load(ty, &p); }
            I::Store(ty, v, p) => { let v = self.op(fr, v)?; let p = self.op(fr, p)?; return Ok(self.store(ty, &v, &p)?.map(|_| V::Un)); }
            I::Alloca(n) => { let id = self.alloc(vec![C_UN; *n as usize], K_STACK, 0); V::P(id, 0) }
            I::ExtractValue(_, v, ix) => { let mut v = self.op(fr, v)?; for i in ix { v = match &v { V::Agg(a) => a[*i as usize].clone(), V::Un => V::Un, _ => return Err("extractvalue".into()) } } v }
            I::InsertValue(ty, v, _, x, ix) => { let v = self.op(fr, v)?; let x = self.op(fr, x)?; self.insertv(ty, v, x, ix)? }
            I::ExtractElement(ty, v, i) => { let (n, w) = if let Ty::Vec(n, t) = ty { (*n, t.bits() as u8) } else { return Err("ee".into()) }; let v = self.op(fr, v)?; let l = self.lanes(&v, n, w)?; match self.op(fr, i)? { V::K(_, k) => { let t = l[k as usize]; self.mkv(t) } _ => return Err("extractelement symbolic".into()) } }
            I::InsertElement(ty, v, x, i) => { let (n, w) = if let Ty::Vec(n, t) = ty { (*n, t.bits() as u8) } else { return Err("ie".into()) }; let v = self.op(fr, v)?; let x = self.op(fr, x)?; let mut l = self.lanes(&v, n, w)?; drop(v); match self.op(fr, i)? { V::K(_, k) => { let t = self.t(&x, w)?; Rc::make_mut(&mut l)[k as usize] = t; V::Vec(l) } _ => return Err("insertelement symbolic".into()) } }
            I::Shuffle(ty, a, b, m) => { let (n, w) = if let Ty::Vec(n, t) = ty { (*n, t.bits() as u8) } else { return Err("sv".into()) }; let a = self.op(fr, a)?; let b = self.op(fr, b)?; let (a, b) = (self.lanes(&a, n, w)?, self.lanes(&b, n, w)?); let u = self.st.undef(w); V::Vec(Rc::new(m.iter().map(|&i| if i < 0 { u } else if (i as u32) < n { a[i as usize] } else { b[i as usize - n as usize] }).collect())) }
            I::Freeze(_, v) => { let v = self.op(fr, v)?; v }
            I::LandingPad => V::Un,
            I::Unsupported(s) => return Err(format!("unsupported instruction {}", s)),
            _ => return Err("step".into()),
        }))
    }
    fn mkp(&self, i: u32, t: T) -> V { match self.st.cv(t) { Some(k) => V::P(i, k as i64), None => V::PS(i, t) } }
    fn insertv(&mut self, ty: &Ty, v: V, x: V, ix: &[u32]) -> R<V> {
        if ix.is_empty() { return Ok(x); }
        let n = match ty { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, _ => return Err("insertvalue".into()) };
        let mut a = match v { V::Agg(a) => a, V::Un => Rc::new(vec![V::Un; n]), _ => return Err("insertvalue".into()) };
        let sub = match ty { Ty::Struct(f, _) => f[ix[0] as usize].clone(), Ty::Arr(_, t) => (**t).clone(), _ => unreachable!() };
        let m = Rc::make_mut(&mut a); let old = m[ix[0] as usize].clone(); m[ix[0] as usize] = self.insertv(&sub, old, x, &ix[1..])?;
        Ok(V::Agg(a))
    }
    fn cast(&mut self, c: CastOp, ty: &Ty, x: V, ty2: &Ty) -> R<V> {
        match c {
            CastOp::PtrToInt => { return match x { V::PS(..) | V::P(..) => match self.p2i(&x) { Ok(_) => Ok(x), Err(_) => Ok(x) }, _ => Ok(x) } }
            CastOp::IntToPtr => { return Ok(match x { V::K(_, k) => self.i2p(k), x @ (V::P(..) | V::PS(..)) => x, _ => return Err("inttoptr symbolic".into()) }) }
            _ => {}
        }
        if matches!(x, V::Un) { return Ok(V::Un); }
        if c == CastOp::BitCast {
            if let (Ty::Vec(n, a), Ty::Vec(m, b)) = (ty, ty2) { if n == m && a.bits() == b.bits() { return Ok(x); } }
            if ty.bits() != 0 && ty.bits() == ty2.bits() && ty.bits() <= 64 { return Ok(x); }
            if let V::Vec(l) = &x { // lane regrouping without byte detour for i1 lanes
                if !l.is_empty() && self.st.w(l[0]) == 1 { let l = l.clone(); let mut r = l[0]; for &y in l.iter().skip(1) { r = self.st.concat(y, r) } return Ok(self.mkv(r)); }
            }
            if let Ty::Vec(n, b) = ty2 { if b.bits() == 1 { let t = self.t(&x, *n as u8)?; return Ok(V::Vec(Rc::new((0..*n).map(|i| self.st.extract(t, i as u8, 1)).collect()))); } }
            let mut out = vec![]; self.to_cells(ty, &x, &mut out)?; return self.of_cells(ty2, &out);
        }
        if let (Ty::Vec(n, a), Ty::Vec(_, b)) = (ty, ty2) { let l = self.lanes(&x, *n, a.bits() as u8)?; let w2 = b.bits() as u8; let mut o = Vec::with_capacity(l.len()); for &t in l.iter() { o.push(self.cast1(c, t, w2)?) } return Ok(V::Vec(Rc::new(o))); }
        if ty.bits() > 64 || ty2.bits() > 64 {
            return match (c, x) { (CastOp::Trunc, V::W(cells)) => { if ty2.bits() > 64 { Ok(V::W(Rc::new(cells[..ty2.bits() as usize / 8].to_vec()))) } else { let t = self.from_cells(&cells, ty2.bits() as u8); Ok(self.mkv(t)) } }
                (CastOp::ZExt, v) => { let mut o = vec![]; self.to_cells(ty, &v, &mut o)?; while o.len() < ty2.bits() as usize / 8 { o.push(c_byte(0)) } Ok(V::W(Rc::new(o))) }
                _ => Err("wide cast".into()) };
        }
        if let V::P(..) = x { if c == CastOp::Trunc { let a = self.p2i(&x)?; return Ok(V::K(ty2.bits() as u8, a & mask(ty2.bits() as u8))); } }
        let t = self.t(&x, ty.bits() as u8)?; let r = self.cast1(c, t, ty2.bits() as u8)?; Ok(self.mkv(r))
    }
    fn cast1(&mut self, c: CastOp, t: T, w: u8) -> R<T> {
        Ok(match c { CastOp::ZExt => self.st.zext(t, w), CastOp::SExt => self.st.sext(t, w), CastOp::Trunc => self.st.extract(t, 0, w), CastOp::FpToSi => self.st.un(Op::FpToSi, w, t, 0), CastOp::FpToUi => self.st.un(Op::FpToUi, w, t, 0), CastOp::SiToFp => self.st.un(Op::SiToFp, w, t, 0), CastOp::UiToFp => self.st.un(Op::UiToFp, w, t, 0), CastOp::FpExt => self.st.un(Op::FpExt, w, t, 0), CastOp::FpTrunc => self.st.un(Op::FpTrunc, w, t, 0), _ => return Err("cast".into()) })
    }
    fn wide_cells(&mut self, w: u16, v: &V) -> R<Vec<Cell>> { let mut o = vec![]; self.to_cells(&Ty::Int(w), v, &mut o)?; Ok(o) }
    fn wide_bin(&mut self, b: B, w: u16, x: &V, y: &V) -> R<V> {
        let a = self.wide_cells(w, x)?; let c = self.wide_cells(w, y)?; let n = a.len();
        let cst = |v: &Vec<Cell>| -> Option<u64> { if v.iter().all(|x| x & TG == TG_B) { let mut k = 0u64; for i in (0..8).rev() { k = k << 8 | (v[i] & 255) } Some(k) } else { None } };
        match b {
            B::Shl | B::LShr => { let s = cst(&c).ok_or("wide shift")? as usize; if s % 8 != 0 { return Err("wide shift bits".into()); } let s = s / 8; let mut o = vec![c_byte(0); n]; for i in 0..n { if b == B::Shl { if i >= s { o[i] = a[i - s] } } else if i + s < n { o[i] = a[i + s] } } Ok(V::W(Rc::new(o))) }
            B::Or | B::And | B::Xor => { let mut o = vec![]; for i in 0..n { let p = self.from_cells(&a[i..i + 1], 8); let q = self.from_cells(&c[i..i + 1], 8); let r = self.bin(b, p, q); self.push_term(r, &mut o) } Ok(V::W(Rc::new(o))) }
            _ => Err(format!("wide {:?}", b)),
        }
    }
    fn wide_cmp(&mut self, p: P, x: &V, y: &V) -> R<V> {
        let a = self.wide_cells(128, x)?; let c = self.wide_cells(128, y)?; let mut r = self.st.k(1, 1);
        let n = a.len().min(c.len()); let mut i = 0; while i < n { let k = (n - i).min(8); let s = self.from_cells(&a[i..], 8 * k as u8); let t = self.from_cells(&c[i..], 8 * k as u8); let e = self.st.eq(s, t); r = self.st.bin(Op::And, r, e); i += k }
        match p { P::Eq => Ok(self.mkv(r)), P::Ne => { let n = self.st.not1(r); Ok(self.mkv(n)) } _ => Err("wide cmp".into()) }
    }

    fn do_call(&mut self, fr: &mut Frame, ty: &Ty, callee: &O, args: &[(Ty, O)]) -> R<Out> {
        let key = (callee as *const O as usize, 0usize);
        let cal = match callee {
            O::K(_, C::Global(n)) => match self.ccache.get(&key) { Some(c) => c.clone(), None => { let c = match self.prog.func(fr.f.file, n) { Some(f) => Callee::F(f), None => Callee::X(Rc::from(&**n)) }; self.ccache.insert(key, c.clone()); c } },
            _ => match self.op(fr, callee)? { V::F(n) => match match n.split_once('|') { Some((fi, l)) => self.prog.func(fi.parse().unwrap(), l), None => self.prog.func(fr.f.file, &n) } { Some(f) => Callee::F(f), None => Callee::X(Rc::from(&*n)) }, x => return Err(format!("indirect call {:?}", x)) },
        };
        match cal {
            Callee::F(f) => { let mut a = Vec::with_capacity(args.len()); for (_, o) in args { a.push(self.op(fr, o)?) } self.call(&f, a) }
            Callee::X(n) => {
                if n.starts_with("llvm.") { if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") { return Ok(Out::Ret(V::Un)); } }
                let mut a = Vec::with_capacity(args.len()); for (_, o) in args { a.push(self.op(fr, o)?) }
                crate::intr::ext(self, &n, ty, args, a, fr.f)
            }
        }
    }
    // helpers for intrinsics
    pub fn xlanes(&mut self, v: &V, n: u32, w: u8) -> R<Rc<Vec<T>>> { self.lanes(v, n, w) }
    pub fn xmemcpy(&mut self, d: &V, s: &V, n: u64) -> R<Option<()>> { self.memcpy(d, s, n) }
    pub fn zoned(&self, v: &V) -> bool { if let V::P(i, _) | V::PA(i, _) = v { self.obj(*i).map_or(false, |o| o.zone.is_some()) } else { false } }
    pub fn same_ptr(&self, a: Cell, b: Cell) -> bool { a & TG == TG_P && b & TG == TG_P && (a >> 32) == (b >> 32) && Self::veq(&self.ptrs[a as u32 as usize], &self.ptrs[b as u32 as usize]) }
    pub fn xwrite(&mut self, id: u32, off: i64, cells: &[Cell]) -> Option<()> { self.access(id, off, cells.len() as u64, "write")?; let c = self.cells_mut(id); c[off as usize..off as usize + cells.len()].copy_from_slice(cells); Some(()) }
    pub fn free(&mut self, id: u32) { if id & GL == 0 { if let Some(o) = self.mem.get_mut(id as usize) { *o = None } } }
}
