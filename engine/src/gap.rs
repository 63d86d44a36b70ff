//! Generalisation over the image size by induction.
//!
//! A gap run is a run on an image of (w0 + P(j1+j2)) x (h0 + Q(k1+k2)) pixels with strides row + pad + s, for symbolic
//! j1, j2, k1, k2, s >= 0.  Integers and pointers that depend on the size are affine forms c + sum a_i m_i over products m_i
//! of those symbols.  Every plane is cut at two columns and two rows; the j1 (j2, k1, k2) blocks in the cuts are not
//! represented, only the blocks in front, between and behind are, so memory is indexed by the constant part of an address
//! while its symbolic part must name the zone the constant part lies in.  A loop that reaches a cut is moved across it:
//! the state at the cut is generalised to State(j) = state + j * (change per iteration) (parts that change in another way
//! become undefined), and at the second cut the state reached by executing the block between the cuts from State(j1) must
//! be State(j1+1), which is the induction step.  Branches must have one outcome for all values of the symbols.
use crate::exec::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const J1: u16 = 1; pub const J2: u16 = 2; pub const K1: u16 = 4; pub const K2: u16 = 8; pub const S0: u16 = 16;
/// upper limits of the symbols
fn lim(m: u16) -> i128 { let mut r = 1i128; for b in 0..16 { if m >> b & 1 != 0 { r *= match b { 0 | 1 => 1 << 20, 2 | 3 => 1 << 22, _ => 1 << 16 } } } r }

pub fn gapt() -> bool { static G: std::sync::OnceLock<bool> = std::sync::OnceLock::new(); *G.get_or_init(|| std::env::var("GAPT").is_ok()) }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Aff { pub c: i64, pub m: Vec<(u16, i64)> }
impl Aff {
    pub fn k(c: i64) -> Aff { Aff { c, m: vec![] } }
    pub fn lin(&self, s: i64, o: &Aff, t: i64) -> Aff { // s*self + t*o
        let mut m = Vec::with_capacity(self.m.len() + o.m.len()); let (mut i, mut j) = (0, 0);
        while i < self.m.len() || j < o.m.len() {
            let a = self.m.get(i).map_or(u16::MAX, |x| x.0); let b = o.m.get(j).map_or(u16::MAX, |x| x.0); let k = a.min(b); let mut v = 0i64;
            if a == k { v = v.wrapping_add(self.m[i].1.wrapping_mul(s)); i += 1 } if b == k { v = v.wrapping_add(o.m[j].1.wrapping_mul(t)); j += 1 }
            if v != 0 { m.push((k, v)) } }
        Aff { c: self.c.wrapping_mul(s).wrapping_add(o.c.wrapping_mul(t)), m }
    }
    pub fn add(&self, o: &Aff) -> Aff { self.lin(1, o, 1) }
    pub fn sub(&self, o: &Aff) -> Aff { self.lin(1, o, -1) }
    pub fn scale(&self, k: i64) -> Aff { self.lin(k, &Aff::k(0), 0) }
    pub fn coef(&self, m: u16) -> i64 { self.m.iter().find(|x| x.0 == m).map_or(0, |x| x.1) }
    pub fn mul(&self, o: &Aff) -> Option<Aff> {
        let mut r = o.scale(self.c); // self.c * o
        for &(a, x) in &self.m { let mut t = Aff { c: 0, m: vec![(a, x.checked_mul(o.c)?)] }; if o.c == 0 { t.m.clear() } for &(b, y) in &o.m { if a & b != 0 { return None; } t = t.add(&Aff { c: 0, m: vec![(a | b, x.checked_mul(y)?)] }) } r = r.add(&t) }
        Some(r)
    }
    pub fn range(&self) -> (i128, i128) { let (mut l, mut h) = (self.c as i128, self.c as i128); for &(m, a) in &self.m { let x = a as i128 * lim(m); if x > 0 { h += x } else { l += x } } (l, h) }
    /// floor division by a constant that divides every coefficient
    pub fn div(&self, k: i64) -> Option<Aff> { if k <= 0 || self.m.iter().any(|x| x.1 % k != 0) { return None; } Some(Aff { c: self.c.div_euclid(k), m: self.m.iter().map(|x| (x.0, x.1 / k)).collect() }) }
    pub fn has(&self, sym: u16) -> bool { self.m.iter().any(|x| x.0 & sym != 0) }
    /// (part with sym) / sym
    pub fn part(&self, sym: u16) -> Aff { let mut c = 0; let mut m = vec![]; for &(a, x) in &self.m { if a & sym != 0 { if a == sym { c = x } else { m.push((a & !sym, x)) } } } m.sort(); Aff { c, m } }
    pub fn sym(s: u16, k: i64) -> Aff { Aff { c: 0, m: vec![(s, k)] } }
}
#[derive(Clone, Debug)]
pub struct Zone { /// bytes of a represented row
    pub s: i64, pub gx: [i64; 2], pub gr: [i64; 2], pub xs: [u16; 2], pub rs: [u16; 2], /// hidden bytes per column symbol, hidden rows per row symbol
    pub pb: i64, pub qb: i64, pub pad: Vec<(u16, i64)> }
impl Zone {
    pub fn at(&self, c: i64) -> (i64, i64, usize, usize) { let (r, x) = (c.div_euclid(self.s), c.rem_euclid(self.s)); (r, x, (r >= self.gr[0]) as usize + (r >= self.gr[1]) as usize, (x >= self.gx[0]) as usize + (x >= self.gx[1]) as usize) }
    pub fn stride(&self) -> Aff { let mut m = vec![]; if self.pb != 0 { m.push((self.xs[0].min(self.xs[1]), self.pb)); m.push((self.xs[0].max(self.xs[1]), self.pb)) } m.extend_from_slice(&self.pad); Aff { c: self.s, m } }
    pub fn poly(&self, r: i64, x: i64, zr: usize, zx: usize) -> Aff {
        let mut row = Aff::k(r); for i in 0..zr { row = row.add(&Aff::sym(self.rs[i], self.qb)) }
        let mut o = row.mul(&self.stride()).unwrap(); o.c += x;
        for i in 0..zx { o = o.add(&Aff::sym(self.xs[i], self.pb)) }
        if self.pb == 0 || self.qb == 0 { o.m.retain(|x| x.1 != 0) }
        o
    }
}
pub struct Req { ins: usize, val: Aff, /// what has to be added for an access to name its zone
    need: Option<Aff> }
pub struct Snap { regs: Vec<V>, mem: Vec<Option<Obj>>, pcl: usize, nviol: usize, log: usize, depth: u32, mid: [bool; 2] }
struct Jump { q: i64, sym: u16, a: Rc<Snap>, b: Rc<Snap>, visits: i64, second: bool }
pub struct LoopRec { header: u32, pub run: u32, snaps: Vec<Rc<Snap>>, jump: Option<Jump>, pub done: u8 }
pub struct FnInfo { body: HashMap<u32, Vec<bool>>, live: HashMap<u32, Vec<u32>> }
#[derive(Default)]
pub struct Gap { pub log: Vec<(usize, Aff)>, pub req: Option<Req>, pub info: HashMap<usize, Rc<FnInfo>>, pub mid: [bool; 2], pub runs: u32, pub jumps: u32, pub tries: u32, /// cuts of a one-row heap buffer: (G1, G2, P)
    pub cut: (i64, i64, i64), pub padk: i64, pub h: i64 }

fn rd(o: &O, out: &mut Vec<u32>) { if let O::R(r) = o { out.push(*r) } }
pub fn uses(i: &I, out: &mut Vec<u32>) {
    match i { I::Phi(..) => {} I::Bin(_, _, a, b) | I::ICmp(_, _, a, b) | I::FCmp(_, _, a, b) => { rd(a, out); rd(b, out) } I::FNeg(_, a) | I::Cast(_, _, a, _) | I::Load(_, a) | I::ExtractValue(_, a, _) | I::Freeze(_, a) => rd(a, out),
        I::Select(_, _, a, b, c) | I::InsertElement(_, a, b, c) => { rd(a, out); rd(b, out); rd(c, out) } I::Gep(p, _, ix) => { rd(p, out); for x in ix { rd(&x.1, out) } } I::Store(_, a, b) | I::ExtractElement(_, a, b) | I::InsertValue(_, a, _, b, _) | I::Shuffle(_, a, b, _) => { rd(a, out); rd(b, out) }
        I::Call(_, c, a, _) => { rd(c, out); for x in a { rd(&x.1, out) } } I::CondBr(c, _, _) => rd(c, out), I::Switch(_, v, _, _) => rd(v, out), I::Ret(_, Some(v)) => rd(v, out), _ => {} }
}
fn fninfo(f: &Func) -> FnInfo {
    let n = f.blocks.len(); let succ: Vec<Vec<u32>> = (0..n).map(|b| f.succs(b)).collect();
    let mut pred: Vec<Vec<u32>> = vec![vec![]; n]; for b in 0..n { for &s in &succ[b] { pred[s as usize].push(b as u32) } }
    // back edges by depth-first search
    let mut col = vec![0u8; n]; let mut st = vec![(0u32, 0usize)]; col[0] = 1; let mut back: HashMap<u32, Vec<u32>> = HashMap::new();
    while let Some(&mut (b, ref mut i)) = st.last_mut() { if *i < succ[b as usize].len() { let s = succ[b as usize][*i]; *i += 1; if col[s as usize] == 0 { col[s as usize] = 1; st.push((s, 0)) } else if col[s as usize] == 1 { back.entry(s).or_default().push(b) } } else { col[b as usize] = 2; st.pop(); } }
    let mut body = HashMap::new();
    for (&h, tails) in &back { let mut bd = vec![false; n]; bd[h as usize] = true; let mut w: Vec<u32> = tails.clone(); while let Some(b) = w.pop() { if !bd[b as usize] { bd[b as usize] = true; w.extend(pred[b as usize].iter()) } } body.insert(h, bd); }
    // registers live at the start of a header, after its phis
    let nr = f.nregs; let words = nr.div_ceil(64); let mut gen_ = vec![vec![0u64; words]; n]; let mut kill = vec![vec![0u64; words]; n]; let mut tmp = vec![];
    for b in 0..n { for ins in &f.blocks[b] { tmp.clear(); uses(&ins.i, &mut tmp); for &r in &tmp { let (w, k) = (r as usize / 64, r % 64); if kill[b][w] >> k & 1 == 0 { gen_[b][w] |= 1 << k } } if ins.dst != NOREG { kill[b][ins.dst as usize / 64] |= 1 << (ins.dst % 64) } } }
    let mut inn = gen_.clone(); let mut ch = true;
    while ch { ch = false; for b in (0..n).rev() { let mut out = vec![0u64; words];
        for &s in &succ[b] { for w in 0..words { out[w] |= inn[s as usize][w] } for ins in &f.blocks[s as usize] { if let I::Phi(_, inc) = &ins.i { out[ins.dst as usize / 64] &= !(1 << (ins.dst % 64)); for (o, p) in inc { if *p == b as u32 { if let O::R(r) = o { out[*r as usize / 64] |= 1 << (r % 64) } } } } else { break } } }
        // a phi may read a register another phi of the same block defines: keep reads
        for &s in &succ[b] { for ins in &f.blocks[s as usize] { if let I::Phi(_, inc) = &ins.i { for (o, p) in inc { if *p == b as u32 { if let O::R(r) = o { out[*r as usize / 64] |= 1 << (r % 64) } } } } else { break } } }
        for w in 0..words { let x = gen_[b][w] | (out[w] & !kill[b][w]); if x & !inn[b][w] != 0 { inn[b][w] |= x; ch = true } } } }
    let mut live = HashMap::new();
    for &h in back.keys() { // live after the phis: uses of the rest of the block, and what its successors need
        let b = h as usize; let mut set = vec![0u64; words]; let mut k = vec![0u64; words];
        for ins in &f.blocks[b] { tmp.clear(); uses(&ins.i, &mut tmp); for &r in &tmp { if k[r as usize / 64] >> (r % 64) & 1 == 0 { set[r as usize / 64] |= 1 << (r % 64) } } if ins.dst != NOREG && !matches!(ins.i, I::Phi(..)) { k[ins.dst as usize / 64] |= 1 << (ins.dst % 64) } }
        for &s in &succ[b] { for w in 0..words { set[w] |= inn[s as usize][w] & !k[w] } for ins in &f.blocks[s as usize] { if let I::Phi(_, inc) = &ins.i { for (o, p) in inc { if *p == h { if let O::R(r) = o { if k[*r as usize / 64] >> (r % 64) & 1 == 0 { set[*r as usize / 64] |= 1 << (r % 64) } } } } } else { break } } }
        live.insert(h, (0..nr as u32).filter(|r| set[*r as usize / 64] >> (r % 64) & 1 == 1).collect()); }
    FnInfo { body, live }
}
pub fn smask(w: u8) -> i128 { if w >= 64 { 1i128 << 64 } else { 1i128 << w } }
pub fn aff_of(v: &V) -> Option<(u8, Aff)> { match v { V::K(w, k) => Some((*w, Aff::k(crate::term::sx(*k, *w)))), V::A(w, a) => Some((*w, (**a).clone())), _ => None } }
pub fn paff(v: &V) -> Option<(u32, Aff)> { match v { V::P(i, o) => Some((*i, Aff::k(*o))), V::PA(i, a) => Some((*i, (**a).clone())), _ => None } }
pub fn mka(w: u8, a: Aff) -> V { if a.m.is_empty() { V::K(w, a.c as u64 & crate::term::mask(w)) } else { V::A(w, Rc::new(a)) } }
pub fn mkpa(i: u32, a: Aff) -> V { if a.m.is_empty() { V::P(i, a.c) } else { V::PA(i, Rc::new(a)) } }
pub fn is_a(v: &V) -> bool { matches!(v, V::A(..) | V::PA(..)) }
/// the value a register has `n` iterations after `b`, when it went from `a` to `b` in one
fn shift(a: &V, b: &V, n: &Aff) -> V {
    if Ex::veq(a, b) { return b.clone(); }
    match (a, b) {
        (V::Agg(x), V::Agg(y)) if x.len() == y.len() => V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| shift(p, q, n)).collect())),
        _ => {
            if let (Some((i, p)), Some((j, q))) = (paff(a), paff(b)) { if i == j { if let Some(t) = q.sub(&p).mul(n) { return mkpa(i, q.add(&t)); } } return V::Un; }
            if let (Some((w, p)), Some((x, q))) = (aff_of(a), aff_of(b)) { if w == x && w > 1 { if let Some(t) = q.sub(&p).mul(n) { return mka(w, q.add(&t)); } } }
            V::Un
        }
    }
}
impl<'a> Ex<'a> {
    pub fn gap_access(&mut self, id: u32, a: &Aff, n: u64, write: bool) -> R<(i64, u64)> {
        // (constant offset, bytes that lie in the zone)
        let Some(z) = self.obj(id).and_then(|o| o.zone.clone()) else { if a.m.is_empty() { return Ok((a.c, n)); } return Err("@aff offset into a buffer of fixed size".into()) };
        let ins = self.cur; let g = self.gap.as_mut().unwrap(); g.log.push((ins, a.clone()));
        let (r, x, zr, zx) = z.at(a.c); let p = z.poly(r, x, zr, zx);
        if p.m != a.m {
            for (yr, yx) in [(zr as i32 - 1, zx as i32), (zr as i32, zx as i32 - 1), (zr as i32 + 1, zx as i32), (zr as i32, zx as i32 + 1)] { if !(0..3).contains(&yr) || !(0..3).contains(&yx) { continue; }
                let q = z.poly(r, x, yr as usize, yx as usize); if q.m == a.m { g.req = Some(Req { ins, val: a.clone(), need: Some(p.sub(&q)) }); return Err("@gap".into()); } }
            return Err(format!("@aff address outside its zone ({} row {} col {})", a.c, r, x));
        }
        if write { if (g.mid[0] && zx != 1) || (g.mid[1] && zr != 1) { return Err("@aff a loop writes outside its own block".into()); } }
        let mut nin = n as i64;
        let last = a.c + n as i64 - 1; let (r2, x2, zr2, zx2) = z.at(last); if (r2, zr2, zx2) != (r, zr, zx) && z.poly(r2, x2, zr2, zx2).m != a.m { nin = 0; while nin < n as i64 { let (r3, x3, a3, b3) = z.at(a.c + nin); if z.poly(r3, x3, a3, b3).m != a.m { break } nin += 1 } }
        Ok((a.c, nin as u64))
    }
    /// a comparison of affine values, the same for all sizes; d = a - b
    pub fn gap_cmp(&mut self, d: &Aff) -> R<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        let ins = self.cur; let g = self.gap.as_mut().unwrap(); g.log.push((ins, d.clone()));
        let (l, h) = d.range();
        if l > 0 { Ok(Greater) } else if h < 0 { Ok(Less) } else if d.m.is_empty() && d.c == 0 { Ok(Equal) } else { g.req = Some(Req { ins, val: d.clone(), need: None }); Err("@gap".into()) }
    }
    /// a <= b style comparisons need not separate equal from less
    pub fn gap_rel(&mut self, p: P, d: &Aff) -> R<bool> {
        use std::cmp::Ordering::*;
        let (l, h) = d.range();
        match p { P::Ult | P::Slt => { if h < 0 { return Ok(true) } if l >= 0 { let ins = self.cur; self.gap.as_mut().unwrap().log.push((ins, d.clone())); return Ok(false) } } P::Uge | P::Sge => { if h < 0 { return Ok(false) } if l >= 0 { return Ok(true) } }
            P::Ugt | P::Sgt => { if l > 0 { return Ok(true) } if h <= 0 { return Ok(false) } } P::Ule | P::Sle => { if l > 0 { return Ok(false) } if h <= 0 { return Ok(true) } } P::Eq => if l > 0 || h < 0 { let ins = self.cur; self.gap.as_mut().unwrap().log.push((ins, d.clone())); return Ok(false) }, P::Ne => if l > 0 || h < 0 { let ins = self.cur; self.gap.as_mut().unwrap().log.push((ins, d.clone())); return Ok(true) } }
        let o = self.gap_cmp(d)?;
        Ok(match p { P::Eq => o == Equal, P::Ne => o != Equal, P::Ult | P::Slt => o == Less, P::Ule | P::Sle => o != Greater, P::Ugt | P::Sgt => o == Greater, P::Uge | P::Sge => o != Less })
    }
    fn in_range(&self, a: &Aff, w: u8, signed: bool) -> R<()> { let (l, h) = a.range(); let m = smask(w); if if signed { l >= -(m / 2) && h < m / 2 } else { l >= 0 && h < m } { Ok(()) } else { Err("@aff value may leave its type".into()) } }
    fn opnd(v: &V, signed: bool) -> R<(u8, Aff)> { match v { V::K(w, k) => Ok((*w, Aff::k(if signed || *w == 64 { crate::term::sx(*k, *w) } else { *k as i64 }))), V::A(w, a) => Ok((*w, (**a).clone())), _ => Err(format!("@aff operand {:?}", v).chars().take(60).collect()) } }
    pub fn gap_bin(&mut self, b: B, x: &V, y: &V) -> R<V> {
        if let (Some((i, p)), Some((j, q))) = (paff(x), paff(y)) { if b == B::Sub && i == j { return Ok(mka(64, p.sub(&q))); } return Err("@aff pointer arithmetic".into()); }
        if let (V::PA(i, p), Some((_, q))) = (x, aff_of(y)) { match b { B::Add => return Ok(mkpa(*i, p.add(&q))), B::Sub => return Ok(mkpa(*i, p.sub(&q))), _ => return Err("@aff pointer arithmetic".into()) } }
        let (w, p) = Self::opnd(x, true)?; let (_, q) = Self::opnd(y, true)?; let kq = if q.m.is_empty() { Some(q.c) } else { None };
        let dbg = if gapt() { format!(" i{} {:?} {:?}", w, p, q) } else { String::new() }; let e = || -> String { format!("@aff {:?}{}", b, dbg) };
        let lowfit = |p: &Aff, k: i64| -> bool { k >= 0 && { let n = 64 - (k as u64).leading_zeros(); n < 40 && p.c.trailing_zeros().min(63) >= n && p.m.iter().all(|x| x.1.trailing_zeros() >= n) } };
        Ok(match b {
            B::Add => mka(w, p.add(&q)), B::Sub => mka(w, p.sub(&q)), B::Mul => mka(w, p.mul(&q).ok_or_else(e)?),
            B::Shl => { let k = kq.ok_or_else(e)?; if !(0..40).contains(&k) { return Err(e()); } mka(w, p.scale(1 << k)) }
            B::LShr | B::AShr => { let k = kq.ok_or_else(e)?; if !(0..40).contains(&k) { return Err(e()); } self.in_range(&p, w, b == B::AShr)?; mka(w, p.div(1 << k).ok_or_else(e)?) }
            B::UDiv | B::SDiv => { self.in_range(&p, w, false)?; self.in_range(&p, w, true)?; self.in_range(&q, w, true)?; match kq { Some(k) => mka(w, p.div(k).ok_or_else(e)?), None => mka(w, self.quot(&p, &q).ok_or_else(e)?) } }
            B::URem | B::SRem => { self.in_range(&p, w, false)?; self.in_range(&p, w, true)?; self.in_range(&q, w, true)?; let d = match kq { Some(k) => p.div(k).ok_or_else(e)?, None => self.quot(&p, &q).ok_or_else(e)? }; mka(w, p.sub(&d.mul(&q).ok_or_else(e)?)) }
            B::And => { let (p, k) = if let Some(k) = kq { (p, k) } else if p.m.is_empty() { (q, p.c) } else { return Err(e()) };
                // bits below the multiple all coefficients share are those of the constant; the bits above are kept or cleared as a whole
                let n = p.m.iter().map(|x| x.1.trailing_zeros()).min().unwrap_or(63).min(40); let low = (1i64 << n) - 1; let kl = p.c & low & k; let hp = p.c & !low; let top = Aff { c: hp, m: p.m.clone() };
                let ku = k as u64 & crate::term::mask(w); if ku >> n == 0 { return Ok(mka(w, Aff::k(kl))); }
                let (l, h) = top.range(); if l >= 0 { let mut b = n as u32; while b < 64 && h >> b != 0 { b += 1 } let full = if b >= 64 { u64::MAX >> n << n } else { (1u64 << b) - 1 & !(low as u64) }; if ku & full == full { return Ok(mka(w, top.add(&Aff::k(kl)))); } }
                else if ku | low as u64 == crate::term::mask(w) { return Ok(mka(w, top.add(&Aff::k(kl)))); }
                return Err(e()) }
            B::Or | B::Xor => { let (p, k) = if let Some(k) = kq { (p, k) } else if p.m.is_empty() { (q, p.c) } else { return Err(e()) };
                if b == B::Xor && k == -1 { return Ok(mka(w, Aff::k(-1).sub(&p))); }
                if lowfit(&p, k) { return Ok(mka(w, p.add(&Aff::k(k)))); } 
                // the constant only meets the low bits of the constant part
                if k >= 0 { let n = 64 - (k as u64).leading_zeros(); if n < 40 && p.m.iter().all(|x| x.1.trailing_zeros() >= n) { let low = p.c & ((1 << n) - 1); let nl = if b == B::Or { low | k } else { low ^ k }; return Ok(mka(w, p.add(&Aff::k(nl - low)))); } }
                return Err(e()) }
            _ => return Err(e()),
        })
    }
    /// p / q for a quotient that is affine: q * t <= p < q * (t + 1) for all sizes
    fn quot(&self, p: &Aff, q: &Aff) -> Option<Aff> {
        if q.c <= 0 || q.range().0 <= 0 { return None; }
        // candidate: divide the constant parts, then the parts by their leading symbols
        let mut t = Aff::k(p.c.div_euclid(q.c));
        for _ in 0..6 { let r = p.sub(&t.mul(q)?); if r.range().0 >= 0 && q.sub(&r).range().0 > 0 { return Some(t); }
            let mut f = false; for &(m, x) in &r.m { if x % q.c == 0 && x != 0 && q.part(m).m.is_empty() { t = t.add(&Aff::sym(m, x / q.c)); f = true; break } } if !f { return None; } }
        None
    }
    pub fn gap_icmp(&mut self, p: P, x: &V, y: &V) -> R<bool> {
        if let (Some((i, a)), Some((j, b))) = (paff(x), paff(y)) { if i != j { return match p { P::Eq => Ok(false), P::Ne => Ok(true), _ => Err("@aff pointer order".into()) } } return self.gap_rel(p, &a.sub(&b)); }
        let signed = matches!(p, P::Slt | P::Sle | P::Sgt | P::Sge); let (w, mut a) = Self::opnd(x, signed)?; let (_, mut b) = Self::opnd(y, signed)?;
        if !signed { // unsigned constants beyond the signed range
            if w == 64 && a.m.is_empty() && a.c < 0 { self.in_range(&b, 63, false)?; return Ok(match p { P::Eq | P::Ult | P::Ule => false, _ => true }); }
            if w == 64 && b.m.is_empty() && b.c < 0 { self.in_range(&a, 63, false)?; return Ok(match p { P::Eq | P::Ugt | P::Uge => false, _ => true }); }
            if !matches!(p, P::Eq | P::Ne) { // values below zero wrap around
                for v in [&mut a, &mut b] { let (l, h) = v.range(); if h < 0 { if w == 64 { *v = v.add(&Aff::k(0)); } else { v.c += 1 << w } } let _ = l; } if self.in_range(&a, w, false).is_err() || self.in_range(&b, w, false).is_err() {
                    // x - c <u n, with x - c of either sign: undecided here
                    let bad = if self.in_range(&a, w, false).is_err() { a.clone() } else { b.clone() }; let (l, h) = bad.range(); if l < 0 && h >= 0 { self.gap_cmp(&bad.add(&Aff::k(0)))?; }
                    if h < 0 && w == 64 { let neg_is_a = bad == a; return Ok(match p { P::Ult | P::Ule => !neg_is_a, _ => neg_is_a }); }
                    return Err("@aff value may leave its type".into()) } } }
        else { self.in_range(&a, w, true)?; self.in_range(&b, w, true)?; }
        self.gap_rel(p, &a.sub(&b))
    }
    pub fn gap_cast(&mut self, c: CastOp, x: &V, w: u8) -> R<V> {
        let V::A(v, a) = x else { return match (c, x) { (CastOp::PtrToInt | CastOp::IntToPtr, _) => Ok(x.clone()), _ => Err("@aff cast".into()) } };
        match c { CastOp::ZExt => { self.in_range(a, *v, false)?; Ok(mka(w, (**a).clone())) } CastOp::SExt => { self.in_range(a, *v, true)?; Ok(mka(w, (**a).clone())) }
            CastOp::Trunc => { if w == 1 { let p = Aff::k(a.c & 1); if a.m.iter().all(|x| x.1 % 2 == 0) { return Ok(mka(1, p)); } return Err("@aff trunc".into()); } Ok(mka(w, (**a).clone())) } CastOp::BitCast => Ok(x.clone()), _ => Err("@aff cast".into()) }
    }
    pub fn gap_intr(&mut self, stem: &str, x: &str, a: &[V]) -> R<Option<V>> {
        // where equal operands give the same answer, either of < and <= may be known
        let p = |e: &mut Self, q: P| -> R<bool> { let k = match q { P::Ule => P::Ult, P::Uge => P::Ugt, P::Sle => P::Slt, P::Sge => P::Sgt, _ => return e.gap_icmp(q, &a[0], &a[1]) };
            let l = e.gap.as_ref().unwrap().log.len(); match e.gap_icmp(k, &a[0], &a[1]) { Err(x) if x == "@gap" => { let g = e.gap.as_mut().unwrap(); g.req = None; g.log.truncate(l); e.gap_icmp(q, &a[0], &a[1]) } r => r } };
        Ok(Some(match stem {
            "umin" => if p(self, P::Ule)? { a[0].clone() } else { a[1].clone() }, "umax" => if p(self, P::Uge)? { a[0].clone() } else { a[1].clone() },
            "smin" => if p(self, P::Sle)? { a[0].clone() } else { a[1].clone() }, "smax" => if p(self, P::Sge)? { a[0].clone() } else { a[1].clone() },
            "usub" if x.contains("sat") => if p(self, P::Uge)? { self.gap_bin(B::Sub, &a[0], &a[1])? } else { let (w, _) = aff_of(&a[0]).ok_or("@aff sat")?; V::K(w, 0) },
            "usub" if x.contains("overflow") => { let o = p(self, P::Ult)?; let r = self.gap_bin(B::Sub, &a[0], &a[1])?; V::Agg(Rc::new(vec![r, V::K(1, o as u64)])) }
            "uadd" | "umul" if x.contains("overflow") => { let r = self.gap_bin(if stem == "uadd" { B::Add } else { B::Mul }, &a[0], &a[1])?; if let V::A(w, q) = &r { self.in_range(q, *w, false)? } V::Agg(Rc::new(vec![r, V::K(1, 0)])) }
            "uadd" if x.contains("sat") => { let r = self.gap_bin(B::Add, &a[0], &a[1])?; if let V::A(w, q) = &r { self.in_range(q, *w, false)? } r }
            _ => return Ok(None),
        }))
    }
    /// a heap buffer whose size depends on the image size: rows of the width only
    pub fn gap_alloc(&mut self, a: &Aff, zero: bool) -> R<V> {
        let (g1, g2, pp) = self.gap.as_ref().unwrap().cut; let h = self.gap.as_ref().unwrap().h; let er = || -> R<V> { Err(if gapt() { format!("@aff allocation {:?}", a) } else { "@aff allocation".into() }) };
        if a.c > 1 << 24 { return er(); }
        let pq = a.coef(J1 | K1); let z = if pq == 0 {
            let pb = a.coef(J1); if a.m.len() != 2 || pb != a.coef(J2) || pb <= 0 || (g1 * pb) % pp != 0 || a.c < g2 * pb / pp { return er(); }
            Zone { s: a.c, gx: [g1 * pb / pp, g2 * pb / pp], gr: [1 << 40, 1 << 40], xs: [J1, J2], rs: [K1, K2], pb, qb: 0, pad: vec![] }
        } else { // rows of the width times (half) the height
            let Some(qb) = [2i64, 1].into_iter().find(|&q| pq % q == 0 && (a.coef(J1) * q) % pq == 0 && a.coef(J1) * q / pq == if q == 2 { h } else { (h + 1) / 2 }) else { return er() };
            let (pb, s) = (pq / qb, a.coef(K1) / qb); let row = Aff { c: s, m: vec![(J1, pb), (J2, pb)] }; let rows = Aff { c: a.coef(J1) / pb, m: vec![(K1, qb), (K2, qb)] };
            if row.mul(&rows).as_ref() != Some(a) || (g1 * pb) % pp != 0 || s < g2 * pb / pp { return er(); }
            Zone { s, gx: [g1 * pb / pp, g2 * pb / pp], gr: [qb, 2 * qb], xs: [J1, J2], rs: [K1, K2], pb, qb, pad: vec![] } };
        let id = self.alloc(vec![if zero { c_byte(0) } else { C_UN }; a.c as usize], K_HEAP, 0);
        self.mem[id as usize].as_mut().unwrap().zone = Some(Rc::new(z));
        Ok(V::P(id, 0))
    }
    /// block operations over whole zones: the constant length, once the symbolic parts agree
    pub fn gap_span(&mut self, d: &V, s: Option<&V>, n: &V) -> R<u64> {
        let (_, n) = Self::opnd(n, false)?; let (di, da) = paff(d).ok_or("@aff block")?; if n.c == 0 && n.m.is_empty() { return Ok(0); }
        let prof = |e: &Self, i: u32, a: &Aff| -> R<Vec<(i64, Vec<(u16, i64)>)>> { let Some(z) = e.obj(i).and_then(|o| o.zone.clone()) else { return if a.m.is_empty() { Ok(vec![(0, vec![])]) } else { Err("@aff block".into()) } };
            let mut v: Vec<(i64, Vec<(u16, i64)>)> = vec![]; let mut last = None; for k in 0..n.c { let (r, x, zr, zx) = z.at(a.c + k); if last == Some((r, zr, zx)) { continue; } last = Some((r, zr, zx)); let m = Aff { c: 0, m: z.poly(r, x, zr, zx).m }.sub(&Aff { c: 0, m: a.m.clone() }).m; if v.last().map_or(true, |q| q.1 != m) { v.push((k, m)) } } Ok(v) };
        let pd = prof(self, di, &da)?; let ps = match s { Some(s) => { let (si, sa) = paff(s).ok_or("@aff block")?; Some((si, sa.clone(), prof(self, si, &sa)?)) } None => None };
        if n.m.is_empty() && pd.len() == 1 && ps.as_ref().map_or(true, |p| p.2.len() == 1) { // within one zone on both sides: ordinary accesses
            self.gap_access(di, &da, n.c as u64, true)?; if let Some((si, sa, _)) = &ps { self.gap_access(*si, sa, n.c as u64, false)?; } 
            return Ok(n.c as u64); }
        // the first byte names its zone, or a loop has to be moved
        self.gap_access(di, &da, 1, true)?; if let Some((si, sa, _)) = &ps { self.gap_access(*si, sa, 1, false)?; }
        if let Some((_, _, ps)) = &ps { if *ps != pd { return Err("@aff block copy between different zones".into()); } }
        if pd.last().unwrap().1 != n.m { return Err("@aff block length".into()); }
        let g = self.gap.as_ref().unwrap(); if g.mid[0] || g.mid[1] && { let z = self.obj(di).unwrap().zone.clone().unwrap(); z.at(da.c).2 != 1 || z.at(da.c + n.c - 1).2 != 1 } { return Err("@aff a loop writes outside its own block".into()); }
        Ok(n.c as u64)
    }
    pub fn fn_info(&mut self, f: &Func) -> Rc<FnInfo> { let k = f as *const Func as usize; let g = self.gap.as_mut().unwrap(); if let Some(i) = g.info.get(&k) { return i.clone(); } let i = Rc::new(fninfo(f)); g.info.insert(k, i.clone()); i }
    fn snap(&self, fr: &Frame) -> Rc<Snap> { let g = self.gap.as_ref().unwrap(); Rc::new(Snap { regs: fr.regs.clone(), mem: self.mem.clone(), pcl: self.pc.len(), nviol: self.viol.len(), log: g.log.len(), depth: self.depth, mid: g.mid }) }
    /// called when a block is entered (phis done)
    pub fn gap_block(&mut self, fr: &mut Frame, run: u32, b: u32) {
        let info = self.fn_info(fr.f);
        while let Some(l) = fr.loops.last() { if l.run == run && !info.body[&l.header][b as usize] { fr.loops.pop(); } else { break } }
        if !info.body.contains_key(&b) { return; }
        if let Some(i) = fr.loops.iter().position(|l| l.header == b && l.run == run) { fr.loops.truncate(i + 1); let s = self.snap(fr); let l = &mut fr.loops[i]; if let Some(j) = &mut l.jump { j.visits += 1 } if l.snaps.len() > 1 { l.snaps.remove(0); } l.snaps.push(s); }
        else { let s = self.snap(fr); fr.loops.push(LoopRec { header: b, run, snaps: vec![s], jump: None, done: 0 }) }
    }
    fn shift_mem(&mut self, a: &Snap, b: &Snap, n: &Aff) -> Vec<Option<Obj>> {
        let mut out = b.mem.clone();
        for i in 0..out.len() { let (Some(x), Some(y)) = (a.mem.get(i).and_then(|o| o.as_ref()), out[i].as_ref()) else { continue }; if y.zone.is_some() || matches!(y.kind, K_PLANE | K_ROPLANE) || Rc::ptr_eq(&x.cells, &y.cells) || x.cells == y.cells { continue; }
            let (x, y) = (x.cells.clone(), y.cells.clone()); let mut c = (*y).clone(); let mut k = 0;
            while k < c.len() { if k >= x.len() { break } if x[k] == y[k] { k += 1; continue; }
                // the 8-byte word around the changed byte
                let w0 = k / 8 * 8; let mut ok = false;
                if w0 + 8 <= c.len().min(x.len()) { if let (Some(p), Some(q)) = (self.word(&x[w0..w0 + 8]), self.word(&y[w0..w0 + 8])) { let v = shift(&p, &q, n); if !matches!(v, V::Un) { let mut o = vec![]; if self.to_cells(&if matches!(v, V::P(..) | V::PA(..)) { Ty::Ptr } else { Ty::Int(64) }, &v, &mut o).is_ok() { c[w0..w0 + 8].copy_from_slice(&o[..8]); ok = true } } } }
                if ok { k = w0 + 8 } else { c[k] = C_UN; k += 1 } }
            out[i].as_mut().unwrap().cells = Rc::new(c); }
        out
    }
    fn word(&mut self, c: &[Cell]) -> Option<V> { match self.of_cells(&Ty::Int(64), c) { Ok(V::S(_)) | Err(_) => None, Ok(v) => Some(v) } }
    /// moves a loop of this frame across the cut; true when execution can go on at the header (returned)
    pub fn gap_jump(&mut self, fr: &mut Frame, run: u32) -> R<Option<u32>> {
        let Some(req) = self.gap.as_mut().unwrap().req.take() else { return Ok(None) };
        if gapt() { eprintln!("  req in {}: {:?} need {:?}; {} loops", fr.f.name.chars().take(70).collect::<String>(), req.val, req.need, fr.loops.len()) }
        let r = self.gap_jump1(fr, run, &req);
        if !matches!(r, Ok(Some(_))) { self.gap.as_mut().unwrap().req = Some(req); }
        r
    }
    fn gap_jump1(&mut self, fr: &mut Frame, run: u32, req: &Req) -> R<Option<u32>> {
        for li in (0..fr.loops.len()).rev() {
            let l = &fr.loops[li]; if l.run != run || l.snaps.len() < 2 { continue; }
            let (a, b) = (l.snaps[l.snaps.len() - 2].clone(), l.snaps[l.snaps.len() - 1].clone());
            let g = self.gap.as_ref().unwrap(); let Some(prev) = g.log[a.log..b.log].iter().find(|e| e.0 == req.ins).map(|e| e.1.clone()) else { continue };
            let dl = req.val.sub(&prev); if dl.c == 0 && dl.m.is_empty() { continue; }
            // iterations per unit of the symbol
            let mut found = None;
            for sym in [J1, J2, K1, K2] {
                let want = match &req.need { Some(n) => { if !n.has(sym) { continue; } n.part(sym) } None => { if !req.val.has(sym) { continue; } req.val.part(sym).scale(-1) } };
                let q = if dl.c != 0 { want.c / dl.c } else if let Some(&(m, x)) = dl.m.first() { want.coef(m) / x } else { 0 };
                if q <= 0 || dl.scale(q) != want { continue; }
                if let Some(n) = &req.need { if Aff::sym(sym, q).mul(&dl).map_or(true, |t| t.m != n.m) { continue; } }
                found = Some((sym, q)); break; }
            if gapt() { eprintln!("  jump? loop {} of {} req {:?} need {:?} delta {:?} found {:?} jump {:?}", l.header, fr.f.name.chars().take(60).collect::<String>(), req.val, req.need, dl, found, l.jump.as_ref().map(|j| (j.sym, j.q, j.visits))); }
            let Some((sym, q)) = found else { continue };
            let dim = if sym & (J1 | J2) != 0 { 0 } else { 1 };
            let info = self.fn_info(fr.f); let live = info.live[&l.header].clone(); let header = l.header;
            let j = fr.loops[li].jump.take();
            let (sa, sb, n, second) = match j {
                Some(j) if j.second => { fr.loops[li].jump = Some(j); continue }
                None => { (a, b, Aff::sym(sym, q), false) }
                Some(j) => {
                    if j.q != q || j.sym == sym || (j.sym | sym != J1 | J2 && j.sym | sym != K1 | K2) || j.visits != q { let e = format!("@aff induction: {} iterations of {} between the cuts", j.visits, q); return Err(e); }
                    // induction step: the state is State(j+1)
                    let at = Aff::sym(j.sym, q).add(&Aff::k(q));
                    for &r in &live { let e = shift(&j.a.regs[r as usize], &j.b.regs[r as usize], &at); if !matches!(e, V::Un) && !Self::agrees(&e, &b.regs[r as usize]) { return Err(format!("@aff induction: a register of the loop differs ({:?} {:?})", e, b.regs[r as usize]).chars().take(150).collect()); } }
                    let em = self.shift_mem(&j.a, &j.b, &at);
                    for i in 0..em.len() { let Some(x) = em[i].as_ref() else { continue }; if x.zone.is_some() || matches!(x.kind, K_PLANE | K_ROPLANE) { continue; } let Some(y) = b.mem.get(i).and_then(|o| o.as_ref()) else { continue };
                        if Rc::ptr_eq(&x.cells, &y.cells) { continue; } for k in 0..x.cells.len().min(y.cells.len()) { if x.cells[k] != y.cells[k] && x.cells[k] != C_UN && !self.same_ptr(x.cells[k], y.cells[k]) { return Err("@aff induction: memory of the loop differs".into()); } } }
                    // what the step left in the planes stays
                    let n = at.add(&Aff::sym(sym, q)); let mut jb = Snap { regs: j.b.regs.clone(), mem: j.b.mem.clone(), pcl: b.pcl, nviol: b.nviol, log: b.log, depth: b.depth, mid: b.mid };
                    while jb.mem.len() < b.mem.len() { jb.mem.push(None) }
                    for i in 0..b.mem.len() { match (&jb.mem[i], &b.mem[i]) { (Some(x), Some(y)) if x.zone.is_some() || matches!(x.kind, K_PLANE | K_ROPLANE) => jb.mem[i] = Some(y.clone()), (None, Some(y)) => jb.mem[i] = Some(y.clone()), _ => {} } }
                    (j.a.clone(), Rc::new(jb), n, true)
                }
            };
            let regs = { let mut v = vec![V::Un; fr.regs.len()]; for &r in &live { v[r as usize] = shift(&sa.regs[r as usize], &sb.regs[r as usize], &n) } v };
            let mut mem = self.shift_mem(&sa, &sb, &n); 
            while mem.len() < self.mem.len() { mem.push(None) }
            self.mem = mem; fr.regs = regs; self.pc.truncate(sb.pcl); self.viol.truncate(sb.nviol); self.depth = sb.depth;
            let g = self.gap.as_mut().unwrap(); g.mid = sb.mid; g.mid[dim] = !second; g.jumps += 1; if g.jumps > 20000 { return Err("@aff too many jumps".into()); }
            fr.loops.truncate(li + 1); fr.loops[li].snaps.clear(); let s = self.snap(fr); let l = &mut fr.loops[li]; l.snaps.push(s);
            l.jump = Some(Jump { q, sym, a: sa, b: sb, visits: 0, second }); l.done += 1;
            return Ok(Some(header));
        }
        Ok(None)
    }
    fn agrees(e: &V, b: &V) -> bool { if Ex::veq(e, b) || matches!(e, V::Un) { return true; } match (e, b) { (V::Agg(x), V::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| Self::agrees(p, q)), _ => false } }
}
/// cuts of a gap run: columns per symbol step, rows per symbol step
pub const GP: usize = 64; pub const GQ: usize = 2;
pub struct Cut { pub p: usize, pub q: usize, pub gx: [usize; 2], pub gr: [usize; 2] }
pub fn cut_of(w: usize, _h: usize) -> Cut { let p = if w >= 6 * GP { 2 * GP } else { GP }; Cut { p, q: GQ, gx: [p, 2 * p], gr: [GQ, 2 * GQ] } }
/// the zones of the planes of a call, none when the sizes cannot be cut
pub fn zones(f: &crate::spec::Fun, p: &crate::spec::Params, w: usize, h: usize, pl: &[crate::spec::Plane], padk: i64, ord: bool) -> Option<Vec<Zone>> {
    let c = cut_of(w, h); let big = crate::spec::layout(f, p, w + c.p, h + c.q, 0, 0); let mut out = vec![];
    if matches!(f.fam, crate::spec::Fam::Rotate { .. }) { return None; }
    for (i, (a, b)) in pl.iter().zip(&big).enumerate() { let (dp, dq) = (b.row - a.row, b.rows - a.rows); if (c.gx[0] * dp) % c.p != 0 || (c.gr[0] * dq) % c.q != 0 { return None; }
        let e = a.eb as i64; let g = |k: usize| (c.gx[k] * dp / c.p) as i64 * e; let r = |k: usize| (c.gr[k] * dq / c.q) as i64;
        let mut z = Zone { s: a.stride as i64 * e, gx: [g(0), g(1)], gr: [r(0), r(1)], xs: [J1, J2], rs: [K1, K2], pb: dp as i64 * e, qb: dq as i64, pad: (if ord { 0 } else { i }..i + 1).map(|k| (S0 << k, e * padk * if ord { (a.row / w).max(1) as i64 } else { 1 })).collect() };
        if let crate::spec::Fam::Mirror { .. } = f.fam { if !a.write { if p.geo == 0 { z.rs = [K2, K1]; z.gr = [a.rows as i64 - z.gr[1], a.rows as i64 - z.gr[0]] } else { z.xs = [J2, J1]; let row = a.row as i64 * e; z.gx = [row - z.gx[1], row - z.gx[0]] } } }
        out.push(z) }
    Some(out)
}
