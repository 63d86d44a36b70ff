//! Hash-consed bit-vector (and opaque IEEE) terms.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    #[inline]
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    #[inline]
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    #[inline]
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    #[inline]
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    #[inline]
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    #[inline]
    fn write_i64(&mut self, i: i64) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Var, Undef,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    ZExt, SExt, Extract, Concat, Ite, Eq, Ult, Slt,
    UMin, UMax, SMin, SMax, UAddSat, USubSat, SAddSat, SSubSat,
    FAdd, FSub, FMul, FDiv, FCmp, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc, FRound, FRoundEven, FFloor, FCeil, FTruncI, FNeg, FAbs, FSqrt, FPow, FMa, FMin, FMax,
    Table, UMulOv, UAddOv,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: T, pub b: T, pub c: T, pub k: u64 }

#[inline]
pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline]
pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub struct Store {
    pub n: Vec<Node>,
    /// per node: unsigned and signed upper bound of the value
    um: Vec<(u64, i64)>,
    map: FxMap<Node, T>,
    pub tables: Vec<std::rc::Rc<(u8, Vec<u64>)>>,
    pub vars: Vec<VarInfo>,
}
#[derive(Clone, Debug)]
pub struct VarInfo { pub w: u8, pub plane: u32, pub idx: u64 }

// float helpers on bit patterns -------------------------------------------------
pub fn f2d(v: u64, w: u8) -> f64 {
    match w { 16 => half_to_f64(v as u16), 32 => f32::from_bits(v as u32) as f64, _ => f64::from_bits(v) }
}
pub fn half_to_f64(h: u16) -> f64 {
    let s = if h >> 15 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32; let m = (h & 1023) as f64;
    if e == 0 { s * m * 2f64.powi(-24) } else if e == 31 { if m == 0.0 { s * f64::INFINITY } else { f64::NAN } } else { s * (1.0 + m / 1024.0) * 2f64.powi(e - 15) }
}
pub fn f64_to_half(d: f64) -> u16 {
    // round to nearest even, directly from f64 (exact inputs from f32 => single rounding)
    let s = if d.is_sign_negative() { 0x8000u16 } else { 0 };
    if d.is_nan() { return 0x7e00 | s; }
    let a = d.abs();
    if a >= 65520.0 { return s | 0x7c00; }
    if a < 2f64.powi(-25) || a == 0.0 { return s; }
    let e = (a.log2().floor() as i32).max(-14);
    let mut e = e; 
    if a < 2f64.powi(e) && e > -14 { e -= 1 } else if a >= 2f64.powi(e + 1) { e += 1 }
    let q = a / 2f64.powi(e - 10); // in units of ulp
    let mut r = q.floor(); let fr = q - r;
    if fr > 0.5 || (fr == 0.5 && (r as u64) % 2 == 1) { r += 1.0 }
    let r = r as u32;
    if e == -14 { return s | r as u16; } // subnormal or first normal: encoding is continuous
    let r2 = r as i32 - 1024; 
    let bits = (((e + 15) as u32) << 10) as i32 + r2;
    s | bits as u16
}
pub fn d2f(d: f64, w: u8) -> u64 { match w { 16 => f64_to_half(d) as u64, 32 => (d as f32).to_bits() as u64, _ => d.to_bits() } }
fn fbin(op: Op, a: u64, b: u64, w: u8) -> u64 {
    match w {
        64 => { let (x, y) = (f64::from_bits(a), f64::from_bits(b)); (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FPow => x.powf(y), Op::FMin => x.min(y), Op::FMax => x.max(y), _ => unreachable!() }).to_bits() }
        32 => { let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32)); (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FPow => x.powf(y), Op::FMin => x.min(y), Op::FMax => x.max(y), _ => unreachable!() }).to_bits() as u64 }
        _ => { let (x, y) = (half_to_f64(a as u16) as f32, half_to_f64(b as u16) as f32); let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FPow => x.powf(y), Op::FMin => x.min(y), Op::FMax => x.max(y), _ => unreachable!() }; f64_to_half(r as f64) as u64 }
    }
}
fn fcmp(pred: u64, a: u64, b: u64, w: u8) -> bool {
    let (x, y) = (f2d(a, w), f2d(b, w));
    let un = x.is_nan() || y.is_nan();
    match pred { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un,
        8 => un, 9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y, 14 => un || x != y, _ => true }
}

/// Concrete semantics of one operator (the single source of truth for folding and evaluation).
#[inline]
pub fn eval_op(op: Op, w: u8, wa: u8, wb: u8, k: u64, a: u64, b: u64, c: u64) -> u64 {
    let m = mask(w);
    match op {
        Op::Const => k,
        Op::Var | Op::Undef => 0,
        Op::UMulOv => ((a as u128 * b as u128) > mask(wa) as u128) as u64,
        Op::UAddOv => ((a as u128 + b as u128) > mask(wa) as u128) as u64,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { m } else { (sx(a, w).wrapping_div(sx(b, w))) as u64 & m },
        Op::SRem => if b == 0 { a } else { (sx(a, w).wrapping_rem(sx(b, w))) as u64 & m },
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u64 { (w - 1) as u64 } else { b }; ((sx(a, w) >> s) as u64) & m }
        Op::ZExt => a,
        Op::SExt => sx(a, wa) as u64 & m,
        Op::Extract => (a >> k) & m,
        Op::Concat => ((a << wb) | b) & m,
        Op::Ite => if a != 0 { b } else { c },
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u64,
        Op::UMin => a.min(b), Op::UMax => a.max(b),
        Op::SMin => if sx(a, w) < sx(b, w) { a } else { b },
        Op::SMax => if sx(a, w) > sx(b, w) { a } else { b },
        Op::UAddSat => { let s = a as u128 + b as u128; if s > m as u128 { m } else { s as u64 } }
        Op::USubSat => a.saturating_sub(b),
        Op::SAddSat => { let s = sx(a, w) as i128 + sx(b, w) as i128; let hi = (m >> 1) as i128; s.clamp(-hi - 1, hi) as u64 & m }
        Op::SSubSat => { let s = sx(a, w) as i128 - sx(b, w) as i128; let hi = (m >> 1) as i128; s.clamp(-hi - 1, hi) as u64 & m }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FPow | Op::FMin | Op::FMax => fbin(op, a, b, w),
        Op::FCmp => fcmp(k, a, b, wa) as u64,
        Op::SiToFp => { let v = sx(a, wa); match w { 64 => (v as f64).to_bits(), 32 => (v as f32).to_bits() as u64, _ => f64_to_half(v as f64) as u64 } }
        Op::UiToFp => { match w { 64 => (a as f64).to_bits(), 32 => (a as f32).to_bits() as u64, _ => f64_to_half(a as f64) as u64 } }
        Op::FpToSi => { let d = f2d(a, wa); let hi = (m >> 1) as i64; let lo = -hi - 1; let r = if d.is_nan() { 0 } else if d >= hi as f64 { hi } else if d <= lo as f64 { lo } else { d as i64 }; r as u64 & m }
        Op::FpToUi => { let d = f2d(a, wa); if d.is_nan() || d <= 0.0 { 0 } else if d >= m as f64 { m } else { d as u64 } }
        Op::FpExt | Op::FpTrunc => d2f(f2d(a, wa), w),
        Op::FRound => match w { 32 => f32::from_bits(a as u32).round().to_bits() as u64, _ => d2f(f2d(a, w).round(), w) },
        Op::FRoundEven => d2f(f2d(a, w).round_ties_even(), w),
        Op::FFloor => d2f(f2d(a, w).floor(), w),
        Op::FCeil => d2f(f2d(a, w).ceil(), w),
        Op::FTruncI => d2f(f2d(a, w).trunc(), w),
        Op::FNeg => a ^ (1u64 << (w - 1)),
        Op::FAbs => a & !(1u64 << (w - 1)),
        Op::FSqrt => match w { 32 => f32::from_bits(a as u32).sqrt().to_bits() as u64, _ => d2f(f2d(a, w).sqrt(), w) },
        Op::FMa => match w { 32 => f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u64, _ => d2f(f2d(a, w).mul_add(f2d(b, w), f2d(c, w)), w) },
        Op::Table => unreachable!(),
    }
}

impl Store {
    pub fn new() -> Store { Store { n: Vec::with_capacity(1 << 14), um: Vec::with_capacity(1 << 14), map: FxMap::default(), tables: vec![], vars: vec![] } }
    #[inline]
    pub fn w(&self, t: T) -> u8 { self.n[t as usize].w }
    #[inline]
    pub fn node(&self, t: T) -> &Node { &self.n[t as usize] }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u64> { let n = &self.n[t as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    #[inline]
    pub fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let u = self.bounds(&n); let t = self.n.len() as T; self.n.push(n); self.um.push(u); self.map.insert(n, t); t
    }
    pub fn umax(&self, t: T) -> u64 { self.um[t as usize].0 }
    fn bounds(&self, n: &Node) -> (u64, i64) {
        let w = n.w; let m = mask(w); let top = (m >> 1) as i64;
        let u = |t: T| self.um[t as usize].0; let s = |t: T| self.um[t as usize].1; let ww = |t: T| self.n[t as usize].w;
        let fill = |x: u64| if x == 0 { 0 } else { !0u64 >> x.leading_zeros() };
        let mut sm = None;
        let um = match n.op {
            Op::Const => { sm = Some(sx(n.k, w)); n.k }
            Op::ZExt => u(n.a),
            Op::SExt => { sm = Some(s(n.a)); if u(n.a) <= mask(ww(n.a)) >> 1 { u(n.a) } else { m } }
            Op::Extract => { let x = u(n.a) >> n.k; if x <= m { x } else { m } }
            Op::Concat => (u(n.a) << ww(n.b)).saturating_add(u(n.b)).min(m),
            Op::Add => { let x = u(n.a) as u128 + u(n.b) as u128; if x <= m as u128 { x as u64 } else { m } }
            Op::Mul => { let x = u(n.a) as u128 * u(n.b) as u128; if x <= m as u128 { x as u64 } else { m } }
            Op::And => u(n.a).min(u(n.b)),
            Op::Or | Op::Xor => fill(u(n.a) | u(n.b)).min(u(n.a).saturating_add(u(n.b))),
            Op::LShr => match self.cv(n.b) { Some(k) if k < w as u64 => u(n.a) >> k, Some(_) => 0, None => u(n.a) },
            Op::Shl => match self.cv(n.b) { Some(k) if k < w as u64 && (u(n.a) as u128) << k <= m as u128 => u(n.a) << k, _ => m },
            Op::UDiv => match self.cv(n.b) { Some(k) if k > 0 => u(n.a) / k, _ => m },
            Op::URem => match self.cv(n.b) { Some(k) if k > 0 => u(n.a).min(k - 1), _ => u(n.a).max(m) },
            Op::Ite => { sm = Some(s(n.b).max(s(n.c))); u(n.b).max(u(n.c)) }
            Op::UMin => u(n.a).min(u(n.b)), Op::UMax => u(n.a).max(u(n.b)),
            Op::UAddSat => u(n.a).saturating_add(u(n.b)).min(m), Op::USubSat => u(n.a),
            Op::SMin => { let x = s(n.a).min(s(n.b)); sm = Some(x); if u(n.a) <= top as u64 && u(n.b) <= top as u64 { u(n.a).min(u(n.b)) } else { m } }
            Op::SMax => { let x = s(n.a).max(s(n.b)); sm = Some(x); let nn = |t: T| self.cv(t).map(|k| sx(k, w) >= 0).unwrap_or(self.um[t as usize].0 <= top as u64); if nn(n.a) || nn(n.b) { x.max(0) as u64 } else { m } }
            Op::Eq | Op::Ult | Op::Slt | Op::FCmp => 1,
            Op::Table => self.tables[n.k as usize].1.iter().cloned().max().unwrap_or(0),
            _ => m,
        }.min(m);
        let d = if um <= top as u64 { um as i64 } else { top };
        (um, sm.map(|x| x.min(d)).unwrap_or(d))
    }
    #[inline]
    pub fn k(&mut self, w: u8, v: u64) -> T { self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn undef(&mut self, w: u8) -> T { self.mk(Node { op: Op::Undef, w, a: 0, b: 0, c: 0, k: 0 }) }
    pub fn var(&mut self, w: u8, plane: u32, idx: u64) -> T {
        let t = self.mk(Node { op: Op::Var, w, a: plane, b: 0, c: 0, k: idx });
        t
    }
    /// the same node over other operands
    pub fn rebuild(&mut self, n: Node, q: [T; 3]) -> T { self.mk(Node { a: q[0], b: q[1], c: q[2], ..n }) }
    fn raw(&mut self, op: Op, w: u8, a: T, b: T, c: T, k: u64) -> T { self.mk(Node { op, w, a, b, c, k }) }

    pub fn un(&mut self, op: Op, w: u8, a: T, k: u64) -> T {
        let wa = self.w(a);
        if let Some(v) = self.cv(a) { let r = eval_op(op, w, wa, 0, k, v, 0, 0); return self.k(w, r); }
        match op {
            Op::ZExt => return self.zext(a, w),
            Op::SExt => return self.sext(a, w),
            Op::Extract => return self.extract(a, k as u8, w),
            _ => {}
        }
        self.raw(op, w, a, 0, 0, k)
    }
    pub fn zext(&mut self, a: T, w: u8) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(v) = self.cv(a) { return self.k(w, v); }
        let na = *self.node(a);
        if na.op == Op::ZExt { return self.zext(na.a, w); }
        if na.op == Op::Undef { return self.undef(w); }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: T, w: u8) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(v) = self.cv(a) { return self.k(w, sx(v, wa) as u64); }
        let na = *self.node(a);
        if na.op == Op::SExt { return self.sext(na.a, w); }
        if na.op == Op::ZExt { return self.zext(na.a, w); }
        if na.op == Op::Undef { return self.undef(w); }
        if matches!(na.op, Op::Add | Op::Sub) && wa >= 8 {
            if let (Some(p), Some(q)) = (self.srange(na.a, 4), self.srange(na.b, 4)) {
                let (lo, hi) = if na.op == Op::Add { (p.0 + q.0, p.1 + q.1) } else { (p.0 - q.1, p.1 - q.0) };
                if lo >= -(1i64 << (wa - 1)) && hi < 1i64 << (wa - 1) { let (x, y) = (self.sext(na.a, w), self.sext(na.b, w)); return if na.op == Op::Add { self.add(x, y) } else { self.sub(x, y) } }
            }
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    /// a range of the signed value, from the form of the term only; None for anything that is not small
    fn srange(&self, t: T, depth: u32) -> Option<(i64, i64)> {
        let n = self.node(t); if n.w > 32 { return None }
        Some(match n.op {
            Op::Const => { let v = sx(n.k & mask(n.w), n.w); (v, v) }
            Op::ZExt => { let wa = self.w(n.a); if wa >= 32 { return None } (0, mask(wa) as i64) }
            Op::SExt => { let wa = self.w(n.a); if wa > 31 { return None } (-(1i64 << (wa - 1)), (1i64 << (wa - 1)) - 1) }
            Op::Add | Op::Sub if depth > 0 => { let (p, q) = (self.srange(n.a, depth - 1)?, self.srange(n.b, depth - 1)?); let r = if n.op == Op::Add { (p.0 + q.0, p.1 + q.1) } else { (p.0 - q.1, p.1 - q.0) }; if r.0 < -(1i64 << (n.w - 1)) || r.1 >= 1i64 << (n.w - 1) { return None } r }
            _ => return None })
    }
    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        if lo == 0 && w == wa { return a; }
        if let Some(v) = self.cv(a) { return self.k(w, v >> lo); }
        let na = *self.node(a);
        if lo > 0 && self.umax(a) >> lo == 0 && na.op != Op::Undef { return self.k(w, 0); }
        match na.op {
            Op::Undef => return self.undef(w),
            Op::Extract => return self.extract(na.a, lo + na.k as u8, w),
            Op::ZExt => {
                let wi = self.w(na.a);
                if lo >= wi { return self.k(w, 0); }
                if lo + w <= wi { return self.extract(na.a, lo, w); }
                let x = self.extract(na.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(na.a);
                if lo + w <= wi { return self.extract(na.a, lo, w); }
                if lo == 0 { return self.sext(na.a, w); }
            }
            Op::Concat => {
                let wl = self.w(na.b);
                if lo >= wl { return self.extract(na.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(na.b, lo, w); }
                let l = self.extract(na.b, lo, wl - lo);
                let h = self.extract(na.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                // push slices through when one side is constant (keeps byte structure visible)
                if self.cv(na.b).is_some() || self.cv(na.a).is_some() {
                    let x = self.extract(na.a, lo, w); let y = self.extract(na.b, lo, w);
                    return self.bin(na.op, x, y);
                }
                if na.op == Op::Or {
                    let x = self.extract(na.a, lo, w); let y = self.extract(na.b, lo, w);
                    return self.bin(na.op, x, y);
                }
            }
            Op::LShr => if let Some(s) = self.cv(na.b) {
                let s = s as u8;
                if lo + s + w <= wa { return self.extract(na.a, lo + s, w); }
            },
            Op::AShr => if let Some(s) = self.cv(na.b) {
                let s = s as u8;
                if lo as u32 + s as u32 + w as u32 <= wa as u32 { return self.extract(na.a, lo + s, w); }
            },
            Op::Shl => if let Some(s) = self.cv(na.b) {
                let s = s as u8;
                if lo >= s { return self.extract(na.a, lo - s, w); }
                if lo + w <= s { return self.k(w, 0); }
                if lo == 0 { let x = self.extract(na.a, 0, w - s); let z = self.k(s, 0); return self.concat(x, z); }
            },
            Op::Add | Op::Sub | Op::Mul => if lo == 0 {
                let x = self.extract(na.a, 0, w); let y = self.extract(na.b, 0, w);
                return self.bin(na.op, x, y);
            } else if lo + w < wa && self.umax(a) > mask(lo + w) {
                let x = self.extract(na.a, 0, lo + w); let y = self.extract(na.b, 0, lo + w);
                let z = self.bin(na.op, x, y); return self.extract(z, lo, w);
            },
            Op::Ite => {
                if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                    let x = self.extract(na.b, lo, w); let y = self.extract(na.c, lo, w);
                    return self.ite(na.a, x, y);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.cv(hi), self.cv(lo)) { return self.k(w, (a << wl) | b); }
        if self.cv(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (*self.node(hi), *self.node(lo));
        if nh.op == Op::Undef && nl.op == Op::Undef { return self.undef(w); }
        // adjacent slices of the same term
        if nh.op == Op::Extract {
            if nl.op == Op::Extract && nl.a == nh.a && nl.k + wl as u64 == nh.k { return self.extract(nh.a, nl.k as u8, w); }
            if nh.a == lo && nh.k == wl as u64 { return self.extract(lo, 0, w); }
            // hi slice adjacent to the top slice of lo = concat(extract.., ..)
            if nl.op == Op::Concat {
                let t = *self.node(nl.a);
                let wt = t.w;
                if t.op == Op::Extract && t.a == nh.a && t.k + wt as u64 == nh.k { let x = self.extract(nh.a, t.k as u8, wt + wh); return self.concat(x, nl.b); }
            }
        }
        if nh.op == Op::Extract && nh.k >= wl as u64 {
            let x = self.extract(nh.a, (nh.k - wl as u64) as u8, wl);
            if x == lo { return self.extract(nh.a, (nh.k - wl as u64) as u8, w); }
        }
        if nh.op == Op::ZExt {
            // zext(x) : lo  => zext(x:lo)
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        // normalise to right-nested
        if nh.op == Op::Concat { let x = self.concat(nh.b, lo); return self.concat(nh.a, x); }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn not1(&mut self, a: T) -> T { let o = self.k(1, 1); self.bin(Op::Xor, a, o) }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = *self.node(c);
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        if w == 1 {
            if self.cv(a) == Some(1) && self.cv(b) == Some(0) { return c; }
            if self.cv(a) == Some(0) && self.cv(b) == Some(1) { return self.not1(c); }
        }
        // min/max recognition
        if nc.op == Op::Slt || nc.op == Op::Ult {
            let s = nc.op == Op::Slt;
            if nc.a == a && nc.b == b { return self.bin(if s { Op::SMin } else { Op::UMin }, a, b); }
            if nc.a == b && nc.b == a { return self.bin(if s { Op::SMax } else { Op::UMax }, a, b); }
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: T, b: T) -> T { self.bin(Op::Eq, a, b) }
    pub fn ult(&mut self, a: T, b: T) -> T { self.bin(Op::Ult, a, b) }
    pub fn slt(&mut self, a: T, b: T) -> T { self.bin(Op::Slt, a, b) }
    pub fn add(&mut self, a: T, b: T) -> T { self.bin(Op::Add, a, b) }
    pub fn sub(&mut self, a: T, b: T) -> T { self.bin(Op::Sub, a, b) }
    pub fn mul(&mut self, a: T, b: T) -> T { self.bin(Op::Mul, a, b) }

    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let (wa, wb) = (self.w(a), self.w(b));
        debug_assert!(wa == wb, "{:?} widths {} {}", op, wa, wb);
        let w = match op { Op::Eq | Op::Ult | Op::Slt | Op::UMulOv | Op::UAddOv => 1, _ => wa };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { let r = eval_op(op, w, wa, wb, 0, x, y, 0); return self.k(w, r); }
        // commutative: constant right, else ordered
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::UMin | Op::UMax | Op::SMin | Op::SMax | Op::UAddSat | Op::SAddSat);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        let (na, nb) = (*self.node(a), *self.node(b));
        let m = mask(wa);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if na.op == Op::Add { if let Some(x) = self.cv(na.b) { let s = self.k(w, x.wrapping_add(y)); return self.bin(Op::Add, na.a, s); } }
                    if na.op == Op::Sub { if let Some(x) = self.cv(na.a) { let s = self.k(w, x.wrapping_add(y)); return self.bin(Op::Sub, s, na.b); } }
                }
                // (x + c) + y => (x + y) + c
                if na.op == Op::Add && cb.is_none() { if self.cv(na.b).is_some() { let s = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, s, na.b); } }
                if nb.op == Op::Add && cb.is_none() { if self.cv(nb.b).is_some() { let s = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, s, nb.b); } }
                // (x - y) + y => x
                if na.op == Op::Sub && na.b == b { return na.a; }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.k(w, 0); }
                if let Some(y) = cb { let c = self.k(w, y.wrapping_neg()); return self.bin(Op::Add, a, c); }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; }
                    if self.cv(na.b).is_some() { let s = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, s, na.b); } }
                if nb.op == Op::Add { if let Some(y) = self.cv(nb.b) { let s = self.bin(Op::Sub, a, nb.a); let c = self.k(w, y.wrapping_neg()); return self.bin(Op::Add, s, c); } 
                    if nb.a == a { let z = self.k(w, 0); return self.bin(Op::Sub, z, nb.b); } if nb.b == a { let z = self.k(w, 0); return self.bin(Op::Sub, z, nb.a); } }
                if nb.op == Op::Sub && nb.a == a { return nb.b; }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb {
                    if y.is_power_of_two() { let s = self.k(w, y.trailing_zeros() as u64); return self.bin(Op::Shl, a, s); }
                    if na.op == Op::Mul { if let Some(x) = self.cv(na.b) { let s = self.k(w, x.wrapping_mul(y)); return self.bin(Op::Mul, na.a, s); } }
                }
            }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                if let Some(y) = cb {
                    // contiguous masks become slices
                    if y & (y + 1) == 0 { let l = y.count_ones() as u8; let x = self.extract(a, 0, l); return self.zext(x, w); }
                    let tz = y.trailing_zeros() as u8; let len = 64 - tz - (y.leading_zeros() as u8);
                    if y.count_ones() as u8 == len && w <= 64 { let x = self.extract(a, tz, len); let z = self.k(tz, 0); let c = self.concat(x, z); return self.zext(c, w); }
                    // byte-granular mask
                    if w > 8 && w % 8 == 0 { let mut ok = true; for i in 0..w / 8 { let bt = (y >> (8 * i)) & 255; if bt != 0 && bt != 255 { ok = false } }
                        if ok { let mut r: Option<T> = None; for i in 0..w / 8 { let x = if (y >> (8 * i)) & 255 != 0 { self.extract(a, 8 * i, 8) } else { self.k(8, 0) }; r = Some(match r { None => x, Some(l) => self.concat(x, l) }); } return r.unwrap(); } }
                    if na.op == Op::And { if let Some(x) = self.cv(na.b) { let s = self.k(w, x & y); return self.bin(Op::And, na.a, s); } }
                }
            }
            Op::Or | Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return if op == Op::Or { a } else { self.k(w, 0) }; }
                if op == Op::Or && cb == Some(m) { return b; }
                if op == Op::Xor && w == 1 && na.op == Op::Xor && cb == Some(1) && self.cv(na.b) == Some(1) { return na.a; }
                if w > 1 { if let Some(r) = self.merge_disjoint(a, b) { return r; } }
            }
            Op::Shl => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u64 { return self.k(w, 0); }
                    let x = self.extract(a, 0, w - s as u8); let z = self.k(s as u8, 0); return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u64 { return self.k(w, 0); }
                    let x = self.extract(a, s as u8, w - s as u8); return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if na.op == Op::ZExt && self.w(na.a) < w { return self.bin(Op::LShr, a, b); }
                    let s = s.min(w as u64 - 1) as u8;
                    let x = self.extract(a, s, w - s); return self.sext(x, w);
                }
            }
            Op::UDiv => { if cb == Some(1) { return a; } if let Some(y) = cb { if y.is_power_of_two() { let s = self.k(w, y.trailing_zeros() as u64); return self.bin(Op::LShr, a, s); } } }
            Op::URem => { if let Some(y) = cb { if y.is_power_of_two() { let s = self.k(w, y - 1); return self.bin(Op::And, a, s); } } }
            Op::Eq => {
                if a == b { return self.k(1, 1); }
                if let Some(y) = cb {
                    if na.op == Op::ZExt { let wi = self.w(na.a); if y > mask(wi) { return self.k(1, 0); } let c = self.k(wi, y); return self.bin(Op::Eq, na.a, c); }
                    if wa == 1 { return if y == 1 { a } else { self.not1(a) }; }
                    if na.op == Op::Add { if let Some(x) = self.cv(na.b) { let c = self.k(wa, y.wrapping_sub(x)); return self.bin(Op::Eq, na.a, c); } }
                }
            }
            Op::Ult => {
                if a == b { return self.k(1, 0); }
                if cb == Some(0) { return self.k(1, 0); }
                if ca == Some(m) { return self.k(1, 0); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
                if let Some(y) = cb { if na.op == Op::ZExt { let wi = self.w(na.a); if y > mask(wi) { return self.k(1, 1); } let c = self.k(wi, y); return self.bin(Op::Ult, na.a, c); } }
                if let Some(x) = ca { if nb.op == Op::ZExt { let wi = self.w(nb.a); if x >= mask(wi) { return self.k(1, 0); } let c = self.k(wi, x); return self.bin(Op::Ult, c, nb.a); } }
            }
            Op::Slt => {
                if a == b { return self.k(1, 0); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) < wa && self.w(nb.a) < wa { return self.bin(Op::Ult, a, b); }
                if na.op == Op::ZExt && self.w(na.a) < wa { if let Some(y) = cb { return if sx(y, wa) <= 0 { self.k(1, 0) } else { self.bin(Op::Ult, a, b) }; } }
                if nb.op == Op::ZExt && self.w(nb.a) < wa { if let Some(x) = ca { return if sx(x, wa) < 0 { self.k(1, 1) } else { self.bin(Op::Ult, a, b) }; } }
            }
            Op::UMin | Op::UMax | Op::SMin | Op::SMax => {
                if a == b { return a; }
                if let Some(y) = cb {
                    match op {
                        Op::UMin if y == m => return a,
                        Op::UMin if y == 0 => return b,
                        Op::UMax if y == 0 => return a,
                        _ => {}
                    }
                    if na.op == Op::ZExt {
                        let im = mask(self.w(na.a));
                        let sy = sx(y, wa);
                        let isneg = sy < 0;
                        match op {
                            Op::UMin if y >= im => return a,
                            Op::SMin if !isneg && y >= im => return a,
                            Op::SMin if isneg => return b,
                            Op::SMax if sy <= 0 => return a,
                            _ => {}
                        }
                    }
                    if na.op == Op::SExt {
                        let wi = self.w(na.a); let hi = (mask(wi) >> 1) as i64; let lo = -hi - 1; let sy = sx(y, wa);
                        match op { Op::SMin if sy >= hi => return a, Op::SMax if sy <= lo => return a, _ => {} }
                    }
                }
            }
            Op::UAddSat | Op::SAddSat | Op::USubSat | Op::SSubSat => { if cb == Some(0) { return a; } }
            _ => {}
        }
        self.raw(op, w, a, b, 0, 0)
    }
    /// a|b (or a^b) where the set bits of the two are disjoint by structure: rebuild as concat.
    fn merge_disjoint(&mut self, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let mut pa = vec![]; let mut pb = vec![];
        self.pieces(a, &mut pa); self.pieces(b, &mut pb);
        if pa.len() == 1 && pb.len() == 1 { return None; }
        // piece = (width, Some(term)|None for zero), low first
        let mut out: Vec<T> = vec![];
        let (mut i, mut j) = (0, 0); let (mut oa, mut ob) = (0u8, 0u8);
        let mut done = 0u8;
        while done < w {
            let (wa, ta) = pa[i]; let (wb, tb) = pb[j];
            let l = (wa - oa).min(wb - ob);
            let x = match (ta, tb) {
                (None, None) => self.k(l, 0),
                (Some(t), None) => self.extract(t, oa, l),
                (None, Some(t)) => self.extract(t, ob, l),
                (Some(_), Some(_)) => return None,
            };
            out.push(x); done += l; oa += l; ob += l;
            if oa == wa { i += 1; oa = 0; }
            if ob == wb { j += 1; ob = 0; }
        }
        let mut r = *out.last().unwrap();
        for &x in out.iter().rev().skip(1) { r = self.concat(r, x); }
        Some(r)
    }
    fn pieces(&mut self, a: T, out: &mut Vec<(u8, Option<T>)>) {
        let n = *self.node(a);
        match n.op {
            Op::Concat => { self.pieces(n.b, out); self.pieces(n.a, out); }
            Op::ZExt => { let wi = self.w(n.a); self.pieces(n.a, out); out.push((n.w - wi, None)); }
            Op::Const if n.k == 0 => out.push((n.w, None)),
            Op::Const => {
                // split the constant in runs of zero / nonzero bytes-ish (zero runs only matter)
                let mut i = 0u8;
                while i < n.w {
                    let z = (n.k >> i) & 1 == 0; let mut l = 1; while i + l < n.w && (((n.k >> (i + l)) & 1 == 0) == z) { l += 1 }
                    if z { out.push((l, None)) } else { let c = self.k(l, n.k >> i); out.push((l, Some(c))) }
                    i += l;
                }
            }
            _ => out.push((n.w, Some(a))),
        }
    }
    pub fn fbin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let r = eval_op(op, w, w, w, 0, x, y, 0); return self.k(w, r); }
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && a > b { (b, a) } else { (a, b) };
        self.raw(op, w, a, b, 0, 0)
    }
    pub fn fcmp(&mut self, pred: u64, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let r = eval_op(Op::FCmp, 1, w, w, pred, x, y, 0); return self.k(1, r); }
        self.raw(Op::FCmp, 1, a, b, 0, pred)
    }
    pub fn fma(&mut self, a: T, b: T, c: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) { let r = eval_op(Op::FMa, w, w, w, 0, x, y, z); return self.k(w, r); }
        self.raw(Op::FMa, w, a, b, c, 0)
    }
    pub fn table(&mut self, id: u32, idx: T) -> T {
        let (w, tb) = { let t = &self.tables[id as usize]; (t.0, t.clone()) };
        if let Some(i) = self.cv(idx) { return self.k(w, tb.1[i as usize]); }
        self.raw(Op::Table, w, idx, 0, 0, id as u64)
    }
    /// children actually used by a node
    pub fn kids(&self, t: T) -> ([T; 3], usize) {
        let n = self.node(t);
        match n.op {
            Op::Const | Op::Var | Op::Undef => ([0; 3], 0),
            Op::ZExt | Op::SExt | Op::Extract | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc | Op::FRound | Op::FRoundEven | Op::FFloor | Op::FCeil | Op::FTruncI | Op::FNeg | Op::FAbs | Op::FSqrt | Op::Table => ([n.a, 0, 0], 1),
            Op::Ite | Op::FMa => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
}
