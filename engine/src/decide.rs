//! Discharging of data obligations: |computed - specified| <= tol for all values of the samples.
//! Back end 1: affine forms with error intervals and clamps over the ideal integers (a sound abstract
//! interpretation of the term, congruent mod 2^w), with case splits on single samples.
//! Back end 2: exhaustive evaluation. Counterexamples come from evaluation at corner / random points.
use crate::spec::*;
use crate::term::*;

#[derive(Clone, Debug)]
pub struct Form { c0: f64, co: Vec<(u16, f64)>, elo: f64, ehi: f64, /// known interval of the value before clamping
    rlo: f64, rhi: f64, clo: f64, chi: f64, int: bool }
const INF: f64 = f64::INFINITY;
pub enum Stop { Split(u16, f64) }
type FR<X> = Result<X, Stop>;

impl Form {
    fn k(v: f64) -> Form { Form { c0: v, co: vec![], elo: 0., ehi: 0., rlo: -INF, rhi: INF, clo: -INF, chi: INF, int: v == v.floor() } }
    fn top(lo: f64, hi: f64) -> Form { Form { c0: 0., co: vec![], elo: lo, ehi: hi, rlo: -INF, rhi: INF, clo: -INF, chi: INF, int: true } }
    fn cst(&self) -> bool { self.co.is_empty() && self.elo == 0. && self.ehi == 0. }
    fn scale(mut self, s: f64) -> Form {
        if s == 0. { return Form::k(0.); }
        self.c0 *= s; for x in self.co.iter_mut() { x.1 *= s }
        let (a, b) = (self.elo * s, self.ehi * s); let (c, d) = (self.clo * s, self.chi * s); let (e, f) = (self.rlo * s, self.rhi * s);
        if s > 0. { self.elo = a; self.ehi = b; self.clo = c; self.chi = d; self.rlo = e; self.rhi = f } else { self.elo = b; self.ehi = a; self.clo = d; self.chi = c; self.rlo = f; self.rhi = e }
        if s != s.floor() { self.int = false } self
    }
    fn shift(mut self, k: f64) -> Form { self.c0 += k; self.rlo += k; self.rhi += k; self.clo += k; self.chi += k; if k != k.floor() { self.int = false } self }
}

pub struct An<'s> { st: &'s Store, vidx: FxMap<T, u16>, pub vars: Vec<T>, bx: Vec<(f64, f64)>, memo: FxMap<T, Form> }

impl<'s> An<'s> {
    pub fn new(st: &'s Store, vars: Vec<T>) -> An<'s> {
        let bx = vars.iter().map(|&v| (0., mask(st.w(v)) as f64)).collect();
        let vidx = vars.iter().enumerate().map(|(i, &v)| (v, i as u16)).collect();
        An { st, vidx, vars, bx, memo: Default::default() }
    }
    fn arange(&self, f: &Form) -> (f64, f64) { let (mut a, mut b) = (f.c0, f.c0); for &(v, c) in &f.co { let (l, h) = self.bx[v as usize]; if c > 0. { a += c * l; b += c * h } else { a += c * h; b += c * l } } ((a + f.elo).max(f.rlo), (b + f.ehi).min(f.rhi)) }
    fn range(&self, f: &Form) -> (f64, f64) { let (a, b) = self.arange(f); let (a, b) = (a.max(f.clo).min(f.chi), b.min(f.chi).max(f.clo)); if f.int { ((a - 1e-6).ceil(), (b + 1e-6).floor()) } else { (a, b) } }
    /// drop inactive clamps, resolve saturated ones
    fn norm(&self, mut f: Form) -> Form {
        let (a, b) = self.arange(&f);
        if a >= f.clo - 1e-9 { f.clo = -INF } if b <= f.chi + 1e-9 { f.chi = INF }
        if f.clo > -INF && b <= f.clo { let mut k = Form::k(f.clo); k.int = f.int; return k; }
        if f.chi < INF && a >= f.chi { let mut k = Form::k(f.chi); k.int = f.int; return k; }
        f
    }
    fn clamp(&self, f: Form, lo: f64, hi: f64) -> Form { let mut f = f; f.clo = f.clo.max(lo).min(hi); f.chi = f.chi.min(hi).max(lo); self.norm(f) }
    /// trailing bits of a term known to be zero
    fn tz(&self, t: T) -> u8 { let n = self.st.node(t); match n.op { Op::Const => n.k.trailing_zeros().min(n.w as u32) as u8, Op::Concat => { let z = self.tz(n.b); if z == self.st.w(n.b) { z + self.tz(n.a) } else { z } } Op::ZExt | Op::SExt => { let z = self.tz(n.a); if z == self.st.w(n.a) { n.w } else { z } } Op::Shl => self.st.cv(n.b).map(|k| (self.tz(n.a) as u64 + k).min(n.w as u64) as u8).unwrap_or(0), Op::Or | Op::And | Op::Add | Op::Sub => { let (a, b) = (self.tz(n.a), self.tz(n.b)); if n.op == Op::And { a.max(b) } else { a.min(b) } } Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w), _ => 0 } }
    fn single(&self, f: &Form) -> Option<(u16, f64)> { if f.co.len() == 1 { let v = f.co[0].0; let b = self.bx[v as usize]; if b.0 < b.1 { return Some(f.co[0]) } } None }
    /// request a case split of the only variable of `f` where its affine part crosses k
    fn split_at(&self, f: &Form, k: f64) -> Option<Stop> {
        let (v, c) = self.single(f)?; let b = self.bx[v as usize];
        let at = ((k - f.c0 - (f.elo + f.ehi) / 2.) / c).floor();
        let at = at.max(b.0).min(b.1 - 1.);
        Some(Stop::Split(v, at)) // boxes [lo,at] and [at+1,hi]
    }
    fn unclamp(&self, f: Form) -> FR<Form> {
        let f = self.norm(f);
        if f.clo == -INF && f.chi == INF { return Ok(f); }
        if let Some(s) = self.split_at(&f, if f.clo > -INF { f.clo - 1e-7 } else { f.chi }) { return Err(s); }
        let (a, b) = self.arange(&f); let rg = self.range(&f); let mut g = f.clone(); g.rlo = rg.0; g.rhi = rg.1;
        g.clo = -INF; g.chi = INF; g.elo += (f.chi - b).min(0.); g.ehi += (f.clo - a).max(0.); g.int = f.int; Ok(g)
    }
    fn add(&self, a: Form, b: Form, s: f64) -> FR<Form> {
        let b = b.scale(s);
        if a.cst() { return Ok(b.shift(a.c0)); } if b.cst() { return Ok(a.shift(b.c0)); }
        let a = self.unclamp(a)?; let b = self.unclamp(b)?;
        let mut co = Vec::with_capacity(a.co.len() + b.co.len()); let (mut i, mut j) = (0, 0);
        while i < a.co.len() || j < b.co.len() {
            if j >= b.co.len() || (i < a.co.len() && a.co[i].0 < b.co[j].0) { co.push(a.co[i]); i += 1 } else if i >= a.co.len() || b.co[j].0 < a.co[i].0 { co.push(b.co[j]); j += 1 } else { let c = a.co[i].1 + b.co[j].1; if c != 0. { co.push((a.co[i].0, c)) } i += 1; j += 1 }
        }
        let (ra, rb) = (self.range(&a), self.range(&b));
        Ok(Form { c0: a.c0 + b.c0, co, elo: a.elo + b.elo, ehi: a.ehi + b.ehi, rlo: ra.0 + rb.0, rhi: ra.1 + rb.1, clo: -INF, chi: INF, int: a.int && b.int })
    }
    fn window(&self, f: Form, lo: f64, w: u8) -> FR<Form> {
        let m = 2f64.powi(w as i32); let (a, b) = self.range(&f);
        let k = ((a - lo) / m).floor();
        if b < lo + (k + 1.) * m { return Ok(if k == 0. { f } else { f.shift(-k * m) }); }
        if let Some(s) = self.split_at(&f, lo + (k + 1.) * m - 0.5) { return Err(s); }
        Ok(Form::top(lo, lo + m - 1.))
    }
    fn us(&self, f: Form, w: u8) -> FR<Form> { self.window(f, 0., w) }
    fn ss(&self, f: Form, w: u8) -> FR<Form> { self.window(f, -2f64.powi(w as i32 - 1), w) }
    fn floordiv(&self, f: Form, d: f64) -> Form {
        if d == 1. { return f; }
        if f.cst() { return Form::k((f.c0 / d + 1e-9).floor()); }
        let mut g = f.scale(1. / d); g.elo -= 1. - 1. / d; g.rlo = (g.rlo + 1e-9).floor(); g.rhi = (g.rhi + 1e-9).floor(); g.clo = if g.clo > -INF { (g.clo + 1e-9).floor() } else { g.clo }; g.chi = if g.chi < INF { (g.chi + 1e-9).floor() } else { g.chi }; g.int = true; self.norm(g)
    }
    fn round_f(&self, mut f: Form, w: u8) -> Form {
        let (a, b) = self.range(&f); let m = a.abs().max(b.abs());
        let (e, ex) = match w { 16 => (2f64.powi(-11), 2f64.powi(11)), 32 => (2f64.powi(-24), 2f64.powi(24)), _ => (2f64.powi(-53), 2f64.powi(53)) };
        if !(m <= match w { 16 => 65504., 32 => 3.4e38, _ => 1.7e308 }) { let mut f = Form::top(-INF, INF); f.int = false; return f; }
        if f.int && m <= ex { return f; }
        if f.cst() { f.c0 = f2d(d2f(f.c0, w), w); return f; }
        let u = m * e + if w == 16 { 2f64.powi(-25) } else { 0. }; f.elo -= u; f.ehi += u; f.rlo -= u; f.rhi += u; f.clo = if f.clo > -INF { f2d(d2f(f.clo, w), w) } else { f.clo }; f.chi = if f.chi < INF { f2d(d2f(f.chi, w), w) } else { f.chi }; f
    }
    fn cond(&mut self, t: T) -> FR<Option<bool>> {
        let n = *self.st.node(t);
        Ok(match n.op {
            Op::Const => Some(n.k != 0),
            Op::Xor => { let a = self.cond(n.a)?; let b = self.cond(n.b)?; match (a, b) { (Some(x), Some(y)) => Some(x ^ y), _ => None } }
            Op::And => { let a = self.cond(n.a)?; if a == Some(false) { return Ok(a); } let b = self.cond(n.b)?; if b == Some(false) { return Ok(b); } if a.is_some() && b.is_some() { Some(true) } else { None } }
            Op::Or => { let a = self.cond(n.a)?; if a == Some(true) { return Ok(a); } let b = self.cond(n.b)?; if b == Some(true) { return Ok(b); } if a.is_some() && b.is_some() { Some(false) } else { None } }
            Op::Ult | Op::Slt | Op::Eq => {
                let w = self.st.w(n.a); let a = self.ev(n.a)?; let b = self.ev(n.b)?;
                let (a, b) = if n.op == Op::Slt { (self.ss(a, w)?, self.ss(b, w)?) } else { (self.us(a, w)?, self.us(b, w)?) };
                let d = self.add(a, b, -1.)?; let (l, h) = self.range(&d);
                if n.op == Op::Eq { if l > 0. || h < 0. { return Ok(Some(false)); } if l == 0. && h == 0. { return Ok(Some(true)); } if let Some(s) = self.split_at(&d, if l == 0. { 0. } else { -0.5 }) { return Err(s); } return Ok(None); }
                if h < 0. { Some(true) } else if l >= 0. { Some(false) } else { if let Some(s) = self.split_at(&d, -0.5) { return Err(s); } None }
            }
            Op::FCmp => {
                let a = self.evf(n.a)?; let b = self.evf(n.b)?; let d = self.add(a, b, -1.)?; let (l, h) = self.range(&d);
                let p = n.k & 7;
                match p { 2 => if l > 0. { Some(true) } else if h <= 0. { Some(false) } else { None }, 3 => if l >= 0. { Some(true) } else if h < 0. { Some(false) } else { None }, 4 => if h < 0. { Some(true) } else if l >= 0. { Some(false) } else { None }, 5 => if h <= 0. { Some(true) } else if l > 0. { Some(false) } else { None }, 7 | 0 if n.k == 7 => Some(true), 0 if n.k == 8 => Some(false), _ => None }
            }
            Op::Extract if n.w == 1 => { let f = self.ev(t)?; let f = self.us(f, 1)?; let (l, h) = self.range(&f); if l == h { Some(l != 0.) } else { None } }
            _ => { if n.w == 1 { if let Some(&i) = self.vidx.get(&t) { let b = self.bx[i as usize]; return if b.0 == b.1 { Ok(Some(b.0 != 0.)) } else { Err(Stop::Split(i, 0.)) }; } } None }
        })
    }
    /// does a term denote an IEEE value (as far as its own operators tell)
    fn isf(&self, t: T) -> bool { let n = self.st.node(t); match n.op { Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::SiToFp | Op::UiToFp | Op::FpExt | Op::FpTrunc | Op::FRound | Op::FRoundEven | Op::FFloor | Op::FCeil | Op::FTruncI | Op::FNeg | Op::FAbs | Op::FSqrt | Op::FPow | Op::FMa | Op::FMin | Op::FMax => true, Op::Ite => self.isf(n.b) || self.isf(n.c), _ => false } }
    fn evf(&mut self, t: T) -> FR<Form> { let n = self.st.node(t); if n.op == Op::Const { let v = f2d(n.k, n.w); return Ok(if v.is_finite() { Form::k(v) } else { let mut f = Form::top(-INF, INF); f.int = false; f }); } if !self.isf(t) { let mut f = Form::top(-INF, INF); f.int = false; return Ok(f); } self.ev(t) }
    fn ev(&mut self, t: T) -> FR<Form> {
        if let Some(f) = self.memo.get(&t) { return Ok(f.clone()); }
        let f = self.ev0(t)?; self.memo.insert(t, f.clone()); Ok(f)
    }
    fn ev0(&mut self, t: T) -> FR<Form> {
        let n = *self.st.node(t); let w = n.w; let m = mask(w.min(64)) as f64; let p2 = |x: u8| 2f64.powi(x as i32);
        Ok(match n.op {
            Op::Const => Form::k(sx(n.k, w) as f64),
            Op::Var => { let i = self.vidx[&t]; let b = self.bx[i as usize]; if b.0 == b.1 { return Ok(Form::k(b.0)); } Form { c0: 0., co: vec![(i, 1.)], elo: 0., ehi: 0., rlo: -INF, rhi: INF, clo: -INF, chi: INF, int: true } }
            Op::Undef => Form::top(0., m),
            Op::Add => { let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); self.add(a, b, 1.)? }
            Op::Sub => { let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); self.add(a, b, -1.)? }
            Op::Mul => {
                let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); let (ra, rb) = (self.range(&a), self.range(&b));
                if rb.0 == rb.1 { a.scale(rb.0) } else if ra.0 == ra.1 { b.scale(ra.0) } else {
                    for f in [&b, &a] { if let Some((v, _)) = self.single(f) { let q = self.bx[v as usize]; if q.1 - q.0 <= 65536. && f.elo == 0. && f.ehi == 0. { return Err(Stop::Split(v, ((q.0 + q.1) / 2.).floor())); } } }
                    let c = [ra.0 * rb.0, ra.0 * rb.1, ra.1 * rb.0, ra.1 * rb.1]; Form::top(c.iter().cloned().fold(INF, f64::min), c.iter().cloned().fold(-INF, f64::max))
                }
            }
            Op::ZExt => { let a = self.ev(n.a)?; let wa = self.st.w(n.a); if wa == 1 { if let Some(c) = self.cond(n.a)? { return Ok(Form::k(c as u8 as f64)); } return Ok(Form::top(0., 1.)); } self.us(a, wa)? }
            Op::SExt => { let wa = self.st.w(n.a); if wa == 1 { if let Some(c) = self.cond(n.a)? { return Ok(Form::k(-(c as i8 as f64))); } return Ok(Form::top(-1., 0.)); } let a = self.ev(n.a)?; self.ss(a, wa)? }
            Op::Extract => { let a = self.ev(n.a)?; if n.k == 0 { a } else { self.floordiv(a, p2(n.k as u8)) } }
            Op::Concat => { let wl = self.st.w(n.b); let h = self.ev(n.a)?; let l = self.ev(n.b)?; let l = self.us(l, wl)?; self.add(h.scale(p2(wl)), l, 1.)? }
            Op::LShr | Op::AShr | Op::Shl => { let s = self.ev(n.b)?; let r = self.range(&s); if r.0 != r.1 { return Ok(Form::top(0., m)); } let a = self.ev(n.a)?; if n.op == Op::Shl { a.scale(2f64.powi(r.0 as i32)) } else { let a = if n.op == Op::AShr { self.ss(a, w)? } else { self.us(a, w)? }; self.floordiv(a, 2f64.powi(r.0 as i32)) } }
            Op::UDiv => { let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); let a = self.us(a, w)?; let b = self.us(b, w)?; let r = self.range(&b); if r.0 == r.1 && r.0 > 0. { self.floordiv(a, r.0) } else { Form::top(0., m) } }
            Op::URem => { let b = self.ev(n.b)?; let r = self.range(&b); Form::top(0., if r.1 > 0. { r.1 - 1. } else { m }) }
            Op::SDiv => { let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); let a = self.ss(a, w)?; let b = self.ss(b, w)?; let r = self.range(&b); let ra = self.range(&a); if r.0 == r.1 && r.0 > 0. { if ra.0 >= 0. { self.floordiv(a, r.0) } else { let mut g = a.scale(1. / r.0); g.elo -= 1.; g.ehi += 1.; g.rlo -= 1.; g.rhi += 1.; g.int = true; g.clo = g.clo.floor(); g.chi = g.chi.ceil(); g } } else { Form::top(-m / 2., m / 2.) } }
            Op::SRem => Form::top(-m / 2., m / 2.),
            Op::UMulOv | Op::UAddOv => Form::top(0., m),
            Op::And => {
                for (x, y) in [(n.a, n.b), (n.b, n.a)] { let nx = *self.st.node(x); if nx.op == Op::SExt && self.st.w(nx.a) == 1 { match self.cond(nx.a)? { Some(true) => return self.ev(y), Some(false) => return Ok(Form::k(0.)), None => {} } } }
                if w == 1 { if let Some(c) = self.cond(t)? { return Ok(Form::k(c as u8 as f64)); } }
                let a = self.ev(n.a)?; let b = self.ev(n.b)?; let a = self.us(a, w)?; let b = self.us(b, w)?; let (ra, rb) = (self.range(&a), self.range(&b));
                if ra.0 == ra.1 && rb.0 == rb.1 { return Ok(Form::k((ra.0 as u64 & rb.0 as u64) as f64)); }
                Form::top(0., ra.1.min(rb.1))
            }
            Op::Or => {
                if w == 1 { if let Some(c) = self.cond(t)? { return Ok(Form::k(c as u8 as f64)); } }
                let a = self.ev(n.a)?; let b = self.ev(n.b)?; let a = self.us(a, w)?; let b = self.us(b, w)?; let (ra, rb) = (self.range(&a), self.range(&b));
                if ra.1 == 0. { return Ok(b); } if rb.1 == 0. { return Ok(a); }
                if rb.1 < p2(self.tz(n.a)) || ra.1 < p2(self.tz(n.b)) { return self.add(a, b, 1.); }
                if ra.0 == ra.1 && rb.0 == rb.1 { return Ok(Form::k((ra.0 as u64 | rb.0 as u64) as f64)); }
                Form::top(ra.0.max(rb.0), m)
            }
            Op::Xor => {
                if w == 1 { if let Some(c) = self.cond(t)? { return Ok(Form::k(c as u8 as f64)); } }
                if let Some(k) = self.st.cv(n.b) { let a = self.ev(n.a)?; if k == 1u64 << (w - 1) { return Ok(a.shift(p2(w - 1))); } if k == mask(w) { return Ok(a.scale(-1.).shift(-1.)); } }
                Form::top(0., m)
            }
            Op::UMin | Op::UMax | Op::SMin | Op::SMax => {
                let s = matches!(n.op, Op::SMin | Op::SMax); let (a, b) = (self.ev(n.a)?, self.ev(n.b)?);
                let (a, b) = if s { (self.ss(a, w)?, self.ss(b, w)?) } else { (self.us(a, w)?, self.us(b, w)?) };
                self.minmax(a, b, matches!(n.op, Op::UMin | Op::SMin))?
            }
            Op::USubSat => { let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); let a = self.us(a, w)?; let b = self.us(b, w)?; let d = self.add(a, b, -1.)?; self.clamp(d, 0., m) }
            Op::UAddSat => { let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); let a = self.us(a, w)?; let b = self.us(b, w)?; let d = self.add(a, b, 1.)?; self.clamp(d, 0., m) }
            Op::SAddSat | Op::SSubSat => { let (a, b) = (self.ev(n.a)?, self.ev(n.b)?); let a = self.ss(a, w)?; let b = self.ss(b, w)?; let d = self.add(a, b, if n.op == Op::SAddSat { 1. } else { -1. })?; let h = p2(w - 1); self.clamp(d, -h, h - 1.) }
            Op::Eq | Op::Ult | Op::Slt | Op::FCmp => match self.cond(t)? { Some(c) => Form::k(c as u8 as f64), None => Form::top(0., 1.) },
            Op::Ite => {
                let nc = *self.st.node(n.a);
                if nc.op == Op::FCmp { let lt = matches!(nc.k & 7, 4 | 5); let gt = matches!(nc.k & 7, 2 | 3); if lt || gt { if nc.a == n.b && nc.b == n.c { let (a, b) = (self.evf(n.b)?, self.evf(n.c)?); return self.minmax(a, b, lt); } if nc.b == n.b && nc.a == n.c { let (a, b) = (self.evf(n.b)?, self.evf(n.c)?); return self.minmax(a, b, gt); } } }
                let fl = self.isf(t);
                match self.cond(n.a)? { Some(true) => return if fl { self.evf(n.b) } else { self.ev(n.b) }, Some(false) => return if fl { self.evf(n.c) } else { self.ev(n.c) }, None => {} }
                let (a, b) = if fl { (self.evf(n.b)?, self.evf(n.c)?) } else { (self.ev(n.b)?, self.ev(n.c)?) };
                let (a, b) = if fl { (a, b) } else { (self.us(a, w)?, self.us(b, w)?) };
                // clamp pattern: x < k ? k : x over the same affine part
                let (ra, rb) = (self.range(&a), self.range(&b));
                let mut f = Form::top(ra.0.min(rb.0), ra.1.max(rb.1)); f.int = a.int && b.int; f
            }
            Op::SiToFp | Op::UiToFp => { let wa = self.st.w(n.a); let a = self.ev(n.a)?; let a = if n.op == Op::SiToFp { self.ss(a, wa)? } else { self.us(a, wa)? }; self.round_f(a, w) }
            // conversions of values that may be infinite or NaN saturate
            Op::FpToSi => { let a = self.evf(n.a)?; let h = p2(w - 1); let a = self.clamp(a, -h, h - 1.); if a.int { a } else { let r = self.range(&a); let mut g = a; if r.1 > 0. { g.elo -= 1.; g.rlo -= 1. } if r.0 < 0. { g.ehi += 1.; g.rhi += 1. } g.clo = if g.clo > -INF { g.clo.trunc() } else { g.clo }; g.chi = if g.chi < INF { g.chi.trunc() } else { g.chi }; g.int = true; g } }
            Op::FpToUi => { let a = self.evf(n.a)?; let a = self.clamp(a, 0., m); if a.int { a } else { let mut g = a; g.elo -= 1.; g.rlo -= 1.; g.clo = if g.clo > -INF { g.clo.trunc() } else { g.clo }; g.chi = if g.chi < INF { g.chi.trunc() } else { g.chi }; g.int = true; self.clamp(g, 0., m) } }
            Op::FpExt => self.evf(n.a)?,
            Op::FpTrunc => { let a = self.evf(n.a)?; self.round_f(a, w) }
            Op::FRound | Op::FRoundEven | Op::FFloor | Op::FCeil | Op::FTruncI => { let mut a = self.evf(n.a)?; if !a.int { let (l, h) = match n.op { Op::FFloor => (-1., 0.), Op::FCeil => (0., 1.), Op::FTruncI => (-1., 1.), _ => (-0.5, 0.5) }; a.elo += l; a.ehi += h; a.rlo += l; a.rhi += h; a.int = true; if a.clo > -INF { a.clo = eval_round(n.op, a.clo) } if a.chi < INF { a.chi = eval_round(n.op, a.chi) } } a }
            Op::FNeg => self.evf(n.a)?.scale(-1.),
            Op::FAdd | Op::FSub => { let (a, b) = (self.evf(n.a)?, self.evf(n.b)?); let f = self.add(a, b, if n.op == Op::FAdd { 1. } else { -1. })?; self.round_f(f, w) }
            Op::FMul => { let (a, b) = (self.evf(n.a)?, self.evf(n.b)?); let (ra, rb) = (self.range(&a), self.range(&b)); let f = if b.cst() || rb.0 == rb.1 { a.scale(rb.0) } else if ra.0 == ra.1 { b.scale(ra.0) } else { for f in [&b, &a] { if let Some((v, _)) = self.single(f) { let q = self.bx[v as usize]; if q.1 - q.0 <= 65536. { return Err(Stop::Split(v, ((q.0 + q.1) / 2.).floor())); } } } Form::top(-1e30, 1e30) }; self.round_f(f, w) }
            Op::FDiv => { let (a, b) = (self.evf(n.a)?, self.evf(n.b)?); let rb = self.range(&b); if rb.0 == rb.1 && rb.0 != 0. { let f = a.scale(1. / rb.0); self.round_f(f, w) } else { let mut f = Form::top(-1e30, 1e30); f.int = false; f } }
            Op::FMa => { let (a, b, c) = (self.evf(n.a)?, self.evf(n.b)?, self.evf(n.c)?); let (ra, rb) = (self.range(&a), self.range(&b)); let f = if rb.0 == rb.1 { a.scale(rb.0) } else if ra.0 == ra.1 { b.scale(ra.0) } else { for f in [&b, &a] { if let Some((v, _)) = self.single(f) { let q = self.bx[v as usize]; if q.1 - q.0 <= 65536. { return Err(Stop::Split(v, ((q.0 + q.1) / 2.).floor())); } } } Form::top(-1e30, 1e30) }; let f = self.add(f, c, 1.)?; self.round_f(f, w) }
            Op::FMin | Op::FMax => { let (a, b) = (self.evf(n.a)?, self.evf(n.b)?); self.minmax(a, b, n.op == Op::FMin)? }
            Op::FAbs | Op::FSqrt | Op::FPow => { let mut f = Form::top(-1e30, 1e30); f.int = false; f }
            Op::Table => { let tb = self.st.tables[n.k as usize].clone(); let a = self.ev(n.a)?; let wa = self.st.w(n.a); let a = self.us(a, wa)?; let r = self.range(&a); let (i, j) = (r.0.max(0.) as usize, (r.1 as usize).min(tb.1.len() - 1)); if i > j { return Ok(Form::top(0., m)); } let (l, h) = tb.1[i..=j].iter().fold((u64::MAX, 0), |q, &x| (q.0.min(x), q.1.max(x))); let mut f = Form::top(l as f64, h as f64); if l == h { f = Form::k(l as f64) } f }
        })
    }
    fn minmax(&self, a: Form, b: Form, min: bool) -> FR<Form> {
        let (a, b) = if a.cst() { (b, a) } else { (a, b) };
        let (ra, rb) = (self.range(&a), self.range(&b));
        if min { if ra.1 <= rb.0 { return Ok(a); } if rb.1 <= ra.0 { return Ok(b); } } else { if ra.0 >= rb.1 { return Ok(a); } if rb.0 >= ra.1 { return Ok(b); } }
        if b.cst() { let k = b.c0; return Ok(if min { self.clamp(a, -INF, k) } else { self.clamp(a, k, INF) }); }
        // hull over a common affine part when there is one
        if a.co == b.co && a.clo == -INF && a.chi == INF && b.clo == -INF && b.chi == INF { let d = b.c0 - a.c0; let mut f = a.clone(); f.elo = a.elo.min(b.elo + d); f.ehi = a.ehi.max(b.ehi + d); f.rlo = -INF; f.rhi = INF; f.int = a.int && b.int; return Ok(f); }
        let mut f = if min { Form::top(ra.0.min(rb.0), ra.1.min(rb.1)) } else { Form::top(ra.0.max(rb.0), ra.1.max(rb.1)) }; f.int = a.int && b.int; Ok(f)
    }

    fn exp_form(&self, l: &Lin, low: bool) -> Form {
        let mut f = Form::k(l.c0); f.int = false;
        for &(v, c) in &l.co { let i = self.vidx[&v]; let b = self.bx[i as usize];
            if low { if let Some((fv, by, cf)) = l.floor { if fv == v { // luma part replaced by black
                f.c0 += cf * by; continue; } } }
            if b.0 == b.1 { f.c0 += c * b.0 } else { f.co.push((i, c)) } }
        f.co.sort_by_key(|x| x.0);
        f.clo = l.lo; f.chi = l.hi;
        if let Some((a, m)) = l.mul { let i = self.vidx[&a]; let b = self.bx[i as usize]; let s = (b.0 + b.1) / 2. / m; f = f.scale(s); f.rlo = -INF; f.rhi = INF; if b.0 != b.1 { let d = (b.1 - b.0) / 2. / m * l.hi; f.elo -= d; f.ehi += d } if s == 0. { f.clo = -INF; f.chi = INF } }
        f
    }
    fn dist(&self, a: &Form, e: &Form) -> f64 {
        let mut d = Form::k(a.c0 - e.c0); let (mut i, mut j) = (0, 0);
        while i < a.co.len() || j < e.co.len() {
            if j >= e.co.len() || (i < a.co.len() && a.co[i].0 < e.co[j].0) { d.co.push(a.co[i]); i += 1 } else if i >= a.co.len() || e.co[j].0 < a.co[i].0 { d.co.push((e.co[j].0, -e.co[j].1)); j += 1 } else { d.co.push((a.co[i].0, a.co[i].1 - e.co[j].1)); i += 1; j += 1 } }
        d.elo = a.elo - e.ehi; d.ehi = a.ehi - e.elo; d.rlo = -INF; d.rhi = INF; d.int = false;
        let (ra, re) = (self.arange(a), self.arange(e));
        // where the target saturates on the same side everywhere only the limits matter
        let (lo, hi) = self.arange(&d);
        let mut pen = 0f64;
        let act = |c: f64, r: f64, low: bool| -> f64 { if low { (c - r).max(0.) } else { (r - c).max(0.) } };
        if a.clo != e.clo { let x = act(a.clo, ra.0, true).max(act(e.clo, re.0, true)); pen = pen.max(x.min((a.clo - e.clo).abs())) }
        if a.chi != e.chi { let x = act(a.chi, ra.1, false).max(act(e.chi, re.1, false)); pen = pen.max(x.min((a.chi - e.chi).abs())) }
        let full = lo.abs().max(hi.abs()) + pen;
        // alternative: plain interval distance of the clamped ranges
        let (qa, qe) = (self.range(a), { let (x, y) = re; (x.max(e.clo).min(e.chi), y.min(e.chi).max(e.clo)) });
        full.min((qa.1 - qe.0).abs().max((qe.1 - qa.0).abs()))
    }
    fn go(&mut self, t: T, l: &Lin, sgn: Option<u8>, scale: f64, budget: &mut u32, worst: &mut f64, tol: f64) -> Result<(), ()> {
        if *budget == 0 { return Err(()); } *budget -= 1;
        self.memo.clear();
        let mut stop = None; let mut bad = None;
        let w = self.st.w(t);
        let r = if sgn.is_none() { self.evf(t) } else { self.ev(t) }.and_then(|f| match sgn { Some(0) => self.us(f, w), Some(_) => self.ss(f, w), None => Ok(f) });
        match r {
            Err(Stop::Split(v, at)) => stop = Some((v, at)),
            Ok(f) => {
                let f = f.scale(scale);
                let e = self.exp_form(l, false); let mut d = self.dist(&f, &e);
                if let Some((fv, by, _)) = l.floor { let i = self.vidx[&fv]; let b = self.bx[i as usize];
                    if d > tol && b.0 < by && b.1 >= by { stop = Some((i, by - 1.)) } else if b.1 <= by { let e2 = self.exp_form(l, true); d = d.min(self.dist(&f, &e2)) } }
                if stop.is_none() {
                    if let Some((a, _)) = l.mul { let i = self.vidx[&a]; let b = self.bx[i as usize]; if d > tol && b.0 < b.1 { stop = Some((i, ((b.0 + b.1) / 2.).floor())) } }
                    if stop.is_none() { if d > tol && std::env::var("VDBG").is_ok() { eprintln!("leaf f={:?}\n e={:?} box={:?} d={}\n t={}", f, e, self.bx, d, show(self.st, t, 40)) } bad = Some(d); }
                }
            }
        }
        if let Some(d) = bad { let d = if d.is_nan() { INF } else { d }; *worst = worst.max(d); return Ok(()); }
        let (v, at) = stop.unwrap(); let b = self.bx[v as usize];
        if !(at >= b.0 && at < b.1) { return Err(()); }
        self.bx[v as usize] = (b.0, at); let r = self.go(t, l, sgn, scale, budget, worst, tol); self.bx[v as usize] = b; r?;
        self.bx[v as usize] = (at + 1., b.1); let r = self.go(t, l, sgn, scale, budget, worst, tol); self.bx[v as usize] = b; r
    }
    pub fn range_of(&mut self, t: T) -> (f64, f64) { let w = self.st.w(t); self.memo.clear(); match self.ev(t).and_then(|f| self.us(f, w)) { Ok(f) => self.range(&f), Err(_) => (0., mask(w) as f64) } }
}
fn eval_round(op: Op, v: f64) -> f64 { match op { Op::FFloor => v.floor(), Op::FCeil => v.ceil(), Op::FTruncI => v.trunc(), Op::FRoundEven => v.round_ties_even(), _ => v.round() } }

/// variables of a term in first-visit order; None if uninitialised data is reachable
pub fn vars_of(st: &Store, t: T) -> (Vec<T>, bool) {
    let mut seen: FxSet<T> = Default::default(); let mut o = vec![]; let mut un = false; let mut stack = vec![t];
    while let Some(x) = stack.pop() { if !seen.insert(x) { continue; } match st.node(x).op { Op::Var => o.push(x), Op::Undef => un = true, _ => { let (k, n) = st.kids(x); for i in (0..n).rev() { stack.push(k[i]) } } } }
    (o, un)
}
/// straight-line program for concrete evaluation
pub struct Tape { ops: Vec<(Op, u8, u8, u8, u64, u32, u32, u32)>, pub vars: Vec<T>, tabs: Vec<std::rc::Rc<(u8, Vec<u64>)>>, vpos: Vec<usize> }
impl Tape {
    pub fn new(st: &Store, t: T, vars: &[T]) -> Tape { Tape::build(st, t, vars, false) }
    /// treats `vars` (arbitrary terms) as inputs
    pub fn new_cut(st: &Store, t: T, vars: &[T]) -> Tape { Tape::build(st, t, vars, true) }
    fn build(st: &Store, t: T, vars: &[T], cut: bool) -> Tape {
        let mut order = vec![]; let mut pos: FxMap<T, u32> = Default::default(); let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() { if pos.contains_key(&x) { continue; } if done { pos.insert(x, order.len() as u32); order.push(x); continue; } stack.push((x, true)); let (k, n) = st.kids(x); let n = if cut && vars.contains(&x) { 0 } else { n }; for i in 0..n { if !pos.contains_key(&k[i]) { stack.push((k[i], false)) } } }
        let mut ops = vec![]; let mut tabs = vec![]; let mut vpos = vec![usize::MAX; vars.len()];
        for (i, &x) in order.iter().enumerate() { let n = *st.node(x); let (k, c) = st.kids(x); let (n, c) = if cut && vars.contains(&x) { (Node { op: Op::Var, ..n }, 0) } else { (n, c) }; let g = |j: usize| if j < c { pos[&k[j]] } else { 0 }; let ww = |j: usize| if j < c { st.w(k[j]) } else { 0 };
            let mut kk = n.k; if n.op == Op::Table { kk = tabs.len() as u64; tabs.push(st.tables[n.k as usize].clone()) }
            if n.op == Op::Var { if let Some(p) = vars.iter().position(|&v| v == x) { vpos[p] = i } }
            ops.push((n.op, n.w, ww(0), ww(1), kk, g(0), g(1), g(2))); }
        Tape { ops, vars: vars.to_vec(), tabs, vpos }
    }
    pub fn run(&self, vals: &[u64], buf: &mut Vec<u64>) -> u64 {
        buf.resize(self.ops.len(), 0);
        for (p, &v) in self.vpos.iter().zip(vals) { if *p != usize::MAX { buf[*p] = v } }
        for i in 0..self.ops.len() { let o = &self.ops[i]; match o.0 { Op::Var => {} Op::Table => { let tb = &self.tabs[o.4 as usize]; let ix = buf[o.5 as usize] as usize; buf[i] = *tb.1.get(ix).unwrap_or(&0) } _ => { buf[i] = eval_op(o.0, o.1, o.2, o.3, o.4, buf[o.5 as usize], buf[o.6 as usize], buf[o.7 as usize]) } } }
        buf[self.ops.len() - 1]
    }
}

#[derive(Clone, Debug)]
pub enum Verdict { /// proved: |err| <= bound
    Ok { bound: f64, how: &'static str }, /// failing sample values
    Cex { vals: Vec<u64>, got: f64, want: (f64, f64) }, /// not proved, no failing input found
    Open { bound: f64, why: &'static str }, Undef }

pub fn view(st: &mut Store, t: T, v: View) -> (T, Option<u8>, f64, Option<T>) {
    // returns value term, interpretation (0 unsigned,1 signed,None float), scale, term that must be zero
    match v {
        View::Id => (t, Some(0), 1., None), View::Sx => (t, Some(1), 1., None),
        View::Msb(s) => { if s == 0 { (t, Some(0), 1., None) } else { let w = st.w(t); let x = st.extract(t, s, w - s); let z = st.extract(t, 0, s); (x, Some(0), 1., Some(z)) } }
        View::Be => { let a = st.extract(t, 0, 8); let b = st.extract(t, 8, 8); let x = st.concat(a, b); (x, Some(0), 1., None) }
        View::BeMsb(s) => { let a = st.extract(t, 0, 8); let b = st.extract(t, 8, 8); let x = st.concat(a, b); view(st, x, View::Msb(s)) }
        View::Field(lo, w, net) => { let x = if net { let p: Vec<T> = (0..4).map(|i| st.extract(t, 8 * i, 8)).collect(); let a = st.concat(p[0], p[1]); let b = st.concat(a, p[2]); st.concat(b, p[3]) } else { t }; let y = st.extract(x, lo, w); (y, Some(0), 1., None) }
        View::F16(m) => (t, None, m as f64, None),
    }
}
pub struct Rng(pub u64);
impl Rng { pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) } }

pub fn lin_at(l: &Lin, vars: &[T], vals: &[u64]) -> (f64, f64) {
    let at = |v: T| -> f64 { vars.iter().position(|&x| x == v).map(|i| vals[i] as f64).unwrap_or(0.) };
    let full = |low: bool| -> f64 { let mut s = l.c0; for &(v, c) in &l.co { let x = at(v); s += match l.floor { Some((fv, by, _)) if low && fv == v => c * x.max(by), _ => c * x } } let s = s.clamp(l.lo, l.hi); match l.mul { Some((a, m)) => s * at(a) / m, None => s } };
    let (a, b) = (full(false), full(true)); (a.min(b), a.max(b))
}
fn outval(st_w: u8, v: u64, sgn: Option<u8>, scale: f64) -> f64 { match sgn { Some(0) => v as f64, Some(_) => sx(v, st_w) as f64, None => f2d(v, st_w) * scale } }

/// product with an alpha sample: the unique alpha-free factor S is bounded against the unscaled
/// contract, and the scaling is checked for every value of S and alpha
fn product(st: &Store, val: T, a: T, m: f64, l: &Lin, sgn: Option<u8>, tol: f64, vs: &[T]) -> Option<f64> {
    let mut has: FxMap<T, bool> = Default::default();
    fn mark(st: &Store, t: T, a: T, h: &mut FxMap<T, bool>) -> bool { if let Some(&b) = h.get(&t) { return b; } let (k, n) = st.kids(t); let mut b = t == a; for i in 0..n { b |= mark(st, k[i], a, h) } h.insert(t, b); b }
    if !mark(st, val, a, &mut has) { return None; }
    let mut cut: Option<T> = None;
    for (&t, &b) in &has { if !b || t == a { continue; } let (k, n) = st.kids(t); for i in 0..n { if !has[&k[i]] && st.cv(k[i]).is_none() { let mut s = k[i]; while matches!(st.node(s).op, Op::ZExt) { s = st.node(s).a } if cut.is_some() && cut != Some(s) { return None; } cut = Some(s) } } }
    let s = cut?; let mut an = An::new(st, vs.to_vec()); let (lo, hi) = an.range_of(s); let hi = hi.min(st.umax(s) as f64); let wa = mask(st.w(a));
    if (hi - lo + 1.) * (wa as f64 + 1.) > 3e7 { return None; }
    let (mut b2, mut budget) = (0., 4000); let l2 = Lin { mul: None, ..l.clone() };
    if an.go(s, &l2, Some(0), 1., &mut budget, &mut b2, tol).is_err() || b2 > tol { return None; }
    let tape = Tape::new_cut(st, val, &[s, a]); let mut buf = vec![]; let mut b1 = 0f64; let w = st.w(val);
    for x in lo as u64..=hi as u64 { for y in 0..=wa { let o = outval(w, tape.run(&[x, y], &mut buf), sgn, 1.); b1 = b1.max((o - x as f64 * y as f64 / m).abs()); } }
    if b1 + b2 <= tol { Some(b1 + b2) } else { None }
}
/// decide one data obligation
pub fn decide(st: &mut Store, t: T, e: &Exp, tol: f64, seed: u64, effort: u32) -> Verdict {
    match e {
        Exp::Any => Verdict::Ok { bound: 0., how: "unconstrained" },
        Exp::Exact(x) => {
            if t == *x { return Verdict::Ok { bound: 0., how: "syntactic" }; }
            let (mut vs, un) = vars_of(st, t); if un { return Verdict::Undef; }
            let (v2, _) = vars_of(st, *x); for v in v2 { if !vs.contains(&v) { vs.push(v) } }
            let (ta, tb) = (Tape::new(st, t, &vs), Tape::new(st, *x, &vs));
            let bits: u32 = vs.iter().map(|&v| st.w(v) as u32).sum();
            let mut cx = None; let (mut b1, mut b2) = (vec![], vec![]);
            points(st, &vs, seed, 4000 * effort, |vals| { let (p, q) = (ta.run(vals, &mut b1), tb.run(vals, &mut b2)); if p != q { cx = Some(Verdict::Cex { vals: vals.to_vec(), got: p as f64, want: (q as f64, q as f64) }); false } else { true } });
            if let Some(c) = cx { return c; }
            if bits > 12 { match crate::bv::equal(st, t, *x, &vs, 2000 * effort) { crate::bv::Eq::Equal => return Verdict::Ok { bound: 0., how: "bit-vector SMT" }, crate::bv::Eq::Differ(vals) => { let (p, q) = (ta.run(&vals, &mut b1), tb.run(&vals, &mut b2)); if p != q { return Verdict::Cex { vals, got: p as f64, want: (q as f64, q as f64) } } } crate::bv::Eq::Unknown => {} } }
            if bits <= 22 { let mut vals = vec![0u64; vs.len()]; for i in 0..1u64 << bits { let mut k = i; for (j, &v) in vs.iter().enumerate() { let w = st.w(v); vals[j] = k & mask(w); k >>= w } let (p, q) = (ta.run(&vals, &mut b1), tb.run(&vals, &mut b2)); if p != q { return Verdict::Cex { vals, got: p as f64, want: (q as f64, q as f64) }; } } return Verdict::Ok { bound: 0., how: "exhaustive" }; }
            Verdict::Open { bound: 0., why: "terms differ" }
        }
        Exp::Lin(v, l) => {
            let (val, sgn, scale, z) = view(st, t, *v);
            if let Some(z) = z { let zz = st.k(st.w(z), 0); if z != zz { let r = decide(st, z, &Exp::Exact(zz), 0., seed, effort); if !matches!(r, Verdict::Ok { .. }) { return r; } } }
            let (mut vs, un) = vars_of(st, val); if un { return Verdict::Undef; }
            for &(v, _) in &l.co { if !vs.contains(&v) { vs.push(v) } } if let Some((a, _)) = l.mul { if !vs.contains(&a) { vs.push(a) } }
            if let Some((a, m)) = l.mul { if let Some(b) = product(st, val, a, m, l, sgn, tol, &vs) { return Verdict::Ok { bound: b, how: "affine+exhaustive" }; } }
            let mut worst = 0.; let mut budget = 4000;
            let r = { let mut an = An::new(st, vs.clone()); an.go(val, l, sgn, scale, &mut budget, &mut worst, tol) };
            if r.is_ok() && worst <= tol + 1e-9 { return Verdict::Ok { bound: worst, how: "affine" }; }
            let tape = Tape::new(st, val, &vs); let w = st.w(val); let mut buf = vec![]; let mut cx = None; let mut seen = 0f64;
            let bits: u32 = vs.iter().map(|&v| st.w(v) as u32).sum();
            let mut test = |vals: &[u64]| -> bool { let o = outval(w, tape.run(vals, &mut buf), sgn, scale); let (lo, hi) = lin_at(l, &vs, vals); let d = if o < lo { lo - o } else if o > hi { o - hi } else { 0. }; let d = if d.is_nan() { INF } else { d }; if d > seen { seen = d } if d > tol + 1e-9 { cx = Some(Verdict::Cex { vals: vals.to_vec(), got: o, want: (lo, hi) }); false } else { true } };
            if points(st, &vs, seed, 4000 * effort, &mut test) && bits <= 24 { let mut vals = vec![0u64; vs.len()]; let mut okk = true; for i in 0..1u64 << bits { let mut k = i; for (j, &v) in vs.iter().enumerate() { let w = st.w(v); vals[j] = k & mask(w); k >>= w } if !test(&vals) { okk = false; break; } } if okk { drop(test); return Verdict::Ok { bound: seen, how: "exhaustive" }; } }
            drop(test);
            if let Some(c) = cx { return c; }
            Verdict::Open { bound: if r.is_ok() { worst } else { INF }, why: if r.is_ok() { "error bound exceeds the tolerance" } else { "case splits exhausted" } }
        }
        Exp::Half { var, max } | Exp::UnHalf { var, max } => {
            let fwd = matches!(e, Exp::Half { .. });
            let (vs, un) = vars_of(st, t); if un { return Verdict::Undef; }
            let mut vs = vs; if !vs.contains(var) { vs.push(*var) }
            if vs.len() > 1 { // depends on other samples: find a witness
                let ta = Tape::new(st, t, &vs); let mut buf = vec![]; let mut cx = None; let w = st.w(t); let vi = vs.iter().position(|v| v == var).unwrap();
                points(st, &vs, seed, 4000, |vals| { let r = ta.run(vals, &mut buf); let (o, wnt, d) = half_err(fwd, r, w, vals[vi], *max); if d > tol + 1e-9 { cx = Some(Verdict::Cex { vals: vals.to_vec(), got: o, want: (wnt, wnt) }); false } else { true } });
                return cx.unwrap_or(Verdict::Open { bound: INF, why: "depends on several samples" });
            }
            let ta = Tape::new(st, t, &vs); let mut buf = vec![]; let mut worst = 0f64; let w = st.w(t);
            for i in 0..=mask(st.w(*var)) { let r = ta.run(&[i], &mut buf); let (o, wnt, d) = half_err(fwd, r, w, i, *max); if !(d <= tol + 1e-9) { return Verdict::Cex { vals: vec![i], got: o, want: (wnt, wnt) }; } worst = worst.max(d); }
            Verdict::Ok { bound: worst, how: "exhaustive" }
        }
        Exp::Choice(l) => {
            let mut worst = 0f64; let mut open = false;
            for q in l { match decide(st, t, q, if matches!(q, Exp::Exact(_)) { 0. } else { tol }, seed, effort) { Verdict::Ok { bound, how } => return Verdict::Ok { bound, how }, Verdict::Undef => return Verdict::Undef, Verdict::Open { bound, .. } => { open = true; worst = worst.max(bound) } Verdict::Cex { .. } => {} } }
            let vs = choice_vars(st, t, e); let tape = Tape::new(st, t, &vs); let mut buf = vec![]; let mut hit = None; let w = st.w(t); let mut pts = vec![];
            points(st, &vs, seed, 4000 * effort, |v| { pts.push((v.to_vec(), tape.run(v, &mut buf))); true });
            for (v, o) in pts { let mut env: FxMap<(u32, u64), u64> = Default::default(); for (&x, &y) in vs.iter().zip(&v) { let n = st.node(x); env.insert((n.a, n.k), y); }
                if let Err((g, lo, hi)) = crate::native::holds(st, e, o, w, tol, &|a, i, _| env.get(&(a, i)).copied().unwrap_or(0)) { hit = Some(Verdict::Cex { vals: v, got: g, want: (lo, hi) }); break; } }
            hit.unwrap_or(Verdict::Open { bound: if open { worst } else { INF }, why: "none of the admissible values shown" })
        }
        Exp::Light(l) => {
            let (mut vs, un) = vars_of(st, t); if un { return Verdict::Undef; }
            let foreign = vs.iter().any(|v| !l.deps().any(|d| d == *v)); for d in l.deps() { if !vs.contains(&d) { vs.push(d) } }
            let ta = Tape::new(st, t, &vs); let mut buf = vec![]; let mut cx = None; let w = st.w(t);
            let ix: FxMap<T, usize> = vs.iter().enumerate().map(|(i, &v)| (v, i)).collect();
            points(st, &vs, seed, 1000 * effort, |vals| { let o = (ta.run(vals, &mut buf) & mask(w)) as f64; let e = l.at(&|v| vals[ix[&v]]); if (o - e).abs() > tol + 1e-9 || o < l.lo || o > l.hi { cx = Some(Verdict::Cex { vals: vals.to_vec(), got: o, want: (e, e) }); false } else { true } });
            if let Some(c) = cx { return c; }
            if foreign { return Verdict::Open { bound: INF, why: "depends on a sample it must not use" }; }
            let r = An::new(st, vs.clone()).range_of(t); if r.0 < l.lo || r.1 > l.hi { return Verdict::Open { bound: INF, why: "range not proved" }; }
            match light(st, t, l, tol, seed, effort) { Some(b) if b <= tol + 1e-9 => Verdict::Ok { bound: b, how: "cut at look-up tables+affine" }, Some(b) => Verdict::Open { bound: b, why: "error bound exceeds the tolerance" }, None => Verdict::Open { bound: INF, why: "not a mean in linear light" } }
        }
    }
}
/// the outermost look-ups of a term
fn tables_of(st: &Store, t: T) -> Vec<T> { let mut seen: FxSet<T> = Default::default(); let mut o = vec![]; let mut stack = vec![t]; while let Some(x) = stack.pop() { if !seen.insert(x) { continue } if st.node(x).op == Op::Table { o.push(x); continue } let (k, n) = st.kids(x); for i in 0..n { stack.push(k[i]) } } o }
fn subst(st: &mut Store, t: T, m: &mut FxMap<T, T>) -> T {
    if let Some(&x) = m.get(&t) { return x } let (k, n) = st.kids(t); if n == 0 { return t }
    let nd = *st.node(t); let mut q = [nd.a, nd.b, nd.c]; for i in 0..n { q[i] = subst(st, k[i], m) } let r = st.rebuild(nd, q); m.insert(t, r); r
}
/// proves a mean in linear light by cutting at the look-ups: the inner tables hold the transfer to linear light, their
/// weighted sum is the index of the outer ones, which hold the transfer back, and the rest is affine.  The error bound.
fn light(st: &mut Store, t: T, l: &Light, tol: f64, seed: u64, effort: u32) -> Option<f64> {
    let outs = tables_of(st, t); let mut m: FxMap<T, T> = Default::default(); let mut co: Vec<(T, f64)> = vec![]; let mut err = 0.; let mut done = [false; 3];
    for (i, &o) in outs.iter().enumerate() {
        let nd = *st.node(o); let (vs, _) = vars_of(st, nd.a); let c = (0..3).find(|&c| vs.iter().all(|v| l.v[c].contains(v)))?; if done[c] { return None } done[c] = true;
        let ins = tables_of(st, nd.a); let mut lc = vec![]; let mut m2: FxMap<T, T> = Default::default(); let mut el: f64 = 0.; let mut span = 0f64;
        for (j, &q) in ins.iter().enumerate() { let qn = *st.node(q); let (qv, _) = vars_of(st, qn.a); if qv.len() != 1 { return None } let k = l.v[c].iter().position(|v| *v == qv[0])?; let wt = l.ws[k]; let tab = st.tables[qn.k as usize].clone(); let tp = Tape::new(st, qn.a, &qv); let mut buf = vec![];
            let mut e = 0f64; for x in 0..256u64 { let y = *tab.1.get(tp.run(&[x], &mut buf) as usize)? as f64 / 65535.; e = e.max((y - to_linear(l.gamma, x as f64 / 255.)).abs()) } el = el.max(e * 65535.); span += wt;
            let f = st.var(qn.w, 9000 + i as u32, j as u64); m2.insert(q, f); lc.push((f, wt)) }
        if (span - 1.).abs() > 1e-9 || ins.len() != l.ws.len() { return None }
        let ie = subst(st, nd.a, &mut m2); let bi = match decide(st, ie, &Exp::Lin(View::Id, Lin { c0: 0., co: lc, lo: 0., hi: 65535., mul: None, floor: None }), 64., seed, effort) { Verdict::Ok { bound, .. } => bound, _ => return None };
        let d = bi + el; let tab = st.tables[nd.k as usize].clone(); if tab.1.len() < 65536 { return None } let g = |x: f64| 255. * from_linear(l.gamma, x / 65535.);
        let de = tab.1[..65536].iter().enumerate().map(|(x, &y)| (y as f64 - g(x as f64 - d)).abs().max((y as f64 - g(x as f64 + d)).abs())).fold(0., f64::max);
        let f = st.var(nd.w, 9100 + i as u32, 0); m.insert(o, f); co.push((f, l.r[c])); err += l.r[c].abs() * de
    }
    // a channel without tables: a single pixel, whose transfer forth and back is the identity
    for c in 0..3 { if !done[c] && l.r[c] != 0. { if l.v[c].len() != 1 { return None } co.push((l.v[c][0], l.r[c])) } }
    let e = subst(st, t, &mut m); match decide(st, e, &Exp::Lin(View::Id, Lin { c0: l.c0, co, lo: l.lo, hi: l.hi, mul: None, floor: None }), tol, seed, effort) { Verdict::Ok { bound, .. } => Some(bound + err), _ => None }
}
pub fn half_err(fwd: bool, r: u64, w: u8, i: u64, max: f64) -> (f64, f64, f64) {
    if fwd { let o = half_to_f64(r as u16); let want = i as f64 / max; let ulp = 2f64.powi((want.max(2f64.powi(-14))).log2().floor() as i32 - 10); (o, want, (o - want).abs() / ulp) }
    else { let f = half_to_f64(i as u16); let o = (r & mask(w)) as f64; if f.is_nan() { return (o, 0., if o <= max { 0. } else { INF }); } let want = (f * max).clamp(0., max); (o, want, (o - want).abs()) }
}
/// corner, structured and random points; stops when f returns false. Returns true when never stopped.
fn points(st: &Store, vs: &[T], seed: u64, n: u32, mut f: impl FnMut(&[u64]) -> bool) -> bool {
    let mut r = Rng(seed | 1); let ms: Vec<u64> = vs.iter().map(|&v| mask(st.w(v))).collect(); let mut vals = vec![0u64; vs.len()];
    for k in 0..n {
        match k { 0 => {} 1 => vals.copy_from_slice(&ms), _ => { let style = r.next() % 4; for i in 0..vals.len() { let m = ms[i]; let x = r.next(); vals[i] = match style { 0 => if x >> 33 & 1 == 0 { 0 } else { m }, 1 => (x >> 20) & m, 2 => match (x >> 40) % 8 { 0 => 0, 1 => m, 2 => m / 2, 3 => m / 2 + 1, 4 => 1 & m, 5 => m.saturating_sub(1), 6 => (m + 1) / 16, _ => (x >> 8) & m }, _ => { let b = (m / 2).wrapping_add(((x >> 50) % 9).wrapping_sub(4)) & m; b } } } if style == 3 { let j = (r.next() >> 20) as usize % vals.len().max(1); if j < vals.len() { vals[j] = (r.next() >> 11) & ms[j] } } } }
        if !f(&vals) { return false; }
    }
    true
}

/// samples an obligation with several admissible values ranges over
pub fn choice_vars(st: &Store, t: T, e: &Exp) -> Vec<T> {
    let (mut vs, _) = vars_of(st, t); let mut add = |v: T| if !vs.contains(&v) { vs.push(v) };
    if let Exp::Choice(l) = e { for q in l { match q { Exp::Exact(x) => for v in vars_of(st, *x).0 { add(v) }, Exp::Lin(_, l) => for &(v, _) in &l.co { add(v) }, _ => {} } } }
    vs
}
/// canonical key of (term, expectation) up to renaming of samples
pub fn key(st: &Store, t: T, e: &Exp, tol: f64) -> Vec<u64> {
    let mut o: Vec<u64> = Vec::with_capacity(128); let mut id: FxMap<T, u64> = Default::default(); let mut next = 0u64; let mut vid: FxMap<T, u64> = Default::default();
    fn go(st: &Store, t: T, o: &mut Vec<u64>, id: &mut FxMap<T, u64>, next: &mut u64, vid: &mut FxMap<T, u64>) {
        if let Some(&i) = id.get(&t) { o.push(1 << 60 | i); return; }
        let n = st.node(t); id.insert(t, *next); *next += 1;
        match n.op { Op::Var => { let l = vid.len() as u64; let i = *vid.entry(t).or_insert(l); o.push(2 << 60 | (n.w as u64) << 32 | i) } Op::Const => { o.push(3 << 60 | n.w as u64); o.push(n.k) } _ => { o.push(4 << 60 | (n.op as u64) << 8 | n.w as u64); if n.op != Op::Table { o.push(n.k) } else { let tb = &st.tables[n.k as usize]; let mut h = 0u64; for &x in &tb.1 { h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(9) } o.push(h) } let (k, c) = st.kids(t); for i in 0..c { go(st, k[i], o, id, next, vid) } } }
    }
    go(st, t, &mut o, &mut id, &mut next, &mut vid);
    let vn = |v: T, vid: &mut FxMap<T, u64>| { let l = vid.len() as u64; *vid.entry(v).or_insert(l) << 8 | st.w(v) as u64 };
    o.push(!0); o.push(tol.to_bits());
    if let Exp::Choice(l) = e { o.push(7); for q in l { o.extend(key(st, t, q, tol)) } for v in choice_vars(st, t, e) { o.push(vn(v, &mut vid)) } return o; }
    match e {
        Exp::Choice(_) => {}
        Exp::Any => o.push(1), Exp::Exact(x) => { o.push(2); go(st, *x, &mut o, &mut id, &mut next, &mut vid) }
        Exp::Lin(v, l) => { o.push(3); use std::hash::{Hash, Hasher}; let mut h = Fx::default(); v.hash(&mut h); o.push(h.finish()); for f in [l.c0, l.lo, l.hi] { o.push(f.to_bits()) } let mut c: Vec<(u64, u64)> = l.co.iter().map(|&(v, c)| (vn(v, &mut vid), c.to_bits())).collect(); c.sort(); for x in c { o.push(x.0); o.push(x.1) } if let Some((a, m)) = l.mul { o.push(vn(a, &mut vid)); o.push(m.to_bits()) } if let Some((a, b, c)) = l.floor { o.push(vn(a, &mut vid)); o.push(b.to_bits()); o.push(c.to_bits()) } }
        Exp::Half { var, max } => { o.push(4); o.push(vn(*var, &mut vid)); o.push(max.to_bits()) }
        Exp::UnHalf { var, max } => { o.push(5); o.push(vn(*var, &mut vid)); o.push(max.to_bits()) }
        Exp::Light(l) => { o.push(6); o.push(l.gamma as u64); for f in [l.lo, l.hi, l.c0, l.r[0], l.r[1], l.r[2]].iter().chain(&l.ws) { o.push(f.to_bits()) } for v in l.deps() { o.push(vn(v, &mut vid)) } }
    }
    o
}
/// readable rendering for diagnostics
pub fn show(st: &Store, t: T, depth: u32) -> String {
    let n = st.node(t); let (k, c) = st.kids(t);
    match n.op { Op::Const => format!("{}", sx(n.k, n.w)), Op::Var => format!("v{}_{}:{}", n.a, n.k, n.w), _ => { if depth == 0 { return format!("#{}", t) } let mut s = format!("{:?}{}", n.op, n.w); if n.op == Op::Extract || n.op == Op::FCmp { s += &format!("@{}", n.k) } s += "("; for i in 0..c { if i > 0 { s += ", " } s += &show(st, k[i], depth - 1) } s + ")" } }
}
