//! One symbolic run of a public conversion on concrete dimensions, and the obligations it must meet.
use crate::decide::*;
use crate::exec::*;
use crate::ir::Ty;
use crate::spec::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

pub struct Isa { pub name: &'static str, pub bits: u64 }
const fn b(l: &[u32]) -> u64 { let mut r = 1u64 << 62; let mut i = 0; while i < l.len() { r |= 1 << l[i]; i += 1 } r }
pub const ISAS: [Isa; 6] = [
    Isa { name: "scalar", bits: b(&[]) }, Isa { name: "sse", bits: b(&[9, 10]) }, Isa { name: "avx2", bits: b(&[9, 10, 14, 15, 48, 49]) },
    Isa { name: "avxvnni", bits: b(&[9, 10, 14, 15, 48, 49, 40]) }, Isa { name: "avx512", bits: b(&[9, 10, 14, 15, 48, 49, 19, 20, 23, 24, 25]) },
    Isa { name: "avx512full", bits: b(&[9, 10, 14, 15, 48, 49, 40, 19, 20, 23, 24, 25, 27, 33]) }];

#[derive(Clone, Debug)]
pub struct Case { pub fun: usize, pub isa: usize, pub p: Params, pub w: usize, pub h: usize, pub pad: usize, /// buffer lengths, see `layout`
    pub lay: u32 }

#[derive(Clone, Debug)]
pub struct Fail { pub obl: String, pub kind: &'static str, pub detail: String, /// sample assignment (plane, element index, value)
    pub cex: Option<Vec<(u32, u64, u64)>>, pub plane: usize, pub idx: usize, pub x: usize, pub y: usize }
#[derive(Default, Debug)]
pub struct Res { pub unsupported: Option<String>, pub fails: Vec<Fail>, pub obls: u64, pub bounds: BTreeMap<String, f64>, pub how: BTreeMap<&'static str, u64>, pub steps: u64, pub open: Vec<Fail>, /// the kind of strides an induction over sizes covers
    pub gap: u32 }

pub type Cache = Mutex<HashMap<u128, (Verdict, u32)>>;
pub fn h128(k: &[u64]) -> u128 { let (mut a, mut b) = (0x9E3779B97F4A7C15u64, 0xC2B2AE3D27D4EB4Fu64); for &x in k { a = (a ^ x).wrapping_mul(0xFF51AFD7ED558CCD).rotate_left(31); a ^= a >> 29; b = (b.rotate_left(27) ^ x).wrapping_mul(0xD6E8FEB86659FD93); b ^= b >> 32; } (a as u128) << 64 | b as u128 }

fn push_t(st: &Store, c: &mut Vec<Cell>, t: T, eb: usize) { let _ = st; for i in 0..eb { c.push(c_term(t, i as u8)) } }

/// memory cells of a plane before the call
pub fn plane_cells(st: &mut Store, f: &Fun, p: &Params, pl: &Plane, i: usize) -> Vec<Cell> {
    let mut c = Vec::with_capacity(pl.len * pl.eb);
    let wb = pl.eb as u8 * 8;
    for i1 in 0..pl.len { let (y, x) = (i1 / pl.stride, i1 % pl.stride); {
        let idx = i1 as u64;
        if pl.write { let t = st.var(wb, 100 + i as u32, idx); push_t(st, &mut c, t, pl.eb); continue; }
        if x >= pl.row || y >= pl.rows { let t = st.var(wb, 0x100 | i as u32, idx); push_t(st, &mut c, t, pl.eb); continue; }
        if pl.enc == Enc::Word {
            let Fam::Unpack30 { src: Pix::W30 { sh, ash }, .. } = f.fam else { unreachable!() };
            let mut fs = vec![(sh[0], 10u8), (sh[1], 10), (sh[2], 10), (ash, 2)]; fs.sort(); fs.reverse();
            let mut t: Option<T> = None;
            for (s, w) in fs { let v = st.var(w, i as u32 | (s as u32 + 1) << 16, idx); t = Some(match t { None => v, Some(h) => st.concat(h, v) }) }
            let t = t.unwrap();
            if p.order != 0 { for k in (0..4).rev() { c.push(c_term(t, k)) } } else { push_t(st, &mut c, t, 4) }
            continue;
        }
        let tied = if p.neutral != 0 { crate::p16::tie(f, pl, x) } else { None };
        let v = match tied { None => st.var(pl.depth, i as u32, idx), Some(None) => st.k(pl.depth, 1 << (pl.depth - 1)), Some(Some(o)) => st.var(pl.depth, i as u32, (y * pl.stride + o) as u64) }; let t = raw(st, v, pl.enc, pl.eb); push_t(st, &mut c, t, pl.eb);
    } }
    c
}

pub fn class(f: &Fun, pl: &Plane, x: usize) -> &'static str {
    match pl.field.as_str() { "y" => "y", "u" | "v" | "uv" => "uv", "a" => "a", "yuy" => "pk",
        _ => { let a = match &f.fam { Fam::Shuffle { dst, .. } | Fam::Decode { dst, .. } | Fam::Unpack30 { dst, .. } => match dst { Pix::Rgb { a: Some(a), ch, .. } => x % ch == *a, _ => false }, _ => false }; if a { "alpha" } else { "col" } } }
}

pub struct Setup { pub aobj: u32, pub objs: Vec<u32>, pub pl: Vec<Plane> }
pub fn a_bytes(f: &Fun, c: &Case, pl: &[Plane]) -> (Vec<(usize, usize)>, [(usize, usize); 2], [u32; 10]) {
    let mut d = [(0usize, 0usize); 2];
    for k in 0..2 { d[k] = (c.w, c.h); }
    let _ = f; let p = &c.p;
    let pr = pl.iter().map(|q| (q.len * q.unit, q.stride * q.unit)).collect();
    (pr, d, [p.range, p.matrix, p.mode, p.order, p.flag, p.gamma, p.depth, p.geo, p.kr.to_bits(), p.kb.to_bits()])
}
pub fn setup(ex: &mut Ex, f: &Fun, c: &Case) -> Result<Setup, String> {
    let gap = c.lay >= 5; let padk = if c.lay >= 6 { 192 } else { 1 }; let mut pl = layout(f, &c.p, c.w, c.h, c.pad, if gap { 0 } else { c.lay }); if c.lay == 7 { for q in pl.iter_mut() { q.stride = q.row + 8 * (q.row / c.w).max(1); q.len = q.stride * q.rows } }
    let zs = if gap { let z = crate::gap::zones(f, &c.p, c.w, c.h, &pl, padk, c.lay == 7).ok_or("@aff no cuts")?; let k = crate::gap::cut_of(c.w, c.h); ex.gap = Some(crate::gap::Gap { cut: (k.gx[0] as i64, k.gx[1] as i64, k.p as i64), padk, h: c.h as i64, ..Default::default() }); Some(z) } else { None };
    let mut objs = vec![];
    for (i, q) in pl.iter().enumerate() { let cells = plane_cells(&mut ex.st, f, &c.p, q, i); let id = ex.alloc(cells, if q.write { K_PLANE } else { K_ROPLANE }, i as u32); if let Some(z) = &zs { ex.mem[id as usize].as_mut().unwrap().zone = Some(std::rc::Rc::new(z[i].clone())); } objs.push(id) }
    let (pr, mut d, ws) = a_bytes(f, c, &pl);
    for (i, q) in pl.iter().enumerate() { let _ = (i, q); }
    if let Fam::Rotate { .. } = f.fam { d[0] = (c.w, c.h); }
    let mut cells = vec![];
    for i in 0..6 { if i < pl.len() { ex.to_cells(&Ty::Ptr, &V::P(objs[i], 0), &mut cells)?;
        if let Some(z) = &zs { let ub = (pl[i].eb / pl[i].unit) as i64; let st = z[i].stride(); let mut rows = crate::gap::Aff::k(pl[i].rows as i64); if z[i].qb != 0 { for r in z[i].rs { rows = rows.add(&crate::gap::Aff::sym(r, z[i].qb)) } }
            for v in [rows.mul(&st).unwrap().div(ub).unwrap(), st.div(ub).unwrap()] { ex.to_cells(&Ty::Int(64), &crate::gap::mka(64, v), &mut cells)? } continue; }
        for v in [pr[i].0 as u64, pr[i].1 as u64] { for k in 0..8 { cells.push(c_byte((v >> (8 * k)) as u8)) } } } else { for _ in 0..24 { cells.push(c_byte(0)) } } }
    if gap { let k = crate::gap::cut_of(c.w, c.h); let (g, q) = (k.p as i64, k.q as i64); use crate::gap::*; for (w, h) in d { for v in [Aff { c: w as i64, m: vec![(J1, g), (J2, g)] }, Aff { c: h as i64, m: vec![(K1, q), (K2, q)] }] { ex.to_cells(&Ty::Int(64), &mka(64, v), &mut cells)? } } }
    else { for (w, h) in d { for v in [w as u64, h as u64] { for k in 0..8 { cells.push(c_byte((v >> (8 * k)) as u8)) } } }
    } for v in ws { for k in 0..4 { cells.push(c_byte((v >> (8 * k)) as u8)) } }
    let aobj = ex.alloc(cells, K_STACK, 999);
    Ok(Setup { aobj, objs, pl })
}

pub struct Tol<'t> { pub f: &'t (dyn Fn(&Fun, &Case, &str) -> f64 + Sync), /// which obligations (by class of element, or "frame") are asked for
    pub want: &'t (dyn Fn(&Fun, &Case, &str) -> bool + Sync) }

/// the runs to try for an induction over sizes, until one goes through: any strides; strides of one residue class; the same,
/// in ascending order; and all of these with steps of twice the columns
pub fn attempts(c: &Case) -> Vec<Case> {
    if c.lay != 5 { return vec![c.clone()]; }
    let wide = 6 * crate::gap::GP + c.w % (2 * crate::gap::GP);
    [(5, c.pad, c.w), (6, c.pad, c.w), (7, 0, c.w), (5, c.pad, wide), (6, c.pad, wide), (7, 0, wide)].into_iter().map(|(lay, pad, w)| Case { lay, pad, w, ..c.clone() }).collect()
}
pub fn run_case(ex: &mut Ex, f: &Fun, c: &Case, cache: &Cache, tol: &Tol, effort: u32) -> Res { trying(c, |c| run_case1(ex, f, c, cache, tol, effort)) }
pub fn trying(c: &Case, mut go: impl FnMut(&Case) -> Res) -> Res {
    let mut r = Res::default();
    for a in attempts(c) { r = go(&a); r.gap = a.lay; if r.unsupported.is_none() || r.unsupported.as_deref() == Some("@aff no cuts") { break } }
    r
}
fn run_case1(ex: &mut Ex, f: &Fun, c: &Case, cache: &Cache, tol: &Tol, effort: u32) -> Res {
    let mut r = Res::default();
    if ex.st.n.len() > 1_500_000 { ex.reset_store(); } else { ex.reset(); }
    ex.set_detect(ISAS[c.isa].bits);
    let Some(fu) = ex.prog.func(0, &format!("k_{}", f.name)) else { r.unsupported = Some("wrapper missing".into()); return r };
    let s = match setup(ex, f, c) { Ok(s) => s, Err(e) => { r.unsupported = Some(e); return r } };
    let out = ex.call(&fu, vec![V::P(s.aobj, 0)]); if crate::gap::gapt() { if let Err(e) = &out { eprintln!("GAP {} {} {} {}", f.name, ISAS[c.isa].name, c.lay, e); } else { eprintln!("GAP {} {} {} fine {} jumps", f.name, ISAS[c.isa].name, c.lay, ex.gap.as_ref().map_or(0, |g| g.jumps)); } }
    r.steps = ex.steps;
    let mkobl = |k: &str| format!("{}/{}/{}", f.name, ISAS[c.isa].name, k);
    for v in std::mem::take(&mut ex.viol) {
        // a violation under a symbolic condition needs that condition to be satisfiable
        let mut vs: Vec<T> = vec![]; for &t in &v.pc { for x in vars_of(&ex.st, t).0 { if !vs.contains(&x) { vs.push(x) } } }
        if v.pc.is_empty() { r.fails.push(Fail { obl: mkobl(v.kind), kind: v.kind, detail: v.msg.clone(), cex: Some(vec![]), plane: 0, idx: 0, x: 0, y: 0 }); continue; }
        let mut conj = v.pc[0]; for &t in &v.pc[1..] { conj = ex.st.bin(Op::And, conj, t) }
        let k1 = ex.st.k(1, 0);
        match decide(&mut ex.st, conj, &Exp::Exact(k1), 0., 7, effort) {
            Verdict::Cex { .. } => { let (vs, _) = vars_of(&ex.st, conj); r.fails.push(Fail { obl: mkobl(v.kind), kind: v.kind, detail: v.msg.clone(), cex: Some(vs.iter().map(|&v| { let q = ex.st.node(v); (q.a, q.k, 0) }).collect()), plane: 0, idx: 0, x: 0, y: 0 }) }
            Verdict::Ok { .. } => {}
            _ => r.fails.push(Fail { obl: mkobl(v.kind), kind: v.kind, detail: v.msg.clone(), cex: None, plane: 0, idx: 0, x: 0, y: 0 }),
        }
    }
    match out { Err(e) => { r.unsupported = Some(e); return r }
        Ok(Out::Div) => { if r.fails.is_empty() { r.fails.push(Fail { obl: mkobl("panic"), kind: "panic", detail: "the call does not return (panic)".into(), cex: Some(vec![]), plane: 0, idx: 0, x: 0, y: 0 }); } return r }
        Ok(Out::Ret(V::K(_, 0))) => {}
        Ok(Out::Ret(V::K(_, k))) => { r.fails.push(Fail { obl: mkobl("accepted"), kind: "accepted", detail: format!("a well-formed image is rejected (code {})", k), cex: Some(vec![]), plane: 0, idx: 0, x: 0, y: 0 }); return r }
        Ok(Out::Ret(v)) => { r.unsupported = Some(format!("return value {:?}", v)); return r } }
    r.obls += 2;
    for (pi, pl) in s.pl.iter().enumerate() { if !pl.write { continue; }
        let cells = ex.obj(s.objs[pi]).unwrap().cells.clone();
        for i1 in 0..pl.len { let (y, x) = (i1 / pl.stride, i1 % pl.stride); {
            let o = i1 * pl.eb; let idx = i1 as u64;
            let t = ex.from_cells(&cells[o..o + pl.eb], pl.eb as u8 * 8);
            if x >= pl.row || y >= pl.rows { if !(tol.want)(f, c, "frame") { continue; } r.obls += 1; let iv = ex.st.var(pl.eb as u8 * 8, 100 + pi as u32, idx);
                if t != iv { r.fails.push(Fail { obl: mkobl(&format!("{}.frame", pl.field)), kind: "frame", detail: format!("padding element ({},{}) of {} is modified", x, y, pl.field), cex: Some(vec![]), plane: pi, idx: idx as usize, x, y }) } continue; }
            if (tol.want)(f, c, "unwritten") { r.obls += 1; let iv = ex.st.var(pl.eb as u8 * 8, 100 + pi as u32, idx); if t == iv { r.fails.push(Fail { obl: mkobl(&format!("{}.unwritten", pl.field)), kind: "unwritten", detail: format!("pixel element ({},{}) of {} is never written", x, y, pl.field), cex: Some(vec![]), plane: pi, idx: idx as usize, x, y }); if r.fails.len() > 40 { return r } continue; } }
            let cl = class(f, pl, x); if !(tol.want)(f, c, cl) { continue; }
            let exps = Ctx { f, p: &c.p, w: c.w, h: c.h, pl: &s.pl, st: &mut ex.st }.expect(pi, x, y);
            let tl = (tol.f)(f, c, cl);
            for e in &exps {
                r.obls += 1;
                if let Exp::Exact(q) = e { if *q == t { *r.how.entry("syntactic").or_default() += 1; continue; } }
                let tl = if matches!(e, Exp::Exact(_)) { 0. } else { tl };
                let k = h128(&key(&ex.st, t, e, tl));
                let hit = cache.lock().unwrap().get(&k).cloned();
                let v = match hit { Some((v, _)) if !matches!(v, Verdict::Cex { .. }) => v, _ => { let v = decide(&mut ex.st, t, e, tl, 0x5eed ^ idx, effort); cache.lock().unwrap().insert(k, (v.clone(), 0)); v } };
                match v {
                    Verdict::Ok { bound, how } => { *r.how.entry(how).or_default() += 1; let b = r.bounds.entry(cl.to_string()).or_default(); if bound > *b { *b = bound } }
                    Verdict::Cex { vals, got, want } => {
                        let tm = match e { Exp::Exact(_) => t, Exp::Lin(v, _) => view(&mut ex.st, t, *v).0, _ => t };
                        let (mut vs, _) = vars_of(&ex.st, tm);
                        match e { Exp::Exact(q) => for v in vars_of(&ex.st, *q).0 { if !vs.contains(&v) { vs.push(v) } }, Exp::Lin(_, l) => { for &(v, _) in &l.co { if !vs.contains(&v) { vs.push(v) } } if let Some((a, _)) = l.mul { if !vs.contains(&a) { vs.push(a) } } } Exp::Half { var, .. } | Exp::UnHalf { var, .. } => if !vs.contains(var) { vs.push(*var) }, Exp::Light(l) => for v in l.deps() { if !vs.contains(&v) { vs.push(v) } }, _ => {} }
                        if let Exp::Choice(_) = e { vs = choice_vars(&ex.st, t, e) }
                        let cex = vs.iter().zip(&vals).map(|(&v, &x)| { let q = ex.st.node(v); (q.a, q.k, x) }).collect();
                        r.fails.push(Fail { obl: mkobl(&format!("{}.{}", pl.field, cl)), kind: "value", detail: format!("{} element ({},{}): computed {} where the contract requires {}..{} (tolerance {})", pl.field, x, y, got, want.0, want.1, tl), cex: Some(cex), plane: pi, idx: idx as usize, x, y });
                    }
                    Verdict::Open { bound, why } => { r.open.push(Fail { obl: mkobl(&format!("{}.{}", pl.field, cl)), kind: "open", detail: format!("{} element ({},{}): error bound {} not shown to be within tolerance {} ({})", pl.field, x, y, bound, tl, why), cex: None, plane: pi, idx: idx as usize, x, y }); }
                    Verdict::Undef => r.fails.push(Fail { obl: mkobl(&format!("{}.init", pl.field)), kind: "uninit", detail: format!("{} element ({},{}) depends on uninitialised memory", pl.field, x, y), cex: None, plane: pi, idx: idx as usize, x, y }),
                }
                if r.fails.len() > 40 { return r; }
            }
        } }
    }
    r
}
