//! P16: neutral chroma decodes to equal red, green and blue; grey encodes to neutral chroma.  Exact
//! obligations between the outputs of one call whose chroma samples (or colour channels) are tied together;
//! the coefficients themselves are bounded by the tight tolerances of tools/coefficients.txt.
use crate::decide::*;
use crate::exec::*;
use crate::native::*;
use crate::run::*;
use crate::spec::*;
use crate::term::*;

pub fn applies(f: &Fun) -> bool { matches!(&f.fam, Fam::Decode { model: Model::Ycc, .. } | Fam::Encode { model: Model::Ycc, .. }) && f.has("matrix") }
pub fn has_chroma(f: &Fun) -> bool { match &f.fam { Fam::Decode { yc, .. } | Fam::Encode { yc, .. } => !matches!(yc, Yc::Gray), _ => false } }
/// the matrices: the standards, and custom luma weights
pub const CUSTOM: [(f32, f32); 3] = [(0.25, 0.09), (0.2126, 0.0722), (0.31, 0.12)];
pub fn params(f: &Fun, neutral: bool) -> Vec<Params> {
    let mut o = vec![];
    for p in crate::params(f, 2) { if p.matrix == 6 { for (kr, kb) in CUSTOM { o.push(Params { kr, kb, neutral: neutral as u32, ..p.clone() }) } } else { o.push(Params { neutral: neutral as u32, ..p }) } }
    o
}
pub fn key(f: &Fun, c: &Case, cl: &str) -> String { format!("{} m{} f{} r{} d{} x{} {}", f.group(), c.p.mode, c.p.flag, c.p.range, if f.has("depth") { c.p.depth } else { 0 }, if c.p.matrix == 6 { format!("{}:{}", c.p.kr, c.p.kb) } else { c.p.matrix.to_string() }, cl) }
pub fn load(path: &str) -> std::collections::HashMap<String, [f64; 6]> {
    std::fs::read_to_string(path).unwrap_or_default().lines().filter_map(|l| { let w: Vec<&str> = l.split(' ').collect(); if w.len() < 7 { return None } let (k, v) = w.split_at(w.len() - 6); let mut a = [0f64; 6]; for i in 0..6 { a[i] = v[i].parse().ok()? } Some((k.join(" "), a)) }).collect()
}
/// how a source sample is tied: Some(None) constant neutral chroma, Some(Some(x)) equal to the element x of its row
pub fn tie(f: &Fun, pl: &Plane, x: usize) -> Option<Option<usize>> {
    match &f.fam {
        Fam::Decode { yc, .. } => match (yc, pl.field.as_str()) { (_, "u" | "v" | "uv") => Some(None), (Yc::Packed(o), "yuy") => if x % 4 == o[1] as usize || x % 4 == o[3] as usize { Some(None) } else { None }, (Yc::Packed444(o), "yuy") => if x % 4 == o[1] as usize || x % 4 == o[2] as usize { Some(None) } else { None }, _ => None },
        Fam::Encode { src: Pix::Rgb { off, ch, .. }, .. } => if off.contains(&(x % ch)) { Some(Some(x / ch * ch + off[0])) } else { None },
        _ => None }
}
/// the obligations on element x of a row: (other element it must equal) or the neutral value
fn duty(f: &Fun, pl: &Plane, x: usize) -> Option<Option<usize>> {
    match &f.fam {
        Fam::Decode { dst: Pix::Rgb { off, ch, .. }, .. } => if x % ch == off[0] || x % ch == off[2] { Some(Some(x / ch * ch + off[1])) } else { None },
        Fam::Encode { yc, .. } => match (yc, pl.field.as_str()) { (_, "u" | "v" | "uv") => Some(None), (Yc::Packed(o), "yuy") => if x % 4 == o[1] as usize || x % 4 == o[3] as usize { Some(None) } else { None }, (Yc::Packed444(o), "yuy") => if x % 4 == o[1] as usize || x % 4 == o[2] as usize { Some(None) } else { None }, _ => None },
        _ => None }
}
/// 2:10:10:10 words: the three colour fields must agree
fn fields(f: &Fun, p: &Params) -> Option<([u8; 3], bool)> { if let Fam::Decode { dst: Pix::W30 { sh, .. }, .. } = &f.fam { Some((*sh, p.order != 0)) } else { None } }
/// the sample a stored element encodes
fn plain(st: &mut Store, t: T, q: &Plane) -> T { let w = q.eb as u8 * 8; match q.enc { Enc::Msb => st.extract(t, w - q.depth, q.depth), Enc::Be => { let t = bswap(st, t, 2); st.extract(t, 0, q.depth) } _ => st.extract(t, 0, q.depth) } }
fn bswap(st: &mut Store, t: T, eb: usize) -> T { let mut r: Option<T> = None; for k in 0..eb { let b = st.extract(t, 8 * k as u8, 8); r = Some(match r { None => b, Some(q) => st.concat(q, b) }) } r.unwrap() }
pub fn neutral(ex: &mut Ex, f: &Fun, c: &Case, tol: &dyn Fn(&Fun, &Case, &str) -> f64, effort: u32) -> Res {
    let mut r = Res::default(); if ex.st.n.len() > 1_500_000 { ex.reset_store() } else { ex.reset() }
    ex.set_detect(ISAS[c.isa].bits); let tl = tol(f, c, "neutral");
    let Some(fu) = ex.prog.func(0, &format!("k_{}", f.name)) else { r.unsupported = Some("wrapper missing".into()); return r };
    let s = match setup(ex, f, c) { Ok(s) => s, Err(e) => { r.unsupported = Some(e); return r } };
    match ex.call(&fu, vec![V::P(s.aobj, 0)]) { Ok(Out::Ret(V::K(_, 0))) => {} Ok(_) => { r.unsupported = Some("the call fails".into()); return r } Err(e) => { r.unsupported = Some(e); return r } }
    r.steps = ex.steps;
    for (pi, q) in s.pl.iter().enumerate() { if !q.write { continue }
        let cells = ex.obj(s.objs[pi]).unwrap().cells.clone();
        for y in 0..q.rows { for x in 0..q.row {
            let get = |ex: &mut Ex, x: usize| { let o = (y * q.stride + x) * q.eb; ex.from_cells(&cells[o..o + q.eb], q.eb as u8 * 8) };
            let mut todo: Vec<(T, T)> = vec![];
            if let Some((sh, be)) = fields(f, &c.p) { let mut t = get(ex, x); if be { t = bswap(&mut ex.st, t, 4) } let g = ex.st.extract(t, sh[1], 10); for k in [0, 2] { let v = ex.st.extract(t, sh[k], 10); todo.push((v, g)) } }
            else if let Some(d) = duty(f, q, x) { let t = get(ex, x); let e = match d { Some(o) => get(ex, o), None => ex.st.k(q.depth, 1 << (q.depth - 1)) }; let t = if d.is_none() { plain(&mut ex.st, t, q) } else { t }; todo.push((t, e)) }
            for (t, e) in todo {
                r.obls += 1; let name = format!("{}/{}/{}.neutral", f.name, ISAS[c.isa].name, q.field);
                if t == e { *r.how.entry("syntactic").or_default() += 1; continue }
                let v = if ex.st.cv(e).is_some() { let k = ex.st.cv(e).unwrap() as f64; decide(&mut ex.st, t, &Exp::Lin(View::Id, Lin { c0: k, co: vec![], lo: 0., hi: 1e9, mul: None, floor: None }), tl, 0x16 ^ x as u64, effort) } else { decide(&mut ex.st, t, &Exp::Exact(e), 0., 0x16 ^ x as u64, effort) };
                let mut fail = |kind: &'static str, d: String, cex| { let fl = Fail { obl: name.clone(), kind, detail: format!("{} element ({},{}): {}", q.field, x, y, d), cex, plane: pi, idx: y * q.stride + x, x, y }; if kind == "open" { r.open.push(fl) } else { r.fails.push(fl) } };
                match v { Verdict::Ok { how, bound } => { *r.how.entry(how).or_default() += 1; let b = r.bounds.entry("neutral".into()).or_default(); if bound > *b { *b = bound } }
                    Verdict::Cex { vals, got, want } => { let (mut vs, _) = vars_of(&ex.st, t); for v in vars_of(&ex.st, e).0 { if !vs.contains(&v) { vs.push(v) } } let cex = vs.iter().zip(&vals).map(|(&v, &x)| { let q = ex.st.node(v); (q.a, q.k, x) }).collect(); fail("value", format!("computed {} where {} is required", got, want.0), Some(cex)) }
                    Verdict::Open { why, .. } => fail("open", why.into(), None), Verdict::Undef => fail("value", "depends on uninitialised memory".into(), Some(vec![])) }
                if r.fails.len() > 20 { return r } } } } }
    r
}
pub fn native_neutral(nat: &mut Native, st: &mut Store, f: &Fun, c: &Case, tl: f64, env: &dyn Fn(u32, u64, u8) -> u64) -> Option<String> {
    let pl = layout(f, &c.p, c.w, c.h, c.pad, c.lay); let b = buffers(st, f, c, &pl, env); let (_, d, ws) = a_bytes(f, c, &pl);
    let NRes::Ret(0, out) = nat.run(&format!("k_{}", f.name), ISAS[c.isa].bits, &b, d, ws) else { return None };
    for (pi, q) in pl.iter().enumerate() { if !q.write { continue } for y in 0..q.rows { for x in 0..q.row {
        let get = |x: usize| { let o = (y * q.stride + x) * q.eb; out[pi][o..o + q.eb].iter().rev().fold(0u64, |a, &b| a << 8 | b as u64) };
        if let Some((sh, be)) = fields(f, &c.p) { let mut t = get(x) as u32; if be { t = t.swap_bytes() } let v: Vec<u32> = sh.iter().map(|s| t >> s & 1023).collect(); if v[0] != v[1] || v[2] != v[1] { return Some(format!("pixel ({},{}): colour fields {:?} differ", x, y, v)) } }
        else if let Some(d) = duty(f, q, x) { let t = get(x); match d { Some(o) => { if t != get(o) { return Some(format!("{} elements {} and {} of row {} differ: {} and {}", q.field, x, o, y, t, get(o))) } }
            None => { let e = 1u64 << (q.depth - 1); let k = st.k(q.eb as u8 * 8, t); let k = plain(st, k, q); let t = st.cv(k).unwrap(); if (t as f64 - e as f64).abs() > tl { return Some(format!("{} element ({},{}) of a grey image is {} where {} is neutral", q.field, x, y, t, e)) } } } } } } }
    None
}
