//! Contracts of the public conversions, derived from the property statements (not from the code):
//! for every element of every target buffer, what it must hold as a function of the source samples.
use crate::term::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Enc { Plain, Msb, Be, Signed, Word, F16 }

#[derive(Clone, Debug)]
pub struct Plane { pub field: String, pub eb: usize, pub row: usize, pub rows: usize, pub stride: usize, pub enc: Enc, pub depth: u8, pub write: bool, pub dim: usize, pub unit: usize, /// elements in the buffer
    pub len: usize }

#[derive(Clone, Debug, Default)]
pub struct Params { pub range: u32, pub matrix: u32, pub mode: u32, pub order: u32, pub flag: u32, pub gamma: u32, pub depth: u32, pub geo: u32, pub kr: f32, pub kb: f32, /// P16: chroma samples neutral, or colour channels equal
    pub neutral: u32 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sub { S420, S422, S444 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Yc { Planar(Sub), Bi(Sub, bool), Packed([u8; 4]), Packed444([u8; 4]), Gray }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Model { Ycc, YCgCo, Gbr, Rdp }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pix { Rgb { off: [usize; 3], a: Option<usize>, ch: usize }, W30 { sh: [u8; 3], ash: u8 } }
#[derive(Clone, Debug)]
pub enum Fam {
    Shuffle { src: Pix, dst: Pix },
    Decode { yc: Yc, model: Model, alpha: bool, dst: Pix },
    Encode { yc: Yc, model: Model, src: Pix },
    Sharp { yc: Yc, src: Pix },
    Repack { from: Yc, to: Yc },
    Pack30 { src: Pix, dst: Pix },
    Unpack30 { src: Pix, dst: Pix },
    Mirror { ch: usize },
    Rotate { ch: usize },
    ToF16 { ch: usize },
    FromF16 { ch: usize },
}
#[derive(Clone, Debug)]
pub struct Fun { pub name: String, pub fam: Fam, pub planes: Vec<(String, String, bool, usize)>, pub params: Vec<String>, pub din: u8, pub dout: u8, pub enc_in: Enc, pub enc_out: Enc }

impl Fun {
    pub fn has(&self, p: &str) -> bool { self.params.iter().any(|x| x == p) }
    pub fn writes_alpha(&self) -> bool { match &self.fam { Fam::Shuffle { dst, .. } | Fam::Decode { dst, .. } | Fam::Unpack30 { dst, .. } => matches!(dst, Pix::Rgb { a: Some(_), .. }), _ => false } }
    /// family label used to group obligations
    pub fn group(&self) -> String {
        let mut s = self.name.clone();
        for c in ["rgba", "bgra", "argb", "abgr", "rgb", "bgr"] { s = s.replace(c, "C"); }
        for c in ["yuyv", "yvyu", "uyvy", "vyuy"] { s = s.replace(c, "PK"); }
        s = s.replace("nv12", "nvA").replace("nv21", "nvA").replace("nv16", "nvB").replace("nv61", "nvB").replace("nv24", "nvC").replace("nv42", "nvC");
        s
    }
}

fn pix(s: &str) -> Option<Pix> {
    Some(match s {
        "rgb" => Pix::Rgb { off: [0, 1, 2], a: None, ch: 3 }, "bgr" => Pix::Rgb { off: [2, 1, 0], a: None, ch: 3 },
        "rgba" => Pix::Rgb { off: [0, 1, 2], a: Some(3), ch: 4 }, "bgra" => Pix::Rgb { off: [2, 1, 0], a: Some(3), ch: 4 },
        "argb" => Pix::Rgb { off: [1, 2, 3], a: Some(0), ch: 4 }, "abgr" => Pix::Rgb { off: [3, 2, 1], a: Some(0), ch: 4 },
        "ar30" => Pix::W30 { sh: [0, 10, 20], ash: 30 }, "ab30" => Pix::W30 { sh: [20, 10, 0], ash: 30 },
        "ra30" => Pix::W30 { sh: [22, 12, 2], ash: 0 }, "ba30" => Pix::W30 { sh: [2, 12, 22], ash: 0 },
        _ => return None })
}
fn pixd(s: &str) -> Option<(Pix, u8)> {
    for d in ["10", "12", "14", "16", "8"] { if let Some(b) = s.strip_suffix(d) { if let Some(p) = pix(b) { return Some((p, d.parse().unwrap())); } } }
    pix(s).map(|p| (p, match p { Pix::W30 { .. } => 10, _ => 8 }))
}
fn sub(s: &str) -> Option<Sub> { Some(match s { "420" | "0" => Sub::S420, "422" | "2" => Sub::S422, "444" | "4" => Sub::S444, _ => return None }) }
fn packed(s: &str) -> Option<Yc> { Some(Yc::Packed(match s { "yuyv422" => [0, 1, 2, 3], "yvyu422" => [0, 3, 2, 1], "uyvy422" => [1, 0, 3, 2], "vyuy422" => [1, 2, 3, 0], _ => return None })) }
fn nv(s: &str) -> Option<Yc> { Some(match s { "nv12" => Yc::Bi(Sub::S420, false), "nv21" => Yc::Bi(Sub::S420, true), "nv16" => Yc::Bi(Sub::S422, false), "nv61" => Yc::Bi(Sub::S422, true), "nv24" => Yc::Bi(Sub::S444, false), "nv42" => Yc::Bi(Sub::S444, true), _ => return None }) }
/// (layout, model, depth, enc) of a YUV format name
fn ycname(s: &str) -> Option<(Yc, Model, u8, Enc)> {
    if let Some(p) = packed(s) { return Some((p, Model::Ycc, 8, Enc::Plain)); }
    if s == "ayuv" { return Some((Yc::Packed444([1, 2, 3, 0]), Model::Ycc, 8, Enc::Plain)); }
    if s == "vyua" { return Some((Yc::Packed444([2, 1, 0, 3]), Model::Ycc, 8, Enc::Plain)); }
    if s == "yuv400" { return Some((Yc::Gray, Model::Ycc, 8, Enc::Plain)); }
    if let Some(x) = s.strip_prefix("yuv_") { return nv(x).map(|y| (y, Model::Ycc, 8, Enc::Plain)); }
    if let Some(x) = s.strip_prefix("yuv") { return sub(x).map(|y| (Yc::Planar(y), Model::Ycc, 8, Enc::Plain)); }
    if let Some(x) = s.strip_prefix("ycgco") { return sub(x).map(|y| (Yc::Planar(y), Model::YCgCo, 8, Enc::Plain)); }
    if s == "gbr" { return Some((Yc::Planar(Sub::S444), Model::Gbr, 8, Enc::Plain)); }
    if let Some(x) = s.strip_prefix("icgc") { return Some((Yc::Planar(sub(&x[..1])?), Model::YCgCo, x[1..].parse().ok()?, Enc::Plain)); }
    if let Some(x) = s.strip_prefix("gb") { return Some((Yc::Planar(Sub::S444), Model::Gbr, x.parse().ok()?, Enc::Plain)); }
    if let Some(x) = s.strip_prefix("i") { return Some((Yc::Planar(sub(&x[..1])?), Model::Ycc, x[1..].parse().ok()?, Enc::Plain)); }
    if let Some(x) = s.strip_prefix("p") { let d: u8 = x.get(1..)?.parse().ok()?; return Some((Yc::Bi(sub(&x[..1])?, false), Model::Ycc, d, Enc::Msb)); }
    if let Some(x) = s.strip_prefix("y0") { return Some((Yc::Gray, Model::Ycc, x.parse().ok()?, Enc::Plain)); }
    None
}

pub fn parse(line: &str) -> Option<Fun> {
    let (l, ps) = line.split_once('|')?;
    let mut it = l.split_whitespace();
    let name = it.next()?.to_string();
    let planes: Vec<_> = it.map(|x| { let f: Vec<&str> = x.split(':').collect(); (f[0].to_string(), f[1].to_string(), f[2] == "w", f[3].parse().unwrap_or(0usize)) }).collect();
    let params: Vec<String> = ps.split_whitespace().map(|x| x.to_string()).collect();
    let mk = |fam, din, dout, enc_in, enc_out| Some(Fun { name: name.clone(), fam, planes: planes.clone(), params: params.clone(), din, dout, enc_in, enc_out });
    let n = name.as_str();
    for (p, rot) in [("mirror_", false), ("rotate_", true)] { if let Some(x) = n.strip_prefix(p) {
        let (b, d) = match x.strip_suffix("16") { Some(b) => (b, 16), None => (x, 8) };
        let ch = match b { "plane" => 1, "cbcr" => 2, "rgb" => 3, "rgba" => 4, _ => return None };
        return mk(if rot { Fam::Rotate { ch } } else { Fam::Mirror { ch } }, d, d, Enc::Plain, Enc::Plain);
    } }
    if let Some(x) = n.strip_prefix("convert_") {
        let ch = if x.starts_with("plane") { 1 } else if x.starts_with("rgba") { 4 } else { 3 };
        if let Some(b) = x.strip_suffix("_to_f16") { return mk(Fam::ToF16 { ch }, if b.ends_with("16") { 16 } else { 8 }, 16, Enc::Plain, Enc::F16); }
        return mk(Fam::FromF16 { ch }, 16, if x.ends_with("16") { 16 } else { 8 }, Enc::F16, Enc::Plain);
    }
    if let Some(x) = n.strip_prefix("rdp_") {
        let (a, b) = x.split_once("_to_")?;
        if a == "yuv444" { return mk(Fam::Decode { yc: Yc::Planar(Sub::S444), model: Model::Rdp, alpha: false, dst: pix(b)? }, 13, 8, Enc::Signed, Enc::Plain); }
        return mk(Fam::Encode { yc: Yc::Planar(Sub::S444), model: Model::Rdp, src: pix(a)? }, 8, 16, Enc::Plain, Enc::Signed);
    }
    let (a, b) = n.split_once("_to_")?;
    if let Some(x) = b.strip_prefix("sharp_yuv") { let (p, d) = pixd(a)?; return mk(Fam::Sharp { yc: Yc::Planar(sub(x)?), src: p }, d, d, Enc::Plain, Enc::Plain); }
    let (b0, p16) = match b.strip_suffix("_p16") { Some(x) => (x, true), None => (b, false) };
    if let Some((pa, da)) = pixd(a) {
        if let Some((pb, db)) = pixd(b) {
            return match (pa, pb) {
                (Pix::W30 { .. }, _) => mk(Fam::Unpack30 { src: pa, dst: pb }, 10, db, Enc::Word, Enc::Plain),
                (_, Pix::W30 { .. }) => mk(Fam::Pack30 { src: pa, dst: pb }, da, 10, Enc::Plain, Enc::Word),
                _ => mk(Fam::Shuffle { src: pa, dst: pb }, da, db, Enc::Plain, Enc::Plain),
            };
        }
        let (bb, be) = match b.strip_suffix("_be") { Some(x) => (x, true), None => (b, false) };
        let (yc, model, d, enc) = ycname(bb)?;
        return mk(Fam::Encode { yc, model, src: pa }, da, d, Enc::Plain, if be { Enc::Be } else { enc });
    }
    // YUV source
    let mut s = a; let (mut alpha, mut be) = (false, false);
    loop { if let Some(x) = s.strip_suffix("_with_alpha") { s = x; alpha = true } else if let Some(x) = s.strip_suffix("_alpha") { s = x; alpha = true } else if let Some(x) = s.strip_suffix("_be") { s = x; be = true } else { break } }
    let (yc, model, d, enc) = ycname(s)?;
    if let Some((yb, _, _, _)) = ycname(b0) { if pix(b0).is_none() { let d = if p16 { 16 } else { 8 }; return mk(Fam::Repack { from: yc, to: yb }, d, d, Enc::Plain, Enc::Plain); } }
    let alpha = alpha || matches!(yc, Yc::Packed444(_));
    if let Some(x) = b.strip_suffix("_f16") { return mk(Fam::Decode { yc, model, alpha, dst: pix(x)? }, d, d, if be { Enc::Be } else { enc }, Enc::F16); }
    if p16 { return mk(Fam::Decode { yc, model, alpha, dst: pix(b0)? }, 0, 0, Enc::Plain, Enc::Plain); }
    let (pb, db) = pixd(b)?;
    mk(Fam::Decode { yc, model, alpha, dst: pb }, d, db, if be { Enc::Be } else { enc }, if matches!(pb, Pix::W30 { .. }) { Enc::Word } else { Enc::Plain })
}

// ------------------------------------------------------------------ colour mathematics (reals)
pub fn weights(p: &Params) -> (f64, f64) { match p.matrix { 0 => (0.299, 0.114), 1 => (0.2126, 0.0722), 2 => (0.2627, 0.0593), 3 => (0.212, 0.087), 4 => (0.2220, 0.0713), 5 => (0.30, 0.11), _ => (p.kr as f64, p.kb as f64) } }
pub struct Range { pub by: f64, pub buv: f64, pub ry: f64, pub ruv: f64 }
pub fn yrange(p: &Params, d: u8) -> Range {
    if p.range == 0 { let s = (1u64 << (d - 8)) as f64; Range { by: 16. * s, buv: 128. * s, ry: 219. * s, ruv: 224. * s } } else { let m = ((1u64 << d) - 1) as f64; Range { by: 0., buv: (1u64 << (d - 1)) as f64, ry: m, ruv: m } }
}
/// rows of the decoding matrix: channel = c0 + sum coef * sample, samples being (y,u,v)
pub fn decode_rows(m: Model, p: &Params, din: u8, maxv: f64) -> [[f64; 4]; 3] {
    let r = if m == Model::Rdp { Range { by: 4096., buv: 4096., ry: 1., ruv: 1. } } else { yrange(p, din) };
    let (yc, uc) = (maxv / r.ry, maxv / r.ruv);
    let mk = |a: f64, u: f64, v: f64| [-a * r.by - (u + v) * r.buv, a, u, v];
    match m {
        Model::Ycc => { let (kr, kb) = weights(p); let kg = 1. - kr - kb;
            [mk(yc, 0., 2. * (1. - kr) * uc), mk(yc, -2. * (1. - kb) * kb / kg * uc, -2. * (1. - kr) * kr / kg * uc), mk(yc, 2. * (1. - kb) * uc, 0.)] }
        Model::YCgCo => [mk(yc, -uc, uc), mk(yc, uc, 0.), mk(yc, -uc, -uc)],
        Model::Gbr => [[-yc * r.by, 0., 0., yc], [-yc * r.by, yc, 0., 0.], [-yc * r.by, 0., yc, 0.]],
        Model::Rdp => { let s = 1. / 32.; let mk = |u: f64, v: f64| [-(u + v) * r.buv * s, s, u * s, v * s]; [mk(0., 1.402525), mk(-0.343730, -0.714401), mk(1.769905, 0.)] }
    }
}
/// rows of the encoding matrix: (y,u,v) = c0 + sum coef * (r,g,b)
pub fn encode_rows(m: Model, p: &Params, din: u8, d: u8) -> [[f64; 4]; 3] {
    if m == Model::Rdp { let s = 32.; return [[-4096., 0.299 * s, 0.587 * s, 0.114 * s], [0., -0.168935 * s, -0.331665 * s, 0.50059 * s], [0., 0.499813 * s, -0.418531 * s, -0.081282 * s]]; }
    let r = yrange(p, d); let mx = ((1u64 << din) - 1) as f64; let (ys, us) = (r.ry / mx, r.ruv / mx);
    match m {
        Model::Ycc => { let (kr, kb) = weights(p); let kg = 1. - kr - kb; let (cb, cr) = (0.5 / (1. - kb) * us, 0.5 / (1. - kr) * us);
            [[r.by, kr * ys, kg * ys, kb * ys], [r.buv, -kr * cb, -kg * cb, (1. - kb) * cb], [r.buv, (1. - kr) * cr, -kg * cr, -kb * cr]] }
        Model::YCgCo => [[r.by, 0.25 * ys, 0.5 * ys, 0.25 * ys], [r.buv, -0.25 * us, 0.5 * us, -0.25 * us], [r.buv, 0.5 * us, 0., -0.5 * us]],
        Model::Gbr => [[r.by, 0., ys, 0.], [r.by, 0., 0., ys], [r.by, ys, 0., 0.]],
        Model::Rdp => unreachable!(),
    }
}

// ------------------------------------------------------------------ layouts
pub fn cdim(s: Sub, w: usize, h: usize) -> (usize, usize) { match s { Sub::S420 => (w.div_ceil(2), h.div_ceil(2)), Sub::S422 => (w.div_ceil(2), h), Sub::S444 => (w, h) } }
pub fn pch(p: Pix) -> usize { match p { Pix::Rgb { ch, .. } => ch, _ => 1 } }

/// Buffer layout of every argument for a width, height and row padding (in elements)
/// `lay`: 0 whole rows, 1 the last row without its padding, 2 longer buffers, 3 longer sources, 4 longer targets
pub fn layout(f: &Fun, p: &Params, w: usize, h: usize, pad: usize, lay: u32) -> Vec<Plane> {
    let mut out = vec![];
    let (mut din, mut dout) = (f.din, f.dout);
    if f.has("depth") { match f.fam { Fam::ToF16 { .. } => din = p.depth as u8, Fam::FromF16 { .. } => dout = p.depth as u8, _ => { din = p.depth as u8; dout = din } } }
    let mut nslice = 0;
    for (fi, ty, write, dim) in &f.planes {
        let eb = match ty.as_str() { "u8" => 1, _ => 2 };
        let yuvside = fi != "s";
        let (enc, depth, row, rows);
        if yuvside {
            let yc = match &f.fam { Fam::Decode { yc, .. } | Fam::Encode { yc, .. } | Fam::Sharp { yc, .. } => *yc, Fam::Repack { from, to } => if *write { *to } else { *from }, _ => unreachable!() };
            enc = if *write { f.enc_out } else { f.enc_in }; depth = if *write { dout } else { din };
            let (r, n) = match (yc, fi.as_str()) {
                (Yc::Packed(_), _) => (w.div_ceil(2) * 4, h), (Yc::Packed444(_), _) => (w * 4, h),
                (_, "y") | (_, "a") => (w, h),
                (Yc::Planar(s), _) => cdim(s, w, h), (Yc::Bi(s, _), _) => { let (a, b) = cdim(s, w, h); (a * 2, b) } _ => unreachable!() };
            row = r; rows = n;
        } else {
            let d = match &f.fam { Fam::Decode { .. } => dout, _ => if *write { dout } else { din } };
            depth = d;
            let ch = match &f.fam { Fam::Shuffle { src, dst } | Fam::Pack30 { src, dst } | Fam::Unpack30 { src, dst } => if *write { *dst } else { *src }, Fam::Decode { dst, .. } => *dst, Fam::Encode { src, .. } | Fam::Sharp { src, .. } => *src, _ => Pix::Rgb { off: [0; 3], a: None, ch: match f.fam { Fam::Mirror { ch } | Fam::Rotate { ch } | Fam::ToF16 { ch } | Fam::FromF16 { ch } => ch, _ => unreachable!() } } };
            let isw = matches!(ch, Pix::W30 { .. });
            let (ww, hh) = if matches!(f.fam, Fam::Rotate { .. }) && *write && p.geo != 1 { (h, w) } else { (w, h) };
            let e = if isw { Enc::Word } else if ty == "f16" { Enc::F16 } else { Enc::Plain };
            enc = e; row = ww * pch(ch); rows = hh; nslice += 1;
            let eb2 = if isw { 4 } else { eb };
            out.push(Plane { field: fi.clone(), eb: eb2, row, rows, stride: row + pad, enc, depth: if isw { 32 } else { depth }, write: *write, dim: *dim, unit: if isw { 4 } else { 1 }, len: 0 });
            continue;
        }
        // interleaved chroma and packed 4:2:2 accept only unpadded rows
        out.push(Plane { field: fi.clone(), eb, row, rows, stride: row + pad, enc, depth, write: *write, dim: *dim, unit: 1, len: 0 });
    }
    let _ = nslice;
    // padded rows: every plane has a stride of its own, growing or shrinking from plane to plane
    if pad > 0 { for (i, q) in out.iter_mut().enumerate() { q.stride += if pad % 2 == 1 { i } else { 5 - i.min(5) } } }
    for q in out.iter_mut() { q.len = q.stride * q.rows; match lay { 1 => q.len -= q.stride - q.row, 2 => q.len += q.stride * 2 + q.row / 2, 3 if !q.write => q.len += q.stride * 2 + q.row / 2, 4 if q.write => q.len += q.stride * 2 + q.row / 2, _ => {} } }
    out
}

// ------------------------------------------------------------------ expectations
#[derive(Clone, Debug)]
pub struct Lin { pub c0: f64, pub co: Vec<(T, f64)>, pub lo: f64, pub hi: f64, /// product with an alpha sample divided by its maximum
    pub mul: Option<(T, f64)>, /// luma variable and the black level below which the luma contribution may be clamped
    pub floor: Option<(T, f64, f64)> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum View { Id, Sx, Msb(u8), Be, BeMsb(u8), Field(u8, u8, bool), F16(u32) }
/// chroma of a sharp encoding: c0 + sum over the channels of r times 255 times the transfer of the weighted mean, in linear light, of the samples
#[derive(Clone, Debug)]
pub struct Light { pub lo: f64, pub hi: f64, pub gamma: u32, pub ws: Vec<f64>, pub c0: f64, pub r: [f64; 3], /// per channel, one sample for each weight
    pub v: [Vec<T>; 3] }
impl Light {
    pub fn deps(&self) -> impl Iterator<Item = T> + '_ { self.v.iter().flatten().copied() }
    pub fn at(&self, val: &dyn Fn(T) -> u64) -> f64 { let mut o = self.c0; for c in 0..3 { let l: f64 = self.v[c].iter().zip(&self.ws).map(|(&v, w)| w * to_linear(self.gamma, val(v) as f64 / 255.)).sum(); o += self.r[c] * 255. * from_linear(self.gamma, l) } o.clamp(self.lo, self.hi) }
}
/// transfer functions: 0 sRGB (IEC 61966-2-1), 1 Rec. ITU-R BT.709, 2 and 3 powers
pub fn to_linear(g: u32, x: f64) -> f64 { match g { 0 => if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / 1.055).powf(2.4) }, 1 => if x < 0.081 { x / 4.5 } else { ((x + 0.099) / 1.099).powf(1. / 0.45) }, 2 => x.powf(2.2), _ => x.powf(2.8) } }
pub fn from_linear(g: u32, x: f64) -> f64 { let x = x.clamp(0., 1.); match g { 0 => if x <= 0.0031308 { 12.92 * x } else { 1.055 * x.powf(1. / 2.4) - 0.055 }, 1 => if x < 0.018 { 4.5 * x } else { 1.099 * x.powf(0.45) - 0.099 }, 2 => x.powf(1. / 2.2), _ => x.powf(1. / 2.8) } }
#[derive(Clone, Debug)]
pub enum Exp { Exact(T), Lin(View, Lin), Half { var: T, max: f64 }, UnHalf { var: T, max: f64 }, Any, Light(Light), /// any one of several admissible values
    Choice(Vec<Exp>) }

pub struct Ctx<'x> { pub f: &'x Fun, pub p: &'x Params, pub w: usize, pub h: usize, pub pl: &'x [Plane], pub st: &'x mut Store }
impl<'x> Ctx<'x> {
    fn pidx(&self, field: &str, write: bool) -> usize { self.pl.iter().position(|q| q.field == field && q.write == write).unwrap() }
    /// the variable of a source sample
    pub fn var(&mut self, p: usize, x: usize, y: usize) -> T { let pl = &self.pl[p]; self.st.var(pl.depth, p as u32, (y * pl.stride + x) as u64) }
    fn yuv_at(&mut self, yc: Yc, x: usize, y: usize) -> (T, Option<(T, T)>) {
        match yc {
            Yc::Gray => { let p = self.pidx("y", false); (self.var(p, x, y), None) }
            Yc::Planar(s) => { let p = self.pidx("y", false); let (cx, cy) = cc(s, x, y); let (a, b) = (self.pidx("u", false), self.pidx("v", false)); (self.var(p, x, y), Some((self.var(a, cx, cy), self.var(b, cx, cy)))) }
            Yc::Bi(s, vu) => { let p = self.pidx("y", false); let (cx, cy) = cc(s, x, y); let q = self.pidx("uv", false); let (a, b) = (self.var(q, cx * 2, cy), self.var(q, cx * 2 + 1, cy)); (self.var(p, x, y), Some(if vu { (b, a) } else { (a, b) })) }
            Yc::Packed(o) => { let q = self.pidx("yuy", false); let m = x / 2 * 4; let yo = o[if x % 2 == 0 { 0 } else { 2 }] as usize; (self.var(q, m + yo, y), Some((self.var(q, m + o[1] as usize, y), self.var(q, m + o[3] as usize, y)))) }
            Yc::Packed444(o) => { let q = self.pidx("yuy", false); (self.var(q, x * 4 + o[0] as usize, y), Some((self.var(q, x * 4 + o[1] as usize, y), self.var(q, x * 4 + o[2] as usize, y)))) }
        }
    }
    fn raw_in(&mut self, p: usize, x: usize, y: usize) -> T { let v = self.var(p, x, y); let (e, eb) = (self.pl[p].enc, self.pl[p].eb); raw(self.st, v, e, eb) }
    /// expectation of element (x,y) of target plane `tp`
    pub fn expect(&mut self, tp: usize, x: usize, y: usize) -> Vec<Exp> {
        let f = self.f; let p = self.p.clone();
        match &f.fam {
            Fam::Shuffle { src, dst } => { let sp = self.pidx("s", false); let (Pix::Rgb { off: so, a: sa, ch: sc }, Pix::Rgb { off: dof, a: da, ch: dc }) = (*src, *dst) else { unreachable!() };
                let (px, c) = (x / dc, x % dc);
                if Some(c) == da { let t = match sa { Some(a) => self.raw_in(sp, px * sc + a, y), None => { let pl = &self.pl[tp]; let (w, m) = (pl.eb as u8 * 8, mask(pl.depth)); self.st.k(w, m) } }; return vec![Exp::Exact(t)]; }
                let i = dof.iter().position(|&o| o == c).unwrap(); vec![Exp::Exact(self.raw_in(sp, px * sc + so[i], y))] }
            Fam::Mirror { ch } => { let sp = self.pidx("s", false); let (px, c) = (x / ch, x % ch); let (sx, sy) = if p.geo == 0 { (px, self.h - 1 - y) } else { (self.w - 1 - px, y) }; vec![Exp::Exact(self.raw_in(sp, sx * ch + c, sy))] }
            Fam::Rotate { ch } => { let sp = self.pidx("s", false); let (px, c) = (x / ch, x % ch); let (sx, sy) = match p.geo { 0 => (self.w - 1 - y, px), 1 => (self.w - 1 - px, self.h - 1 - y), _ => (y, self.h - 1 - px) }; vec![Exp::Exact(self.raw_in(sp, sx * ch + c, sy))] }
            Fam::ToF16 { .. } => { let sp = self.pidx("s", false); let v = self.var(sp, x, y); let mx = mask(self.pl[sp].depth) as f64; vec![Exp::Half { var: v, max: mx }] }
            Fam::FromF16 { .. } => { let sp = self.pidx("s", false); let v = self.var(sp, x, y); let mx = mask(self.pl[tp].depth) as f64; vec![Exp::UnHalf { var: v, max: mx }] }
            Fam::Pack30 { src, dst } => { let sp = self.pidx("s", false); let Pix::Rgb { off, a, ch } = *src else { unreachable!() }; let Pix::W30 { sh, ash } = *dst else { unreachable!() };
                let mut o = vec![]; let d = self.pl[sp].depth;
                for i in 0..3 { let v = self.var(sp, x * ch + off[i], y); let s = 1023. / mask(d) as f64; o.push(Exp::Lin(View::Field(sh[i], 10, p.order != 0), Lin { c0: 0., co: vec![(v, s)], lo: 0., hi: 1023., mul: None, floor: None })); }
                let _ = a; o.push(Exp::Lin(View::Field(ash, 2, p.order != 0), Lin { c0: 3., co: vec![], lo: 0., hi: 3., mul: None, floor: None })); o }
            Fam::Unpack30 { src, dst } => { let sp = self.pidx("s", false); let Pix::Rgb { off, a, ch } = *dst else { unreachable!() }; let Pix::W30 { sh, ash } = *src else { unreachable!() };
                let (px, c) = (x / ch, x % ch);
                let (fs, fw, s) = if Some(c) == a { (ash, 2u8, 255. / 3.) } else { let i = off.iter().position(|&q| q == c).unwrap(); (sh[i], 10, 255. / 1023.) };
                let vv = self.field_var(sp, px, y, fs, fw);
                vec![Exp::Lin(View::Id, Lin { c0: 0., co: vec![(vv, s)], lo: 0., hi: 255., mul: None, floor: None })] }
            Fam::Decode { yc, model, alpha, dst } => {
                let (yc, model, alpha, dst) = (*yc, *model, *alpha, *dst);
                let din = self.pl.iter().find(|q| !q.write).unwrap().depth; let tpl = self.pl[tp].clone();
                let (dout, f16) = match tpl.enc { Enc::Word => (10u8, false), Enc::F16 => (din, true), _ => (tpl.depth, false) };
                let mx = mask(dout) as f64;
                let rows = decode_rows(model, &p, din, mx);
                let (ch, px) = (pch(dst), x / pch(dst));
                let (yv, uv) = self.yuv_at(yc, px, y);
                let av = if alpha { Some(match yc { Yc::Packed444(o) => { let q = self.pidx("yuy", false); self.var(q, px * 4 + o[3] as usize, y) } _ => { let q = self.pidx("a", false); self.var(q, px, y) } }) } else { None };
                let by = if model == Model::Ycc || model == Model::YCgCo { yrange(&p, din).by } else { 0. };
                let premul = f.has("flag") && p.flag != 0;
                let st_lin = |i: usize| -> Lin { let r = rows[i]; let mut co = vec![]; let mut c0 = r[0];
                    match uv { Some((u, v)) => { if r[1] != 0. { co.push((yv, r[1])) } if r[2] != 0. { co.push((u, r[2])) } if r[3] != 0. { co.push((v, r[3])) } } None => { co.push((yv, r[1])); c0 = -r[1] * by } }
                    Lin { c0, co, lo: 0., hi: mx, mul: if premul { av.map(|a| (a, mx)) } else { None }, floor: if by > 0. { Some((yv, by, r[1])) } else { None } } };
                match dst {
                    Pix::W30 { sh, ash } => { let mut o = vec![]; for i in 0..3 { o.push(Exp::Lin(View::Field(sh[i], 10, p.order != 0), st_lin(i))) } o.push(Exp::Lin(View::Field(ash, 2, p.order != 0), Lin { c0: 3., co: vec![], lo: 0., hi: 3., mul: None, floor: None })); o }
                    Pix::Rgb { off, a, .. } => { let c = x % ch;
                        if Some(c) == a {
                            match av { Some(v) => { if f16 { return vec![Exp::Half { var: v, max: mask(din) as f64 }]; } if dout == din { let t = self.st.zext(v, tpl.eb as u8 * 8); return vec![Exp::Exact(t)]; } let s = mx / mask(din) as f64; return vec![Exp::Lin(View::Id, Lin { c0: 0., co: vec![(v, s)], lo: 0., hi: mx, mul: None, floor: None })]; }
                                None => { let k = if f16 { 0x3c00 } else { mask(dout) }; let t = self.st.k(tpl.eb as u8 * 8, k); return vec![Exp::Exact(t)]; } }
                        }
                        let i = off.iter().position(|&q| q == c).unwrap(); let l = st_lin(i);
                        // a pure copy is exact
                        if model == Model::Gbr && p.range == 1 && !f16 && din == dout && !premul { let v = l.co[0].0; let t = self.st.zext(v, tpl.eb as u8 * 8); return vec![Exp::Exact(t)]; }
                        vec![Exp::Lin(if f16 { View::F16(mx as u32) } else { View::Id }, l)] }
                }
            }
            Fam::Encode { yc, model, src } => {
                let (yc, model, src) = (*yc, *model, *src);
                let sp = self.pidx("s", false); let din = self.pl[sp].depth; let tpl = self.pl[tp].clone(); let d = tpl.depth;
                let Pix::Rgb { off, ch, .. } = src else { unreachable!() };
                let rows = encode_rows(model, &p, din, d);
                let (row, pts): (usize, Vec<(usize, usize)>) = match (yc, tpl.field.as_str()) {
                    (_, "y") => (0, vec![(x, y)]),
                    (Yc::Planar(s), fl) => (if fl == "u" { 1 } else { 2 }, cover(s, x, y, self.w, self.h)),
                    (Yc::Bi(s, vu), _) => ((if (x % 2 == 1) != vu { 2 } else { 1 }), cover(s, x / 2, y, self.w, self.h)),
                    _ => unreachable!() };
                let r = rows[row]; let n = pts.len() as f64; let mut co = vec![];
                for i in 0..3 { if r[i + 1] != 0. { for &(qx, qy) in &pts { let v = self.var(sp, qx * ch + off[i], qy); co.push((v, r[i + 1] / n)); } } }
                if model == Model::Gbr && p.range == 1 && din == d { let v = co[0].0; let t = raw(self.st, v, tpl.enc, tpl.eb); return vec![Exp::Exact(t)]; }
                let (lo, hi) = if model == Model::Rdp { (-32768., 32767.) } else { (0., mask(d) as f64) };
                let view = match tpl.enc { Enc::Plain | Enc::Word | Enc::F16 => View::Id, Enc::Signed => View::Sx, Enc::Msb => View::Msb(16 - d), Enc::Be => View::Be };
                vec![Exp::Lin(view, Lin { c0: r[0], co, lo, hi, mul: None, floor: None })]
            }
            Fam::Sharp { yc, src } => {
                let (yc, src) = (*yc, *src); let sp = self.pidx("s", false); let din = self.pl[sp].depth; let tpl = self.pl[tp].clone();
                let Pix::Rgb { off, ch, .. } = src else { unreachable!() }; let Yc::Planar(s) = yc else { unreachable!() };
                let rows = encode_rows(Model::Ycc, &p, din, tpl.depth); let rg = yrange(&p, tpl.depth);
                let row = match tpl.field.as_str() { "y" => 0, "u" => 1, _ => 2 };
                let r = rows[row]; let (lo, hi) = ((rg.buv - rg.ruv / 2.).floor(), (rg.buv + rg.ruv / 2.).ceil().min(255.));
                if row == 0 { let co = (0..3).map(|i| (self.var(sp, x * ch + off[i], y), r[i + 1])).collect(); return vec![Exp::Lin(View::Id, Lin { c0: r[0], co, lo: 0., hi: 255., mul: None, floor: None })] }
                // 3:1 in each subsampled direction, in favour of the pixel the sample is sited at, the last row and column repeated
                let (xs, ys) = (vec![x * 2, (x * 2 + 1).min(self.w - 1)], if s == Sub::S420 { vec![y * 2, (y * 2 + 1).min(self.h - 1)] } else { vec![y] });
                let mut at: Vec<((usize, usize), f64)> = vec![];
                for (j, &qy) in ys.iter().enumerate() { for (i, &qx) in xs.iter().enumerate() { let w = if i == 0 { 0.75 } else { 0.25 } * if ys.len() == 1 { 1. } else if j == 0 { 0.75 } else { 0.25 }; match at.iter_mut().find(|a| a.0 == (qx, qy)) { Some(a) => a.1 += w, None => at.push(((qx, qy), w)) } } }
                let v = [0, 1, 2].map(|c| at.iter().map(|a| self.var(sp, a.0 .0 * ch + off[c], a.0 .1)).collect());
                vec![Exp::Light(Light { lo, hi, gamma: p.gamma, ws: at.iter().map(|a| a.1).collect(), c0: r[0], r: [r[1], r[2], r[3]], v })]
            }
            Fam::Repack { from, to } => {
                let (from, to) = (*from, *to); let d = self.pl[tp].depth; let m = mask(d) as f64; let fl = self.pl[tp].field.clone();
                match (from, to) {
                    (Yc::Planar(s), Yc::Packed(o)) => { // packed target
                        let (m4, k) = (x / 4, x % 4); let pos = o.iter().position(|&q| q as usize == k).unwrap();
                        match pos { 0 | 2 => { let px = m4 * 2 + pos / 2; if px >= self.w { return vec![Exp::Any]; } let q = self.pidx("y", false); vec![Exp::Exact(self.raw_in(q, px, y))] }
                            _ => { let q = self.pidx(if pos == 1 { "u" } else { "v" }, false);
                                match s { Sub::S420 => vec![Exp::Exact(self.raw_in(q, m4, y / 2))], Sub::S422 => vec![Exp::Exact(self.raw_in(q, m4, y))],
                                    Sub::S444 => { if m4 * 2 + 1 >= self.w { return vec![Exp::Exact(self.raw_in(q, m4 * 2, y))]; } let (a, b) = (self.var(q, m4 * 2, y), self.var(q, m4 * 2 + 1, y)); vec![Exp::Lin(View::Id, Lin { c0: 0., co: vec![(a, 0.5), (b, 0.5)], lo: 0., hi: m, mul: None, floor: None })] } } } } }
                    (Yc::Packed(o), Yc::Planar(s)) => { let q = self.pidx("yuy", false);
                        match fl.as_str() { "y" => { let k = x / 2 * 4 + o[if x % 2 == 0 { 0 } else { 2 }] as usize; vec![Exp::Exact(self.raw_in(q, k, y))] }
                            c => { let k = o[if c == "u" { 1 } else { 3 }] as usize;
                                match s { Sub::S444 => vec![Exp::Exact(self.raw_in(q, x / 2 * 4 + k, y))], Sub::S422 => vec![Exp::Exact(self.raw_in(q, x * 4 + k, y))],
                                    Sub::S420 => { if y * 2 + 1 >= self.h { return vec![Exp::Exact(self.raw_in(q, x * 4 + k, y * 2))]; } let (a, b) = (self.var(q, x * 4 + k, y * 2), self.var(q, x * 4 + k, y * 2 + 1)); let (ra, rb) = (self.raw_in(q, x * 4 + k, y * 2), self.raw_in(q, x * 4 + k, y * 2 + 1)); vec![Exp::Choice(vec![Exp::Exact(ra), Exp::Exact(rb), Exp::Lin(View::Id, Lin { c0: 0., co: vec![(a, 0.5), (b, 0.5)], lo: 0., hi: m, mul: None, floor: None })])] } } } } }
                    _ => unreachable!(),
                }
            }
        }
    }
    /// a bit field of a packed 32-bit source word is its own variable
    pub fn field_var(&mut self, sp: usize, x: usize, y: usize, sh: u8, w: u8) -> T { let st = self.pl[sp].stride; self.st.var(w, sp as u32 | (sh as u32 + 1) << 16, (y * st + x) as u64) }
}
pub fn cc(s: Sub, x: usize, y: usize) -> (usize, usize) { match s { Sub::S420 => (x / 2, y / 2), Sub::S422 => (x / 2, y), Sub::S444 => (x, y) } }
pub fn cover(s: Sub, cx: usize, cy: usize, w: usize, h: usize) -> Vec<(usize, usize)> {
    let xs: Vec<usize> = if s == Sub::S444 { vec![cx] } else { [cx * 2, cx * 2 + 1].into_iter().filter(|&x| x < w).collect() };
    let ys: Vec<usize> = if s == Sub::S420 { [cy * 2, cy * 2 + 1].into_iter().filter(|&y| y < h).collect() } else { vec![cy] };
    let mut o = vec![]; for &y in &ys { for &x in &xs { o.push((x, y)) } } o
}
/// memory image of a sample
pub fn raw(st: &mut Store, v: T, e: Enc, eb: usize) -> T {
    let w = eb as u8 * 8; let d = st.w(v);
    match e {
        Enc::Plain | Enc::F16 | Enc::Word => st.zext(v, w),
        Enc::Msb => { if d == w { v } else { let z = st.k(w - d, 0); st.concat(v, z) } }
        Enc::Be => { let z = st.zext(v, 16); let lo = st.extract(z, 0, 8); let hi = st.extract(z, 8, 8); st.concat(lo, hi) }
        Enc::Signed => { let z = st.zext(v, 16); let k = st.k(16, 4096); st.sub(z, k) }
    }
}
