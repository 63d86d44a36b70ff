//! The per-property checks: which functions, obligations and sizes a property covers, native
//! confirmation of counterexamples, known findings, evidence.
use crate::exec;
use crate::native::*;
use crate::run::*;
use crate::spec::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// the property that owns the sample values a conversion writes
pub fn owner(f: &Fun) -> &'static str {
    match &f.fam {
        Fam::Shuffle { .. } => "P06", Fam::Sharp { .. } => "P20", Fam::Repack { .. } => "P05", Fam::Pack30 { .. } | Fam::Unpack30 { .. } => "P11",
        Fam::Mirror { .. } | Fam::Rotate { .. } => "P12", Fam::ToF16 { .. } | Fam::FromF16 { .. } => "P19",
        Fam::Decode { yc, model, .. } => if f.enc_out == Enc::F16 { "P19" } else { match model { Model::Gbr => "P08", Model::YCgCo => "P09", Model::Rdp => "P17", Model::Ycc => if *yc == Yc::Gray { "P10" } else if f.din == 8 { "P01" } else { "P03" } } },
        Fam::Encode { model, .. } => match model { Model::Gbr => "P08", Model::YCgCo => "P09", Model::Rdp => "P17", Model::Ycc => if f.dout == 8 { "P02" } else { "P04" } },
    }
}
/// does obligation class `cl` of a case belong to property `prop`
pub fn wants(prop: &str, f: &Fun, c: &Case, cl: &str) -> bool {
    let memory = matches!(cl, "frame" | "unwritten" | "uninit" | "init" | "out-of-bounds" | "panic" | "crash" | "accepted" | "division-by-zero" | "undefined-branch");
    match prop {
        "ALL" => true,
        "P13" => memory && cl != "accepted",
        // outside the exact buffers P13 owns what is written; the values stay with the owner
        "P14" => cl == "accepted",
        "P18" => cl == "pair", "P21" => cl == "order",
        "P16" => cl == "neutral" || (!memory && cl != "alpha" && crate::p16::applies(f) && !(f.has("flag") && c.p.flag != 0 && matches!(f.fam, Fam::Decode { .. }))),
        "P07" => !memory && (cl == "alpha" || (f.has("flag") && c.p.flag != 0 && matches!(f.fam, Fam::Decode { .. }))),
        _ => !memory && owner(f) == prop && (cl != "alpha" || prop == "P06" || prop == "P11") && !(f.has("flag") && c.p.flag != 0 && matches!(f.fam, Fam::Decode { .. })),
    }
}
pub fn tkey(f: &Fun, c: &Case, cl: &str) -> String { format!("{} {} m{}{} f{} r{} d{} {}", f.group(), ISAS[c.isa].name, c.p.mode, if f.has("mode") && c.p.mode == 0 { format!("x{}", c.p.matrix) } else { String::new() }, c.p.flag, c.p.range, if f.has("depth") { c.p.depth } else { 0 }, cl) }
/// tolerance where the table has no entry: a few output steps, or the spacing of half floats
pub fn default_tol(f: &Fun, _c: &Case, _cl: &str) -> f64 {
    if f.enc_out == Enc::F16 { let d = if f.din == 0 { 16 } else { f.din }; return 3. + 2.25 * 2f64.powi(d as i32 - 11).max(1.); }
    if f.has("mode") && _c.p.mode == 0 && matches!(f.fam, Fam::Decode { .. }) { return 24.; }
    6.
}
pub struct Args { pub prop: String, pub ir: String, pub lib: String, pub root: String, pub tier: String, pub seed: u64, pub ws: Option<Vec<usize>>, pub hs: Option<Vec<usize>>, pub isas: Option<Vec<usize>>, pub pat: Option<String>, pub full: bool, pub measure: Option<String>, pub list: bool, pub lay: u32 }
pub fn parse_args(a: &[String]) -> Args {
    let mut r = Args { prop: a[0].clone(), ir: String::new(), lib: String::new(), root: ".".into(), tier: "quick".into(), seed: 1, ws: None, hs: None, isas: None, pat: None, full: false, measure: None, list: false, lay: 0 };
    let nums = |s: &str| Some(s.split(',').map(|x| x.parse().unwrap()).collect());
    let mut i = 1;
    while i < a.len() { let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() { "--ir" => r.ir = v, "--lib" => r.lib = v, "--root" => r.root = v, "--tier" => r.tier = v, "--seed" => r.seed = v.parse().unwrap_or(1), "--ws" => r.ws = nums(&v), "--hs" => r.hs = nums(&v), "--lay" => r.lay = v.parse().unwrap(), "--isas" => r.isas = nums(&v), "--pat" => r.pat = Some(v), "--measure" => r.measure = Some(v), "--full" => { r.full = true; i += 1; continue } "--list" => { r.list = true; i += 1; continue } x => panic!("argument {}", x) }
        i += 2; }
    r
}
/// sizes (width, height, padding) explored by a tier
fn sizes(prop: &str, tier: &str) -> Vec<(usize, usize, usize, u32, u32)> {
    let pad = |w: usize, h: usize| if (w + h) % 2 == 0 { 0 } else { 1 + (w * 7 + h) % 6 };
    let mut v = vec![(67, 3, 0, 2), (45, 2, 5, 1), (16, 2, 0, 1), (1, 1, 3, 1), (33, 2, 0, 1), (131, 1, 2, 0)];
    if tier == "thorough" {
        for x in v.iter_mut() { x.3 = 2 }
        for w in (1..=34).chain([47, 48, 49, 63, 64, 65, 66, 67, 79, 95, 96, 97, 111, 127, 128, 129, 131, 143, 191, 193, 255, 257, 259]) { for h in [1, 2, 3, 4, 5] { v.push((w, h, pad(w, h), if h == 3 { 1 } else { 0 })) } }
        if prop == "P12" { for h in 6..=40 { for w in [1, 5, 8, 17, 33] { v.push((w, h, pad(w, h), 0)) } } }
    } else {
        for (w, h) in [(2, 2), (3, 3), (5, 2), (7, 1), (9, 3), (12, 2), (15, 1), (17, 2), (24, 1), (31, 2), (34, 3), (48, 1), (63, 2), (64, 1), (66, 2), (96, 1), (127, 1), (129, 2)] { v.push((w, h, pad(w, h), 0)) }
        if prop == "P12" { for (w, h) in [(3, 17), (9, 33), (17, 9), (20, 20), (33, 18)] { v.push((w, h, pad(w, h), 0)) } }
    }
    if prop == "P13" { for x in v.iter_mut() { x.3 = x.3.min(1) } }
    if prop == "P21" { v = vec![(67, 5, 0, 1), (33, 4, 5, 0), (16, 6, 1, 0), (7, 3, 3, 0), (1, 4, 0, 0), (130, 3, 2, 0)]; if tier == "thorough" { for w in 1..=66 { for h in [2, 5, 8] { v.push((w, h, pad(w, h), 0)) } } } }
    if prop == "P20" && tier != "thorough" { v.truncate(14); v.retain(|x| x.0 < 70); v.push((130, 1, 0, 0)) }
    let mut v: Vec<(usize, usize, usize, u32, u32)> = v.into_iter().map(|x| (x.0, x.1, x.2, x.3, 0)).collect();
    // buffers longer than the image on one side; for P13 also on both sides, and buffers that end with the last pixel
    if prop != "P12" { let t = tier == "thorough";
        for (w, h) in if t { vec![(34, 4), (67, 6), (21, 2), (5, 4), (130, 4)] } else { vec![(34, 4), (19, 2)] } { for l in [3, 4] { v.push((w, h, 3, t as u32, l)) } }
        if prop == "P13" { for (w, h) in if t { vec![(34, 3), (67, 4), (9, 5), (1, 1), (129, 2)] } else { vec![(34, 3), (67, 4)] } { for l in 1..=4 { v.push((w, h, if w % 2 == 0 { 5 } else { 0 }, 0, l)) } } } }
    // one size stands for all larger ones of its residue class, see gap.rs
    if prop != "P16" { if tier == "thorough" { for r in 0..64 { v.push((192 + r, 6 + r % 2, 1 + (r * 7) % 5, if r % 16 == 5 && prop != "P20" { 1 } else { 0 }, 5)) } }
        else { v.push((197, 6, 5, 0, 5)); if !matches!(prop, "P13" | "P20" | "P21" | "P03" | "P02" | "P01") { v.push((210, 7, 1, 0, 5)); v.push((224, 6, 2, 0, 5)) } } }
    v
}
pub struct Known { pub prop: String, pub fun: String, pub isa: String, pub cls: String, pub cond: Vec<String>, pub text: String }
pub fn glob(p: &str, s: &str) -> bool { p.split(',').any(|p| glob1(p.as_bytes(), s.as_bytes())) }
fn glob1(p: &[u8], s: &[u8]) -> bool { match p.first() { None => s.is_empty(), Some(b'*') => (0..=s.len()).any(|i| glob1(&p[1..], &s[i..])), Some(&c) => s.first() == Some(&c) && glob1(&p[1..], &s[1..]) } }
pub fn load_known(path: &str) -> Vec<Known> {
    let mut o = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() { let l = l.trim(); let Some(r) = l.strip_prefix("finding: ") else { continue };
        let (k, text) = r.split_once(" -- ").unwrap_or((r, "")); let mut kn = Known { prop: String::new(), fun: "*".into(), isa: "*".into(), cls: "*".into(), cond: vec![], text: text.into() };
        for w in k.split_whitespace() { if let Some((a, b)) = w.split_once('=') { match a { "property" => kn.prop = b.into(), "fn" => kn.fun = b.into(), "isa" => kn.isa = b.into(), "what" => kn.cls = b.into(), "when" => kn.cond = b.split('&').map(|x| x.to_string()).collect(), _ => {} } } }
        o.push(kn); }
    o
}
impl Known {
    fn matches(&self, prop: &str, f: &Fun, c: &Case, cls: &str, x: &Fail) -> bool {
        if self.prop != prop || !glob(&self.fun, &f.name) || !glob(&self.isa, ISAS[c.isa].name) || !glob(&self.cls, cls) { return false; }
        self.cond.iter().all(|k| match k.as_str() { "oddw" => c.w % 2 == 1, "oddh" => c.h % 2 == 1, "limited" => c.p.range == 0, "full" => c.p.range == 1, "mode0" => c.p.mode == 0, "mode1" => c.p.mode == 1, "mode2" => c.p.mode == 2, "flag" => c.p.flag == 1,
            k if k.starts_with("lay") => c.lay == k[3..].parse::<u32>().unwrap(),
            "c420" | "beyond" | "last" => { let pl = layout(f, &c.p, c.w, c.h, c.pad, c.lay); let c420 = crate::p14::pspecs(f, &c.p).iter().any(|q| q.nhalf); let q = &pl[x.plane.min(pl.len() - 1)];
                if k == "c420" { c420 } else if k == "beyond" { x.kind == "frame" && x.y >= q.rows } else { x.kind == "unwritten" && x.y + (if c420 && q.rows == c.h { 2 } else { 1 }) >= q.rows } }
            k if k.starts_with("geo") => c.p.geo == k[3..].parse::<u32>().unwrap(),
            // fast_transpose: columns left over after whole blocks come out in reverse order
            k if k.starts_with("rev") => { let Fam::Rotate { ch } = f.fam else { return false }; let (mut s, px) = (0, x.x / ch); k[3..].split('.').map(|b| b.parse::<usize>().unwrap()).any(|b| { let s0 = s; while s + b < c.h { s += b } let rem = c.w - (c.w - 1) / b * b; x.y < rem && 2 * x.y + 1 != rem && px >= s0 && px < s }) }
            k if k.starts_with("cols") => { let Fam::Rotate { ch } = f.fam else { return false }; let b: usize = k[4..].parse().unwrap(); x.x / ch < (c.h - 1) / b * b }
            k if k.starts_with("x>=") => x.x >= k[3..].parse().unwrap(), k if k.starts_with("y>=") => x.y >= k[3..].parse().unwrap(), k if k.starts_with("bits") => c.p.depth == k[4..].parse::<u32>().unwrap(), _ => false })
    }
}
pub fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => {} c => o.push(c) } } o.push('"'); o }

pub fn class_of(x: &Fail) -> String { match x.kind { "value" | "open" => x.obl.rsplit('.').next().unwrap().to_string(), k => k.to_string() } }

/// replays a counterexample on the compiled library; Some(detail) when the contract is broken there
pub fn confirm(nat: &mut Native, f: &Fun, c: &Case, x: &Fail, tol: &Tol, seed: u64, tries: u32) -> Option<(String, Vec<(u32, u64, u64)>, u64, u32)> {
    let mut st = Store::new();
    let map: HashMap<(u32, u64), u64> = x.cex.iter().flatten().map(|&(a, i, v)| ((a, i), v)).collect();
    for k in 0..tries {
        let sd = seed.wrapping_add(k as u64 * 7919); let style = k % 3; let rnd = rand_env(sd, style);
        let has = x.kind == "value" && !map.is_empty();
        let env = |p: u32, i: u64, w: u8| if let (true, Some(&v)) = (has, map.get(&(p, i))) { v & mask(w) } else { rnd(p, i, w) };
        let (fl, _) = native_check(nat, &mut st, f, c, tol, &env);
        let hit = fl.iter().find(|n| n.class != "frame" && n.class != "call" && x.kind == "value" && n.plane == x.plane && n.idx == x.idx).or_else(|| fl.iter().find(|n| match x.kind { "frame" => n.kind == "frame", "unwritten" => n.kind == "unwritten" && n.plane == x.plane && n.idx == x.idx, "panic" => n.kind == "crash", "accepted" => n.kind == "accepted", "value" | "open" => n.kind == "value" && x.obl.ends_with(n.class), _ => n.kind == "crash" || n.kind == "frame" }));
        if let Some(n) = hit { return Some((n.detail.clone(), x.cex.clone().unwrap_or_default(), sd, style)); }
        if st.n.len() > 2_000_000 { st = Store::new(); }
    }
    None
}
/// a failure of the induction over sizes, on the compiled library at concrete sizes
pub fn confirm_big(c: &Case, seed: u64, sizes: &[(usize, usize)], tries: u32, go: &mut dyn FnMut(&Case, u64, u32) -> Option<String>) -> Option<(Case, String, u64, u32)> {
    for &(w, h) in sizes { let cc = Case { w, h, lay: 0, ..c.clone() };
        for k in 0..if w * h > 20000 { 1 } else { tries } { let sd = seed.wrapping_add(k as u64 * 7919); if let Some(d) = go(&cc, sd, k % 3) { return Some((cc, d, sd, k % 3)); } } }
    None
}
fn larger(w: usize, h: usize) -> Vec<(usize, usize)> { [(0, 0), (1, 0), (0, 1), (2, 2), (15, 1), (0, 120)].iter().map(|&(a, b)| (w + 64 * a, h + 2 * b)).chain([(w % 64 + 66048, 2 + h % 2), (w % 16 + 1, h % 2 + 66048)]).collect() }
pub fn confirm_neutral(nat: &mut Native, f: &Fun, c: &Case, x: &Fail, tl: f64, seed: u64) -> Option<(String, Vec<(u32, u64, u64)>, u64, u32)> {
    let mut st = Store::new(); let map: HashMap<(u32, u64), u64> = x.cex.iter().flatten().map(|&(a, i, v)| ((a, i), v)).collect();
    for k in 0..24u32 { let sd = seed.wrapping_add(k as u64 * 7919); let rnd = rand_env(sd, k % 3);
        let env = |p: u32, i: u64, w: u8| if let Some(&v) = map.get(&(p, i)) { v & mask(w) } else { rnd(p, i, w) };
        if let Some(d) = crate::p16::native_neutral(nat, &mut st, f, c, tl, &env) { return Some((d, x.cex.clone().unwrap_or_default(), sd, k % 3)); } }
    None
}
pub fn confirm_pair(nat: &mut Native, f: &Fun, g: &Fun, c: &Case, cg: &Case, x: &Fail, seed: u64) -> Option<(String, Vec<(u32, u64, u64)>, u64, u32)> {
    let mut st = Store::new(); let map: HashMap<(u32, u64), u64> = x.cex.iter().flatten().map(|&(a, i, v)| ((a, i), v)).collect();
    for k in 0..6u32 { let sd = seed.wrapping_add(k as u64 * 7919); let rnd = rand_env(sd, k % 3);
        let env = |p: u32, i: u64, w: u8| if let Some(&v) = map.get(&(p, i)) { v & mask(w) } else { rnd(p, i, w) };
        if let Some(d) = crate::p18::native_pair(nat, &mut st, f, g, c, cg, &env) { return Some((d, x.cex.clone().unwrap_or_default(), sd, k % 3)); } }
    None
}
pub fn load_tol(path: &str) -> HashMap<String, f64> { std::fs::read_to_string(path).unwrap_or_default().lines().filter_map(|l| { let (k, v) = l.rsplit_once(' ')?; Some((k.to_string(), v.parse().ok()?)) }).collect() }

pub struct Out { pub cases: Vec<Case>, pub res: Vec<Res> }
pub fn run_all(p: &exec::Prog, cases: &[Case], run: &(dyn Fn(&mut exec::Ex, &Case, &Cache) -> Res + Sync), deadline: std::time::Instant) -> Vec<Option<Res>> {
    let cache: Cache = Default::default(); let next = AtomicUsize::new(0); let out: Mutex<Vec<Option<Res>>> = Mutex::new((0..cases.len()).map(|_| None).collect());
    std::thread::scope(|s| { for _ in 0..8 { std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || { let mut ex = exec::Ex::new(p); ex.max_steps = 200_000_000;
        loop { let i = next.fetch_add(1, Ordering::Relaxed); if i >= cases.len() || std::time::Instant::now() > deadline { break; } let c = &cases[i];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ex, c, &cache))).unwrap_or_else(|_| { let mut r = Res::default(); r.unsupported = Some("engine panic".into()); r });
            if r.unsupported.as_deref() == Some("engine panic") { ex = exec::Ex::new(p); ex.max_steps = 200_000_000; }
            out.lock().unwrap()[i] = Some(r); } }).unwrap(); } });
    out.into_inner().unwrap()
}
/// `--pat`: substrings or =names, separated by commas
pub fn pat(p: &str, name: &str) -> bool { p.split(',').any(|x| x.strip_prefix('=').map_or_else(|| name.contains(x), |e| name == e)) }
pub fn main(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now(); let a = parse_args(a); let prop = a.prop.as_str();
    let api = format!("{}/tools/api_table.txt", a.root);
    let funs: Vec<Fun> = std::fs::read_to_string(&api).unwrap().lines().filter_map(parse).collect();
    if prop == "P14" { return crate::p14::check(&a, &funs, t0); }
    if prop == "P15" { return crate::p15::check(&a, t0); }
    let table = load_tol(&format!("{}/tools/tolerances.txt", a.root)); let known = load_known(&format!("{}/known-findings.txt", a.root));
    let measuring = a.measure.is_some();
    let coef = crate::p16::load(&format!("{}/tools/coefficients.txt", a.root));
    let tf = |f: &Fun, c: &Case, cl: &str| if prop == "P16" { if measuring { if cl == "neutral" { 6. } else { default_tol(f, c, cl) } } else { coef.get(&crate::p16::key(f, c, cl)).map_or_else(|| if cl == "neutral" { 0. } else { default_tol(f, c, cl) }, |v| v[c.isa]) } } else if measuring { default_tol(f, c, cl) } else { table.get(&tkey(f, c, cl)).copied().unwrap_or_else(|| default_tol(f, c, cl)) };
    let wf = |f: &Fun, c: &Case, cl: &str| wants(prop, f, c, cl);
    let tol = Tol { f: &tf, want: &wf };
    // the plan
    let mut cases: Vec<Case> = vec![]; let mut under: BTreeSet<usize> = Default::default();
    let sz: Vec<(usize, usize, usize, u32, u32)> = match (&a.ws, &a.hs) { (Some(w), Some(h)) => w.iter().flat_map(|&w| h.iter().map(move |&h| (w, h, if (w + h) % 2 == 0 { 0 } else { 5 }, a.full as u32 * 2, 0))).collect(), _ => sizes(prop, &a.tier) };
    for &(w, h, pad, lev, lay) in &sz { for (i, f) in funs.iter().enumerate() {
        if let Some(p) = &a.pat { if !pat(p, &f.name) { continue; } }
        for pr in crate::params(f, lev) { for isa in 0..6 { if let Some(l) = &a.isas { if !l.contains(&isa) { continue; } }
            let c = Case { fun: i, isa, p: pr.clone(), w, h, pad, lay: if a.lay > 0 { a.lay } else { lay } };
            if lay > 0 && (lay < 5 && matches!(f.fam, Fam::Mirror { .. }) || matches!(f.fam, Fam::Rotate { .. })) { continue; }
            if prop == "P18" && crate::p18::counterpart(&f.name).is_none() { continue; }
            if prop == "P21" && !crate::p21::applies(f) { continue; }
            let rel = prop == "P18" || prop == "P21" || ["y", "uv", "pk", "col", "alpha", "frame"].iter().any(|cl| wants(prop, f, &c, cl) && (*cl != "alpha" || prop == "P06" || f.writes_alpha())); if !rel { continue; }
            if prop == "P07" && !(f.has("flag") && c.p.flag != 0) && (c.p.range, c.p.matrix) != (0, 1) && f.has("matrix") { continue; }
            under.insert(i); cases.push(c); } } } }
    if prop == "P16" { cases.clear(); under.clear(); let sz16: Vec<(usize, usize)> = if let (Some(w), Some(h)) = (&a.ws, &a.hs) { w.iter().flat_map(|&w| h.iter().map(move |&h| (w, h))).collect() } else if a.tier == "thorough" { vec![(34, 2), (131, 2), (67, 1), (16, 2), (1, 1)] } else { vec![(34, 2)] };
        for (w, h) in sz16 { for (i, f) in funs.iter().enumerate() { if !crate::p16::applies(f) || a.pat.as_ref().map_or(false, |p| !pat(p, &f.name)) { continue }
            for n in [false, true] { if n && !crate::p16::has_chroma(f) { continue } for pr in crate::p16::params(f, n) { if pr.flag != 0 && matches!(f.fam, Fam::Decode { .. }) { continue } for isa in 0..6 { if let Some(l) = &a.isas { if !l.contains(&isa) { continue; } } under.insert(i); cases.push(Case { fun: i, isa, p: pr.clone(), w, h, pad: 0, lay: a.lay }); } } } } }
        // and for larger images, with the first option set
        if a.ws.is_none() { for r in if a.tier == "thorough" { vec![5, 18, 32, 47] } else { vec![5] } { for (i, f) in funs.iter().enumerate() { if !crate::p16::applies(f) || a.pat.as_ref().map_or(false, |p| !pat(p, &f.name)) { continue }
            for pr in crate::params(f, 0) { for n in [1] { if !crate::p16::has_chroma(f) || pr.flag != 0 && matches!(f.fam, Fam::Decode { .. }) { continue } for isa in 0..6 { cases.push(Case { fun: i, isa, p: Params { neutral: n, ..pr.clone() }, w: 192 + r, h: 6 + r % 2, pad: 1, lay: 5 }) } } } } } } }
    let m = crate::ir::load(&a.ir); let p = exec::Prog::new(m);
    let partner: Vec<usize> = funs.iter().enumerate().map(|(i, f)| crate::p18::counterpart(&f.name).and_then(|n| funs.iter().position(|g| g.name == n)).unwrap_or(i)).collect();
    let pc = |c: &Case| Case { fun: partner[c.fun], ..c.clone() };
    let run = |ex: &mut exec::Ex, c: &Case, cache: &Cache| if prop == "P18" { trying(c, |c| crate::p18::pair(ex, &funs[c.fun], &funs[partner[c.fun]], c, &pc(c), cache, 1)) } else if prop == "P21" { trying(c, |c| crate::p21::pair(ex, &funs[c.fun], c, cache, 1)) } else if c.p.neutral != 0 { trying(c, |c| crate::p16::neutral(ex, &funs[c.fun], c, &tf, 1)) } else { run_case(ex, &funs[c.fun], c, cache, &tol, 1) };
    let res = run_all(&p, &cases, &run, t0 + std::time::Duration::from_secs(if a.tier == "thorough" { 20000 } else { 560 }));
    if let (Some(path), "P16") = (&a.measure, prop) { let mut b: BTreeMap<String, [f64; 6]> = Default::default(); for (c, r) in cases.iter().zip(&res) { if let Some(r) = r { for (cl, v) in &r.bounds { let e = b.entry(crate::p16::key(&funs[c.fun], c, cl)).or_default(); if *v > e[c.isa] { e[c.isa] = *v } } } } let mut o = String::new(); for (k, v) in b { writeln!(o, "{} {}", k, v.iter().map(|x| format!("{:.4}", x)).collect::<Vec<_>>().join(" ")).unwrap(); } std::fs::write(path, o).unwrap(); }
    else if let Some(path) = &a.measure { let mut b: BTreeMap<String, f64> = Default::default(); for (c, r) in cases.iter().zip(&res) { if let Some(r) = r { for (cl, v) in &r.bounds { let e = b.entry(tkey(&funs[c.fun], c, cl)).or_default(); if *v > *e { *e = *v } } } } let mut o = String::new(); for (k, v) in b { writeln!(o, "{} {:.4}", k, v).unwrap(); } std::fs::write(path, o).unwrap(); }
    let extra = Extra::default();
    let dump = std::env::var("DUMP").is_ok();
    // outcomes
    let mut nat = Native::new(&a.lib); let (mut obls, mut how) = (0u64, BTreeMap::<&str, u64>::new()); let mut unsup: BTreeMap<String, u64> = Default::default(); let mut skipped = 0u64; let mut steps = 0u64;
    struct G { n: u64, first: (usize, Fail), sizes: BTreeSet<(usize, usize)> }
    let mut groups: BTreeMap<(String, String, String), G> = Default::default();
    let (mut nogen, mut nogenr, mut gen_, mut genf) = (vec![], BTreeMap::<String, u64>::new(), [0u64; 3], BTreeSet::<&str>::new());
    let mut kseen: BTreeMap<usize, u64> = Default::default(); let mut nfail = 0u64;
    for (ci, r) in res.iter().enumerate() { let c = &cases[ci]; let f = &funs[c.fun]; let Some(r) = r else { skipped += 1; continue };
        obls += r.obls; steps += r.steps; for (k, v) in &r.how { *how.entry(k).or_default() += v }
        if c.lay >= 5 { match &r.unsupported { Some(u) => { nogen.push(ci); *nogenr.entry(u.chars().take(40).collect()).or_default() += 1; } None => { gen_[r.gap.saturating_sub(5).min(2) as usize] += 1; genf.insert(f.name.as_str()); } } }
        else if let Some(u) = &r.unsupported { *unsup.entry(u.chars().take(80).collect()).or_default() += 1 }
        for x in r.fails.iter().chain(&r.open) { let cls = class_of(x); if !wants(prop, f, c, &cls) { continue; } nfail += 1; if dump { println!("DUMP {} {} geo{} {}x{}+{} lay{} {} {} {}", f.name, ISAS[c.isa].name, c.p.geo, c.w, c.h, c.pad, c.lay, cls, x.x, x.y); }
            if let Some(k) = known.iter().position(|k| k.matches(prop, f, c, &cls, x)) { *kseen.entry(k).or_default() += 1; continue; }
            let key = (f.name.clone(), ISAS[c.isa].name.to_string(), format!("{}{}{}{}", x.obl.rsplit('/').next().unwrap(), if f.has("mode") { format!(":mo{}", c.p.mode) } else { String::new() }, if f.has("flag") { format!(":f{}", c.p.flag) } else { String::new() }, if f.has("depth") { format!(":d{}", c.p.depth) } else { String::new() } + if c.lay >= 5 { ":larger" } else { "" }));
            let e = groups.entry(key).or_insert_with(|| G { n: 0, first: (ci, x.clone()), sizes: Default::default() }); e.n += 1; e.sizes.insert((c.w, c.h));
            if e.first.1.kind == "open" && x.kind != "open" { e.first = (ci, x.clone()) } } }
    let (mut viols, mut undecided) = (vec![], vec![]);
    // memory obligations first, then values, then unproved bounds
    let mut order: Vec<_> = groups.iter().collect(); order.sort_by_key(|(_, g)| (g.first.1.kind == "open", g.first.0));
    let one = |nat: &mut Native, f: &Fun, c: &Case, seed: u64, style: u32| -> Option<String> { let mut st = Store::new(); let rnd = rand_env(seed, style);
        if c.p.neutral != 0 { crate::p16::native_neutral(nat, &mut st, f, c, tf(f, c, "neutral"), &rnd) } else if prop == "P18" { crate::p18::native_pair(nat, &mut st, f, &funs[partner[c.fun]], c, &pc(c), &rnd) } else if prop == "P21" { crate::p21::native_pair(nat, &mut st, f, c, &rnd) }
        else { native_check(nat, &mut st, f, c, &tol, &rnd).0.into_iter().next().map(|n| n.detail) } };
    let tbig = std::time::Instant::now();
    for (key, g) in order { let (ci, x) = &g.first; let c = &cases[*ci]; let f = &funs[c.fun];
        let host = host_has(c.isa);
        if c.lay >= 5 { // not a failure of the code until a concrete larger image shows it
            let line = format!("{} {} {} [{}x{} and larger, range {} matrix {} mode {} order {} flag {} depth {} geo {}] {} ({} such)", key.0, key.1, key.2, c.w, c.h, c.p.range, c.p.matrix, c.p.mode, c.p.order, c.p.flag, c.p.depth, c.p.geo, x.detail, g.n);
            match if host && viols.len() < 12 && tbig.elapsed().as_secs() < 60 { confirm_big(c, a.seed, &larger(c.w, c.h), 6, &mut |c, s, k| one(&mut nat, f, c, s, k)) } else { None } { Some((cc, d, sd, sty)) => viols.push((line, Some((d, vec![], sd, sty)), cc, Fail { cex: None, ..x.clone() })), None => undecided.push(line) } continue; }
        let conf = if host && viols.len() < if a.list { 100000 } else { 12 } { if c.p.neutral != 0 { confirm_neutral(&mut nat, f, c, x, tf(f, c, "neutral"), a.seed) } else if prop == "P18" { confirm_pair(&mut nat, f, &funs[partner[c.fun]], c, &pc(c), x, a.seed) } else if prop == "P21" { (0..12u32).find_map(|k| { let sd = a.seed.wrapping_add(k as u64 * 7919); one(&mut nat, f, c, sd, k % 3).map(|d| (d, vec![], sd, k % 3)) }) } else { confirm(&mut nat, f, c, x, &tol, a.seed.wrapping_mul(7717), if x.kind == "value" { 6 } else { 24 }) } } else { None };
        let line = format!("{} {} {} [{}x{}+{} buffers {} range {} matrix {} mode {} order {} flag {} depth {} geo {}] {} ({} such)", key.0, key.1, key.2, c.w, c.h, c.pad, c.lay, c.p.range, c.p.matrix, c.p.mode, c.p.order, c.p.flag, c.p.depth, c.p.geo, x.detail, g.n);
        match conf { Some(q) => viols.push((line, Some(q), c.clone(), x.clone())), None => if (x.kind == "value" && host && viols.len() < 12) || (prop == "P21" && x.kind == "open") { undecided.push(line) } else { viols.push((line, None, c.clone(), x.clone())) } } }
    // calls whose induction over sizes did not go through: concrete larger images instead, while time allows
    let tn = std::time::Instant::now(); let mut nbig = 0u64;
    for &ci in &nogen { let c = &cases[ci]; let f = &funs[c.fun]; if !host_has(c.isa) || viols.len() >= 12 || tn.elapsed().as_secs() >= if a.tier == "thorough" { 1800 } else { 40 } { continue; } nbig += 1;
        if let Some((cc, d, sd, sty)) = confirm_big(c, a.seed, &larger(c.w, c.h), 1, &mut |c, s, k| one(&mut nat, f, c, s, k)) { let pt = format!("{}/{}/larger", f.name, ISAS[c.isa].name);
            let x = Fail { obl: pt.clone(), kind: "value", detail: d.clone(), cex: None, plane: 0, idx: 0, x: 0, y: 0 }; let cls = "large"; if known.iter().any(|k| k.matches(prop, f, &cc, cls, &x)) { continue; }
            viols.push((format!("{} [{}x{}] {}", pt, cc.w, cc.h, d), Some((d, vec![], sd, sty)), cc, x)); } }
    viols.sort_by_key(|v| v.1.is_none());
    let wall = t0.elapsed().as_secs_f64();
    if a.list { for (l, q, _, _) in &viols { println!("{} {} | {}", if q.is_some() { "CONFIRMED" } else { "UNCONFIRMED" }, l, q.as_ref().map(|q| q.0.clone()).unwrap_or_default()) } for l in &undecided { println!("SPURIOUS {}", l) } println!("{} cases ({} skipped) {} obligations {} fails; how {:?} unsupported {:?} generalised {:?} not {:?} {:.1}s", cases.len(), skipped, obls, nfail, how, unsup, gen_, nogenr, wall); return 0; }
    let dir = format!("{}/evidence/replay", a.root); let _ = std::fs::create_dir_all(&dir);
    for k in &known { if k.prop == prop { println!("KNOWN-FINDING: property={} {}", prop, k.text) } }
    let nviol = viols.len();
    for (k, (l, q, c, x)) in viols.iter().take(12).enumerate() { let f = &funs[c.fun]; let path = format!("{}/{}-{}.replay", dir, prop, k);
        let mut o = String::new(); writeln!(o, "# replay on the compiled library: /verif/tools/replay.sh {}", path).unwrap();
        writeln!(o, "property {}\nfunction {}\nisa {}\nsize {} {} {} {}\nparams {} {} {} {} {} {} {} {}\nweights {} {} {}", prop, f.name, c.isa, c.w, c.h, c.pad, c.lay, c.p.range, c.p.matrix, c.p.mode, c.p.order, c.p.flag, c.p.depth, c.p.geo, c.p.gamma, c.p.kr, c.p.kb, c.p.neutral).unwrap();
        let (sd, sty) = q.as_ref().map(|q| (q.2, q.3)).unwrap_or((1, 0)); writeln!(o, "fill {} {}", sd, sty).unwrap();
        for &(p, i, v) in x.cex.iter().flatten() { writeln!(o, "sample {} {} {}", p, i, v).unwrap(); }
        writeln!(o, "# obligation {}\n# verifier: {}\n# native run: {}", x.obl, l, q.as_ref().map(|q| q.0.as_str()).unwrap_or("no failing input found")).unwrap();
        let _ = std::fs::write(&path, o);
        println!("obligation {} :: {}", x.obl, l);
        println!("VIOLATION property={} replay={}{}", prop, path, if q.is_some() { "" } else { " no-failing-input-found" }); }
    for l in undecided.iter().take(10) { println!("undecided (not reproduced on the compiled library): {}", l) }
    // evidence
    let fnames: BTreeSet<&str> = under.iter().map(|&i| funs[i].name.as_str()).collect();
    let mut szs: BTreeSet<String> = Default::default(); for (c, r) in cases.iter().zip(&res) { if r.is_some() { szs.insert(format!("{}x{}+{}{}", c.w, c.h, c.pad, ["", " tight", " long buffers", " long sources", " long targets", " and larger by induction"][c.lay as usize])); } }
    let open: u64 = res.iter().flatten().map(|r| r.open.len() as u64).sum(); let unsn: u64 = unsup.values().sum();
    let samples: Vec<String> = cases.iter().zip(&res).filter(|(_, r)| r.as_ref().map_or(false, |r| r.unsupported.is_none() && r.obls > 2)).step_by((cases.len() / 4).max(1)).take(4).map(|(c, r)| js(&format!("{} {} {}x{} range {} mode {}: {} obligations, error bounds {:?}", funs[c.fun].name, ISAS[c.isa].name, c.w, c.h, c.p.range, c.p.mode, r.as_ref().unwrap().obls, r.as_ref().unwrap().bounds))).collect();
    let mut extra_json = String::new(); for (k, v) in &extra.notes { write!(extra_json, ",\n  {}: {}", js(k), v).unwrap(); }
    let tot = obls + extra.obls; let disch = tot.saturating_sub(nfail + extra.fails);
    let ev = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"wall_s\": {:.2},\n \"coverage\": {{\n  \"explanation\": {},\n  \"obligations\": {}, \"discharged\": {},\n  \"checker_cmd\": {},\n  \"functions_under_contract\": {}, \"functions\": [{}],\n  \"calls_verified\": {}, \"image_sizes\": [{}], \"isa_paths\": [{}],\n  \"discharged_by\": {{{}}},\n  \"induction_over_sizes\": {{\"calls_generalised\": {}, \"any_strides\": {}, \"strides_of_one_class\": {}, \"ordered_strides\": {}, \"functions\": {}, \"not_generalised\": {{{}}}, \"run_at_larger_sizes_instead\": {}}},\n  \"cases_out_of_reach\": {}, \"out_of_reach\": {{{}}}, \"cases_skipped_for_time\": {}, \"open_obligations\": {}, \"violations\": {}, \"known_finding_hits\": {}, \"undecided\": {},\n  \"ir_steps\": {},\n  \"trusted_base\": [{}],\n  \"samples\": [{}]{}\n }}\n}}\n",
        js(prop), js(&a.tier), a.seed, js(level_of(prop)), wall, js(&expl(prop)), tot, disch, js(&format!("engine check {} (tools/run_check.sh {})", prop, prop)),
        fnames.len(), fnames.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), res.iter().flatten().filter(|r| r.unsupported.is_none()).count(), szs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), ISAS.iter().map(|x| js(x.name)).collect::<Vec<_>>().join(","),
        how.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "), gen_.iter().sum::<u64>(), gen_[0], gen_[1], gen_[2], genf.len(), nogenr.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "), nbig,
        unsn, unsup.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "), skipped, open, nviol, kseen.values().sum::<u64>(), undecided.len(), steps,
        TRUST.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), samples.join(","), extra_json);
    let _ = std::fs::create_dir_all(format!("{}/evidence", a.root)); let _ = std::fs::write(format!("{}/evidence/{}.json", a.root, prop), ev);
    println!("{}: {} functions, {} calls, {} obligations, {} violations, {} undecided, {} out of reach, {} skipped, {} generalised to all sizes ({} not), {:.1}s", prop, fnames.len(), cases.len(), tot, nviol, undecided.len(), unsn, skipped, gen_.iter().sum::<u64>(), nogen.len(), wall);
    if nviol > 0 { return 1; }
    if tot == 0 || unsn as usize * 2 > cases.iter().filter(|c| c.lay < 5).count() && unsn > 0 { println!("{}: the verifier could not decide this property here (vacuous run)", prop); return 2; }
    0
}
#[derive(Default)]
pub struct Extra { pub obls: u64, pub fails: u64, pub notes: BTreeMap<String, String> }
fn expl(p: &str) -> String { match p {
    "P16" => format!("Two kinds of obligation per conversion with a colour matrix (6 standard matrices, 3 custom weight pairs, both ranges, all depths and modes): (1) every output element is within the fixed-point error bound proved for that configuration (tools/coefficients.txt, slack 0.02 output steps) of the exact value the standard's luma weights give, for all sample values; (2) with the chroma samples of the source neutral, red, green and blue are the same term, and with equal red, green and blue the chroma is neutral (exactly, or within the listed precision of the 7-bit fast modes). {}", EXPL),
    "P18" => format!("Relational contract: for each big-endian conversion and its little-endian counterpart, both symbolic runs on the same sample variables (byte-swapped in memory for the former) must leave the same term in every output element. {}", EXPL),
    "P21" => format!("Relational contract between two builds: with the crate's `rayon` feature, `for_each` of the dependency replaced by its contract (every item once, in an unspecified order; taken in reverse, so that with the sequential build every two rows are seen in both orders), each call must leave the same term as the sequential build in every element of every target buffer, padding and rows beyond the image included. {}", EXPL),
    _ => EXPL.into() } }
fn level_of(_p: &str) -> &'static str { "other" }
const EXPL: &str = "Contracts on the public functions, each checked on the code that runs: the LLVM IR rustc emits for /repo's sources in this run is executed symbolically, one run per function, CPU path, option set and image size, with every sample a free variable; every element of every target buffer then yields an obligation (equal to the required term, or within the tolerance of the required real value for all sample values), as do the memory, frame and initialisation conditions of every access. Unbounded in the sample values. The runs at concrete sizes are bounded in the image size (listed); the runs counted under induction_over_sizes treat width, height and strides as symbols and prove loop invariants at the cuts (DESIGN.md), for the listed remainder classes and the first option set.";
const TRUST: [&str; 7] = ["rustc's translation of the sources to LLVM IR (and LLVM's optimiser up to the emitted IR)", "the engine's semantics of LLVM instructions and x86 intrinsics (validated by differential runs against the compiled library)", "the CPU-feature detection of std is replaced by each of six feature sets", "the generated argument wrappers of /verif/shim", "real arithmetic of the contracts evaluated in f64", "NEON, WASM and rayon code paths are not covered", "image sizes whose remainder class (width mod 64, height mod 2) is not listed, and widths beyond 2^27"];
/// can this machine run the code path natively
pub fn host_has(isa: usize) -> bool { match isa { 0 => true, 1 => std::is_x86_feature_detected!("sse4.1") && std::is_x86_feature_detected!("ssse3"), 2 => std::is_x86_feature_detected!("avx2") && std::is_x86_feature_detected!("fma") && std::is_x86_feature_detected!("f16c"), 3 => host_has(2) && std::is_x86_feature_detected!("avxvnni"), 4 => host_has(2) && std::is_x86_feature_detected!("avx512bw") && std::is_x86_feature_detected!("avx512dq") && std::is_x86_feature_detected!("avx512vl"), _ => host_has(4) && std::is_x86_feature_detected!("avx512vnni") && std::is_x86_feature_detected!("avx512vbmi") } }
/// re-runs a recorded violation on the compiled library; exit 1 when the contract is still broken
pub fn replay(a: &[String]) -> i32 {
    let (file, root, lib) = (&a[0], &a[1], &a[2]); let txt = std::fs::read_to_string(file).unwrap(); let mut kv: HashMap<&str, Vec<&str>> = Default::default(); let mut map: HashMap<(u32, u64), u64> = Default::default();
    for l in txt.lines() { if l.starts_with('#') { continue; } let w: Vec<&str> = l.split_whitespace().collect(); if w.len() < 2 { continue; } if w[0] == "sample" { map.insert((w[1].parse().unwrap(), w[2].parse().unwrap()), w[3].parse().unwrap()); } else { kv.insert(w[0], w[1..].to_vec()); } }
    let n = |k: &str, i: usize| kv[k][i].parse::<u64>().unwrap(); let prop = kv["property"][0];
    if prop == "P15" { return crate::p15::replay(&kv, &txt, lib); }
    let funs: Vec<Fun> = std::fs::read_to_string(format!("{}/tools/api_table.txt", root)).unwrap().lines().filter_map(parse).collect();
    let fi = funs.iter().position(|f| f.name == kv["function"][0]).unwrap(); let f = &funs[fi];
    let fl = |i: usize, d: f32| kv.get("weights").map_or(d, |w| w[i].parse().unwrap());
    let p = Params { range: n("params", 0) as u32, matrix: n("params", 1) as u32, mode: n("params", 2) as u32, order: n("params", 3) as u32, flag: n("params", 4) as u32, depth: n("params", 5) as u32, geo: n("params", 6) as u32, kr: fl(0, 0.25), kb: fl(1, 0.09), neutral: fl(2, 0.) as u32, gamma: n("params", 7) as u32 };
    if prop == "P14" { return crate::p14::replay(&kv, &txt, f, &p, lib); }
    let c = Case { fun: fi, isa: n("isa", 0) as usize, p, w: n("size", 0) as usize, h: n("size", 1) as usize, pad: n("size", 2) as usize, lay: n("size", 3) as u32 };
    if !host_has(c.isa) { println!("this machine cannot run the {} path", ISAS[c.isa].name); return 0; }
    let table = load_tol(&format!("{}/tools/tolerances.txt", root)); let coef = crate::p16::load(&format!("{}/tools/coefficients.txt", root)); let tf = |f: &Fun, c: &Case, cl: &str| if prop == "P16" { coef.get(&crate::p16::key(f, c, cl)).map_or(if cl == "neutral" { 0. } else { default_tol(f, c, cl) }, |v| v[c.isa]) } else { table.get(&tkey(f, c, cl)).copied().unwrap_or_else(|| default_tol(f, c, cl)) }; let wf = |f: &Fun, c: &Case, cl: &str| wants(prop, f, c, cl); let tol = Tol { f: &tf, want: &wf };
    let rnd = rand_env(n("fill", 0), n("fill", 1) as u32); let env = |p: u32, i: u64, w: u8| if let Some(&v) = map.get(&(p, i)) { v & mask(w) } else { rnd(p, i, w) };
    if c.p.neutral != 0 { return match crate::p16::native_neutral(&mut Native::new(lib), &mut Store::new(), f, &c, tf(f, &c, "neutral"), &env) { Some(d) => { println!("{} {}x{} {}: {}\nthe contract is broken on this input", f.name, c.w, c.h, ISAS[c.isa].name, d); 1 } None => { println!("the contract holds on this input"); 0 } } }
    if prop == "P21" { return match crate::p21::native_pair(&mut Native::new(lib), &mut Store::new(), f, &c, &env) { Some(d) => { println!("{} {}x{} {}: {}\nthe contract is broken on this input", f.name, c.w, c.h, ISAS[c.isa].name, d); 1 } None => { println!("the contract holds on this input"); 0 } } }
    if prop == "P18" { let gi = funs.iter().position(|g| Some(&g.name) == crate::p18::counterpart(&f.name).as_ref()).unwrap(); let cg = Case { fun: gi, ..c.clone() };
        return match crate::p18::native_pair(&mut Native::new(lib), &mut Store::new(), f, &funs[gi], &c, &cg, &env) { Some(d) => { println!("{} {}x{} {}: {}\nthe contract is broken on this input", f.name, c.w, c.h, ISAS[c.isa].name, d); 1 } None => { println!("the contract holds on this input"); 0 } } }
    let (fl, _) = native_check(&mut Native::new(lib), &mut Store::new(), f, &c, &tol, &env);
    for x in fl.iter().take(10) { println!("{} {}x{} {}: {}", f.name, c.w, c.h, ISAS[c.isa].name, x.detail) }
    println!("{}", if fl.is_empty() { "the contract holds on this input" } else { "the contract is broken on this input" }); (!fl.is_empty()) as i32
}
