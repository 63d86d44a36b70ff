mod term; mod ir; mod exec;
mod gap; mod intr; mod spec; mod decide; mod run; mod native; mod smt; mod p14;
mod bv; mod p15; mod p16; mod p18; mod p21; mod check;
use run::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "native" { native::serve(&a[2]); return; }
    if a[1] == "replay" { std::process::exit(check::replay(&a[2..])); }
    if a[1] == "check" { std::process::exit(check::main(&a[2..])); }
    if a[1] == "p14" { std::panic::set_hook(Box::new(|_| {})); let m = ir::load(&a[2]); let p = exec::Prog::new(m); let funs: Vec<spec::Fun> = std::fs::read_to_string(&a[3]).unwrap().lines().filter_map(spec::parse).collect();
        let t0 = std::time::Instant::now(); let r = p14::run14(&p, &funs, &a[4], a.get(5).map(|x| x.as_str()), false, t0 + std::time::Duration::from_secs(800));
        for v in &r.viols { println!("VIOL {} {} {:?} {:?} {:?}", v.0, v.6, v.1, v.4, v.5) } for v in &r.undecided { println!("UNDEC {}", v) } for v in &r.quiet { println!("QUIET {}", v) }
        println!("{} funs {} cases {} obls {} paths {} queries {} hits {:.1}s solver, {} cut, {} native calls, {:.1}s", r.funs, r.cases, r.obls, r.paths, r.queries, r.hits, r.time, r.cut, r.natcalls, t0.elapsed().as_secs_f64()); return; }
    let m = ir::load(&a[1]);
    let p = exec::Prog::new(m);
    let funs: Vec<spec::Fun> = std::fs::read_to_string(&a[2]).unwrap().lines().filter_map(|l| { let f = spec::parse(l); if f.is_none() { eprintln!("no contract: {}", l) } f }).collect();
    // explore: filter regexp-ish substring, widths, isas, param selector
    let pat = &a[3]; let ws: Vec<usize> = a[4].split(',').map(|x| x.parse().unwrap()).collect(); let hs: Vec<usize> = a[5].split(',').map(|x| x.parse().unwrap()).collect();
    let isas: Vec<usize> = a[6].split(',').map(|x| x.parse().unwrap()).collect(); let full = a.get(7).map(|x| x == "full").unwrap_or(false);
    let tolv: f64 = a.get(8).map(|x| x.parse().unwrap()).unwrap_or(1e9);
    let mut cases = vec![];
    for (i, f) in funs.iter().enumerate() { if !(pat == "all" || if let Some(e) = pat.strip_prefix('=') { f.name == e } else { f.name.contains(pat.as_str()) }) { continue; }
        for pr in params(f, full as u32 * 2) { for &isa in &isas { for &w in &ws { for &h in &hs { cases.push(Case { fun: i, isa, p: pr.clone(), w, h, pad: if (w + h) % 2 == 0 { 0 } else { 5 }, lay: 0 }) } } } } }
    eprintln!("{} cases", cases.len());
    let cache: Cache = Default::default(); let next = AtomicUsize::new(0); let out: Mutex<Vec<(usize, Res, f64)>> = Default::default();
    let tf = |_: &spec::Fun, _: &Case, _: &str| tolv; let tol = Tol { f: &tf, want: &|_, _, _| true };
    std::thread::scope(|s| { for _ in 0..8 { std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || { let mut ex = exec::Ex::new(&p); ex.max_steps = 200_000_000;
        loop { let i = next.fetch_add(1, Ordering::Relaxed); if i >= cases.len() { break; } let t0 = std::time::Instant::now(); let c = &cases[i];
            if let Ok(lib) = std::env::var("VALIDATE") { let mut nat = native::Native::new(&lib); let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| native::validate(&mut ex, &mut nat, &funs[c.fun], c, 12345 + i as u64))).unwrap_or_else(|_| Err("engine panic".into())); let mut r = Res::default(); match v { Ok(n) => r.obls = n, Err(e) => r.unsupported = Some(e) } out.lock().unwrap().push((i, r, t0.elapsed().as_secs_f64())); continue; }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&mut ex, &funs[c.fun], c, &cache, &tol, 1))).unwrap_or_else(|_| { let mut r = Res::default(); r.unsupported = Some("engine panic".into()); r });
            if r.unsupported.as_deref() == Some("engine panic") { ex = exec::Ex::new(&p); ex.max_steps = 200_000_000; }
            out.lock().unwrap().push((i, r, t0.elapsed().as_secs_f64())); } }).unwrap(); } });
    let mut o = out.into_inner().unwrap(); o.sort_by_key(|x| x.0);
    for (i, r, t) in &o { let c = &cases[*i]; let f = &funs[c.fun];
        println!("{} {} r{} m{} mo{} o{} f{} d{} g{} {}x{}+{} | {:.2}s steps {} obls {} bounds {:?} how {:?}{}", f.name, ISAS[c.isa].name, c.p.range, c.p.matrix, c.p.mode, c.p.order, c.p.flag, c.p.depth, c.p.geo, c.w, c.h, c.pad, t, r.steps, r.obls, r.bounds, r.how, match &r.unsupported { Some(u) => format!(" UNSUPPORTED {}", u), None => String::new() });
        for x in r.fails.iter().take(4) { println!("   FAIL {} {} {} {:?}", x.obl, x.kind, x.detail, x.cex.as_ref().map(|c| c.len())) }
        for x in r.open.iter().take(2) { println!("   OPEN {} {}", x.obl, x.detail) } }
}
pub fn params(f: &spec::Fun, full: u32) -> Vec<spec::Params> {
    let d0 = spec::Params { kr: 0.25, kb: 0.09, depth: 10, gamma: 0, ..Default::default() };
    let opts = |p: &str, all: &[u32], one: &[u32]| -> Vec<u32> { if !f.has(p) { vec![if p == "depth" { 10 } else { 0 }] } else if full == 2 { all.to_vec() } else if full == 1 && p == "range" { vec![0, 1] } else if full == 1 && p == "matrix" { vec![1, 3] } else { one.to_vec() } };
    let mut o = vec![];
    let geos: Vec<u32> = if f.has("rotate") { vec![0, 1, 2] } else if f.has("mirror") { vec![0, 1] } else { vec![0] };
    // these pick different kernels for the two ranges
    let two = match &f.fam { spec::Fam::Decode { yc, model, .. } | spec::Fam::Encode { yc, model, .. } => *model != spec::Model::Ycc || *yc == spec::Yc::Gray, _ => false };
    for r in opts("range", &[0, 1], if two { &[0, 1] } else { &[0] }) { for m in opts("matrix", &[0, 1, 2, 3, 4, 5, 6], &[1]) { for mo in opts("mode", &[0, 1, 2], &[0, 1, 2]) { for or in opts("order", &[0, 1], &[0, 1]) { for fl in opts("flag", &[0, 1], &[0, 1]) { for d in opts("depth", &[8, 10, 12, 14, 16], &[10, 12]) { for &g in &geos {
        o.push(spec::Params { range: r, matrix: m, mode: mo, order: or, flag: fl, depth: d, geo: g, gamma: if matches!(f.fam, spec::Fam::Sharp { .. }) { (m + 2 * r) % 4 } else { 0 }, ..d0.clone() }); } } } } } } }
    o
}
