//! P15: the image containers.  Contracts on `alloc`, `to_fixed`, `from_mut` and `check_constraints`, for all
//! dimensions (symbolic integers, no bound), discharged by z3/cvc5 path by path.
use crate::exec::*;
use crate::ir::Ty;
use crate::native::*;
use crate::p14::{conds2, vars, PSpec, D32};
use crate::smt::*;
use crate::run::ISAS;
use crate::term::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj15 { pub name: String, pub geo: u32, pub alloc: bool, pub planes: Vec<PSpec>, pub views: Vec<(usize, &'static str)>, pub eb: usize }
pub fn objects() -> Vec<Obj15> {
    let mut o = vec![];
    for (t, eb) in [("u8", 1), ("u16", 2)] { for alloc in [true, false] { for kind in ["planar", "biplanar", "gray", "packed"] { for geo in 0..3u32 {
        if (kind == "packed" && alloc) || (matches!(kind, "gray" | "packed") && geo > 0) { continue; }
        let ps = |m, rhalf, nhalf, field: &str| PSpec { m, rhalf, ry: false, nhalf, ny: true, dim: 0, write: true, eb, unit: 1, field: field.into() };
        let mut planes = vec![match kind { "packed" => ps(4, true, false, "yuy"), _ => ps(1, false, false, "y") }];
        if kind == "planar" { for n in ["u", "v"] { planes.push(ps(1, geo < 2, geo == 0, n)) } }
        if kind == "biplanar" { planes.push(ps(2, geo < 2, geo == 0, "uv")) }
        let mut views = vec![(12, "to_fixed")]; if kind == "biplanar" { views.push((24, "from_mut")) }
        o.push(Obj15 { name: format!("{}_{}_{}", if alloc { "a" } else { "b" }, kind, t), geo, alloc, planes, views, eb }); } } } }
    o
}
const SUB: [&str; 3] = ["4:2:0", "4:2:2", "4:4:4"];
impl Obj15 {
    pub fn title(&self) -> String { let k = self.name.split('_').nth(1).unwrap(); let k = match k { "planar" => "YuvPlanarImageMut", "biplanar" => "YuvBiPlanarImageMut", "gray" => "YuvGrayImageMut", _ => "YuvPackedImageMut" }; format!("{}<{}> {} {}", k, self.name.rsplit('_').next().unwrap(), SUB[self.geo as usize], if self.alloc { "alloc" } else { "borrowed" }) }
    /// the property's assumption: non-zero dimensions whose planes fit in memory and whose rows fit a stride field
    fn assume(&self) -> Vec<String> {
        let mut v = vec!["(>= w0 1)".to_string(), "(>= h0 1)".to_string()];
        for q in &self.planes { v.push(format!("(<= {} {})", q.row(), D32)); v.push(format!("(<= (* {} {}) {})", q.row(), q.rows(), 1i128 << 46)); }
        if !self.alloc { for (i, q) in self.planes.iter().enumerate() { v.push(format!("(>= s{} {})", i, q.row())); v.push(format!("(>= l{} (* s{} {}))", i, i, q.rows())); } }
        v
    }
    /// (name, negated obligation) over the observed values `g`
    fn obligations(&self, g: &[String]) -> Vec<(String, String)> {
        let mut o = vec![];
        if self.alloc {
            o.push(("alloc: the image has the requested dimensions".into(), format!("(or (not (= {} w0)) (not (= {} h0)))", g[9], g[10])));
            for (i, q) in self.planes.iter().enumerate() {
                o.push((format!("alloc: {} stride holds a row", q.field), format!("(< {} {})", g[3 * i + 1], q.row())));
                o.push((format!("alloc: {} plane holds every row", q.field), format!("(< {} (* {} {}))", g[3 * i], g[3 * i + 1], q.rows()))); }
        } else { for (i, q) in self.planes.iter().enumerate() { o.push((format!("borrowed: {} plane and stride unchanged", q.field), format!("(or (not (= {} l{})) (not (= {} s{})))", g[3 * i], i, g[3 * i + 1], i))); } }
        o.push(("check_constraints accepts the image".into(), format!("(not (= {} 0))", g[11])));
        for &(b, n) in &self.views {
            o.push((format!("{}: same dimensions", n), format!("(or (not (= {} {})) (not (= {} {})))", g[b + 9], g[9], g[b + 10], g[10])));
            for (i, q) in self.planes.iter().enumerate() {
                o.push((format!("{}: {} plane is the image's", n, q.field), format!("(or (not (= {} {})) (not (= {} 1)))", g[b + 3 * i], g[3 * i], g[b + 3 * i + 2])));
                o.push((format!("{}: {} stride is the image's", n, q.field), format!("(not (= {} {}))", g[b + 3 * i + 1], g[3 * i + 1]))); }
            o.push((format!("{}: check_constraints accepts the view", n), format!("(not (= {} 0))", g[b + 11]))); }
        o
    }
    /// the same contract on observed numbers; Some(what) when broken
    fn broken(&self, v: &[u64], w: u64, h: u64, bufs: &[(usize, usize)]) -> Option<String> {
        let d = [(w, h), (0, 0)];
        if v[9] != w || v[10] != h { return Some(format!("the image is {}x{}", v[9], v[10])); }
        for (i, q) in self.planes.iter().enumerate() { let (l, s) = (v[3 * i], v[3 * i + 1]);
            if self.alloc { if (s as u128) < q.crow(d) { return Some(format!("{} stride {} is shorter than a row of {}", q.field, s, q.crow(d))); } if (l as u128) < s as u128 * q.crows(d) { return Some(format!("{} plane of {} elements is shorter than {} rows of stride {}", q.field, l, q.crows(d), s)); } }
            else if (l as usize, s as usize) != bufs[i] { return Some(format!("{} plane or stride changed", q.field)); }
            for &(b, n) in &self.views { if v[b + 3 * i] != l || v[b + 3 * i + 2] != 1 { return Some(format!("{}: {} plane is not the image's", n, q.field)); } if v[b + 3 * i + 1] != s { return Some(format!("{}: {} stride {} is not the image's {}", n, q.field, v[b + 3 * i + 1], s)); } } }
        if v[11] != 0 { return Some("check_constraints rejects the image".into()); }
        for &(b, n) in &self.views { if v[b + 9] != w || v[b + 10] != h { return Some(format!("{}: the view is {}x{}", n, v[b + 9], v[b + 10])); } if v[b + 11] != 0 { return Some(format!("{}: check_constraints rejects the view", n)); } }
        None
    }
    pub fn native(&self, nat: &mut Native, w: u64, h: u64, bufs: &[(usize, usize)]) -> Option<String> {
        let mut data: Vec<(usize, usize, Vec<u8>)> = (0..3).map(|i| match bufs.get(i) { Some(b) if !self.alloc => (b.0, b.1, vec![0; b.0 * self.eb]), _ => (0, 0, vec![]) }).collect(); data.push((36, 0, vec![0xAA; 36 * 8]));
        let mut ws = [0u32; 10]; ws[7] = self.geo;
        match nat.run(&self.name, ISAS[0].bits, &data, [(w as usize, h as usize), (0, 0)], ws) { NRes::Crash => Some("the call panics".into()), NRes::Ret(_, o) => { let v: Vec<u64> = o[3].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(); self.broken(&v, w, h, bufs) } }
    }
}
#[derive(Default)]
pub struct R15 { pub obls: u64, pub bad: Vec<(String, Option<(u64, u64, Vec<(usize, usize)>)>)>, pub undecided: Vec<String>, pub paths: u64, pub queries: u64, pub time: f64 }
pub fn prove(ex: &mut Ex, ob: &Obj15) -> R15 {
    let mut r = R15::default(); ex.max_steps = 400_000; let np = if ob.alloc { 0 } else { ob.planes.len() };
    let smt = Rc::new(RefCell::new(Smt::new())); let asm = ob.assume();
    let Some(fu) = ex.prog.func(0, &ob.name) else { r.undecided.push("wrapper missing".into()); return r };
    let mut pending = vec![vec![]];
    while let Some(script) = pending.pop() {
        r.paths += 1; if r.paths > 400 { r.undecided.push("too many paths".into()); break; }
        ex.reset(); ex.path = None; ex.touched = false; ex.set_detect(ISAS[0].bits);
        let out = ex.alloc(vec![c_byte(0xAA); 36 * 8], K_STACK, 998);
        let mut cells = vec![]; let objs: Vec<u32> = (0..3).map(|_| ex.alloc(vec![], K_PLANE, 0)).collect();
        let put = |ex: &mut Ex, cells: &mut Vec<Cell>, t: T| { let v = ex.mkv(t); ex.to_cells(&Ty::Int(64), &v, cells).unwrap() };
        for i in 0..6 { if i < np { ex.to_cells(&Ty::Ptr, &V::P(objs[i], 0), &mut cells).unwrap(); let l = ex.st.var(64, 0x800, 10 + i as u64); put(ex, &mut cells, l); let s = ex.st.var(32, 0x800, 20 + i as u64); let s = ex.st.zext(s, 64); put(ex, &mut cells, s); }
            else if i == 3 { ex.to_cells(&Ty::Ptr, &V::P(out, 0), &mut cells).unwrap(); for _ in 0..16 { cells.push(c_byte(0)) } } else { for _ in 0..24 { cells.push(c_byte(0)) } } }
        for k in 0..4u64 { if k < 2 { let v = ex.st.var(32, 0x800, k); let v = ex.st.zext(v, 64); put(ex, &mut cells, v) } else { for _ in 0..8 { cells.push(c_byte(0)) } } }
        for v in [0, 0, 0, 0, 0, 0, 0, ob.geo, 0, 0] { for k in 0..4 { cells.push(c_byte((v >> (8 * k)) as u8)) } }
        let a = ex.alloc(cells, K_STACK, 999);
        let (asm2, sm) = (asm.clone(), smt.clone());
        let feas = move |st: &Store, pc: &[T], t: T| -> bool { let (c, _, fr) = conds2(st, pc, Some(t), &[]); let mut vs = vars(np, 1, false); vs.extend(fr); let mut q = asm2.clone(); q.extend(c); let mut s = sm.borrow_mut(); s.timeout_ms = QUICK; let r = s.check(&vs, &q, false) != Sat::Unsat; s.timeout_ms = FULL; r };
        ex.path = Some(Path { script, pos: 0, pending: vec![], feasible: Box::new(feas), max: 200, seen: Default::default() });
        let res = ex.call(&fu, vec![V::P(a, 0)]); let pt = ex.path.take().unwrap(); pending.extend(pt.pending); let pc = ex.pc.clone();
        // a model of a negated obligation: a small one first
        let mut solve = |ex: &Ex, extra: &[String], fr: &[(String, String)], c: &[String]| -> (Sat, Option<(u64, u64, Vec<(usize, usize)>)>) {
            let mut q = asm.clone(); q.extend(c.iter().cloned()); q.extend(extra.iter().cloned()); let _ = ex; let mut sm = smt.borrow_mut();
            let mut vs = vars(np, 1, false); vs.extend(fr.iter().cloned()); let s = sm.check(&vs, &q, true); if s == Sat::Unsat { return (s, None) }
            let get = |m: &Vec<(String, u64)>| { let g = |n: String| m.iter().find(|x| x.0 == n).map_or(0, |x| x.1); (g("w0".into()), g("h0".into()), (0..np).map(|i| (g(format!("l{}", i)) as usize, g(format!("s{}", i)) as usize)).collect()) };
            for lim in [32u64, 4096] { let mut q2 = q.clone(); q2.push(format!("(and (< w0 {}) (< h0 {}))", lim, lim)); let mut vs = vars(np, 1, true); vs.extend(fr.iter().cloned()); if let Sat::Sat(m) = sm.check(&vs, &q2, true) { return (Sat::Sat(vec![]), Some(get(&m))) } }
            if let Sat::Sat(m) = &s { let m = get(m); return (s, Some(m)) } (s, None) };
        if ex.touched { r.obls += 1; r.bad.push(("no plane is accessed".into(), None)); continue; }
        match res {
            Err(s) => { r.obls += 1; r.undecided.push(format!("path not followed: {}", s)) }
            Ok(Out::Div) => { r.obls += 1; let (c, _, fr) = conds2(&ex.st, &pc, None, &[]); match solve(ex, &[], &fr, &c) { (Sat::Unsat, _) => {} (Sat::Unknown, None) => r.undecided.push("solver gave up: no panic".into()), (_, m) => r.bad.push(("the call does not panic".into(), m)) } }
            Ok(Out::Ret(_)) => {
                let mut ts = vec![]; let mut ok = true;
                for k in 0..36 { match ex.load(&Ty::Int(64), &V::P(out, 8 * k)) { Ok(Some(v)) => match ex.t(&v, 64) { Ok(t) => ts.push(t), Err(_) => ok = false }, _ => ok = false } }
                if !ok { r.obls += 1; r.undecided.push("observation not readable".into()); continue; }
                let (c, g, fr) = conds2(&ex.st, &pc, None, &ts);
                for (n, neg) in ob.obligations(&g) { r.obls += 1; match solve(ex, &[neg], &fr, &c) { (Sat::Unsat, _) => {} (Sat::Unknown, None) => r.undecided.push(format!("solver gave up: {}", n)), (_, m) => r.bad.push((n, m)) } } }
        }
    }
    let s = smt.borrow(); r.queries = s.queries; r.time = s.time; r
}
pub fn check(a: &crate::check::Args, t0: std::time::Instant) -> i32 {
    use crate::check::js; use std::fmt::Write as _;
    let m = crate::ir::load(&a.ir); let prog = Prog::new(m); let obs = objects();
    let dir = format!("{}/evidence/replay", a.root); let _ = std::fs::create_dir_all(&dir); let known = crate::check::load_known(&format!("{}/known-findings.txt", a.root));
    for k in &known { if k.prop == "P15" { println!("KNOWN-FINDING: property=P15 {}", k.text) } }
    let next = std::sync::atomic::AtomicUsize::new(0); let rs: std::sync::Mutex<Vec<(usize, R15)>> = Default::default();
    std::thread::scope(|s| { for _ in 0..8 { std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || { let mut ex = Ex::new(&prog);
        loop { let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed); if i >= obs.len() { break; }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prove(&mut ex, &obs[i]))).unwrap_or_else(|_| { let mut r = R15::default(); r.obls = 1; r.undecided.push("engine panic".into()); r }); ex = Ex::new(&prog);
            rs.lock().unwrap().push((i, r)); } }).unwrap(); } });
    let mut rs = rs.into_inner().unwrap(); rs.sort_by_key(|x| x.0);
    let mut nat = Native::new(&a.lib); let (mut obls, mut nv, mut fails, mut paths, mut q, mut time, mut natc, mut quiet) = (0, 0, 0u64, 0, 0, 0., 0u64, 0); let mut und = vec![];
    let mut report = |ob: &Obj15, what: &str, m: &Option<(u64, u64, Vec<(usize, usize)>)>, conf: &Option<String>, nv: &mut i32| { *nv += 1; if *nv > 12 { return; }
        let path = format!("{}/P15-{}.replay", dir, *nv - 1); let (w, h, bufs) = m.clone().unwrap_or_default(); let mut o = String::new();
        writeln!(o, "# replay on the compiled library: /verif/tools/replay.sh {}\nproperty P15\nfunction {}\ngeo {}\ndims {} {}", path, ob.name, ob.geo, w, h).unwrap(); for b in &bufs { writeln!(o, "buf {} {}", b.0, b.1).unwrap(); }
        writeln!(o, "# obligation {}: {}\n# native run: {}", ob.title(), what, conf.as_deref().unwrap_or("no failing input found")).unwrap(); let _ = std::fs::write(&path, o);
        println!("obligation {}: {} ({}x{} {:?}{})", ob.title(), what, w, h, bufs, conf.as_ref().map(|c| format!(": {}", c)).unwrap_or_default());
        println!("VIOLATION property=P15 replay={}{}", path, if conf.is_some() { "" } else { " no-failing-input-found" }); };
    for (i, r) in &rs { let ob = &obs[*i]; obls += r.obls; paths += r.paths; q += r.queries; time += r.time; for u in &r.undecided { und.push(format!("{}: {}", ob.title(), u)) }
        let mut best: Option<(String, Option<(u64, u64, Vec<(usize, usize)>)>, Option<String>)> = None;
        for (what, m) in &r.bad { fails += 1; let mut conf = None; let mut run = false;
            if let Some((w, h, bufs)) = m { if (*w as u128) * (*h as u128) <= 1 << 26 && bufs.iter().all(|b| b.0 <= 1 << 22) { run = true; natc += 1; conf = ob.native(&mut nat, *w, *h, bufs); } }
            if run && conf.is_none() { quiet += 1; continue; }
            if best.as_ref().map_or(true, |b| b.2.is_none() && conf.is_some()) { best = Some((what.clone(), m.clone(), conf)) } }
        // concrete images (bounded, not counted as proved)
        if best.is_none() { 'g: for w in 1..=19u64 { for h in 1..=11u64 { let bufs: Vec<(usize, usize)> = if ob.alloc { vec![] } else { ob.planes.iter().map(|p| { let s = p.crow([(w, h), (0, 0)]) as usize + (w % 3) as usize; (s * p.crows([(w, h), (0, 0)]) as usize, s) }).collect() };
            natc += 1; if let Some(c) = ob.native(&mut nat, w, h, &bufs) { best = Some(("concrete image".into(), Some((w, h, bufs)), Some(c))); break 'g; } } } }
        if let Some((what, m, conf)) = best { report(ob, &what, &m, &conf, &mut nv) } }
    for u in und.iter().take(10) { println!("undecided: {}", u) }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!("{{\n \"property\": \"P15\", \"tier\": {}, \"seed\": {}, \"level\": \"proof\", \"wall_s\": {:.2},\n \"coverage\": {{\n  \"explanation\": {},\n  \"obligations\": {}, \"discharged\": {},\n  \"checker_cmd\": \"engine check P15 (tools/run_check.sh P15)\",\n  \"functions_under_contract\": [{}], \"paths\": {}, \"solver\": \"z3 and cvc5 (QF_NIA)\", \"solver_queries\": {}, \"solver_s\": {:.1}, \"undecided\": {}, \"engine_paths_not_reproduced\": {}, \"violations\": {},\n  \"native_calls\": {},\n  \"bounded\": \"the native calls on small images are bounded and not counted as proved\",\n  \"samples\": [\"alloc: for all w, h >= 1: stride >= row and len >= stride * rows for every plane, dimensions as requested, check_constraints() == Ok\", \"to_fixed / from_mut: every plane, stride and dimension of the view is the image's, check_constraints() == Ok\"],\n  \"trusted_base\": [\"rustc's translation of the sources to LLVM IR\", \"the engine's semantics of integer LLVM instructions\", \"z3 and cvc5\", \"the allocator returns a fresh buffer of the requested size\", \"plane sizes at most 2^46 elements and rows of at most 2^32-1 elements (the stride fields' type)\", \"instances T = u8 and T = u16\"]\n }}\n}}\n",
        js(&a.tier), a.seed, wall, js("Contracts on the image containers of src/images.rs: every path of alloc, to_fixed, from_mut and check_constraints through the LLVM IR rustc emits for /repo's sources in this run, dimensions symbolic and unbounded; each postcondition is a z3/cvc5 query per path. Models are replayed on the compiled library."),
        obls, obls - fails - und.len() as u64, obs.iter().map(|o| js(&o.title())).collect::<Vec<_>>().join(","), paths, q, time, und.len(), quiet, nv, natc);
    let _ = std::fs::write(format!("{}/evidence/P15.json", a.root), ev);
    println!("P15: {} containers, {} obligations, {} paths, {} solver queries, {} violations, {} undecided, {:.1}s", obs.len(), obls, paths, q, nv, und.len(), wall);
    if nv > 0 { return 1; }
    if obls == 0 || und.len() as u64 * 2 > obls { println!("P15: the verifier could not decide this property here (vacuous run)"); return 2; }
    0
}
pub fn replay(kv: &std::collections::HashMap<&str, Vec<&str>>, txt: &str, lib: &str) -> i32 {
    let n = |k: &str, i: usize| kv[k][i].parse::<u64>().unwrap(); let ob = objects().into_iter().find(|o| o.name == kv["function"][0] && o.geo as u64 == n("geo", 0)).unwrap();
    let bufs: Vec<(usize, usize)> = txt.lines().filter_map(|l| { let (a, b) = l.strip_prefix("buf ")?.split_once(' ')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect();
    match ob.native(&mut Native::new(lib), n("dims", 0), n("dims", 1), &bufs) { Some(w) => { println!("{}: {}", ob.title(), w); println!("the contract is broken on this input"); 1 } None => { println!("the contract holds on this input"); 0 } }
}
