//! Runs the compiled library itself (libshim.so, built from the same sources in the same build as the
//! IR) in a child process, with every buffer ending at an inaccessible page.
use crate::decide::*;
use crate::exec::*;
use crate::run::*;
use crate::spec::*;
use crate::term::*;
use std::ffi::{c_char, c_int, c_void, CString};
use std::io::{Read, Write};
extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void; fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void; fn munmap(a: *mut c_void, l: usize) -> c_int; fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
}
#[repr(C)] struct Buf { ptr: *mut u8, len: usize, stride: usize }
#[repr(C)] struct A { p: [Buf; 6], d: [(usize, usize); 2], ws: [u32; 10] }

fn rd(i: &mut impl Read) -> Option<u64> { let mut b = [0u8; 8]; i.read_exact(&mut b).ok()?; Some(u64::from_le_bytes(b)) }
fn wr(o: &mut Vec<u8>, v: u64) { o.extend(v.to_le_bytes()) }

/// child side: serve requests until stdin closes
pub fn serve(lib: &str) {
    unsafe {
        // "A,B": the names kp_* are the k_* of the second library
        let libs: Vec<(*mut c_void, extern "C" fn(u64))> = lib.split(',').map(|l| { let h = dlopen(CString::new(l).unwrap().as_ptr(), 2); if h.is_null() { std::process::exit(3) }
            let sd = dlsym(h, c"shim_set_detect".as_ptr()); if sd.is_null() { std::process::exit(3) } (h, std::mem::transmute::<*mut c_void, extern "C" fn(u64)>(sd)) }).collect();
        let mut i = std::io::stdin().lock(); let mut o = std::io::stdout().lock();
        while let Some(bits) = rd(&mut i) {
            let nl = rd(&mut i).unwrap() as usize; let mut n = vec![0u8; nl]; i.read_exact(&mut n).unwrap();
            let mut a: A = std::mem::zeroed();
            for k in 0..2 { a.d[k] = (rd(&mut i).unwrap() as usize, rd(&mut i).unwrap() as usize) }
            for k in 0..10 { a.ws[k] = rd(&mut i).unwrap() as u32 }
            let np = rd(&mut i).unwrap() as usize; let mut maps = vec![];
            for k in 0..6 { a.p[k].ptr = 64 as *mut u8; if k >= np { continue; }
                let (len, stride, bytes) = (rd(&mut i).unwrap() as usize, rd(&mut i).unwrap() as usize, rd(&mut i).unwrap() as usize);
                let pages = bytes.div_ceil(4096) + 1; let m = mmap(std::ptr::null_mut(), (pages + 1) * 4096, 3, 0x22, -1, 0) as *mut u8;
                mprotect(m.add(pages * 4096) as *mut c_void, 4096, 0);
                let p = m.add(pages * 4096 - bytes); let s = std::slice::from_raw_parts_mut(p, bytes); i.read_exact(s).unwrap();
                a.p[k] = Buf { ptr: p, len, stride }; maps.push((m, (pages + 1) * 4096, p, bytes)); }
            let second = n.starts_with(b"kp_") && libs.len() > 1; let (h, sd) = libs[second as usize]; if second { n.remove(1); }
            sd(bits);
            let f = dlsym(h, CString::new(n).unwrap().as_ptr());
            let ret = if f.is_null() { 77 } else { let f: extern "C" fn(&A) -> u32 = std::mem::transmute(f); f(&a) };
            let mut out = vec![]; wr(&mut out, ret as u64); for &(_, _, p, b) in &maps { out.extend(std::slice::from_raw_parts(p, b)) }
            o.write_all(&out).unwrap(); o.flush().unwrap();
            for (m, l, _, _) in maps { munmap(m as *mut c_void, l); }
        }
    }
}

pub struct Native { lib: String, ch: Option<std::process::Child> }
#[derive(Debug)]
pub enum NRes { Ret(u32, Vec<Vec<u8>>), Crash }
impl Native {
    pub fn new(lib: &str) -> Native { Native { lib: lib.into(), ch: None } }
    pub fn run(&mut self, name: &str, bits: u64, bufs: &[(usize, usize, Vec<u8>)], d: [(usize, usize); 2], ws: [u32; 10]) -> NRes {
        if self.ch.is_none() { self.ch = Some(std::process::Command::new(std::env::current_exe().unwrap()).arg("native").arg(&self.lib).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap()); }
        let ch = self.ch.as_mut().unwrap();
        let mut q = vec![]; wr(&mut q, bits); wr(&mut q, name.len() as u64); q.extend(name.as_bytes());
        for (w, h) in d { wr(&mut q, w as u64); wr(&mut q, h as u64) } for w in ws { wr(&mut q, w as u64) }
        wr(&mut q, bufs.len() as u64);
        for (l, s, b) in bufs { wr(&mut q, *l as u64); wr(&mut q, *s as u64); wr(&mut q, b.len() as u64); q.extend(b) }
        let r = (|| -> Option<NRes> { let si = ch.stdin.as_mut()?; si.write_all(&q).ok()?; si.flush().ok()?; let so = ch.stdout.as_mut()?; let ret = rd(so)?; let mut o = vec![]; for (_, _, b) in bufs { let mut v = vec![0u8; b.len()]; so.read_exact(&mut v).ok()?; o.push(v) } Some(NRes::Ret(ret as u32, o)) })();
        match r { Some(x) => x, None => { let _ = ch.kill(); let _ = ch.wait(); self.ch = None; NRes::Crash } }
    }
}
impl Drop for Native { fn drop(&mut self) { if let Some(c) = self.ch.as_mut() { drop(c.stdin.take()); let _ = c.wait(); } } }

/// concrete value of a term under an assignment of the samples
pub fn evalt(st: &Store, t: T, env: &dyn Fn(u32, u64, u8) -> u64, memo: &mut FxMap<T, u64>) -> u64 {
    if let Some(&v) = memo.get(&t) { return v; }
    let mut stack = vec![(t, false)];
    while let Some((x, done)) = stack.pop() {
        if memo.contains_key(&x) { continue; }
        let n = st.node(x); let (k, c) = st.kids(x);
        if !done { stack.push((x, true)); for i in 0..c { stack.push((k[i], false)) } continue; }
        let g = |i: usize| if i < c { memo[&k[i]] } else { 0 }; let ww = |i: usize| if i < c { st.w(k[i]) } else { 0 };
        let v = match n.op { Op::Var => env(n.a, n.k, n.w) & mask(n.w), Op::Table => *st.tables[n.k as usize].1.get(g(0) as usize).unwrap_or(&0), _ => eval_op(n.op, n.w, ww(0), ww(1), n.k, g(0), g(1), g(2)) };
        memo.insert(x, v);
    }
    memo[&t]
}
/// initial bytes of every buffer of a case
pub fn buffers(st: &mut Store, f: &Fun, c: &Case, pl: &[Plane], env: &dyn Fn(u32, u64, u8) -> u64) -> Vec<(usize, usize, Vec<u8>)> {
    let (pr, _, _) = a_bytes(f, c, pl); let mut memo = FxMap::default();
    pl.iter().enumerate().map(|(i, q)| { let cells = plane_cells(st, f, &c.p, q, i); let b = cells.iter().map(|&x| cell_byte(st, x, env, &mut memo)).collect(); (pr[i].0, pr[i].1, b) }).collect()
}
fn cell_byte(st: &Store, x: Cell, env: &dyn Fn(u32, u64, u8) -> u64, memo: &mut FxMap<T, u64>) -> u8 { match cell_term(x) { Some((t, b)) => (evalt(st, t, env, memo) >> (8 * b)) as u8, None => x as u8 } }
pub fn view_val(st: &mut Store, e: &Exp, bits: u64, w: u8) -> f64 {
    match e { Exp::Lin(v, _) => { let k = st.k(w, bits); let (t, sgn, sc, _) = view(st, k, *v); let b = st.cv(t).unwrap(); let tw = st.w(t); match sgn { Some(0) => b as f64, Some(_) => sx(b, tw) as f64, None => f2d(b, tw) * sc } } _ => bits as f64 }
}
/// checks one concrete element against its contract
pub fn holds(st: &mut Store, e: &Exp, bits: u64, w: u8, tol: f64, env: &dyn Fn(u32, u64, u8) -> u64) -> Result<(), (f64, f64, f64)> {
    let mut memo = FxMap::default();
    match e {
        Exp::Any => Ok(()),
        Exp::Exact(t) => { let v = evalt(st, *t, env, &mut memo); if v == bits { Ok(()) } else { Err((bits as f64, v as f64, v as f64)) } }
        Exp::Lin(_, l) => { let g = view_val(st, e, bits, w); let mut vs: Vec<T> = l.co.iter().map(|x| x.0).collect(); if let Some((a, _)) = l.mul { vs.push(a) } if let Some((a, _, _)) = l.floor { vs.push(a) } let vals: Vec<u64> = vs.iter().map(|&v| evalt(st, v, env, &mut memo)).collect(); let (lo, hi) = lin_at(l, &vs, &vals); let d = if g < lo { lo - g } else if g > hi { g - hi } else { 0. }; if d <= tol + 1e-9 { Ok(()) } else { Err((g, lo, hi)) } }
        Exp::Half { var, max } | Exp::UnHalf { var, max } => { let i = evalt(st, *var, env, &mut memo); let (o, wt, d) = half_err(matches!(e, Exp::Half { .. }), bits, w, i, *max); if d <= tol + 1e-9 { Ok(()) } else { Err((o, wt, wt)) } }
        Exp::Choice(l) => { let mut r = Ok(()); for q in l { r = holds(st, q, bits, w, if matches!(q, Exp::Exact(_)) { 0. } else { tol }, env); if r.is_ok() { return r; } } r }
        Exp::Light(l) => { let v = bits as f64; let e = l.at(&|x| evalt(st, x, env, &mut FxMap::default())); if (v - e).abs() <= tol + 1e-9 && v >= l.lo && v <= l.hi { Ok(()) } else { Err((v, e, e)) } }
    }
}
#[derive(Debug)]
pub struct NFail { pub plane: usize, pub idx: usize, pub kind: &'static str, pub class: &'static str, pub detail: String }
/// one native run checked against the contract, for a given assignment of all samples
pub fn native_check(nat: &mut Native, st: &mut Store, f: &Fun, c: &Case, tol: &Tol, env: &dyn Fn(u32, u64, u8) -> u64) -> (Vec<NFail>, NRes) {
    let pl = layout(f, &c.p, c.w, c.h, c.pad, c.lay); let bufs = buffers(st, f, c, &pl, env); let (_, d, ws) = a_bytes(f, c, &pl);
    let r = nat.run(&format!("k_{}", f.name), ISAS[c.isa].bits, &bufs, d, ws); let mut fl = vec![]; let mut second: Option<(Vec<(usize, usize, Vec<u8>)>, NRes)> = None;
    match &r {
        NRes::Crash => fl.push(NFail { plane: 0, idx: 0, kind: "crash", class: "call", detail: "the call crashed or panicked".into() }),
        NRes::Ret(0, out) => for (pi, q) in pl.iter().enumerate() {
            if !q.write { if out[pi] != bufs[pi].2 { fl.push(NFail { plane: pi, idx: 0, kind: "frame", class: "frame", detail: "a source buffer was modified".into() }) } continue; }
            for i in 0..q.len { let (y, x) = (i / q.stride, i % q.stride); {
                let o = i * q.eb; let mut bits = 0u64; for k in 0..q.eb { bits |= (out[pi][o + k] as u64) << (8 * k) }
                if x >= q.row || y >= q.rows { if out[pi][o..o + q.eb] != bufs[pi].2[o..o + q.eb] { fl.push(NFail { plane: pi, idx: i, kind: "frame", class: "frame", detail: format!("padding element ({},{}) of {} modified", x, y, q.field) }) } continue; }
                let es = Ctx { f, p: &c.p, w: c.w, h: c.h, pl: &pl, st: &mut *st }.expect(pi, x, y);
                if (tol.want)(f, c, "unwritten") { if out[pi][o..o + q.eb] == bufs[pi].2[o..o + q.eb] {
                    // unchanged: is it with another initial content too?
                    if second.is_none() { let mut b2 = bufs.clone(); for (k, z) in pl.iter().enumerate() { if z.write { for v in b2[k].2.iter_mut() { *v ^= 0x15 } } } let r2 = nat.run(&format!("k_{}", f.name), ISAS[c.isa].bits, &b2, d, ws); second = Some((b2, r2)); }
                    if let Some((b2, NRes::Ret(0, o2))) = &second { if o2[pi][o..o + q.eb] == b2[pi].2[o..o + q.eb] { fl.push(NFail { plane: pi, idx: i, kind: "unwritten", class: "frame", detail: format!("pixel element ({},{}) of {} is never written", x, y, q.field) }) } } } }
                let cl = class(f, q, x); if !(tol.want)(f, c, cl) { continue; }
                for e in &es { let t = if matches!(e, Exp::Exact(_)) { 0. } else { (tol.f)(f, c, cl) }; if let Err((g, lo, hi)) = holds(st, e, bits, q.eb as u8 * 8, t, env) { fl.push(NFail { plane: pi, idx: i, kind: "value", class: cl, detail: format!("{} element ({},{}): got {} where the contract requires {}..{} (tolerance {})", q.field, x, y, g, lo, hi, t) }) } }
            } } }
        NRes::Ret(k, _) => fl.push(NFail { plane: 0, idx: 0, kind: "accepted", class: "call", detail: format!("a well-formed image is rejected (code {})", k) }),
    }
    (fl, r)
}
pub fn rand_env(seed: u64, style: u32) -> impl Fn(u32, u64, u8) -> u64 { move |p, i, w| { let mut r = Rng(seed ^ (p as u64) << 40 ^ i.wrapping_mul(0x9E3779B97F4A7C15) | 1); r.next(); r.next(); let x = r.next(); let m = mask(w); match style % 3 { 0 => (x >> 11) & m, 1 => if x >> 40 & 1 == 1 { m } else { 0 }, _ => match x >> 50 & 7 { 0 => 0, 1 => m, 2 => m / 2, 3 => m / 2 + 1, _ => (x >> 13) & m } } } }

/// differential validation of the engine: symbolic output evaluated on an input versus the native output
pub fn validate(ex: &mut Ex, nat: &mut Native, f: &Fun, c: &Case, seed: u64) -> Result<u64, String> {
    ex.reset_store(); ex.set_detect(ISAS[c.isa].bits);
    let fu = ex.prog.func(0, &format!("k_{}", f.name)).ok_or("wrapper missing")?;
    let s = setup(ex, f, c)?; let out = ex.call(&fu, vec![V::P(s.aobj, 0)])?;
    let code = match out { Out::Ret(V::K(_, k)) => k as u32, Out::Div => return Err("symbolic run panics".into()), _ => return Err("return value".into()) };
    let mut n = 0;
    for sd in 0..3u32 { let env = rand_env(seed + sd as u64 * 77, sd); let bufs = buffers(&mut ex.st, f, c, &s.pl, &env); let (_, d, ws) = a_bytes(f, c, &s.pl);
        match nat.run(&format!("k_{}", f.name), ISAS[c.isa].bits, &bufs, d, ws) {
            NRes::Crash => return Err("native run crashed".into()),
            NRes::Ret(k, o) => { if k != code { return Err(format!("return codes differ: symbolic {} native {}", code, k)); }
                let mut memo = FxMap::default();
                for (pi, _) in s.pl.iter().enumerate() { let cells = ex.obj(s.objs[pi]).unwrap().cells.clone(); for (i, &x) in cells.iter().enumerate() { let b = cell_byte(&ex.st, x, &env, &mut memo); n += 1; if b != o[pi][i] { return Err(format!("buffer {} byte {}: symbolic {} native {}", pi, i, b, o[pi][i])); } } } }
        } }
    Ok(n)
}
