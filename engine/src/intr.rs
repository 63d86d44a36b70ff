//! Semantics of external functions and LLVM / x86 intrinsics.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

fn kst(v: &V) -> R<u64> { match v { V::K(_, k) => Ok(*k), _ => Err("constant argument expected".into()) } }
fn vt(ty: &Ty) -> R<(u32, u8)> { match ty { Ty::Vec(n, t) => Ok((*n, t.bits() as u8)), _ => Err("vector type".into()) } }

pub fn ext(e: &mut Ex, n: &str, ty: &Ty, args: &[(Ty, O)], a: Vec<V>, f: &Func) -> R<Out> {
    let ret = |v: V| Ok(Out::Ret(v));
    if let Some(x) = n.strip_prefix("llvm.") {
        if x.starts_with("mem") && (e.is_plane(&a[0]) || e.is_plane(&a[1])) { e.touched = true; return Ok(Out::Div); }
        if x.starts_with("memcpy") || x.starts_with("memmove") {
            let k = match &a[2] { _ if e.gap.is_some() && (crate::gap::is_a(&a[0]) || crate::gap::is_a(&a[1]) || crate::gap::is_a(&a[2]) || e.zoned(&a[0]) || e.zoned(&a[1])) => e.gap_span(&a[0], Some(&a[1]), &a[2])?, V::K(_, k) => *k, _ => return Err("memcpy of symbolic length".into()) };
            return Ok(match e.xmemcpy(&a[0], &a[1], k)? { Some(_) => Out::Ret(V::Un), None => Out::Div });
        }
        if x.starts_with("memset") {
            if let V::P(id, _) | V::PS(id, _) = &a[0] { if e.obj(*id).map_or(false, |o| o.kind == K_OPAQUE) { return ret(V::Un); } }
            let k = if e.gap.is_some() && (crate::gap::is_a(&a[0]) || crate::gap::is_a(&a[2]) || e.zoned(&a[0])) { e.gap_span(&a[0], None, &a[2])? } else { kst(&a[2])? }; if k == 0 { return ret(V::Un); }
            let mut c = vec![]; e.to_cells(&Ty::Int(8), &a[1], &mut c)?;
            let d = if let V::PA(i, q) = &a[0] { V::P(*i, q.c) } else { a[0].clone() };
            return match &d { V::P(id, off) => Ok(match e.xwrite(*id, *off, &vec![c[0]; k as usize]) { Some(_) => Out::Ret(V::Un), None => Out::Div }), _ => Err("memset ptr".into()) };
        }
        if x == "trap" { e.violation("panic", format!("trap in {}", f.name)); return Ok(Out::Div); }
        if x.starts_with("load.relative") { return ret(V::Un); }
        if x.starts_with("is.constant") { return ret(V::K(1, 0)); }
        let two = |e: &mut Ex, op: Op, fl: bool| -> R<Out> {
            if let Ty::Vec(nn, t) = ty { let w = t.bits() as u8; let p = e.xlanes(&a[0], *nn, w)?; let q = e.xlanes(&a[1], *nn, w)?; let l = (0..p.len()).map(|i| if fl { e.st.fbin(op, p[i], q[i]) } else { e.st.bin(op, p[i], q[i]) }).collect(); return Ok(Out::Ret(V::Vec(Rc::new(l)))); }
            let w = ty.bits() as u8; let p = e.t(&a[0], w)?; let q = e.t(&a[1], w)?; let t = if fl { e.st.fbin(op, p, q) } else { e.st.bin(op, p, q) }; Ok(Out::Ret(e.mkv(t)))
        };
        let one = |e: &mut Ex, op: Op| -> R<Out> {
            if let Ty::Vec(nn, t) = ty { let w = t.bits() as u8; let src = match &args[0].0 { Ty::Vec(_, t) => t.bits() as u8, _ => w }; let p = e.xlanes(&a[0], *nn, src)?; let l = p.iter().map(|&z| e.st.un(op, w, z, 0)).collect(); return Ok(Out::Ret(V::Vec(Rc::new(l)))); }
            let w = ty.bits() as u8; let p = e.t(&a[0], args[0].0.bits() as u8)?; let t = e.st.un(op, w, p, 0); Ok(Out::Ret(e.mkv(t)))
        };
        let stem = x.split('.').next().unwrap();
        if stem != "masked" && a.iter().any(crate::gap::is_a) { return match e.gap_intr(stem, x, &a)? { Some(v) => ret(v), None => Err(format!("@aff {}", n)) }; }
        match stem {
            "umin" => return two(e, Op::UMin, false), "umax" => return two(e, Op::UMax, false), "smin" => return two(e, Op::SMin, false), "smax" => return two(e, Op::SMax, false),
            "minnum" | "minimumnum" => return two(e, Op::FMin, true), "maxnum" | "maximumnum" => return two(e, Op::FMax, true), "pow" => return two(e, Op::FPow, true),
            "round" => return one(e, Op::FRound), "roundeven" | "rint" | "nearbyint" => return one(e, Op::FRoundEven), "floor" => return one(e, Op::FFloor), "ceil" => return one(e, Op::FCeil), "trunc" => return one(e, Op::FTruncI), "sqrt" => return one(e, Op::FSqrt), "fabs" => return one(e, Op::FAbs),
            "fptosi" => return one(e, Op::FpToSi), "fptoui" => return one(e, Op::FpToUi),
            "usub" if x.contains("sat") => return two(e, Op::USubSat, false), "ssub" if x.contains("sat") => return two(e, Op::SSubSat, false), "uadd" if x.contains("sat") => return two(e, Op::UAddSat, false), "sadd" if x.contains("sat") => return two(e, Op::SAddSat, false),
            "fma" | "fmuladd" => {
                if let Ty::Vec(nn, t) = ty { let w = t.bits() as u8; let p = e.xlanes(&a[0], *nn, w)?; let q = e.xlanes(&a[1], *nn, w)?; let r = e.xlanes(&a[2], *nn, w)?; let l = (0..p.len()).map(|i| e.st.fma(p[i], q[i], r[i])).collect(); return ret(V::Vec(Rc::new(l))); }
                let w = ty.bits() as u8; let p = e.t(&a[0], w)?; let q = e.t(&a[1], w)?; let r = e.t(&a[2], w)?; let t = e.st.fma(p, q, r); return ret(e.mkv(t));
            }
            "abs" => {
                let abs1 = |e: &mut Ex, t: T| -> T { let w = e.st.w(t); let z = e.st.k(w, 0); let n = e.st.sub(z, t); let c = e.st.slt(t, z); e.st.ite(c, n, t) };
                if let Ty::Vec(nn, t) = ty { let w = t.bits() as u8; let p = e.xlanes(&a[0], *nn, w)?; let l = p.iter().map(|&z| abs1(e, z)).collect(); return ret(V::Vec(Rc::new(l))); }
                let w = ty.bits() as u8; let p = e.t(&a[0], w)?; let t = abs1(e, p); return ret(e.mkv(t));
            }
            "fshl" | "fshr" => {
                let one = |e: &mut Ex, p: T, q: T, s: T| -> R<T> { let w = e.st.w(p); let k = e.st.cv(s).ok_or("fsh symbolic")? % w as u64; let k = if stem == "fshl" { k } else { (w as u64 - k) % w as u64 }; if k == 0 { return Ok(if stem == "fshl" { p } else { q }); } let k = k as u8; let hi = e.st.extract(p, 0, w - k); let lo = e.st.extract(q, w - k, k); Ok(e.st.concat(hi, lo)) };
                if let Ty::Vec(nn, t) = ty { let w = t.bits() as u8; let p = e.xlanes(&a[0], *nn, w)?; let q = e.xlanes(&a[1], *nn, w)?; let s = e.xlanes(&a[2], *nn, w)?; let mut l = vec![]; for i in 0..p.len() { l.push(one(e, p[i], q[i], s[i])?) } return ret(V::Vec(Rc::new(l))); }
                let w = ty.bits() as u8; let p = e.t(&a[0], w)?; let q = e.t(&a[1], w)?; let s = e.t(&a[2], w)?; let t = one(e, p, q, s)?; return ret(e.mkv(t));
            }
            "bswap" => {
                let sw = |e: &mut Ex, t: T| -> T { let w = e.st.w(t); let nb = w / 8; let mut r = e.st.extract(t, w - 8, 8); for i in (0..nb - 1).rev() { let b = e.st.extract(t, i * 8, 8); r = e.st.concat(b, r) } r };
                if let Ty::Vec(nn, t) = ty { let w = t.bits() as u8; let p = e.xlanes(&a[0], *nn, w)?; let l = p.iter().map(|&z| sw(e, z)).collect(); return ret(V::Vec(Rc::new(l))); }
                let w = ty.bits() as u8; let p = e.t(&a[0], w)?; let t = sw(e, p); return ret(e.mkv(t));
            }
            "ctpop" | "ctlz" | "cttz" => {
                if let V::K(w, k) = a[0] { let r = match stem { "ctpop" => k.count_ones(), "ctlz" => k.leading_zeros() - (64 - w as u32), _ => k.trailing_zeros().min(w as u32) }; return ret(V::K(w, r as u64)); }
                return Err("ctpop symbolic".into());
            }
            "umul" | "uadd" | "usub" | "smul" | "sadd" | "ssub" if x.contains("overflow") => {
                if let (V::K(w, p), V::K(_, q)) = (&a[0], &a[1]) {
                    let (w, p, q) = (*w, *p, *q); let m = mask(w) as i128; let (sp, sq) = (sx(p, w) as i128, sx(q, w) as i128); let (up, uq) = (p as i128, q as i128);
                    let (r, o) = match stem { "uadd" => (up + uq, up + uq > m), "usub" => (up - uq, up < uq), "umul" => { let r = (p as u128) * (q as u128); ((r & m as u128) as i128, r > m as u128) }
                        _ => { let r = match stem { "sadd" => sp + sq, "ssub" => sp - sq, _ => sp * sq }; let hi = m >> 1; (r, r > hi || r < -hi - 1) } };
                    return ret(V::Agg(Rc::new(vec![V::K(w, r as u64 & mask(w)), V::K(1, o as u64)])));
                }
                if matches!(stem, "umul" | "uadd") { let w = ty_w(&args[0].0); let (p, q) = (e.t(&a[0], w)?, e.t(&a[1], w)?); let (r, o) = if stem == "umul" { (e.st.bin(Op::Mul, p, q), e.st.bin(Op::UMulOv, p, q)) } else { (e.st.add(p, q), e.st.bin(Op::UAddOv, p, q)) }; return ret(V::Agg(Rc::new(vec![e.mkv(r), e.mkv(o)]))); }
                return Err(format!("{} symbolic", n));
            }
            "masked" => {
                if x.starts_with("masked.load") {
                    let (nn, w) = vt(ty)?; let m = e.xlanes(&a[2], nn, 1)?; let pt = e.xlanes(&a[3], nn, w)?; let at = masked_ptr(e, &a[0])?;
                    let mut l = vec![]; let b = w as i64 / 8; let et = Ty::Int(w as u16);
                    for i in 0..nn as usize { match e.st.cv(m[i]) { Some(0) => l.push(pt[i]), Some(_) => { let v = e.load(&et, &at(i as i64 * b))?; match v { Some(v) => { let t = e.t(&v, w)?; l.push(t) } None => return Ok(Out::Div) } } None => return Err("symbolic mask".into()) } }
                    return ret(V::Vec(Rc::new(l)));
                }
                let (nn, w) = vt(&args[0].0)?; let v = e.xlanes(&a[0], nn, w)?; let m = e.xlanes(&a[3], nn, 1)?; let at = masked_ptr(e, &a[1])?;
                let b = w as i64 / 8; let et = Ty::Int(w as u16);
                for i in 0..nn as usize { match e.st.cv(m[i]) { Some(0) => {} Some(_) => { let x = e.mkv(v[i]); if e.store(&et, &x, &at(i as i64 * b))?.is_none() { return Ok(Out::Div); } } None => return Err("symbolic mask".into()) } }
                return ret(V::Un);
            }
            "x86" => return x86(e, x, ty, args, a),
            _ => return Err(format!("intrinsic {}", n)),
        }
    }
    if n.contains("__rust_alloc") { if let V::A(_, q) = &a[0] { let q = q.clone(); return ret(e.gap_alloc(&q, n.contains("zeroed"))?); } if e.path.is_some() && kst(&a[0]).is_err() { let id = e.alloc(vec![], K_OPAQUE, 0); return ret(V::P(id, 0)); } let z = n.contains("zeroed"); let k = kst(&a[0])?; if k > 1 << 26 { return Err("huge allocation".into()); } let id = e.alloc(vec![if z { c_byte(0) } else { C_UN }; k as usize], K_HEAP, 0); return ret(V::P(id, 0)); }
    if n.contains("__rust_dealloc") { if let V::P(id, _) = a[0] { e.free(id) } return ret(V::Un); }
    if n.contains("__rust_realloc") { let k = kst(&a[3])?; let o = kst(&a[1])?; let id = e.alloc(vec![C_UN; k as usize], K_HEAP, 0); let np = V::P(id, 0); if e.xmemcpy(&np, &a[0], o.min(k))?.is_none() { return Ok(Out::Div); } return ret(np); }
    if n.contains("rust_no_alloc_shim") { return ret(V::Un); }
    if n.contains("panic") || n.contains("slice_end_index_len_fail") || n.contains("slice_start_index_len_fail") || n.contains("slice_index_order_fail") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("handle_error") || n.contains("handle_alloc_error") || n.contains("capacity_overflow") || n.contains("assert_failed") || n.contains("something_went_wrong") || n.contains("len_mismatch_fail") {
        let short = n.trim_start_matches("_ZN").chars().take(60).collect::<String>();
        e.violation("panic", format!("{} called from {}", short, f.name)); return Ok(Out::Div);
    }
    if n == "powf" { let p = e.t(&a[0], 32)?; let q = e.t(&a[1], 32)?; let t = e.st.fbin(Op::FPow, p, q); return ret(e.mkv(t)); }
    if n == "memcmp" || n == "bcmp" { return Err("memcmp".into()); }
    if n.contains("std_detect") && n.contains("detect_and_initialize") { let d = e.detect; let mut c = vec![]; for i in 0..8 { c.push(c_byte((d >> (8 * i)) as u8)) } for _ in 0..8 { c.push(c_byte(0)) } return ret(V::W(Rc::new(c))); }
    Err(format!("external function {}", n))
}

fn clamp_s(e: &mut Ex, t: T, lo: i64, hi: i64, w: u8) -> T { let tw = e.st.w(t); let h = e.st.k(tw, hi as u64); let l = e.st.k(tw, lo as u64); let a = e.st.bin(Op::SMin, t, h); let b = e.st.bin(Op::SMax, a, l); e.st.extract(b, 0, w) }

fn x86(e: &mut Ex, x: &str, ty: &Ty, args: &[(Ty, O)], a: Vec<V>) -> R<Out> {
    let ok = |l: Vec<T>| Ok(Out::Ret(V::Vec(Rc::new(l))));
    let pack = |e: &mut Ex, us: bool, wi: u8| -> R<Out> {
        let (n, _) = vt(&args[0].0)?; let p = e.xlanes(&a[0], n, wi)?; let q = e.xlanes(&a[1], n, wi)?; let per = 128 / wi as usize; let wo = wi / 2;
        let (lo, hi) = if us { (0, mask(wo) as i64) } else { (-(1i64 << (wo - 1)), (1i64 << (wo - 1)) - 1) };
        let mut l = vec![];
        for b in 0..(n as usize / per) { for v in [&p, &q] { for i in 0..per { l.push(clamp_s(e, v[b * per + i], lo, hi, wo)) } } }
        ok(l)
    };
    if x.contains("packuswb") { return pack(e, true, 16); }
    if x.contains("packusdw") { return pack(e, true, 32); }
    if x.contains("packsswb") { return pack(e, false, 16); }
    if x.contains("packssdw") { return pack(e, false, 32); }
    if x.contains("pmul.hr.sw") {
        let (n, _) = vt(ty)?; let p = e.xlanes(&a[0], n, 16)?; let q = e.xlanes(&a[1], n, 16)?; let r = e.st.k(32, 0x4000);
        let mut l = vec![]; for i in 0..n as usize { let s = e.st.sext(p[i], 32); let t = e.st.sext(q[i], 32); let m = e.st.mul(s, t); let m = e.st.add(m, r); l.push(e.st.extract(m, 15, 16)) } return ok(l);
    }
    if x.contains("pmulh.w") || x.contains("pmulhu.w") {
        let (n, _) = vt(ty)?; let u = x.contains("pmulhu"); let p = e.xlanes(&a[0], n, 16)?; let q = e.xlanes(&a[1], n, 16)?;
        let mut l = vec![]; for i in 0..n as usize { let (s, t) = if u { (e.st.zext(p[i], 32), e.st.zext(q[i], 32)) } else { (e.st.sext(p[i], 32), e.st.sext(q[i], 32)) }; let m = e.st.mul(s, t); l.push(e.st.extract(m, 16, 16)) } return ok(l);
    }
    if x.contains("pmadd.wd") || x.contains("pmaddw.d") {
        let (n, _) = vt(ty)?; let p = e.xlanes(&a[0], 2 * n, 16)?; let q = e.xlanes(&a[1], 2 * n, 16)?; let mut l = vec![];
        for i in 0..n as usize { let m = dot2(e, &p, &q, i); l.push(m) } return ok(l);
    }
    if x.contains("pmadd.ub.sw") || x.contains("pmaddubs.w") {
        let (n, _) = vt(ty)?; let p = e.xlanes(&a[0], 2 * n, 8)?; let q = e.xlanes(&a[1], 2 * n, 8)?; let mut l = vec![];
        for i in 0..n as usize { let s = { let u = e.st.zext(p[2 * i], 32); let v = e.st.sext(q[2 * i], 32); e.st.mul(u, v) }; let t = { let u = e.st.zext(p[2 * i + 1], 32); let v = e.st.sext(q[2 * i + 1], 32); e.st.mul(u, v) }; let m = e.st.add(s, t); l.push(clamp_s(e, m, -32768, 32767, 16)) } return ok(l);
    }
    if x.contains("vpdpwssd") && !x.contains("vpdpwssds") {
        let (n, _) = vt(ty)?; let acc = e.xlanes(&a[0], n, 32)?; let p = split(e, &a[1], &args[1].0, 16)?; let q = split(e, &a[2], &args[2].0, 16)?; let mut l = vec![];
        for i in 0..n as usize { let m = dot2(e, &p, &q, i); l.push(e.st.add(acc[i], m)) } return ok(l);
    }
    if x.contains("vpdpbusd") && !x.contains("vpdpbusds") {
        let (n, _) = vt(ty)?; let acc = e.xlanes(&a[0], n, 32)?; let p = split(e, &a[1], &args[1].0, 8)?; let q = split(e, &a[2], &args[2].0, 8)?; let mut l = vec![];
        for i in 0..n as usize { let mut s = acc[i]; for j in 0..4 { let u = e.st.zext(p[4 * i + j], 32); let v = e.st.sext(q[4 * i + j], 32); let m = e.st.mul(u, v); s = e.st.add(s, m) } l.push(s) } return ok(l);
    }
    if x.contains("phadd.w") || x.contains("phadd.d") {
        let (n, w) = vt(ty)?; let p = e.xlanes(&a[0], n, w)?; let q = e.xlanes(&a[1], n, w)?; let per = 128 / w as usize; let mut l = vec![];
        for b in 0..n as usize / per { for v in [&p, &q] { for i in 0..per / 2 { l.push(e.st.add(v[b * per + 2 * i], v[b * per + 2 * i + 1])) } } } return ok(l);
    }
    if x.contains("pshuf.b") {
        let (n, _) = vt(ty)?; let p = e.xlanes(&a[0], n, 8)?; let q = e.xlanes(&a[1], n, 8)?; let mut l = vec![];
        for i in 0..n as usize { match e.st.cv(q[i]) { Some(k) => l.push(if k & 0x80 != 0 { e.st.k(8, 0) } else { p[(i & !15) + (k & 15) as usize] }), None => return Err("pshufb with symbolic mask".into()) } } return ok(l);
    }
    if x.contains("vpermi2var") || x.contains("vpermt2var") {
        let (n, w) = vt(ty)?; let p = e.xlanes(&a[0], n, w)?; let iw = w; let ix = e.xlanes(&a[1], n, iw)?; let q = e.xlanes(&a[2], n, w)?; let mut l = vec![];
        for i in 0..n as usize { match e.st.cv(ix[i]) { Some(k) => { let k = (k as usize) & (2 * n as usize - 1); l.push(if k < n as usize { p[k] } else { q[k - n as usize] }) } None => return Err("vperm with symbolic index".into()) } } return ok(l);
    }
    if x.contains("permvar") {
        let (n, w) = vt(ty)?; let p = e.xlanes(&a[0], n, w)?; let ix = e.xlanes(&a[1], n, w)?; let mut l = vec![];
        for i in 0..n as usize { match e.st.cv(ix[i]) { Some(k) => l.push(p[k as usize & (n as usize - 1)]), None => return Err("permvar".into()) } } return ok(l);
    }
    if x.contains("vcvtps2ph") { let (n, _) = vt(&args[0].0)?; let p = e.xlanes(&a[0], n, 32)?; let mut l = vec![]; for i in 0..n as usize { l.push(e.st.un(Op::FpTrunc, 16, p[i], 0)) } while l.len() < vt(ty)?.0 as usize { l.push(e.st.k(16, 0)) } return ok(l); }
    if x.contains("vcvtph2ps") { let (n, _) = vt(ty)?; let (m, _) = vt(&args[0].0)?; let p = e.xlanes(&a[0], m, 16)?; let mut l = vec![]; for i in 0..n as usize { l.push(e.st.un(Op::FpExt, 32, p[i], 0)) } return ok(l); }
    if x.contains("round.ps") { let (n, _) = vt(ty)?; let p = e.xlanes(&a[0], n, 32)?; let op = match kst(&a[1])? & 7 { 0 | 4 => Op::FRoundEven, 1 => Op::FFloor, 2 => Op::FCeil, _ => Op::FTruncI }; let l = p.iter().map(|&t| e.st.un(op, 32, t, 0)).collect(); return ok(l); }
    if x.contains("cvtps2dq") { let (n, _) = vt(ty)?; let p = e.xlanes(&a[0], n, 32)?; let mut l = vec![]; for i in 0..n as usize { let r = e.st.un(Op::FRoundEven, 32, p[i], 0); l.push(e.st.un(Op::FpToSi, 32, r, 0)) } return ok(l); }
    if x.contains("pavg") { let (n, w) = vt(ty)?; let p = e.xlanes(&a[0], n, w)?; let q = e.xlanes(&a[1], n, w)?; let one = e.st.k(32, 1); let mut l = vec![]; for i in 0..n as usize { let u = e.st.zext(p[i], 32); let v = e.st.zext(q[i], 32); let s = e.st.add(u, v); let s = e.st.add(s, one); l.push(e.st.extract(s, 1, w)) } return ok(l); }
    Err(format!("intrinsic llvm.{}", x))
}
fn dot2(e: &mut Ex, p: &[T], q: &[T], i: usize) -> T { let s = { let u = e.st.sext(p[2 * i], 32); let v = e.st.sext(q[2 * i], 32); e.st.mul(u, v) }; let t = { let u = e.st.sext(p[2 * i + 1], 32); let v = e.st.sext(q[2 * i + 1], 32); e.st.mul(u, v) }; e.st.add(s, t) }
fn split(e: &mut Ex, v: &V, ty: &Ty, w: u8) -> R<Vec<T>> {
    let mut c = vec![]; e.to_cells(ty, v, &mut c)?; let b = w as usize / 8;
    let mut o = vec![]; for ch in c.chunks(b) { o.push(e.from_cells(ch, w)) } Ok(o)
}

fn ty_w(t: &Ty) -> u8 { t.bits() as u8 }

/// the lanes of a masked access
fn masked_ptr(_e: &Ex, p: &V) -> R<Box<dyn Fn(i64) -> V>> {
    match p { V::P(i, o) => { let (i, o) = (*i, *o); Ok(Box::new(move |k| V::P(i, o + k))) } V::PA(i, a) => { let (i, a) = (*i, a.clone()); Ok(Box::new(move |k| crate::gap::mkpa(i, a.add(&crate::gap::Aff::k(k))))) } _ => Err("masked ptr".into()) }
}
