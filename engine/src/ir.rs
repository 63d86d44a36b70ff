//! Parser for the textual LLVM IR rustc emits (only what it emits).
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Half, Float, Double, Ptr, Vec(u32, Box<Ty>), Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Other }
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two() }
            Ty::Half => 2, Ty::Float => 4, Ty::Double => 8, Ty::Ptr => 8,
            Ty::Vec(n, t) => { match **t { Ty::Int(1) => (*n as u64 + 7) / 8, _ => *n as u64 * t.size() } }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, p) => { let mut o = 0; let mut al = 1; for t in v { let a = if *p { 1 } else { t.align() }; al = al.max(a); o = (o + a - 1) / a * a; o += t.size() } (o + al - 1) / al * al }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self { Ty::Arr(_, t) => t.align(), Ty::Struct(v, p) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) }, Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16), Ty::Void | Ty::Other => 1, t => t.size().min(64).max(1) }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(v, p) => { let mut o = 0; for (j, t) in v.iter().enumerate() { let a = if *p { 1 } else { t.align() }; o = (o + a - 1) / a * a; if j == i { return (o, t); } o += t.size() } panic!() }
            Ty::Arr(_, t) => (i as u64 * t.size(), t),
            Ty::Vec(_, t) => (i as u64 * t.size(), t),
            _ => panic!("field_off {:?}", self),
        }
    }
    /// scalar bit width for ints and floats
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Half => 16, Ty::Float => 32, Ty::Double => 64, Ty::Ptr => 64, _ => 0 } }
    pub fn is_float(&self) -> bool { matches!(self, Ty::Half | Ty::Float | Ty::Double) }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u16, u64), Big(u16, Vec<u64>), Null, Undef, Zero, Vec(Vec<C>), Agg(Vec<C>), Str(Vec<u8>), Splat(Box<C>),
    Global(Arc<str>), Gep(Box<C>, i64), PtrToInt(Box<C>), IntToPtr(Box<C>), Bin(u8, Box<C>, Box<C>), Trunc(Box<C>, u16),
}
#[derive(Clone, Debug)]
pub enum O { R(u32), K(Ty, C) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { ZExt, SExt, Trunc, BitCast, PtrToInt, IntToPtr, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Debug)]
pub enum I {
    Phi(Ty, Vec<(O, u32)>),
    Bin(B, Ty, O, O),
    ICmp(P, Ty, O, O),
    FCmp(u64, Ty, O, O),
    FNeg(Ty, O),
    Cast(CastOp, Ty, O, Ty),
    Select(Ty, bool, O, O, O),
    Gep(O, Ty, Vec<(Ty, O)>),
    Load(Ty, O),
    Store(Ty, O, O),
    Alloca(u64),
    Call(Ty, O, Vec<(Ty, O)>, Option<u32>), // invoke: normal dest
    ExtractValue(Ty, O, Vec<u32>),
    InsertValue(Ty, O, Ty, O, Vec<u32>),
    ExtractElement(Ty, O, O),
    InsertElement(Ty, O, O, O),
    Shuffle(Ty, O, O, Vec<i32>),
    Freeze(Ty, O),
    Br(u32), CondBr(O, u32, u32), Switch(Ty, O, u32, Vec<(u64, u32)>),
    Ret(Ty, Option<O>), Unreachable, Resume, LandingPad,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Inst { pub dst: u32, pub i: I }
pub const NOREG: u32 = u32::MAX;
#[derive(Debug)]
pub struct Func { pub name: String, pub params: Vec<(Ty, u32)>, pub ret: Ty, pub nregs: usize, pub regnames: Vec<String>, pub blocks: Vec<Vec<Inst>>, pub bnames: Vec<String>, pub byval: Vec<u64>, pub file: usize, pub ipdom: Vec<u32> }

pub struct Global { pub ty: Ty, pub init: Option<C>, pub constant: bool }
pub struct FnText { pub file: usize, pub start: usize, pub end: usize }
pub struct Module { pub files: Vec<String>, pub fns: HashMap<String, FnText>, pub local: HashMap<(usize, String), FnText>, pub globals_text: HashMap<(usize, String), (usize, usize)>, pub globals: HashMap<String, (usize, usize, usize)>, pub aliases: HashMap<String, (usize, String)> }

pub fn load(dir: &str) -> Module {
    let mut m = Module { files: vec![], fns: HashMap::new(), local: HashMap::new(), globals_text: HashMap::new(), globals: HashMap::new(), aliases: HashMap::new() };
    // "A,B": two builds of the library; the wrappers k_* of the second become kp_*
    for (k, dir) in dir.split(',').enumerate() {
        let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|x| x == "ll").unwrap_or(false) && !p.file_name().unwrap().to_string_lossy().starts_with("autocfg")).collect();
        names.sort();
        for p in names { let mut t = std::fs::read_to_string(&p).unwrap(); if k > 0 && p.file_name().unwrap().to_string_lossy().starts_with("shim") { t = t.replace("@k_", "@kp_") } m.files.push(t); }
    }
    for fi in 0..m.files.len() {
        let s = m.files[fi].as_bytes();
        let mut pos = 0;
        let mut adds = vec![]; let mut gl = vec![];
        while pos < s.len() {
            let eol = memchr(b'\n', &s[pos..]).map(|x| pos + x).unwrap_or(s.len());
            let line = &s[pos..eol];
            if line.starts_with(b"define ") {
                // name
                let at = find_at(line).unwrap();
                let (name, _) = gname(&m.files[fi][pos + at..eol]);
                let mut e = eol + 1;
                loop { let l2 = memchr(b'\n', &s[e..]).map(|x| e + x).unwrap_or(s.len()); if s[e] == b'}' { e = l2; break; } e = l2 + 1; }
                let internal = line.starts_with(b"define internal") || line.starts_with(b"define private");
                adds.push((name, pos, e, internal));
                pos = e + 1; continue;
            }
            if line.starts_with(b"@") {
                let (name, n) = gname(&m.files[fi][pos..eol]);
                gl.push((name, pos + n, eol));
            }
            pos = eol + 1;
        }
        for (name, a, b, int) in adds { if int { m.local.insert((fi, name), FnText { file: fi, start: a, end: b }); } else { m.fns.insert(name, FnText { file: fi, start: a, end: b }); } }
        for (name, a, b) in gl {
            let t = &m.files[fi][a..b];
            if let Some(q) = t.find(" alias ") { if let Some(r) = t[q..].rfind("ptr @") { let (tg, _) = gname(&t[q + r + 4..]); m.aliases.insert(name, (fi, tg)); continue; } }
            if t.contains("private ") || t.contains("internal ") { m.globals_text.insert((fi, name), (a, b)); }
            else if !t.contains("= external ") && !t.contains("available_externally") { m.globals.insert(name, (fi, a, b)); }
        }
    }
    m
}
fn memchr(c: u8, s: &[u8]) -> Option<usize> { s.iter().position(|&x| x == c) }
fn find_at(line: &[u8]) -> Option<usize> { line.iter().position(|&x| x == b'@') }
/// parse @name or @"name" at start; returns (name, consumed)
fn gname(s: &str) -> (String, usize) {
    let b = s.as_bytes(); assert_eq!(b[0], b'@');
    if b[1] == b'"' { let e = s[2..].find('"').unwrap() + 2; (s[2..e].to_string(), e + 1) }
    else { let mut e = 1; while e < b.len() && (b[e].is_ascii_alphanumeric() || matches!(b[e], b'_' | b'.' | b'$' | b'-')) { e += 1 } (s[1..e].to_string(), e) }
}

pub struct Ps<'a> { pub s: &'a str, pub b: &'a [u8], pub p: usize }
impl<'a> Ps<'a> {
    pub fn new(s: &'a str) -> Self { Ps { s, b: s.as_bytes(), p: 0 } }
    fn ws(&mut self) { while self.p < self.b.len() { match self.b[self.p] { b' ' | b'\t' | b'\n' | b'\r' => self.p += 1, b';' => { while self.p < self.b.len() && self.b[self.p] != b'\n' { self.p += 1 } } _ => break } } }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.b.len() { self.b[self.p] } else { 0 } }
    fn eat(&mut self, c: &str) -> bool { self.ws(); if self.s[self.p..].starts_with(c) { self.p += c.len(); true } else { false } }
    fn exp(&mut self, c: &str) { if !self.eat(c) { panic!("expected {:?} at {:?}", c, &self.s[self.p..(self.p + 80).min(self.s.len())]) } }
    fn word(&mut self) -> &'a str { self.ws(); let st = self.p; while self.p < self.b.len() && (self.b[self.p].is_ascii_alphanumeric() || matches!(self.b[self.p], b'_' | b'.' | b'-' | b'+')) { self.p += 1 } &self.s[st..self.p] }
    fn peek_word(&mut self) -> &'a str { self.ws(); let sv = self.p; let w = self.word(); self.p = sv; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    fn skip_paren(&mut self) { self.ws(); if self.peek() == b'(' { let mut d = 0; loop { match self.b[self.p] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.p += 1; return; } } b'"' => { self.p += 1; while self.b[self.p] != b'"' { self.p += 1 } } _ => {} } self.p += 1 } } }
    fn is_ty(&mut self) -> bool {
        match self.peek() { b'<' | b'[' | b'{' => true, b'i' => { let w = self.peek_word(); w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) } _ => matches!(self.peek_word(), "void" | "ptr" | "half" | "float" | "double" | "metadata" | "token" | "label" | "bfloat") }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'<' => { self.p += 1; if self.peek() == b'{' { let mut t = self.ty(); self.exp(">"); if let Ty::Struct(_, p) = &mut t { *p = true } return t; }
                let n: u32 = { let w = self.word(); w.parse().unwrap_or_else(|_| panic!("vec ty {:?} at {:?}", w, &self.s[self.p.saturating_sub(80)..(self.p + 60).min(self.s.len())])) }; self.exp("x"); let t = self.ty(); self.exp(">"); Ty::Vec(n, Box::new(t)) }
            b'[' => { self.p += 1; let n: u64 = self.word().parse().unwrap(); self.exp("x"); let t = self.ty(); self.exp("]"); Ty::Arr(n, Box::new(t)) }
            b'{' => { self.p += 1; let mut v = vec![]; while self.peek() != b'}' { v.push(self.ty()); self.eat(","); } self.exp("}"); Ty::Struct(v, false) }
            b'%' => { self.p += 1; if self.b[self.p] == b'"' { let e = self.s[self.p + 1..].find('"').unwrap(); self.p += e + 2; } else { self.word(); } Ty::Struct(vec![], false) }
            _ => { let w = self.word(); match w { "void" => Ty::Void, "ptr" => Ty::Ptr, "half" => Ty::Half, "float" => Ty::Float, "double" => Ty::Double, "metadata" | "token" | "label" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("ty {} at {}", w, &self.s[self.p..(self.p + 60).min(self.s.len())]))), _ => panic!("type {:?} at {:?}", w, &self.s[self.p..(self.p + 60).min(self.s.len())]) } }
        }
    }
    fn attrs(&mut self) { // skip attribute words until something that is a value or a type
        loop {
            self.ws();
            if self.p >= self.b.len() { return; }
            let c = self.b[self.p];
            if c == b'#' { self.p += 1; self.word(); continue; }
            if !c.is_ascii_alphabetic() { return; }
            if self.is_ty() { return; }
            let w = self.peek_word();
            if matches!(w, "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "sub" | "add" | "trunc" | "none" | "to" | "asm" | "c") { return; }
            self.word();
            if w == "align" || w == "addrspace" { if self.peek() == b'(' { self.skip_paren() } else { self.word(); } } else if self.p < self.b.len() && self.b[self.p] == b'(' { self.skip_paren(); } else if w == "unwind" { return; }
            // string attrs "k"="v"
        }
    }
    pub fn cst(&mut self, ty: &Ty) -> C {
        match self.peek() {
            b'@' => { let (n, l) = gname(&self.s[self.p..]); self.p += l; C::Global(n.into()) }
            b'<' => { self.p += 1; if self.peek() == b'{' { let c = self.cst(ty); self.exp(">"); return c; } let mut v = vec![]; while self.peek() != b'>' { let t = self.ty(); v.push(self.cst(&t)); self.eat(","); } self.exp(">"); C::Vec(v) }
            b'[' => { self.p += 1; let mut v = vec![]; while self.peek() != b']' { let t = self.ty(); v.push(self.cst(&t)); self.eat(","); } self.exp("]"); C::Agg(v) }
            b'{' => { self.p += 1; let mut v = vec![]; while self.peek() != b'}' { let t = self.ty(); v.push(self.cst(&t)); self.eat(","); } self.exp("}"); C::Agg(v) }
            b'c' if self.b[self.p + 1] == b'"' => { self.p += 2; let mut o = vec![]; while self.b[self.p] != b'"' { if self.b[self.p] == b'\\' && self.b[self.p + 1] == b'\\' { o.push(b'\\'); self.p += 2 } else if self.b[self.p] == b'\\' { o.push(u8::from_str_radix(&self.s[self.p + 1..self.p + 3], 16).unwrap()); self.p += 3 } else { o.push(self.b[self.p]); self.p += 1 } } self.p += 1; C::Str(o) }
            _ => {
                let w = self.word();
                match w {
                    "null" => C::Null, "undef" | "poison" => C::Undef, "zeroinitializer" => C::Zero, "true" => C::Int(1, 1), "false" => C::Int(1, 0), "none" => C::Undef,
                    "splat" => { self.exp("("); let t = self.ty(); let c = self.cst(&t); self.exp(")"); C::Splat(Box::new(c)) }
                    "getelementptr" => {
                        loop { let w = self.peek_word(); if matches!(w, "inbounds" | "nuw" | "nusw") { self.word(); } else if w == "inrange" { self.word(); self.skip_paren(); } else { break } }
                        self.exp("("); let t = self.ty(); self.exp(","); let bt = self.ty(); let base = self.cst(&bt);
                        let mut off = 0i64; let mut cur = t; let mut first = true;
                        while self.eat(",") { let it = self.ty(); let c = self.cst(&it); let v = if let C::Int(w, v) = c { crate::term::sx(v, w as u8) } else { panic!("gep const idx") };
                            if first { off += v * cur.size() as i64; first = false } else { let (o, t2) = cur.field_off(v as usize); off += o as i64; cur = t2.clone() } }
                        self.exp(")"); C::Gep(Box::new(base), off)
                    }
                    "ptrtoint" => { self.exp("("); let t = self.ty(); let c = self.cst(&t); self.exp("to"); self.ty(); self.exp(")"); C::PtrToInt(Box::new(c)) }
                    "inttoptr" => { self.exp("("); let t = self.ty(); let c = self.cst(&t); self.exp("to"); self.ty(); self.exp(")"); C::IntToPtr(Box::new(c)) }
                    "trunc" => { self.exp("("); let t = self.ty(); let c = self.cst(&t); self.exp("to"); let t2 = self.ty(); self.exp(")"); C::Trunc(Box::new(c), t2.bits()) }
                    "sub" | "add" => { let o = if w == "sub" { 1 } else { 0 }; while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); } self.exp("("); let t = self.ty(); let a = self.cst(&t); self.exp(","); let t = self.ty(); let b = self.cst(&t); self.exp(")"); C::Bin(o, Box::new(a), Box::new(b)) }
                    _ => {
                        if ty.is_float() {
                            let v = if let Some(h) = w.strip_prefix("0xH") { u64::from_str_radix(h, 16).unwrap() } else if let Some(h) = w.strip_prefix("0x") { let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap()); crate::term::d2f(d, ty.bits() as u8) } else { let d: f64 = w.parse().unwrap_or_else(|_| panic!("float {:?} at {:?}", w, &self.s[self.p..(self.p + 60).min(self.s.len())])); crate::term::d2f(d, ty.bits() as u8) };
                            return C::Int(ty.bits(), v);
                        }
                        let bits = match ty { Ty::Int(n) => *n, _ => panic!("const {:?} of type {:?} at {:?}", w, ty, &self.s[self.p.saturating_sub(60)..(self.p + 60).min(self.s.len())]) };
                        if bits <= 64 { let v: i128 = w.parse().unwrap(); C::Int(bits, v as u64 & crate::term::mask(bits as u8)) }
                        else {
                            // decimal big int
                            let neg = w.starts_with('-'); let mut l = vec![0u64; ((bits + 63) / 64) as usize];
                            for ch in w.trim_start_matches('-').bytes() { let mut c = (ch - b'0') as u128; for x in l.iter_mut() { let t = *x as u128 * 10 + c; *x = t as u64; c = t >> 64 } }
                            if neg { let mut c = 1u128; for x in l.iter_mut() { let t = (!*x) as u128 + c; *x = t as u64; c = t >> 64 } }
                            C::Big(bits, l)
                        }
                    }
                }
            }
        }
    }
}

struct FP<'a> { p: Ps<'a>, regs: HashMap<&'a str, u32>, names: Vec<String>, blocks: HashMap<&'a str, u32>, nb: u32 }
impl<'a> FP<'a> {
    fn local(&mut self) -> &'a str { // after '%'
        self.p.exp("%");
        let p = &mut self.p;
        if p.b[p.p] == b'"' { let st = p.p + 1; let e = p.s[st..].find('"').unwrap() + st; p.p = e + 1; &p.s[st..e] }
        else { let st = p.p; while p.p < p.b.len() && (p.b[p.p].is_ascii_alphanumeric() || matches!(p.b[p.p], b'_' | b'.' | b'$' | b'-')) { p.p += 1 } &p.s[st..p.p] }
    }
    fn reg(&mut self, n: &'a str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.names.len() as u32; self.names.push(n.to_string()); self.regs.insert(n, r); r }
    fn blk(&mut self) -> u32 { self.p.eat_word("label"); let n = self.local(); self.blkid(n) }
    fn blkid(&mut self, n: &'a str) -> u32 { if let Some(&b) = self.blocks.get(n) { return b; } let b = self.nb; self.nb += 1; self.blocks.insert(n, b); b }
    fn val(&mut self, t: &Ty) -> O {
        self.p.attrs_value();
        if self.p.peek() == b'%' { let n = self.local(); O::R(self.reg(n)) } else { O::K(t.clone(), self.p.cst(t)) }
    }
    fn tv(&mut self) -> (Ty, O) { let t = self.p.ty(); let v = self.val(&t); (t, v) }
}
impl<'a> Ps<'a> {
    fn attrs_value(&mut self) { // skip param attributes preceding a value
        loop {
            let w = self.peek_word();
            if w.is_empty() { return; }
            if matches!(w, "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "sub" | "add" | "trunc" | "none" | "asm") { return; }
            let c = w.as_bytes()[0];
            if c.is_ascii_digit() || c == b'-' || c == b'+' { return; }
            if w == "c" && self.b[self.p + 1] == b'"' { return; }
            self.word();
            if w == "align" { self.word(); } else if self.p < self.b.len() && self.b[self.p] == b'(' { self.skip_paren(); }
        }
    }
}

pub fn parse_fn(text: &str) -> Func {
    let mut f = FP { p: Ps::new(text), regs: HashMap::new(), names: vec![], blocks: HashMap::new(), nb: 0 };
    f.p.exp("define");
    f.p.attrs();
    let ret = f.p.ty();
    f.p.attrs();
    let (name, l) = { f.p.ws(); gname(&f.p.s[f.p.p..]) }; f.p.p += l;
    f.p.exp("(");
    let mut params = vec![]; let mut byval = vec![];
    while f.p.peek() != b')' {
        if f.p.eat("...") { continue; }
        let t = f.p.ty();
        // attributes up to %name or , or )
        let mut bv = 0;
        loop { let c = f.p.peek(); if c == b'%' || c == b',' || c == b')' { break; } let w = f.p.word(); if w == "align" { f.p.word(); } else if f.p.p < f.p.b.len() && f.p.b[f.p.p] == b'(' { let st = f.p.p; f.p.skip_paren(); if w == "byval" { let mut q = Ps::new(&f.p.s[st + 1..f.p.p - 1]); bv = q.ty().size(); } } else if w.is_empty() { panic!("param attr at {}", &f.p.s[f.p.p..f.p.p + 40]) } }
        let r = if f.p.peek() == b'%' { let n = f.local(); f.reg(n) } else { let r = f.names.len() as u32; f.names.push(String::new()); r };
        params.push((t, r)); byval.push(bv);
        f.p.eat(",");
    }
    f.p.exp(")");
    // to '{' at end of line
    let nl = text.find('\n').unwrap(); f.p.p = nl + 1;
    let mut blocks: Vec<Vec<Inst>> = vec![]; let mut bn: Vec<String> = vec![];
    let mut cur: usize = usize::MAX;
    let mut first = true;
    loop {
        f.p.ws();
        if f.p.peek() == b'}' { break; }
        // label?
        let lst = f.p.p; let eol = text[lst..].find('\n').map(|x| x + lst).unwrap_or(text.len());
        let line = &text[lst..eol];
        let is_label = { let lb = line.as_bytes(); if lb[0] == b'"' { let e = line[1..].find('"').unwrap() + 2; lb.get(e) == Some(&b':') } else { let mut i = 0; while i < lb.len() && (lb[i].is_ascii_alphanumeric() || matches!(lb[i], b'_' | b'.' | b'$' | b'-')) { i += 1 } i > 0 && i < lb.len() && lb[i] == b':' } };
        if is_label {
            let nm: &str = if line.starts_with('"') { let e = line[1..].find('"').unwrap() + 1; &line[1..e] } else { &line[..line.find(':').unwrap()] };
            let id = f.blkid(nm) as usize;
            while blocks.len() <= id { blocks.push(vec![]); bn.push(String::new()); }
            bn[id] = nm.to_string(); cur = id; f.p.p = eol; first = false; continue;
        }
        if first { let id = f.blkid("0#entry") as usize; while blocks.len() <= id { blocks.push(vec![]); bn.push(String::new()); } cur = id; first = false; }
        let inst = parse_inst(&mut f, eol);
        blocks[cur].push(inst);
    }
    while blocks.len() < f.nb as usize { blocks.push(vec![]); bn.push(String::new()); }
    Func { name, params, ret, nregs: f.names.len(), regnames: f.names, blocks, bnames: bn, byval, file: 0, ipdom: vec![] }
}

fn parse_inst(f: &mut FP, eol: usize) -> Inst {
    let start = f.p.p;
    let mut dst = NOREG;
    if f.p.peek() == b'%' { let n = f.local(); dst = f.reg(n); f.p.exp("="); }
    let mut op = f.p.word();
    while matches!(op, "tail" | "musttail" | "notail") { op = f.p.word(); }
    let bin = |op: &str| -> Option<B> { Some(match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, "frem" => B::FRem, _ => return None }) };
    let cast = |op: &str| -> Option<CastOp> { Some(match op { "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "trunc" => CastOp::Trunc, "bitcast" => CastOp::BitCast, "ptrtoint" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "fptosi" => CastOp::FpToSi, "fptoui" => CastOp::FpToUi, "sitofp" => CastOp::SiToFp, "uitofp" => CastOp::UiToFp, "fpext" => CastOp::FpExt, "fptrunc" => CastOp::FpTrunc, _ => return None }) };
    let flags = |f: &mut FP| { while matches!(f.p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign" | "inbounds" | "nusw" | "atomic" | "volatile") { f.p.word(); } };
    let mut endline = true;
    let i = if let Some(b) = bin(op) { flags(f); let t = f.p.ty(); let a = f.val(&t); f.p.exp(","); let c = f.val(&t); I::Bin(b, t, a, c) }
    else if let Some(c) = cast(op) { flags(f); let (t, v) = f.tv(); f.p.exp("to"); let t2 = f.p.ty(); I::Cast(c, t, v, t2) }
    else { match op {
        "icmp" => { flags(f); let pr = match f.p.word() { "eq" => P::Eq, "ne" => P::Ne, "ugt" => P::Ugt, "uge" => P::Uge, "ult" => P::Ult, "ule" => P::Ule, "sgt" => P::Sgt, "sge" => P::Sge, "slt" => P::Slt, "sle" => P::Sle, x => panic!("{}", x) }; let t = f.p.ty(); let a = f.val(&t); f.p.exp(","); let b = f.val(&t); I::ICmp(pr, t, a, b) }
        "fcmp" => { flags(f); let w = f.p.word(); let pr = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"].iter().position(|x| *x == w).unwrap() as u64; let t = f.p.ty(); let a = f.val(&t); f.p.exp(","); let b = f.val(&t); I::FCmp(pr, t, a, b) }
        "fneg" => { flags(f); let (t, v) = f.tv(); I::FNeg(t, v) }
        "freeze" => { let (t, v) = f.tv(); I::Freeze(t, v) }
        "select" => { flags(f); let (ct, c) = f.tv(); f.p.exp(","); let (t, a) = f.tv(); f.p.exp(","); let (_, b) = f.tv(); I::Select(t, matches!(ct, Ty::Vec(..)), c, a, b) }
        "phi" => { flags(f); let t = f.p.ty(); let mut v = vec![]; loop { f.p.exp("["); let a = f.val(&t); f.p.exp(","); let b = f.blk(); f.p.exp("]"); v.push((a, b)); if !f.p.eat(",") { break; } if f.p.peek() != b'[' { break; } } I::Phi(t, v) }
        "getelementptr" => { flags(f); let t = f.p.ty(); f.p.exp(","); let (_, b) = f.tv(); let mut ix = vec![]; while f.p.eat(",") { if f.p.peek() == b'!' { break; } ix.push(f.tv()); } I::Gep(b, t, ix) }
        "load" => { flags(f); let t = f.p.ty(); f.p.exp(","); let (_, a) = f.tv(); I::Load(t, a) }
        "store" => { flags(f); let (t, v) = f.tv(); f.p.exp(","); let (_, a) = f.tv(); I::Store(t, v, a) }
        "alloca" => { let t = f.p.ty(); I::Alloca(t.size()) }
        "extractvalue" => { let (t, v) = f.tv(); let mut ix = vec![]; while f.p.eat(",") { if f.p.peek() == b'!' { break; } ix.push(f.p.word().parse().unwrap()); } I::ExtractValue(t, v, ix) }
        "insertvalue" => { let (t, v) = f.tv(); f.p.exp(","); let (t2, v2) = f.tv(); let mut ix = vec![]; while f.p.eat(",") { if f.p.peek() == b'!' { break; } ix.push(f.p.word().parse().unwrap()); } I::InsertValue(t, v, t2, v2, ix) }
        "extractelement" => { let (t, v) = f.tv(); f.p.exp(","); let (_, i) = f.tv(); I::ExtractElement(t, v, i) }
        "insertelement" => { let (t, v) = f.tv(); f.p.exp(","); let (_, e) = f.tv(); f.p.exp(","); let (_, i) = f.tv(); I::InsertElement(t, v, e, i) }
        "shufflevector" => { let (t, a) = f.tv(); f.p.exp(","); let (_, b) = f.tv(); f.p.exp(","); let mt = f.p.ty(); let c = f.p.cst(&mt); let n = if let Ty::Vec(n, _) = mt { n as usize } else { panic!() };
            let e = |c: &C| match c { C::Int(_, v) => *v as i32, _ => -1 };
            let mask = match &c { C::Vec(v) => v.iter().map(e).collect(), C::Zero => vec![0; n], C::Undef => vec![-1; n], C::Splat(x) => vec![e(x); n], _ => panic!() }; I::Shuffle(t, a, b, mask) }
        "br" => { if f.p.peek_word() == "label" { I::Br(f.blk()) } else { let (_, c) = f.tv(); f.p.exp(","); let a = f.blk(); f.p.exp(","); let b = f.blk(); I::CondBr(c, a, b) } }
        "switch" => { let (t, v) = f.tv(); f.p.exp(","); let d = f.blk(); f.p.exp("["); let mut cs = vec![]; while f.p.peek() != b']' { let ct = f.p.ty(); let c = f.p.cst(&ct); f.p.exp(","); let b = f.blk(); if let C::Int(_, k) = c { cs.push((k, b)) } } f.p.exp("]"); endline = false; let e = f.p.s[f.p.p..].find('\n').unwrap(); f.p.p += e; I::Switch(t, v, d, cs) }
        "ret" => { let t = f.p.ty(); if t == Ty::Void { I::Ret(t, None) } else { let v = f.val(&t); I::Ret(t, Some(v)) } }
        "unreachable" => I::Unreachable,
        "resume" => I::Resume,
        "landingpad" => { // multi-line clauses
            endline = false; let mut e = eol;
            loop { let ns = e + 1; if ns >= f.p.s.len() { break; } let ne = f.p.s[ns..].find('\n').map(|x| x + ns).unwrap_or(f.p.s.len()); let l = f.p.s[ns..ne].trim_start(); if l.starts_with("cleanup") || l.starts_with("catch") || l.starts_with("filter") { e = ne } else { break } }
            f.p.p = e; I::LandingPad }
        "call" | "invoke" => {
            flags(f); f.p.attrs(); // calling conv + ret attrs
            let t = f.p.ty();
            if f.p.peek() == b'(' { f.p.skip_paren(); } // explicit fn type
            if f.p.peek_word() == "asm" { f.p.p = eol; let s = f.p.s[start..eol].to_string(); I::Unsupported(s) }
            else {
                let callee = f.val(&Ty::Ptr);
                f.p.exp("("); let mut args = vec![];
                while f.p.peek() != b')' {
                    let at = f.p.ty();
                    if at == Ty::Other { // metadata
                        let mut d = 0; loop { let c = f.p.b[f.p.p]; if d == 0 && (c == b',' || c == b')') { break; } if c == b'(' || c == b'{' { d += 1 } if c == b')' || c == b'}' { d -= 1 } f.p.p += 1 }
                        args.push((at, O::K(Ty::Other, C::Undef)));
                    } else { let v = f.val(&at); args.push((at, v)); }
                    f.p.eat(",");
                }
                f.p.exp(")");
                let mut nd = None;
                if op == "invoke" {
                    let rest = f.p.s[f.p.p..].find("to label ").unwrap() + f.p.p; f.p.p = rest + 3; nd = Some(f.blk());
                    let e = f.p.s[f.p.p..].find('\n').unwrap(); f.p.p += e; endline = false;
                }
                I::Call(t, callee, args, nd)
            }
        }
        _ => { let s = f.p.s[start..eol].to_string(); I::Unsupported(s) }
    } };
    if endline { f.p.p = eol; }
    Inst { dst, i }
}

pub fn parse_global(text: &str) -> Global {
    // text after the name: " = [linkage] ... constant|global TY init, align"
    let mut p = Ps::new(text);
    p.exp("=");
    let mut constant = false;
    loop { let w = p.word(); if w == "constant" { constant = true; break; } if w == "global" { break; } if w.is_empty() { return Global { ty: Ty::Other, init: None, constant: false }; } if p.p < p.b.len() && p.b[p.p] == b'(' { p.skip_paren(); } }
    let ty = p.ty();
    let init = if p.peek() == b',' || p.peek() == 0 { None } else { Some(p.cst(&ty)) };
    Global { ty, init, constant }
}
impl Func {
    pub fn succs(&self, b: usize) -> Vec<u32> {
        match self.blocks[b].last().map(|i| &i.i) { Some(I::Br(x)) => vec![*x], Some(I::CondBr(_, x, y)) => vec![*x, *y], Some(I::Switch(_, _, d, c)) => { let mut v: Vec<u32> = c.iter().map(|x| x.1).collect(); v.push(*d); v } Some(I::Call(_, _, _, Some(n))) => vec![*n], _ => vec![] }
    }
    /// immediate post-dominators, ignoring blocks that can only diverge
    pub fn prep(&mut self) {
        let n = self.blocks.len();
        let succ: Vec<Vec<u32>> = (0..n).map(|b| self.succs(b)).collect();
        let isret: Vec<bool> = (0..n).map(|b| matches!(self.blocks[b].last().map(|i| &i.i), Some(I::Ret(..)))).collect();
        // live = can reach a return
        let mut live = isret.clone(); let mut ch = true;
        while ch { ch = false; for b in (0..n).rev() { if !live[b] && succ[b].iter().any(|&s| live[s as usize]) { live[b] = true; ch = true } } }
        // reverse graph order from virtual exit n
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
        let rs = |b: usize| -> Vec<usize> { let mut v: Vec<usize> = succ[b].iter().map(|&x| x as usize).filter(|&x| live[x]).collect(); if isret[b] { v.push(n) } v };
        for b in 0..n { if live[b] { for s in rs(b) { pred[s].push(b) } } }
        let mut order = vec![]; let mut seen = vec![false; n + 1]; let mut stack = vec![(n, 0usize)]; seen[n] = true;
        while let Some((b, i)) = stack.pop() { if i < pred[b].len() { stack.push((b, i + 1)); let p = pred[b][i]; if !seen[p] { seen[p] = true; stack.push((p, 0)) } } else { order.push(b) } }
        let mut num = vec![usize::MAX; n + 1]; for (i, &b) in order.iter().enumerate() { num[b] = i }
        let mut idom = vec![usize::MAX; n + 1]; idom[n] = n;
        let mut ch = true;
        while ch { ch = false; for &b in order.iter().rev() { if b == n { continue; } let mut d = usize::MAX; for s in rs(b) { if idom[s] == usize::MAX { continue; } if d == usize::MAX { d = s } else { let (mut x, mut y) = (d, s); while x != y { while num[x] < num[y] { x = idom[x] } while num[y] < num[x] { y = idom[y] } } d = x } } if d != idom[b] { idom[b] = d; ch = true } } }
        self.ipdom = (0..n).map(|b| if idom[b] == usize::MAX || idom[b] == n { u32::MAX } else { idom[b] as u32 }).collect();
    }
}

