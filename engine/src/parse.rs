//! Parser for textual LLVM IR (the subset rustc emits). Functions are parsed on first use.
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const GLOBAL_BASE: u64 = 1 << 36;
pub const FN_BASE: u64 = 2 << 36;
pub const HEAP_BASE: u64 = 3 << 36;
pub const STACK_BASE: u64 = 4 << 36; // + 2*tid regions
pub const REGION_SHIFT: u32 = 36;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),   // bare word or number
    Local(&'a str),  // %name
    Glob(&'a str),   // @name
    Str(&'a str),    // "..." raw
    CStr(&'a str),   // c"..." raw
    Meta(&'a str),   // !name or !123 (or bare "!")
    Attr(&'a str),   // #12
    P(u8),
    Ellipsis,
    End,
}

struct Lex<'a> {
    s: &'a str,
    i: usize,
}

fn word_ch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+' }

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self { Lex { s, i: 0 } }
    fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        while self.i < b.len() && (b[self.i] as char).is_whitespace() { self.i += 1; }
        if self.i >= b.len() { return Tok::End; }
        let c = b[self.i];
        let st = self.i;
        let name = |s: &'a str, mut i: usize| -> (usize, &'a str) {
            let b = s.as_bytes();
            if i < b.len() && b[i] == b'"' {
                let q = i + 1;
                i += 1;
                while b[i] != b'"' { i += 1; }
                (i + 1, &s[q..i])
            } else {
                let q = i;
                while i < b.len() && word_ch(b[i]) { i += 1; }
                (i, &s[q..i])
            }
        };
        match c {
            b'%' => { let (n, x) = name(self.s, st + 1); self.i = n; Tok::Local(x) }
            b'@' => { let (n, x) = name(self.s, st + 1); self.i = n; Tok::Glob(x) }
            b'!' => { let (n, x) = name(self.s, st + 1); self.i = n; Tok::Meta(x) }
            b'#' => { let (n, x) = name(self.s, st + 1); self.i = n; Tok::Attr(x) }
            b'"' => { let (n, x) = name(self.s, st); self.i = n; Tok::Str(x) }
            b'c' if st + 1 < b.len() && b[st + 1] == b'"' => { let (n, x) = name(self.s, st + 1); self.i = n; Tok::CStr(x) }
            b'.' if self.s[st..].starts_with("...") => { self.i += 3; Tok::Ellipsis }
            b';' => { self.i = b.len(); Tok::End }
            _ if word_ch(c) => { let (n, x) = name(self.s, st); self.i = n; Tok::Word(x) }
            _ => { self.i += 1; Tok::P(c) }
        }
    }
    fn peek(&self) -> Tok<'a> { Lex { s: self.s, i: self.i }.next() }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) { self.next(); true } else { false }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        let t = self.next();
        if t == Tok::P(c) { Ok(()) } else { Err(format!("expected '{}' got {:?} in: {}", c as char, t, cut(self.s))) }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) { self.next(); true } else { false }
    }
    /// skips a balanced group starting at an opening bracket
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => { d -= 1; if d == 0 { return; } }
                Tok::End => return,
                _ => {}
            }
        }
    }
}

fn cut(s: &str) -> &str { let mut n = s.len().min(300); while !s.is_char_boundary(n) { n -= 1; } &s[..n] }

type R<T> = Result<T, String>;

#[derive(Clone)]
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: TyId,
    pub tls: bool,
    init: (usize, usize), // byte range of the text after the type, or (0,0)
}

pub struct FnInfo {
    pub name: String,
    pub demangled: String,
    body: Option<(usize, usize)>, // byte range of the whole definition, header included
    pub cf: Option<Rc<CFunc>>,
    pub dbg: u32,
}

pub struct Module {
    pub text: String,
    pub types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub layout: Vec<(u64, u64)>, // size, align (indexed by TyId)
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub fns: Vec<FnInfo>,
    pub fmap: HashMap<String, u32>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub globals_end: u64,
}

pub fn strip_num(s: &str) -> u32 { s.parse().unwrap_or(0) }

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(), types: vec![], tymap: HashMap::new(), named: HashMap::new(), layout: vec![],
            globals: vec![], gmap: HashMap::new(), fns: vec![], fmap: HashMap::new(), meta: HashMap::new(), globals_end: GLOBAL_BASE,
        };
        m.ty(Ty::Void);
        // pass 1: named types, function names, metadata index
        let bytes = text.as_bytes();
        let mut pos = 0;
        let mut glob_lines: Vec<(usize, usize)> = vec![];
        let mut typedefs = vec![];
        while pos < bytes.len() {
            let end = match memchr(b'\n', &bytes[pos..]) { Some(k) => pos + k, None => bytes.len() };
            let line = &text[pos..end];
            match line.as_bytes().first() {
                Some(b'd') if line.starts_with("define ") || line.starts_with("declare ") => {
                    let is_def = line.starts_with("define ");
                    let name = fn_name_of(line).ok_or_else(|| format!("no name: {}", cut(line)))?;
                    let mut stop = end;
                    if is_def {
                        // the definition ends at a line that is exactly "}"
                        let k = text[end..].find("\n}\n").ok_or("unterminated function")?;
                        stop = end + k + 1;
                    }
                    let dbg = match line.rfind("!dbg !") { Some(k) => num_prefix(&line[k + 6..]), None => 0 };
                    let demangled = format!("{:#}", rustc_demangle::demangle(&name));
                    m.fmap.insert(name.clone(), m.fns.len() as u32);
                    m.fns.push(FnInfo { name, demangled, body: if is_def { Some((pos, stop)) } else { None }, cf: None, dbg });
                    if is_def { pos = stop + 2; continue; }
                }
                Some(b'@') => glob_lines.push((pos, end)),
                Some(b'%') => typedefs.push((pos, end)),
                Some(b'!') => {
                    let r = &line[1..];
                    if r.as_bytes().first().map_or(false, |c| c.is_ascii_digit()) {
                        m.meta.insert(num_prefix(r), (pos, end));
                    }
                }
                _ => {}
            }
            pos = end + 1;
        }
        m.text = text;
        let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(m.text.as_str()) };
        for (s, e) in typedefs {
            let line = &text[s..e];
            let mut lx = Lex::new(line);
            if let Tok::Local(n) = lx.next() {
                lx.expect(b'=')?;
                lx.next(); // type
                let t = if lx.peek() == Tok::Word("opaque") { m.ty(Ty::Other) } else { m.parse_ty(&mut lx)? };
                m.named.insert(n.to_string(), t);
            }
        }
        let mut addr = GLOBAL_BASE + 4096;
        for (s, e) in glob_lines {
            let line = &text[s..e];
            let mut lx = Lex::new(line);
            let name = match lx.next() { Tok::Glob(n) => n.to_string(), t => return Err(format!("global {:?}", t)) };
            lx.expect(b'=')?;
            let mut tls = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.peek() {
                    Tok::Word("thread_local") => { tls = true; lx.next(); if lx.peek() == Tok::P(b'(') { lx.skip_group(); } }
                    Tok::Word("external") | Tok::Word("extern_weak") => { external = true; lx.next(); }
                    Tok::Word("addrspace") => { lx.next(); lx.skip_group(); }
                    Tok::Word("constant") | Tok::Word("global") => { lx.next(); break; }
                    Tok::Word("alias") | Tok::Word("ifunc") => { alias = true; lx.next(); break; }
                    Tok::Word(_) => { lx.next(); }
                    t => return Err(format!("global header {:?}: {}", t, cut(line))),
                }
            }
            if alias {
                m.parse_ty(&mut lx)?;
                lx.eat(b',');
                lx.next();
                if let Tok::Glob(t) = lx.next() {
                    if let Some(f) = m.fmap.get(t).copied() { m.fmap.insert(name, f); }
                    else if let Some(g) = m.gmap.get(t).copied() { m.gmap.insert(name, g); }
                }
                continue;
            }
            let ty = m.parse_ty(&mut lx)?;
            let init = if external { (0, 0) } else { (s + lx.i, e) };
            let (size, al) = m.size_align(ty);
            let al = match line.rfind(", align ") { Some(k) => (num_prefix(&line[k + 8..]) as u64).max(al), None => al };
            addr = (addr + al.max(16) - 1) / al.max(16) * al.max(16);
            m.gmap.insert(name.clone(), m.globals.len());
            m.globals.push(Global { name, addr, size, ty, tls, init });
            addr += size.max(1) + 16;
        }
        m.globals_end = addr + 4096;
        Ok(m)
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(k) = self.tymap.get(&t) { return *k; }
        let id = self.types.len() as TyId;
        self.types.push(t.clone());
        self.tymap.insert(t.clone(), id);
        let l = self.compute_layout(&t);
        self.layout.push(l);
        id
    }

    fn compute_layout(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let bytes = (*w as u64).div_ceil(8);
                let al = bytes.next_power_of_two().min(16);
                (bytes.div_ceil(al) * al, al)
            }
            Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::Struct(fs, packed) => {
                let (mut off, mut al) = (0, 1);
                for f in fs {
                    let (s, a) = self.layout[*f as usize];
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
            Ty::Array(n, e) => { let (s, a) = self.layout[*e as usize]; (n * s, a) }
            Ty::Vec(n, e) => {
                let bits = match self.types[*e as usize] { Ty::Int(w) => w as u64, _ => self.layout[*e as usize].0 * 8 };
                let s = (n * bits).div_ceil(8).next_power_of_two();
                (s, s.min(16))
            }
        }
    }

    pub fn size_align(&self, t: TyId) -> (u64, u64) { self.layout[t as usize] }
    pub fn size(&self, t: TyId) -> u64 { self.layout[t as usize].0 }

    pub fn field_off(&self, fs: &[TyId], packed: bool, i: usize) -> u64 {
        let mut off = 0;
        for (k, f) in fs.iter().enumerate() {
            let (s, a) = self.layout[*f as usize];
            let a = if packed { 1 } else { a };
            off = (off + a - 1) / a * a;
            if k == i { return off; }
            off += s;
        }
        off
    }

    /// bit width of a scalar type
    pub fn width(&self, t: TyId) -> u32 {
        match self.types[t as usize] { Ty::Int(w) => w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 }
    }

    fn parse_ty(&mut self, lx: &mut Lex) -> R<TyId> {
        let t = match lx.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => { if lx.peek() == Tok::Word("addrspace") { lx.next(); lx.skip_group(); } Ty::Ptr }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type {w} in {}", cut(lx.s))),
            },
            Tok::Local(n) => return self.named.get(n).copied().ok_or_else(|| format!("named type {n}")),
            Tok::P(b'{') => {
                let mut fs = vec![];
                if !lx.eat(b'}') {
                    loop { fs.push(self.parse_ty(lx)?); if lx.eat(b'}') { break; } lx.expect(b',')?; }
                }
                Ty::Struct(fs, false)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let mut fs = vec![];
                    if !lx.eat(b'}') {
                        loop { fs.push(self.parse_ty(lx)?); if lx.eat(b'}') { break; } lx.expect(b',')?; }
                    }
                    lx.expect(b'>')?;
                    Ty::Struct(fs, true)
                } else {
                    let n = self.num(lx)?;
                    lx.next(); // x
                    let e = self.parse_ty(lx)?;
                    lx.expect(b'>')?;
                    Ty::Vec(n, e)
                }
            }
            Tok::P(b'[') => {
                let n = self.num(lx)?;
                lx.next();
                let e = self.parse_ty(lx)?;
                lx.expect(b']')?;
                Ty::Array(n, e)
            }
            t => return Err(format!("type {:?} in {}", t, cut(lx.s))),
        };
        Ok(self.ty(t))
    }

    fn num(&self, lx: &mut Lex) -> R<u64> {
        match lx.next() { Tok::Word(w) => w.parse().map_err(|_| format!("num {w}")), t => Err(format!("num {:?}", t)) }
    }

    pub fn fn_addr(&self, id: u32) -> u64 { FN_BASE + 16 * (id as u64 + 1) }

    fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(f) = self.fmap.get(n) { return Ok(self.fn_addr(*f)); }
        if let Some(g) = self.gmap.get(n) { return Ok(self.globals[*g].addr); }
        Err(format!("unknown global {n}"))
    }

    pub fn zero(&self, t: TyId) -> Val {
        match &self.types[t as usize] {
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            Ty::Array(n, e) | Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Int(w) if *w > 64 => Val::S(cst(0, *w)),
            _ => Val::C(0),
        }
    }

    /// Parses a constant of the given type.
    fn parse_const(&mut self, t: TyId, lx: &mut Lex) -> R<Val> {
        let tk = lx.next();
        match tk {
            Tok::Glob(n) => Ok(Val::C(self.global_addr(n)?)),
            Tok::CStr(s) => Ok(Val::A(Rc::new(unescape(s).into_iter().map(|b| Val::C(b as u64)).collect()))),
            Tok::Word(w) => match w {
                "true" => Ok(Val::C(1)),
                "false" | "null" | "none" => Ok(Val::C(0)),
                "zeroinitializer" | "undef" | "poison" => Ok(self.zero(t)),
                "splat" => {
                    lx.expect(b'(')?;
                    let et = self.parse_ty(lx)?;
                    let v = self.parse_const(et, lx)?;
                    lx.expect(b')')?;
                    let n = match self.types[t as usize] { Ty::Vec(n, _) | Ty::Array(n, _) => n, _ => return Err("splat".into()) };
                    Ok(Val::A(Rc::new(vec![v; n as usize])))
                }
                "getelementptr" => {
                    while lx.peek() != Tok::P(b'(') {
                        lx.next();
                        if let Tok::Word("inrange") = lx.peek() { lx.next(); lx.skip_group(); }
                    }
                    lx.expect(b'(')?;
                    let bt = self.parse_ty(lx)?;
                    lx.expect(b',')?;
                    let pt = self.parse_ty(lx)?;
                    let Val::C(base) = self.parse_const(pt, lx)? else { return Err("gep base".into()) };
                    let mut off = 0i64;
                    let mut cur = bt;
                    let mut first = true;
                    while lx.eat(b',') {
                        let it = self.parse_ty(lx)?;
                        let Val::C(i) = self.parse_const(it, lx)? else { return Err("gep idx".into()) };
                        let i = sext_to_i128(i as u128, self.width(it)) as i64;
                        if first { off += i * self.size(bt) as i64; first = false; continue; }
                        match self.types[cur as usize].clone() {
                            Ty::Struct(fs, p) => { off += self.field_off(&fs, p, i as usize) as i64; cur = fs[i as usize]; }
                            Ty::Array(_, e) | Ty::Vec(_, e) => { off += i * self.size(e) as i64; cur = e; }
                            _ => return Err("gep const".into()),
                        }
                    }
                    lx.expect(b')')?;
                    Ok(Val::C(base.wrapping_add(off as u64)))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    lx.expect(b'(')?;
                    let ft = self.parse_ty(lx)?;
                    let v = self.parse_const(ft, lx)?;
                    lx.next(); // to
                    let tt = self.parse_ty(lx)?;
                    lx.expect(b')')?;
                    match (w, v) {
                        ("trunc", Val::C(x)) => Ok(Val::C(x & mask(self.width(tt)) as u64)),
                        (_, v) => Ok(v),
                    }
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                    while lx.peek() != Tok::P(b'(') { lx.next(); }
                    lx.expect(b'(')?;
                    let ta = self.parse_ty(lx)?;
                    let Val::C(a) = self.parse_const(ta, lx)? else { return Err("cexpr".into()) };
                    lx.expect(b',')?;
                    let tb = self.parse_ty(lx)?;
                    let Val::C(b) = self.parse_const(tb, lx)? else { return Err("cexpr".into()) };
                    lx.expect(b')')?;
                    let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a.wrapping_mul(b) };
                    Ok(Val::C(r & mask(self.width(ta)) as u64))
                }
                _ => match self.types[t as usize].clone() {
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { w.parse::<f64>().map_err(|e| e.to_string())?.to_bits() };
                        if let Ty::F32 = self.types[t as usize] { Ok(Val::C((f64::from_bits(bits) as f32).to_bits() as u64)) } else { Ok(Val::C(bits)) }
                    }
                    Ty::Int(wd) => {
                        if wd <= 64 {
                            let v: i128 = w.parse().map_err(|_| format!("int const {w} in {}", cut(lx.s)))?;
                            Ok(Val::C((v as u128 & mask(wd)) as u64))
                        } else {
                            let v = if let Some(r) = w.strip_prefix('-') { (r.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg() } else { w.parse::<u128>().map_err(|e| format!("{e} {w}"))? };
                            if wd > 128 && w.starts_with('-') { return Err("wide negative constant".into()); }
                            Ok(Val::S(cst(v, wd)))
                        }
                    }
                    _ => Err(format!("const {w} in {}", cut(lx.s))),
                },
            },
            Tok::P(b'<') | Tok::P(b'{') | Tok::P(b'[') => {
                let packed = tk == Tok::P(b'<') && lx.eat(b'{');
                let close = match tk { Tok::P(b'{') => b'}', Tok::P(b'[') => b']', _ => if packed { b'}' } else { b'>' } };
                let mut vs = vec![];
                if !lx.eat(close) {
                    loop {
                        let ft = self.parse_ty(lx)?;
                        vs.push(self.parse_const(ft, lx)?);
                        if lx.eat(close) { break; }
                        lx.expect(b',')?;
                    }
                }
                if packed { lx.expect(b'>')?; }
                Ok(Val::A(Rc::new(vs)))
            }
            t => Err(format!("const {:?} in {}", t, cut(lx.s))),
        }
    }

    /// The initial bytes of a global (absent for external ones).
    pub fn global_init(&mut self, g: usize) -> R<Option<Vec<u8>>> {
        let gl = self.globals[g].clone();
        if gl.init == (0, 0) { return Ok(None); }
        let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(&self.text[gl.init.0..gl.init.1]) };
        let mut lx = Lex::new(text);
        let v = self.parse_const(gl.ty, &mut lx)?;
        let mut out = vec![0u8; gl.size as usize];
        self.write_const(gl.ty, &v, &mut out, 0);
        Ok(Some(out))
    }

    fn write_const(&self, t: TyId, v: &Val, out: &mut [u8], off: usize) {
        match (&self.types[t as usize], v) {
            (Ty::Struct(fs, p), Val::A(vs)) => for (i, f) in fs.iter().enumerate() {
                self.write_const(*f, &vs[i], out, off + self.field_off(fs, *p, i) as usize);
            },
            (Ty::Array(_, e), Val::A(vs)) | (Ty::Vec(_, e), Val::A(vs)) => {
                let s = self.size(*e) as usize;
                for (i, x) in vs.iter().enumerate() { self.write_const(*e, x, out, off + i * s); }
            }
            (_, Val::C(x)) => {
                let n = (self.size(t) as usize).min(8);
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (_, Val::S(e)) => {
                let n = self.size(t) as usize;
                let x = as_const(*e).unwrap_or(0);
                let n = n.min(16);
                out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => {}
        }
    }

    pub fn has_body(&self, id: u32) -> bool { self.fns[id as usize].body.is_some() }

    pub fn func(&mut self, id: u32) -> R<Rc<CFunc>> {
        if let Some(c) = &self.fns[id as usize].cf { return Ok(c.clone()); }
        let (s, e) = self.fns[id as usize].body.ok_or_else(|| format!("no body: {}", self.fns[id as usize].name))?;
        let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(&self.text[s..e]) };
        let f = Rc::new(FnParser { m: self, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 }.parse(text, id)
            .map_err(|x| format!("{x} (function {})", self.fns[id as usize].demangled))?);
        self.fns[id as usize].cf = Some(f.clone());
        Ok(f)
    }
}

fn num_prefix(s: &str) -> u32 {
    let n = s.bytes().take_while(|c| c.is_ascii_digit()).count();
    s[..n].parse().unwrap_or(0)
}

fn memchr(c: u8, b: &[u8]) -> Option<usize> { b.iter().position(|x| *x == c) }

fn fn_name_of(line: &str) -> Option<String> {
    // the first '@' outside of quotes/attribute strings that is followed by NAME '('
    let mut lx = Lex::new(line);
    loop {
        match lx.next() {
            Tok::Glob(n) => return Some(n.to_string()),
            Tok::End => return None,
            _ => {}
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { out.push(b'\\'); i += 2; continue; }
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else { out.push(b[i]); i += 1; }
    }
    out
}

struct FnParser<'m> {
    m: &'m mut Module,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
    nblocks: u32,
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn block(&mut self, n: &'static str) -> u32 {
        if let Some(b) = self.blocks.get(n) { return *b; }
        let k = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, k);
        k
    }

    fn opnd(&mut self, t: TyId, lx: &mut Lex<'static>) -> R<Opnd> {
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            return Ok(Opnd::R(self.reg(n)));
        }
        Ok(Opnd::C(self.m.parse_const(t, lx)?))
    }
    fn ty_opnd(&mut self, lx: &mut Lex<'static>) -> R<(TyId, Opnd)> {
        let t = self.m.parse_ty(lx)?;
        let o = self.opnd(t, lx)?;
        Ok((t, o))
    }
    fn label(&mut self, lx: &mut Lex<'static>) -> R<u32> {
        if !lx.eat_word("label") { return Err(format!("label in {}", cut(lx.s))); }
        match lx.next() { Tok::Local(n) => Ok(self.block(n)), t => Err(format!("label {:?}", t)) }
    }

    fn parse(&mut self, text: &'static str, id: u32) -> R<CFunc> {
        // header
        let hdr_end = text.find('\n').unwrap();
        let hdr = &text[..hdr_end];
        let mut lx = Lex::new(hdr);
        loop {
            match lx.next() { Tok::Glob(_) => break, Tok::End => return Err("header".into()), _ => {} }
        }
        lx.expect(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == Tok::Ellipsis { lx.next(); lx.expect(b')')?; break; }
                self.m.parse_ty(&mut lx)?;
                // attributes until the name
                loop {
                    match lx.peek() {
                        Tok::Local(n) => {
                            lx.next();
                            if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                            let r = self.reg(n);
                            params.push(r);
                            break;
                        }
                        Tok::P(b'(') => lx.skip_group(),
                        Tok::P(b',') | Tok::P(b')') => return Err(format!("unnamed param without a name: {}", cut(hdr))),
                        Tok::End => return Err("header params".into()),
                        _ => { lx.next(); }
                    }
                }
                if lx.eat(b')') { break; }
                lx.expect(b',')?;
            }
        }
        // body: join continuation lines
        let mut blocks: Vec<Option<Block>> = vec![];
        let entry_name: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
        let mut cur: Option<u32> = None;
        let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, Opnd)>)>> = HashMap::new();
        let mut it = text[hdr_end + 1..].lines().peekable();
        let mut owned: String;
        while let Some(line) = it.next() {
            let l = line.trim_end();
            if l.is_empty() || l == "}" { continue; }
            let tl = l.trim_start();
            if tl.starts_with(';') || tl.starts_with("#dbg") { continue; }
            if !l.starts_with(' ') {
                // label
                let mut lx = Lex::new(l);
                let n = match lx.next() { Tok::Word(w) => w, Tok::Str(w) => w, t => return Err(format!("label line {:?} {}", t, l)) };
                let b = self.block(n);
                cur = Some(b);
                while blocks.len() <= b as usize { blocks.push(None); }
                blocks[b as usize] = Some(Block::default());
                continue;
            }
            if cur.is_none() {
                let b = self.block(entry_name);
                cur = Some(b);
                while blocks.len() <= b as usize { blocks.push(None); }
                blocks[b as usize] = Some(Block::default());
            }
            let mut stmt: &'static str = tl;
            // multi-line statements
            let is_switch = tl.starts_with("switch ") && tl.ends_with('[');
            let mut has_more = |it: &mut std::iter::Peekable<std::str::Lines<'static>>| -> bool {
                it.peek().map_or(false, |n| n.starts_with("          ") )
            };
            if is_switch {
                owned = tl.to_string();
                for n in it.by_ref() { owned.push(' '); owned.push_str(n.trim()); if n.trim_start().starts_with(']') { break; } }
                stmt = Box::leak(owned.into_boxed_str());
            } else if has_more(&mut it) {
                owned = tl.to_string();
                while has_more(&mut it) { owned.push(' '); owned.push_str(it.next().unwrap().trim()); }
                stmt = Box::leak(owned.into_boxed_str());
            }
            let dbg = match stmt.rfind("!dbg !") { Some(k) => num_prefix(&stmt[k + 6..]), None => 0 };
            let b = cur.unwrap();
            let mut lx = Lex::new(stmt);
            let mut dst: Option<u32> = None;
            if let Tok::Local(n) = lx.peek() {
                lx.next();
                lx.expect(b'=')?;
                dst = Some(self.reg(n));
            }
            if lx.peek() == Tok::Word("phi") {
                lx.next();
                while let Tok::Word("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") = lx.peek() { lx.next(); }
                let t = self.m.parse_ty(&mut lx)?;
                let e = phis.entry(b).or_default();
                let mut adds = vec![];
                loop {
                    lx.expect(b'[')?;
                    let v = if let Tok::Local(n) = lx.peek() { lx.next(); let k = self.regs.len() as u32; Opnd::R(*self.regs.entry(n).or_insert(k)) } else { Opnd::C(self.m.parse_const(t, &mut lx)?) };
                    lx.expect(b',')?;
                    let p = match lx.next() { Tok::Local(n) => n, t => return Err(format!("phi {:?}", t)) };
                    let pb = if let Some(x) = self.blocks.get(p) { *x } else { let k = self.nblocks; self.nblocks += 1; self.blocks.insert(p, k); k };
                    lx.expect(b']')?;
                    adds.push((pb, v));
                    if !lx.eat(b',') { break; }
                    if let Tok::Meta(_) = lx.peek() { break; }
                }
                for (pb, v) in adds {
                    match e.iter_mut().find(|x| x.0 == pb) {
                        Some(x) => { if !x.1.iter().any(|y| y.0 == dst.unwrap()) { x.1.push((dst.unwrap(), v)); } }
                        None => e.push((pb, vec![(dst.unwrap(), v)])),
                    }
                }
                continue;
            }
            let inst = match self.inst(&mut lx, dst, stmt) {
                Ok(Some(i)) => i,
                Ok(None) => continue,
                Err(e) => Inst::Unsupported(e),
            };
            let blk = blocks[b as usize].as_mut().unwrap();
            if dbg != 0 && blk.dbg.last() != Some(&dbg) { blk.dbg.push(dbg); }
            blk.insts.push(inst);
        }
        while blocks.len() < self.nblocks as usize { blocks.push(None); }
        let mut out = vec![];
        for (i, b) in blocks.into_iter().enumerate() {
            let mut b = b.unwrap_or_default();
            if let Some(p) = phis.remove(&(i as u32)) { b.phis = p; }
            if b.insts.is_empty() { b.insts.push(Inst::Unsupported("empty block".into())); }
            out.push(b);
        }
        // the entry block must be first: it is numbered when first seen
        let entry = 0;
        let _ = entry;
        Ok(CFunc { name: self.m.fns[id as usize].name.clone(), nregs: self.regs.len() as u32, params, blocks: out, dbg: self.m.fns[id as usize].dbg, id })
    }

    fn skip_attrs_to_type(&mut self, lx: &mut Lex<'static>) {
        loop {
            match lx.peek() {
                Tok::Word(w) => {
                    if matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token") { return; }
                    if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) { return; }
                    lx.next();
                    if w == "align" || w == "cc" { if lx.peek() == Tok::P(b'(') { lx.skip_group(); } else { lx.next(); } }
                    else if lx.peek() == Tok::P(b'(') { lx.skip_group(); }
                }
                Tok::Str(_) => { lx.next(); if lx.eat(b'=') { lx.next(); } }
                _ => return,
            }
        }
    }

    fn call(&mut self, lx: &mut Lex<'static>, dst: Option<u32>, invoke: bool) -> R<Option<Inst>> {
        self.skip_attrs_to_type(lx);
        let ret = self.m.parse_ty(lx)?;
        if lx.peek() == Tok::P(b'(') { lx.skip_group(); } // function type
        let callee = match lx.next() {
            Tok::Glob(n) => {
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") {
                    if !invoke { return Ok(None); }
                }
                match self.m.fmap.get(n) {
                    Some(f) => Callee::Fn(*f),
                    None => return Err(format!("call to unknown {n}")),
                }
            }
            Tok::Local(n) => Callee::Ind(Opnd::R(self.reg(n))),
            Tok::Word("asm") => {
                let mut s = String::new();
                loop {
                    match lx.next() {
                        Tok::Str(x) => { s = x.to_string(); break; }
                        Tok::End => break,
                        _ => {}
                    }
                }
                lx.expect(b',')?;
                lx.next();
                Callee::Asm(s)
            }
            Tok::Word("inttoptr") | Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") => return Err("call to constant".into()),
            t => return Err(format!("callee {:?} in {}", t, cut(lx.s))),
        };
        lx.expect(b'(')?;
        let mut args = vec![];
        if !lx.eat(b')') {
            loop {
                if lx.peek() == Tok::Word("metadata") {
                    lx.next();
                    // metadata operand: skip to ',' or ')'
                    loop {
                        match lx.peek() {
                            Tok::P(b',') | Tok::P(b')') | Tok::End => break,
                            Tok::P(b'{') | Tok::P(b'(') => lx.skip_group(),
                            _ => { lx.next(); }
                        }
                    }
                    args.push(Opnd::C(Val::C(0)));
                } else {
                    let t = self.m.parse_ty(lx)?;
                    // attributes
                    loop {
                        match lx.peek() {
                            Tok::Word(w) => {
                                if is_value_word(w) { break; }
                                lx.next();
                                if w == "align" { if lx.peek() == Tok::P(b'(') { lx.skip_group(); } else { lx.next(); } }
                                else if lx.peek() == Tok::P(b'(') { lx.skip_group(); }
                            }
                            Tok::Str(_) => { lx.next(); if lx.eat(b'=') { lx.next(); } }
                            _ => break,
                        }
                    }
                    args.push(self.opnd(t, lx)?);
                }
                if lx.eat(b')') { break; }
                lx.expect(b',')?;
            }
        }
        let mut normal = None;
        if invoke {
            loop {
                match lx.peek() {
                    Tok::Word("to") => { lx.next(); break; }
                    Tok::P(b'[') | Tok::P(b'(') => lx.skip_group(),
                    Tok::End => return Err("invoke".into()),
                    _ => { lx.next(); }
                }
            }
            normal = Some(self.label(lx)?);
        }
        Ok(Some(Inst::Call { dst, ret, callee, args, normal }))
    }

    fn lanes(&self, t: TyId) -> (u32, u32) {
        match self.m.types[t as usize] { Ty::Vec(n, e) => (self.m.width(e), n as u32), _ => (self.m.width(t), 0) }
    }

    fn inst(&mut self, lx: &mut Lex<'static>, dst: Option<u32>, stmt: &'static str) -> R<Option<Inst>> {
        let d = dst.unwrap_or(u32::MAX);
        let opw = match lx.next() { Tok::Word(w) => w, t => return Err(format!("inst {:?}", t)) };
        let bin = match opw {
            "add" => Some(Op::Add), "sub" => Some(Op::Sub), "mul" => Some(Op::Mul), "udiv" => Some(Op::UDiv), "sdiv" => Some(Op::SDiv),
            "urem" => Some(Op::URem), "srem" => Some(Op::SRem), "and" => Some(Op::And), "or" => Some(Op::Or), "xor" => Some(Op::Xor),
            "shl" => Some(Op::Shl), "lshr" => Some(Op::LShr), "ashr" => Some(Op::AShr), _ => None,
        };
        if let Some(op) = bin {
            while let Tok::Word("nuw" | "nsw" | "exact" | "disjoint") = lx.peek() { lx.next(); }
            let t = self.m.parse_ty(lx)?;
            let a = self.opnd(t, lx)?;
            lx.expect(b',')?;
            let b = self.opnd(t, lx)?;
            let (w, lanes) = self.lanes(t);
            return Ok(Some(Inst::Bin { op, w, lanes, dst: d, a, b }));
        }
        let cast = match opw {
            "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr), "bitcast" => Some(Cast::BitCast), "fptoui" => Some(Cast::FpToUi), "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp), "sitofp" => Some(Cast::SiToFp), "fpext" => Some(Cast::FpExt), "fptrunc" => Some(Cast::FpTrunc), _ => None,
        };
        if let Some(k) = cast {
            while let Tok::Word("nuw" | "nsw" | "nneg") = lx.peek() { lx.next(); }
            let (from, a) = self.ty_opnd(lx)?;
            lx.next(); // to
            let to = self.m.parse_ty(lx)?;
            let (fw, lanes) = self.lanes(from);
            let (tw, _) = self.lanes(to);
            return Ok(Some(Inst::Cast { k, from, to, fw, tw, lanes, dst: d, a }));
        }
        Ok(Some(match opw {
            "icmp" => {
                lx.eat_word("samesign");
                let p = match lx.next() {
                    Tok::Word(w) => match w {
                        "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, "samesign" => return Err("samesign".into()), _ => return Err(format!("icmp {w}")),
                    },
                    t => return Err(format!("icmp {:?}", t)),
                };
                let t = self.m.parse_ty(lx)?;
                let a = self.opnd(t, lx)?;
                lx.expect(b',')?;
                let b = self.opnd(t, lx)?;
                let (w, lanes) = self.lanes(t);
                Inst::Icmp { pred: p, w, lanes, dst: d, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let Tok::Word("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") = lx.peek() { lx.next(); }
                let t = self.m.parse_ty(lx)?;
                let a = self.opnd(t, lx)?;
                lx.expect(b',')?;
                let b = self.opnd(t, lx)?;
                let op = match opw { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
                Inst::FBin { op, w: self.m.width(t), dst: d, a, b }
            }
            "fneg" => { let (t, a) = self.ty_opnd(lx)?; Inst::FNeg { w: self.m.width(t), dst: d, a } }
            "fcmp" => {
                let mut p = "";
                while let Tok::Word(w) = lx.peek() {
                    if w == "float" || w == "double" { break; }
                    p = w;
                    lx.next();
                }
                let t = self.m.parse_ty(lx)?;
                let a = self.opnd(t, lx)?;
                lx.expect(b',')?;
                let b = self.opnd(t, lx)?;
                Inst::FCmp { pred: p.to_string(), w: self.m.width(t), dst: d, a, b }
            }
            "select" => {
                while let Tok::Word("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") = lx.peek() { lx.next(); }
                let (_, c) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (ty, a) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, b) = self.ty_opnd(lx)?;
                Inst::Select { dst: d, ty, c, a, b }
            }
            "freeze" => { let (_, a) = self.ty_opnd(lx)?; Inst::Freeze { dst: d, a } }
            "load" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let ty = self.m.parse_ty(lx)?;
                lx.expect(b',')?;
                let (_, p) = self.ty_opnd(lx)?;
                Inst::Load { dst: d, ty, p }
            }
            "store" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let (ty, v) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, p) = self.ty_opnd(lx)?;
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                while let Tok::Word("inbounds" | "nuw" | "nusw") = lx.peek() { lx.next(); }
                let bt = self.m.parse_ty(lx)?;
                lx.expect(b',')?;
                let (pt, base) = self.ty_opnd(lx)?;
                if let Ty::Vec(..) = self.m.types[pt as usize] { return Err("vector gep".into()); }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                while lx.eat(b',') {
                    if let Tok::Meta(_) = lx.peek() { break; }
                    let (it, i) = self.ty_opnd(lx)?;
                    let w = self.m.width(it);
                    let scale;
                    if first { scale = self.m.size(bt) as i64; first = false; }
                    else {
                        match self.m.types[cur as usize].clone() {
                            Ty::Struct(fs, p) => {
                                let Opnd::C(Val::C(k)) = i else { return Err("gep struct idx".into()) };
                                off += self.m.field_off(&fs, p, k as usize) as i64;
                                cur = fs[k as usize];
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vec(_, e) => { scale = self.m.size(e) as i64; cur = e; }
                            _ => return Err("gep".into()),
                        }
                    }
                    match i {
                        Opnd::C(Val::C(k)) => off = off.wrapping_add((sext_to_i128(k as u128, w) as i64).wrapping_mul(scale)),
                        o => idx.push((o, scale, w)),
                    }
                }
                Inst::Gep { dst: d, base, off, idx }
            }
            "alloca" => {
                lx.eat_word("inalloca");
                let t = self.m.parse_ty(lx)?;
                let (mut size, mut al) = self.m.size_align(t);
                while lx.eat(b',') {
                    match lx.peek() {
                        Tok::Word("align") => { lx.next(); al = self.m.num(lx)?; }
                        Tok::Meta(_) => break,
                        _ => {
                            let (_, n) = self.ty_opnd(lx)?;
                            match n { Opnd::C(Val::C(k)) => size *= k, _ => return Err("dynamic alloca".into()) }
                        }
                    }
                }
                Inst::Alloca { dst: d, size, align: al.max(1) }
            }
            "tail" | "musttail" | "notail" => { lx.next(); return self.call(lx, dst, false); }
            "call" => return self.call(lx, dst, false),
            "invoke" => return self.call(lx, dst, true),
            "extractvalue" => {
                let (_, a) = self.ty_opnd(lx)?;
                let mut path = vec![];
                while lx.eat(b',') { if let Tok::Meta(_) = lx.peek() { break; } path.push(self.m.num(lx)? as u32); }
                Inst::ExtractValue { dst: d, a, path }
            }
            "insertvalue" => {
                let (_, a) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, v) = self.ty_opnd(lx)?;
                let mut path = vec![];
                while lx.eat(b',') { if let Tok::Meta(_) = lx.peek() { break; } path.push(self.m.num(lx)? as u32); }
                Inst::InsertValue { dst: d, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, i) = self.ty_opnd(lx)?;
                Inst::ExtractElement { dst: d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, v) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, i) = self.ty_opnd(lx)?;
                Inst::InsertElement { dst: d, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, b) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let mt = self.m.parse_ty(lx)?;
                let mv = self.m.parse_const(mt, lx)?;
                let n = match self.m.types[t as usize] { Ty::Vec(n, _) => n as u32, _ => return Err("shuffle".into()) };
                let Val::A(ms) = mv else { return Err("shuffle mask".into()) };
                let mask = ms.iter().map(|x| match x { Val::C(c) => *c as i32, _ => -1 }).collect();
                Inst::Shuffle { dst: d, a, b, mask, n }
            }
            "atomicrmw" => {
                lx.eat_word("volatile");
                let op = match lx.next() {
                    Tok::Word(w) => match w {
                        "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or,
                        "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => return Err(format!("rmw {w}")),
                    },
                    t => return Err(format!("rmw {:?}", t)),
                };
                let (_, p) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (ty, v) = self.ty_opnd(lx)?;
                Inst::AtomicRmw { op, w: self.m.width(ty), ty, dst: d, p, v }
            }
            "cmpxchg" => {
                lx.eat_word("weak");
                lx.eat_word("volatile");
                let (_, p) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (ty, c) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let (_, n) = self.ty_opnd(lx)?;
                Inst::CmpXchg { w: self.m.width(ty), ty, dst: d, p, c, n }
            }
            "fence" => Inst::Fence,
            "br" => {
                if lx.peek() == Tok::Word("label") { Inst::Br(self.label(lx)?) } else {
                    let (_, c) = self.ty_opnd(lx)?;
                    lx.expect(b',')?;
                    let a = self.label(lx)?;
                    lx.expect(b',')?;
                    let b = self.label(lx)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_opnd(lx)?;
                lx.expect(b',')?;
                let def = self.label(lx)?;
                lx.expect(b'[')?;
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let ct = self.m.parse_ty(lx)?;
                    let c = self.m.parse_const(ct, lx)?;
                    lx.expect(b',')?;
                    let l = self.label(lx)?;
                    let c = match c { Val::C(c) => c, _ => return Err("wide switch".into()) };
                    cases.push((c, l));
                }
                Inst::Switch { w: self.m.width(t), v, def, cases }
            }
            "ret" => {
                if lx.peek() == Tok::Word("void") { Inst::Ret(None) } else { let (_, v) = self.ty_opnd(lx)?; Inst::Ret(Some(v)) }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => Inst::Unsupported(format!("unwinding: {opw}")),
            _ => return Err(format!("instruction: {}", cut(stmt))),
        }))
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "add" | "sub" | "mul" | "xor" | "and" | "or")
        || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-'
}
