//! Byte-addressed memory with concrete addresses; every byte is concrete or an 8-bit expression.
use crate::expr::*;
use crate::ir::Val;
use crate::parse::REGION_SHIFT;
use std::rc::Rc;

pub const PS: usize = 1024;
const PSH: u32 = 10;

#[derive(Clone)]
pub struct Page {
    b: [u8; PS],
    s: Option<Box<[E; PS]>>,
}

impl Page {
    fn new() -> Page { Page { b: [0; PS], s: None } }
}

#[derive(Clone, Default)]
pub struct Region {
    pages: Vec<Option<Rc<Page>>>,
    /// valid offsets are lo..hi
    pub lo: u64,
    pub hi: u64,
}

#[derive(Clone, Default)]
pub struct Mem {
    regions: Vec<Region>,
    /// heap objects, in address order: chunks of (address, size)
    objs: Vec<Rc<Vec<(u64, u64)>>>,
    tail: Vec<(u64, u64)>,
    pub brk: u64,
}

pub type MR<T> = Result<T, String>;

impl Mem {
    pub fn ensure_region(&mut self, r: usize, lo: u64, hi: u64) {
        while self.regions.len() <= r { self.regions.push(Region::default()); }
        self.regions[r].lo = lo;
        self.regions[r].hi = hi;
    }

    #[inline]
    fn loc(&self, addr: u64, n: u64) -> MR<(usize, u64)> {
        let r = (addr >> REGION_SHIFT) as usize;
        let off = addr & ((1 << REGION_SHIFT) - 1);
        match self.regions.get(r) {
            Some(g) if off >= g.lo && off + n <= g.hi => Ok((r, off)),
            _ => Err(format!("invalid memory access at {addr:#x} ({n} bytes)")),
        }
    }

    #[inline]
    fn page(&self, r: usize, p: usize) -> Option<&Page> {
        self.regions[r].pages.get(p).and_then(|x| x.as_deref())
    }

    #[inline]
    fn page_mut(&mut self, r: usize, p: usize) -> &mut Page {
        let g = &mut self.regions[r].pages;
        if g.len() <= p { g.resize(p + 1, None); }
        Rc::make_mut(g[p].get_or_insert_with(|| Rc::new(Page::new())))
    }

    pub fn byte(&self, addr: u64) -> MR<(u8, E)> {
        let (r, off) = self.loc(addr, 1)?;
        Ok(match self.page(r, (off >> PSH) as usize) {
            None => (0, NIL),
            Some(p) => {
                let k = off as usize & (PS - 1);
                match &p.s { Some(s) => (p.b[k], s[k]), None => (p.b[k], NIL) }
            }
        })
    }

    /// Reads `n` bytes (1..=16) little-endian.
    #[inline]
    pub fn read(&self, addr: u64, n: u32) -> MR<Val> {
        let (r, off) = self.loc(addr, n as u64)?;
        let k = off as usize & (PS - 1);
        if n <= 8 && k + n as usize <= PS {
            match self.page(r, (off >> PSH) as usize) {
                None => return Ok(Val::C(0)),
                Some(p) => {
                    let sym = match &p.s { None => false, Some(s) => s[k..k + n as usize].iter().any(|e| *e != NIL) };
                    if !sym {
                        let mut v = 0u64;
                        if k + 8 <= PS {
                            v = u64::from_le_bytes(p.b[k..k + 8].try_into().unwrap());
                            if n < 8 { v &= (1u64 << (8 * n)) - 1; }
                        } else {
                            for i in (0..n as usize).rev() { v = v << 8 | p.b[k + i] as u64; }
                        }
                        return Ok(Val::C(v));
                    }
                }
            }
        }
        let mut e: Option<E> = None;
        let mut allc = true;
        let mut cv = 0u128;
        for i in (0..n as u64).rev() {
            let (b, s) = self.byte(addr + i)?;
            let x = if s == NIL { cst(b as u128, 8) } else { allc = false; s };
            cv = cv << 8 | b as u128;
            e = Some(match e { None => x, Some(h) => concat(h, x) });
        }
        if allc && n <= 8 { return Ok(Val::C(cv as u64)); }
        let e = e.unwrap();
        if n <= 8 { if let Some(c) = as_const(e) { return Ok(Val::C(c as u64)); } }
        Ok(Val::S(e))
    }

    #[inline]
    pub fn write(&mut self, addr: u64, n: u32, v: &Val) -> MR<()> {
        let (r, off) = self.loc(addr, n as u64)?;
        let k = off as usize & (PS - 1);
        match v {
            Val::C(c) => {
                if k + n as usize <= PS {
                    let p = self.page_mut(r, (off >> PSH) as usize);
                    let nn = (n as usize).min(8);
                    p.b[k..k + nn].copy_from_slice(&c.to_le_bytes()[..nn]);
                    for i in nn..n as usize { p.b[k + i] = 0; }
                    if let Some(s) = &mut p.s { s[k..k + n as usize].fill(NIL); }
                } else {
                    for i in 0..n as u64 {
                        let b = if i < 8 { (c >> (8 * i)) as u8 } else { 0 };
                        self.write_byte(r, off + i, b, NIL);
                    }
                }
            }
            Val::S(e) => {
                let w = width(*e);
                let e = if w < 8 * n { zext(*e, 8 * n) } else { *e };
                for i in 0..n as u64 {
                    let b = extract(e, 8 * i as u32 + 7, 8 * i as u32);
                    match as_const(b) {
                        Some(c) => self.write_byte(r, off + i, c as u8, NIL),
                        None => self.write_byte(r, off + i, 0, b),
                    }
                }
            }
            Val::A(_) => return Err("aggregate write".into()),
        }
        Ok(())
    }

    fn write_byte(&mut self, r: usize, off: u64, b: u8, s: E) {
        let k = off as usize & (PS - 1);
        let p = self.page_mut(r, (off >> PSH) as usize);
        p.b[k] = b;
        if let Some(x) = &mut p.s { x[k] = s; }
        else if s != NIL {
            let mut x = Box::new([NIL; PS]);
            x[k] = s;
            p.s = Some(x);
        }
    }

    pub fn set_byte(&mut self, addr: u64, b: u8, s: E) -> MR<()> {
        let (r, off) = self.loc(addr, 1)?;
        self.write_byte(r, off, b, s);
        Ok(())
    }

    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> MR<()> {
        if n == 0 || dst == src { return Ok(()); }
        let (rs, os) = self.loc(src, n)?;
        let (rd, od) = self.loc(dst, n)?;
        // gather then scatter, so overlap is harmless
        let mut bytes = vec![0u8; n as usize];
        let mut syms: Vec<(u64, E)> = vec![];
        let mut i = 0u64;
        while i < n {
            let o = os + i;
            let k = o as usize & (PS - 1);
            let m = ((PS - k) as u64).min(n - i) as usize;
            if let Some(p) = self.page(rs, (o >> PSH) as usize) {
                bytes[i as usize..i as usize + m].copy_from_slice(&p.b[k..k + m]);
                if let Some(s) = &p.s {
                    for j in 0..m { if s[k + j] != NIL { syms.push((i + j as u64, s[k + j])); } }
                }
            }
            i += m as u64;
        }
        i = 0;
        while i < n {
            let o = od + i;
            let k = o as usize & (PS - 1);
            let m = ((PS - k) as u64).min(n - i) as usize;
            let p = self.page_mut(rd, (o >> PSH) as usize);
            p.b[k..k + m].copy_from_slice(&bytes[i as usize..i as usize + m]);
            if let Some(s) = &mut p.s { s[k..k + m].fill(NIL); }
            i += m as u64;
        }
        for (j, e) in syms { self.write_byte(rd, od + j, 0, e); }
        Ok(())
    }

    pub fn fill(&mut self, dst: u64, b: u8, s: E, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        let (r, off) = self.loc(dst, n)?;
        for i in 0..n { self.write_byte(r, off + i, b, s); }
        Ok(())
    }

    pub fn write_bytes(&mut self, dst: u64, b: &[u8]) -> MR<()> {
        if b.is_empty() { return Ok(()); }
        let (r, off) = self.loc(dst, b.len() as u64)?;
        for (i, x) in b.iter().enumerate() { self.write_byte(r, off + i as u64, *x, NIL); }
        Ok(())
    }

    /// concrete bytes; symbolic ones are an error
    pub fn cbytes(&self, addr: u64, n: u64) -> MR<Vec<u8>> {
        (0..n).map(|i| { let (b, s) = self.byte(addr + i)?; if s != NIL { Err("symbolic byte".to_string()) } else { Ok(b) } }).collect()
    }

    pub fn alloc(&mut self, heap_base: u64, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (heap_base + self.brk).next_multiple_of(al);
        self.brk = a - heap_base + size.max(1) + 16;
        let r = (heap_base >> REGION_SHIFT) as usize;
        self.ensure_region(r, 0, self.brk);
        self.tail.push((a, size));
        if self.tail.len() == 256 {
            let t = std::mem::take(&mut self.tail);
            self.objs.push(Rc::new(t));
        }
        a
    }

    /// the object containing `addr`
    pub fn object(&self, addr: u64) -> Option<(u64, u64)> {
        let find = |v: &[(u64, u64)]| -> Option<(u64, u64)> {
            let k = v.partition_point(|x| x.0 <= addr);
            if k == 0 { return None; }
            let o = v[k - 1];
            if addr <= o.0 + o.1 { Some(o) } else { None }
        };
        if let Some(f) = self.tail.first() { if addr >= f.0 { return find(&self.tail); } }
        let k = self.objs.partition_point(|c| c[0].0 <= addr);
        if k == 0 { return None; }
        find(&self.objs[k - 1])
    }

    pub fn nobjs(&self) -> usize { self.objs.len() * 256 + self.tail.len() }
}
