//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::parse::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub struct Opts {
    pub max_time: Duration,
    pub max_steps: u64,
    pub max_paths: u64,
    pub part: (u64, u64),
    pub trace: bool,
    pub all: bool,
    pub concrete: Option<Vec<u64>>, pub witness: usize }

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<CFunc>,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub sp_save: u64,
    pub ret_dst: Option<u32>,
    pub ret_normal: Option<u32>,
}

#[derive(Clone)]
pub struct Thread {
    pub top: Frame,
    pub below: Vec<Rc<Frame>>,
    pub sp: u64,
    pub id: usize,
    pub tls: HashMap<u32, u64>,
    pub tls_brk: u64,
}

#[derive(Clone)]
pub struct Input { pub name: Rc<str>, pub w: u32, pub e: E }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub cur: usize,
    pub th: Thread,
    pub others: Vec<Option<Rc<Thread>>>,
    pub pc: Vec<E>,
    pub facts: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub steps: u64,
    pub chain: u32,
    pub forks: u32,
    pub fhash: u64,
    pub log: Vec<Rc<str>>,
    pub covers: Vec<Rc<str>>,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u32, u64)>,
    pub log: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: u64,
    pub infeasible: u64,
    pub violated: u64,
    pub errors: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub assert_trivial: u64,
    pub cache_hits: u64,
    pub max_pc: usize,
    pub max_inputs: usize,
}

enum Flow { Cont, End(EndKind) }
#[derive(PartialEq)]
enum EndKind { Ok, Infeasible, Violated }

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    None, NoBody,
    Memcpy, Memset, Memcmp, Bcmp, Strlen, Memchr,
    UMin, UMax, SMin, SMax, Abs, USubSat, UAddSat, SAddSat, SSubSat,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    Fshl, Fshr, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Scmp, Ucmp,
    Nop, Assume, Tls, IsConst, Expect, PtrMask, Trap, Identity, Reduce(u8),
    Malloc, Calloc, Realloc, Free, PosixMemalign,
    SymVar, SymAssume, SymAssert, SymCover, SymChoose, SymTrace, SymConc, SymThreadNew, SymSwitch, SymEnd, SymFail, SymIsSym, SymLog, SymVal, SymPossible,
    Panic, Abort,
    Zero, One, Write, Writev, Errno, GetRandom, ClockGettime, Syscall, PthreadSelf,
}

pub struct Exec {
    pub m: Module,
    pub z3: Z3,
    pub opts: Opts,
    pub stats: Stats,
    pub work: Vec<State>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    vars: HashMap<(String, u32), E>,
    builtins: Vec<Option<B>>,
    pub cov: Vec<Vec<bool>>,
    pub violations: Vec<Violation>,
    pub witnesses: Vec<(Vec<(String, u32, u64)>, Vec<String>)>,
    wkeys: HashMap<String, u64>,
    pub vkeys: HashSet<String>,
    pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub assert_msgs: BTreeMap<String, u64>,
    pub unsupported_ext: BTreeSet<String>,
    pub t0: Instant,
    pub stubs: BTreeSet<String>,
}

type R<T> = Result<T, String>;

fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::C(c) => cst(*c as u128, w),
        Val::S(e) => *e,
        Val::A(vs) => {
            // vector of scalars to one wide value
            let lw = w / vs.len() as u32;
            let mut e: Option<E> = None;
            for v in vs.iter().rev() {
                let x = to_e(v, lw);
                e = Some(match e { None => x, Some(h) => concat(h, x) });
            }
            e.unwrap()
        }
    }
}

fn from_e(e: E) -> Val {
    if width(e) <= 64 { if let Some(c) = as_const(e) { return Val::C(c as u64); } }
    Val::S(e)
}

#[inline]
fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline]
fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn bin64(op: Op, w: u32, a: u64, b: u64) -> Option<u64> {
    let m = m64(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => if b >= w as u64 { 0 } else { ((sx(a, w) >> b) as u64) & m },
        Op::UDiv => if b == 0 { return None } else { a / b },
        Op::URem => if b == 0 { return None } else { a % b },
        Op::SDiv => if b == 0 { return None } else { (sx(a, w).wrapping_div(sx(b, w)) as u64) & m },
        Op::SRem => if b == 0 { return None } else { (sx(a, w).wrapping_rem(sx(b, w)) as u64) & m },
        _ => return None,
    })
}

fn icmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b,
        Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w), Pred::Sge => sx(a, w) >= sx(b, w), Pred::Slt => sx(a, w) < sx(b, w), Pred::Sle => sx(a, w) <= sx(b, w),
    }
}

fn icmp_e(p: Pred, a: E, b: E) -> E {
    match p {
        Pred::Eq => eq(a, b), Pred::Ne => not(eq(a, b)),
        Pred::Ugt => bin(Op::Ult, b, a), Pred::Uge => bin(Op::Ule, b, a), Pred::Ult => bin(Op::Ult, a, b), Pred::Ule => bin(Op::Ule, a, b),
        Pred::Sgt => bin(Op::Slt, b, a), Pred::Sge => bin(Op::Sle, b, a), Pred::Slt => bin(Op::Slt, a, b), Pred::Sle => bin(Op::Sle, a, b),
    }
}

fn bin_v(op: Op, w: u32, a: &Val, b: &Val) -> R<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        if w <= 64 { return bin64(op, w, *x, *y).map(Val::C).ok_or_else(|| "division by zero".to_string()); }
    }
    Ok(from_e(bin(op, to_e(a, w), to_e(b, w))))
}

fn icmp_v(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) { return Val::C(icmp64(p, w, *x, *y) as u64); }
    from_e(icmp_e(p, to_e(a, w), to_e(b, w)))
}

/// (guard, address) leaves of an ite tree with constant leaves
fn leaves(e: E, out: &mut Vec<(E, u64)>, g: E) -> bool {
    if out.len() > 16 { return false; }
    let n = node(e);
    match n.op {
        Op::Const(c) => { out.push((g, c as u64)); true }
        Op::Ite => leaves(n.a[1], out, and(g, n.a[0])) && leaves(n.a[2], out, and(g, not(n.a[0]))),
        Op::Add => match as_const(n.a[1]) {
            Some(k) => {
                let mut t = vec![];
                if !leaves(n.a[0], &mut t, g) { return false; }
                out.extend(t.into_iter().map(|(g, a)| (g, a.wrapping_add(k as u64))));
                true
            }
            None => false,
        },
        _ => false,
    }
}

impl Exec {
    pub fn new(m: Module, z3: Z3, opts: Opts) -> Exec {
        let n = m.fns.len();
        Exec {
            m, z3, opts, stats: Default::default(), work: vec![], cache: HashMap::new(), vars: HashMap::new(), builtins: vec![None; n], cov: vec![vec![]; n],
            violations: vec![], witnesses: vec![], wkeys: HashMap::new(), vkeys: HashSet::new(), errors: BTreeMap::new(), covers: BTreeMap::new(), assert_msgs: BTreeMap::new(),
            unsupported_ext: BTreeSet::new(), t0: Instant::now(), stubs: BTreeSet::new(),
        }
    }

    pub fn initial(&mut self, entry: &str, arg: u64) -> R<State> {
        let fid = *self.m.fmap.get(entry).ok_or_else(|| format!("no entry {entry}"))?;
        let mut mem = Mem::default();
        let gr = (GLOBAL_BASE >> REGION_SHIFT) as usize;
        mem.ensure_region(gr, 0, self.m.globals_end - GLOBAL_BASE);
        for g in 0..self.m.globals.len() {
            match self.m.global_init(g) {
                Ok(Some(b)) => { let a = self.m.globals[g].addr; mem.write_bytes(a, &b)?; }
                Ok(None) => {}
                Err(e) => return Err(format!("global {}: {e}", self.m.globals[g].name)),
            }
        }
        let f = self.m.func(fid)?;
        let th = self.new_thread(&mut mem, 0, f, vec![Val::C(arg)])?;
        Ok(State {
            mem, cur: 0, th, others: vec![None], pc: vec![], facts: vec![], model: Rc::new(HashMap::new()), inputs: vec![], steps: 0, chain: 0, forks: 0, fhash: 0, log: vec![], covers: vec![],
        })
    }

    fn new_thread(&mut self, mem: &mut Mem, id: usize, f: Rc<CFunc>, args: Vec<Val>) -> R<Thread> {
        let sr = (STACK_BASE >> REGION_SHIFT) as usize + 2 * id;
        mem.ensure_region(sr, 4096, 4096 + (8 << 20));
        mem.ensure_region(sr + 1, 4096, 4096 + (1 << 20));
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a; }
        self.mark(&f, 0);
        let sp = ((sr as u64) << REGION_SHIFT) + 4096;
        Ok(Thread {
            top: Frame { f, regs, block: 0, ip: 0, sp_save: sp, ret_dst: None, ret_normal: None },
            below: vec![], sp, id, tls: HashMap::new(), tls_brk: (((sr as u64) + 1) << REGION_SHIFT) + 4096,
        })
    }

    fn mark(&mut self, f: &CFunc, b: u32) {
        let c = &mut self.cov[f.id as usize];
        if c.is_empty() { c.resize(f.blocks.len(), false); }
        c[b as usize] = true;
    }

    // ---------- solver ----------

    fn slice(&self, pc: &[E], extra: E) -> Vec<E> {
        let mut vars: HashSet<u32> = support(extra).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let sup: Vec<_> = pc.iter().map(|c| support(*c)).collect();
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if used[i] { continue; }
                if sup[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(sup[i].iter());
                }
            }
            if !ch { break; }
        }
        let mut r: Vec<E> = pc.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect();
        r.push(extra);
        r.sort_unstable();
        r.dedup();
        r
    }

    /// Is pc ∧ c satisfiable? Returns the model of the affected variables.
    fn sat(&mut self, pc: &[E], c: E) -> R<Option<Rc<Vec<(u32, u128)>>>> {
        if as_const(c) == Some(0) { return Ok(None); }
        let key = self.slice(pc, c);
        if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; return Ok(r.clone()); }
        let mut vars: Vec<u32> = vec![];
        for k in &key { vars.extend(support(*k).iter()); }
        vars.sort_unstable();
        vars.dedup();
        if std::env::var("LLSYM_Q").is_ok() { eprintln!("Q {}", show(c, 7)); }
        let r = match self.z3.check(&key, &vars) {
            Res::Sat(v) => Some(Rc::new(v)),
            Res::Unsat => None,
            Res::Unknown => return Err("solver gave no answer".into()),
        };
        self.cache.insert(key, r.clone());
        Ok(r)
    }

    fn merge(model: &Rc<Model>, m: &[(u32, u128)]) -> Rc<Model> {
        let mut n = (**model).clone();
        for (k, v) in m { n.insert(*k, *v); }
        Rc::new(n)
    }

    fn holds(st: &State, c: E) -> Option<bool> {
        if let Some(v) = as_const(c) { return Some(v == 1); }
        let nc = not(c);
        for x in st.pc.iter().rev().chain(st.facts.iter().rev()) {
            if *x == c { return Some(true); }
            if *x == nc { return Some(false); }
        }
        None
    }

    fn add_pc(st: &mut State, c: E) {
        let n = node(c);
        if n.op == Op::And && n.w == 1 {
            Self::add_pc(st, n.a[0]);
            Self::add_pc(st, n.a[1]);
            return;
        }
        if as_const(c) == Some(1) || st.pc.contains(&c) { return; }
        st.pc.push(c);
    }

    fn fork(&mut self, st: &State) -> State {
        self.stats.forks += 1;
        st.clone()
    }

    /// Splits work between processes on the first forks of a path. `side` distinguishes the two sides.
    fn note_fork(&self, st: &mut State, side: u64) {
        if st.forks < 14 {
            st.forks += 1;
            st.fhash = (st.fhash ^ (side + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(23);
        }
    }
    fn push_work(&mut self, st: State) {
        self.work.push(st);
    }
    fn in_part(&self, st: &State) -> bool {
        let (i, n) = self.opts.part;
        n <= 1 || st.forks < 14 || (st.fhash >> 20) % n == i
    }
    fn mine_at_end(&self, st: &State) -> bool {
        let (i, n) = self.opts.part;
        n <= 1 || (st.fhash >> 20) % n == i
    }

    /// Decides the direction `st` takes on `c`, leaving the other one (if feasible) on the work list.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = Self::holds(st, c) { return Ok(b); }
        let v = eval(c, &st.model, &mut HashMap::new()) == 1;
        let (mine, other) = if v { (c, not(c)) } else { (not(c), c) };
        match self.sat(&st.pc, other)? {
            None => st.facts.push(mine),
            Some(m) => {
                let mut s2 = self.fork(st);
                s2.model = Self::merge(&st.model, &m);
                Self::add_pc(&mut s2, other);
                self.note_fork(&mut s2, !v as u64);
                if self.in_part(&s2) { self.push_work(s2); }
                self.note_fork(st, v as u64);
                Self::add_pc(st, mine);
            }
        }
        Ok(v)
    }

    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::A(_) => Err("concretize aggregate".into()),
            Val::S(e) => {
                let e = *e;
                let x = eval(e, &st.model, &mut HashMap::new());
                let same = eq(e, cst(x, w));
                if Self::holds(st, same) == Some(true) { return Ok(x as u64); }
                let ne = not(same);
                match self.sat(&st.pc, ne)? {
                    None => st.facts.push(same),
                    Some(m) => {
                        st.chain += 1;
                        if st.chain > 300 { return Err("too many values to enumerate".into()); }
                        let mut s2 = self.fork(st);
                        s2.model = Self::merge(&st.model, &m);
                        Self::add_pc(&mut s2, ne);
                        self.note_fork(&mut s2, 1000 + st.chain as u64);
                        if self.in_part(&s2) { self.push_work(s2); }
                        self.note_fork(st, x as u64);
                        Self::add_pc(st, same);
                    }
                }
                Ok(x as u64)
            }
        }
    }

    // ---------- values ----------

    #[inline]
    fn get(st: &State, o: &Opnd) -> Val {
        match o { Opnd::R(r) => st.th.top.regs[*r as usize].clone(), Opnd::C(v) => v.clone() }
    }

    fn conc_opnd(&mut self, st: &mut State, o: &Opnd, w: u32) -> R<u64> {
        match o {
            Opnd::C(Val::C(c)) => Ok(*c),
            Opnd::R(r) => {
                if let Val::C(c) = &st.th.top.regs[*r as usize] { return Ok(*c); }
                let v = st.th.top.regs[*r as usize].clone();
                let c = self.concretize(st, &v, w)?;
                st.th.top.regs[*r as usize] = Val::C(c);
                Ok(c)
            }
            _ => Err("bad operand".into()),
        }
    }

    fn load_c(&self, st: &State, ty: TyId, addr: u64) -> R<Val> {
        match &self.m.types[ty as usize] {
            Ty::Int(w) => {
                let w = *w;
                let n = w.div_ceil(8);
                let v = if n <= 16 { st.mem.read(addr, n)? } else {
                    let mut e: Option<E> = None;
                    let mut i = n;
                    while i > 0 {
                        let k = if i % 8 == 0 { 8 } else { i % 8 };
                        i -= k;
                        let x = to_e(&st.mem.read(addr + i as u64, k)?, 8 * k);
                        e = Some(match e { None => x, Some(h) => concat(h, x) });
                    }
                    Val::S(e.unwrap())
                };
                if w == n * 8 { return Ok(v); }
                Ok(match v { Val::C(c) => Val::C(c & m64(w)), Val::S(e) => from_e(extract(e, w - 1, 0)), _ => unreachable!() })
            }
            Ty::Ptr | Ty::F64 => st.mem.read(addr, 8),
            Ty::F32 => st.mem.read(addr, 4),
            Ty::Struct(fs, p) => {
                let mut out = Vec::with_capacity(fs.len());
                for i in 0..fs.len() { out.push(self.load_c(st, fs[i], addr + self.m.field_off(fs, *p, i))?); }
                Ok(Val::A(Rc::new(out)))
            }
            Ty::Array(n, e) => {
                let s = self.m.size(*e);
                let mut out = vec![];
                for i in 0..*n { out.push(self.load_c(st, *e, addr + i * s)?); }
                Ok(Val::A(Rc::new(out)))
            }
            Ty::Vec(n, e) => {
                let w = self.m.width(*e);
                if w % 8 != 0 {
                    let tot = w * *n as u32;
                    let v = to_e(&st.mem.read(addr, tot.div_ceil(8))?, tot.div_ceil(8) * 8);
                    return Ok(Val::A(Rc::new((0..*n as u32).map(|i| from_e(extract(v, i * w + w - 1, i * w))).collect())));
                }
                let mut out = vec![];
                for i in 0..*n { out.push(self.load_c(st, *e, addr + i * (w as u64 / 8))?); }
                Ok(Val::A(Rc::new(out)))
            }
            t => Err(format!("load of {:?}", t)),
        }
    }

    fn store_c(&self, st: &mut State, ty: TyId, v: &Val, addr: u64) -> R<()> {
        match (&self.m.types[ty as usize], v) {
            (Ty::Int(w), v) => {
                let n = w.div_ceil(8);
                if n <= 16 || matches!(v, Val::S(_)) { st.mem.write(addr, n, v) } else { Err("wide store".into()) }
            }
            (Ty::Ptr, v) | (Ty::F64, v) => st.mem.write(addr, 8, v),
            (Ty::F32, v) => st.mem.write(addr, 4, v),
            (Ty::Struct(fs, p), Val::A(vs)) => {
                for i in 0..fs.len() { self.store_c(st, fs[i], &vs[i], addr + self.m.field_off(fs, *p, i))?; }
                Ok(())
            }
            (Ty::Array(_, e), Val::A(vs)) => {
                let s = self.m.size(*e);
                for (i, x) in vs.iter().enumerate() { self.store_c(st, *e, x, addr + i as u64 * s)?; }
                Ok(())
            }
            (Ty::Vec(n, e), Val::A(vs)) => {
                let w = self.m.width(*e);
                if w % 8 != 0 {
                    let x = from_e(to_e(v, w * *n as u32));
                    return st.mem.write(addr, (w * *n as u32).div_ceil(8), &x);
                }
                for (i, x) in vs.iter().enumerate() { self.store_c(st, *e, x, addr + i as u64 * (w as u64 / 8))?; }
                Ok(())
            }
            (t, v) => Err(format!("store of {:?} {:?}", t, v)),
        }
    }

    fn ite_v(c: E, a: &Val, b: &Val, w: u32) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    let w = match (p, q) { (Val::S(e), _) | (_, Val::S(e)) => width(*e), _ => 64 };
                    o.push(Self::ite_v(c, p, q, w)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            (Val::C(x), Val::C(y)) if x == y => Ok(a.clone()),
            _ => Ok(from_e(ite(c, to_e(a, w), to_e(b, w)))),
        }
    }

    fn global_object(&self, a: u64) -> Option<(u64, u64)> {
        let k = self.m.globals.partition_point(|g| g.addr <= a);
        if k == 0 { return None; }
        let g = &self.m.globals[k - 1];
        if a <= g.addr + g.size { Some((g.addr, g.size)) } else { None }
    }

    fn load(&mut self, st: &mut State, ty: TyId, p: &Opnd) -> R<Val> {
        let pv = Self::get(st, p);
        match pv {
            Val::C(a) => self.load_c(st, ty, a),
            Val::S(e) => {
                let w = self.m.width(ty);
                let mut ls = vec![];
                if w > 0 && leaves(e, &mut ls, tru()) && !ls.is_empty() {
                    let mut ok = true;
                    let mut acc: Option<Val> = None;
                    for (g, a) in ls.iter().rev() {
                        match self.load_c(st, ty, *a) {
                            Ok(v) => acc = Some(match acc { None => v, Some(o) => Self::ite_v(*g, &v, &o, w)? }),
                            Err(_) => { ok = false; break; }
                        }
                    }
                    if ok { return Ok(acc.unwrap()); }
                }
                // table lookup inside one object
                let n = self.m.size(ty);
                let a = eval(e, &st.model, &mut HashMap::new()) as u64;
                let obj = if a >> REGION_SHIFT == GLOBAL_BASE >> REGION_SHIFT { self.global_object(a) } else { st.mem.object(a) };
                if let (Some((base, size)), true) = (obj, w > 0) {
                    if n <= size && a + n <= base + size && size <= 4096 {
                        let inr = bin(Op::Ule, bin(Op::Sub, e, cst(base as u128, 64)), cst((size - n) as u128, 64));
                        if self.decide(st, inr)? {
                            let mut stride = 1u64;
                            while stride < 16 {
                                let k = (stride * 2).trailing_zeros();
                                match as_const(extract(e, k - 1, 0)) { Some(_) => stride *= 2, None => break }
                            }
                            let first = base + (a.wrapping_sub(base) % stride);
                            let mut cand = vec![];
                            let mut x = first;
                            while x + n <= base + size { cand.push(x); x += stride; }
                            if cand.len() <= 600 {
                                let mut acc: Option<Val> = None;
                                for x in cand.iter().rev() {
                                    let v = self.load_c(st, ty, *x)?;
                                    acc = Some(match acc { None => v, Some(o) => Self::ite_v(eq(e, cst(*x as u128, 64)), &v, &o, w)? });
                                }
                                return Ok(acc.unwrap());
                            }
                        }
                    }
                }
                let a = self.conc_opnd(st, p, 64)?;
                self.load_c(st, ty, a)
            }
            _ => Err("load from aggregate".into()),
        }
    }

    fn store(&mut self, st: &mut State, ty: TyId, v: &Opnd, p: &Opnd) -> R<()> {
        let pv = Self::get(st, p);
        let val = Self::get(st, v);
        match pv {
            Val::C(a) => self.store_c(st, ty, &val, a),
            Val::S(e) => {
                let w = self.m.width(ty);
                let mut ls = vec![];
                if w > 0 && leaves(e, &mut ls, tru()) && !ls.is_empty() {
                    let mut news = vec![];
                    let mut ok = true;
                    for (g, a) in &ls {
                        match self.load_c(st, ty, *a) { Ok(o) => news.push((*a, Self::ite_v(*g, &val, &o, w)?)), Err(_) => { ok = false; break; } }
                    }
                    let distinct: HashSet<u64> = ls.iter().map(|x| x.1).collect();
                    if ok && distinct.len() == ls.len() {
                        for (a, x) in news { self.store_c(st, ty, &x, a)?; }
                        return Ok(());
                    }
                }
                let a = self.conc_opnd(st, p, 64)?;
                self.store_c(st, ty, &val, a)
            }
            _ => Err("store to aggregate".into()),
        }
    }

    // ---------- main loop ----------

    pub fn run(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.t0.elapsed() > self.opts.max_time {
                *self.errors.entry("time budget exhausted".into()).or_default() += 1;
                return;
            }
            if self.stats.paths >= self.opts.max_paths {
                *self.errors.entry("path budget exhausted".into()).or_default() += 1;
                return;
            }
            self.stats.paths += 1;
            self.run_path(st);
            if !self.violations.is_empty() && !self.opts.all { return; }
        }
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        v.push(self.m.fns[st.th.top.f.id as usize].demangled.clone());
        for f in st.th.below.iter().rev() { v.push(self.m.fns[f.f.id as usize].demangled.clone()); }
        v.truncate(40);
        v
    }

    fn run_path(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = loop {
            match self.step(&mut st) {
                Ok(Flow::Cont) => {}
                Ok(Flow::End(k)) => break Ok(k),
                Err(e) => break Err(e),
            }
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.opts.max_steps { break Err("step budget exhausted on a path".into()); }
                if self.t0.elapsed() > self.opts.max_time { break Err("time budget exhausted".into()); }
            }
        };
        self.stats.instrs += st.steps - s0;
        self.stats.max_pc = self.stats.max_pc.max(st.pc.len());
        self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len());
        if self.opts.trace { for l in &st.log { eprintln!("  log: {l}"); } eprintln!("-- path end ({} steps, {} pc)", st.steps, st.pc.len()); }
        match r {
            Ok(EndKind::Ok) => if self.mine_at_end(&st) {
                self.stats.ended += 1;
                if self.witnesses.len() < self.opts.witness {
                    let key = st.covers.join(";");
                    let n = self.wkeys.entry(key).or_insert(0);
                    // the first path of each kind, then sparser ones
                    *n += 1;
                    if n.is_power_of_two() {
                        let v = self.values(&st, &st.model);
                        self.witnesses.push((v, st.covers.iter().map(|s| s.to_string()).collect()));
                    }
                }
            },
            Ok(EndKind::Infeasible) => self.stats.infeasible += 1,
            Ok(EndKind::Violated) => self.stats.violated += 1,
            Err(e) => {
                self.stats.errors += 1;
                let k = format!("{e} [at {}]", self.stack(&st).into_iter().take(if self.opts.trace { 30 } else { 6 }).collect::<Vec<_>>().join(" < "));
                *self.errors.entry(k).or_default() += 1;
            }
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let from = st.th.top.block;
        let f = st.th.top.f.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let ph = blk.phis.iter().find(|p| p.0 == from).ok_or("phi without incoming edge")?;
            if ph.1.len() == 1 {
                let v = Self::get(st, &ph.1[0].1);
                st.th.top.regs[ph.1[0].0 as usize] = v;
            } else {
                let vals: Vec<Val> = ph.1.iter().map(|(_, o)| Self::get(st, o)).collect();
                for ((d, _), v) in ph.1.iter().zip(vals) { st.th.top.regs[*d as usize] = v; }
            }
        }
        st.th.top.block = b;
        st.th.top.ip = 0;
        self.mark(&f, b);
        Ok(())
    }

    fn set(st: &mut State, d: u32, v: Val) {
        st.th.top.regs[d as usize] = v;
        st.th.top.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> R<Flow> {
        let f: *const CFunc = &*st.th.top.f;
        // the function is kept alive by the module's cache
        let f = unsafe { &*f };
        let inst = &f.blocks[st.th.top.block as usize].insts[st.th.top.ip as usize];
        match inst {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let (a, b) = (Self::get(st, a), Self::get(st, b));
                let v = if *lanes > 0 {
                    let (Val::A(x), Val::A(y)) = (&a, &b) else { return Err("vector bin".into()) };
                    let mut o = vec![];
                    for (p, q) in x.iter().zip(y.iter()) { o.push(bin_v(*op, *w, p, q)?); }
                    Val::A(Rc::new(o))
                } else { bin_v(*op, *w, &a, &b)? };
                Self::set(st, *dst, v);
            }
            Inst::Icmp { pred, w, lanes, dst, a, b } => {
                let (a, b) = (Self::get(st, a), Self::get(st, b));
                let v = if *lanes > 0 {
                    let (Val::A(x), Val::A(y)) = (&a, &b) else { return Err("vector icmp".into()) };
                    Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| icmp_v(*pred, *w, p, q)).collect()))
                } else { icmp_v(*pred, *w, &a, &b) };
                Self::set(st, *dst, v);
            }
            Inst::Load { dst, ty, p } => {
                let v = self.load(st, *ty, p)?;
                Self::set(st, *dst, v);
            }
            Inst::Store { ty, v, p } => {
                self.store(st, *ty, v, p)?;
                st.th.top.ip += 1;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = Self::get(st, base);
                let mut acc = match b { Val::C(c) => Val::C(c.wrapping_add(*off as u64)), v => bin_v(Op::Add, 64, &v, &Val::C(*off as u64))? };
                for (o, s, w) in idx {
                    let i = Self::get(st, o);
                    let i = match i { Val::C(c) => Val::C(sx(c, *w) as u64), Val::S(e) => from_e(sext(e, 64)), _ => return Err("gep index".into()) };
                    let t = bin_v(Op::Mul, 64, &i, &Val::C(*s as u64))?;
                    acc = bin_v(Op::Add, 64, &acc, &t)?;
                }
                Self::set(st, *dst, acc);
            }
            Inst::Br(b) => self.goto(st, *b)?,
            Inst::CondBr(c, a, b) => {
                let v = Self::get(st, c);
                let t = match v {
                    Val::C(x) => x & 1 == 1,
                    Val::S(e) => {
                        let t = self.decide(st, e)?;
                        if let Opnd::R(r) = c { st.th.top.regs[*r as usize] = Val::C(t as u64); }
                        t
                    }
                    _ => return Err("branch on aggregate".into()),
                };
                st.chain = 0;
                self.goto(st, if t { *a } else { *b })?;
            }
            Inst::Switch { w, v, def, cases } => {
                let x = Self::get(st, v);
                let tgt = match x {
                    Val::C(c) => cases.iter().find(|k| k.0 == c).map_or(*def, |k| k.1),
                    Val::S(e) => {
                        // group by target; one decision per target
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut none = tru();
                        for (c, t) in cases {
                            let k = eq(e, cst(*c as u128, *w));
                            none = and(none, not(k));
                            match groups.iter_mut().find(|g| g.0 == *t) { Some(g) => g.1 = or(g.1, k), None => groups.push((*t, k)) }
                        }
                        let mut r = None;
                        for (t, g) in groups {
                            if t == *def { continue; }
                            if self.decide(st, g)? { r = Some(t); break; }
                        }
                        r.unwrap_or(*def)
                    }
                    _ => return Err("switch on aggregate".into()),
                };
                self.goto(st, tgt)?;
            }
            Inst::Call { dst, ret, callee, args, normal } => return self.call(st, *dst, *ret, callee, args, *normal),
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(st, o));
                let sp = st.th.top.sp_save;
                let (rd, rn) = (st.th.top.ret_dst, st.th.top.ret_normal);
                match st.th.below.pop() {
                    None => {
                        if st.th.id == 0 { return Ok(Flow::End(EndKind::Ok)); }
                        return Err("a thread function returned".into());
                    }
                    Some(fr) => {
                        st.th.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        st.th.sp = sp;
                        if let (Some(d), Some(v)) = (rd, v) { st.th.top.regs[d as usize] = v; }
                        match rn { Some(b) => self.goto(st, b)?, None => st.th.top.ip += 1 }
                    }
                }
            }
            Inst::Cast { k, from, to, fw, tw, lanes, dst, a } => {
                let a = Self::get(st, a);
                let one = |v: &Val| -> R<Val> {
                    Ok(match (k, v) {
                        (Cast::Trunc, Val::C(c)) => Val::C(c & m64(*tw)),
                        (Cast::Trunc, Val::S(e)) => from_e(extract(*e, tw - 1, 0)),
                        (Cast::ZExt, Val::C(c)) if *tw <= 64 => Val::C(*c),
                        (Cast::ZExt, v) => from_e(zext(to_e(v, *fw), *tw)),
                        (Cast::SExt, Val::C(c)) if *tw <= 64 => Val::C(sx(*c, *fw) as u64 & m64(*tw)),
                        (Cast::SExt, v) => from_e(sext(to_e(v, *fw), *tw)),
                        (Cast::PtrToInt, Val::C(c)) | (Cast::IntToPtr, Val::C(c)) => Val::C(c & m64(*tw)),
                        (Cast::PtrToInt, Val::S(e)) | (Cast::IntToPtr, Val::S(e)) => {
                            if tw < fw { from_e(extract(*e, tw - 1, 0)) } else { from_e(zext(*e, *tw)) }
                        }
                        (Cast::UiToFp, Val::C(c)) => if *tw == 64 { Val::C((*c as f64).to_bits()) } else { Val::C((*c as f32).to_bits() as u64) },
                        (Cast::SiToFp, Val::C(c)) => if *tw == 64 { Val::C((sx(*c, *fw) as f64).to_bits()) } else { Val::C((sx(*c, *fw) as f32).to_bits() as u64) },
                        (Cast::FpToUi, Val::C(c)) => { let x = if *fw == 64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 }; Val::C(x as u64 & m64(*tw)) }
                        (Cast::FpToSi, Val::C(c)) => { let x = if *fw == 64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 }; Val::C(x as i64 as u64 & m64(*tw)) }
                        (Cast::FpExt, Val::C(c)) => Val::C((f32::from_bits(*c as u32) as f64).to_bits()),
                        (Cast::FpTrunc, Val::C(c)) => Val::C((f64::from_bits(*c) as f32).to_bits() as u64),
                        _ => return Err(format!("cast {:?} of symbolic float", k)),
                    })
                };
                let v = if *k == Cast::BitCast {
                    self.bitcast(&a, *from, *to)?
                } else if *lanes > 0 {
                    let Val::A(x) = &a else { return Err("vector cast".into()) };
                    let mut o = vec![];
                    for p in x.iter() { o.push(one(p)?); }
                    Val::A(Rc::new(o))
                } else { one(&a)? };
                Self::set(st, *dst, v);
            }
            Inst::Select { dst, ty, c, a, b } => {
                let c = Self::get(st, c);
                let (a, b) = (Self::get(st, a), Self::get(st, b));
                let v = match c {
                    Val::C(x) => if x & 1 == 1 { a } else { b },
                    Val::S(e) => Self::ite_v(e, &a, &b, self.m.width(*ty))?,
                    Val::A(cs) => {
                        let (Val::A(x), Val::A(y)) = (&a, &b) else { return Err("vector select".into()) };
                        let w = match self.m.types[*ty as usize] { Ty::Vec(_, e) => self.m.width(e), _ => return Err("select".into()) };
                        let mut o = vec![];
                        for i in 0..cs.len() {
                            o.push(match &cs[i] { Val::C(k) => if *k == 1 { x[i].clone() } else { y[i].clone() }, Val::S(e) => Self::ite_v(*e, &x[i], &y[i], w)?, _ => return Err("select".into()) });
                        }
                        Val::A(Rc::new(o))
                    }
                };
                Self::set(st, *dst, v);
            }
            Inst::Freeze { dst, a } => { let v = Self::get(st, a); Self::set(st, *dst, v); }
            Inst::Alloca { dst, size, align } => {
                let a = st.th.sp.next_multiple_of((*align).max(8));
                st.th.sp = a + size + 8;
                let r = (a >> REGION_SHIFT) as usize;
                let lim = ((r as u64) << REGION_SHIFT) + 4096 + (8 << 20);
                if st.th.sp > lim { return Err("stack overflow".into()); }
                Self::set(st, *dst, Val::C(a));
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut v = Self::get(st, a);
                for p in path { let Val::A(x) = &v else { return Err("extractvalue".into()) }; v = x[*p as usize].clone(); }
                Self::set(st, *dst, v);
            }
            Inst::InsertValue { dst, a, v, path } => {
                let mut a = Self::get(st, a);
                let v = Self::get(st, v);
                fn ins(a: &mut Val, path: &[u32], v: Val) -> R<()> {
                    if path.is_empty() { *a = v; return Ok(()); }
                    let Val::A(x) = a else { return Err("insertvalue".into()) };
                    ins(&mut Rc::make_mut(x)[path[0] as usize], &path[1..], v)
                }
                ins(&mut a, path, v)?;
                Self::set(st, *dst, a);
            }
            Inst::ExtractElement { dst, a, i } => {
                let i = self.conc_opnd(st, i, 64)?;
                let Val::A(x) = Self::get(st, a) else { return Err("extractelement".into()) };
                let v = x[i as usize].clone();
                Self::set(st, *dst, v);
            }
            Inst::InsertElement { dst, a, v, i } => {
                let i = self.conc_opnd(st, i, 64)?;
                let Val::A(mut x) = Self::get(st, a) else { return Err("insertelement".into()) };
                let v = Self::get(st, v);
                Rc::make_mut(&mut x)[i as usize] = v;
                Self::set(st, *dst, Val::A(x));
            }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let (Val::A(x), Val::A(y)) = (Self::get(st, a), Self::get(st, b)) else { return Err("shuffle".into()) };
                let o = mask.iter().map(|i| if *i < 0 { Val::C(0) } else if (*i as u32) < *n { x[*i as usize].clone() } else { y[(*i as u32 - n) as usize].clone() }).collect();
                Self::set(st, *dst, Val::A(Rc::new(o)));
            }
            Inst::AtomicRmw { op, w, ty, dst, p, v } => {
                let a = self.conc_opnd(st, p, 64)?;
                let old = self.load_c(st, *ty, a)?;
                let v = Self::get(st, v);
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Add => bin_v(Op::Add, *w, &old, &v)?,
                    Rmw::Sub => bin_v(Op::Sub, *w, &old, &v)?,
                    Rmw::And => bin_v(Op::And, *w, &old, &v)?,
                    Rmw::Or => bin_v(Op::Or, *w, &old, &v)?,
                    Rmw::Xor => bin_v(Op::Xor, *w, &old, &v)?,
                    Rmw::Nand => { let t = bin_v(Op::And, *w, &old, &v)?; bin_v(Op::Xor, *w, &t, &Val::C(m64(*w)))? }
                    Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => {
                        let p = match op { Rmw::Max => Pred::Sgt, Rmw::Min => Pred::Slt, Rmw::UMax => Pred::Ugt, _ => Pred::Ult };
                        match icmp_v(p, *w, &old, &v) { Val::C(c) => if c == 1 { old.clone() } else { v }, Val::S(e) => Self::ite_v(e, &old, &v, *w)?, _ => unreachable!() }
                    }
                };
                self.store_c(st, *ty, &new, a)?;
                Self::set(st, *dst, old);
            }
            Inst::CmpXchg { w, ty, dst, p, c, n } => {
                let a = self.conc_opnd(st, p, 64)?;
                let old = self.load_c(st, *ty, a)?;
                let c = Self::get(st, c);
                let n = Self::get(st, n);
                let same = match icmp_v(Pred::Eq, *w, &old, &c) { Val::C(x) => x == 1, Val::S(e) => self.decide(st, e)?, _ => unreachable!() };
                if same { self.store_c(st, *ty, &n, a)?; }
                Self::set(st, *dst, Val::A(Rc::new(vec![old, Val::C(same as u64)])));
            }
            Inst::Fence => st.th.top.ip += 1,
            Inst::FBin { op, w, dst, a, b } => {
                let (Val::C(a), Val::C(b)) = (Self::get(st, a), Self::get(st, b)) else { return Err("symbolic float".into()) };
                let v = if *w == 64 {
                    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
                    match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }.to_bits()
                } else {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }.to_bits() as u64
                };
                Self::set(st, *dst, Val::C(v));
            }
            Inst::FNeg { w, dst, a } => {
                let Val::C(a) = Self::get(st, a) else { return Err("symbolic float".into()) };
                Self::set(st, *dst, Val::C(a ^ (1u64 << (w - 1))));
            }
            Inst::FCmp { pred, w, dst, a, b } => {
                let (Val::C(a), Val::C(b)) = (Self::get(st, a), Self::get(st, b)) else { return Err("symbolic float".into()) };
                let (x, y) = if *w == 64 { (f64::from_bits(a), f64::from_bits(b)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match pred.as_str() {
                    "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un,
                    "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, "uno" => un,
                    p => return Err(format!("fcmp {p}")),
                };
                Self::set(st, *dst, Val::C(r as u64));
            }
            Inst::Unreachable => return Err("unreachable code reached".into()),
            Inst::Unsupported(s) => return Err(format!("unsupported: {s}")),
        }
        Ok(Flow::Cont)
    }

    fn bitcast(&self, a: &Val, from: TyId, to: TyId) -> R<Val> {
        let bits = |t: TyId| -> u32 { match self.m.types[t as usize] { Ty::Vec(n, e) => n as u32 * self.m.width(e), _ => self.m.width(t) } };
        let fb = bits(from);
        let e = match a {
            Val::A(_) => to_e(a, fb),
            Val::C(_) | Val::S(_) => {
                if !matches!(self.m.types[to as usize], Ty::Vec(..)) { return Ok(a.clone()); }
                to_e(a, fb)
            }
        };
        Ok(match self.m.types[to as usize] {
            Ty::Vec(n, t) => {
                let w = self.m.width(t);
                Val::A(Rc::new((0..n as u32).map(|i| from_e(extract(e, i * w + w - 1, i * w))).collect()))
            }
            _ => from_e(e),
        })
    }

    // ---------- calls ----------

    fn classify(&mut self, fid: u32) -> B {
        if let Some(b) = self.builtins[fid as usize] { return b; }
        let fi = &self.m.fns[fid as usize];
        let n = fi.name.as_str();
        let d = fi.demangled.as_str();
        let b = if let Some(r) = n.strip_prefix("llvm.") {
            let starts = |p: &str| r.starts_with(p);
            if starts("memcpy") || starts("memmove") { B::Memcpy }
            else if starts("memset") { B::Memset }
            else if starts("umin.") { B::UMin } else if starts("umax.") { B::UMax } else if starts("smin.") { B::SMin } else if starts("smax.") { B::SMax }
            else if starts("abs.") { B::Abs } else if starts("usub.sat") { B::USubSat } else if starts("uadd.sat") { B::UAddSat } else if starts("sadd.sat") { B::SAddSat } else if starts("ssub.sat") { B::SSubSat }
            else if starts("uadd.with") { B::UAddO } else if starts("usub.with") { B::USubO } else if starts("umul.with") { B::UMulO }
            else if starts("sadd.with") { B::SAddO } else if starts("ssub.with") { B::SSubO } else if starts("smul.with") { B::SMulO }
            else if starts("fshl") { B::Fshl } else if starts("fshr") { B::Fshr } else if starts("ctlz") { B::Ctlz } else if starts("cttz") { B::Cttz }
            else if starts("ctpop") { B::Ctpop } else if starts("bswap") { B::Bswap } else if starts("bitreverse") { B::Bitrev }
            else if starts("scmp") { B::Scmp } else if starts("ucmp") { B::Ucmp }
            else if starts("assume") { B::Assume }
            else if starts("lifetime") || starts("x86.sse2.pause") || starts("experimental.noalias") || starts("dbg") || starts("prefetch") || starts("donothing") || starts("invariant") || starts("stackrestore") { B::Nop }
            else if starts("threadlocal.address") { B::Tls }
            else if starts("is.constant") { B::Zero }
            else if starts("expect") || starts("launder") || starts("strip") || starts("ssa.copy") { B::Identity }
            else if starts("ptrmask") { B::PtrMask }
            else if starts("trap") || starts("ubsantrap") || starts("debugtrap") { B::Trap }
            else if starts("vector.reduce.or") { B::Reduce(0) } else if starts("vector.reduce.and") { B::Reduce(1) } else if starts("vector.reduce.add") { B::Reduce(2) } else if starts("vector.reduce.xor") { B::Reduce(3) }
            else { B::NoBody }
        } else if let Some(r) = n.strip_prefix("__sym_") {
            match r {
                "var" => B::SymVar, "assume" => B::SymAssume, "assert" => B::SymAssert, "cover" => B::SymCover, "choose" => B::SymChoose, "trace" => B::SymTrace,
                "concretize" => B::SymConc, "thread_new" => B::SymThreadNew, "switch" => B::SymSwitch, "end" => B::SymEnd, "fail" => B::SymFail, "is_symbolic" => B::SymIsSym,
                "log" => B::SymLog, "val" => B::SymVal, "possible" => B::SymPossible,
                _ => B::NoBody,
            }
        } else {
            match n {
                "memcpy" | "memmove" => B::Memcpy,
                "memset" => B::Memset,
                "memcmp" => B::Memcmp,
                "bcmp" => B::Bcmp,
                "strlen" => B::Strlen,
                "memchr" => B::Memchr,
                "malloc" => B::Malloc,
                "calloc" => B::Calloc,
                "realloc" => B::Realloc,
                "free" => B::Free,
                "posix_memalign" => B::PosixMemalign,
                "abort" | "_exit" | "exit" | "__assert_fail" | "raise" => B::Abort,
                "write" => B::Write,
                "writev" => B::Writev,
                "__errno_location" => B::Errno,
                "getrandom" => B::GetRandom,
                "clock_gettime" => B::ClockGettime,
                "syscall" => B::Syscall,
                "pthread_self" | "gettid" | "getpid" | "getuid" | "geteuid" => B::One,
                "getenv" | "sched_yield" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "pthread_attr_init" | "pthread_attr_destroy"
                | "pthread_getattr_np" | "pthread_attr_getstack" | "pthread_attr_getguardsize" | "close" | "munmap" | "sigaltstack" | "pthread_setname_np" | "nanosleep" | "clock_nanosleep" => B::Zero,
                _ => {
                    if d == "core::panicking::panic_fmt" || d == "core::panicking::panic_nounwind_fmt" || d.starts_with("core::panicking::panic_nounwind_fmt::")
                        || d == "std::panicking::panic_with_hook" || d == "std::panicking::rust_panic_with_hook" || d.starts_with("std::panicking::begin_panic")
                        || d.starts_with("std::rt::abort") || d == "alloc::alloc::handle_alloc_error" { B::Panic }
                    else if self.m.has_body(fid) { B::None }
                    else { B::NoBody }
                }
            }
        };
        self.builtins[fid as usize] = Some(b);
        if !matches!(b, B::None) && !n.starts_with("llvm.") && !n.starts_with("__sym") { self.stubs.insert(self.m.fns[fid as usize].demangled.clone()); }
        b
    }

    fn finish(&mut self, st: &mut State, dst: Option<u32>, v: Option<Val>, normal: Option<u32>) -> R<Flow> {
        if let (Some(d), Some(v)) = (dst, v) { st.th.top.regs[d as usize] = v; }
        st.chain = 0;
        match normal { Some(b) => self.goto(st, b)?, None => st.th.top.ip += 1 }
        Ok(Flow::Cont)
    }

    fn call(&mut self, st: &mut State, dst: Option<u32>, ret: TyId, callee: &Callee, args: &[Opnd], normal: Option<u32>) -> R<Flow> {
        let fid = match callee {
            Callee::Fn(f) => *f,
            Callee::Ind(o) => {
                let a = self.conc_opnd(st, o, 64)?;
                if a < FN_BASE || a >= HEAP_BASE { return Err(format!("indirect call to {a:#x}")); }
                ((a - FN_BASE) / 16 - 1) as u32
            }
            Callee::Asm(s) => {
                if s.is_empty() {
                    // optimisation barrier: values pass through
                    let v = if dst.is_some() { args.first().map(|o| Self::get(st, o)).or(Some(Val::C(0))) } else { None };
                    return self.finish(st, dst, v, normal);
                }
                return Err(format!("inline asm {s}"));
            }
        };
        let b = self.classify(fid);
        if b == B::None {
            let f = self.m.func(fid)?;
            let mut regs = vec![Val::C(0); f.nregs as usize];
            for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = Self::get(st, a); }
            self.mark(&f, 0);
            if st.th.below.len() > 2000 { return Err("call depth".into()); }
            let fr = Frame { f, regs, block: 0, ip: 0, sp_save: st.th.sp, ret_dst: dst, ret_normal: normal };
            let old = std::mem::replace(&mut st.th.top, fr);
            st.th.below.push(Rc::new(old));
            return Ok(Flow::Cont);
        }
        self.builtin(st, b, fid, dst, ret, args, normal)
    }

    fn str_arg(&mut self, st: &mut State, p: &Opnd, l: &Opnd) -> R<String> {
        let p = self.conc_opnd(st, p, 64)?;
        let l = self.conc_opnd(st, l, 64)?;
        let b = st.mem.cbytes(p, l)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    fn values(&self, st: &State, model: &Model) -> Vec<(String, u32, u64)> {
        let mut memo = HashMap::new();
        st.inputs.iter().map(|i| (i.name.to_string(), i.w, eval(i.e, model, &mut memo) as u64)).collect()
    }

    fn violation(&mut self, st: &State, kind: &str, msg: String, model: &Model) {
        if self.opts.trace { eprintln!("VIOLATION {kind}: {msg}\n  {}", self.stack(st).join("\n  ")); }
        let key = format!("{kind}:{msg}");
        if !self.vkeys.insert(key) { return; }
        let v = Violation { kind: kind.into(), msg, stack: self.stack(st), inputs: self.values(st, model), log: st.log.iter().map(|s| s.to_string()).collect() };
        self.violations.push(v);
    }

    fn bytes_eq(&self, st: &State, a: u64, b: u64, n: u64) -> R<Vec<(E, E)>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            let (x, sx) = st.mem.byte(a + i)?;
            let (y, sy) = st.mem.byte(b + i)?;
            v.push((if sx == NIL { cst(x as u128, 8) } else { sx }, if sy == NIL { cst(y as u128, 8) } else { sy }));
        }
        Ok(v)
    }

    fn per_lane(&self, args: &[Val], w: u32, f: &dyn Fn(&[Val], u32) -> R<Val>) -> R<Val> {
        if let Val::A(x) = &args[0] {
            let n = x.len();
            let mut o = vec![];
            for i in 0..n {
                let a: Vec<Val> = args.iter().map(|v| match v { Val::A(y) => y[i].clone(), v => v.clone() }).collect();
                o.push(f(&a, w)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        f(args, w)
    }

    #[allow(clippy::too_many_arguments)]
    fn builtin(&mut self, st: &mut State, b: B, fid: u32, dst: Option<u32>, ret: TyId, args: &[Opnd], normal: Option<u32>) -> R<Flow> {
        let rw = match self.m.types[ret as usize] { Ty::Vec(_, e) => self.m.width(e), Ty::Struct(ref fs, _) if !fs.is_empty() => self.m.width(fs[0]), _ => self.m.width(ret) };
        let vals: Vec<Val> = args.iter().map(|o| Self::get(st, o)).collect();
        let v: Option<Val> = match b {
            B::None => unreachable!(),
            B::NoBody => {
                self.unsupported_ext.insert(self.m.fns[fid as usize].demangled.clone());
                return Err(format!("call to unmodelled external function {}", self.m.fns[fid as usize].demangled));
            }
            B::Nop => None,
            B::Assume => None,
            B::Zero => if dst.is_some() { Some(Val::C(0)) } else { None },
            B::One => Some(Val::C(1)),
            B::Identity => Some(vals[0].clone()),
            B::Memcpy => {
                let n = self.conc_opnd(st, &args[2], 64)?;
                if n > 0 {
                    let d = self.conc_opnd(st, &args[0], 64)?;
                    let s = self.conc_opnd(st, &args[1], 64)?;
                    st.mem.copy(d, s, n)?;
                }
                Some(vals[0].clone())
            }
            B::Memset => {
                let n = self.conc_opnd(st, &args[2], 64)?;
                if n > 0 {
                    let d = self.conc_opnd(st, &args[0], 64)?;
                    match &vals[1] {
                        Val::C(c) => st.mem.fill(d, *c as u8, NIL, n)?,
                        Val::S(e) => { let x = extract(*e, 7, 0); st.mem.fill(d, 0, x, n)?; }
                        _ => return Err("memset".into()),
                    }
                }
                Some(vals[0].clone())
            }
            B::Memcmp | B::Bcmp => {
                let n = self.conc_opnd(st, &args[2], 64)?;
                if n == 0 { Some(Val::C(0)) } else {
                    let x = self.conc_opnd(st, &args[0], 64)?;
                    let y = self.conc_opnd(st, &args[1], 64)?;
                    let prs = self.bytes_eq(st, x, y, n)?;
                    if b == B::Bcmp {
                        let mut all = tru();
                        for (p, q) in prs { all = and(all, eq(p, q)); if as_const(all) == Some(0) { break; } }
                        Some(from_e(ite(all, cst(0, 32), cst(1, 32))))
                    } else {
                        let mut acc = cst(0, 32);
                        for (p, q) in prs.into_iter().rev() {
                            let lt = bin(Op::Ult, p, q);
                            acc = ite(eq(p, q), acc, ite(lt, cst(0xffff_ffff, 32), cst(1, 32)));
                        }
                        Some(from_e(acc))
                    }
                }
            }
            B::Strlen => {
                let p = self.conc_opnd(st, &args[0], 64)?;
                let mut n = 0;
                while st.mem.cbytes(p + n, 1)?[0] != 0 { n += 1; }
                Some(Val::C(n))
            }
            B::Memchr => {
                let p = self.conc_opnd(st, &args[0], 64)?;
                let c = self.conc_opnd(st, &args[1], 32)? as u8;
                let n = self.conc_opnd(st, &args[2], 64)?;
                let mut r = 0;
                for i in 0..n {
                    let (x, s) = st.mem.byte(p + i)?;
                    let hit = if s == NIL { x == c } else { self.decide(st, eq(s, cst(c as u128, 8)))? };
                    if hit { r = p + i; break; }
                }
                Some(Val::C(r))
            }
            B::UMin | B::UMax | B::SMin | B::SMax => {
                let p = match b { B::UMin => Pred::Ult, B::UMax => Pred::Ugt, B::SMin => Pred::Slt, _ => Pred::Sgt };
                Some(self.per_lane(&vals, rw, &|a, w| Ok(match icmp_v(p, w, &a[0], &a[1]) {
                    Val::C(c) => if c == 1 { a[0].clone() } else { a[1].clone() },
                    Val::S(e) => Self::ite_v(e, &a[0], &a[1], w)?,
                    _ => unreachable!(),
                }))?)
            }
            B::Abs => {
                let e = to_e(&vals[0], rw);
                Some(from_e(ite(bin(Op::Slt, e, cst(0, rw)), bin(Op::Sub, cst(0, rw), e), e)))
            }
            B::USubSat => Some(self.per_lane(&vals, rw, &|a, w| { let (x, y) = (to_e(&a[0], w), to_e(&a[1], w)); Ok(from_e(ite(bin(Op::Ult, x, y), cst(0, w), bin(Op::Sub, x, y)))) })?),
            B::UAddSat => Some(self.per_lane(&vals, rw, &|a, w| { let (x, y) = (to_e(&a[0], w), to_e(&a[1], w)); let s = bin(Op::Add, x, y); Ok(from_e(ite(bin(Op::Ult, s, x), cst(u128::MAX, w), s))) })?),
            B::SAddSat | B::SSubSat => return Err("signed saturating".into()),
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let w = rw;
                let (x, y) = (to_e(&vals[0], w), to_e(&vals[1], w));
                let op = match b { B::UAddO | B::SAddO => Op::Add, B::USubO | B::SSubO => Op::Sub, _ => Op::Mul };
                let r = bin(op, x, y);
                let o = match b {
                    B::UAddO => bin(Op::Ult, r, x),
                    B::USubO => bin(Op::Ult, x, y),
                    B::UMulO => {
                        if w > 64 && !(as_const(x).is_some() && as_const(y).is_some()) { return Err("wide umul.with.overflow".into()); }
                        if w > 64 {
                            let (a, b) = (as_const(x).unwrap(), as_const(y).unwrap());
                            cst(a.checked_mul(b).is_none_or(|v| v > mask(w)) as u128, 1)
                        } else {
                            let p = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w));
                            not(eq(extract(p, 2 * w - 1, w), cst(0, w)))
                        }
                    }
                    _ => {
                        let ew = if b == B::SMulO { 2 * w } else { w + 1 };
                        if ew > 128 { return Err("wide signed overflow".into()); }
                        let p = bin(op, sext(x, ew), sext(y, ew));
                        not(eq(p, sext(r, ew)))
                    }
                };
                Some(Val::A(Rc::new(vec![from_e(r), from_e(o)])))
            }
            B::Fshl | B::Fshr => Some(self.per_lane(&vals, rw, &|a, w| {
                let (x, y, s) = (to_e(&a[0], w), to_e(&a[1], w), to_e(&a[2], w));
                let s = bin(Op::URem, s, cst(w as u128, w));
                let inv = bin(Op::Sub, cst(w as u128, w), s);
                let z = eq(s, cst(0, w));
                Ok(from_e(if b == B::Fshl {
                    ite(z, x, bin(Op::Or, bin(Op::Shl, x, s), bin(Op::LShr, y, inv)))
                } else {
                    ite(z, y, bin(Op::Or, bin(Op::LShr, y, s), bin(Op::Shl, x, inv)))
                }))
            })?),
            B::Ctlz | B::Cttz | B::Ctpop => Some(self.per_lane(&vals[..1], rw, &|a, w| {
                if let Val::C(c) = a[0] {
                    return Ok(Val::C(match b {
                        B::Ctpop => c.count_ones() as u64,
                        B::Ctlz => (c.leading_zeros() as u64).wrapping_sub(64 - w as u64),
                        _ => if c == 0 { w as u64 } else { c.trailing_zeros() as u64 },
                    }));
                }
                let e = to_e(&a[0], w);
                Ok(from_e(match b {
                    B::Ctpop => {
                        let mut acc = cst(0, w);
                        for i in 0..w { acc = bin(Op::Add, acc, zext(extract(e, i, i), w)); }
                        acc
                    }
                    B::Ctlz => {
                        let mut acc = cst(w as u128, w);
                        for i in 0..w { acc = ite(eq(extract(e, i, i), cst(1, 1)), cst((w - 1 - i) as u128, w), acc); }
                        acc
                    }
                    _ => {
                        let mut acc = cst(w as u128, w);
                        for i in (0..w).rev() { acc = ite(eq(extract(e, i, i), cst(1, 1)), cst(i as u128, w), acc); }
                        acc
                    }
                }))
            })?),
            B::Bswap | B::Bitrev => Some(self.per_lane(&vals, rw, &|a, w| {
                let e = to_e(&a[0], w);
                let k = if b == B::Bswap { 8 } else { 1 };
                let mut acc: Option<E> = None;
                let mut i = 0;
                while i < w {
                    let x = extract(e, i + k - 1, i);
                    acc = Some(match acc { None => x, Some(h) => concat(h, x) });
                    i += k;
                }
                Ok(from_e(acc.unwrap()))
            })?),
            B::Scmp | B::Ucmp => {
                // operand width: from the callee's name suffix, e.g. llvm.ucmp.i8.i32
                let n = &self.m.fns[fid as usize].name;
                let ow: u32 = n.rsplit(".i").next().and_then(|x| x.parse().ok()).ok_or("cmp width")?;
                let (x, y) = (to_e(&vals[0], ow), to_e(&vals[1], ow));
                let lt = bin(if b == B::Scmp { Op::Slt } else { Op::Ult }, x, y);
                Some(from_e(ite(lt, cst(u128::MAX, rw), ite(eq(x, y), cst(0, rw), cst(1, rw)))))
            }
            B::IsConst => Some(Val::C(0)),
            B::Expect => Some(vals[0].clone()),
            B::PtrMask => Some(bin_v(Op::And, 64, &vals[0], &vals[1])?),
            B::Reduce(k) => {
                let Val::A(x) = &vals[0] else { return Err("reduce".into()) };
                let mut acc = x[0].clone();
                for y in &x[1..] { acc = bin_v(match k { 0 => Op::Or, 1 => Op::And, 2 => Op::Add, _ => Op::Xor }, rw, &acc, y)?; }
                Some(acc)
            }
            B::Trap => { self.bug(st, "abort", "trap".into()); return Ok(Flow::End(EndKind::Violated)); }
            B::Abort => { let n = self.m.fns[fid as usize].name.clone(); self.bug(st, "abort", n); return Ok(Flow::End(EndKind::Violated)); }
            B::Panic => {
                let mut loc = String::new();
                if let Some(o) = args.last() {
                    if let Val::C(a) = Self::get(st, o) {
                        let rd = |st: &State, a: u64, n: u32| -> Option<u64> { match st.mem.read(a, n) { Ok(Val::C(c)) => Some(c), _ => None } };
                        if let (Some(p), Some(l), Some(line), Some(col)) = (rd(st, a, 8), rd(st, a + 8, 8), rd(st, a + 16, 4), rd(st, a + 20, 4)) {
                            if l < 400 { if let Ok(b) = st.mem.cbytes(p, l) { loc = format!("{}:{line}:{col}", String::from_utf8_lossy(&b).trim_end_matches('\0')); } }
                        }
                    }
                }
                let mut msg = String::new();
                if let (Some(Val::C(p)), Some(Val::C(l))) = (vals.first(), vals.get(1)) {
                    if l & 1 == 1 && l >> 1 < 500 { if let Ok(b) = st.mem.cbytes(*p, l >> 1) { msg = String::from_utf8_lossy(&b).into_owned(); } }
                }
                self.bug(st, "panic", format!("{msg} at {loc}"));
                return Ok(Flow::End(EndKind::Violated));
            }
            B::Tls => {
                // the argument is the address of the thread_local global
                let Val::C(a) = vals[0] else { return Err("tls".into()) };
                let k = self.m.globals.partition_point(|g| g.addr <= a);
                let gi = k - 1;
                let (ga, gs) = (self.m.globals[gi].addr, self.m.globals[gi].size);
                let base = match st.th.tls.get(&(gi as u32)) {
                    Some(x) => *x,
                    None => {
                        let x = st.th.tls_brk.next_multiple_of(64);
                        st.th.tls_brk = x + gs;
                        // TLS images are never written at their home address
                        st.mem.copy(x, ga, gs)?;
                        st.th.tls.insert(gi as u32, x);
                        x
                    }
                };
                Some(Val::C(base + (a - ga)))
            }
            B::Malloc | B::Calloc | B::Realloc | B::PosixMemalign => {
                let size = match b {
                    B::Malloc => self.conc_opnd(st, &args[0], 64)?,
                    B::Calloc => { let x = self.conc_opnd(st, &args[0], 64)?; let y = self.conc_opnd(st, &args[1], 64)?; x.checked_mul(y).ok_or("calloc overflow")? }
                    B::Realloc => self.conc_opnd(st, &args[1], 64)?,
                    _ => self.conc_opnd(st, &args[2], 64)?,
                };
                if size > 64 << 20 { return Err(format!("allocation of {size} bytes")); }
                match b {
                    B::Malloc | B::Calloc => Some(Val::C(st.mem.alloc(HEAP_BASE, size, 16))),
                    B::PosixMemalign => {
                        let pp = self.conc_opnd(st, &args[0], 64)?;
                        let al = self.conc_opnd(st, &args[1], 64)?;
                        let a = st.mem.alloc(HEAP_BASE, size, al);
                        st.mem.write(pp, 8, &Val::C(a))?;
                        Some(Val::C(0))
                    }
                    _ => {
                        let p = self.conc_opnd(st, &args[0], 64)?;
                        if p == 0 { Some(Val::C(st.mem.alloc(HEAP_BASE, size, 16))) } else {
                            let (base, old) = st.mem.object(p).ok_or("realloc of unknown object")?;
                            if base != p { return Err("realloc of interior pointer".into()); }
                            let a = st.mem.alloc(HEAP_BASE, size, 16);
                            st.mem.copy(a, p, old.min(size))?;
                            Some(Val::C(a))
                        }
                    }
                }
            }
            B::Free => None,
            B::Write => {
                let p = self.conc_opnd(st, &args[1], 64)?;
                let n = self.conc_opnd(st, &args[2], 64)?;
                if self.opts.trace { if let Ok(b) = st.mem.cbytes(p, n) { eprint!("{}", String::from_utf8_lossy(&b)); } }
                Some(Val::C(n))
            }
            B::Writev => {
                let p = self.conc_opnd(st, &args[1], 64)?;
                let n = self.conc_opnd(st, &args[2], 32)?;
                let mut t = 0;
                for i in 0..n { if let Val::C(c) = st.mem.read(p + 16 * i + 8, 8)? { t += c; } }
                Some(Val::C(t))
            }
            B::Errno => {
                let k = u32::MAX;
                let x = match st.th.tls.get(&k) { Some(x) => *x, None => { let x = st.th.tls_brk.next_multiple_of(64); st.th.tls_brk = x + 8; st.th.tls.insert(k, x); x } };
                Some(Val::C(x))
            }
            B::GetRandom => {
                let p = self.conc_opnd(st, &args[0], 64)?;
                let n = self.conc_opnd(st, &args[1], 64)?;
                st.mem.fill(p, 0x5a, NIL, n)?;
                Some(Val::C(n))
            }
            B::ClockGettime => {
                let p = self.conc_opnd(st, &args[1], 64)?;
                st.mem.write(p, 8, &Val::C(1_700_000_000))?;
                st.mem.write(p + 8, 8, &Val::C(0))?;
                Some(Val::C(0))
            }
            B::Syscall => {
                let nr = self.conc_opnd(st, &args[0], 64)?;
                match nr {
                    318 => {
                        let p = self.conc_opnd(st, &args[1], 64)?;
                        let n = self.conc_opnd(st, &args[2], 64)?;
                        st.mem.fill(p, 0x5a, NIL, n)?;
                        Some(Val::C(n))
                    }
                    202 => {
                        // futex: wake is a no-op in a cooperative world; wait would block the whole program
                        let op = self.conc_opnd(st, &args[2], 32)? & 0x7f;
                        if op == 1 { Some(Val::C(0)) } else { self.bug(st, "blocked", "a thread blocks on a lock nobody can release".into()); return Ok(Flow::End(EndKind::Violated)); }
                    }
                    186 | 39 => Some(Val::C(1)),
                    n => return Err(format!("syscall {n}")),
                }
            }
            B::PthreadSelf => Some(Val::C(1)),
            B::SymVar => {
                let name = self.str_arg(st, &args[0], &args[1])?;
                let bits = self.conc_opnd(st, &args[2], 64)? as u32;
                let k = st.inputs.len();
                let e = if let Some(c) = &self.opts.concrete { cst(c.get(k).copied().unwrap_or(0) as u128, bits) } else { named_var(&format!("{k}:{name}"), bits, &mut self.vars) };
                st.inputs.push(Input { name: name.into(), w: bits, e });
                Some(from_e(zext(e, 64)))
            }
            B::SymChoose => {
                let name = self.str_arg(st, &args[0], &args[1])?;
                let n = self.conc_opnd(st, &args[2], 64)?;
                if n == 0 { return Err("choose(0)".into()); }
                if n == 1 { return self.finish(st, dst, Some(Val::C(0)), normal); }
                let k = st.inputs.len();
                if let Some(c) = &self.opts.concrete {
                    let v = c.get(k).copied().unwrap_or(0);
                    if v >= n { return Ok(Flow::End(EndKind::Infeasible)); }
                    st.inputs.push(Input { name: name.into(), w: 32, e: cst(v as u128, 32) });
                    return self.finish(st, dst, Some(Val::C(v)), normal);
                }
                // a fresh variable below n: every value is feasible, so no query is needed
                let e = named_var(&format!("{k}:{name}"), 32, &mut self.vars);
                let Op::Var(id) = node(e).op else { unreachable!() };
                let nm: Rc<str> = name.into();
                let mut base = st.clone();
                base.inputs.push(Input { name: nm.clone(), w: 32, e });
                for v in (0..n).rev() {
                    let mut s2 = if v == 0 { std::mem::replace(&mut base, st.clone()) } else { self.fork(&base) };
                    s2.pc.push(eq(e, cst(v as u128, 32)));
                    s2.model = Self::merge(&s2.model, &[(id, v as u128)]);
                    self.note_fork(&mut s2, v);
                    self.finish(&mut s2, dst, Some(Val::C(v)), normal)?;
                    if v == 0 {
                        if !self.in_part(&s2) { return Ok(Flow::End(EndKind::Infeasible)); }
                        *st = s2;
                        return Ok(Flow::Cont);
                    }
                    if self.in_part(&s2) { self.push_work(s2); }
                }
                unreachable!()
            }
            B::SymAssume => {
                let c = not(eq(to_e(&vals[0], 64), cst(0, 64)));
                match Self::holds(st, c) {
                    Some(true) => {}
                    Some(false) => return Ok(Flow::End(EndKind::Infeasible)),
                    None => {
                        if eval(c, &st.model, &mut HashMap::new()) != 1 {
                            match self.sat(&st.pc, c)? {
                                None => return Ok(Flow::End(EndKind::Infeasible)),
                                Some(m) => st.model = Self::merge(&st.model, &m),
                            }
                        }
                        Self::add_pc(st, c);
                    }
                }
                None
            }
            B::SymAssert => {
                let c = not(eq(to_e(&vals[0], 64), cst(0, 64)));
                let msg = self.str_arg(st, &args[1], &args[2])?;
                let mine = self.mine_at_end(st);
                if mine { *self.assert_msgs.entry(msg.clone()).or_default() += 1; self.stats.asserts += 1; }
                match Self::holds(st, c) {
                    Some(true) => { if mine { self.stats.assert_trivial += 1; } }
                    Some(false) => { self.bug(st, "assert", msg); return Ok(Flow::End(EndKind::Violated)); }
                    None => {
                        let nc = not(c);
                        if let Some(m) = self.sat(&st.pc, nc)? {
                            let mm = Self::merge(&st.model, &m);
                            self.violation(st, "assert", msg, &mm);
                            match self.sat(&st.pc, c)? {
                                None => return Ok(Flow::End(EndKind::Violated)),
                                Some(m) => { st.model = Self::merge(&st.model, &m); Self::add_pc(st, c); }
                            }
                        } else { st.facts.push(c); }
                    }
                }
                None
            }
            B::SymPossible => {
                // is there any value of the inputs so far for which this holds? The answer is recorded for replays.
                let c = not(eq(to_e(&vals[0], 64), cst(0, 64)));
                let k = st.inputs.len();
                let v = match &self.opts.concrete {
                    Some(x) => x.get(k).copied().unwrap_or(0) != 0,
                    None => match Self::holds(st, c) { Some(true) => true, Some(false) => false, None => self.sat(&st.pc, c)?.is_some() },
                };
                st.inputs.push(Input { name: "possible".into(), w: 32, e: cst(v as u128, 32) });
                Some(Val::C(v as u64))
            }
            B::SymFail => {
                let msg = self.str_arg(st, &args[0], &args[1])?;
                self.bug(st, "assert", msg);
                return Ok(Flow::End(EndKind::Violated));
            }
            B::SymCover => {
                let msg = self.str_arg(st, &args[0], &args[1])?;
                *self.covers.entry(msg.clone()).or_default() += 1;
                st.covers.push(msg.into());
                None
            }
            B::SymTrace | B::SymLog => {
                let msg = self.str_arg(st, &args[0], &args[1])?;
                let mut s = msg;
                for v in &vals[2..] { s.push_str(&match v { Val::C(c) => format!(" {c}"), Val::S(e) => format!(" {}", show(*e, 4)), _ => " ?".into() }); }
                if self.opts.trace { eprintln!("trace: {s}"); }
                st.log.push(s.into());
                None
            }
            B::SymConc => { let v = self.conc_opnd(st, &args[0], 64)?; Some(Val::C(v)) }
            B::SymVal => { // value of the expression in the current model, without constraining (debugging aid)
                let e = to_e(&vals[0], 64);
                Some(Val::C(eval(e, &st.model, &mut HashMap::new()) as u64))
            }
            B::SymIsSym => Some(Val::C(matches!(vals[0], Val::S(_)) as u64)),
            B::SymEnd => return Ok(Flow::End(EndKind::Ok)),
            B::SymThreadNew => {
                let fa = self.conc_opnd(st, &args[0], 64)?;
                let f = self.m.func(((fa - FN_BASE) / 16 - 1) as u32)?;
                let id = st.others.len();
                let mut mem = std::mem::take(&mut st.mem);
                let t = self.new_thread(&mut mem, id, f, vec![vals[1].clone()]);
                st.mem = mem;
                st.others.push(Some(Rc::new(t?)));
                Some(Val::C(id as u64))
            }
            B::SymSwitch => {
                let id = self.conc_opnd(st, &args[0], 64)? as usize;
                self.finish(st, dst, None, normal)?;
                if id == st.cur { return Ok(Flow::Cont); }
                let t = st.others.get_mut(id).and_then(|t| t.take()).ok_or("switch to unknown thread")?;
                let t = Rc::try_unwrap(t).unwrap_or_else(|r| (*r).clone());
                let old = std::mem::replace(&mut st.th, t);
                let cur = st.cur;
                st.others[cur] = Some(Rc::new(old));
                st.cur = id;
                return Ok(Flow::Cont);
            }
        };
        self.finish(st, dst, v, normal)
    }

    fn bug(&mut self, st: &State, kind: &str, msg: String) {
        let m = st.model.clone();
        self.violation(st, kind, msg, &m);
    }

    /// source functions and lines executed, from debug info: (file, function) -> lines
    pub fn coverage(&self, want: &dyn Fn(&str) -> bool) -> BTreeMap<(String, String), BTreeSet<u32>> {
        let mut ids: HashSet<u32> = HashSet::new();
        for (fi, c) in self.cov.iter().enumerate() {
            if c.is_empty() { continue; }
            if let Some(cf) = &self.m.fns[fi].cf {
                for (bi, hit) in c.iter().enumerate() { if *hit { ids.extend(cf.blocks[bi].dbg.iter()); } }
            }
        }
        let field = |id: u32, f: &str| -> Option<&str> {
            let (s, e) = *self.m.meta.get(&id)?;
            let l = &self.m.text[s..e];
            let k = format!("{f}: ");
            let mut from = 0;
            loop {
                let p = l[from..].find(&k)? + from;
                let prev = l.as_bytes()[p - 1];
                if prev == b'(' || prev == b' ' {
                    let r = &l[p + k.len()..];
                    if let Some(q) = r.strip_prefix('"') { return Some(&q[..q.find('"')?]); }
                    let n = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                    return Some(&r[..n]);
                }
                from = p + 1;
            }
        };
        let refid = |s: Option<&str>| -> Option<u32> { s?.strip_prefix('!')?.parse().ok() };
        let mut scope_memo: HashMap<u32, Option<(String, String)>> = HashMap::new();
        let mut out: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
        let mut seen = HashSet::new();
        for id in ids {
            let mut cur = Some(id);
            while let Some(l) = cur {
                if !seen.insert(l) { break; }
                let line: u32 = field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
                if let Some(sc) = refid(field(l, "scope")) {
                    let r = scope_memo.entry(sc).or_insert_with(|| {
                        let mut s = sc;
                        let f = refid(field(s, "file"))?;
                        let mut file = field(f, "filename")?.to_string();
                        if !file.starts_with('/') { file = format!("{}/{file}", field(f, "directory").unwrap_or("")); }
                        if !want(&file) { return None; }
                        loop {
                            let (a, b) = *self.m.meta.get(&s)?;
                            let t = &self.m.text[a..b];
                            if t.contains("DISubprogram") {
                                let ln = field(s, "linkageName").map(|n| format!("{:#}", rustc_demangle::demangle(n))).or_else(|| field(s, "name").map(|x| x.to_string()))?;
                                return Some((file, ln));
                            }
                            s = refid(field(s, "scope"))?;
                        }
                    }).clone();
                    if let Some(k) = r { out.entry(k).or_default().insert(line); }
                }
                cur = refid(field(l, "inlinedAt"));
            }
        }
        out
    }
}
