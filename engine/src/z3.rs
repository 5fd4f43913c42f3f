//! Minimal binding to libz3's C API, resolved with dlopen so that either installed z3 can be used.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Result<Api, String> {
                Ok(Api { $($name: {
                    let s = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, s.as_ptr());
                    if p.is_null() { return Err(format!("no symbol {}", stringify!($name))); }
                    std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                },)* })
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context: fn(P) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_int_sort: fn(P) -> P;
    Z3_mk_add: fn(P, c_uint, *const P) -> P;
    Z3_mk_sub: fn(P, c_uint, *const P) -> P;
    Z3_mk_mul: fn(P, c_uint, *const P) -> P;
    Z3_mk_lt: fn(P, P, P) -> P;
    Z3_mk_le: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_set_params: fn(P, P, P);
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_get_error_code: fn(P) -> c_uint;
    Z3_get_error_msg: fn(P, c_uint) -> *const c_char;
    Z3_set_error_handler: fn(P, P);
    Z3_ast_to_string: fn(P, P) -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_uint) {
    eprintln!("llsym: z3 error {code}");
    std::process::exit(3);
}

pub struct Z3 {
    a: Api,
    ctx: P,
    solver: P,
    isolver: P,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    pub version: String,
    pub checks: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
    /// checks decided over the integers
    pub linear: u64,
}

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Result<Z3, String> {
        let cand: Vec<String> = match std::env::var("LLSYM_Z3") {
            Ok(p) => vec![p],
            Err(_) => vec![
                "/usr/lib/x86_64-linux-gnu/libz3.so.4".into(),
                "libz3.so.4".into(),
                "libz3.so".into(),
            ],
        };
        for c in cand {
            let s = CString::new(c).unwrap();
            unsafe {
                let h = dlopen(s.as_ptr(), 2);
                if h.is_null() { continue; }
                let a = Api::load(h)?;
                let cfg = (a.Z3_mk_config)();
                let ctx = (a.Z3_mk_context)(cfg);
                (a.Z3_set_error_handler)(ctx, on_error as *const () as P);
                let sym = |s: &str| { let s = CString::new(s).unwrap(); (a.Z3_mk_string_symbol)(ctx, s.as_ptr()) };
                let solver = (a.Z3_mk_solver_for_logic)(ctx, sym("QF_BV"));
                (a.Z3_solver_inc_ref)(ctx, solver);
                let isolver = (a.Z3_mk_solver_for_logic)(ctx, sym("QF_LIA"));
                (a.Z3_solver_inc_ref)(ctx, isolver);
                let p = (a.Z3_mk_params)(ctx);
                (a.Z3_params_inc_ref)(ctx, p);
                (a.Z3_params_set_uint)(ctx, p, sym("timeout"), timeout_ms);
                (a.Z3_solver_set_params)(ctx, solver, p);
                let q = (a.Z3_mk_params)(ctx);
                (a.Z3_params_inc_ref)(ctx, q);
                (a.Z3_params_set_uint)(ctx, q, sym("timeout"), 5000);
                (a.Z3_solver_set_params)(ctx, isolver, q);
                let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
                return Ok(Z3 { a, ctx, solver, isolver, linear: 0, bv: HashMap::new(), bo: HashMap::new(), version, checks: 0, sat: 0, unsat: 0, time: Default::default() });
            }
        }
        Err("libz3 not found".into())
    }

    fn build(&mut self, e: E) {
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.bv.contains_key(&x) { continue; }
            let n = node(x);
            if !done {
                stack.push((x, true));
                for k in n.a { if k != NIL && !self.bv.contains_key(&k) { stack.push((k, false)); } }
                continue;
            }
            unsafe {
                let c = self.ctx;
                let g = |i: usize| self.bv[&n.a[i]];
                let gb = |i: usize| self.bo[&n.a[i]];
                let w1 = n.w == 1;
                let mut boolean: Option<P> = None;
                let mut bv: Option<P> = None;
                let a = &self.a;
                match n.op {
                    Op::Const(v) => {
                        let s = CString::new(v.to_string()).unwrap();
                        bv = Some((a.Z3_mk_numeral)(c, s.as_ptr(), (a.Z3_mk_bv_sort)(c, n.w)));
                        if w1 { boolean = Some(if v == 1 { (a.Z3_mk_true)(c) } else { (a.Z3_mk_false)(c) }); }
                    }
                    Op::Var(v) => {
                        let s = CString::new(format!("v{v}")).unwrap();
                        let sy = (a.Z3_mk_string_symbol)(c, s.as_ptr());
                        bv = Some((a.Z3_mk_const)(c, sy, (a.Z3_mk_bv_sort)(c, n.w)));
                    }
                    Op::And if w1 => boolean = Some((a.Z3_mk_and)(c, 2, [gb(0), gb(1)].as_ptr())),
                    Op::Or if w1 => boolean = Some((a.Z3_mk_or)(c, 2, [gb(0), gb(1)].as_ptr())),
                    Op::Xor if w1 => boolean = Some((a.Z3_mk_xor)(c, gb(0), gb(1))),
                    Op::Not if w1 => boolean = Some((a.Z3_mk_not)(c, gb(0))),
                    Op::Ite if w1 => boolean = Some((a.Z3_mk_ite)(c, gb(0), gb(1), gb(2))),
                    Op::Eq => boolean = Some(if width(n.a[0]) == 1 { (a.Z3_mk_eq)(c, gb(0), gb(1)) } else { (a.Z3_mk_eq)(c, g(0), g(1)) }),
                    Op::Ult => boolean = Some((a.Z3_mk_bvult)(c, g(0), g(1))),
                    Op::Ule => boolean = Some((a.Z3_mk_bvule)(c, g(0), g(1))),
                    Op::Slt => boolean = Some((a.Z3_mk_bvslt)(c, g(0), g(1))),
                    Op::Sle => boolean = Some((a.Z3_mk_bvsle)(c, g(0), g(1))),
                    Op::Add => bv = Some((a.Z3_mk_bvadd)(c, g(0), g(1))),
                    Op::Sub => bv = Some((a.Z3_mk_bvsub)(c, g(0), g(1))),
                    Op::Mul => bv = Some((a.Z3_mk_bvmul)(c, g(0), g(1))),
                    Op::UDiv => bv = Some((a.Z3_mk_bvudiv)(c, g(0), g(1))),
                    Op::SDiv => bv = Some((a.Z3_mk_bvsdiv)(c, g(0), g(1))),
                    Op::URem => bv = Some((a.Z3_mk_bvurem)(c, g(0), g(1))),
                    Op::SRem => bv = Some((a.Z3_mk_bvsrem)(c, g(0), g(1))),
                    Op::And => bv = Some((a.Z3_mk_bvand)(c, g(0), g(1))),
                    Op::Or => bv = Some((a.Z3_mk_bvor)(c, g(0), g(1))),
                    Op::Xor => bv = Some((a.Z3_mk_bvxor)(c, g(0), g(1))),
                    Op::Shl => bv = Some((a.Z3_mk_bvshl)(c, g(0), g(1))),
                    Op::LShr => bv = Some((a.Z3_mk_bvlshr)(c, g(0), g(1))),
                    Op::AShr => bv = Some((a.Z3_mk_bvashr)(c, g(0), g(1))),
                    Op::Not => bv = Some((a.Z3_mk_bvnot)(c, g(0))),
                    Op::Concat => bv = Some((a.Z3_mk_concat)(c, g(0), g(1))),
                    Op::Extract(h, l) => bv = Some((a.Z3_mk_extract)(c, h, l, g(0))),
                    Op::ZExt => bv = Some((a.Z3_mk_zero_ext)(c, n.w - width(n.a[0]), g(0))),
                    Op::SExt => bv = Some((a.Z3_mk_sign_ext)(c, n.w - width(n.a[0]), g(0))),
                    Op::Ite => bv = Some((a.Z3_mk_ite)(c, gb(0), g(1), g(2))),
                }
                if w1 {
                    let one = {
                        let s = CString::new("1").unwrap();
                        (a.Z3_mk_numeral)(c, s.as_ptr(), (a.Z3_mk_bv_sort)(c, 1))
                    };
                    let zero = {
                        let s = CString::new("0").unwrap();
                        (a.Z3_mk_numeral)(c, s.as_ptr(), (a.Z3_mk_bv_sort)(c, 1))
                    };
                    if boolean.is_none() { boolean = Some((a.Z3_mk_eq)(c, bv.unwrap(), one)); }
                    if bv.is_none() { bv = Some((a.Z3_mk_ite)(c, boolean.unwrap(), one, zero)); }
                    self.bo.insert(x, boolean.unwrap());
                }
                self.bv.insert(x, bv.unwrap());
            }
        }
    }

    /// The conjunction over the integers, if it is linear and interval bounds show that nothing wraps.
    fn linear(&mut self, cs: &[E]) -> Option<(Vec<P>, Vec<(u32, P)>)> {
        let mut l = Lin { z: self, bounds: HashMap::new(), ints: HashMap::new(), vars: HashMap::new(), side: vec![], n: 0 };
        for c in cs { l.bound(*c); }
        let mut out = vec![];
        for c in cs { match l.boolean(*c) { Some(b) => out.push(b), None => { if std::env::var("LLSYM_Q").is_ok() { eprintln!("NONLINEAR {}", show(*c, 9)); } return None; } } }
        out.append(&mut l.side);
        let v = l.vars.iter().map(|(k, v)| (*k, v.0)).collect();
        Some((out, v))
    }

    fn check_linear(&mut self, cs: &[E], vars: &[u32]) -> Option<Res> {
        let (fs, iv) = self.linear(cs)?;
        let t0 = std::time::Instant::now();
        unsafe {
            (self.a.Z3_solver_push)(self.ctx, self.isolver);
            for f in fs { (self.a.Z3_solver_assert)(self.ctx, self.isolver, f); }
            let r = (self.a.Z3_solver_check)(self.ctx, self.isolver);
            let out = match r {
                1 => {
                    let m = (self.a.Z3_solver_get_model)(self.ctx, self.isolver);
                    (self.a.Z3_model_inc_ref)(self.ctx, m);
                    let mut vals = vec![];
                    for v in vars {
                        let Some((_, e)) = iv.iter().find(|x| x.0 == *v) else { vals.push((*v, 0)); continue };
                        let mut r: P = std::ptr::null_mut();
                        assert!((self.a.Z3_model_eval)(self.ctx, m, *e, true, &mut r));
                        let s = CStr::from_ptr((self.a.Z3_get_numeral_string)(self.ctx, r));
                        vals.push((*v, s.to_str().unwrap().parse::<u128>().unwrap()));
                    }
                    (self.a.Z3_model_dec_ref)(self.ctx, m);
                    // the integer model must satisfy the bit-vector constraints
                    let model: Model = vals.iter().copied().collect();
                    let mut memo = HashMap::new();
                    if cs.iter().all(|c| eval(*c, &model, &mut memo) == 1) { Some(Res::Sat(vals)) } else { None }
                }
                -1 => Some(Res::Unsat),
                _ => None,
            };
            (self.a.Z3_solver_pop)(self.ctx, self.isolver, 1);
            self.time += t0.elapsed();
            match out { Some(Res::Sat(_)) => { self.sat += 1; } Some(Res::Unsat) => { self.unsat += 1; } _ => {} }
            if out.is_some() { self.checks += 1; self.linear += 1; }
            out
        }
    }

    /// Checks the conjunction of `cs` (width-1 expressions); on sat returns values for `vars`.
    pub fn check(&mut self, cs: &[E], vars: &[u32]) -> Res {
        if let Some(r) = self.check_linear(cs, vars) { return r; }
        for c in cs { self.build(*c); }
        let t0 = std::time::Instant::now();
        unsafe {
            (self.a.Z3_solver_push)(self.ctx, self.solver);
            for c in cs {
                (self.a.Z3_solver_assert)(self.ctx, self.solver, self.bo[c]);
            }
            let r = (self.a.Z3_solver_check)(self.ctx, self.solver);
            self.checks += 1;
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = (self.a.Z3_solver_get_model)(self.ctx, self.solver);
                    (self.a.Z3_model_inc_ref)(self.ctx, m);
                    let mut vals = vec![];
                    for v in vars {
                        let e = ar().var_nodes[*v as usize];
                        self.build(e);
                        let mut r: P = std::ptr::null_mut();
                        let ok = (self.a.Z3_model_eval)(self.ctx, m, self.bv[&e], true, &mut r);
                        assert!(ok);
                        let s = CStr::from_ptr((self.a.Z3_get_numeral_string)(self.ctx, r));
                        vals.push((*v, s.to_str().unwrap().parse::<u128>().unwrap()));
                    }
                    (self.a.Z3_model_dec_ref)(self.ctx, m);
                    Res::Sat(vals)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => Res::Unknown,
            };
            (self.a.Z3_solver_pop)(self.ctx, self.solver, 1);
            self.time += t0.elapsed();
            out
        }
    }
}

/// Translation to linear integer arithmetic. An expression is translated only if its value is shown, by
/// interval bounds, to be the same over the integers as over bit-vectors.
struct Lin<'a> {
    z: &'a mut Z3,
    /// upper and lower bounds of sub-expressions stated by the constraints themselves
    bounds: HashMap<E, (i128, i128)>,
    ints: HashMap<E, Option<(P, i128, i128)>>,
    vars: HashMap<u32, (P, i128, i128)>,
    side: Vec<P>,
    n: u32,
}

impl Lin<'_> {
    /// Only variables (possibly zero-extended) are bounded.
    fn base(e: E) -> E {
        let n = node(e);
        if n.op == Op::ZExt { Self::base(n.a[0]) } else { e }
    }
    fn bound(&mut self, c: E) {
        let n = node(c);
        match n.op {
            Op::And if n.w == 1 => { self.bound(n.a[0]); self.bound(n.a[1]); }
            Op::Ult | Op::Ule => {
                let strict = (n.op == Op::Ult) as i128;
                // k <= x < k + m, written as x - k < m
                let m = node(n.a[0]);
                if let (Op::Add, Some(c)) = (m.op, as_const(n.a[1])) {
                    let (x, k) = if let Some(k) = as_const(m.a[0]) { (m.a[1], k) } else { (m.a[0], as_const(m.a[1]).unwrap_or(0)) };
                    let k = mask(m.w) as i128 + 1 - k as i128;
                    if let Op::Var(_) = node(Self::base(x)).op {
                        if k <= mask(m.w) as i128 && c as i128 - strict < mask(m.w) as i128 + 1 - k { self.meet(Self::base(x), k, k + c as i128 - strict); }
                    }
                }
                if let (Op::Var(_), Some(k)) = (node(Self::base(n.a[0])).op, as_const(n.a[1])) { self.meet(Self::base(n.a[0]), 0, k as i128 - strict); }
                if let (Some(k), Op::Var(_)) = (as_const(n.a[0]), node(Self::base(n.a[1])).op) { self.meet(Self::base(n.a[1]), k as i128 + strict, i128::MAX); }
            }
            Op::Not => {
                let m = node(n.a[0]);
                let strict = (m.op == Op::Ule) as i128;
                if matches!(m.op, Op::Ult | Op::Ule) {
                    // not (a < k): a >= k; not (k < a): a <= k
                    if let (Op::Var(_), Some(k)) = (node(Self::base(m.a[0])).op, as_const(m.a[1])) { self.meet(Self::base(m.a[0]), k as i128 + strict, i128::MAX); }
                    if let (Some(k), Op::Var(_)) = (as_const(m.a[0]), node(Self::base(m.a[1])).op) { self.meet(Self::base(m.a[1]), 0, k as i128 - strict); }
                }
            }
            Op::Eq => {
                if let (Op::Var(_), Some(k)) = (node(Self::base(n.a[0])).op, as_const(n.a[1])) { self.meet(Self::base(n.a[0]), k as i128, k as i128); }
                if let (Some(k), Op::Var(_)) = (as_const(n.a[0]), node(Self::base(n.a[1])).op) { self.meet(Self::base(n.a[1]), k as i128, k as i128); }
            }
            _ => {}
        }
    }
    fn meet(&mut self, e: E, lo: i128, hi: i128) {
        let b = self.bounds.entry(e).or_insert((0, i128::MAX));
        b.0 = b.0.max(lo);
        b.1 = b.1.min(hi);
    }
    fn num(&self, v: i128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { (self.z.a.Z3_mk_numeral)(self.z.ctx, s.as_ptr(), (self.z.a.Z3_mk_int_sort)(self.z.ctx)) }
    }
    fn int(&mut self, e: E) -> Option<(P, i128, i128)> {
        if let Some(r) = self.ints.get(&e) { return *r; }
        self.n += 1;
        let r = if self.n > 4000 { None } else { self.int1(e) };
        self.ints.insert(e, r);
        r
    }
    fn int1(&mut self, e: E) -> Option<(P, i128, i128)> {
        let n = node(e);
        if n.w > 64 || n.w == 1 { return None; }
        let top = mask(n.w) as i128;
        let (a, c) = (&self.z.a as *const Api, self.z.ctx);
        let a = unsafe { &*a };
        unsafe {
            match n.op {
                Op::Const(v) => Some((self.num(v as i128), v as i128, v as i128)),
                Op::Var(v) => {
                    let s = CString::new(format!("i{v}")).unwrap();
                    let x = (a.Z3_mk_const)(c, (a.Z3_mk_string_symbol)(c, s.as_ptr()), (a.Z3_mk_int_sort)(c));
                    let (lo, hi) = self.bounds.get(&e).copied().unwrap_or((0, top));
                    let (lo, hi) = (lo.max(0), hi.min(top));
                    let z = self.num(0);
                    let t = self.num(top);
                    // the variable's own range; tighter bounds are constraints of their own
                    self.side.push((a.Z3_mk_le)(c, z, x));
                    self.side.push((a.Z3_mk_le)(c, x, t));
                    self.vars.insert(v, (x, lo, hi));
                    if lo > hi { return Some((x, 0, top)); }
                    Some((x, lo, hi))
                }
                Op::ZExt => if width(n.a[0]) == 1 {
                    let b = self.boolean(n.a[0])?;
                    Some(((a.Z3_mk_ite)(c, b, self.num(1), self.num(0)), 0, 1))
                } else { self.int(n.a[0]) },
                Op::Add => {
                    // x - k written as x + (2^w - k)
                    for (p, q) in [(0, 1), (1, 0)] {
                        if let Some(k) = as_const(n.a[p]) {
                            let k = k as i128;
                            if k > top / 2 {
                                let k = top + 1 - k;
                                let (x, lo, hi) = self.int(n.a[q])?;
                                if lo < k {
                                    let d = (a.Z3_mk_sub)(c, 2, [x, self.num(k)].as_ptr());
                                    let w = (a.Z3_mk_add)(c, 2, [d, self.num(top + 1)].as_ptr());
                                    return Some(((a.Z3_mk_ite)(c, (a.Z3_mk_le)(c, self.num(k), x), d, w), 0, top));
                                }
                                return Some(((a.Z3_mk_sub)(c, 2, [x, self.num(k)].as_ptr()), lo - k, hi - k));
                            }
                        }
                    }
                    let (x, l1, h1) = self.int(n.a[0])?;
                    let (y, l2, h2) = self.int(n.a[1])?;
                    let s = (a.Z3_mk_add)(c, 2, [x, y].as_ptr());
                    if h1 + h2 > top {
                        let w = (a.Z3_mk_sub)(c, 2, [s, self.num(top + 1)].as_ptr());
                        return Some(((a.Z3_mk_ite)(c, (a.Z3_mk_le)(c, s, self.num(top)), s, w), 0, top));
                    }
                    Some((s, l1 + l2, h1 + h2))
                }
                Op::Sub => {
                    let (x, l1, h1) = self.int(n.a[0])?;
                    let (y, l2, h2) = self.int(n.a[1])?;
                    let d = (a.Z3_mk_sub)(c, 2, [x, y].as_ptr());
                    if l1 < h2 {
                        let w = (a.Z3_mk_add)(c, 2, [d, self.num(top + 1)].as_ptr());
                        return Some(((a.Z3_mk_ite)(c, (a.Z3_mk_le)(c, y, x), d, w), 0, top));
                    }
                    Some((d, l1 - h2, h1 - l2))
                }
                Op::Mul => {
                    let (k, o) = if let Some(k) = as_const(n.a[0]) { (k, n.a[1]) } else { (as_const(n.a[1])?, n.a[0]) };
                    let k = k as i128;
                    let (x, lo, hi) = self.int(o)?;
                    if k != 0 && hi > top / k { return None; }
                    Some(((a.Z3_mk_mul)(c, 2, [self.num(k), x].as_ptr()), lo * k, hi * k))
                }
                Op::Concat => {
                    let (x, l1, h1) = if width(n.a[0]) == 1 { let b = self.boolean(n.a[0])?; ((a.Z3_mk_ite)(c, b, self.num(1), self.num(0)), 0, 1) } else { self.int(n.a[0])? };
                    let k = 1i128 << width(n.a[1]);
                    let hi = (a.Z3_mk_mul)(c, 2, [self.num(k), x].as_ptr());
                    if let Some(v) = as_const(n.a[1]) {
                        if v == 0 { return Some((hi, l1 * k, h1 * k)); }
                        return Some(((a.Z3_mk_add)(c, 2, [hi, self.num(v as i128)].as_ptr()), l1 * k + v as i128, h1 * k + v as i128));
                    }
                    let (y, l2, h2) = self.int(n.a[1])?;
                    Some(((a.Z3_mk_add)(c, 2, [hi, y].as_ptr()), l1 * k + l2, h1 * k + h2))
                }
                Op::Shl => {
                    let k = as_const(n.a[1])?;
                    if k >= n.w as _ { return None; }
                    let k = 1i128 << k;
                    let (x, lo, hi) = self.int(n.a[0])?;
                    if hi > top / k { return None; }
                    Some(((a.Z3_mk_mul)(c, 2, [self.num(k), x].as_ptr()), lo * k, hi * k))
                }
                Op::Extract(h, 0) => {
                    let (x, lo, hi) = self.int(n.a[0])?;
                    if hi > mask(h + 1) as i128 { return None; }
                    Some((x, lo, hi))
                }
                Op::Ite => {
                    let b = self.boolean(n.a[0])?;
                    let (x, l1, h1) = self.int(n.a[1])?;
                    let (y, l2, h2) = self.int(n.a[2])?;
                    Some(((a.Z3_mk_ite)(c, b, x, y), l1.min(l2), h1.max(h2)))
                }
                _ => None,
            }
        }
    }
    fn boolean(&mut self, e: E) -> Option<P> {
        let n = node(e);
        if n.w != 1 { return None; }
        self.n += 1;
        if self.n > 4000 { return None; }
        let (a, c) = (&self.z.a as *const Api, self.z.ctx);
        let a = unsafe { &*a };
        unsafe {
            Some(match n.op {
                Op::Const(v) => if v == 1 { (a.Z3_mk_true)(c) } else { (a.Z3_mk_false)(c) },
                Op::And => { let (x, y) = (self.boolean(n.a[0])?, self.boolean(n.a[1])?); (a.Z3_mk_and)(c, 2, [x, y].as_ptr()) }
                Op::Or => { let (x, y) = (self.boolean(n.a[0])?, self.boolean(n.a[1])?); (a.Z3_mk_or)(c, 2, [x, y].as_ptr()) }
                Op::Xor => { let (x, y) = (self.boolean(n.a[0])?, self.boolean(n.a[1])?); (a.Z3_mk_xor)(c, x, y) }
                Op::Not => { let x = self.boolean(n.a[0])?; (a.Z3_mk_not)(c, x) }
                Op::Ite => { let (p, x, y) = (self.boolean(n.a[0])?, self.boolean(n.a[1])?, self.boolean(n.a[2])?); (a.Z3_mk_ite)(c, p, x, y) }
                Op::Eq if width(n.a[0]) == 1 => { let (x, y) = (self.boolean(n.a[0])?, self.boolean(n.a[1])?); (a.Z3_mk_eq)(c, x, y) }
                Op::Eq => { let (x, y) = (self.int(n.a[0])?.0, self.int(n.a[1])?.0); (a.Z3_mk_eq)(c, x, y) }
                Op::Ult => { let (x, y) = (self.int(n.a[0])?.0, self.int(n.a[1])?.0); (a.Z3_mk_lt)(c, x, y) }
                Op::Ule => { let (x, y) = (self.int(n.a[0])?.0, self.int(n.a[1])?.0); (a.Z3_mk_le)(c, x, y) }
                Op::Slt | Op::Sle => {
                    let half = 1i128 << (width(n.a[0]) - 1);
                    let ((x, _, h1), (y, _, h2)) = (self.int(n.a[0])?, self.int(n.a[1])?);
                    if h1 >= half || h2 >= half { return None; }
                    if n.op == Op::Slt { (a.Z3_mk_lt)(c, x, y) } else { (a.Z3_mk_le)(c, x, y) }
                }
                Op::Var(v) => {
                    let s = CString::new(format!("i{v}")).unwrap();
                    let x = (a.Z3_mk_const)(c, (a.Z3_mk_string_symbol)(c, s.as_ptr()), (a.Z3_mk_int_sort)(c));
                    if self.vars.insert(v, (x, 0, 1)).is_none() {
                        let (z, t) = (self.num(0), self.num(1));
                        self.side.push((a.Z3_mk_le)(c, z, x));
                        self.side.push((a.Z3_mk_le)(c, x, t));
                    }
                    (a.Z3_mk_eq)(c, x, self.num(1))
                }
                _ => return None,
            })
        }
    }
}
