//! Hash-consed bit-vector expression DAG with an eager simplifier.
//! Width-1 vectors double as booleans.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor,
    Shl, LShr, AShr,
    Not,
    /// args: hi, lo
    Concat,
    Extract(u32, u32),
    ZExt, SExt,
    Eq, Ult, Ule, Slt, Sle,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: [E; 3],
}

pub const NIL: E = E(u32::MAX);

pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    pub var_nodes: Vec<E>,
    support: HashMap<E, Rc<Vec<u32>>>,
    ub: HashMap<E, u128>,
}

struct Global(UnsafeCell<Option<Arena>>);
unsafe impl Sync for Global {}
static ARENA: Global = Global(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn ar() -> &'static mut Arena {
    // the engine is single threaded
    unsafe { (*ARENA.0.get()).get_or_insert_with(Arena::default) }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

pub fn sext_to_i128(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn raw(op: Op, w: u32, a: [E; 3]) -> E {
    let n = Node { op, w, a };
    let ar = ar();
    if let Some(e) = ar.map.get(&n) {
        return *e;
    }
    let e = E(ar.nodes.len() as u32);
    ar.nodes.push(n);
    ar.map.insert(n, e);
    e
}

pub fn node(e: E) -> Node { ar().nodes[e.0 as usize] }
pub fn width(e: E) -> u32 { node(e).w }

pub fn cst(v: u128, w: u32) -> E {
    if w > 128 {
        return concat(cst(0, w - 128), cst(v, 128));
    }
    raw(Op::Const(v & mask(w)), w, [NIL; 3])
}
pub fn tru() -> E { cst(1, 1) }
pub fn fls() -> E { cst(0, 1) }

pub fn as_const(e: E) -> Option<u128> {
    if e == NIL { return None; }
    match node(e).op { Op::Const(v) => Some(v), _ => None }
}

pub fn new_var(name: String, w: u32) -> E {
    let ar = ar();
    let id = ar.vars.len() as u32;
    ar.vars.push(VarInfo { name, w });
    let e = raw(Op::Var(id), w, [NIL; 3]);
    ar.var_nodes.push(e);
    e
}

/// Returns the var with this exact name and width, creating it if needed, so that the same input read on
/// different paths is the same variable.
pub fn named_var(name: &str, w: u32, index: &mut HashMap<(String, u32), E>) -> E {
    if let Some(e) = index.get(&(name.to_string(), w)) {
        return *e;
    }
    let e = new_var(name.to_string(), w);
    index.insert((name.to_string(), w), e);
    e
}

pub fn bin_const(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    let (sa, sb) = (sext_to_i128(a, w), sext_to_i128(b, w));
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { if sa < 0 { 1 } else { m } } else { (sa.wrapping_div(sb) as u128) & m },
        Op::SRem => if b == 0 { a } else { (sa.wrapping_rem(sb) as u128) & m },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sa >> s.min(127)) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sa < sb) as u128,
        Op::Sle => (sa <= sb) as u128,
        _ => return None,
    })
}

/// An upper bound of the (unsigned) value.
pub fn ub(e: E) -> u128 { ub_to(e, 12) }
fn ub_to(e: E, depth: u32) -> u128 {
    let n = node(e);
    let m = mask(n.w);
    if let Op::Const(v) = n.op { return v; }
    if let Some(v) = ar().ub.get(&e) { return *v; }
    if depth == 0 || n.w > 128 { return m; }
    let g = |i: usize| ub_to(n.a[i], depth - 1);
    let v = match n.op {
        Op::ZExt => g(0),
        Op::UDiv => match as_const(n.a[1]) { Some(c) if c > 0 => g(0) / c, _ => m },
        Op::URem => match as_const(n.a[1]) { Some(c) if c > 0 => g(0).min(c - 1), _ => m },
        Op::Add => match g(0).checked_add(g(1)) { Some(v) if v <= m => v, _ => m },
        Op::Mul => match g(0).checked_mul(g(1)) { Some(v) if v <= m => v, _ => m },
        Op::And => g(0).min(g(1)),
        Op::Extract(_, lo) if width(n.a[0]) <= 128 => (g(0) >> lo).min(m),
        Op::Concat => (g(0) << width(n.a[1])) | mask(width(n.a[1])),
        Op::Ite => g(1).max(g(2)),
        _ => m,
    };
    ar().ub.insert(e, v);
    v
}
/// `e` as the low bits of a wider value.
fn low(e: E) -> E {
    let n = node(e);
    match n.op { Op::Extract(_, 0) => n.a[0], _ => e }
}
/// x - (x / c) * c, where `b` is (x / c) * k with k = c or k = -c, or the low bits of that
fn remainder(a: E, b: E, neg: bool) -> Option<E> {
    let (w, nb) = (width(a), node(b));
    if nb.op != Op::Mul { return None; }
    let k = as_const(nb.a[1])?;
    let k = if neg { 0u128.wrapping_sub(k) & mask(w) } else { k };
    let (x, q) = (low(a), node(low(nb.a[0])));
    if q.op != Op::UDiv || q.a[0] != x || q.w < w { return None; }
    let c = as_const(q.a[1])?;
    if c == 0 || c & mask(w) != k { return None; }
    Some(extract(bin(Op::URem, x, q.a[1]), w - 1, 0))
}

pub fn bin(op: Op, mut a: E, mut b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?}", op);
    let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if w <= 128 {
            return cst(bin_const(op, w, x, y).unwrap(), rw);
        }
    }
    let m = mask(w);
    // constants to the right for commutative operators
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    if comm && ((ca.is_some() && cb.is_none()) || (ca.is_none() && cb.is_none() && a > b)) {
        std::mem::swap(&mut a, &mut b);
    }
    let (ca, cb) = (as_const(a), as_const(b));
    let na = node(a);
    match op {
        Op::Add => {
            if cb == Some(0) { return a; }
            if let Some(r) = remainder(a, b, true).or_else(|| remainder(b, a, true)) { return r; }
            if let (Some(y), Op::Add) = (cb, na.op) {
                if let Some(z) = as_const(na.a[1]) {
                    return bin(Op::Add, na.a[0], cst(y.wrapping_add(z), w));
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) { return a; }
            if a == b { return cst(0, w); }
            if let Some(r) = remainder(a, b, false) { return r; }
            if let Some(y) = cb { return bin(Op::Add, a, cst(0u128.wrapping_sub(y), w)); }
        }
        Op::Mul => {
            if cb == Some(0) { return b; }
            if cb == Some(1) { return a; }
            if let Some(y) = cb {
                if y.is_power_of_two() {
                    return bin(Op::Shl, a, cst(y.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if cb == Some(1) { return a; }
            if let Some(y) = cb {
                if y.is_power_of_two() { return bin(Op::LShr, a, cst(y.trailing_zeros() as u128, w)); }
                if y > 0 && w <= 128 {
                    if ub(a) < y { return cst(0, w); }
                    match na.op {
                        Op::ZExt => {
                            let iw = width(na.a[0]);
                            return if y > mask(iw) { cst(0, w) } else { zext(bin(Op::UDiv, na.a[0], cst(y, iw)), w) };
                        }
                        Op::Extract(_, 0) if width(na.a[0]) <= 128 && ub(na.a[0]) <= m => {
                            return extract(bin(Op::UDiv, na.a[0], cst(y, width(na.a[0]))), w - 1, 0);
                        }
                        Op::UDiv => if let Some(z) = as_const(na.a[1]) {
                            if z > 0 {
                                return match y.checked_mul(z) { Some(v) if v <= m => bin(Op::UDiv, na.a[0], cst(v, w)), _ => cst(0, w) };
                            }
                        },
                        Op::URem => if let Some(z) = as_const(na.a[1]) {
                            if z > 0 && z % y == 0 { return bin(Op::URem, bin(Op::UDiv, na.a[0], b), cst(z / y, w)); }
                        },
                        _ => {}
                    }
                }
            }
        }
        Op::URem => {
            if cb == Some(1) { return cst(0, w); }
            if let Some(y) = cb {
                if y.is_power_of_two() { return bin(Op::And, a, cst(y - 1, w)); }
                if y > 0 && w <= 128 {
                    if ub(a) < y { return a; }
                    match na.op {
                        Op::ZExt => {
                            let iw = width(na.a[0]);
                            return if y > mask(iw) { a } else { zext(bin(Op::URem, na.a[0], cst(y, iw)), w) };
                        }
                        Op::Extract(_, 0) if width(na.a[0]) <= 128 && ub(na.a[0]) <= m => {
                            return extract(bin(Op::URem, na.a[0], cst(y, width(na.a[0]))), w - 1, 0);
                        }
                        Op::URem => if let Some(z) = as_const(na.a[1]) {
                            if z > 0 && z % y == 0 { return bin(Op::URem, na.a[0], b); }
                        },
                        _ => {}
                    }
                }
            }
        }
        Op::And => {
            if cb == Some(0) { return b; }
            if cb == Some(m) && w <= 128 { return a; }
            if a == b { return a; }
            if let (Some(y), Op::And) = (cb, na.op) {
                if let Some(z) = as_const(na.a[1]) { return bin(Op::And, na.a[0], cst(y & z, w)); }
            }
            if w == 1 && (b == not(a)) { return fls(); }
            // low-bit masks become zext(extract)
            if let Some(y) = cb {
                if w <= 128 && y != 0 && (y & (y + 1)) == 0 {
                    let k = 128 - y.leading_zeros();
                    return zext(extract(a, k - 1, 0), w);
                }
            }
        }
        Op::Or => {
            if cb == Some(0) { return a; }
            if cb == Some(m) && w <= 128 { return b; }
            if a == b { return a; }
            if w == 1 && (b == not(a)) { return tru(); }
            // (zext lo) | (x << k) with k == width lo: concat
            if let Some(c) = or_as_concat(a, b).or_else(|| or_as_concat(b, a)) { return c; }
        }
        Op::Xor => {
            if cb == Some(0) { return a; }
            if a == b { return cst(0, w); }
            if cb == Some(m) && w <= 128 { return not(a); }
            if let (Some(y), Op::Xor) = (cb, na.op) {
                if let Some(z) = as_const(na.a[1]) { return bin(Op::Xor, na.a[0], cst(y ^ z, w)); }
            }
        }
        Op::Shl => {
            if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return cst(0, w); }
                return concat(extract(a, w - 1 - k as u32, 0), cst(0, k as u32));
            }
        }
        Op::LShr => {
            if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return cst(0, w); }
                return zext(extract(a, w - 1, k as u32), w);
            }
        }
        Op::AShr => {
            if let Some(k) = cb {
                if k == 0 { return a; }
                let k = if k >= w as u128 { w - 1 } else { k as u32 };
                return sext(extract(a, w - 1, k), w);
            }
        }
        Op::Eq => {
            if a == b { return tru(); }
            if w == 1 {
                if cb == Some(1) { return a; }
                if cb == Some(0) { return not(a); }
            }
            if let Some(y) = cb {
                if w <= 128 && ub(a) < y { return fls(); }
                match na.op {
                    Op::UDiv if y == 0 && as_const(na.a[1]).is_some_and(|c| c > 0) => return bin(Op::Ult, na.a[0], na.a[1]),
                    Op::ZExt => {
                        let iw = width(na.a[0]);
                        if y > mask(iw) { return fls(); }
                        return bin(Op::Eq, na.a[0], cst(y, iw));
                    }
                    Op::SExt => {
                        let iw = width(na.a[0]);
                        let t = y & mask(iw);
                        if (sext_to_i128(t, iw) as u128) & mask(w) != y { return fls(); }
                        return bin(Op::Eq, na.a[0], cst(t, iw));
                    }
                    Op::Concat if w <= 128 => {
                        let (h, l) = (na.a[0], na.a[1]);
                        let lw = width(l);
                        return bin(Op::And, bin(Op::Eq, h, cst(y >> lw, w - lw)), bin(Op::Eq, l, cst(y & mask(lw), lw)));
                    }
                    Op::Not => return bin(Op::Eq, na.a[0], cst(!y & m, w)),
                    Op::Add => if let Some(z) = as_const(na.a[1]) {
                        return bin(Op::Eq, na.a[0], cst(y.wrapping_sub(z), w));
                    },
                    Op::Xor => if let Some(z) = as_const(na.a[1]) {
                        return bin(Op::Eq, na.a[0], cst(y ^ z, w));
                    },
                    Op::Ite => {
                        // push through when both arms are constants
                        if let (Some(t), Some(f)) = (as_const(na.a[1]), as_const(na.a[2])) {
                            return match (t == y, f == y) {
                                (true, true) => tru(),
                                (false, false) => fls(),
                                (true, false) => na.a[0],
                                (false, true) => not(na.a[0]),
                            };
                        }
                        // chains of constant arms
                        if let Some(t) = as_const(na.a[1]) {
                            let rest = bin(Op::Eq, na.a[2], b);
                            return if t == y { bin(Op::Or, na.a[0], rest) } else { bin(Op::And, not(na.a[0]), rest) };
                        }
                    }
                    _ => {}
                }
            } else {
                let nb = node(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a[0]) == width(nb.a[0]) {
                    return bin(Op::Eq, na.a[0], nb.a[0]);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && width(na.a[0]) == width(nb.a[0]) {
                    return bin(Op::And, bin(Op::Eq, na.a[0], nb.a[0]), bin(Op::Eq, na.a[1], nb.a[1]));
                }
            }
        }
        Op::Ult => {
            if a == b { return fls(); }
            if cb == Some(0) { return fls(); }
            if ca == Some(0) { return not(bin(Op::Eq, b, a)); }
            if cb == Some(1) { return bin(Op::Eq, a, cst(0, w)); }
            if let (Some(y), Op::ZExt) = (cb, na.op) {
                let iw = width(na.a[0]);
                if y > mask(iw) { return tru(); }
                return bin(Op::Ult, na.a[0], cst(y, iw));
            }
            let nb = node(b);
            if w <= 128 {
                // comparisons of quotients with constants are comparisons of the dividend
                if let Some(y) = cb {
                    if ub(a) < y { return tru(); }
                    if let (Op::UDiv, Some(c)) = (na.op, as_const(na.a[1])) {
                        if c > 0 { return match y.checked_mul(c) { Some(v) if v <= m => bin(Op::Ult, na.a[0], cst(v, w)), _ => tru() }; }
                    }
                    if let Op::Extract(_, 0) = na.op {
                        if width(na.a[0]) <= 128 && ub(na.a[0]) <= m { return bin(Op::Ult, na.a[0], cst(y, width(na.a[0]))); }
                    }
                }
                if let Some(x) = ca {
                    if ub(b) <= x { return fls(); }
                    if let (Op::UDiv, Some(c)) = (nb.op, as_const(nb.a[1])) {
                        // x < q  <=>  not q < x + 1
                        if c > 0 && x < m { return not(bin(Op::Ult, b, cst(x + 1, w))); }
                    }
                    if let Op::Extract(_, 0) = nb.op {
                        if width(nb.a[0]) <= 128 && ub(nb.a[0]) <= m { return bin(Op::Ult, cst(x, width(nb.a[0])), nb.a[0]); }
                    }
                }
            }
            if let (Some(x), Op::ZExt) = (ca, nb.op) {
                let iw = width(nb.a[0]);
                if x >= mask(iw) { return fls(); }
                return bin(Op::Ult, cst(x, iw), nb.a[0]);
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a[0]) == width(nb.a[0]) {
                return bin(Op::Ult, na.a[0], nb.a[0]);
            }
        }
        Op::Ule => return not(bin(Op::Ult, b, a)),
        Op::Slt => {
            if a == b { return fls(); }
            if na.op == Op::ZExt && w > width(na.a[0]) {
                if let Some(y) = cb {
                    if sext_to_i128(y, w) <= 0 { return fls(); }
                    return bin(Op::Ult, a, b);
                }
            }
            if cb == Some(0) { return extract(a, w - 1, w - 1); }
        }
        Op::Sle => return not(bin(Op::Slt, b, a)),
        _ => {}
    }
    raw(op, rw, [a, b, NIL])
}

/// a | b where a = zext(x) and b = concat(y, 0_k) with k >= width(x)
fn or_as_concat(a: E, b: E) -> Option<E> {
    let nb = node(b);
    if nb.op != Op::Concat { return None; }
    let lw = width(nb.a[1]);
    if as_const(nb.a[1]) != Some(0) { return None; }
    let na = node(a);
    match na.op {
        Op::ZExt if width(na.a[0]) <= lw => Some(concat(nb.a[0], zext(na.a[0], lw))),
        Op::Const(v) if lw <= 128 && v <= mask(lw) => Some(concat(nb.a[0], cst(v, lw))),
        Op::Concat if width(na.a[1]) == lw && as_const(na.a[0]) == Some(0) => Some(concat(nb.a[0], na.a[1])),
        _ => None,
    }
}

pub fn not(a: E) -> E {
    let n = node(a);
    if let Op::Const(v) = n.op { return cst(!v, n.w); }
    if n.op == Op::Not { return n.a[0]; }
    raw(Op::Not, n.w, [a, NIL, NIL])
}
pub fn and(a: E, b: E) -> E { bin(Op::And, a, b) }
pub fn or(a: E, b: E) -> E { bin(Op::Or, a, b) }
pub fn eq(a: E, b: E) -> E { bin(Op::Eq, a, b) }

pub fn concat(hi: E, lo: E) -> E {
    let (wh, wl) = (width(hi), width(lo));
    let (nh, nl) = (node(hi), node(lo));
    if let (Op::Const(x), Op::Const(y)) = (nh.op, nl.op) {
        if wh + wl <= 128 { return cst((x << wl) | y, wh + wl); }
    }
    // adjacent extracts of the same expression
    if let (Op::Extract(h1, l1), Op::Extract(h2, l2)) = (nh.op, nl.op) {
        if nh.a[0] == nl.a[0] && l1 == h2 + 1 { return extract(nh.a[0], h1, l2); }
    }
    if let (Op::Extract(h1, l1), Op::Concat) = (nh.op, nl.op) {
        let x = node(nl.a[0]);
        if let Op::Extract(h2, l2) = x.op {
            if x.a[0] == nh.a[0] && l1 == h2 + 1 {
                return concat(extract(nh.a[0], h1, l2), nl.a[1]);
            }
        }
    }
    // adjacent parts of one word, the lower of which was simplified
    if let Op::Extract(h1, l1) = nh.op {
        if l1 >= wl && extract(nh.a[0], l1 - 1, l1 - wl) == lo { return extract(nh.a[0], h1, l1 - wl); }
        if nl.op == Op::Concat {
            let wy = width(nl.a[0]);
            if l1 >= wy && extract(nh.a[0], l1 - 1, l1 - wy) == nl.a[0] { return concat(extract(nh.a[0], h1, l1 - wy), nl.a[1]); }
        }
    }
    // two halves chosen by the same condition
    if nh.op == Op::Ite && nl.op == Op::Ite && nh.a[0] == nl.a[0] && wh + wl <= 128 {
        return ite(nh.a[0], concat(nh.a[1], nl.a[1]), concat(nh.a[2], nl.a[2]));
    }
    if nh.op == Op::Ite && nl.op == Op::Concat && wh + wl <= 128 {
        let x = node(nl.a[0]);
        if x.op == Op::Ite && x.a[0] == nh.a[0] { return concat(concat(hi, nl.a[0]), nl.a[1]); }
    }
    // constants merge across nested concats
    if let (Op::Const(x), Op::Concat) = (nh.op, nl.op) {
        if let Op::Const(y) = node(nl.a[0]).op {
            let wy = width(nl.a[0]);
            if wh + wy <= 128 { return concat(cst((x << wy) | y, wh + wy), nl.a[1]); }
        }
    }
    if let Op::Const(0) = nh.op {
        if wh + wl <= 128 || true { return raw_zext(lo, wh + wl); }
    }
    if nh.op == Op::Concat {
        // right-associate
        return concat(nh.a[0], concat(nh.a[1], lo));
    }
    if nh.op == Op::ZExt {
        let iw = width(nh.a[0]);
        return raw_zext(concat(nh.a[0], lo), wh - iw + iw + wl);
    }
    raw(Op::Concat, wh + wl, [hi, lo, NIL])
}

fn raw_zext(e: E, w: u32) -> E {
    let n = node(e);
    if n.w == w { return e; }
    if let Op::Const(v) = n.op { if w <= 128 { return cst(v, w); } }
    if n.op == Op::ZExt { return raw_zext(n.a[0], w); }
    if let Op::Extract(_, 0) = n.op {
        // nothing was cut off
        let wx = width(n.a[0]);
        if wx <= 128 && w >= wx && ub(n.a[0]) <= mask(n.w) { return raw_zext(n.a[0], w); }
    }
    raw(Op::ZExt, w, [e, NIL, NIL])
}
pub fn zext(e: E, w: u32) -> E { raw_zext(e, w) }

pub fn sext(e: E, w: u32) -> E {
    let n = node(e);
    if n.w == w { return e; }
    if let Op::Const(v) = n.op { if w <= 128 { return cst(sext_to_i128(v, n.w) as u128, w); } }
    if n.op == Op::SExt { return sext(n.a[0], w); }
    if n.op == Op::ZExt && n.w > width(n.a[0]) { return zext(n.a[0], w); }
    raw(Op::SExt, w, [e, NIL, NIL])
}

pub fn extract(e: E, hi: u32, lo: u32) -> E {
    let n = node(e);
    let w = hi - lo + 1;
    debug_assert!(hi >= lo && hi < n.w);
    if w == n.w { return e; }
    match n.op {
        Op::Const(v) => return cst(v >> lo, w),
        Op::Extract(_, l) => return extract(n.a[0], hi + l, lo + l),
        Op::Concat => {
            let lw = width(n.a[1]);
            if hi < lw { return extract(n.a[1], hi, lo); }
            if lo >= lw { return extract(n.a[0], hi - lw, lo - lw); }
            return concat(extract(n.a[0], hi - lw, 0), extract(n.a[1], lw - 1, lo));
        }
        Op::ZExt => {
            let iw = width(n.a[0]);
            if lo >= iw { return cst(0, w); }
            if hi < iw { return extract(n.a[0], hi, lo); }
            return zext(extract(n.a[0], iw - 1, lo), w);
        }
        Op::SExt => {
            let iw = width(n.a[0]);
            if hi < iw { return extract(n.a[0], hi, lo); }
            if lo < iw { return sext(extract(n.a[0], iw - 1, lo), w); }
            return sext(extract(n.a[0], iw - 1, iw - 1), w);
        }
        // a byte of a word is kept as an extract, so that the bytes merge again when the word is loaded
        Op::And | Op::Or | Op::Xor if w >= 32 || as_const(n.a[0]).is_some() || as_const(n.a[1]).is_some() => {
            return bin(n.op, extract(n.a[0], hi, lo), extract(n.a[1], hi, lo));
        }
        Op::Not => return not(extract(n.a[0], hi, lo)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 && w >= 32 => {
            return bin(n.op, extract(n.a[0], hi, 0), extract(n.a[1], hi, 0));
        }
        Op::Ite if w >= 32 => {
            if as_const(n.a[1]).is_some() || as_const(n.a[2]).is_some() {
                return ite(n.a[0], extract(n.a[1], hi, lo), extract(n.a[2], hi, lo));
            }
        }
        _ => {}
    }
    raw(Op::Extract(hi, lo), w, [e, NIL, NIL])
}

pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(v) = as_const(c) { return if v == 1 { t } else { f }; }
    if t == f { return t; }
    let nc = node(c);
    if nc.op == Op::Not { return ite(nc.a[0], f, t); }
    let w = width(t);
    if w == 1 {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, f),
            (Some(0), None) => return and(not(c), f),
            (None, Some(0)) => return and(c, t),
            (None, Some(1)) => return or(not(c), t),
            _ => {}
        }
    }
    raw(Op::Ite, w, [c, t, f])
}

pub fn support(e: E) -> Rc<Vec<u32>> {
    if let Some(s) = ar().support.get(&e) { return s.clone(); }
    // iterative post-order to avoid deep recursion
    let mut stack = vec![(e, false)];
    while let Some((x, done)) = stack.pop() {
        if ar().support.contains_key(&x) { continue; }
        let n = node(x);
        if let Op::Var(v) = n.op {
            ar().support.insert(x, Rc::new(vec![v]));
            continue;
        }
        if !done {
            stack.push((x, true));
            for k in n.a { if k != NIL { stack.push((k, false)); } }
        } else {
            let mut s: Vec<u32> = vec![];
            let mut first: Option<Rc<Vec<u32>>> = None;
            for k in n.a {
                if k == NIL { continue; }
                let sk = ar().support.get(&k).unwrap().clone();
                if sk.is_empty() { continue; }
                if s.is_empty() && first.is_none() { first = Some(sk); continue; }
                if let Some(f) = first.take() { s.extend(f.iter()); }
                s.extend(sk.iter());
            }
            let r = if let Some(f) = first { f } else { s.sort_unstable(); s.dedup(); Rc::new(s) };
            ar().support.insert(x, r);
        }
    }
    ar().support.get(&e).unwrap().clone()
}

pub type Model = HashMap<u32, u128>;

/// Evaluates `e` under `m`; variables missing from `m` are 0. Only defined for widths up to 128 at the root.
pub fn eval(e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
    if let Some(v) = as_const(e) { return v; }
    if let Some(v) = memo.get(&e) { return *v; }
    let mut stack = vec![(e, false)];
    while let Some((x, done)) = stack.pop() {
        if memo.contains_key(&x) { continue; }
        let n = node(x);
        let get = |k: E, memo: &HashMap<E, u128>| -> Option<u128> { as_const(k).or_else(|| memo.get(&k).copied()) };
        match n.op {
            Op::Const(_) => continue,
            Op::Var(v) => { memo.insert(x, m.get(&v).copied().unwrap_or(0) & mask(n.w)); continue; }
            _ => {}
        }
        if !done {
            stack.push((x, true));
            for k in n.a { if k != NIL && get(k, memo).is_none() { stack.push((k, false)); } }
            continue;
        }
        let a = get(n.a[0], memo).unwrap();
        let w0 = width(n.a[0]);
        let v = match n.op {
            Op::Not => !a & mask(n.w),
            Op::Extract(hi, lo) => if lo >= 128 { panic!("wide eval") } else { (a >> lo) & mask(hi - lo + 1) },
            Op::ZExt => a,
            Op::SExt => (sext_to_i128(a, w0) as u128) & mask(n.w),
            Op::Concat => {
                let b = get(n.a[1], memo).unwrap();
                let lw = width(n.a[1]);
                if n.w > 128 { panic!("wide eval") }
                if lw >= 128 { b } else { (a << lw) | b }
            }
            Op::Ite => if a == 1 { get(n.a[1], memo).unwrap() } else { get(n.a[2], memo).unwrap() },
            op => bin_const(op, w0, a, get(n.a[1], memo).unwrap()).unwrap(),
        };
        memo.insert(x, v);
    }
    memo[&e]
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    match n.op {
        Op::Const(v) => format!("{v}"),
        Op::Var(v) => ar().vars[v as usize].name.clone(),
        _ if depth == 0 => "..".into(),
        op => {
            let args: Vec<String> = n.a.iter().filter(|k| **k != NIL).map(|k| show(*k, depth - 1)).collect();
            format!("({:?} {})", op, args.join(" "))
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// Random terms: the simplified one has the value that plain evaluation gives.
    #[test]
    fn simplifier() {
        let mut r = 0x9e3779b97f4a7c15u64;
        let mut rnd = move |n: u64| { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r % n };
        let vars: Vec<E> = [8u32, 16, 32, 8].iter().enumerate().map(|(i, w)| new_var(format!("v{i}"), *w)).collect();
        for _ in 0..300_000 {
            let vals: Vec<u128> = vars.iter().map(|v| { let x = rnd(1 << 32) as u128; let x = if rnd(3) == 0 { x % 300 } else { x }; x & mask(width(*v)) }).collect();
            let model: Model = vals.iter().enumerate().map(|(i, v)| match node(vars[i]).op { Op::Var(k) => (k, *v), _ => unreachable!() }).collect();
            let mut pool: Vec<(E, u128)> = vars.iter().copied().zip(vals.iter().copied()).collect();
            for _ in 0..10 {
                let (a, va) = pool[rnd(pool.len() as u64) as usize];
                let w = width(a);
                let small = [1u128, 2, 3, 5, 10, 100, 1000, 10000, 7, 0, 9, 99, 255, 256, 65535][rnd(15) as usize] & mask(w);
                let small = if rnd(4) == 0 { 0u128.wrapping_sub(small) & mask(w) } else { small };
                let (b, vb) = if rnd(3) > 0 { (cst(small, w), small) } else {
                    let c: Vec<_> = pool.iter().filter(|(e, _)| width(*e) == w).copied().collect();
                    c[rnd(c.len() as u64) as usize]
                };
                let ops = [Op::UDiv, Op::URem, Op::UDiv, Op::URem, Op::Mul, Op::Mul, Op::Add, Op::Sub, Op::Ult, Op::Eq, Op::And, Op::Or, Op::Slt, Op::LShr, Op::Xor];
                let new = match rnd(20) {
                    0 if w < 64 => (zext(a, w * 2), va),
                    1 if w > 8 => (extract(a, w / 2 - 1, 0), va & mask(w / 2)),
                    2 if w > 8 => (extract(a, w - 1, w / 2), va >> (w / 2)),
                    3 if w == 1 => (not(a), !va & 1),
                    4 if w < 32 && w > 1 => (concat(a, b), (va << w) | vb),
                    5 => { let q = bin(Op::UDiv, a, b); let p = bin(Op::Mul, q, b);
                        let vq = bin_const(Op::UDiv, w, va, vb).unwrap(); let vp = bin_const(Op::Mul, w, vq, vb).unwrap();
                        pool.push((q, vq)); pool.push((p, vp));
                        (bin(Op::Sub, a, p), va.wrapping_sub(vp) & mask(w)) }
                    _ => { let op = ops[rnd(ops.len() as u64) as usize]; let (x, vx, y, vy) = if rnd(2) == 0 { (a, va, b, vb) } else { (b, vb, a, va) };
                        (bin(op, x, y), bin_const(op, w, vx, vy).unwrap()) }
                };
                let got = eval(new.0, &model, &mut HashMap::new());
                assert_eq!(got, new.1, "{} with {vals:?}", show(new.0, 9));
                assert!(got <= ub(new.0), "bound of {}", show(new.0, 9));
                pool.push(new);
            }
        }
    }
}
