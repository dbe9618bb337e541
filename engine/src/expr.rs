//! Bit-vector expressions (immutable DAG) with simplifying constructors.
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    // IEEE 754 binary64 (operands and results are bit patterns)
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FUn { ToU64Sat, ToI64Sat, FromU64, FromI64, Neg, Floor, Ceil, Trunc, Round, RoundEven }

pub enum K {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(E, u16),
    ZExt(E),
    SExt(E),
    Concat(E, E), // high, low
    F(FUn, E),
    Fma(E, E, E),
}
pub struct Expr {
    pub id: u128,
    pub w: u16,
    pub vars: u128,
    pub k: K,
}
pub type E = Arc<Expr>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn h128(parts: &[u128]) -> u128 {
    let (mut a, mut b) = (0x1234_5678_9abc_def1u64, 0x0fed_cba9_8765_4321u64);
    for p in parts {
        let (l, h) = (*p as u64, (*p >> 64) as u64);
        a = mix(a.rotate_left(7) ^ l, h ^ 0x51);
        b = mix(b.rotate_left(13) ^ h, l ^ 0xA3);
        a = mix(a, l.wrapping_add(b));
        b = mix(b, h.wrapping_add(a));
    }
    ((a as u128) << 64) | b as u128
}
fn mk(w: u32, vars: u128, tag: u128, ids: &[u128], k: K) -> E {
    let mut p = vec![tag, w as u128];
    p.extend_from_slice(ids);
    Arc::new(Expr { id: h128(&p), w: w as u16, vars, k })
}
pub fn cst(v: u128, w: u32) -> E {
    let v = v & mask(w);
    mk(w, 0, 1, &[v], K::Const(v))
}
pub fn var(n: u32, w: u32) -> E {
    mk(w, 1u128 << (n % 128), 2, &[n as u128], K::Var(n))
}
impl Expr {
    pub fn c(&self) -> Option<u128> {
        if let K::Const(v) = self.k { Some(v) } else { None }
    }
}
pub fn is_bool_op(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe)
}
pub fn eval_bin(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let f = |x: u128| f64::from_bits(x as u64);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let x = sext128(a, w); (if b >= w as u128 { x >> 127 } else { x >> b }) as u128 }
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Ule => return (a <= b) as u128,
        Op::Slt => return (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => return (sext128(a, w) <= sext128(b, w)) as u128,
        Op::FAdd => (f(a) + f(b)).to_bits() as u128,
        Op::FSub => (f(a) - f(b)).to_bits() as u128,
        Op::FMul => (f(a) * f(b)).to_bits() as u128,
        Op::FDiv => (f(a) / f(b)).to_bits() as u128,
        Op::FEq => return (f(a) == f(b)) as u128,
        Op::FLt => return (f(a) < f(b)) as u128,
        Op::FLe => return (f(a) <= f(b)) as u128,
    }) & m
}
pub fn eval_f(op: FUn, a: u128) -> u128 {
    match op {
        FUn::ToU64Sat => (f64::from_bits(a as u64) as u64) as u128,
        FUn::ToI64Sat => (f64::from_bits(a as u64) as i64) as u64 as u128,
        FUn::FromU64 => ((a as u64) as f64).to_bits() as u128,
        FUn::FromI64 => ((a as u64 as i64) as f64).to_bits() as u128,
        FUn::Neg => (a as u64 ^ (1 << 63)) as u128,
        FUn::Floor => f64::from_bits(a as u64).floor().to_bits() as u128,
        FUn::Ceil => f64::from_bits(a as u64).ceil().to_bits() as u128,
        FUn::Trunc => f64::from_bits(a as u64).trunc().to_bits() as u128,
        FUn::Round => f64::from_bits(a as u64).round().to_bits() as u128,
        FUn::RoundEven => f64::from_bits(a as u64).round_ties_even().to_bits() as u128,
    }
}
pub fn fun(op: FUn, a: &E) -> E {
    if let Some(x) = a.c() { return cst(eval_f(op, x), 64); }
    mk(64, a.vars, 60 + op as u128, &[a.id], K::F(op, a.clone()))
}
pub fn fma(a: &E, b: &E, c: &E) -> E {
    if let (Some(x), Some(y), Some(z)) = (a.c(), b.c(), c.c()) {
        let f = |x: u128| f64::from_bits(x as u64);
        return cst(f(x).mul_add(f(y), f(z)).to_bits() as u128, 64);
    }
    mk(64, a.vars | b.vars | c.vars, 70, &[a.id, b.id, c.id], K::Fma(a.clone(), b.clone(), c.clone()))
}
pub fn not(a: &E) -> E {
    // boolean negation
    debug_assert!(a.w == 1);
    bin(Op::Xor, a, &cst(1, 1))
}
pub fn bin(op: Op, a: &E, b: &E) -> E {
    let w = a.w as u32;
    debug_assert!(a.w == b.w, "width mismatch {:?} {} {}", op, a.w, b.w);
    let rw = if is_bool_op(op) { 1 } else { w };
    if let (Some(x), Some(y)) = (a.c(), b.c()) {
        return cst(eval_bin(op, x, y, w), rw);
    }
    // constants to the right for commutative operators
    if a.c().is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        return bin(op, b, a);
    }
    let m = mask(w);
    if a.id == b.id {
        match op {
            Op::Sub | Op::Xor => return cst(0, w),
            Op::And | Op::Or => return a.clone(),
            Op::Eq | Op::Ule | Op::Sle => return cst(1, 1),
            Op::Ult | Op::Slt => return cst(0, 1),
            _ => {}
        }
    }
    if let Some(y) = b.c() {
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a.clone(),
            Op::And if y == m => return a.clone(),
            Op::And | Op::Mul if y == 0 => return cst(0, w),
            Op::Mul | Op::UDiv if y == 1 => return a.clone(),
            Op::URem if y == 1 => return cst(0, w),
            Op::Or if y == m => return cst(m, w),
            Op::Ult if y == 0 => return cst(0, 1),
            Op::Ule if y == m => return cst(1, 1),
            Op::Shl | Op::LShr if y >= w as u128 => return cst(0, w),
            _ => {}
        }
        match (op, &a.k) {
            (Op::Add, K::Bin(Op::Add, x, c)) if c.c().is_some() => {
                return bin(Op::Add, x, &cst(c.c().unwrap().wrapping_add(y), w));
            }
            (Op::Sub, _) => return bin(Op::Add, a, &cst(y.wrapping_neg() & m, w)),
            (Op::Eq, K::Bin(Op::Add, x, c)) if c.c().is_some() => {
                return bin(Op::Eq, x, &cst(y.wrapping_sub(c.c().unwrap()) & m, w));
            }
            (Op::Eq, K::Bin(Op::Xor, x, c)) if c.c().is_some() => {
                return bin(Op::Eq, x, &cst(y ^ c.c().unwrap(), w));
            }
            (Op::Xor, K::Bin(Op::Xor, x, c)) if c.c().is_some() => {
                return bin(Op::Xor, x, &cst(y ^ c.c().unwrap(), w));
            }
            (Op::And, K::Bin(Op::And, x, c)) if c.c().is_some() => {
                return bin(Op::And, x, &cst(y & c.c().unwrap(), w));
            }
            (Op::Eq, K::ZExt(x)) => {
                if y > mask(x.w as u32) { return cst(0, 1); }
                return bin(Op::Eq, x, &cst(y, x.w as u32));
            }
            (Op::Eq, K::SExt(x)) => {
                let xw = x.w as u32;
                if sext128(y, w) as u128 & m != sext128(y & mask(xw), xw) as u128 & m { return cst(0, 1); }
                return bin(Op::Eq, x, &cst(y, xw));
            }
            (Op::Eq, K::Concat(h, l)) => {
                let lw = l.w as u32;
                let e1 = bin(Op::Eq, h, &cst(y >> lw, h.w as u32));
                let e2 = bin(Op::Eq, l, &cst(y, lw));
                return bin(Op::And, &e1, &e2);
            }
            (Op::Eq, K::Ite(c, t, f)) if t.c().is_some() || f.c().is_some() => {
                return ite(c, &bin(Op::Eq, t, b), &bin(Op::Eq, f, b));
            }
            (Op::Ult | Op::Ule, K::Ite(c, t, f)) if t.c().is_some() && f.c().is_some() => {
                return ite(c, &bin(op, t, b), &bin(op, f, b));
            }
            (Op::And | Op::Or | Op::Xor | Op::Add | Op::Shl | Op::LShr, K::Ite(c, t, f)) if t.c().is_some() && f.c().is_some() => {
                return ite(c, &bin(op, t, b), &bin(op, f, b));
            }
            (Op::Ult, K::ZExt(x)) => {
                if y > mask(x.w as u32) { return cst(1, 1); }
                return bin(Op::Ult, x, &cst(y, x.w as u32));
            }
            (Op::Ule, K::ZExt(x)) => {
                if y >= mask(x.w as u32) { return cst(1, 1); }
                return bin(Op::Ule, x, &cst(y, x.w as u32));
            }
            (Op::Slt, K::ZExt(x)) if w > x.w as u32 => {
                // a >= 0
                if sext128(y, w) <= 0 { return cst(0, 1); }
                return bin(Op::Ult, a, b);
            }
            (Op::Sle, K::ZExt(x)) if w > x.w as u32 => {
                if sext128(y, w) < 0 { return cst(0, 1); }
                return bin(Op::Ule, a, b);
            }
            (Op::And, K::ZExt(x)) => {
                let xw = x.w as u32;
                return zext(&bin(Op::And, x, &cst(y, xw)), w);
            }
            (Op::And, _) if w > 1 && (y & (y + 1)) == 0 => {
                // low bits mask
                let n = 128 - y.leading_zeros();
                return zext(&extract(a, 0, n), w);
            }
            (Op::LShr, _) => {
                let s = y as u32;
                return zext(&extract(a, s, w - s), w);
            }
            (Op::Shl, _) => {
                let s = y as u32;
                return concat(&extract(a, 0, w - s), &cst(0, s));
            }
            _ => {}
        }
    }
    if let Some(x) = a.c() {
        match (op, &b.k) {
            (Op::Ult, _) if x == m => return cst(0, 1),
            (Op::Ule, _) if x == 0 => return cst(1, 1),
            (Op::Ult, K::ZExt(z)) => {
                if x >= mask(z.w as u32) { return cst(0, 1); }
                return bin(Op::Ult, &cst(x, z.w as u32), z);
            }
            (Op::Ule, K::ZExt(z)) => {
                if x > mask(z.w as u32) { return cst(0, 1); }
                return bin(Op::Ule, &cst(x, z.w as u32), z);
            }
            (Op::Shl | Op::LShr | Op::UDiv | Op::URem, _) if x == 0 && op != Op::UDiv && op != Op::URem => return cst(0, w),
            _ => {}
        }
    }
    match (op, &a.k, &b.k) {
        (Op::Eq | Op::Ult | Op::Ule, K::ZExt(x), K::ZExt(y)) if x.w == y.w => return bin(op, x, y),
        (Op::And | Op::Or | Op::Xor, K::ZExt(x), K::ZExt(y)) if x.w == y.w => return zext(&bin(op, x, y), w),
        (Op::Or | Op::Add | Op::Xor, K::ZExt(x), K::Concat(h, l)) if l.c() == Some(0) && x.w <= l.w => {
            return concat(h, &zext(x, l.w as u32));
        }
        (Op::Or | Op::Add | Op::Xor, K::Concat(h, l), K::ZExt(x)) if l.c() == Some(0) && x.w <= l.w => {
            return concat(h, &zext(x, l.w as u32));
        }
        _ => {}
    }
    mk(rw, a.vars | b.vars, 10 + op as u128, &[a.id, b.id], K::Bin(op, a.clone(), b.clone()))
}
pub fn ite(c: &E, t: &E, f: &E) -> E {
    if let Some(x) = c.c() { return if x == 1 { t.clone() } else { f.clone() }; }
    if t.id == f.id { return t.clone(); }
    if t.w == 1 {
        match (t.c(), f.c()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, f),
            (Some(0), None) => return bin(Op::And, &not(c), f),
            (None, Some(0)) => return bin(Op::And, c, t),
            (None, Some(1)) => return bin(Op::Or, &not(c), t),
            _ => {}
        }
    }
    mk(t.w as u32, c.vars | t.vars | f.vars, 3, &[c.id, t.id, f.id], K::Ite(c.clone(), t.clone(), f.clone()))
}
pub fn zext(a: &E, w: u32) -> E {
    let aw = a.w as u32;
    if aw == w { return a.clone(); }
    assert!(w > aw);
    match &a.k {
        K::Const(v) => return cst(*v, w),
        K::ZExt(x) => return zext(x, w),
        K::Ite(c, t, f) if t.c().is_some() && f.c().is_some() => return ite(c, &zext(t, w), &zext(f, w)),
        _ => {}
    }
    mk(w, a.vars, 4, &[a.id], K::ZExt(a.clone()))
}
pub fn sext(a: &E, w: u32) -> E {
    let aw = a.w as u32;
    if aw == w { return a.clone(); }
    match &a.k {
        K::Const(v) => return cst(sext128(*v, aw) as u128, w),
        K::ZExt(x) if (x.w as u32) < aw => return zext(x, w),
        K::Ite(c, t, f) if t.c().is_some() && f.c().is_some() => return ite(c, &sext(t, w), &sext(f, w)),
        _ => {}
    }
    mk(w, a.vars, 5, &[a.id], K::SExt(a.clone()))
}
pub fn extract(a: &E, lo: u32, w: u32) -> E {
    let aw = a.w as u32;
    if lo == 0 && w == aw { return a.clone(); }
    assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
    match &a.k {
        K::Const(v) => return cst(*v >> lo, w),
        K::Extract(x, l) => return extract(x, *l as u32 + lo, w),
        K::ZExt(x) => {
            let xw = x.w as u32;
            if lo >= xw { return cst(0, w); }
            if lo + w <= xw { return extract(x, lo, w); }
            return zext(&extract(x, lo, xw - lo), w);
        }
        K::SExt(x) if lo + w <= x.w as u32 => return extract(x, lo, w),
        K::Concat(h, l) => {
            let lw = l.w as u32;
            if lo >= lw { return extract(h, lo - lw, w); }
            if lo + w <= lw { return extract(l, lo, w); }
            return concat(&extract(h, 0, lo + w - lw), &extract(l, lo, lw - lo));
        }
        K::Ite(c, t, f) if t.c().is_some() && f.c().is_some() => return ite(c, &extract(t, lo, w), &extract(f, lo, w)),
        K::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => return bin(*op, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => return bin(*op, &extract(x, 0, w), &extract(y, 0, w)),
        _ => {}
    }
    mk(w, a.vars, 6, &[a.id, lo as u128], K::Extract(a.clone(), lo as u16))
}
pub fn concat(h: &E, l: &E) -> E {
    let w = h.w as u32 + l.w as u32;
    assert!(w <= 128, "concat width {}", w);
    if h.c() == Some(0) { return zext(l, w); }
    match (&h.k, &l.k) {
        (K::Const(a), K::Const(b)) => return cst((*a << l.w) | *b, w),
        (K::Extract(x, lo1), K::Extract(y, lo2)) if x.id == y.id && *lo1 == *lo2 + l.w => {
            return extract(x, *lo2 as u32, w);
        }
        (K::ZExt(hx), K::Extract(y, lo2)) => {
            if let K::Extract(x, lo1) = &hx.k {
                if x.id == y.id && *lo1 == *lo2 + l.w {
                    return zext(&extract(x, *lo2 as u32, hx.w as u32 + l.w as u32), w);
                }
            }
        }
        _ => {}
    }
    mk(w, h.vars | l.vars, 7, &[h.id, l.id], K::Concat(h.clone(), l.clone()))
}

/// Value of `e` under the assignment `m` (absent variables are 0).
pub fn eval(e: &E, m: &[u64], memo: &mut std::collections::HashMap<u128, u128>) -> u128 {
    if let K::Const(v) = e.k { return v; }
    if let K::Var(n) = e.k {
        return (m.get(n as usize).copied().unwrap_or(0) as u128) & mask(e.w as u32);
    }
    if let Some(v) = memo.get(&e.id) { return *v; }
    let w = e.w as u32;
    let r = match &e.k {
        K::Bin(op, a, b) => eval_bin(*op, eval(a, m, memo), eval(b, m, memo), a.w as u32),
        K::Ite(c, t, f) => if eval(c, m, memo) == 1 { eval(t, m, memo) } else { eval(f, m, memo) },
        K::Extract(a, lo) => (eval(a, m, memo) >> lo) & mask(w),
        K::ZExt(a) => eval(a, m, memo),
        K::SExt(a) => (sext128(eval(a, m, memo), a.w as u32) as u128) & mask(w),
        K::Concat(h, l) => (eval(h, m, memo) << l.w) | eval(l, m, memo),
        K::F(op, a) => eval_f(*op, eval(a, m, memo)),
        K::Fma(a, b, c) => {
            let f = |x: u128| f64::from_bits(x as u64);
            f(eval(a, m, memo)).mul_add(f(eval(b, m, memo)), f(eval(c, m, memo))).to_bits() as u128
        }
        _ => unreachable!(),
    };
    memo.insert(e.id, r);
    r
}
