//! Z3 (C API), one context per worker thread.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, rm: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, t: P, out: *mut u64) -> bool;
}
extern "C" fn on_error(_: P, e: c_int) {
    eprintln!("engine: z3 error {}", e);
    std::process::exit(2);
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub cached: AtomicU64,
    pub by_model: AtomicU64,
    pub ns: AtomicU64,
    pub max_ns: AtomicU64,
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(Vec<(u32, u64)>),
}
pub type Cache = Mutex<HashMap<u128, Res>>;

pub struct Solver {
    c: P,
    s: P,
    sfp: P,
    memo: HashMap<u128, P>,
    vars: HashMap<(u32, u16), P>,
    fpmemo: bool,
    /// quotient and remainder by a constant, and their definition
    divs: HashMap<(u128, u128), (P, P, P)>,
}
pub struct Dump {
    pub dir: String,
    pub every: u64,
    pub max: u64,
    pub n: AtomicU64,
    pub seen: AtomicU64,
}

impl Solver {
    pub fn new(timeout_ms: u64, seed: u64) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            };
            set("timeout", &timeout_ms.to_string());
            set("model", "true");
            let _ = seed;
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let l = CString::new("QF_BVFP").unwrap();
            let sfp = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, sfp);
            Solver { c, s, sfp, memo: HashMap::new(), vars: HashMap::new(), fpmemo: false, divs: HashMap::new() }
        }
    }
    fn b(&self, cond: P) -> P {
        // Bool -> bv1
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_ite(self.c, cond, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
        }
    }
    /// `x / d` and `x % d` as fresh variables: the circuit of a general
    /// division is much harder to decide than that of a product by a constant.
    fn div(&mut self, a: &E, d: u128) -> (P, P) {
        if let Some(r) = self.divs.get(&(a.id, d)) { return (r.0, r.1); }
        let x = self.tr(a);
        let w = a.w as u32;
        let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        let c = self.c;
        let (qk, rk) = (self.tr(&cst(m / d, w)), self.tr(&cst(m % d, w)));
        let k = self.tr(&cst(d, w));
        unsafe {
            let s = Z3_mk_bv_sort(c, w);
            let n = self.divs.len();
            let mk = |p: &str| { let t = CString::new(format!("{}{}", p, n)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), s) };
            let (q, r) = (mk("quo"), mk("rem"));
            // x = q d + r, r < d, without overflow
            let p1 = Z3_mk_eq(c, x, Z3_mk_bvadd(c, Z3_mk_bvmul(c, q, k), r));
            let p2 = Z3_mk_bvult(c, r, k);
            let p3 = Z3_mk_bvult(c, q, qk);
            let p4 = Z3_mk_eq(c, q, qk);
            let p5 = Z3_mk_bvule(c, r, rk);
            let (t, f) = (Z3_mk_eq(c, k, k), Z3_mk_not(c, Z3_mk_eq(c, k, k)));
            let p = Z3_mk_ite(c, p1, Z3_mk_ite(c, p2, Z3_mk_ite(c, p3, t, Z3_mk_ite(c, p4, p5, f)), f), f);
            self.divs.insert((a.id, d), (q, r, p));
            (q, r)
        }
    }
    pub fn tr(&mut self, e: &E) -> P {
        if let Some(p) = self.memo.get(&e.id) { return *p; }
        let w = e.w as u32;
        let c = self.c;
        let r = unsafe {
            match &e.k {
                K::Const(v) => {
                    let s = Z3_mk_bv_sort(c, w);
                    if *v <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, *v as u64, s)
                    } else {
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                K::Var(n) => {
                    let name = CString::new(format!("v{}_{}", n, w)).unwrap();
                    let p = Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), Z3_mk_bv_sort(c, w));
                    self.vars.insert((*n, e.w), p);
                    p
                }
                K::Bin(op @ (Op::UDiv | Op::URem), a, b) if matches!(b.k, K::Const(v) if v > 0 && !v.is_power_of_two()) => {
                    let K::Const(d) = b.k else { unreachable!() };
                    let (q, r) = self.div(a, d);
                    if *op == Op::UDiv { q } else { r }
                }
                K::Bin(op, a, b) => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe) {
                        self.fpmemo = true;
                        let s = Z3_mk_fpa_sort_64(c);
                        let rm = Z3_mk_fpa_rne(c);
                        let (x, y) = (Z3_mk_fpa_to_fp_bv(c, x, s), Z3_mk_fpa_to_fp_bv(c, y, s));
                        match op {
                            Op::FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rm, x, y)),
                            Op::FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rm, x, y)),
                            Op::FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rm, x, y)),
                            Op::FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rm, x, y)),
                            Op::FEq => { let t = Z3_mk_fpa_eq(c, x, y); self.b(t) }
                            Op::FLt => { let t = Z3_mk_fpa_lt(c, x, y); self.b(t) }
                            _ => { let t = Z3_mk_fpa_leq(c, x, y); self.b(t) }
                        }
                    } else {
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Eq => { let t = Z3_mk_eq(c, x, y); self.b(t) }
                            Op::Ult => { let t = Z3_mk_bvult(c, x, y); self.b(t) }
                            Op::Ule => { let t = Z3_mk_bvule(c, x, y); self.b(t) }
                            Op::Slt => { let t = Z3_mk_bvslt(c, x, y); self.b(t) }
                            Op::Sle => { let t = Z3_mk_bvsle(c, x, y); self.b(t) }
                            _ => unreachable!(),
                        }
                    }
                }
                K::Ite(k, t, f) => {
                    let one = self.tr(&cst(1, 1));
                    let (k, t, f) = (self.tr(k), self.tr(t), self.tr(f));
                    Z3_mk_ite(c, Z3_mk_eq(c, k, one), t, f)
                }
                K::Extract(a, lo) => {
                    let x = self.tr(a);
                    Z3_mk_extract(c, *lo as u32 + w - 1, *lo as u32, x)
                }
                K::ZExt(a) => { let x = self.tr(a); Z3_mk_zero_ext(c, w - a.w as u32, x) }
                K::SExt(a) => { let x = self.tr(a); Z3_mk_sign_ext(c, w - a.w as u32, x) }
                K::Concat(h, l) => { let (x, y) = (self.tr(h), self.tr(l)); Z3_mk_concat(c, x, y) }
                K::Fma(a, b, d) => {
                    self.fpmemo = true;
                    let s = Z3_mk_fpa_sort_64(c);
                    let rm = Z3_mk_fpa_rne(c);
                    let (x, y, z) = (self.tr(a), self.tr(b), self.tr(d));
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_fma(c, rm,
                        Z3_mk_fpa_to_fp_bv(c, x, s), Z3_mk_fpa_to_fp_bv(c, y, s), Z3_mk_fpa_to_fp_bv(c, z, s)))
                }
                K::F(op, a) => {
                    self.fpmemo = true;
                    let x = self.tr(a);
                    let s = Z3_mk_fpa_sort_64(c);
                    let rne = Z3_mk_fpa_rne(c);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let bv = Z3_mk_bv_sort(c, 64);
                    let n = |v: u64| Z3_mk_unsigned_int64(c, v, bv);
                    let fp = || Z3_mk_fpa_to_fp_bv(c, x, s);
                    let num = |v: f64| Z3_mk_fpa_numeral_double(c, v, s);
                    match op {
                        FUn::FromU64 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, x, s)),
                        FUn::FromI64 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, x, s)),
                        FUn::Neg => Z3_mk_bvxor(c, x, n(1 << 63)),
                        FUn::Floor => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fp())),
                        FUn::Ceil => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fp())),
                        FUn::Trunc => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rtz, fp())),
                        FUn::Round => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), fp())),
                        FUn::RoundEven => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rne, fp())),
                        FUn::ToU64Sat => {
                            let f = fp();
                            let conv = Z3_mk_fpa_to_ubv(c, rtz, f, 64);
                            let hi = Z3_mk_ite(c, Z3_mk_fpa_leq(c, num(18446744073709551616.0), f), n(u64::MAX), conv);
                            let lo = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, num(0.0)), n(0), hi);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), n(0), lo)
                        }
                        FUn::ToI64Sat => {
                            let f = fp();
                            let conv = Z3_mk_fpa_to_sbv(c, rtz, f, 64);
                            let hi = Z3_mk_ite(c, Z3_mk_fpa_leq(c, num(9223372036854775808.0), f), n(i64::MAX as u64), conv);
                            let lo = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, num(-9223372036854775808.0)), n(i64::MIN as u64), hi);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), n(0), lo)
                        }
                    }
                }
            }
        };
        self.memo.insert(e.id, r);
        r
    }
    fn defs(&self, e: &E, out: &mut Vec<P>, seen: &mut std::collections::HashSet<u128>) {
        if e.vars == 0 || !seen.insert(e.id) { return; }
        if let K::Bin(Op::UDiv | Op::URem, a, b) = &e.k {
            if let K::Const(d) = b.k { if let Some(r) = self.divs.get(&(a.id, d)) { out.push(r.2); } }
        }
        match &e.k {
            K::Var(_) | K::Const(_) => {}
            K::Bin(_, a, b) | K::Concat(a, b) => { self.defs(a, out, seen); self.defs(b, out, seen); }
            K::Ite(a, b, c) | K::Fma(a, b, c) => { self.defs(a, out, seen); self.defs(b, out, seen); self.defs(c, out, seen); }
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) | K::F(_, a) => self.defs(a, out, seen),
        }
    }
    /// Decides the conjunction of the given 1-bit expressions.
    pub fn check(&mut self, cs: &[E], st: &Stats, dump: Option<&Dump>) -> Result<Res, String> {
        let t0 = Instant::now();
        let one = self.tr(&cst(1, 1));
        let asts: Vec<P> = cs.iter().map(|e| self.tr(e)).collect();
        let mut defs = vec![];
        if !self.divs.is_empty() {
            let mut seen = std::collections::HashSet::new();
            for e in cs { self.defs(e, &mut defs, &mut seen); }
        }
        let c = self.c;
        let s = if self.fpmemo { self.sfp } else { self.s };
        let r = unsafe {
            Z3_solver_push(c, s);
            for a in asts { Z3_solver_assert(c, s, Z3_mk_eq(c, a, one)); }
            for d in defs { Z3_solver_assert(c, s, d); }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vs = std::collections::BTreeMap::new();
                    let mut seen = std::collections::HashSet::new();
                    for e in cs { collect(e, &mut vs, &mut seen); }
                    let mut out = vec![];
                    for ((n, w), _) in vs {
                        let p = self.vars[&(n, w)];
                        let mut v: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if !Z3_model_eval(c, m, p, true, &mut v) || !Z3_get_numeral_uint64(c, v, &mut u) {
                            return Err("no model value".into());
                        }
                        out.push((n, u));
                    }
                    Z3_model_dec_ref(c, m);
                    Ok(Res::Sat(out))
                }
                -1 => Ok(Res::Unsat),
                _ => Err("solver gave no answer within its time limit".to_string()),
            };
            if let (Some(d), Ok(o)) = (dump, &out) {
                let k = d.seen.fetch_add(1, Relaxed);
                if k % d.every == 0 && d.n.load(Relaxed) < d.max {
                    let id = d.n.fetch_add(1, Relaxed);
                    let text = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    let want = if matches!(o, Res::Sat(_)) { "sat" } else { "unsat" };
                    let _ = std::fs::write(
                        format!("{}/q{}.{}.smt2", d.dir, id, want),
                        format!("(set-logic ALL)\n{}\n(check-sat)\n", text),
                    );
                }
            }
            Z3_solver_pop(c, s, 1);
            out
        };
        let ns = t0.elapsed().as_nanos() as u64;
        st.queries.fetch_add(1, Relaxed);
        st.ns.fetch_add(ns, Relaxed);
        st.max_ns.fetch_max(ns, Relaxed);
        match &r {
            Ok(Res::Sat(_)) => { st.sat.fetch_add(1, Relaxed); }
            Ok(Res::Unsat) => { st.unsat.fetch_add(1, Relaxed); }
            _ => {}
        }
        r
    }
}
pub fn collect(e: &E, out: &mut std::collections::BTreeMap<(u32, u16), ()>, seen: &mut std::collections::HashSet<u128>) {
    if e.vars == 0 || !seen.insert(e.id) { return; }
    match &e.k {
        K::Var(n) => { out.insert((*n, e.w), ()); }
        K::Const(_) => {}
        K::Bin(_, a, b) | K::Concat(a, b) => { collect(a, out, seen); collect(b, out, seen); }
        K::Ite(a, b, c) | K::Fma(a, b, c) => { collect(a, out, seen); collect(b, out, seen); collect(c, out, seen); }
        K::Extract(a, _) | K::ZExt(a) | K::SExt(a) | K::F(_, a) => collect(a, out, seen),
    }
}
