//! Symbolic interpreter of LLVM IR.
use crate::expr::{self, *};
use crate::ir::{self, *};
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone)]
pub enum Val {
    C(u64),
    S(E),
    A(Arc<Vec<Val>>),
}
use Val::*;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub b: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub dst: u32,
    pub normal: Option<u32>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VK { Input, Rng, Order }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Vec<u64>,
    pub vars: Vec<(VK, u8)>,
    pub known: HashMap<u128, u64>,
    pub obs: Vec<Val>,
    pub steps: u64,
    pub order_mode: u64,
    /// Random draws made, and number of those which are symbolic (0: all).
    pub draws: u64,
    pub draw_limit: u64,
    pub order_pol: Option<Val>,
    pub depth: u32,
    pub marks: u64,
}
pub enum End {
    Done,
    Assumed,
    Violation(String, String), // kind, detail
    Error(String),
    Limit(String),
}
pub struct Cfg {
    pub max_steps: u64,
    pub max_states: u64,
    pub max_secs: u64,
    pub samples: usize,
    pub max_viol: usize,
    pub order: Option<u64>,
    pub solver_ms: u64,
    pub seed: u64,
}
#[derive(Clone)]
pub struct Sample {
    pub key: u128,
    pub inputs: Vec<(VK, u8, u64)>,
    pub obs: Vec<u64>,
    pub end: String,
}
pub struct Viol {
    pub kind: String,
    pub detail: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(VK, u8, u64)>,
}
#[derive(Default)]
pub struct Totals {
    pub paths: AtomicU64,
    pub assumed: AtomicU64,
    pub states: AtomicU64,
    pub branches: AtomicU64,
    pub steps: AtomicU64,
    pub checks: AtomicU64,
    pub checks_sym: AtomicU64,
    pub observed: AtomicU64,
    pub maxdepth: AtomicU64,
}
pub struct Shared {
    pub m: &'static Module,
    pub ext: Vec<X>,
    pub hook: Vec<Option<X>>,
    pub q: Mutex<Vec<Box<State>>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub nthreads: usize,
    pub stop: AtomicBool,
    pub st: Stats,
    pub tot: Totals,
    pub cache: Cache,
    pub cfg: Cfg,
    pub viol: Mutex<Vec<Viol>>,
    pub errs: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<BTreeMap<u128, Sample>>,
    pub cover: Mutex<Vec<u64>>,
    pub marks: AtomicU64,
    pub deadline: std::time::Instant,
    pub dump: Option<Dump>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum X {
    Nop, Zero, Unsupported, Panic, Trap, Syscall,
    SymVar, SymRng, SymOrder, SymOrderMode, SymAssume, SymCheck, SymObserve, SymMark, SymConc, SymPeek, SymHash,
    Malloc, Calloc, Realloc, Free, PosixMemalign,
    Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen,
    UMax, UMin, SMax, SMin, Fshl, Fshr, Ctpop, Cttz, Ctlz, Bswap, Bitrev, Abs,
    USubSat, UAddSat, SSubSat, SAddSat,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    UCmp, SCmp, RedAdd, RedOr, RedAnd, RedXor, RedUMax, RedUMin, Ident, LoadRel,
    FToU, FToS, Fma, Log2, Floor, Ceil, TruncF, Round, RoundEven, Fabs, Sqrt, Exp2, Pow, LogE, Log10, FMin, FMax, FCopysign,
}
pub fn ext_kind(n: &str) -> X {
    use X::*;
    match n {
        "sym_var" => return SymVar, "sym_rng" => return SymRng, "sym_map_order" => return SymOrder,
        "sym_order_mode" => return SymOrderMode, "sym_assume" => return SymAssume, "sym_check" => return SymCheck,
        "sym_observe" => return SymObserve, "sym_mark" => return SymMark, "sym_concretize" => return SymConc, "sym_peek" => return SymPeek, "sym_hash" => return SymHash,
        "malloc" => return Malloc, "calloc" => return Calloc, "realloc" => return Realloc, "free" => return Free,
        "posix_memalign" => return PosixMemalign, "syscall" => return Syscall,
        "memcpy" => return Memcpy, "memmove" => return Memmove, "memset" => return Memset, "memcmp" => return Memcmp,
        "bcmp" => return Bcmp, "strlen" => return Strlen, "abort" | "llvm.trap" | "llvm.ubsantrap" => return Trap,
        "log2" => return Log2, "fma" => return Fma, "floor" => return Floor, "ceil" => return Ceil, "round" => return Round,
        "sqrt" => return Sqrt, "exp2" => return Exp2, "pow" => return Pow, "log" => return LogE, "log10" => return Log10,
        "trunc" => return TruncF,
        _ => {}
    }
    let table: &[(&str, X)] = &[
        ("llvm.memcpy", Memcpy), ("llvm.memmove", Memmove), ("llvm.memset", Memset),
        ("llvm.umax", UMax), ("llvm.umin", UMin), ("llvm.smax", SMax), ("llvm.smin", SMin), ("llvm.fshl", Fshl), ("llvm.fshr", Fshr),
        ("llvm.ctpop", Ctpop), ("llvm.cttz", Cttz), ("llvm.ctlz", Ctlz), ("llvm.bswap", Bswap), ("llvm.bitreverse", Bitrev), ("llvm.abs", Abs),
        ("llvm.usub.sat", USubSat), ("llvm.uadd.sat", UAddSat), ("llvm.ssub.sat", SSubSat), ("llvm.sadd.sat", SAddSat),
        ("llvm.uadd.with", UAddO), ("llvm.usub.with", USubO), ("llvm.umul.with", UMulO),
        ("llvm.sadd.with", SAddO), ("llvm.ssub.with", SSubO), ("llvm.smul.with", SMulO),
        ("llvm.ucmp", UCmp), ("llvm.scmp", SCmp), ("llvm.vector.reduce.add", RedAdd), ("llvm.vector.reduce.or", RedOr),
        ("llvm.vector.reduce.and", RedAnd), ("llvm.vector.reduce.xor", RedXor), ("llvm.vector.reduce.umax", RedUMax), ("llvm.vector.reduce.umin", RedUMin),
        ("llvm.is.constant", Zero), ("llvm.expect", Ident), ("llvm.threadlocal.address", Ident), ("llvm.launder", Ident), ("llvm.ssa.copy", Ident),
        ("llvm.load.relative", LoadRel), ("llvm.x86.sse2.pause", Nop), ("llvm.prefetch", Nop), ("llvm.sideeffect", Nop), ("llvm.donothing", Nop), ("llvm.invariant", Nop),
        ("llvm.fptoui.sat", FToU), ("llvm.fptosi.sat", FToS), ("llvm.fma", Fma), ("llvm.fmuladd", Fma), ("llvm.log2", Log2), ("llvm.log10", Log10), ("llvm.log", LogE),
        ("llvm.roundeven", RoundEven), ("llvm.rint", RoundEven), ("llvm.nearbyint", RoundEven),
        ("llvm.floor", Floor), ("llvm.ceil", Ceil), ("llvm.trunc", TruncF), ("llvm.round", Round), ("llvm.fabs", Fabs), ("llvm.sqrt", Sqrt),
        ("llvm.exp2", Exp2), ("llvm.pow", Pow), ("llvm.minnum", FMin), ("llvm.maxnum", FMax), ("llvm.minimum", FMin), ("llvm.maximum", FMax), ("llvm.copysign", FCopysign),
        ("llvm.experimental", Nop),
    ];
    for (p, x) in table { if n.starts_with(p) { return *x; } }
    Unsupported
}
pub fn hook_kind(n: &str) -> Option<X> {
    if matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "fma" | "log2" | "floor" | "ceil" | "trunc" | "round") { return Some(ext_kind(n)); }
    if (n.contains("9panicking") && !n.contains("panic_count") && !n.ends_with("9panicking") && n.contains("panicking") && !n.contains("drop_glue"))
        || n.contains("13unwrap_failed") || n.contains("13expect_failed") || n.contains("18handle_alloc_error")
        || n.contains("17capacity_overflow") || n.contains("16slice_index_fail") || n.contains("16slice_error_fail") || n.contains("17len_mismatch_fail")
        || n.contains("13assert_failed") || n.contains("rust_begin_unwind")
    { return Some(X::Panic); }
    None
}

pub fn mkv(v: u128, w: u32) -> Val {
    if w <= 64 { C((v & mask(w)) as u64) } else { S(cst(v, w)) }
}
pub fn norm(e: E) -> Val {
    match e.c() { Some(v) if e.w <= 64 => C(v as u64), _ => S(e) }
}
pub fn to_e(v: &Val, w: u32) -> E {
    match v {
        C(x) => cst(*x as u128, w),
        S(e) => { debug_assert_eq!(e.w as u32, w); e.clone() }
        A(_) => panic!("aggregate as scalar"),
    }
}
fn cval(c: &ir::C, ty: &Ty) -> Val {
    match c {
        ir::C::I(v) => match ty { Ty::Int(n) if *n > 64 => S(cst(*v, *n)), _ => C(*v as u64) },
        ir::C::Agg(v) => A(Arc::new(v.iter().enumerate().map(|(i, c)| cval(c, ty.elem(i))).collect())),
    }
}
type R<T> = Result<T, End>;

pub struct Worker {
    pub sh: Arc<Shared>,
    pub m: &'static Module,
    pub sol: Solver,
    pub out: Vec<Box<State>>,
    pub cover: Vec<u64>,
    /// instructions per function, when asked
    profile: Option<HashMap<usize, u64>>,
    rng: u64,
}

impl State {
    fn set(&mut self, dst: u32, v: Val) {
        if dst != u32::MAX { let f = self.frames.last_mut().unwrap(); f.regs[dst as usize] = v; }
    }
    #[inline]
    fn o(&self, o: &O, ty: &Ty) -> Val {
        match o {
            O::R(r) => self.frames.last().unwrap().regs[*r as usize].clone(),
            O::C(c) => cval(c, ty),
        }
    }
    fn fresh(&mut self, k: VK, w: u32) -> E {
        let n = self.vars.len() as u32;
        self.vars.push((k, w as u8));
        if self.model.len() < self.vars.len() { self.model.push(0); }
        var(n, w)
    }
    pub fn new_frame(f: &'static Func, args: Vec<Val>, dst: u32, normal: Option<u32>) -> Frame {
        let mut regs = args;
        regs.resize(f.nregs as usize, C(0));
        Frame { f, b: 0, ip: 0, regs, allocas: vec![], dst, normal }
    }
    fn inputs(&self) -> Vec<(VK, u8, u64)> {
        self.vars.iter().enumerate().map(|(i, (k, w))| (*k, *w, (self.model.get(i).copied().unwrap_or(0) as u128 & mask(*w as u32)) as u64)).collect()
    }
}

impl Worker {
    pub fn new(sh: Arc<Shared>) -> Self {
        let m = sh.m;
        let sol = Solver::new(sh.cfg.solver_ms, sh.cfg.seed);
        let n = m.ninst as usize / 64 + 1;
        let rng = sh.cfg.seed;
        Worker { sh, m, sol, out: vec![], cover: vec![0; n], profile: std::env::var("ENGINE_PROFILE").ok().map(|_| HashMap::new()), rng }
    }
    /// Is `c` satisfiable together with the path condition? Returns a model.
    fn feasible(&mut self, st: &State, c: &E) -> R<Option<Vec<u64>>> {
        if let Some(v) = c.c() { return Ok(if v == 1 { Some(st.model.clone()) } else { None }); }
        let mut memo = HashMap::new();
        if eval(c, &st.model, &mut memo) == 1 {
            self.sh.st.by_model.fetch_add(1, Relaxed);
            return Ok(Some(st.model.clone()));
        }
        // independent slice of the path condition
        let mut vars = c.vars;
        let mut inc = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.pc.iter().enumerate() {
                if !inc[i] && e.vars & vars != 0 { inc[i] = true; vars |= e.vars; ch = true; }
            }
            if !ch { break; }
        }
        let mut cs: Vec<E> = st.pc.iter().zip(&inc).filter(|(_, b)| **b).map(|(e, _)| e.clone()).collect();
        cs.push(c.clone());
        let mut ids: Vec<u128> = cs.iter().map(|e| e.id).collect();
        ids.sort();
        ids.dedup();
        let key = h128(&ids);
        let hit = self.sh.cache.lock().unwrap().get(&key).cloned();
        let r = match hit {
            Some(r) => { self.sh.st.cached.fetch_add(1, Relaxed); r }
            None => {
                if self.sh.stop.load(Relaxed) || std::time::Instant::now() > self.sh.deadline { return Err(End::Error("time limit".into())); }
                let r = self.sol.check(&cs, &self.sh.st, self.sh.dump.as_ref()).map_err(End::Error)?;
                self.sh.cache.lock().unwrap().insert(key, r.clone());
                r
            }
        };
        Ok(match r {
            Res::Unsat => None,
            Res::Sat(vs) => {
                let mut m = st.model.clone();
                for (n, v) in vs { if m.len() <= n as usize { m.resize(n as usize + 1, 0); } m[n as usize] = v; }
                let mut memo = HashMap::new();
                for e in cs.iter() {
                    if eval(e, &m, &mut memo) != 1 { return Err(End::Error("a model does not satisfy its query (evaluator and solver disagree)".into())); }
                }
                Some(m)
            }
        })
    }
    fn learn(st: &mut State, e: &E, v: u64) {
        st.known.insert(e.id, v);
        if e.w == 1 {
            if let K::Bin(expr::Op::Eq, x, c) = &e.k {
                if v == 1 { if let Some(k) = c.c() { if x.w <= 64 { st.known.insert(x.id, k as u64); } } }
            }
            if let K::Bin(expr::Op::Xor, x, c) = &e.k {
                if c.c() == Some(1) { let x = x.clone(); Self::learn(st, &x, 1 - v); }
            }
            if let K::Bin(expr::Op::And, x, y) = &e.k {
                if v == 1 { let (x, y) = (x.clone(), y.clone()); Self::learn(st, &x, 1); Self::learn(st, &y, 1); }
            }
        }
    }
    /// Concrete value of `e` on this path; the other feasible values are
    /// explored by a copy of the state, which runs the same instruction again.
    fn conc_e(&mut self, st: &mut State, e: &E) -> R<u64> {
        if let Some(c) = e.c() { return Ok(c as u64); }
        if let Some(v) = st.known.get(&e.id) { return Ok(*v); }
        if e.w == 1 {
            if let K::Bin(expr::Op::Xor, x, c) = &e.k {
                if c.c() == Some(1) { let x = x.clone(); return Ok(1 - self.conc_e(st, &x)?); }
            }
        }
        if e.w > 64 { return Err(End::Error("concretisation of a wide value".into())); }
        let mut memo = HashMap::new();
        let v = eval(e, &st.model, &mut memo) as u64;
        let eq = bin(expr::Op::Eq, e, &cst(v as u128, e.w as u32));
        let ne = not(&eq);
        self.sh.tot.branches.fetch_add(1, Relaxed);
        if let Some(m) = self.feasible(st, &ne)? {
            let mut o = Box::new(st.clone());
            o.model = m;
            o.depth += 1;
            if e.w == 1 { Self::learn(&mut o, e, 1 - v); }
            Self::learn(&mut o, &ne, 1);
            o.pc.push(ne.clone());
            self.out.push(o);
            self.sh.tot.states.fetch_add(1, Relaxed);
            st.depth += 1;
            st.pc.push(eq.clone());
        }
        Self::learn(st, e, v);
        Self::learn(st, &eq, 1);
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            C(x) => Ok(*x),
            S(e) => { let e = e.clone(); self.conc_e(st, &e) }
            A(_) => Err(End::Error("aggregate concretised".into())),
        }
    }
    fn me<T>(r: MR<T>) -> R<T> { r.map_err(|e| End::Violation("memory".into(), e)) }

    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let n = ty.store_size();
                let w = ty.bits();
                if n <= 8 {
                    if let Some(v) = Self::me(st.mem.load_c(a, n))? { return Ok(C(if w < 64 { v & mask(w) as u64 } else { v })); }
                }
                let e = Self::me(st.mem.load_e(a, n))?;
                Ok(norm(if (e.w as u32) > w { extract(&e, 0, w) } else { e }))
            }
            Ty::Void | Ty::Other => Err(End::Error("load type".into())),
            Ty::Vec(_, t) if matches!(**t, Ty::Int(b) if b < 8) => Err(End::Error("load of a bit vector".into())),
            _ => {
                let mut v = vec![];
                for i in 0..ty.count() { v.push(self.load(st, a + ty.field_off(i), ty.elem(i))?); }
                Ok(A(Arc::new(v)))
            }
        }
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (_, C(x)) => Self::me(st.mem.store_c(a, ty.store_size(), &x.to_le_bytes())),
            (_, S(e)) => Self::me(st.mem.store_e(a, ty.store_size(), e)),
            (_, A(vs)) => {
                if let Ty::Vec(_, t) = ty { if matches!(**t, Ty::Int(b) if b < 8) { return Err(End::Error("store of a bit vector".into())); } }
                for (i, x) in vs.clone().iter().enumerate() { self.store(st, a + ty.field_off(i), ty.elem(i), x)?; }
                Ok(())
            }
        }
    }
    fn map2(ty: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&Ty, &Val, &Val) -> R<Val>) -> R<Val> {
        match (a, b) {
            (A(x), A(y)) => Ok(A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| f(ty.elem(0), p, q)).collect::<R<Vec<_>>>()?))),
            _ => f(ty, a, b),
        }
    }
    fn map1(ty: &Ty, a: &Val, f: &mut dyn FnMut(&Ty, &Val) -> R<Val>) -> R<Val> {
        match a {
            A(x) => Ok(A(Arc::new(x.iter().map(|p| f(ty.elem(0), p)).collect::<R<Vec<_>>>()?))),
            _ => f(ty, a),
        }
    }
    fn bin(op: B, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        use expr::Op as X;
        if matches!(op, B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem) {
            if let (C(x), C(y)) = (a, b) {
                return Ok(C(if *ty == Ty::F32 {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    (match op { B::FAdd => x + y, B::FSub => x - y, B::FMul => x * y, B::FDiv => x / y, _ => x % y }).to_bits() as u64
                } else {
                    let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                    (match op { B::FAdd => x + y, B::FSub => x - y, B::FMul => x * y, B::FDiv => x / y, _ => x % y }).to_bits()
                }));
            }
            if *ty != Ty::F64 { return Err(End::Error("symbolic f32".into())); }
            let o = match op { B::FAdd => X::FAdd, B::FSub => X::FSub, B::FMul => X::FMul, B::FDiv => X::FDiv, _ => return Err(End::Error("symbolic frem".into())) };
            return Ok(norm(expr::bin(o, &to_e(a, 64), &to_e(b, 64))));
        }
        let w = ty.bits();
        let o = match op {
            B::Add => X::Add, B::Sub => X::Sub, B::Mul => X::Mul, B::UDiv => X::UDiv, B::SDiv => X::SDiv, B::URem => X::URem, B::SRem => X::SRem,
            B::Shl => X::Shl, B::LShr => X::LShr, B::AShr => X::AShr, B::And => X::And, B::Or => X::Or, _ => X::Xor,
        };
        if let (C(x), C(y)) = (a, b) {
            let m = mask(w) as u64;
            return Ok(C(match o {
                X::Add => x.wrapping_add(*y) & m,
                X::Sub => x.wrapping_sub(*y) & m,
                X::And => x & y,
                X::Or => x | y,
                X::Xor => x ^ y,
                X::Mul => x.wrapping_mul(*y) & m,
                _ => eval_bin(o, *x as u128, *y as u128, w) as u64,
            }));
        }
        Ok(norm(expr::bin(o, &to_e(a, w), &to_e(b, w))))
    }
    fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        use expr::Op as X;
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            return C(match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y),
            } as u64);
        }
        let (a, b) = (to_e(a, w), to_e(b, w));
        norm(match p {
            Pred::Eq => expr::bin(X::Eq, &a, &b),
            Pred::Ne => not(&expr::bin(X::Eq, &a, &b)),
            Pred::Ugt => expr::bin(X::Ult, &b, &a),
            Pred::Uge => expr::bin(X::Ule, &b, &a),
            Pred::Ult => expr::bin(X::Ult, &a, &b),
            Pred::Ule => expr::bin(X::Ule, &a, &b),
            Pred::Sgt => expr::bin(X::Slt, &b, &a),
            Pred::Sge => expr::bin(X::Sle, &b, &a),
            Pred::Slt => expr::bin(X::Slt, &a, &b),
            Pred::Sle => expr::bin(X::Sle, &a, &b),
        })
    }
    fn fcmp(p: &str, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = if *ty == Ty::F32 { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) } else { (f64::from_bits(*x), f64::from_bits(*y)) };
            let un = x.is_nan() || y.is_nan();
            return Ok(C(match p {
                "oeq" => x == y, "one" => !un && x != y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "ord" => !un,
                "ueq" => un || x == y, "une" => x != y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y,
                "uno" => un, "true" => true, _ => false,
            } as u64));
        }
        use expr::Op as X;
        let (a, b) = (to_e(a, 64), to_e(b, 64));
        let nan = |e: &E| not(&expr::bin(X::FEq, e, e));
        let un = expr::bin(X::Or, &nan(&a), &nan(&b));
        let or = |x: &E| expr::bin(X::Or, &un, x);
        let (eq, lt, gt, le, ge) = (expr::bin(X::FEq, &a, &b), expr::bin(X::FLt, &a, &b), expr::bin(X::FLt, &b, &a), expr::bin(X::FLe, &a, &b), expr::bin(X::FLe, &b, &a));
        Ok(norm(match p {
            "oeq" => eq, "ogt" => gt, "oge" => ge, "olt" => lt, "ole" => le, "ord" => not(&un), "uno" => un.clone(),
            "one" => expr::bin(X::And, &not(&un), &not(&eq)), "une" => not(&eq), "ueq" => or(&eq),
            "ugt" => or(&gt), "uge" => or(&ge), "ult" => or(&lt), "ule" => or(&le), "true" => cst(1, 1), _ => cst(0, 1),
        }))
    }
    fn cast(k: &ir::Cast, f: &Ty, t: &Ty, v: &Val) -> R<Val> {
        use ir::Cast::*;
        Ok(match k {
            Trunc => { let w = t.bits(); match v { C(x) => C(x & mask(w) as u64), _ => norm(extract(&to_e(v, f.bits()), 0, w)) } }
            ZExt => { let w = t.bits(); match v { C(x) if w <= 64 => C(*x), _ => norm(zext(&to_e(v, f.bits()), w)) } }
            SExt => {
                let (fw, w) = (f.bits(), t.bits());
                match v { C(x) if w <= 64 => C((sext128(*x as u128, fw) as u64) & mask(w) as u64), _ => norm(sext(&to_e(v, fw), w)) }
            }
            Bit => {
                if t.is_agg() != f.is_agg() { return Err(End::Error("bitcast between a vector and a scalar".into())); }
                let (fw, w) = (f.bits(), t.bits());
                match v {
                    C(x) => C(if w < 64 { x & mask(w) as u64 } else { *x }),
                    _ => { let e = to_e(v, fw); norm(if w < fw { extract(&e, 0, w) } else { zext(&e, w) }) }
                }
            }
            FpToUi | FpToSi => {
                let w = t.bits();
                match v {
                    C(x) => {
                        let x = if *f == Ty::F32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
                        C((if matches!(k, FpToUi) { x as u64 } else { x as i64 as u64 }) & mask(w.min(64)) as u64)
                    }
                    _ => { let e = fun(if matches!(k, FpToUi) { FUn::ToU64Sat } else { FUn::ToI64Sat }, &to_e(v, 64)); norm(extract(&e, 0, w)) }
                }
            }
            UiToFp | SiToFp => {
                let fw = f.bits();
                let s = matches!(k, SiToFp);
                match v {
                    C(x) => {
                        let r = if s { sext128(*x as u128, fw) as i64 as f64 } else { *x as f64 };
                        if *t == Ty::F32 { return Ok(C((if s { sext128(*x as u128, fw) as i64 as f32 } else { *x as f32 }).to_bits() as u64)); }
                        C(r.to_bits())
                    }
                    _ => {
                        if *t != Ty::F64 || fw > 64 { return Err(End::Error("symbolic int to float".into())); }
                        let e = to_e(v, fw);
                        norm(fun(if s { FUn::FromI64 } else { FUn::FromU64 }, &if s { sext(&e, 64) } else { zext(&e, 64) }))
                    }
                }
            }
            FpExt => match v { C(x) => C((f32::from_bits(*x as u32) as f64).to_bits()), _ => return Err(End::Error("fpext".into())) },
            FpTrunc => match v { C(x) => C((f64::from_bits(*x) as f32).to_bits() as u64), _ => return Err(End::Error("fptrunc".into())) },
        })
    }
    fn select(ty: &Ty, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            C(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            S(e) => match (a, b) {
                (A(x), A(y)) => Ok(A(Arc::new((0..x.len()).map(|i| Self::select(ty.elem(i), c, &x[i], &y[i])).collect::<R<Vec<_>>>()?))),
                _ => { let w = ty.bits(); Ok(norm(ite(e, &to_e(a, w), &to_e(b, w)))) }
            },
            A(_) => Err(End::Error("select".into())),
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.b;
        let blk = &fr.f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let ty = p.ty.as_ref().unwrap();
                let o = p.inc.iter().find(|(b, _)| *b == from).ok_or(End::Error("phi without the predecessor".into()))?;
                vals.push(match &o.1 { O::R(r) => fr.regs[*r as usize].clone(), O::C(c) => cval(c, ty) });
            }
            for (p, v) in blk.phis.iter().zip(vals) { fr.regs[p.dst as usize] = v; }
        }
        fr.b = to;
        fr.ip = 0;
        Ok(())
    }
    /// Runs until the path ends.
    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
            if st.steps & 0xfffff == 0 && (self.sh.stop.load(Relaxed) || std::time::Instant::now() > self.sh.deadline) {
                return End::Limit("time limit".into());
            }
        }
    }
    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        if st.steps > self.sh.cfg.max_steps {
            return Err(End::Violation("nontermination".into(), format!("more than {} instructions on one path", self.sh.cfg.max_steps)));
        }
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f;
        let ins: &'static Inst = &f.blocks[fr.b as usize].ins[fr.ip as usize];
        self.cover[ins.gid as usize >> 6] |= 1 << (ins.gid & 63);
        if let Some(p) = &mut self.profile { *p.entry(f as *const Func as usize).or_insert(0) += 1; }
        let dst = ins.dst;
        let v = match &ins.i {
            I::Bin(op, ty, a, b) => {
                let (a, b) = (st.o(a, ty), st.o(b, ty));
                if let (C(_), C(_)) = (&a, &b) { Self::bin(*op, ty, &a, &b)? } else { Self::map2(ty, &a, &b, &mut |t, x, y| Self::bin(*op, t, x, y))? }
            }
            I::ICmp(p, ty, a, b) => {
                let (a, b) = (st.o(a, ty), st.o(b, ty));
                Self::map2(ty, &a, &b, &mut |t, x, y| Ok(Self::icmp(*p, t.bits(), x, y)))?
            }
            I::FCmp(p, ty, a, b) => {
                let (a, b) = (st.o(a, ty), st.o(b, ty));
                Self::map2(ty, &a, &b, &mut |t, x, y| Self::fcmp(p, t, x, y))?
            }
            I::FNeg(ty, a) => {
                let a = st.o(a, ty);
                Self::map1(ty, &a, &mut |t, x| Ok(match x {
                    C(v) => C(if *t == Ty::F32 { v ^ (1 << 31) } else { v ^ (1 << 63) }),
                    _ => norm(fun(FUn::Neg, &to_e(x, 64))),
                }))?
            }
            I::Cast(k, f, t, a) => {
                let a = st.o(a, f);
                match &a {
                    A(x) if t.is_agg() && t.count() == x.len() => A(Arc::new(x.iter().map(|v| Self::cast(k, f.elem(0), t.elem(0), v)).collect::<R<Vec<_>>>()?)),
                    A(_) => Self::vec_bitcast(f, t, &a)?,
                    _ if t.is_agg() => Self::vec_bitcast(f, t, &a)?,
                    _ => Self::cast(k, f, t, &a)?,
                }
            }
            I::Gep(pt, base, konst, idx) => {
                let mut v = st.o(base, pt);
                if idx.is_empty() {
                    match &v { C(x) => C(x.wrapping_add(*konst)), _ => Self::map1(pt, &v, &mut |_, x| Self::bin(B::Add, &Ty::Int(64), x, &C(*konst)))? }
                } else {
                    let n = idx.iter().find(|(t, _, _)| t.is_agg()).map(|(t, _, _)| t.count());
                    if let Some(n) = n { if !matches!(v, A(_)) { v = A(Arc::new(vec![v; n])); } }
                    let mut acc = Self::map1(pt, &v, &mut |_, x| Self::bin(B::Add, &Ty::Int(64), x, &C(*konst)))?;
                    for (it, o, stride) in idx {
                        let i = st.o(o, it);
                        let i = if let A(_) = acc { if matches!(i, A(_)) { i } else { A(Arc::new(vec![i; n.unwrap_or(match &acc { A(x) => x.len(), _ => 1 })])) } } else { i };
                        let one = |t: &Ty, a: &Val, i: &Val| -> R<Val> {
                            let t = if t.is_agg() { t.elem(0) } else { t };
                            let x = Self::cast(if t.bits() < 64 { &ir::Cast::SExt } else { &ir::Cast::Trunc }, t, &Ty::Int(64), i)?;
                            let x = Self::bin(B::Mul, &Ty::Int(64), &x, &C(*stride))?;
                            Self::bin(B::Add, &Ty::Int(64), a, &x)
                        };
                        acc = match (&acc, &i) {
                            (A(a), A(b)) => A(Arc::new(a.iter().zip(b.iter()).map(|(a, b)| one(it, a, b)).collect::<R<Vec<_>>>()?)),
                            _ => one(it, &acc, &i)?,
                        };
                    }
                    acc
                }
            }
            I::Load(ty, p) => {
                let p = st.o(p, &Ty::Ptr);
                let a = self.conc(st, &p)?;
                self.load(st, a, ty)?
            }
            I::Store(ty, v, p) => {
                let (v, p) = (st.o(v, ty), st.o(p, &Ty::Ptr));
                let a = self.conc(st, &p)?;
                self.store(st, a, ty, &v)?;
                C(0)
            }
            I::Alloca(sz, n, nb) => {
                let n = st.o(n, &Ty::Int(*nb));
                let n = self.conc(st, &n)?;
                let a = Self::me(st.mem.alloc(sz * n))?;
                st.frames.last_mut().unwrap().allocas.push(a);
                C(a)
            }
            I::Select(ty, vc, c, a, b) => {
                let (a, b) = (st.o(a, ty), st.o(b, ty));
                if *vc {
                    let n = ty.count();
                    let c = st.o(c, &Ty::Vec(n as u64, Box::new(Ty::Int(1))));
                    match (&c, &a, &b) {
                        (A(c), A(a), A(b)) => A(Arc::new((0..n).map(|i| Self::select(ty.elem(0), &c[i], &a[i], &b[i])).collect::<R<Vec<_>>>()?)),
                        _ => return Err(End::Error("vector select".into())),
                    }
                } else {
                    let c = st.o(c, &Ty::Int(1));
                    Self::select(ty, &c, &a, &b)?
                }
            }
            I::ExtractV(a, ix) => {
                let mut v = match a { O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), O::C(_) => return Err(End::Error("extractvalue of a constant".into())) };
                for i in ix { v = match &v { A(x) => x[*i as usize].clone(), _ => return Err(End::Error("extractvalue".into())) }; }
                v
            }
            I::InsertV(ty, a, v, ix) => {
                let mut a = st.o(a, ty);
                let mut t = ty;
                for i in ix { t = t.elem(*i as usize); }
                let v = st.o(v, t);
                fn ins(a: &mut Val, ix: &[u32], v: Val) -> bool {
                    if ix.is_empty() { *a = v; return true; }
                    match a { A(x) => ins(&mut Arc::make_mut(x)[ix[0] as usize], &ix[1..], v), _ => false }
                }
                if !ins(&mut a, ix, v) { return Err(End::Error("insertvalue".into())); }
                a
            }
            I::ExtractE(a, i) => {
                let i = st.o(i, &Ty::Int(64));
                let i = self.conc(st, &i)? as usize;
                match a { O::R(r) => match &st.frames.last().unwrap().regs[*r as usize] { A(x) => x[i].clone(), _ => return Err(End::Error("extractelement".into())) }, _ => return Err(End::Error("extractelement of a constant".into())) }
            }
            I::InsertE(a, v, i) => {
                let i = st.o(i, &Ty::Int(64));
                let i = self.conc(st, &i)? as usize;
                // element type is irrelevant for registers; constants are at most 64 bits wide
                let v = st.o(v, &Ty::Int(64));
                let mut a = match a { O::R(_) => st.o(a, &Ty::Void), O::C(ir::C::Agg(x)) => A(Arc::new(x.iter().map(|c| cval(c, &Ty::Int(64))).collect())), _ => return Err(End::Error("insertelement".into())) };
                match &mut a { A(x) => Arc::make_mut(x)[i] = v, _ => return Err(End::Error("insertelement".into())) }
                a
            }
            I::Shuffle(a, b, ix, n) => {
                let g = |o: &O| match o { O::R(_) => st.o(o, &Ty::Void), O::C(ir::C::Agg(x)) => A(Arc::new(x.iter().map(|c| cval(c, &Ty::Int(64))).collect())), _ => C(0) };
                match (g(a), g(b)) {
                    (A(x), A(y)) => A(Arc::new(ix.iter().map(|i| { let i = (*i).max(0) as usize; if i < *n as usize { x[i].clone() } else { y[i - *n as usize].clone() } }).collect())),
                    _ => return Err(End::Error("shufflevector".into())),
                }
            }
            I::Rmw(op, ty, p, v) => {
                let (p, v) = (st.o(p, &Ty::Ptr), st.o(v, ty));
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => Self::bin(B::Add, ty, &old, &v)?,
                    "sub" => Self::bin(B::Sub, ty, &old, &v)?,
                    "and" => Self::bin(B::And, ty, &old, &v)?,
                    "or" => Self::bin(B::Or, ty, &old, &v)?,
                    "xor" => Self::bin(B::Xor, ty, &old, &v)?,
                    "umax" => { let c = Self::icmp(Pred::Ugt, w, &old, &v); Self::select(ty, &c, &old, &v)? }
                    "umin" => { let c = Self::icmp(Pred::Ult, w, &old, &v); Self::select(ty, &c, &old, &v)? }
                    _ => return Err(End::Error(format!("atomicrmw {}", op))),
                };
                self.store(st, a, ty, &new)?;
                old
            }
            I::CmpXchg(ty, p, c, n) => {
                let (p, c, n) = (st.o(p, &Ty::Ptr), st.o(c, ty), st.o(n, ty));
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let eq = Self::icmp(Pred::Eq, ty.bits(), &old, &c);
                if self.conc(st, &eq)? == 1 { self.store(st, a, ty, &n)?; }
                A(Arc::new(vec![old, eq]))
            }
            I::Fence | I::Phi => C(0),
            I::Freeze(a) => match a { O::R(_) => st.o(a, &Ty::Void), O::C(ir::C::I(v)) => C(*v as u64), _ => return Err(End::Error("freeze".into())) },
            I::Call(callee, args, rt, normal) => return self.call(st, ins, callee, args, rt, *normal),
            I::Ret(v) => {
                let v = match v { Some((t, o)) => st.o(o, t), None => C(0) };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas { Self::me(st.mem.kill(*a))?; }
                if st.frames.is_empty() { return Err(End::Done); }
                st.set(fr.dst, v);
                if let Some(n) = fr.normal { return self.jump(st, n); }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            I::Br(t) => return self.jump(st, *t),
            I::CondBr(c, t, e) => {
                let c = st.o(c, &Ty::Int(1));
                let v = match &c { C(x) => *x & 1, _ => self.conc(st, &c)? };
                return self.jump(st, if v == 1 { *t } else { *e });
            }
            I::Switch(ty, x, d, cases) => {
                let x = st.o(x, ty);
                let w = ty.bits();
                let find = |v: u128| cases.iter().find(|(c, _)| *c == v).map_or(*d, |(_, t)| *t);
                let to = match &x {
                    C(v) => find(*v as u128),
                    S(e) => {
                        let e = e.clone();
                        if let Some(v) = st.known.get(&e.id) { find(*v as u128) } else {
                            let mut memo = HashMap::new();
                            let v = eval(&e, &st.model, &mut memo);
                            let to = find(v);
                            let mut c = cst(0, 1);
                            if to == *d {
                                for (k, t) in cases { if *t != *d { c = expr::bin(expr::Op::Or, &c, &expr::bin(expr::Op::Eq, &e, &cst(*k, w))); } }
                                c = not(&c);
                            } else {
                                for (k, t) in cases { if *t == to { c = expr::bin(expr::Op::Or, &c, &expr::bin(expr::Op::Eq, &e, &cst(*k, w))); } }
                            }
                            if self.conc_e(st, &c)? != 1 { return Err(End::Error("switch".into())); }
                            to
                        }
                    }
                    _ => return Err(End::Error("switch".into())),
                };
                return self.jump(st, to);
            }
            I::Unreachable => return Err(End::Violation("unreachable".into(), "unreachable code executed".into())),
            I::Resume | I::LandingPad => return Err(End::Error("unwinding".into())),
        };
        let fr = st.frames.last_mut().unwrap();
        if dst != u32::MAX { fr.regs[dst as usize] = v; }
        fr.ip += 1;
        Ok(())
    }
    fn vec_bitcast(f: &Ty, t: &Ty, a: &Val) -> R<Val> {
        let parts: Vec<E> = match a { A(x) => x.iter().map(|v| to_e(v, f.elem(0).bits())).collect(), v => vec![to_e(v, f.bits())] };
        let mut e = parts.last().unwrap().clone();
        let total: u32 = parts.iter().map(|p| p.w as u32).sum();
        if total > 128 { return Err(End::Error("wide vector bitcast".into())); }
        for p in parts.iter().rev().skip(1) { e = concat(&e, p); }
        Ok(if t.is_agg() {
            let w = t.elem(0).bits();
            A(Arc::new((0..t.count() as u32).map(|i| norm(extract(&e, i * w, w))).collect()))
        } else { norm(e) })
    }
    fn call(&mut self, st: &mut State, ins: &'static Inst, callee: &'static Callee, args: &'static [(Ty, O)], rt: &'static Ty, normal: Option<u32>) -> R<()> {
        let mut kind = None;
        let mut fun = None;
        match callee {
            Callee::Fn(f) => fun = Some(*f),
            Callee::Ext(e) => kind = Some((self.sh.ext[*e as usize], *e)),
            Callee::Asm => { if *rt != Ty::Void { return Err(End::Error("inline assembly with a result".into())); } kind = Some((X::Nop, 0)); }
            Callee::Val(o) => {
                let p = st.o(o, &Ty::Ptr);
                let a = self.conc(st, &p)?;
                let id = a >> 32;
                if id >= EXT_BASE && ((id - EXT_BASE) as usize) < self.sh.ext.len() { kind = Some((self.sh.ext[(id - EXT_BASE) as usize], (id - EXT_BASE) as u32)); }
                else if id >= FN_BASE && ((id - FN_BASE) as usize) < self.m.funcs.len() { fun = Some((id - FN_BASE) as u32); }
                else { return Err(End::Violation("memory".into(), format!("call of an invalid pointer {:#x}", a))); }
            }
        }
        let vals: Vec<Val> = args.iter().map(|(t, o)| st.o(o, t)).collect();
        if let Some(f) = fun {
            if let Some(x) = self.sh.hook[f as usize] {
                if x == X::Panic { return Err(End::Violation("panic".into(), demangle(&self.m.funcs[f as usize].name))); }
                kind = Some((x, u32::MAX));
            } else {
                let func: &'static Func = &self.m.funcs[f as usize];
                if func.params.len() != vals.len() { return Err(End::Error(format!("arguments of {}", func.name))); }
                if st.frames.len() > 20000 { return Err(End::Violation("nontermination".into(), "call stack deeper than 20000 frames".into())); }
                st.frames.push(State::new_frame(func, vals, ins.dst, normal));
                return Ok(());
            }
        }
        let (x, id) = kind.unwrap();
        let v = self.ext(st, x, id, args, &vals, rt)?;
        st.set(ins.dst, v);
        if let Some(n) = normal { return self.jump(st, n); }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn bytes_eq(&mut self, st: &State, a: u64, b: u64, n: u64) -> R<E> {
        let mut c = cst(1, 1);
        let ce = |x: &Byte| match x { Byte::C(v) => cst(*v as u128, 8), Byte::S(e, k) => extract(e, 8 * *k as u32, 8) };
        // concrete differences first
        for pass in 0..2 {
            for k in 0..n {
                let (x, y) = (Self::me(st.mem.byte(a + k))?, Self::me(st.mem.byte(b + k))?);
                match (&x, &y) {
                    (Byte::C(p), Byte::C(q)) => { if p != q { return Ok(cst(0, 1)); } }
                    _ if pass == 1 => c = expr::bin(expr::Op::And, &c, &expr::bin(expr::Op::Eq, &ce(&x), &ce(&y))),
                    _ => {}
                }
            }
        }
        Ok(c)
    }
    fn ext(&mut self, st: &mut State, x: X, id: u32, args: &'static [(Ty, O)], v: &[Val], rt: &'static Ty) -> R<Val> {
        use expr::Op as XO;
        let f64of = |v: &Val| -> R<f64> { match v { C(x) => Ok(f64::from_bits(*x)), _ => Err(End::Error("symbolic floating point function".into())) } };
        Ok(match x {
            X::Nop => C(0),
            X::Zero => C(0),
            X::Unsupported => return Err(End::Error(format!("call of {}", if id == u32::MAX { "?" } else { &self.m.ext[id as usize] }))),
            X::Panic | X::Trap => return Err(End::Violation("panic".into(), "abort".into())),
            X::Syscall => {
                // locks: there is a single thread, no one will release a lock it waits for
                let (n, op) = (self.conc(st, &v[0])?, if v.len() > 2 { self.conc(st, &v[2])? & 127 } else { 0 });
                match (n, op) {
                    (202, 0 | 9) => return Err(End::Violation("nontermination".into(), "a lock is never released".into())),
                    (202, 1) => C(0),
                    _ => return Err(End::Error(format!("system call {}", n))),
                }
            }
            X::SymVar => {
                let w = self.conc(st, &v[0])? as u32;
                if w == 0 || w > 64 { return Err(End::Error("sym_var".into())); }
                let e = st.fresh(VK::Input, w);
                norm(zext(&e, 64))
            }
            X::SymRng => {
                st.draws += 1;
                // past the limit, draws are pseudo-random
                if st.draw_limit > 0 && st.draws >= st.draw_limit {
                    let mut z = st.draws.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                    C(z ^ (z >> 31))
                } else { norm(st.fresh(VK::Rng, 64)) }
            }
            X::SymOrderMode => {
                let m = self.conc(st, &v[0])? as u64;
                if m >> 8 > 0 { st.draw_limit = m >> 8; }
                st.order_mode = match self.sh.cfg.order { Some(m) => m, None => m & 255 };
                C(0)
            }
            X::SymOrder => {
                let n = self.conc(st, &v[0])?;
                let code = |p: u64| -> u64 {
                    if n <= 4 {
                        let (mut c, mut m, mut left) = (0, 1, n);
                        while left > 0 {
                            let k = match p { 0 => 0, 1 => left - 1, 2 => if left > 1 { 1 } else { 0 }, _ => if left == n { if left > 1 { left - 2 } else { 0 } } else if left > 1 { (left - 1).min(left - 1) } else { 0 } };
                            c += k * m;
                            m *= left;
                            left -= 1;
                        }
                        c
                    } else { match p { 0 => 0, 1 => n, 2 => 1, _ => n + 1 } }
                };
                match st.order_mode {
                    0 => C(0),
                    1 => C(code(1)),
                    2 => {
                        if st.order_pol.is_none() {
                            let e = st.fresh(VK::Order, 2);
                            st.order_pol = Some(S(e));
                        }
                        let p = st.order_pol.clone().unwrap();
                        let p = self.conc(st, &p)?;
                        C(code(p))
                    }
                    _ => {
                        let total: u64 = if n <= 4 { (1..=n).product() } else { 2 * n };
                        let e = match st.known.get(&u128::MAX) {
                            // the choice made before this instruction was run again
                            Some(k) => var(*k as u32, 16),
                            None => {
                                let e = st.fresh(VK::Order, 16);
                                let c = expr::bin(XO::Ult, &e, &cst(total as u128, 16));
                                st.pc.push(c);
                                st.known.insert(u128::MAX, st.vars.len() as u64 - 1);
                                e
                            }
                        };
                        let r = self.conc_e(st, &e)?;
                        st.known.remove(&u128::MAX);
                        C(r)
                    }
                }
            }
            X::SymAssume => {
                let c = self.truth(&v[0]);
                if let Some(k) = c.c() { if k == 0 { return Err(End::Assumed); } return Ok(C(0)); }
                match self.feasible(st, &c)? {
                    None => return Err(End::Assumed),
                    Some(m) => { st.model = m; Self::learn(st, &c, 1); st.pc.push(c); }
                }
                C(0)
            }
            X::SymCheck => {
                let c = self.truth(&v[0]);
                self.sh.tot.checks.fetch_add(1, Relaxed);
                let bad = not(&c);
                if let Some(k) = c.c() {
                    if k == 0 { let id = self.conc(st, &v[1])?; return Err(End::Violation(format!("check {}", id), String::new())); }
                    return Ok(C(0));
                }
                self.sh.tot.checks_sym.fetch_add(1, Relaxed);
                if let Some(m) = self.feasible(st, &bad)? {
                    st.model = m;
                    let id = self.conc(st, &v[1])?;
                    return Err(End::Violation(format!("check {}", id), String::new()));
                }
                Self::learn(st, &c, 1);
                C(0)
            }
            X::SymObserve => { st.obs.push(v[0].clone()); C(0) }
            X::SymMark => { let k = self.conc(st, &v[0])?; st.marks |= 1 << (k & 63); C(0) }
            X::SymConc => C(self.conc(st, &v[0])?),
            X::SymPeek => match &v[0] { C(x) => C(*x), S(e) => { let mut memo = HashMap::new(); C(eval(e, &st.model, &mut memo) as u64) } _ => return Err(End::Error("sym_peek".into())) },
            // a hash of constant bytes, never zero; zero if one of them is not a constant
            X::SymHash => {
                let (a, n, seed) = (self.conc(st, &v[0])?, self.conc(st, &v[1])?, self.conc(st, &v[2])?);
                let mut h = seed ^ 0xcbf2_9ce4_8422_2325 ^ n.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                for k in 0..n {
                    match Self::me(st.mem.byte(a + k))? {
                        Byte::C(x) => h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3),
                        _ => return Ok(C(0)),
                    }
                }
                h ^= h >> 29;
                C(h | 1)
            }
            X::Malloc => { let n = self.conc(st, &v[0])?; C(st.mem.alloc(n).map_err(|e| End::Violation("memory".into(), e))?) }
            X::Calloc => { let n = self.conc(st, &v[0])?; let k = self.conc(st, &v[1])?; C(st.mem.alloc(n.saturating_mul(k)).map_err(|e| End::Violation("memory".into(), e))?) }
            X::Realloc => {
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                if n > 1 << 26 { return Err(End::Violation("memory".into(), format!("allocation of {} bytes", n))); }
                if p == 0 { C(Self::me(st.mem.alloc(n))?) } else { Self::me(st.mem.resize(p, n))?; C(p) }
            }
            X::Free => { let p = self.conc(st, &v[0])?; if p != 0 { Self::me(st.mem.kill(p))?; } C(0) }
            X::PosixMemalign => {
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[2])?;
                let a = Self::me(st.mem.alloc(n))?;
                Self::me(st.mem.store_c(p, 8, &a.to_le_bytes()))?;
                C(0)
            }
            X::Memcpy | X::Memmove => {
                let (d, s, n) = (self.conc(st, &v[0])?, self.conc(st, &v[1])?, self.conc(st, &v[2])?);
                Self::me(st.mem.copy(d, s, n))?;
                C(d)
            }
            X::Memset => {
                let (d, n) = (self.conc(st, &v[0])?, self.conc(st, &v[2])?);
                if n > 0 {
                    match &v[1] {
                        C(b) => { let buf = vec![*b as u8; n as usize]; Self::me(st.mem.store_c(d, n, &buf))? }
                        e => { let b = extract(&to_e(e, args[1].0.bits()), 0, 8); for k in 0..n { Self::me(st.mem.store_e(d + k, 1, &b))?; } }
                    }
                }
                C(d)
            }
            X::Bcmp => {
                let (a, b, n) = (self.conc(st, &v[0])?, self.conc(st, &v[1])?, self.conc(st, &v[2])?);
                if n == 0 { return Ok(C(0)); }
                let e = self.bytes_eq(st, a, b, n)?;
                norm(zext(&not(&e), 32))
            }
            X::Memcmp => {
                let (a, b, n) = (self.conc(st, &v[0])?, self.conc(st, &v[1])?, self.conc(st, &v[2])?);
                let mut r = cst(0, 32);
                // the common prefix of constants
                let mut from = 0;
                while from < n {
                    match (Self::me(st.mem.byte(a + from))?, Self::me(st.mem.byte(b + from))?) {
                        (Byte::C(x), Byte::C(y)) if x == y => from += 1,
                        (Byte::C(x), Byte::C(y)) => return Ok(C(if x < y { 0xffff_ffff } else { 1 })),
                        _ => break,
                    }
                }
                for k in (from..n).rev() {
                    let ce = |x: Byte| match x { Byte::C(v) => cst(v as u128, 8), Byte::S(e, k) => extract(&e, 8 * k as u32, 8) };
                    let (x, y) = (ce(Self::me(st.mem.byte(a + k))?), ce(Self::me(st.mem.byte(b + k))?));
                    let lt = ite(&expr::bin(XO::Ult, &x, &y), &cst(0xffff_ffff, 32), &cst(1, 32));
                    r = ite(&expr::bin(XO::Eq, &x, &y), &r, &lt);
                }
                norm(r)
            }
            X::Strlen => {
                let a = self.conc(st, &v[0])?;
                let mut n = 0;
                loop { match Self::me(st.mem.byte(a + n))? { Byte::C(0) => break, Byte::C(_) => n += 1, _ => return Err(End::Error("strlen".into())) } }
                C(n)
            }
            X::UMax | X::UMin | X::SMax | X::SMin => {
                let p = match x { X::UMax => Pred::Ugt, X::UMin => Pred::Ult, X::SMax => Pred::Sgt, _ => Pred::Slt };
                Self::map2(rt, &v[0], &v[1], &mut |t, a, b| { let c = Self::icmp(p, t.bits(), a, b); Self::select(t, &c, a, b) })?
            }
            X::Fshl | X::Fshr => {
                let w = rt.bits();
                if rt.is_agg() { return Err(End::Error("vector fsh".into())); }
                let s = self.conc(st, &v[2])? % w as u64;
                let (h, l) = (to_e(&v[0], w), to_e(&v[1], w));
                if x == X::Fshl {
                    if s == 0 { norm(h) } else { norm(expr::bin(XO::Or, &expr::bin(XO::Shl, &h, &cst(s as u128, w)), &expr::bin(XO::LShr, &l, &cst(w as u128 - s as u128, w)))) }
                } else if s == 0 { norm(l) } else { norm(expr::bin(XO::Or, &expr::bin(XO::Shl, &h, &cst(w as u128 - s as u128, w)), &expr::bin(XO::LShr, &l, &cst(s as u128, w)))) }
            }
            X::Ctpop | X::Cttz | X::Ctlz => Self::map1(rt, &v[0], &mut |t, a| {
                let w = t.bits();
                match a {
                    C(y) => Ok(C(match x { X::Ctpop => y.count_ones(), X::Cttz => y.trailing_zeros().min(w), _ => (y << (64 - w)).leading_zeros().min(w) } as u64)),
                    _ => {
                        let e = to_e(a, w);
                        let bit = |i: u32| extract(&e, i, 1);
                        Ok(norm(match x {
                            X::Ctpop => (0..w).fold(cst(0, w), |s, i| expr::bin(XO::Add, &s, &zext(&bit(i), w))),
                            X::Cttz => (0..w).rev().fold(cst(w as u128, w), |s, i| ite(&bit(i), &cst(i as u128, w), &s)),
                            _ => (0..w).fold(cst(w as u128, w), |s, i| ite(&bit(i), &cst((w - 1 - i) as u128, w), &s)),
                        }))
                    }
                }
            })?,
            X::Bswap | X::Bitrev => {
                let w = rt.bits();
                let e = to_e(&v[0], w);
                let step = if x == X::Bswap { 8 } else { 1 };
                let mut r = extract(&e, 0, step);
                let mut i = step;
                while i < w { r = concat(&r, &extract(&e, i, step)); i += step; }
                norm(r)
            }
            X::Abs => Self::map1(rt, &v[0], &mut |t, a| { let neg = Self::bin(B::Sub, t, &C(0), a)?; let c = Self::icmp(Pred::Slt, t.bits(), a, &C(0)); Self::select(t, &c, &neg, a) })?,
            X::USubSat => Self::map2(rt, &v[0], &v[1], &mut |t, a, b| { let d = Self::bin(B::Sub, t, a, b)?; let c = Self::icmp(Pred::Ult, t.bits(), a, b); Self::select(t, &c, &mkv(0, t.bits()), &d) })?,
            X::UAddSat => Self::map2(rt, &v[0], &v[1], &mut |t, a, b| { let d = Self::bin(B::Add, t, a, b)?; let c = Self::icmp(Pred::Ult, t.bits(), &d, a); Self::select(t, &c, &mkv(u128::MAX, t.bits()), &d) })?,
            X::SSubSat | X::SAddSat => return Err(End::Error("signed saturation".into())),
            X::UAddO | X::USubO | X::UMulO | X::SAddO | X::SSubO | X::SMulO => {
                let w = match rt { Ty::Struct(f, _) => f[0].bits(), _ => return Err(End::Error("overflow op".into())) };
                let signed = matches!(x, X::SAddO | X::SSubO | X::SMulO);
                let op = match x { X::UAddO | X::SAddO => XO::Add, X::USubO | X::SSubO => XO::Sub, _ => XO::Mul };
                if let (C(a), C(b)) = (&v[0], &v[1]) {
                    let (a, b) = if signed { (sext128(*a as u128, w), sext128(*b as u128, w)) } else { (*a as i128, *b as i128) };
                    let (r, big) = match op { XO::Add => (a + b, false), XO::Sub => (a - b, false), _ => a.overflowing_mul(b) };
                    let rr = r as u128 & mask(w);
                    let back = if signed { sext128(rr, w) } else { rr as i128 };
                    return Ok(A(Arc::new(vec![C(rr as u64), C((big || back != r) as u64)])));
                }
                let ww = if op == XO::Mul { 2 * w } else { w + 1 };
                if ww > 128 { return Err(End::Error("wide overflow op".into())); }
                let (a, b) = (to_e(&v[0], w), to_e(&v[1], w));
                let ext = |e: &E| if signed { sext(e, ww) } else { zext(e, ww) };
                let full = expr::bin(op, &ext(&a), &ext(&b));
                let r = expr::bin(op, &a, &b);
                let o = not(&expr::bin(XO::Eq, &full, &ext(&r)));
                A(Arc::new(vec![norm(r), norm(o)]))
            }
            X::UCmp | X::SCmp => {
                let w = args[0].0.bits();
                let (lt, gt) = if x == X::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let (l, g) = (Self::icmp(lt, w, &v[0], &v[1]), Self::icmp(gt, w, &v[0], &v[1]));
                let n = rt.bits();
                let t = Self::select(rt, &g, &C(1), &C(0))?;
                Self::select(rt, &l, &mkv(u128::MAX, n), &t)?
            }
            X::RedAdd | X::RedOr | X::RedAnd | X::RedXor | X::RedUMax | X::RedUMin => match &v[0] {
                A(xs) => {
                    let mut acc = xs[0].clone();
                    for y in xs.iter().skip(1) {
                        acc = match x {
                            X::RedAdd => Self::bin(B::Add, rt, &acc, y)?,
                            X::RedOr => Self::bin(B::Or, rt, &acc, y)?,
                            X::RedAnd => Self::bin(B::And, rt, &acc, y)?,
                            X::RedXor => Self::bin(B::Xor, rt, &acc, y)?,
                            X::RedUMax => { let c = Self::icmp(Pred::Ugt, rt.bits(), &acc, y); Self::select(rt, &c, &acc, y)? }
                            _ => { let c = Self::icmp(Pred::Ult, rt.bits(), &acc, y); Self::select(rt, &c, &acc, y)? }
                        };
                    }
                    acc
                }
                _ => return Err(End::Error("reduce".into())),
            },
            X::Ident => v[0].clone(),
            X::LoadRel => {
                let (p, o) = (self.conc(st, &v[0])?, self.conc(st, &v[1])?);
                let a = p.wrapping_add(o);
                match self.m.rel.get(&((a >> 32) as u32, a as u32 as u64)) { Some(t) => C(*t), None => return Err(End::Error("load.relative".into())) }
            }
            X::FToU | X::FToS => {
                let w = rt.bits();
                match &v[0] {
                    C(b) => {
                        let f = if args[0].0 == Ty::F32 { f32::from_bits(*b as u32) as f64 } else { f64::from_bits(*b) };
                        if x == X::FToU { C((f as u64).min(mask(w) as u64)) } else if w == 64 { C(f as i64 as u64) } else { let m = 1i64 << (w - 1); C(((f as i64).clamp(-m, m - 1) as u64) & mask(w) as u64) }
                    }
                    e if x == X::FToU && w < 64 && args[0].0 == Ty::F64 => {
                        let r = expr::fun(FUn::ToU64Sat, &to_e(e, 64));
                        let m = expr::cst(mask(w), 64);
                        norm(expr::extract(&expr::ite(&expr::bin(Op::Ult, &m, &r), &m, &r), 0, w))
                    }
                    e => { if w != 64 || args[0].0 != Ty::F64 { return Err(End::Error("float to int".into())); } norm(expr::fun(if x == X::FToU { FUn::ToU64Sat } else { FUn::ToI64Sat }, &to_e(e, 64))) }
                }
            }
            X::Fma => {
                if *rt != Ty::F64 { return Err(End::Error("fma".into())); }
                norm(expr::fma(&to_e(&v[0], 64), &to_e(&v[1], 64), &to_e(&v[2], 64)))
            }
            X::Log2 => C(f64of(&v[0])?.log2().to_bits()),
            X::LogE => C(f64of(&v[0])?.ln().to_bits()),
            X::Log10 => C(f64of(&v[0])?.log10().to_bits()),
            X::Exp2 => C(f64of(&v[0])?.exp2().to_bits()),
            X::Pow => C(f64of(&v[0])?.powf(f64of(&v[1])?).to_bits()),
            X::Sqrt => C(f64of(&v[0])?.sqrt().to_bits()),
            X::Floor | X::Ceil | X::TruncF | X::Round | X::RoundEven => {
                let f = match x { X::Floor => FUn::Floor, X::Ceil => FUn::Ceil, X::TruncF => FUn::Trunc, X::Round => FUn::Round, _ => FUn::RoundEven };
                if *rt != Ty::F64 { return Err(End::Error("rounding of a float which is not a double".into())); }
                norm(expr::fun(f, &to_e(&v[0], 64)))
            }
            X::Fabs => Self::bin(B::And, &Ty::Int(64), &v[0], &C(i64::MAX as u64))?,
            X::FMin | X::FMax => {
                if *rt != Ty::F64 { return Err(End::Error("minimum of floats which are not doubles".into())); }
                let (a, b) = (to_e(&v[0], 64), to_e(&v[1], 64));
                let isnum = |e: &E| expr::bin(Op::FEq, e, e);
                let first = if x == X::FMin { expr::bin(Op::FLt, &a, &b) } else { expr::bin(Op::FLt, &b, &a) };
                norm(expr::ite(&isnum(&b), &expr::ite(&isnum(&a), &expr::ite(&first, &a, &b), &b), &a))
            }
            X::FCopysign => {
                if *rt != Ty::F64 { return Err(End::Error("sign of a float which is not a double".into())); }
                let (a, b) = (to_e(&v[0], 64), to_e(&v[1], 64));
                let m = expr::cst(i64::MAX as u128, 64);
                let s = expr::cst(1 << 63, 64);
                norm(expr::bin(Op::Or, &expr::bin(Op::And, &a, &m), &expr::bin(Op::And, &b, &s)))
            }
        })
    }
    fn truth(&self, v: &Val) -> E {
        match v { C(x) => cst((*x != 0) as u128, 1), S(e) => not(&bin(expr::Op::Eq, e, &cst(0, e.w as u32))), A(_) => cst(0, 1) }
    }
    pub fn work(&mut self) {
        let sh = self.sh.clone();
        loop {
            let mut st = {
                let mut q = sh.q.lock().unwrap();
                loop {
                    if sh.stop.load(Relaxed) { return self.finish(); }
                    if let Some(s) = q.pop() { break s; }
                    sh.idle.fetch_add(1, SeqCst);
                    if sh.idle.load(SeqCst) == sh.nthreads { sh.stop.store(true, SeqCst); sh.cv.notify_all(); return self.finish(); }
                    q = sh.cv.wait(q).unwrap();
                    sh.idle.fetch_sub(1, SeqCst);
                }
            };
            let mut local: Vec<Box<State>> = vec![];
            loop {
                let before = st.steps;
                let end = self.run(&mut st);
                let forks = std::mem::take(&mut self.out);
                let _ = before;
                sh.tot.maxdepth.fetch_max(st.depth as u64, Relaxed);
                sh.tot.steps.fetch_add(st.steps - before, Relaxed);
                self.end(&st, end);
                local.extend(forks);
                // give the older states away when someone waits
                if local.len() > 1 && sh.idle.load(Relaxed) > 0 {
                    let n = local.len() / 2;
                    let give: Vec<_> = local.drain(..n).collect();
                    sh.q.lock().unwrap().extend(give);
                    sh.cv.notify_all();
                }
                if sh.stop.load(Relaxed) { return self.finish(); }
                if sh.tot.paths.load(Relaxed) + sh.tot.assumed.load(Relaxed) > sh.cfg.max_states { self.err("path limit".into()); sh.stop.store(true, SeqCst); sh.cv.notify_all(); return self.finish(); }
                match local.pop() { Some(s) => st = s, None => break }
            }
        }
    }
    fn finish(&mut self) {
        if let Some(p) = &self.profile {
            let mut v: Vec<_> = p.iter().map(|(k, n)| (*n, *k)).collect();
            v.sort();
            for (n, k) in v.iter().rev().take(15) { eprintln!("profile {} {}", n, unsafe { &(*(*k as *const Func)).name }); }
        }
        let mut c = self.sh.cover.lock().unwrap();
        for (a, b) in c.iter_mut().zip(&self.cover) { *a |= *b; }
    }
    fn err(&self, e: String) { *self.sh.errs.lock().unwrap().entry(e).or_insert(0) += 1; }
    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut o = vec![];
        for fr in st.frames.iter().rev().take(40) {
            if let Some(i) = fr.f.blocks[fr.b as usize].ins.get(fr.ip as usize) {
                let l = locs(self.m, i.dbg);
                if l.is_empty() { o.push(demangle(&fr.f.name)); }
                for (f, file, line) in l { o.push(format!("{} ({}:{})", demangle(&f), file, line)); }
            }
        }
        o
    }
    fn end(&mut self, st: &State, end: End) {
        let sh = self.sh.clone();
        let sample = |sh: &Shared, kind: &str| {
            let inputs = st.inputs();
            let mut memo = HashMap::new();
            let obs = st.obs.iter().map(|v| match v { C(x) => *x, S(e) => eval(e, &st.model, &mut memo) as u64, _ => 0 }).collect();
            let mut parts: Vec<u128> = inputs.iter().map(|x| x.2 as u128).collect();
            parts.push(sh.cfg.seed as u128);
            let key = h128(&parts);
            let mut s = sh.samples.lock().unwrap();
            let full = s.len() >= sh.cfg.samples;
            if sh.cfg.samples > 0 && (!full || *s.keys().next_back().unwrap() > key) {
                s.insert(key, Sample { key, inputs, obs, end: kind.into() });
                if s.len() > sh.cfg.samples { s.pop_last(); }
            }
        };
        match end {
            End::Done => {
                sh.tot.paths.fetch_add(1, Relaxed);
                sh.marks.fetch_or(st.marks, Relaxed);
                sh.tot.observed.fetch_add(st.obs.len() as u64, Relaxed);
                sample(&sh, "done");
            }
            End::Assumed => { sh.tot.assumed.fetch_add(1, Relaxed); }
            End::Violation(k, d) => {
                sh.tot.paths.fetch_add(1, Relaxed);
                let stack = self.stack(st);
                let mut v = sh.viol.lock().unwrap();
                let site = stack.first().cloned().unwrap_or_default();
                let same = v.iter().filter(|o| o.kind == k && o.stack.first().cloned().unwrap_or_default() == site).count();
                if same < 6 { v.push(Viol { kind: k, detail: d, stack, inputs: st.inputs() }); }
                if v.len() >= sh.cfg.max_viol { sh.stop.store(true, SeqCst); sh.cv.notify_all(); }
            }
            End::Error(e) => {
                sh.tot.paths.fetch_add(1, Relaxed);
                let s = self.stack(st).into_iter().take(4).collect::<Vec<_>>().join(" < ");
                self.err(format!("{} at {}", e, s));
                if sh.errs.lock().unwrap().values().sum::<u64>() > 50 { sh.stop.store(true, SeqCst); sh.cv.notify_all(); }
            }
            End::Limit(e) => { self.err(e); sh.stop.store(true, SeqCst); sh.cv.notify_all(); }
        }
        let _ = &mut self.rng;
    }
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let p = s.find(&format!("{}: ", k))?;
    let r = &s[p + k.len() + 2..];
    Some(if let Some(t) = r.strip_prefix('"') { &t[..t.find('"')?] } else { r.split(|c| c == ',' || c == ')').next()? })
}
fn mref(s: Option<&str>) -> Option<u32> { s?.strip_prefix('!')?.parse().ok() }
/// Source positions of a debug location, from the innermost inlined function.
pub fn locs(m: &Module, dbg: u32) -> Vec<(String, String, u32)> {
    let mut o = vec![];
    let mut cur = Some(dbg);
    while let Some(d) = cur {
        let Some(s) = m.meta.get(&d) else { break };
        if !s.contains("DILocation(") { break; }
        let line = field(s, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut scope = mref(field(s, "scope"));
        let mut file = None;
        while let Some(k) = scope {
            let Some(t) = m.meta.get(&k) else { break };
            if file.is_none() { file = mref(field(t, "file")); }
            if t.contains("DISubprogram(") {
                let n = field(t, "linkageName").or(field(t, "name")).unwrap_or("?").to_string();
                let f = file.and_then(|f| m.meta.get(&f)).map(|f| {
                    let (n, d) = (field(f, "filename").unwrap_or("?"), field(f, "directory").unwrap_or(""));
                    if n.starts_with('/') || d.is_empty() { n.to_string() } else { format!("{}/{}", d, n) }
                }).unwrap_or("?".into());
                o.push((n, f, line));
                break;
            }
            scope = mref(field(t, "scope"));
        }
        cur = mref(field(s, "inlinedAt"));
    }
    o
}
/// Readable path of a v0-mangled name: the identifiers it contains.
/// Names are demangled by the driver.
pub fn demangle(n: &str) -> String { n.to_string() }
#[allow(dead_code)]
pub fn unused(_: HashSet<u8>) {}
