//! Z3 back end: incremental, per worker thread, with a shared result cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_simple_solver(c: P) -> P;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("symx: z3 error code {e}");
    std::process::exit(3);
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub enum Ans {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cache_hits: AtomicU64,
    pub nanos: AtomicU64,
    pub slowest: AtomicU64,
    pub lia: AtomicU64,
}

const SH: usize = 64;
pub struct Shared {
    cache: Vec<Mutex<HashMap<u128, Ans>>>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub lia: bool,
}
impl Shared {
    pub fn new(timeout_ms: u32) -> Self {
        Shared {
            cache: (0..SH).map(|_| Mutex::new(HashMap::new())).collect(),
            stats: Stats::default(),
            timeout_ms,
            lia: std::env::var("SYMX_NOLIA").is_err(),
        }
    }
}

pub struct Solver<'a> {
    c: P,
    s: P,
    bv: HashMap<u128, P>,
    bo: HashMap<u128, P>,
    stack: Vec<u128>,
    sh: &'a Shared,
    made: usize,
}

impl<'a> Solver<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        let (c, s) = Self::fresh(sh);
        Solver { c, s, bv: HashMap::new(), bo: HashMap::new(), stack: vec![], sh, made: 0 }
    }
    fn fresh(sh: &Shared) -> (P, P) {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), sh.timeout_ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            (c, s)
        }
    }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, so)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), so)
            }
        }
    }
    fn to_bv(&mut self, e: &E) -> P {
        if let Some(p) = self.bv.get(&e.h) {
            return *p;
        }
        self.made += 1;
        let c = self.c;
        let r = unsafe {
            match e.op {
                Op::Const => self.num(e.w, e.k),
                Op::Var => {
                    let n = CString::new(format!("v{}_{}", e.k, e.w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, e.w))
                }
                op if is_cmp(op) => {
                    let b = self.to_bool(e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
                }
                Op::ZExt => {
                    let x = self.to_bv(e.x());
                    Z3_mk_zero_ext(c, e.w - e.x().w, x)
                }
                Op::SExt => {
                    let x = self.to_bv(e.x());
                    Z3_mk_sign_ext(c, e.w - e.x().w, x)
                }
                Op::Extract => {
                    let x = self.to_bv(e.x());
                    Z3_mk_extract(c, e.k as u32 + e.w - 1, e.k as u32, x)
                }
                Op::Concat => {
                    let x = self.to_bv(e.x());
                    let y = self.to_bv(e.y());
                    Z3_mk_concat(c, x, y)
                }
                Op::Ite => {
                    let b = self.to_bool(e.x());
                    let x = self.to_bv(e.y());
                    let y = self.to_bv(e.z());
                    Z3_mk_ite(c, b, x, y)
                }
                _ => {
                    let x = self.to_bv(e.x());
                    let y = self.to_bv(e.y());
                    let f = match e.op {
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        Op::AShr => Z3_mk_bvashr,
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        _ => unreachable!(),
                    };
                    f(c, x, y)
                }
            }
        };
        self.bv.insert(e.h, r);
        r
    }
    fn to_bool(&mut self, e: &E) -> P {
        debug_assert_eq!(e.w, 1);
        if let Some(p) = self.bo.get(&e.h) {
            return *p;
        }
        let c = self.c;
        let r = unsafe {
            match e.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    if e.op == Op::Eq && e.x().w == 1 {
                        let x = self.to_bool(e.x());
                        let y = self.to_bool(e.y());
                        Z3_mk_eq(c, x, y)
                    } else {
                        let x = self.to_bv(e.x());
                        let y = self.to_bv(e.y());
                        match e.op {
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y),
                            Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y),
                            _ => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                Op::And => {
                    let v = [self.to_bool(e.x()), self.to_bool(e.y())];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.to_bool(e.x()), self.to_bool(e.y())];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if e.y().is_const() && e.y().k == 1 {
                        let x = self.to_bool(e.x());
                        Z3_mk_not(c, x)
                    } else {
                        let x = self.to_bool(e.x());
                        let y = self.to_bool(e.y());
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let b = self.to_bool(e.x());
                    let x = self.to_bool(e.y());
                    let y = self.to_bool(e.z());
                    Z3_mk_ite(c, b, x, y)
                }
                _ => {
                    let x = self.to_bv(e);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bo.insert(e.h, r);
        r
    }

    fn collect_vars(e: &E, out: &mut HashMap<u32, E>, seen: &mut std::collections::HashSet<u128>) {
        if e.vs == 0 || !seen.insert(e.h) {
            return;
        }
        if e.op == Op::Var {
            out.insert(e.k as u32, e.clone());
        }
        for x in e.a.iter().flatten() {
            Self::collect_vars(x, out, seen);
        }
    }

    /// decide through linear integer arithmetic; None: not linear, or no answer
    fn try_lia(&mut self, sl: &[&E], extra: &E) -> Option<Ans> {
        let mut all: Vec<&E> = sl.to_vec();
        all.push(extra);
        if !crate::lia::heavy(&all) {
            return None;
        }
        unsafe {
            let s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.sh.timeout_ms / 2);
            Z3_solver_set_params(self.c, s, p);
            let r = self.lia_in(s, &all);
            Z3_solver_dec_ref(self.c, s);
            r
        }
    }
    unsafe fn lia_in(&mut self, s: P, all: &[&E]) -> Option<Ans> {
        let mut l = crate::lia::Lia::new(self.c, s);
        for e in all {
            l.learn(e);
        }
        self.made += 2000;
        for e in all {
            let b = l.boolean(e)?;
            Z3_solver_assert(self.c, s, b);
        }
        match Z3_solver_check(self.c, s) {
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for (i, t) in &l.vars {
                    let mut r: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, *t, true, &mut r) {
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, r));
                        out.push((*i, s.to_str().unwrap().parse::<u128>().ok()?));
                    }
                }
                Z3_model_dec_ref(self.c, m);
                out.sort();
                // the model must satisfy the bit-vector constraints themselves
                let top = out.last().map(|x| x.0 as usize + 1).unwrap_or(0);
                let mut env = vec![0u128; top];
                for (i, v) in &out {
                    env[*i as usize] = *v;
                }
                for e in all {
                    if eval(e, &env) != 1 {
                        eprintln!("symx: integer model does not satisfy the query");
                        return None;
                    }
                }
                Some(Ans::Sat(out))
            }
            -1 => Some(Ans::Unsat),
            _ => None,
        }
    }

    /// Is `pc && extra` satisfiable?  Only constraints sharing variables (transitively)
    /// with `extra` are sent to the solver; the rest are satisfied by the caller's model.
    pub fn check(&mut self, pc: &[E], extra: &E) -> Ans {
        if extra.is_const() {
            return if extra.k == 1 { Ans::Sat(vec![]) } else { Ans::Unsat };
        }
        let mut rel: Vec<bool> = vec![false; pc.len()];
        let mut vs = extra.vs;
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if !rel[i] && c.vs & vs != 0 {
                    rel[i] = true;
                    if c.vs & !vs != 0 {
                        vs |= c.vs;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let sl: Vec<&E> = pc.iter().zip(&rel).filter(|(_, r)| **r).map(|(c, _)| c).collect();
        // commutative key
        let mut key = extra.h;
        for c in &sl {
            key = key.wrapping_add(c.h.rotate_left(17).wrapping_mul(0x9E37_79B9_7F4A_7C15_1234_5677_0000_0001));
        }
        let st = &self.sh.stats;
        let shard = (key >> 70) as usize % SH;
        if let Some(a) = self.sh.cache[shard].lock().unwrap().get(&key) {
            st.cache_hits.fetch_add(1, Ordering::Relaxed);
            return a.clone();
        }
        if self.made > 1_500_000 {
            unsafe { Z3_del_context(self.c) };
            let (c, s) = Self::fresh(self.sh);
            self.c = c;
            self.s = s;
            self.bv.clear();
            self.bo.clear();
            self.stack.clear();
            self.made = 0;
        }
        let t0 = Instant::now();
        if self.sh.lia {
            if let Some(ans) = self.try_lia(&sl, extra) {
                let dt = t0.elapsed().as_nanos() as u64;
                st.queries.fetch_add(1, Ordering::Relaxed);
                st.lia.fetch_add(1, Ordering::Relaxed);
                match ans {
                    Ans::Sat(_) => st.sat.fetch_add(1, Ordering::Relaxed),
                    _ => st.unsat.fetch_add(1, Ordering::Relaxed),
                };
                st.nanos.fetch_add(dt, Ordering::Relaxed);
                st.slowest.fetch_max(dt, Ordering::Relaxed);
                self.sh.cache[shard].lock().unwrap().insert(key, ans.clone());
                return ans;
            }
        }
        let mut common = 0;
        while common < self.stack.len() && common < sl.len() && self.stack[common] == sl[common].h {
            common += 1;
        }
        let ans = unsafe {
            if self.stack.len() > common {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - common) as u32);
                self.stack.truncate(common);
            }
            for c in &sl[common..] {
                let b = self.to_bool(c);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, b);
                self.stack.push(c.h);
            }
            let b = self.to_bool(extra);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, b);
            let r = Z3_solver_check(self.c, self.s);
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vars = HashMap::new();
                    let mut seen = Default::default();
                    for c in &sl {
                        Self::collect_vars(c, &mut vars, &mut seen);
                    }
                    Self::collect_vars(extra, &mut vars, &mut seen);
                    let mut out = vec![];
                    for (i, v) in vars {
                        let t = self.to_bv(&v);
                        let mut r: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, t, true, &mut r) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, r));
                            out.push((i, s.to_str().unwrap().parse::<u128>().unwrap()));
                        }
                    }
                    out.sort();
                    Z3_model_dec_ref(self.c, m);
                    st.sat.fetch_add(1, Ordering::Relaxed);
                    Ans::Sat(out)
                }
                -1 => {
                    st.unsat.fetch_add(1, Ordering::Relaxed);
                    Ans::Unsat
                }
                _ => {
                    st.unknown.fetch_add(1, Ordering::Relaxed);
                    Ans::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            ans
        };
        let dt = t0.elapsed().as_nanos() as u64;
        st.queries.fetch_add(1, Ordering::Relaxed);
        st.nanos.fetch_add(dt, Ordering::Relaxed);
        st.slowest.fetch_max(dt, Ordering::Relaxed);
        self.sh.cache[shard].lock().unwrap().insert(key, ans.clone());
        ans
    }
}
