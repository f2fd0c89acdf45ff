//! Exact translation of a query into linear integer arithmetic (every wrap-around is explicit).
//! Used for queries with multiplications, divisions or long additions, where bit-blasting is slow.
//! Anything that is not linear makes the translation fail, and the bit-vector back end decides.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_solver_assert(c: P, s: P, a: P);
}

#[derive(Clone, Copy)]
struct I {
    t: P,
    lo: u128,
    hi: u128,
}

pub struct Lia {
    c: P,
    s: P,
    int: P,
    memo: HashMap<u128, I>,
    bmemo: HashMap<u128, P>,
    divs: HashMap<(u128, u128), (I, I)>,
    pub bounds: HashMap<u32, (u128, u128)>,
    pub vars: HashMap<u32, P>,
    fresh: u32,
}

fn maxw(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

/// is the query worth translating?
pub fn heavy(es: &[&E]) -> bool {
    fn go(e: &E, seen: &mut std::collections::HashSet<u128>, n: &mut u32) {
        if e.vs == 0 || !seen.insert(e.h) {
            return;
        }
        match e.op {
            Op::Mul | Op::UDiv | Op::URem => *n += 10,
            Op::Add | Op::Sub if e.w >= 32 => *n += 1,
            _ => {}
        }
        for x in e.a.iter().flatten() {
            go(x, seen, n)
        }
    }
    let mut n = 0;
    let mut seen = Default::default();
    for e in es {
        go(e, &mut seen, &mut n);
    }
    n >= 3
}

impl Lia {
    pub fn new(c: P, s: P) -> Lia {
        Lia {
            c,
            s,
            int: unsafe { Z3_mk_int_sort(c) },
            memo: HashMap::new(),
            bmemo: HashMap::new(),
            divs: HashMap::new(),
            bounds: HashMap::new(),
            vars: HashMap::new(),
            fresh: 0,
        }
    }
    fn num(&self, v: u128) -> P {
        let t = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, t.as_ptr(), self.int) }
    }
    /// 2^w
    fn pow(&self, w: u32) -> P {
        if w == 128 {
            let t = CString::new("340282366920938463463374607431768211456").unwrap();
            unsafe { Z3_mk_numeral(self.c, t.as_ptr(), self.int) }
        } else {
            self.num(1u128 << w)
        }
    }
    fn named(&mut self, n: String, lo: u128, hi: u128) -> I {
        let n = CString::new(n).unwrap();
        unsafe {
            let t = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), self.int);
            Z3_solver_assert(self.c, self.s, Z3_mk_le(self.c, self.num(lo), t));
            Z3_solver_assert(self.c, self.s, Z3_mk_le(self.c, t, self.num(hi)));
            I { t, lo, hi }
        }
    }
    fn new_var(&mut self, lo: u128, hi: u128) -> I {
        self.fresh += 1;
        let n = format!("f{}", self.fresh);
        self.named(n, lo, hi)
    }
    fn add(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_add(self.c, 2, [a, b].as_ptr()) }
    }
    fn sub(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_sub(self.c, 2, [a, b].as_ptr()) }
    }
    fn mul(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_mul(self.c, 2, [a, b].as_ptr()) }
    }
    fn ite(&self, b: P, x: P, y: P) -> P {
        unsafe { Z3_mk_ite(self.c, b, x, y) }
    }
    fn le(&self, a: P, b: P) -> P {
        unsafe { Z3_mk_le(self.c, a, b) }
    }
    fn not(&self, a: P) -> P {
        unsafe { Z3_mk_not(self.c, a) }
    }
    fn konst(&self, v: u128) -> I {
        I { t: self.num(v), lo: v, hi: v }
    }
    /// learn variable bounds from a conjunct
    pub fn learn(&mut self, e: &E) {
        let mut upd = |v: &E, lo: u128, hi: u128| {
            let v = if v.op == Op::ZExt { v.x().clone() } else { v.clone() };
            if v.op == Op::Var {
                let b = self.bounds.entry(v.k as u32).or_insert((0, maxw(v.w)));
                b.0 = b.0.max(lo);
                b.1 = b.1.min(hi);
            }
        };
        match e.op {
            Op::And => {
                let (x, y) = (e.x().clone(), e.y().clone());
                self.learn(&x);
                self.learn(&y);
            }
            Op::Ult if e.y().is_const() && e.y().k > 0 => upd(e.x(), 0, e.y().k - 1),
            Op::Ule if e.y().is_const() => upd(e.x(), 0, e.y().k),
            Op::Ult if e.x().is_const() && e.x().k < u128::MAX => upd(e.y(), e.x().k + 1, u128::MAX),
            Op::Ule if e.x().is_const() => upd(e.y(), e.x().k, u128::MAX),
            Op::Xor if e.y().is_const() && e.y().k == 1 => {
                let n = e.x();
                match n.op {
                    Op::Ult if n.y().is_const() => upd(n.x(), n.y().k, u128::MAX),
                    Op::Ule if n.y().is_const() && n.y().k < u128::MAX => upd(n.x(), n.y().k + 1, u128::MAX),
                    Op::Ult if n.x().is_const() => upd(n.y(), 0, n.x().k),
                    Op::Ule if n.x().is_const() && n.x().k > 0 => upd(n.y(), 0, n.x().k - 1),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    /// x = c*q + r
    fn divmod(&mut self, key: u128, x: I, c: u128) -> (I, I) {
        if x.hi < c {
            return (self.konst(0), x);
        }
        if c == 1 {
            return (x, self.konst(0));
        }
        if let Some(r) = self.divs.get(&(key, c)) {
            return *r;
        }
        let q = self.new_var(x.lo / c, x.hi / c);
        let r = self.new_var(0, c - 1);
        unsafe {
            let s = self.add(self.mul(self.num(c), q.t), r.t);
            Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, x.t, s));
        }
        self.divs.insert((key, c), (q, r));
        (q, r)
    }
    /// reduce a non-negative term with range [lo, hi] modulo 2^w
    fn wrap(&mut self, t: P, lo: u128, hi: u128, w: u32) -> I {
        let m = maxw(w);
        if hi <= m {
            return I { t, lo, hi };
        }
        let md = m + 1; // w < 128 here since hi > m
        if lo >= md && hi < 2 * md {
            return I { t: self.sub(t, self.pow(w)), lo: lo - md, hi: hi - md };
        }
        if hi / md == 1 {
            let c = self.le(self.pow(w), t);
            let t = self.ite(c, self.sub(t, self.pow(w)), t);
            return I { t, lo: 0, hi: m };
        }
        let q = self.new_var(lo / md, hi / md);
        let r = self.new_var(0, m);
        unsafe {
            let s = self.add(self.mul(self.pow(w), q.t), r.t);
            Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, t, s));
        }
        r
    }
    fn int(&mut self, e: &E) -> Option<I> {
        if let Some(r) = self.memo.get(&e.h) {
            return Some(*r);
        }
        let r = self.int0(e)?;
        self.memo.insert(e.h, r);
        Some(r)
    }
    fn times(&mut self, x: I, c: u128, w: u32) -> Option<I> {
        // multiplying by a "negative" constant
        let m = maxw(w);
        if w < 128 && c > m / 2 && x.hi > 0 {
            let n = m - c + 1;
            let p = x.hi.checked_mul(n)?;
            if p <= m {
                // -(n*x) mod 2^w
                let nx = self.mul(self.num(n), x.t);
                let z = unsafe { Z3_mk_eq(self.c, x.t, self.num(0)) };
                let t = self.ite(z, self.num(0), self.sub(self.pow(w), nx));
                return Some(I { t, lo: 0, hi: m });
            }
        }
        let hi = x.hi.checked_mul(c)?;
        let t = self.mul(self.num(c), x.t);
        Some(self.wrap(t, x.lo * c, hi, w))
    }
    fn int0(&mut self, e: &E) -> Option<I> {
        let w = e.w;
        let m = maxw(w);
        if is_cmp(e.op) || (w == 1 && matches!(e.op, Op::And | Op::Or | Op::Xor)) {
            let b = self.boolean(e)?;
            return Some(I { t: self.ite(b, self.num(1), self.num(0)), lo: 0, hi: 1 });
        }
        Some(match e.op {
            Op::Const => self.konst(e.k),
            Op::Var => {
                let (lo, hi) = self.bounds.get(&(e.k as u32)).copied().unwrap_or((0, m));
                let (lo, hi) = if lo > hi.min(m) { (0, m) } else { (lo, hi.min(m)) };
                let v = self.named(format!("v{}_{}", e.k, w), lo, hi);
                self.vars.insert(e.k as u32, v.t);
                v
            }
            Op::Add => {
                let x = self.int(e.x())?;
                let y = self.int(e.y())?;
                // adding a "negative" constant
                if e.y().is_const() && w < 128 && e.y().k > m / 2 {
                    let n = m - e.y().k + 1;
                    let d = self.sub(x.t, self.num(n));
                    if x.lo >= n {
                        return Some(I { t: d, lo: x.lo - n, hi: x.hi - n });
                    }
                    let c = self.le(self.num(n), x.t);
                    let t = self.ite(c, d, self.add(x.t, y.t));
                    return Some(I { t, lo: 0, hi: m });
                }
                let hi = x.hi.checked_add(y.hi)?;
                let t = self.add(x.t, y.t);
                self.wrap(t, x.lo + y.lo, hi, w)
            }
            Op::Sub => {
                let x = self.int(e.x())?;
                let y = self.int(e.y())?;
                let d = self.sub(x.t, y.t);
                if x.lo >= y.hi {
                    return Some(I { t: d, lo: x.lo - y.hi, hi: x.hi - y.lo });
                }
                let c = self.le(y.t, x.t);
                let t = self.ite(c, d, self.add(d, self.pow(w)));
                I { t, lo: 0, hi: m }
            }
            Op::Mul => {
                let (x, c) = if e.y().is_const() {
                    (self.int(e.x())?, e.y().k)
                } else if e.x().is_const() {
                    (self.int(e.y())?, e.x().k)
                } else {
                    return None;
                };
                self.times(x, c, w)?
            }
            Op::Shl if e.y().is_const() && e.y().k < w as u128 && w < 128 => {
                let x = self.int(e.x())?;
                self.times(x, 1u128 << e.y().k, w)?
            }
            Op::UDiv | Op::SDiv if e.y().is_const() && e.y().k > 0 => {
                let x = self.int(e.x())?;
                if e.op == Op::SDiv && (x.hi > m / 2 || e.y().k > m / 2) {
                    return None;
                }
                self.divmod(e.x().h, x, e.y().k).0
            }
            Op::URem | Op::SRem if e.y().is_const() && e.y().k > 0 => {
                let x = self.int(e.x())?;
                if e.op == Op::SRem && (x.hi > m / 2 || e.y().k > m / 2) {
                    return None;
                }
                self.divmod(e.x().h, x, e.y().k).1
            }
            Op::LShr | Op::AShr if e.y().is_const() && e.y().k < w as u128 => {
                let x = self.int(e.x())?;
                if e.op == Op::AShr && x.hi > m / 2 {
                    return None;
                }
                self.divmod(e.x().h, x, 1u128 << e.y().k).0
            }
            Op::And if e.y().is_const() => {
                let x = self.int(e.x())?;
                let k = e.y().k;
                if k == 0 {
                    return Some(self.konst(0));
                }
                if k & (k + 1) == 0 {
                    self.divmod(e.x().h, x, k + 1).1
                } else if (m ^ k) & ((m ^ k) + 1) == 0 {
                    let (q, _) = self.divmod(e.x().h, x, (m ^ k) + 1);
                    self.times(q, (m ^ k) + 1, w)?
                } else {
                    return None;
                }
            }
            Op::Xor if e.y().is_const() && e.y().k == m => {
                let x = self.int(e.x())?;
                I { t: self.sub(self.num(m), x.t), lo: m - x.hi, hi: m - x.lo }
            }
            Op::ZExt => self.int(e.x())?,
            Op::SExt => {
                let x = self.int(e.x())?;
                let sm = maxw(e.x().w);
                if x.hi <= sm / 2 {
                    x
                } else {
                    let big = self.le(self.num(sm / 2 + 1), x.t);
                    let t = self.ite(big, self.add(x.t, self.num(m - sm)), x.t);
                    I { t, lo: 0, hi: m }
                }
            }
            Op::Extract => {
                let x = self.int(e.x())?;
                let q = if e.k == 0 { x } else { self.divmod(e.x().h, x, 1u128 << e.k).0 };
                if q.hi <= m {
                    q
                } else {
                    self.divmod(e.x().h ^ e.k.wrapping_mul(0x9E37_79B9_7F4A_7C15), q, m + 1).1
                }
            }
            Op::Concat => {
                let x = self.int(e.x())?;
                let y = self.int(e.y())?;
                let sh = 1u128 << e.y().w;
                let hi = x.hi.checked_mul(sh)?.checked_add(y.hi)?;
                I { t: self.add(self.mul(x.t, self.num(sh)), y.t), lo: x.lo * sh + y.lo, hi }
            }
            Op::Ite => {
                let b = self.boolean(e.x())?;
                let x = self.int(e.y())?;
                let y = self.int(e.z())?;
                I { t: self.ite(b, x.t, y.t), lo: x.lo.min(y.lo), hi: x.hi.max(y.hi) }
            }
            _ => return None,
        })
    }
    fn signed(&mut self, e: &E) -> Option<P> {
        let x = self.int(e)?;
        let m = maxw(e.w);
        if x.hi <= m / 2 {
            return Some(x.t);
        }
        let neg = self.le(self.num(m / 2 + 1), x.t);
        Some(self.ite(neg, self.sub(x.t, self.pow(e.w)), x.t))
    }
    pub fn boolean(&mut self, e: &E) -> Option<P> {
        if let Some(r) = self.bmemo.get(&e.h) {
            return Some(*r);
        }
        let c = self.c;
        let r = unsafe {
            match e.op {
                Op::Eq if e.x().w == 1 => {
                    let x = self.boolean(e.x())?;
                    let y = self.boolean(e.y())?;
                    Z3_mk_eq(c, x, y)
                }
                Op::Eq | Op::Ult | Op::Ule => {
                    let x = self.int(e.x())?.t;
                    let y = self.int(e.y())?.t;
                    match e.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_lt(c, x, y),
                        _ => Z3_mk_le(c, x, y),
                    }
                }
                Op::Slt | Op::Sle => {
                    let x = self.signed(e.x())?;
                    let y = self.signed(e.y())?;
                    if e.op == Op::Slt {
                        Z3_mk_lt(c, x, y)
                    } else {
                        Z3_mk_le(c, x, y)
                    }
                }
                Op::And if e.w == 1 => {
                    let v = [self.boolean(e.x())?, self.boolean(e.y())?];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or if e.w == 1 => {
                    let v = [self.boolean(e.x())?, self.boolean(e.y())?];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor if e.w == 1 => {
                    let x = self.boolean(e.x())?;
                    if e.y().is_const() && e.y().k == 1 {
                        self.not(x)
                    } else {
                        let y = self.boolean(e.y())?;
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let b = self.boolean(e.x())?;
                    let x = self.boolean(e.y())?;
                    let y = self.boolean(e.z())?;
                    Z3_mk_ite(c, b, x, y)
                }
                _ => {
                    let x = self.int(e)?;
                    Z3_mk_eq(c, x.t, self.num(1))
                }
            }
        };
        self.bmemo.insert(e.h, r);
        Some(r)
    }
}
