//! Bit-vector expression DAG with structural hashing and light simplification.
use std::collections::HashMap;
use std::sync::Arc;

pub type E = Arc<Node>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract,
    Concat,
    Ite,
}

pub struct Node {
    pub w: u32,
    pub op: Op,
    /// constant value, variable index or low bit of an extract
    pub k: u128,
    pub a: [Option<E>; 3],
    /// structural hash
    pub h: u128,
    /// bit set of the variables below (variables >= 127 share the last bit)
    pub vs: u128,
}

fn mix(h: u128, x: u128) -> u128 {
    let mut z = h ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
    z = (z ^ (z >> 59)).wrapping_mul(0xBF58_476D_1CE4_E5B9_94D0_49BB_1331_11EB);
    z = (z ^ (z >> 61)).wrapping_mul(0xD6E8_FEB8_6659_FD93_A5A5_1F2B_3C4D_5E6F);
    z ^ (z >> 64)
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn mk(op: Op, w: u32, k: u128, a: [Option<E>; 3]) -> E {
    let mut h = mix(0x1234_5678_9abc_def0_0fed_cba9_8765_4321, (op as u128) | ((w as u128) << 8));
    h = mix(h, k);
    let mut vs = 0;
    for x in a.iter().flatten() {
        h = mix(h, x.h);
        vs |= x.vs;
    }
    if op == Op::Var {
        let i = (k as u64 & 0xffff_ffff) as u32;
        vs = 1u128 << i.min(127);
    }
    Arc::new(Node { w, op, k, a, h, vs })
}

impl Node {
    pub fn x(&self) -> &E {
        self.a[0].as_ref().unwrap()
    }
    pub fn y(&self) -> &E {
        self.a[1].as_ref().unwrap()
    }
    pub fn z(&self) -> &E {
        self.a[2].as_ref().unwrap()
    }
    pub fn is_const(&self) -> bool {
        self.op == Op::Const
    }
}

pub fn cst(w: u32, v: u128) -> E {
    mk(Op::Const, w, v & mask(w), [None, None, None])
}
pub fn var(w: u32, idx: u32) -> E {
    mk(Op::Var, w, idx as u128, [None, None, None])
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let n = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> n) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn not(e: &E) -> E {
    debug_assert_eq!(e.w, 1);
    match e.op {
        Op::Const => cst(1, 1 - e.k),
        Op::Xor if e.y().is_const() && e.y().k == 1 => e.x().clone(),
        Op::Ult => mk(Op::Ule, 1, 0, [e.a[1].clone(), e.a[0].clone(), None]),
        Op::Ule => mk(Op::Ult, 1, 0, [e.a[1].clone(), e.a[0].clone(), None]),
        Op::Slt => mk(Op::Sle, 1, 0, [e.a[1].clone(), e.a[0].clone(), None]),
        Op::Sle => mk(Op::Slt, 1, 0, [e.a[1].clone(), e.a[0].clone(), None]),
        _ => mk(Op::Xor, 1, 0, [Some(e.clone()), Some(cst(1, 1)), None]),
    }
}

pub fn bin(op: Op, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w, "{:?}", op);
    let rw = if is_cmp(op) { 1 } else { w };
    if a.is_const() && b.is_const() {
        return cst(rw, fold(op, w, a.k, b.k));
    }
    // canonical: constant on the right for commutative operators
    if a.is_const() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        return bin(op, b, a);
    }
    let m = mask(w);
    if b.is_const() {
        let k = b.k;
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => {
                return a.clone()
            }
            Op::And if k == 0 => return cst(w, 0),
            Op::And if k == m => return a.clone(),
            Op::Or if k == m => return cst(w, m),
            Op::Mul if k == 0 => return cst(w, 0),
            Op::Mul | Op::UDiv if k == 1 => return a.clone(),
            Op::Mul if k.is_power_of_two() => {
                return bin(Op::Shl, a, &cst(w, k.trailing_zeros() as u128))
            }
            Op::UDiv if k.is_power_of_two() => {
                return bin(Op::LShr, a, &cst(w, k.trailing_zeros() as u128))
            }
            Op::URem if k.is_power_of_two() => return bin(Op::And, a, &cst(w, k - 1)),
            Op::Shl | Op::LShr if k >= w as u128 => return cst(w, 0),
            Op::LShr => {
                return zext(&extract(a, k as u32, w - k as u32), w);
            }
            Op::Sub => return bin(Op::Add, a, &cst(w, (m - k + 1) & m)),
            Op::Add if a.op == Op::Add && a.y().is_const() => {
                return bin(Op::Add, a.x(), &cst(w, a.y().k.wrapping_add(k)))
            }
            Op::And if a.op == Op::ZExt => {
                let iw = a.x().w;
                return zext(&bin(Op::And, a.x(), &cst(iw, k)), w);
            }
            Op::And if k == mask(128 - k.leading_zeros()) => {
                let bits = 128 - k.leading_zeros();
                return zext(&extract(a, 0, bits), w);
            }
            Op::Xor if w == 1 => {
                return not(a);
            }
            Op::Eq => {
                if w == 1 {
                    return if k == 1 { a.clone() } else { not(a) };
                }
                match a.op {
                    Op::ZExt => {
                        let iw = a.x().w;
                        if k > mask(iw) {
                            return cst(1, 0);
                        }
                        return bin(Op::Eq, a.x(), &cst(iw, k));
                    }
                    Op::SExt => {
                        let iw = a.x().w;
                        let t = k & mask(iw);
                        if (sext(t, iw) as u128) & m != k {
                            return cst(1, 0);
                        }
                        return bin(Op::Eq, a.x(), &cst(iw, t));
                    }
                    Op::Add if a.y().is_const() => {
                        return bin(Op::Eq, a.x(), &cst(w, k.wrapping_sub(a.y().k)));
                    }
                    Op::Xor if a.y().is_const() => {
                        return bin(Op::Eq, a.x(), &cst(w, k ^ a.y().k));
                    }
                    Op::Ite => {
                        let (t, f) = (a.y(), a.z());
                        if t.is_const() || f.is_const() {
                            let te = bin(Op::Eq, t, b);
                            let fe = bin(Op::Eq, f, b);
                            return ite(a.x(), &te, &fe);
                        }
                    }
                    Op::Concat => {
                        let lw = a.y().w;
                        let hi = bin(Op::Eq, a.x(), &cst(a.x().w, k >> lw));
                        let lo = bin(Op::Eq, a.y(), &cst(lw, k));
                        return bin(Op::And, &hi, &lo);
                    }
                    _ => {}
                }
            }
            Op::Ult => {
                if k == 0 {
                    return cst(1, 0);
                }
                if a.op == Op::ZExt {
                    let iw = a.x().w;
                    if k > mask(iw) {
                        return cst(1, 1);
                    }
                    return bin(Op::Ult, a.x(), &cst(iw, k));
                }
                if k == 1 {
                    return bin(Op::Eq, a, &cst(w, 0));
                }
                if a.op == Op::Ite && (a.y().is_const() || a.z().is_const()) {
                    return ite(a.x(), &bin(op, a.y(), b), &bin(op, a.z(), b));
                }
            }
            Op::Ule => {
                if k == m {
                    return cst(1, 1);
                }
                return bin(Op::Ult, a, &cst(w, k + 1));
            }
            Op::Slt | Op::Sle => {
                if a.op == Op::ZExt && sext(k, w) >= 0 {
                    let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return bin(u, a, b);
                }
                if a.op == Op::ZExt {
                    return cst(1, 0);
                }
                if a.op == Op::Ite && (a.y().is_const() || a.z().is_const()) {
                    return ite(a.x(), &bin(op, a.y(), b), &bin(op, a.z(), b));
                }
            }
            _ => {}
        }
        if a.op == Op::Ite
            && a.y().is_const()
            && a.z().is_const()
            && !matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem)
        {
            return ite(a.x(), &bin(op, a.y(), b), &bin(op, a.z(), b));
        }
    } else if a.is_const() {
        let k = a.k;
        match op {
            Op::Ult => {
                if k == m {
                    return cst(1, 0);
                }
                if b.op == Op::ZExt {
                    let iw = b.x().w;
                    if k >= mask(iw) {
                        return cst(1, 0);
                    }
                    return bin(Op::Ult, &cst(iw, k), b.x());
                }
            }
            Op::Ule => {
                if k == 0 {
                    return cst(1, 1);
                }
                return bin(Op::Ult, &cst(w, k - 1), b);
            }
            Op::Slt | Op::Sle => {
                if b.op == Op::ZExt && sext(k, w) < 0 {
                    return cst(1, 1);
                }
                if b.op == Op::ZExt {
                    let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return bin(u, a, b);
                }
            }
            Op::Shl | Op::LShr | Op::UDiv | Op::URem if k == 0 => return cst(w, 0),
            _ => {}
        }
    }
    if a.h == b.h {
        match op {
            Op::Sub | Op::Xor => return cst(w, 0),
            Op::And | Op::Or => return a.clone(),
            Op::Eq | Op::Ule | Op::Sle => return cst(1, 1),
            Op::Ult | Op::Slt => return cst(1, 0),
            _ => {}
        }
    }
    if w == 1 && matches!(op, Op::And | Op::Or) && not(a).h == b.h {
        return cst(1, (op == Op::Or) as u128);
    }
    if op == Op::Eq && a.op == Op::ZExt && b.op == Op::ZExt && a.x().w == b.x().w {
        return bin(Op::Eq, a.x(), b.x());
    }
    if matches!(op, Op::Ult | Op::Ule)
        && a.op == Op::ZExt
        && b.op == Op::ZExt
        && a.x().w == b.x().w
    {
        return bin(op, a.x(), b.x());
    }
    mk(op, rw, 0, [Some(a.clone()), Some(b.clone()), None])
}

pub fn ite(c: &E, t: &E, f: &E) -> E {
    debug_assert_eq!(t.w, f.w);
    if c.is_const() {
        return if c.k == 1 { t.clone() } else { f.clone() };
    }
    if t.h == f.h {
        return t.clone();
    }
    if t.w == 1 {
        if t.is_const() && f.is_const() {
            return if t.k == 1 { c.clone() } else { not(c) };
        }
        if t.is_const() {
            return if t.k == 1 {
                bin(Op::Or, c, f)
            } else {
                bin(Op::And, &not(c), f)
            };
        }
        if f.is_const() {
            return if f.k == 0 {
                bin(Op::And, c, t)
            } else {
                bin(Op::Or, &not(c), t)
            };
        }
    }
    if c.op == Op::Xor && c.y().is_const() {
        return ite(c.x(), f, t);
    }
    mk(Op::Ite, t.w, 0, [Some(c.clone()), Some(t.clone()), Some(f.clone())])
}

pub fn zext(e: &E, w: u32) -> E {
    if e.w == w {
        return e.clone();
    }
    match e.op {
        Op::Const => cst(w, e.k),
        Op::ZExt => zext(e.x(), w),
        _ => mk(Op::ZExt, w, 0, [Some(e.clone()), None, None]),
    }
}
pub fn sext_e(e: &E, w: u32) -> E {
    if e.w == w {
        return e.clone();
    }
    match e.op {
        Op::Const => cst(w, sext(e.k, e.w) as u128),
        Op::ZExt => zext(e.x(), w),
        _ if e.w == 1 => ite(e, &cst(w, mask(w)), &cst(w, 0)),
        _ => mk(Op::SExt, w, 0, [Some(e.clone()), None, None]),
    }
}
pub fn extract(e: &E, lo: u32, w: u32) -> E {
    debug_assert!(lo + w <= e.w);
    if lo == 0 && w == e.w {
        return e.clone();
    }
    match e.op {
        Op::Const => return cst(w, e.k >> lo),
        Op::Extract => return extract(e.x(), e.k as u32 + lo, w),
        Op::ZExt => {
            let iw = e.x().w;
            if lo >= iw {
                return cst(w, 0);
            }
            if lo + w <= iw {
                return extract(e.x(), lo, w);
            }
            return zext(&extract(e.x(), lo, iw - lo), w);
        }
        Op::SExt if lo + w <= e.x().w => return extract(e.x(), lo, w),
        Op::Concat => {
            let lw = e.y().w;
            if lo + w <= lw {
                return extract(e.y(), lo, w);
            }
            if lo >= lw {
                return extract(e.x(), lo - lw, w);
            }
            let l = extract(e.y(), lo, lw - lo);
            let h = extract(e.x(), 0, lo + w - lw);
            return concat(&h, &l);
        }
        Op::Ite if e.y().is_const() || e.z().is_const() => {
            return ite(e.x(), &extract(e.y(), lo, w), &extract(e.z(), lo, w))
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(e.op, &extract(e.x(), lo, w), &extract(e.y(), lo, w));
        }
        Op::Add | Op::Mul if lo == 0 => {
            return bin(e.op, &extract(e.x(), 0, w), &extract(e.y(), 0, w));
        }
        Op::Shl if e.y().is_const() => {
            let s = e.y().k as u32;
            if s >= lo + w {
                return cst(w, 0);
            }
            if lo >= s {
                return extract(e.x(), lo - s, w);
            }
        }
        _ => {}
    }
    mk(Op::Extract, w, lo as u128, [Some(e.clone()), None, None])
}
/// `hi` becomes the most significant part.
pub fn concat(hi: &E, lo: &E) -> E {
    let w = hi.w + lo.w;
    if hi.is_const() && lo.is_const() {
        return cst(w, (hi.k << lo.w) | lo.k);
    }
    if hi.is_const() && hi.k == 0 {
        return zext(lo, w);
    }
    if hi.op == Op::Extract && lo.op == Op::Extract && hi.x().h == lo.x().h && hi.k as u32 == lo.k as u32 + lo.w {
        return extract(hi.x(), lo.k as u32, w);
    }
    if lo.op == Op::Concat && hi.op == Op::Extract && lo.x().op == Op::Extract {
        let l1 = lo.x();
        if l1.x().h == hi.x().h && hi.k as u32 == l1.k as u32 + l1.w {
            return concat(&extract(hi.x(), l1.k as u32, hi.w + l1.w), lo.y());
        }
    }
    mk(Op::Concat, w, 0, [Some(hi.clone()), Some(lo.clone()), None])
}

pub type Model = Vec<u128>;

pub fn eval(e: &E, m: &Model) -> u128 {
    if e.is_const() {
        return e.k;
    }
    let mut memo: HashMap<*const Node, u128> = HashMap::new();
    ev(e, m, &mut memo)
}
fn ev(e: &E, m: &Model, memo: &mut HashMap<*const Node, u128>) -> u128 {
    match e.op {
        Op::Const => return e.k,
        Op::Var => return m.get(e.k as usize).copied().unwrap_or(0) & mask(e.w),
        _ => {}
    }
    let p = Arc::as_ptr(e);
    if let Some(v) = memo.get(&p) {
        return *v;
    }
    let v = match e.op {
        Op::ZExt => ev(e.x(), m, memo),
        Op::SExt => (sext(ev(e.x(), m, memo), e.x().w) as u128) & mask(e.w),
        Op::Extract => (ev(e.x(), m, memo) >> e.k) & mask(e.w),
        Op::Concat => {
            let h = ev(e.x(), m, memo);
            let l = ev(e.y(), m, memo);
            (h << e.y().w) | l
        }
        Op::Ite => {
            if ev(e.x(), m, memo) == 1 {
                ev(e.y(), m, memo)
            } else {
                ev(e.z(), m, memo)
            }
        }
        op => {
            let a = ev(e.x(), m, memo);
            let b = ev(e.y(), m, memo);
            fold(op, e.x().w, a, b)
        }
    };
    memo.insert(p, v);
    v
}

pub fn show(e: &E, depth: u32) -> String {
    match e.op {
        Op::Const => format!("{}", e.k),
        Op::Var => format!("v{}", e.k),
        _ if depth == 0 => "..".into(),
        Op::Extract => format!("{}[{}+:{}]", show(e.x(), depth - 1), e.k, e.w),
        _ => {
            let mut s = format!("({:?}{}", e.op, if matches!(e.op, Op::ZExt | Op::SExt) { format!("{}", e.w) } else { String::new() });
            for x in e.a.iter().flatten() {
                s.push(' ');
                s.push_str(&show(x, depth - 1));
            }
            s.push(')');
            s
        }
    }
}
