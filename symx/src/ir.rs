//! Textual LLVM IR front end (the subset rustc emits): module index, types,
//! global initialisers, and on-demand compilation of function bodies to a compact form.
use crate::expr::mask;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther(u32),
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Meta,
    Func,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(_) => 16,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(_) => 16,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    (n + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {self:?}"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {self:?}"),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    /// (lanes, lane width); lanes == 0 for scalars
    pub fn lanes(&self) -> (u32, u32) {
        match self {
            Ty::Vec(n, t) => (*n as u32, t.width()),
            t => (0, t.width()),
        }
    }
}

#[derive(Clone)]
pub enum Val {
    I(u64),
    W(Box<u128>),
    S(crate::expr::E),
    A(Arc<Vec<Val>>),
}
impl Val {
    pub fn of(w: u32, v: u128) -> Val {
        if w <= 64 {
            Val::I((v & mask(w)) as u64)
        } else {
            Val::W(Box::new(v & mask(w)))
        }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::Void | Ty::Meta | Ty::Func => Val::I(0),
            Ty::FOther(_) => Val::W(Box::new(0)),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = Val::zero(e);
                Val::A(Arc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => Val::A(Arc::new(f.iter().map(Val::zero).collect())),
        }
    }
}

#[derive(Clone)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    Nop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

pub struct Edge {
    pub to: u32,
    pub phis: Box<[(u32, Opd)]>,
}

pub enum Callee {
    Fn(u32),
    Intr(String, Vec<Ty>),
    Ind(Opd),
    Asm(String),
}

pub struct CallI {
    pub d: Option<u32>,
    pub rty: Ty,
    pub f: Callee,
    pub args: Box<[Opd]>,
    pub normal: Option<Edge>,
}

pub enum I {
    Bin { op: crate::expr::Op, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    FBin { op: FOp, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    FCmp { p: FPred, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    FNeg { w: u32, lanes: u32, d: u32, a: Opd },
    Cast { k: CastK, fw: u32, tw: u32, lanes: u32, d: u32, a: Opd },
    BitCast { from: Ty, to: Ty, d: u32, a: Opd },
    Sel { d: u32, c: Opd, a: Opd, b: Opd, ty: Ty, vc: bool },
    Load { d: u32, p: Opd, ty: Ty },
    Store { v: Opd, p: Opd, ty: Ty },
    Alloca { d: u32, size: u64, align: u64, n: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Box<[(Opd, u32, i64)]> },
    Call(Box<CallI>),
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u32, cases: Box<[(u128, Edge)]>, def: Edge },
    Ret(Option<Opd>),
    Unreachable,
    ExtractV { d: u32, a: Opd, ix: Box<[u32]> },
    InsertV { d: u32, a: Opd, v: Opd, ix: Box<[u32]> },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Box<[i32]>, n: u32 },
    CmpXchg { d: u32, p: Opd, c: Opd, n: Opd, ty: Ty },
    Rmw { op: RmwOp, d: u32, p: Opd, v: Opd, ty: Ty },
    Nop,
    Copy { d: u32, a: Opd },
    LandingPad,
    Unsupported(String),
}

pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Box<[I]>>,
    pub uses_alloca: bool,
}

pub struct FuncInfo {
    pub name: &'static str,
    pub demangled: OnceLock<String>,
    pub body: Option<&'static str>, // header line + body
    pub code: OnceLock<&'static Func>,
    pub hit: AtomicBool,
    pub builtin: u32,
}

#[derive(Clone, Copy)]
pub enum Sym {
    F(u32),
    G(u32),
}

pub struct Global {
    pub name: &'static str,
    pub ty: Ty,
    pub init: &'static str,
    pub addr: u64,
    pub size: u64,
    pub ext_weak: bool,
}

pub struct Module {
    pub types: HashMap<&'static str, &'static str>,
    tyc: std::sync::RwLock<HashMap<&'static str, Ty>>,
    pub funcs: Vec<FuncInfo>,
    pub globals: Vec<Global>,
    pub syms: HashMap<&'static str, Sym>,
    pub aliases: HashMap<&'static str, &'static str>,
}

pub const GBASE: u64 = 0x1_0000_0000;
pub const SBASE: u64 = 0x2_0000_0000;
pub const HBASE: u64 = 0x3_0000_0000;
pub const FBASE: u64 = 0x1_0000;

pub fn faddr(id: u32) -> u64 {
    FBASE + (id as u64) * 16
}

struct P<'m> {
    s: &'static [u8],
    i: usize,
    m: &'m Module,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'m> P<'m> {
    fn new(m: &'m Module, s: &'static str) -> Self {
        P { s: s.as_bytes(), i: 0, m }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 120).min(self.s.len());
        format!(
            "{}<<HERE>>{}",
            String::from_utf8_lossy(&self.s[a..self.i.min(self.s.len())]),
            String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..b])
        )
    }
    fn err(&self, m: &str) -> ! {
        panic!("IR parse error: {m}: {}", self.ctx())
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1
                }
            } else {
                break;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected {:?}", c as char));
        }
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[self.i..j]) }
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// after % or @
    fn name(&mut self) -> &'static str {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            unsafe { std::str::from_utf8_unchecked(&self.s[st..j]) }
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let st = self.i;
        if self.s[self.i] == b'-' {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        match t.parse::<i128>() {
            Ok(v) => v,
            Err(_) => match t.parse::<u128>() {
                Ok(v) => v as i128,
                Err(_) => self.err("number"),
            },
        }
    }
    fn skip_group(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                _ => {}
            }
        }
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(
                    w,
                    "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "x86_fp80" | "fp128" | "metadata" | "label" | "token"
                ) || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    /// skip parameter/return/call attributes
    fn skip_attrs(&mut self) {
        loop {
            if self.at_type() {
                return;
            }
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat(b'=') {
                    continue;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.word();
            if w == "align" || w == "addrspace" {
                if self.peek() == b'(' {
                    self.skip_group();
                } else {
                    self.num();
                }
                continue;
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_group();
            }
        }
    }
    /// parameter attributes standing between type and value
    fn skip_pattrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                self.eat(b'=');
                continue;
            }
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg"
                | "immarg" | "returned" | "nest" | "allocptr" | "allocalign" | "nofree" | "swiftself" | "noext" | "writable" => {
                    self.i += w.len();
                }
                "align" => {
                    self.i += w.len();
                    if self.peek() == b'(' {
                        self.skip_group();
                    } else {
                        self.num();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "initializes" | "nofpclass"
                | "elementtype" | "inalloca" | "preallocated" | "byref" => {
                    self.i += w.len();
                    if self.peek() == b'(' {
                        self.skip_group();
                    }
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let mut t = match self.peek() {
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty());
                        if self.eat(b'}') {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                Ty::Struct(Arc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.num() as u64;
                    if self.word() != "x" {
                        self.err("vec");
                    }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Arc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                if self.word() != "x" {
                    self.err("arr");
                }
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Arc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.named(n)
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" | "bfloat" => Ty::Int(16),
                    "x86_fp80" => Ty::FOther(80),
                    "fp128" => Ty::FOther(128),
                    "metadata" | "label" | "token" => Ty::Meta,
                    _ if w.starts_with('i') && w.len() > 1 => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        Err(_) => self.err("type"),
                    },
                    _ => self.err("type"),
                }
            }
        };
        // function type: ret (params)
        if self.i < self.s.len() {
            let save = self.i;
            self.ws();
            if self.i < self.s.len() && self.s[self.i] == b'(' && save != self.i {
                self.skip_group();
                t = Ty::Func;
            } else {
                self.i = save;
            }
        }
        t
    }
    /// type without trying to interpret a following '(' as a function type
    fn ty_nofn(&mut self) -> Ty {
        let t = self.ty();
        t
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut v = vec![];
        loop {
            let c = self.s[self.i];
            if c == b'"' {
                self.i += 1;
                return v;
            }
            if c == b'\\' {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    v.push(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2]));
                    self.i += 3;
                }
            } else {
                v.push(c);
                self.i += 1;
            }
        }
    }
    fn typed_const(&mut self) -> (Ty, Val) {
        let t = self.ty();
        self.skip_pattrs();
        let v = self.constant(&t);
        (t, v)
    }
    fn constant(&mut self, t: &Ty) -> Val {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                Val::I(self.m.sym_addr(n))
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                let b = self.cstr();
                Val::A(Arc::new(b.into_iter().map(|x| Val::I(x as u64)).collect()))
            }
            b'{' | b'[' | b'<' => {
                self.i += 1;
                let mut close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' {
                    self.i += 1;
                    close = b'}';
                    packed = true;
                }
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        v.push(self.typed_const().1);
                        if self.eat(close) {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                if packed {
                    self.expect(b'>');
                }
                Val::A(Arc::new(v))
            }
            b'-' | b'0'..=b'9' => {
                match t {
                    Ty::F32 | Ty::F64 => {
                        let st = self.i;
                        if self.s[st] == b'0' && self.s.get(st + 1) == Some(&b'x') {
                            self.i += 2;
                            let h = self.i;
                            while self.i < self.s.len() && self.s[self.i].is_ascii_hexdigit() {
                                self.i += 1;
                            }
                            let bits = u64::from_str_radix(std::str::from_utf8(&self.s[h..self.i]).unwrap(), 16).unwrap();
                            let d = f64::from_bits(bits);
                            return if *t == Ty::F32 { Val::I((d as f32).to_bits() as u64) } else { Val::I(bits) };
                        }
                        while self.i < self.s.len() && matches!(self.s[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                            self.i += 1;
                        }
                        let d: f64 = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap();
                        return if *t == Ty::F32 { Val::I((d as f32).to_bits() as u64) } else { Val::I(d.to_bits()) };
                    }
                    _ => {}
                }
                let n = self.num();
                Val::of(t.width(), n as u128)
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Val::I(1),
                    "false" => Val::I(0),
                    "null" => Val::I(0),
                    "zeroinitializer" | "undef" | "poison" | "none" => Val::zero(t),
                    "getelementptr" => {
                        loop {
                            let w = self.peek_word();
                            if matches!(w, "inbounds" | "nuw" | "nusw") {
                                self.word();
                            } else if w == "inrange" {
                                self.word();
                                self.skip_group();
                            } else {
                                break;
                            }
                        }
                        self.expect(b'(');
                        let st = self.ty();
                        self.expect(b',');
                        let (_, b) = self.typed_const();
                        let mut a = match b {
                            Val::I(a) => a,
                            _ => self.err("gep base"),
                        };
                        let mut cur = st.clone();
                        let mut first = true;
                        while self.eat(b',') {
                            self.eat_word("inrange");
                            let (it, iv) = self.typed_const();
                            let k = match iv {
                                Val::I(k) => crate::expr::sext(k as u128, it.width()) as i64,
                                _ => self.err("gep idx"),
                            };
                            if first {
                                a = a.wrapping_add((k.wrapping_mul(cur.size() as i64)) as u64);
                                first = false;
                            } else {
                                a = a.wrapping_add(cur.field_off_any(k) as u64);
                                cur = cur.elem(k.max(0) as usize % cur.nelem().max(1));
                            }
                        }
                        self.expect(b')');
                        Val::I(a)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                        self.expect(b'(');
                        let (ft, v) = self.typed_const();
                        if self.word() != "to" {
                            self.err("to");
                        }
                        let tt = self.ty();
                        self.expect(b')');
                        match v {
                            Val::I(x) if tt.is_scalar() => {
                                if w == "sext" {
                                    Val::of(tt.width(), crate::expr::sext(x as u128, ft.width()) as u128)
                                } else {
                                    Val::of(tt.width(), x as u128)
                                }
                            }
                            v => v,
                        }
                    }
                    "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                        loop {
                            let x = self.peek_word();
                            if matches!(x, "nuw" | "nsw" | "exact") {
                                self.word();
                            } else {
                                break;
                            }
                        }
                        self.expect(b'(');
                        let (ta, a) = self.typed_const();
                        self.expect(b',');
                        let (_, b) = self.typed_const();
                        self.expect(b')');
                        match (a, b) {
                            (Val::I(a), Val::I(b)) => Val::of(ta.width(), crate::expr::fold(binop(w), ta.width(), a as u128, b as u128)),
                            _ => self.err("const bin"),
                        }
                    }
                    "icmp" => {
                        let p = pred(self.word());
                        self.expect(b'(');
                        let (ta, a) = self.typed_const();
                        self.expect(b',');
                        let (_, b) = self.typed_const();
                        self.expect(b')');
                        match (a, b) {
                            (Val::I(a), Val::I(b)) => Val::I(icmp_c(p, ta.width(), a as u128, b as u128) as u64),
                            _ => self.err("const icmp"),
                        }
                    }
                    "select" => {
                        self.expect(b'(');
                        let (_, c) = self.typed_const();
                        self.expect(b',');
                        let (_, a) = self.typed_const();
                        self.expect(b',');
                        let (_, b) = self.typed_const();
                        self.expect(b')');
                        match c {
                            Val::I(1) => a,
                            _ => b,
                        }
                    }
                    "blockaddress" => {
                        self.skip_group();
                        Val::I(0)
                    }
                    "asm" | "dso_local_equivalent" => self.err("asm const"),
                    "splat" => {
                        self.expect(b'(');
                        let (_, v) = self.typed_const();
                        self.expect(b')');
                        Val::A(Arc::new(vec![v; t.nelem()]))
                    }
                    _ => self.err("constant"),
                }
            }
        }
    }
}

impl Ty {
    fn field_off_any(&self, k: i64) -> i64 {
        match self {
            Ty::Struct(..) => self.field_off(k as usize) as i64,
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() as i64 * k,
            t => panic!("gep into {t:?}"),
        }
    }
}

fn binop(w: &str) -> crate::expr::Op {
    use crate::expr::Op::*;
    match w {
        "add" => Add,
        "sub" => Sub,
        "mul" => Mul,
        "udiv" => UDiv,
        "sdiv" => SDiv,
        "urem" => URem,
        "srem" => SRem,
        "shl" => Shl,
        "lshr" => LShr,
        "ashr" => AShr,
        "and" => And,
        "or" => Or,
        "xor" => Xor,
        _ => panic!("binop {w}"),
    }
}
fn pred(w: &str) -> Pred {
    use Pred::*;
    match w {
        "eq" => Eq,
        "ne" => Ne,
        "ugt" => Ugt,
        "uge" => Uge,
        "ult" => Ult,
        "ule" => Ule,
        "sgt" => Sgt,
        "sge" => Sge,
        "slt" => Slt,
        "sle" => Sle,
        _ => panic!("pred {w}"),
    }
}
fn fpred(w: &str) -> FPred {
    use FPred::*;
    match w {
        "false" => False,
        "oeq" => Oeq,
        "ogt" => Ogt,
        "oge" => Oge,
        "olt" => Olt,
        "ole" => Ole,
        "one" => One,
        "ord" => Ord,
        "ueq" => Ueq,
        "ugt" => Ugt,
        "uge" => Uge,
        "ult" => Ult,
        "ule" => Ule,
        "une" => Une,
        "uno" => Uno,
        "true" => True,
        _ => panic!("fpred {w}"),
    }
}
pub fn icmp_c(p: Pred, w: u32, a: u128, b: u128) -> bool {
    use crate::expr::sext;
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
    }
}

fn find_at_name(s: &'static str) -> (&'static str, usize) {
    // s contains '@name' or '@"name"'; returns name and index after it
    let b = s.as_bytes();
    let mut i = 0;
    while b[i] != b'@' {
        if b[i] == b'"' {
            i += 1;
            while b[i] != b'"' {
                i += 1;
            }
        }
        i += 1;
    }
    i += 1;
    if b[i] == b'"' {
        let st = i + 1;
        let mut j = st;
        while b[j] != b'"' {
            j += 1;
        }
        (&s[st..j], j + 1)
    } else {
        let st = i;
        while i < b.len() && is_id(b[i]) {
            i += 1;
        }
        (&s[st..i], i)
    }
}

pub fn demangle(n: &str) -> String {
    // legacy mangling: _ZN (len ident)* 17h<hash> E
    let Some(mut r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let mut parts = vec![];
    loop {
        let d = r.bytes().take_while(|c| c.is_ascii_digit()).count();
        if d == 0 {
            break;
        }
        let Ok(l) = r[..d].parse::<usize>() else { break };
        if r.len() < d + l {
            return n.to_string();
        }
        parts.push(&r[d..d + l]);
        r = &r[d + l..];
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let mut o = parts.join("::");
    for (a, b) in [
        ("$LT$", "<"),
        ("$GT$", ">"),
        ("$RF$", "&"),
        ("$BP$", "*"),
        ("$C$", ","),
        ("$LP$", "("),
        ("$RP$", ")"),
        ("$u20$", " "),
        ("$u7b$", "{"),
        ("$u7d$", "}"),
        ("$u5b$", "["),
        ("$u5d$", "]"),
        ("$u27$", "'"),
        ("$u2b$", "+"),
        ("$u3b$", ";"),
        ("$u3d$", "="),
        ("$u22$", "\""),
        ("$SP$", "@"),
        ("..", "::"),
    ] {
        o = o.replace(a, b);
    }
    if let Some(s) = o.strip_prefix("_<") {
        o = format!("<{s}");
    }
    o
}

impl Module {
    pub fn load(text: &'static str, builtin: &dyn Fn(&str) -> u32) -> Module {
        let mut m = Module {
            types: HashMap::new(),
            tyc: Default::default(),
            funcs: vec![],
            globals: vec![],
            syms: HashMap::new(),
            aliases: HashMap::new(),
        };
        // 1. index
        let b = text.as_bytes();
        let mut i = 0;
        let mut glines: Vec<&'static str> = vec![];
        while i < b.len() {
            let e = memchr(b'\n', &b[i..]).map(|x| i + x).unwrap_or(b.len());
            match b[i] {
                b'@' => glines.push(&text[i..e]),
                b'%' => {
                    let l = &text[i..e];
                    if let Some(k) = l.find(" = type ") {
                        let n = l[1..k].trim_matches('"');
                        m.types.insert(n, &l[k + 8..]);
                    }
                }
                b'd' if text[i..e].starts_with("declare ") => {
                    let (n, _) = find_at_name(&text[i..e]);
                    m.add_func(n, None, builtin);
                }
                b'd' if text[i..e].starts_with("define ") => {
                    // find "\n}\n"
                    let mut j = e;
                    loop {
                        let k = memchr(b'\n', &b[j + 1..]).map(|x| j + 1 + x).unwrap_or(b.len());
                        if b[j + 1] == b'}' {
                            j = k;
                            break;
                        }
                        j = k;
                    }
                    let (n, _) = find_at_name(&text[i..e]);
                    m.add_func(n, Some(&text[i..j.min(b.len())]), builtin);
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
            i = e + 1;
        }
        // 2. globals
        let mut addr = GBASE + 0x1000;
        for l in glines {
            let (n, k) = find_at_name(l);
            let rest = l[k..].trim_start().strip_prefix('=').unwrap().trim_start();
            // alias?
            let words: Vec<&str> = rest.split(' ').take(8).collect();
            if words.contains(&"alias") {
                let (t, _) = find_at_name(rest);
                m.aliases.insert(n, t);
                continue;
            }
            let mut p = P::new(&m, rest);
            let mut ext_weak = false;
            let mut external = false;
            loop {
                let w = p.word();
                match w {
                    "global" | "constant" => break,
                    "extern_weak" => ext_weak = true,
                    "external" => external = true,
                    "" => p.err("global"),
                    _ => {
                        if p.i < p.s.len() && p.s[p.i] == b'(' {
                            p.skip_group();
                        }
                    }
                }
            }
            let ty = p.ty();
            let init: &'static str = if ext_weak || external { "" } else { &rest[p.i..] };
            let size = ty.size();
            let mut al = ty.align();
            if let Some(k) = rest.rfind(", align ") {
                if let Some(a) = rest[k + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|s| s.parse::<u64>().ok()) {
                    al = al.max(a);
                }
            }
            addr = (addr + al - 1) / al * al;
            let id = m.globals.len() as u32;
            m.globals.push(Global { name: n, ty, init, addr, size, ext_weak: ext_weak || external });
            addr += size.max(1);
            m.syms.entry(n).or_insert(Sym::G(id));
        }
        // extern symbols used as data (weak): resolve to builtin functions when known
        for i in 0..m.globals.len() {
            if m.globals[i].ext_weak {
                let n = m.globals[i].name;
                let bi = builtin(n);
                if bi != 0 {
                    let id = m.funcs.len() as u32;
                    m.funcs.push(FuncInfo {
                        name: n,
                        demangled: OnceLock::new(),
                        body: None,
                        code: OnceLock::new(),
                        hit: AtomicBool::new(false),
                        builtin: bi,
                    });
                    m.syms.insert(n, Sym::F(id));
                }
            }
        }
        m
    }
    fn add_func(&mut self, n: &'static str, body: Option<&'static str>, builtin: &dyn Fn(&str) -> u32) {
        let bi = builtin(n);
        if let Some(Sym::F(id)) = self.syms.get(n).copied() {
            if body.is_some() {
                self.funcs[id as usize].body = body;
            }
            return;
        }
        let id = self.funcs.len() as u32;
        self.funcs.push(FuncInfo {
            name: n,
            demangled: OnceLock::new(),
            body,
            code: OnceLock::new(),
            hit: AtomicBool::new(false),
            builtin: bi,
        });
        self.syms.insert(n, Sym::F(id));
    }
    pub fn dem(&self, id: u32) -> &str {
        let f = &self.funcs[id as usize];
        f.demangled.get_or_init(|| demangle(f.name))
    }
    fn named(&self, n: &'static str) -> Ty {
        if let Some(t) = self.tyc.read().unwrap().get(n) {
            return t.clone();
        }
        let Some(body) = self.types.get(n) else { panic!("unknown type {n}") };
        if body.starts_with("opaque") {
            return Ty::Struct(Arc::new(vec![]), false);
        }
        let t = P::new(self, body).ty();
        self.tyc.write().unwrap().insert(n, t.clone());
        t
    }
    pub fn resolve(&self, n: &'static str) -> Option<Sym> {
        let mut n = n;
        while let Some(t) = self.aliases.get(n) {
            n = t;
        }
        self.syms.get(n).copied()
    }
    pub fn sym_addr(&self, n: &'static str) -> u64 {
        match self.resolve(n) {
            Some(Sym::F(id)) => faddr(id),
            Some(Sym::G(id)) => {
                let g = &self.globals[id as usize];
                if g.ext_weak {
                    0
                } else {
                    g.addr
                }
            }
            None => panic!("unknown symbol @{n}"),
        }
    }
    /// write all initialisers with `w(addr, byte value size)`
    pub fn init_globals(&self, w: &mut dyn FnMut(u64, u64, u128)) {
        for g in &self.globals {
            if g.init.is_empty() || g.name == "llvm.used" || g.name == "llvm.compiler.used" {
                continue;
            }
            let mut p = P::new(self, g.init);
            let v = p.constant(&g.ty);
            Self::write_const(&g.ty, &v, g.addr, w);
        }
    }
    fn write_const(t: &Ty, v: &Val, a: u64, w: &mut dyn FnMut(u64, u64, u128)) {
        match (t, v) {
            (Ty::Struct(f, _), Val::A(x)) => {
                for i in 0..f.len() {
                    Self::write_const(&f[i], &x[i], a + t.field_off(i), w);
                }
            }
            (Ty::Arr(_, e), Val::A(x)) | (Ty::Vec(_, e), Val::A(x)) => {
                let s = e.size();
                for (i, y) in x.iter().enumerate() {
                    Self::write_const(e, y, a + s * i as u64, w);
                }
            }
            (t, Val::I(x)) => {
                if *x != 0 {
                    w(a, t.size(), *x as u128)
                }
            }
            (t, Val::W(x)) => w(a, t.size(), **x),
            _ => panic!("const shape"),
        }
    }
    pub fn func(&self, id: u32) -> Option<&'static Func> {
        let f = &self.funcs[id as usize];
        if let Some(c) = f.code.get() {
            return Some(c);
        }
        let body = f.body?;
        let c = f.code.get_or_init(|| {
            f.hit.store(true, Ordering::Relaxed);
            Box::leak(Box::new(compile(self, id, body)))
        });
        Some(c)
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}

struct Ctx {
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
}
impl Ctx {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
}

fn opd(p: &mut P, c: &mut Ctx, t: &Ty) -> Opd {
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        Opd::R(c.reg(n))
    } else {
        Opd::C(p.constant(t))
    }
}
fn topd(p: &mut P, c: &mut Ctx) -> (Ty, Opd) {
    let t = p.ty();
    if t == Ty::Meta {
        // skip metadata operand
        while !matches!(p.peek(), b',' | b')') {
            if p.peek() == b'(' {
                p.skip_group();
            } else {
                p.i += 1;
            }
        }
        return (t, Opd::C(Val::I(0)));
    }
    p.skip_pattrs();
    let o = opd(p, c, &t);
    (t, o)
}
fn label(p: &mut P, c: &Ctx) -> u32 {
    if p.word() != "label" {
        p.err("label");
    }
    p.expect(b'%');
    let n = p.name();
    *c.labels.get(n).unwrap_or_else(|| panic!("no label {n}"))
}

fn compile(m: &Module, id: u32, text: &'static str) -> Func {
    // header
    let hl = text.find('\n').unwrap();
    let head = &text[..hl];
    let (_, k) = find_at_name(head);
    let mut c = Ctx { regs: HashMap::new(), labels: HashMap::new() };
    let mut p = P::new(m, head);
    p.i = k;
    p.expect(b'(');
    let mut nparams = 0;
    if !p.eat(b')') {
        loop {
            if p.peek() == b'.' {
                p.i += 3;
                p.expect(b')');
                break;
            }
            let _t = p.ty();
            p.skip_pattrs();
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                let r = c.reg(n);
                assert_eq!(r, nparams);
            } else {
                // unnamed
                let n: &'static str = Box::leak(nparams.to_string().into_boxed_str());
                c.reg(n);
            }
            nparams += 1;
            if p.eat(b')') {
                break;
            }
            p.expect(b',');
        }
    }
    // split into statements
    let body = &text[hl + 1..];
    let mut blocks: Vec<(&'static str, Vec<&'static str>)> = vec![];
    let b = body.as_bytes();
    let mut i = 0;
    let mut unnamed_entry = true;
    while i < b.len() {
        let mut e = memchr(b'\n', &b[i..]).map(|x| i + x).unwrap_or(b.len());
        let l = &body[i..e];
        if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with(';') {
            i = e + 1;
            continue;
        }
        if l.starts_with('}') {
            break;
        }
        if !l.starts_with(' ') {
            // label
            let n = if l.starts_with('"') {
                let k = l[1..].find('"').unwrap();
                &l[1..k + 1]
            } else {
                &l[..l.find(':').unwrap()]
            };
            c.labels.insert(n, blocks.len() as u32);
            blocks.push((n, vec![]));
            unnamed_entry = false;
            i = e + 1;
            continue;
        }
        if unnamed_entry {
            // entry block without label: takes the next number
            let n: &'static str = Box::leak(nparams.to_string().into_boxed_str());
            c.labels.insert(n, 0);
            blocks.push((n, vec![]));
            unnamed_entry = false;
        }
        let t = l.trim_start();
        // continuation lines
        if t.starts_with("switch ") && !l.contains(']') {
            while !body[i..e].contains(']') || !body[..e].ends_with(']') && !ends_switch(&body[i..e]) {
                e = memchr(b'\n', &b[e + 1..]).map(|x| e + 1 + x).unwrap_or(b.len());
            }
        } else {
            let inv = t.starts_with("invoke ") || t.contains("= invoke ");
            let lp = t.contains("= landingpad ");
            if inv {
                e = memchr(b'\n', &b[e + 1..]).map(|x| e + 1 + x).unwrap_or(b.len());
            } else if lp {
                loop {
                    if e + 1 >= b.len() {
                        break;
                    }
                    let ne = memchr(b'\n', &b[e + 1..]).map(|x| e + 1 + x).unwrap_or(b.len());
                    let nl = body[e + 1..ne].trim_start();
                    if nl.starts_with("cleanup") || nl.starts_with("catch ") || nl.starts_with("filter ") {
                        e = ne;
                    } else {
                        break;
                    }
                }
            }
        }
        blocks.last_mut().unwrap().1.push(&body[i..e]);
        i = e + 1;
    }
    // phis per block: dst, ty, [(val text parsed, from label)]
    let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = vec![];
    let mut rest: Vec<Vec<&'static str>> = vec![];
    for (_, st) in &blocks {
        let mut ph = vec![];
        let mut rs = vec![];
        for s in st {
            if s.contains(" = phi ") && is_phi(s) {
                let mut p = P::new(m, s);
                p.expect(b'%');
                let d = {
                    let n = p.name();
                    c.reg(n)
                };
                p.expect(b'=');
                p.word();
                loop {
                    // fast-math flags
                    if p.at_type() {
                        break;
                    }
                    p.word();
                }
                let t = p.ty();
                let mut ins = vec![];
                loop {
                    p.expect(b'[');
                    let v = opd(&mut p, &mut c, &t);
                    p.expect(b',');
                    p.expect(b'%');
                    let ln = p.name();
                    let lb = *c.labels.get(ln).unwrap_or_else(|| panic!("phi label {ln}"));
                    p.expect(b']');
                    ins.push((v, lb));
                    if !p.eat(b',') || p.peek() != b'[' {
                        break;
                    }
                }
                ph.push((d, ins));
            } else {
                rs.push(*s);
            }
        }
        phis.push(ph);
        rest.push(rs);
    }
    let mut out = vec![];
    let mut uses_alloca = false;
    for (bi, st) in rest.iter().enumerate() {
        let mut v = vec![];
        for s in st {
            let ins = inst(m, &mut c, s, bi as u32, &phis);
            if matches!(ins, I::Nop) {
                continue;
            }
            if matches!(ins, I::Alloca { .. }) {
                uses_alloca = true;
            }
            v.push(ins);
        }
        out.push(v.into_boxed_slice());
    }
    Func { id, nregs: c.regs.len() as u32, nparams, blocks: out, uses_alloca }
}
fn ends_switch(s: &str) -> bool {
    // last line of the statement starts with "  ]"
    s.rsplit('\n').next().map(|l| l.trim_start().starts_with(']')).unwrap_or(false)
}
fn is_phi(s: &str) -> bool {
    let mut p = s.trim_start().as_bytes();
    if p[0] != b'%' {
        return false;
    }
    p = &p[1..];
    let k = if p[0] == b'"' { p[1..].iter().position(|c| *c == b'"').unwrap() + 2 } else { p.iter().position(|c| !is_id(*c)).unwrap() };
    p[k..].starts_with(b" = phi ")
}

fn edge(to: u32, from: u32, phis: &[Vec<(u32, Vec<(Opd, u32)>)>]) -> Edge {
    let mut v = vec![];
    for (d, ins) in &phis[to as usize] {
        let o = ins.iter().find(|(_, l)| *l == from).unwrap_or_else(|| panic!("phi edge")).0.clone();
        v.push((*d, o));
    }
    Edge { to, phis: v.into_boxed_slice() }
}

fn flags(p: &mut P) {
    loop {
        let w = p.peek_word();
        match w {
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            | "inbounds" | "nusw" | "samesign" => p.i += w.len(),
            _ => return,
        }
    }
}

fn inst(m: &Module, c: &mut Ctx, s: &'static str, cur: u32, phis: &[Vec<(u32, Vec<(Opd, u32)>)>]) -> I {
    let mut p = P::new(m, s);
    let mut d = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        d = Some(c.reg(n));
        p.expect(b'=');
    }
    let mut w = p.word();
    while matches!(w, "tail" | "musttail" | "notail") {
        w = p.word();
    }
    let dd = d.unwrap_or(0);
    match w {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            flags(&mut p);
            let t = p.ty();
            let a = opd(&mut p, c, &t);
            p.expect(b',');
            let b = opd(&mut p, c, &t);
            let (lanes, w_) = t.lanes();
            I::Bin { op: binop(w), w: w_, lanes, d: dd, a, b }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(&mut p);
            let t = p.ty();
            let a = opd(&mut p, c, &t);
            p.expect(b',');
            let b = opd(&mut p, c, &t);
            let (lanes, w_) = t.lanes();
            let op = match w {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                _ => FOp::Rem,
            };
            I::FBin { op, w: w_, lanes, d: dd, a, b }
        }
        "fneg" => {
            flags(&mut p);
            let t = p.ty();
            let a = opd(&mut p, c, &t);
            let (lanes, w_) = t.lanes();
            I::FNeg { w: w_, lanes, d: dd, a }
        }
        "icmp" => {
            flags(&mut p);
            let pr = pred(p.word());
            let t = p.ty();
            let a = opd(&mut p, c, &t);
            p.expect(b',');
            let b = opd(&mut p, c, &t);
            let (lanes, w_) = t.lanes();
            I::ICmp { p: pr, w: w_, lanes, d: dd, a, b }
        }
        "fcmp" => {
            flags(&mut p);
            let pr = fpred(p.word());
            let t = p.ty();
            let a = opd(&mut p, c, &t);
            p.expect(b',');
            let b = opd(&mut p, c, &t);
            let (lanes, w_) = t.lanes();
            I::FCmp { p: pr, w: w_, lanes, d: dd, a, b }
        }
        "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoint" | "inttoptr" | "bitcast"
        | "addrspacecast" => {
            flags(&mut p);
            let (ft, a) = topd(&mut p, c);
            if p.word() != "to" {
                p.err("to");
            }
            let tt = p.ty();
            if w == "bitcast" {
                return I::BitCast { from: ft, to: tt, d: dd, a };
            }
            let (lanes, fw) = ft.lanes();
            let (_, tw) = tt.lanes();
            let k = match w {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "fptoui" => CastK::FpToUi,
                "fptosi" => CastK::FpToSi,
                "uitofp" => CastK::UiToFp,
                "sitofp" => CastK::SiToFp,
                "fptrunc" => CastK::FpTrunc,
                "fpext" => CastK::FpExt,
                "ptrtoint" => {
                    if tw < 64 {
                        CastK::Trunc
                    } else if tw == 64 {
                        CastK::Nop
                    } else {
                        CastK::ZExt
                    }
                }
                "inttoptr" => {
                    if fw < 64 {
                        CastK::ZExt
                    } else if fw == 64 {
                        CastK::Nop
                    } else {
                        CastK::Trunc
                    }
                }
                _ => CastK::Nop,
            };
            I::Cast { k, fw, tw, lanes, d: dd, a }
        }
        "select" => {
            flags(&mut p);
            let (ct, cc) = topd(&mut p, c);
            p.expect(b',');
            let (t, a) = topd(&mut p, c);
            p.expect(b',');
            let (_, b) = topd(&mut p, c);
            I::Sel { d: dd, c: cc, a, b, ty: t, vc: matches!(ct, Ty::Vec(..)) }
        }
        "load" => {
            while matches!(p.peek_word(), "atomic" | "volatile") {
                p.word();
            }
            let t = p.ty();
            p.expect(b',');
            let (_, a) = topd(&mut p, c);
            I::Load { d: dd, p: a, ty: t }
        }
        "store" => {
            while matches!(p.peek_word(), "atomic" | "volatile") {
                p.word();
            }
            let (t, v) = topd(&mut p, c);
            p.expect(b',');
            let (_, a) = topd(&mut p, c);
            I::Store { v, p: a, ty: t }
        }
        "alloca" => {
            let t = p.ty();
            let mut n = Opd::C(Val::I(1));
            let mut al = t.align();
            while p.eat(b',') {
                if p.eat_word("align") {
                    al = al.max(p.num() as u64);
                } else if p.peek() == b'!' {
                    break;
                } else {
                    n = topd(&mut p, c).1;
                }
            }
            I::Alloca { d: dd, size: t.size(), align: al, n }
        }
        "getelementptr" => {
            flags(&mut p);
            let st = p.ty();
            p.expect(b',');
            let (bt, base) = topd(&mut p, c);
            if matches!(bt, Ty::Vec(..)) {
                return I::Unsupported("vector gep".into());
            }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut curt = st;
            let mut first = true;
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let (it, o) = topd(&mut p, c);
                if matches!(it, Ty::Vec(..)) {
                    return I::Unsupported("vector gep".into());
                }
                let iw = it.width();
                let scale;
                if first {
                    first = false;
                    scale = curt.size() as i64;
                } else {
                    match &curt {
                        Ty::Struct(..) => {
                            let k = match &o {
                                Opd::C(Val::I(k)) => *k as usize,
                                _ => p.err("struct idx"),
                            };
                            off += curt.field_off(k) as i64;
                            curt = curt.elem(k);
                            continue;
                        }
                        Ty::Arr(_, t) | Ty::Vec(_, t) => {
                            scale = t.size() as i64;
                            let t2 = (**t).clone();
                            curt = t2;
                        }
                        _ => p.err("gep type"),
                    }
                }
                match &o {
                    Opd::C(Val::I(k)) => off = off.wrapping_add((crate::expr::sext(*k as u128, iw) as i64).wrapping_mul(scale)),
                    _ => idx.push((o, iw, scale)),
                }
            }
            I::Gep { d: dd, base, off, idx: idx.into_boxed_slice() }
        }
        "call" | "invoke" => {
            flags(&mut p);
            // skip cconv + ret attrs
            p.skip_attrs();
            let mut rty = p.ty_nofn();
            if rty == Ty::Func {
                rty = Ty::Void; // vararg function type: recovered below
                // re-parse return type
                let mut q = P::new(m, s);
                q.i = s.find(if w == "call" { "call" } else { "invoke" }).unwrap() + w.len();
                flags(&mut q);
                q.skip_attrs();
                // parse base type only
                let st = q.i;
                q.ws();
                let wd = q.peek_word();
                if wd == "ptr" {
                    rty = Ty::Ptr;
                } else if wd.starts_with('i') {
                    rty = Ty::Int(wd[1..].parse().unwrap());
                }
                let _ = st;
            }
            let f = match p.peek() {
                b'@' => {
                    p.i += 1;
                    let n = p.name();
                    if n.starts_with("llvm.") {
                        Callee::Intr(n.to_string(), vec![])
                    } else {
                        match m.resolve(n) {
                            Some(Sym::F(id)) => Callee::Fn(id),
                            Some(Sym::G(_)) => Callee::Ind(Opd::C(Val::I(m.sym_addr(n)))),
                            _ => p.err("callee"),
                        }
                    }
                }
                b'%' => {
                    p.i += 1;
                    let n = p.name();
                    Callee::Ind(Opd::R(c.reg(n)))
                }
                _ => {
                    if p.peek_word() == "asm" {
                        p.word();
                        let st = p.i;
                        while p.peek() != b'"' {
                            p.word();
                        }
                        // two strings
                        for _ in 0..2 {
                            p.expect(b'"');
                            while p.s[p.i] != b'"' {
                                p.i += 1;
                            }
                            p.i += 1;
                            p.eat(b',');
                        }
                        Callee::Asm(s[st..p.i].to_string())
                    } else {
                        let v = p.constant(&Ty::Ptr);
                        Callee::Ind(Opd::C(v))
                    }
                }
            };
            p.expect(b'(');
            let mut args = vec![];
            let mut tys = vec![];
            if !p.eat(b')') {
                loop {
                    let (t, o) = topd(&mut p, c);
                    args.push(o);
                    tys.push(t);
                    if p.eat(b')') {
                        break;
                    }
                    p.expect(b',');
                }
            }
            let f = match f {
                Callee::Intr(n, _) => {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.dbg")
                        || n == "llvm.assume"
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.donothing")
                    {
                        return I::Nop;
                    }
                    tys.push(rty.clone());
                    Callee::Intr(n, tys)
                }
                f => f,
            };
            let normal = if w == "invoke" {
                // attributes / operand bundles until "to"
                let k = s.rfind("to label ").unwrap();
                p.i = k + 2;
                let l = label(&mut p, c);
                Some(edge(l, cur, phis))
            } else {
                None
            };
            I::Call(Box::new(CallI { d, rty, f, args: args.into_boxed_slice(), normal }))
        }
        "br" => {
            if p.peek_word() == "label" {
                let l = label(&mut p, c);
                I::Br(edge(l, cur, phis))
            } else {
                let (_, cc) = topd(&mut p, c);
                p.expect(b',');
                let t = label(&mut p, c);
                p.expect(b',');
                let f = label(&mut p, c);
                I::CondBr { c: cc, t: edge(t, cur, phis), f: edge(f, cur, phis) }
            }
        }
        "switch" => {
            let (t, v) = topd(&mut p, c);
            p.expect(b',');
            let df = label(&mut p, c);
            p.expect(b'[');
            let mut cases = vec![];
            while !p.eat(b']') {
                let (ct, cv) = p.typed_const();
                let k = match cv {
                    Val::I(k) => k as u128,
                    Val::W(k) => *k,
                    _ => p.err("case"),
                } & mask(ct.width());
                p.expect(b',');
                let l = label(&mut p, c);
                cases.push((k, edge(l, cur, phis)));
            }
            I::Switch { v, w: t.width(), cases: cases.into_boxed_slice(), def: edge(df, cur, phis) }
        }
        "ret" => {
            if p.peek_word() == "void" {
                I::Ret(None)
            } else {
                let (_, o) = topd(&mut p, c);
                I::Ret(Some(o))
            }
        }
        "unreachable" => I::Unreachable,
        "resume" => I::Unsupported("resume".into()),
        "landingpad" | "cleanuppad" | "catchswitch" => I::LandingPad,
        "extractvalue" => {
            let (_, a) = topd(&mut p, c);
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num() as u32);
            }
            I::ExtractV { d: dd, a, ix: ix.into_boxed_slice() }
        }
        "insertvalue" => {
            let (_, a) = topd(&mut p, c);
            p.expect(b',');
            let (_, v) = topd(&mut p, c);
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num() as u32);
            }
            I::InsertV { d: dd, a, v, ix: ix.into_boxed_slice() }
        }
        "extractelement" => {
            let (_, a) = topd(&mut p, c);
            p.expect(b',');
            let (_, i) = topd(&mut p, c);
            I::ExtractE { d: dd, a, i }
        }
        "insertelement" => {
            let (_, a) = topd(&mut p, c);
            p.expect(b',');
            let (_, v) = topd(&mut p, c);
            p.expect(b',');
            let (_, i) = topd(&mut p, c);
            I::InsertE { d: dd, a, v, i }
        }
        "shufflevector" => {
            let (t, a) = topd(&mut p, c);
            p.expect(b',');
            let (_, b) = topd(&mut p, c);
            p.expect(b',');
            let mt = p.ty();
            let mv = p.constant(&mt);
            let mask: Vec<i32> = match mv {
                Val::A(x) => x
                    .iter()
                    .map(|v| match v {
                        Val::I(k) => *k as i32,
                        _ => -1,
                    })
                    .collect(),
                _ => p.err("mask"),
            };
            I::Shuffle { d: dd, a, b, mask: mask.into_boxed_slice(), n: t.nelem() as u32 }
        }
        "cmpxchg" => {
            while matches!(p.peek_word(), "weak" | "volatile") {
                p.word();
            }
            let (_, a) = topd(&mut p, c);
            p.expect(b',');
            let (t, cm) = topd(&mut p, c);
            p.expect(b',');
            let (_, nw) = topd(&mut p, c);
            I::CmpXchg { d: dd, p: a, c: cm, n: nw, ty: t }
        }
        "atomicrmw" => {
            p.eat_word("volatile");
            let o = p.word();
            let op = match o {
                "xchg" => RmwOp::Xchg,
                "add" => RmwOp::Add,
                "sub" => RmwOp::Sub,
                "and" => RmwOp::And,
                "nand" => RmwOp::Nand,
                "or" => RmwOp::Or,
                "xor" => RmwOp::Xor,
                "max" => RmwOp::Max,
                "min" => RmwOp::Min,
                "umax" => RmwOp::UMax,
                "umin" => RmwOp::UMin,
                _ => p.err("rmw"),
            };
            let (_, a) = topd(&mut p, c);
            p.expect(b',');
            let (t, v) = topd(&mut p, c);
            I::Rmw { op, d: dd, p: a, v, ty: t }
        }
        "fence" => I::Nop,
        "freeze" => {
            let (_, a) = topd(&mut p, c);
            I::Copy { d: dd, a }
        }
        _ => I::Unsupported(s.trim().chars().take(120).collect()),
    }
}
