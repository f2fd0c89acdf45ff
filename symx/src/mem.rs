//! Flat paged byte memory with copy-on-write pages; bytes are concrete or symbolic.
use crate::expr::*;
use crate::ir::{GBASE, HBASE, SBASE};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PS: usize = 4096;

pub struct Page {
    pub d: [u8; PS],
    pub sym: Option<Box<BTreeMap<u16, (E, u8)>>>,
}
impl Clone for Page {
    fn clone(&self) -> Self {
        Page { d: self.d, sym: self.sym.clone() }
    }
}
impl Page {
    fn zero() -> Arc<Page> {
        Arc::new(Page { d: [0; PS], sym: None })
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    r: [Vec<Option<Arc<Page>>>; 3],
    pub brk: u64,
    free: BTreeMap<u64, Vec<u64>>,
}

pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Self {
        let mut m = Mem::default();
        m.brk = HBASE + 0x1000;
        m
    }
    #[inline]
    fn slot(&self, a: u64) -> Option<(usize, usize)> {
        let r = (a >> 32) as usize;
        if r == 0 || r > 3 {
            return None;
        }
        Some((r - 1, ((a & 0xffff_ffff) >> 12) as usize))
    }
    #[inline]
    fn page(&self, a: u64) -> Result<Option<&Page>, Fault> {
        match self.slot(a) {
            None => Err(Fault(a)),
            Some((r, p)) => match self.r[r].get(p) {
                Some(Some(x)) => Ok(Some(x)),
                Some(None) => Ok(None),
                None => {
                    if (r == 2 && a >= self.brk) || (r == 0) || (r == 1 && p > 0x8000) {
                        Err(Fault(a))
                    } else {
                        Ok(None)
                    }
                }
            },
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        match self.slot(a) {
            None => Err(Fault(a)),
            Some((r, p)) => {
                if p >= self.r[r].len() {
                    if (r == 2 && a >= self.brk) || (r == 1 && p > 0x8000) || p > 0xfff00 {
                        return Err(Fault(a));
                    }
                    self.r[r].resize(p + 1, None);
                }
                let s = &mut self.r[r][p];
                if s.is_none() {
                    *s = Some(Page::zero());
                }
                Ok(Arc::make_mut(s.as_mut().unwrap()))
            }
        }
    }
    /// concrete fast read
    #[inline]
    pub fn read_u64(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = (a as usize) & (PS - 1);
        if o + n <= PS {
            match self.page(a)? {
                None => Ok(Some(0)),
                Some(p) => {
                    if p.sym.is_some() && p.sym.as_ref().unwrap().range(o as u16..(o + n) as u16).next().is_some() {
                        return Ok(None);
                    }
                    let s = &p.d[o..o + n];
                    Ok(Some(match n {
                        1 => s[0] as u64,
                        2 => u16::from_le_bytes(s.try_into().unwrap()) as u64,
                        4 => u32::from_le_bytes(s.try_into().unwrap()) as u64,
                        8 => u64::from_le_bytes(s.try_into().unwrap()),
                        _ => {
                            let mut v = 0u64;
                            for (i, b) in s.iter().enumerate() {
                                v |= (*b as u64) << (8 * i);
                            }
                            v
                        }
                    }))
                }
            }
        } else {
            let mut v = 0u64;
            for i in 0..n {
                match self.byte(a + i as u64)? {
                    B::C(b) => v |= (b as u64) << (8 * i),
                    B::S(..) => return Ok(None),
                }
            }
            Ok(Some(v))
        }
    }
    pub fn byte(&self, a: u64) -> Result<B, Fault> {
        match self.page(a)? {
            None => Ok(B::C(0)),
            Some(p) => {
                let o = (a as usize) & (PS - 1);
                if let Some(s) = &p.sym {
                    if let Some((e, i)) = s.get(&(o as u16)) {
                        return Ok(B::S(e.clone(), *i));
                    }
                }
                Ok(B::C(p.d[o]))
            }
        }
    }
    #[inline]
    pub fn write_u64(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = (a as usize) & (PS - 1);
        if o + n <= PS {
            let p = self.page_mut(a)?;
            if p.sym.is_some() {
                clear_sym(p, o, n);
            }
            let s = &mut p.d[o..o + n];
            match n {
                1 => s[0] = v as u8,
                2 => s.copy_from_slice(&(v as u16).to_le_bytes()),
                4 => s.copy_from_slice(&(v as u32).to_le_bytes()),
                8 => s.copy_from_slice(&v.to_le_bytes()),
                _ => {
                    for (i, b) in s.iter_mut().enumerate() {
                        *b = (v >> (8 * i)) as u8;
                    }
                }
            }
            Ok(())
        } else {
            for i in 0..n {
                self.set_byte(a + i as u64, B::C((v >> (8 * i)) as u8))?;
            }
            Ok(())
        }
    }
    pub fn set_byte(&mut self, a: u64, b: B) -> Result<(), Fault> {
        let o = (a as usize) & (PS - 1);
        let p = self.page_mut(a)?;
        match b {
            B::C(b) => {
                if p.sym.is_some() {
                    clear_sym(p, o, 1);
                }
                p.d[o] = b;
            }
            B::S(e, i) => {
                p.sym.get_or_insert_with(Default::default).insert(o as u16, (e, i));
            }
        }
        Ok(())
    }
    /// general read of n bytes as an expression of 8n bits or a concrete value
    pub fn read(&self, a: u64, n: usize) -> Result<R, Fault> {
        if n <= 8 {
            if let Some(v) = self.read_u64(a, n)? {
                return Ok(R::C(v as u128));
            }
        }
        let mut bs = Vec::with_capacity(n);
        let mut any = false;
        for i in 0..n {
            let b = self.byte(a + i as u64)?;
            any |= matches!(b, B::S(..));
            bs.push(b);
        }
        if !any {
            let mut v = 0u128;
            for (i, b) in bs.iter().enumerate() {
                if let B::C(x) = b {
                    v |= (*x as u128) << (8 * i);
                }
            }
            return Ok(R::C(v));
        }
        // whole node?
        if let B::S(e, 0) = &bs[0] {
            if e.w == 8 * n as u32
                && bs.iter().enumerate().all(|(i, b)| matches!(b, B::S(f, j) if *j as usize == i && f.h == e.h))
            {
                return Ok(R::S(e.clone()));
            }
        }
        let mut acc: Option<E> = None;
        for b in bs {
            let x = match b {
                B::C(v) => cst(8, v as u128),
                B::S(e, i) => byte_of(&e, i),
            };
            acc = Some(match acc {
                None => x,
                Some(l) => concat(&x, &l),
            });
        }
        let e = acc.unwrap();
        if e.is_const() {
            return Ok(R::C(e.k));
        }
        Ok(R::S(e))
    }
    pub fn write_sym(&mut self, a: u64, n: usize, e: &E) -> Result<(), Fault> {
        let e = zext(e, 8 * n as u32);
        if e.is_const() {
            if n <= 8 {
                return self.write_u64(a, n, e.k as u64);
            }
            for i in 0..n {
                self.set_byte(a + i as u64, B::C((e.k >> (8 * i)) as u8))?;
            }
            return Ok(());
        }
        for i in 0..n {
            self.set_byte(a + i as u64, B::S(e.clone(), i as u8))?;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // collect then write (handles overlap)
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, E, u8)> = vec![];
        let mut o = 0;
        while o < n {
            let a = src + o;
            let po = (a as usize) & (PS - 1);
            let k = (PS - po).min((n - o) as usize);
            match self.page(a)? {
                None => buf.resize(buf.len() + k, 0),
                Some(p) => {
                    buf.extend_from_slice(&p.d[po..po + k]);
                    if let Some(s) = &p.sym {
                        let hi = (po + k) as u32;
                        for (x, (e, i)) in s.range(po as u16..) {
                            if *x as u32 >= hi {
                                break;
                            }
                            syms.push((o + (*x as u64 - po as u64), e.clone(), *i));
                        }
                    }
                }
            }
            o += k as u64;
        }
        self.write_bytes(dst, &buf)?;
        for (o, e, i) in syms {
            self.set_byte(dst + o, B::S(e, i))?;
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, dst: u64, b: &[u8]) -> Result<(), Fault> {
        let mut o = 0;
        while o < b.len() {
            let a = dst + o as u64;
            let po = (a as usize) & (PS - 1);
            let k = (PS - po).min(b.len() - o);
            let p = self.page_mut(a)?;
            if p.sym.is_some() {
                clear_sym(p, po, k);
            }
            p.d[po..po + k].copy_from_slice(&b[o..o + k]);
            o += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, v: u8, n: u64) -> Result<(), Fault> {
        let mut o = 0;
        while o < n {
            let a = dst + o;
            let po = (a as usize) & (PS - 1);
            let k = (PS - po).min((n - o) as usize);
            let p = self.page_mut(a)?;
            if p.sym.is_some() {
                clear_sym(p, po, k);
            }
            p.d[po..po + k].fill(v);
            o += k as u64;
        }
        Ok(())
    }
    pub fn read_conc(&self, a: u64, n: u64) -> Result<Vec<u8>, Fault> {
        let mut v = vec![];
        for i in 0..n {
            v.push(match self.byte(a + i)? {
                B::C(b) => b,
                B::S(..) => b'?',
            });
        }
        Ok(v)
    }
    fn class(n: u64) -> u64 {
        let n = n.max(16);
        if n <= 512 {
            (n + 15) / 16 * 16
        } else {
            n.next_power_of_two()
        }
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> u64 {
        let c = Self::class(n + 16).max(align * 2);
        // header: 16 bytes before the block hold the class
        if align <= 16 {
            if let Some(v) = self.free.get_mut(&c) {
                if let Some(a) = v.pop() {
                    return a;
                }
            }
        }
        let al = align.max(16);
        let mut a = self.brk + 16;
        a = (a + al - 1) / al * al;
        self.brk = a + c;
        let _ = self.write_u64(a - 16, 8, c);
        let _ = self.write_u64(a - 8, 8, align);
        a
    }
    pub fn usable(&self, a: u64) -> u64 {
        match self.read_u64(a - 16, 8) {
            Ok(Some(c)) => c,
            _ => 0,
        }
    }
    pub fn dealloc(&mut self, a: u64) {
        let c = self.usable(a);
        if let Ok(Some(al)) = self.read_u64(a - 8, 8) {
            if al <= 16 && c > 0 {
                self.free.entry(c).or_default().push(a);
            }
        }
    }
    pub fn check_base() {
        assert!(GBASE >> 32 == 1 && SBASE >> 32 == 2 && HBASE >> 32 == 3);
    }
}

pub fn byte_of(e: &E, i: u8) -> E {
    extract(e, 8 * i as u32, 8)
}

fn clear_sym(p: &mut Page, o: usize, n: usize) {
    let s = p.sym.as_mut().unwrap();
    let keys: Vec<u16> = s.range(o as u16..).take_while(|(k, _)| (**k as usize) < o + n).map(|(k, _)| *k).collect();
    for k in keys {
        s.remove(&k);
    }
    if s.is_empty() {
        p.sym = None;
    }
}

#[derive(Clone)]
pub enum B {
    C(u8),
    S(E, u8),
}
pub enum R {
    C(u128),
    S(E),
}
