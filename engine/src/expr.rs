//! Hash-consed bit-vector expressions (width 1..=128) over symbolic input bytes, with an algebraic simplifier.
use std::cell::RefCell;
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    /// The n-th symbolic input byte.
    Sym(u32),
    Bin(Op, Id, Id),
    Not(Id),
    SExt(Id),
    Extract(Id, u8),
    Concat(Id, Id),
    Ite(Id, Id, Id),
    Eq(Id, Id),
    Ult(Id, Id),
    Slt(Id, Id),
}
use Node::*;

pub struct Arena {
    pub nodes: Vec<(Node, u8)>,
    /// Per node: the set of input bytes it depends on, as a bit set (at most 128 input bytes).
    pub syms: Vec<u128>,
    map: HashMap<(Node, u8), Id>,
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        // SMT-LIB semantics for a zero divisor.
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sx(a, w); (if b >= w as u128 { if s < 0 { -1 } else { 0 } } else { s >> b }) as u128 }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}

/// An assignment of the input bytes, with the values of the expressions evaluated under it so far.
pub struct Model { pub bytes: Vec<u8>, memo: RefCell<HashMap<Id, u128>> }
impl Model {
    pub fn new(bytes: Vec<u8>) -> Self { Model { bytes, memo: RefCell::new(HashMap::new()) } }
}

impl Arena {
    pub fn new() -> Self { Arena { nodes: Vec::new(), syms: Vec::new(), map: HashMap::new() } }
    #[inline]
    pub fn w(&self, i: Id) -> u32 { self.nodes[i as usize].1 as u32 }
    #[inline]
    pub fn n(&self, i: Id) -> Node { self.nodes[i as usize].0 }
    pub fn as_const(&self, i: Id) -> Option<u128> { if let Const(c) = self.n(i) { Some(c) } else { None } }
    fn mk(&mut self, n: Node, w: u32) -> Id {
        if w == 0 || w > 128 { panic!("unsupported expression width {w}") }
        if let Some(&i) = self.map.get(&(n, w as u8)) { return i }
        let i = self.nodes.len() as Id;
        let g = |x: Id| self.syms[x as usize];
        let s = match n {
            Const(_) => 0,
            Sym(k) => { if k >= 128 { panic!("more than 128 symbolic input bytes") } 1u128 << k }
            Bin(_, a, b) | Concat(a, b) | Eq(a, b) | Ult(a, b) | Slt(a, b) => g(a) | g(b),
            Not(a) | SExt(a) | Extract(a, _) => g(a),
            Ite(a, b, c) => g(a) | g(b) | g(c),
        };
        self.syms.push(s);
        self.nodes.push((n, w as u8));
        self.map.insert((n, w as u8), i);
        i
    }
    pub fn c(&mut self, v: u128, w: u32) -> Id { self.mk(Const(v & mask(w)), w) }
    pub fn sym(&mut self, i: u32) -> Id { self.mk(Sym(i), 8) }

    /// How many of the top bits are known to be zero.
    fn lz(&self, a: Id) -> u32 {
        let w = self.w(a);
        match self.n(a) {
            Const(c) => w - (128 - c.leading_zeros()),
            Concat(h, l) => { let z = self.lz(h); if z == self.w(h) { z + self.lz(l) } else { z } }
            Ite(_, x, y) => {
                // Only shallow, to keep this cheap.
                let f = |i: Id| match self.n(i) { Const(_) | Concat(..) => self.lz(i), _ => 0 };
                f(x).min(f(y))
            }
            Bin(Op::And, x, y) => self.lz(x).max(self.lz(y)),
            Bin(Op::UDiv, x, y) if self.as_const(y).map_or(false, |c| c != 0) => self.lz(x),
            Bin(Op::URem, x, _) => self.lz(x),
            Bin(Op::Add, x, y) => { let z = self.lz(x).min(self.lz(y)); z.saturating_sub(1) }
            Bin(Op::Mul, x, y) => { (self.lz(x) + self.lz(y)).saturating_sub(w) }
            _ => 0,
        }
    }
    /// How many of the low bits are known to be zero.
    pub fn tz(&self, a: Id) -> u32 {
        let w = self.w(a);
        match self.n(a) {
            Const(c) => if c == 0 { w } else { c.trailing_zeros() },
            Concat(h, l) => { let z = self.tz(l); if z == self.w(l) { z + self.tz(h) } else { z } }
            Bin(Op::Add, x, y) | Bin(Op::Sub, x, y) => self.tz(x).min(self.tz(y)),
            Bin(Op::Mul, x, y) => (self.tz(x) + self.tz(y)).min(w),
            Ite(_, x, y) => self.tz(x).min(self.tz(y)),
            _ => 0,
        }
    }

    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Const(x), Const(y)) = (self.n(a), self.n(b)) { return self.c(fold(op, x, y, w), w) }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b) }
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        match op {
            Op::Add => {
                if cb == Some(0) { return a }
                if let Some(c2) = cb {
                    if let Bin(Op::Add, x, y) = self.n(a) {
                        if let Some(c1) = self.as_const(y) { let k = self.c(c1.wrapping_add(c2), w); return self.bin(Op::Add, x, k) }
                    }
                }
                if w == 1 { return self.bin(Op::Xor, a, b) }
            }
            Op::Sub => {
                if a == b { return self.c(0, w) }
                if let Some(c2) = cb { let k = self.c((c2 ^ mask(w)).wrapping_add(1), w); return self.bin(Op::Add, a, k) }
                if w == 1 { return self.bin(Op::Xor, a, b) }
                // (x + c) - x, and x - (x + c)
                if let Bin(Op::Add, x, y) = self.n(a) { if x == b { return y } if y == b { return x } }
                if let (Bin(Op::Add, x, c1), Bin(Op::Add, y, c2)) = (self.n(a), self.n(b)) {
                    if x == y { return self.bin(Op::Sub, c1, c2) }
                }
                if let Bin(Op::Add, x, y) = self.n(b) {
                    if x == a { let z = self.c(0, w); return self.bin(Op::Sub, z, y) }
                }
            }
            Op::Mul => {
                if let Some(c) = cb {
                    if c == 0 { return b }
                    if c == 1 { return a }
                    if c.is_power_of_two() { let k = self.c(c.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, k) }
                }
                if w == 1 { return self.bin(Op::And, a, b) }
            }
            Op::And => {
                if a == b { return a }
                if let Some(c) = cb {
                    if c == 0 { return b }
                    if c == mask(w) { return a }
                    // Split the mask into runs.
                    let mut runs = vec![];
                    let mut lo = 0u32;
                    while lo < w {
                        let bit = (c >> lo) & 1;
                        let mut hi = lo;
                        while hi < w && (c >> hi) & 1 == bit { hi += 1 }
                        runs.push((bit, lo, hi));
                        lo = hi;
                    }
                    if runs.len() <= 4 {
                        let mut acc: Option<Id> = None;
                        for (bit, lo, hi) in runs {
                            let p = if bit == 1 { self.extract(a, lo, hi - lo) } else { self.c(0, hi - lo) };
                            acc = Some(match acc { None => p, Some(l) => self.concat(p, l) });
                        }
                        return acc.unwrap();
                    }
                }
                if w == 1 { if self.not(a) == b { return self.c(0, 1) } }
            }
            Op::Or => {
                if a == b { return a }
                if cb == Some(0) { return a }
                if cb == Some(mask(w)) { return b }
                if w == 1 { if self.not(a) == b { return self.c(1, 1) } }
            }
            Op::Xor => {
                if a == b { return self.c(0, w) }
                if cb == Some(0) { return a }
                if w == 1 && cb == Some(1) { return self.not(a) }
                if let (Some(c2), Bin(Op::Xor, x, y)) = (cb, self.n(a)) {
                    if let Some(c1) = self.as_const(y) { let k = self.c(c1 ^ c2, w); return self.bin(Op::Xor, x, k) }
                }
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 { return a }
                    if c >= w as u128 { return self.c(0, w) }
                    let l = self.c(0, c as u32);
                    let h = self.extract(a, 0, w - c as u32);
                    return self.concat(h, l);
                }
                if ca == Some(0) { return a }
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 { return a }
                    if c >= w as u128 { return self.c(0, w) }
                    let h = self.c(0, c as u32);
                    let l = self.extract(a, c as u32, w - c as u32);
                    return self.concat(h, l);
                }
                if ca == Some(0) { return a }
            }
            Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 { return a }
                    let c = if c >= w as u128 { w - 1 } else { c as u32 };
                    let l = self.extract(a, c, w - c);
                    return self.sext(l, w);
                }
                if ca == Some(0) { return a }
            }
            Op::UDiv => if let Some(c) = cb {
                if c == 1 { return a }
                if c != 0 && c.is_power_of_two() { let k = self.c(c.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k) }
                if let Bin(Op::UDiv, x, y) = self.n(a) {
                    if let Some(d) = self.as_const(y) {
                        if d != 0 && c != 0 { return match d.checked_mul(c) { Some(m) if m <= mask(w) => { let k = self.c(m, w); self.bin(Op::UDiv, x, k) } _ => self.c(0, w) } }
                    }
                }
                let z = self.lz(a);
                if c != 0 && z > 0 && z < w && c <= mask(w - z) {
                    let x = self.extract(a, 0, w - z);
                    let k = self.c(c, w - z);
                    let r = self.mk(Bin(Op::UDiv, x, k), w - z);
                    return self.zext(r, w);
                }
            },
            Op::URem => if let Some(c) = cb {
                if c == 1 { return self.c(0, w) }
                if c != 0 && c.is_power_of_two() { let k = self.c(c - 1, w); return self.bin(Op::And, a, k) }
                let z = self.lz(a);
                if c != 0 && z > 0 && z < w && c <= mask(w - z) {
                    let x = self.extract(a, 0, w - z);
                    let k = self.c(c, w - z);
                    let r = self.mk(Bin(Op::URem, x, k), w - z);
                    return self.zext(r, w);
                }
            },
            _ => {}
        }
        // Bitwise operations distribute over concatenation; worthwhile when a piece is constant.
        if matches!(op, Op::And | Op::Or | Op::Xor) {
            for (x, y) in [(a, b), (b, a)] {
                if let Concat(h, l) = self.n(x) {
                    if self.as_const(h).is_some() || self.as_const(l).is_some() || matches!(self.n(y), Const(_)) {
                        let wl = self.w(l);
                        let yh = self.extract(y, wl, w - wl);
                        let yl = self.extract(y, 0, wl);
                        let rh = self.bin(op, h, yh);
                        let rl = self.bin(op, l, yl);
                        return self.concat(rh, rl);
                    }
                }
            }
        }
        // ite(c, k1, k2) op k3
        if let (Ite(c, x, y), Some(_)) = (self.n(a), cb) {
            if self.as_const(x).is_some() && self.as_const(y).is_some() {
                let p = self.bin(op, x, b);
                let q = self.bin(op, y, b);
                return self.ite(c, p, q);
            }
        }
        self.mk(Bin(op, a, b), w)
    }

    pub fn not(&mut self, a: Id) -> Id {
        debug_assert_eq!(self.w(a), 1);
        match self.n(a) {
            Const(c) => self.c(c ^ 1, 1),
            Not(x) => x,
            _ => self.mk(Not(a), 1),
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: Id, b: Id) -> Id { self.bin(Op::Or, a, b) }

    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {lo}+{w} of {wa}");
        if w == wa { return a }
        match self.n(a) {
            Const(c) => self.c(c >> lo, w),
            Extract(x, l) => self.extract(x, lo + l as u32, w),
            Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { self.extract(h, lo - wl, w) }
                else if lo + w <= wl { self.extract(l, lo, w) }
                else {
                    let ph = self.extract(h, 0, lo + w - wl);
                    let pl = self.extract(l, lo, wl - lo);
                    self.concat(ph, pl)
                }
            }
            SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            SExt(x) if lo < self.w(x) => { let wx = self.w(x); let p = self.extract(x, lo, wx - lo); self.sext(p, w) }
            SExt(x) => { let wx = self.w(x); let p = self.extract(x, wx - 1, 1); if w == 1 { p } else { self.sext(p, w) } }
            Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 && (self.lz(x) > 0 || self.lz(y) > 0 || self.as_const(y).is_some()) => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                self.bin(op, p, q)
            }
            Ite(c, x, y) if matches!(self.n(x), Const(_) | Concat(..)) || matches!(self.n(y), Const(_) | Concat(..)) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            _ => self.mk(Extract(a, lo as u8), w),
        }
    }

    fn merge(&mut self, h: Id, l: Id) -> Option<Id> {
        let (wh, wl) = (self.w(h), self.w(l));
        match (self.n(h), self.n(l)) {
            (Const(a), Const(b)) if wh + wl <= 128 => Some(self.c((a << wl) | b, wh + wl)),
            (Extract(x, lh), Extract(y, ll)) if x == y && lh as u32 == ll as u32 + wl => Some(self.extract(x, ll as u32, wh + wl)),
            (Extract(x, lh), _) if x == l && lh as u32 == wl => None,
            _ => None,
        }
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let w = self.w(h) + self.w(l);
        if let Some(m) = self.merge(h, l) { return m }
        if let Concat(a, b) = self.n(h) { let r = self.concat(b, l); return self.concat(a, r) }
        if let Concat(a, b) = self.n(l) {
            if let Some(m) = self.merge(h, a) { return self.concat(m, b) }
        }
        self.mk(Concat(h, l), w)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w { return a }
        let z = self.c(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w { return a }
        match self.n(a) {
            Const(c) => self.c(sx(c, wa) as u128, w),
            SExt(x) => self.sext(x, w),
            _ if self.lz(a) > 0 => self.zext(a, w),
            _ => self.mk(SExt(a), w),
        }
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Const(k) = self.n(c) { return if k == 1 { a } else { b } }
        if a == b { return a }
        if let Not(x) = self.n(c) { return self.ite(x, b, a) }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b) }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a) }
                _ => {}
            }
        }
        if let Ite(c2, x, _) = self.n(a) { if c2 == c { return self.ite(c, x, b) } }
        if let Ite(c2, _, y) = self.n(b) { if c2 == c { return self.ite(c, a, y) } }
        // Pull out common constant high parts.
        let (za, zb) = (self.lz(a), self.lz(b));
        let z = za.min(zb);
        if z > 0 && z < w {
            let p = self.extract(a, 0, w - z);
            let q = self.extract(b, 0, w - z);
            let r = self.ite(c, p, q);
            return self.zext(r, w);
        }
        self.mk(Ite(c, a, b), w)
    }
    pub fn eq(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b { return self.c(1, 1) }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b) }
        if let (Const(x), Const(y)) = (self.n(a), self.n(b)) { return self.c((x == y) as u128, 1) }
        if w == 1 {
            if let Const(k) = self.n(b) { return if k == 1 { a } else { self.not(a) } }
        }
        if let Const(k) = self.n(b) {
            match self.n(a) {
                Concat(h, l) => {
                    let wl = self.w(l);
                    let kh = self.c(k >> wl, w - wl);
                    let kl = self.c(k, wl);
                    let p = self.eq(h, kh);
                    if self.as_const(p) == Some(0) { return p }
                    let q = self.eq(l, kl);
                    return self.and(p, q);
                }
                Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    return self.ite(c, p, q);
                }
                Bin(Op::Add, x, y) => if let Some(c1) = self.as_const(y) { let kk = self.c(k.wrapping_sub(c1), w); return self.eq(x, kk) },
                Bin(Op::Xor, x, y) => if let Some(c1) = self.as_const(y) { let kk = self.c(k ^ c1, w); return self.eq(x, kk) },
                SExt(x) => {
                    let wx = self.w(x);
                    let t = sx(k & mask(wx), wx) as u128 & mask(w);
                    if t != k { return self.c(0, 1) }
                    let kk = self.c(k, wx);
                    return self.eq(x, kk);
                }
                _ => {}
            }
        } else if let (Concat(h1, l1), Concat(h2, l2)) = (self.n(a), self.n(b)) {
            if self.w(l1) == self.w(l2) {
                let p = self.eq(h1, h2);
                if self.as_const(p) == Some(0) { return p }
                let q = self.eq(l1, l2);
                return self.and(p, q);
            }
        }
        // Common known-zero high bits.
        let z = self.lz(a).min(self.lz(b));
        if z > 0 && z < w {
            let p = self.extract(a, 0, w - z);
            let q = self.extract(b, 0, w - z);
            return self.eq(p, q);
        }
        self.mk(Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.c(0, 1) }
        let w = self.w(a);
        if let (Const(x), Const(y)) = (self.n(a), self.n(b)) { return self.c((x < y) as u128, 1) }
        if w == 1 { let n = self.not(a); return self.and(n, b) }
        let (za, zb) = (self.lz(a), self.lz(b));
        if let Const(k) = self.n(b) {
            if k == 0 { return self.c(0, 1) }
            if k > mask(w - za) || za == w { return self.c(1, 1) }
            if k == 1 { let z = self.c(0, w); return self.eq(a, z) }
            if k == mask(w) { let e = self.eq(a, b); return self.not(e) }
        }
        if let Const(k) = self.n(a) {
            if k >= mask(w - zb) || zb == w { return self.c(0, 1) }
            if k == 0 { let e = self.eq(a, b); return self.not(e) }
        }
        let z = za.min(zb);
        if z > 0 && z < w {
            let p = self.extract(a, 0, w - z);
            let q = self.extract(b, 0, w - z);
            return self.ult(p, q);
        }
        // x / d < k, k < x / d
        if let (Bin(Op::UDiv, x, y), Const(k)) = (self.n(a), self.n(b)) {
            if let Some(d) = self.as_const(y) { if d != 0 { return match k.checked_mul(d) { Some(m) if m <= mask(w) => { let c = self.c(m, w); self.ult(x, c) } _ => self.c(1, 1) } } }
        }
        if let (Const(k), Bin(Op::UDiv, x, y)) = (self.n(a), self.n(b)) {
            if let Some(d) = self.as_const(y) { if d != 0 { let n = self.c(k + 1, w); let l = self.bin(Op::UDiv, x, y); let r = self.ult(l, n); return self.not(r) } }
        }
        if let (Ite(c, x, y), Const(_)) = (self.n(a), self.n(b)) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(c, p, q);
            }
        }
        self.mk(Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.c(0, 1) }
        let w = self.w(a);
        if let (Const(x), Const(y)) = (self.n(a), self.n(b)) { return self.c((sx(x, w) < sx(y, w)) as u128, 1) }
        if self.lz(a) > 0 && self.lz(b) > 0 { return self.ult(a, b) }
        if self.as_const(b) == Some(0) { return self.extract(a, w - 1, 1) }
        if self.as_const(a) == Some(mask(w)) { let t = self.extract(b, w - 1, 1); return self.not(t) }
        if let (SExt(x), Const(k)) = (self.n(a), self.n(b)) {
            let wx = self.w(x);
            if sx(k & mask(wx), wx) as u128 & mask(w) == k { let kk = self.c(k, wx); return self.slt(x, kk) }
        }
        self.mk(Slt(a, b), 1)
    }

    pub fn eval(&self, i: Id, m: &Model) -> u128 {
        let (n, w) = self.nodes[i as usize];
        let w = w as u32;
        match n {
            Const(c) => return c,
            Sym(k) => return m.bytes.get(k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if let Some(&v) = m.memo.borrow().get(&i) { return v }
        let r = match n {
            Const(_) | Sym(_) => unreachable!(),
            Bin(op, a, b) => fold(op, self.eval(a, m), self.eval(b, m), w),
            Not(a) => self.eval(a, m) ^ 1,
            SExt(a) => sx(self.eval(a, m), self.w(a)) as u128 & mask(w),
            Extract(a, lo) => (self.eval(a, m) >> lo) & mask(w),
            Concat(h, l) => (self.eval(h, m) << self.w(l)) | self.eval(l, m),
            Ite(c, a, b) => if self.eval(c, m) == 1 { self.eval(a, m) } else { self.eval(b, m) },
            Eq(a, b) => (self.eval(a, m) == self.eval(b, m)) as u128,
            Ult(a, b) => (self.eval(a, m) < self.eval(b, m)) as u128,
            Slt(a, b) => { let wa = self.w(a); (sx(self.eval(a, m), wa) < sx(self.eval(b, m), wa)) as u128 }
        };
        m.memo.borrow_mut().insert(i, r);
        r
    }
}

/// Checks the simplifier: random operation sequences must evaluate, under random inputs, to what the plain
/// operations give.
pub fn selftest(seed: u64, n: usize) -> usize {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let mut checks = 0;
    for _ in 0..n {
        let mut ar = Arena::new();
        let bytes: Vec<u8> = (0..6).map(|_| { let r = rnd(); if r & 7 == 0 { 0 } else if r & 7 == 1 { 255 } else { (r >> 8) as u8 } }).collect();
        let m = Model::new(bytes.clone());
        let mut pool: Vec<(Id, u128, u32)> = (0..6).map(|i| { let id = ar.sym(i); (id, bytes[i as usize] as u128, 8) }).collect();
        for _ in 0..60 {
            let (a, va, wa) = pool[(rnd() % pool.len() as u64) as usize];
            let k = rnd() % 24;
            let (id, v, w) = match k {
                0..=12 => {
                    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor];
                    let op = ops[k as usize];
                    let (b, vb) = if rnd() % 2 == 0 {
                        let c = match rnd() % 5 { 0 => 0, 1 => 1, 2 => (1u128 << (rnd() % wa as u64)) - 1, 3 => rnd() as u128 % (wa as u128 + 1), _ => rnd() as u128 } & mask(wa);
                        (ar.c(c, wa), c)
                    } else {
                        let (b, vb, wb) = pool[(rnd() % pool.len() as u64) as usize];
                        if wb == wa { (b, vb) } else if wb > wa { (ar.extract(b, 0, wa), vb & mask(wa)) } else { (ar.zext(b, wa), vb) }
                    };
                    (ar.bin(op, a, b), fold(op, va, vb, wa), wa)
                }
                13 | 14 => { let w = 1 + (rnd() % wa as u64) as u32; let lo = (rnd() % (wa - w + 1) as u64) as u32; (ar.extract(a, lo, w), (va >> lo) & mask(w), w) }
                15 | 16 => { let (b, vb, wb) = pool[(rnd() % pool.len() as u64) as usize]; if wa + wb > 128 { continue } (ar.concat(a, b), (va << wb) | vb, wa + wb) }
                17 => { let w = wa + (rnd() % (129 - wa) as u64) as u32; (ar.zext(a, w), va, w) }
                18 => { let w = wa + (rnd() % (129 - wa) as u64) as u32; (ar.sext(a, w), sx(va, wa) as u128 & mask(w), w) }
                19 => { if wa != 1 { continue } (ar.not(a), va ^ 1, 1) }
                20 => {
                    let c = pool.iter().rev().find(|p| p.2 == 1).copied();
                    let (c, vc, _) = match c { Some(c) => c, None => continue };
                    let (b, vb, wb) = pool[(rnd() % pool.len() as u64) as usize];
                    let (b, vb) = if wb == wa { (b, vb) } else if wb > wa { (ar.extract(b, 0, wa), vb & mask(wa)) } else { (ar.zext(b, wa), vb) };
                    (ar.ite(c, a, b), if vc == 1 { va } else { vb }, wa)
                }
                _ => {
                    let (b, vb) = if rnd() % 2 == 0 { let c = if rnd() % 3 == 0 { va } else { rnd() as u128 % 300 } & mask(wa); (ar.c(c, wa), c) } else {
                        let (b, vb, wb) = pool[(rnd() % pool.len() as u64) as usize];
                        if wb == wa { (b, vb) } else if wb > wa { (ar.extract(b, 0, wa), vb & mask(wa)) } else { (ar.zext(b, wa), vb) }
                    };
                    match k { 21 => (ar.eq(a, b), (va == vb) as u128, 1), 22 => (ar.ult(a, b), (va < vb) as u128, 1), _ => (ar.slt(a, b), (sx(va, wa) < sx(vb, wa)) as u128, 1) }
                }
            };
            assert_eq!(ar.w(id), w, "width");
            assert_eq!(ar.eval(id, &m), v, "simplifier is wrong: {:?} w={w}", ar.n(id));
            checks += 1;
            pool.push((id, v, w));
        }
    }
    checks
}
