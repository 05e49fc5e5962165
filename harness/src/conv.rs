//! What each shipped target should be given a decoded value: a second reading of the conversion rules, over `Node`s
//! rather than bytes, and the comparison of the two.
use crate::model::*;
use crate::sym::*;
use codec::Compact;
use core::marker::PhantomData;
use core::num::*;
use core::ops::{Range, RangeInclusive};
use core::time::Duration;
use scale_bits::Bits;
use scale_decode::error::{ErrorKind, Location};
use scale_decode::visitor::{DecodeError, Unexpected};
use scale_decode::{DecodeAsType, Error};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Unexpected(Unexpected),
    OutOfRange,
    NoVariant(&'static str),
    /// actual, expected
    WrongLength(usize, usize),
    NoField(&'static str),
    BadStr,
    Custom,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Loc { F(&'static str), I(usize), V(&'static str) }
/// Why a value does not fit a target, and where (innermost first).
#[derive(Clone, PartialEq, Debug)]
pub struct Er { pub k: K, pub path: Vec<Loc> }
pub fn er(k: K) -> Er { Er { k, path: vec![] } }
impl Er {
    pub fn at(mut self, l: Loc) -> Er { self.path.push(l); self }
}

pub fn unexpected(v: &Val) -> Unexpected {
    match v {
        Val::Bool(_) => Unexpected::Bool,
        Val::Char(_) => Unexpected::Char,
        Val::U(8, _) => Unexpected::U8,
        Val::U(16, _) => Unexpected::U16,
        Val::U(32, _) => Unexpected::U32,
        Val::U(64, _) => Unexpected::U64,
        Val::U(..) => Unexpected::U128,
        Val::I(8, _) => Unexpected::I8,
        Val::I(16, _) => Unexpected::I16,
        Val::I(32, _) => Unexpected::I32,
        Val::I(64, _) => Unexpected::I64,
        Val::I(..) => Unexpected::I128,
        Val::U256(_) => Unexpected::U256,
        Val::I256(_) => Unexpected::I256,
        Val::Str(_) => Unexpected::Str,
        Val::Seq(_) => Unexpected::Sequence,
        Val::Array(_) => Unexpected::Array,
        Val::Tuple(_) => Unexpected::Tuple,
        Val::Composite(_) => Unexpected::Composite,
        Val::Variant(..) => Unexpected::Variant,
        Val::Bits(_) => Unexpected::Bitsequence,
    }
}
pub fn unfit<T>(n: &Node) -> Result<T, Er> { Err(er(K::Unexpected(unexpected(&n.v)))) }

/// The type an item of `n` is declared with (before any compact wrapper is taken off).
pub fn declared(t: &Types, n: &Node, i: usize) -> u32 {
    match (&t.0[n.id as usize], &n.v) {
        (Def::Seq(x), _) | (Def::Array(x, _), _) => *x,
        (Def::Tuple(x), _) => x[i],
        (Def::Composite(_, f), _) => f[i].1,
        (Def::Variant(vs), Val::Variant(ix, _, _)) => vs.iter().find(|v| v.0 == *ix).unwrap().2[i].1,
        _ => unreachable!(),
    }
}

/// `t` the types, `id` the type the value was declared with, `n` the value.
pub trait Conv: Sized {
    fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er>;
    fn same(&self, o: &Self) -> bool;
}
macro_rules! by_eq { () => { fn same(&self, o: &Self) -> bool { self == o } } }

/// The value inside a single-field composite or tuple, if that is what `n` is.
pub fn single<'a>(t: &Types, n: &'a Node) -> Result<Option<(u32, &'a Node)>, Er> {
    match &n.v {
        Val::Composite(f) if f.len() == 1 => Ok(Some((declared(t, n, 0), &f[0].1))),
        Val::Tuple(f) if f.len() == 1 => Ok(Some((declared(t, n, 0), &f[0]))),
        Val::Composite(_) | Val::Tuple(_) => unfit(n),
        _ => Ok(None),
    }
}
macro_rules! through_single {
    ($t:ident, $n:ident) => { if let Some((i, m)) = single($t, $n)? { return Self::conv($t, i, m) } };
}

impl Conv for bool {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> { through_single!(t, n); if let Val::Bool(b) = n.v { Ok(b) } else { unfit(n) } }
    by_eq!();
}
impl Conv for char {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> { through_single!(t, n); if let Val::Char(b) = n.v { Ok(b) } else { unfit(n) } }
    by_eq!();
}
/// Well-formed UTF-8, by the table in the Unicode standard (no code in common with core's validator).
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let tail = |j: usize, lo: u8, hi: u8| j < b.len() && b[j] >= lo && b[j] <= hi;
    while i < b.len() {
        let x = b[i];
        i += if x <= 0x7f { 1 }
        else if x >= 0xc2 && x <= 0xdf && tail(i + 1, 0x80, 0xbf) { 2 }
        else if x == 0xe0 && tail(i + 1, 0xa0, 0xbf) && tail(i + 2, 0x80, 0xbf) { 3 }
        else if x == 0xed && tail(i + 1, 0x80, 0x9f) && tail(i + 2, 0x80, 0xbf) { 3 }
        else if x >= 0xe1 && x <= 0xef && x != 0xed && tail(i + 1, 0x80, 0xbf) && tail(i + 2, 0x80, 0xbf) { 3 }
        else if x == 0xf0 && tail(i + 1, 0x90, 0xbf) && tail(i + 2, 0x80, 0xbf) && tail(i + 3, 0x80, 0xbf) { 4 }
        else if x >= 0xf1 && x <= 0xf3 && tail(i + 1, 0x80, 0xbf) && tail(i + 2, 0x80, 0xbf) && tail(i + 3, 0x80, 0xbf) { 4 }
        else if x == 0xf4 && tail(i + 1, 0x80, 0x8f) && tail(i + 2, 0x80, 0xbf) && tail(i + 3, 0x80, 0xbf) { 4 }
        else { return false };
    }
    true
}
impl Conv for String {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        through_single!(t, n);
        if let Val::Str(b) = &n.v {
            if !utf8(b) { return Err(er(K::BadStr)) }
            Ok(unsafe { String::from_utf8_unchecked(b.clone()) })
        } else { unfit(n) }
    }
    by_eq!();
}
impl Conv for Bits {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        through_single!(t, n);
        if let Val::Bits(b) = &n.v { Ok(b.iter().copied().collect()) } else { unfit(n) }
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() { return false }
        let mut i = 0;
        while i < self.len() { if self.get(i) != o.get(i) { return false } i += 1 }
        true
    }
}
/// The mathematical value of an integer, as sign and magnitude.
pub fn number(v: &Val) -> Option<(bool, u128)> {
    match v {
        Val::U(_, x) => Some((false, *x)),
        Val::I(_, x) => Some((*x < 0, if *x < 0 { (*x as u128).wrapping_neg() } else { *x as u128 })),
        _ => None,
    }
}
macro_rules! ints {
    ($($ty:ident $bits:literal $signed:literal $nz:ident $zero_ok:literal $make:expr;)*) => { $(
        impl Conv for $ty {
            fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
                through_single!(t, n);
                let Some((neg, mag)) = number(&n.v) else { return unfit(n) };
                let top: u128 = if $signed { 1u128 << ($bits - 1) } else { 0 };
                let fits = if !$signed { !neg && ($bits == 128 || mag >> ($bits % 128) == 0) } else if neg { mag <= top } else { mag < top };
                if !fits || (!$zero_ok && mag == 0) { return Err(er(K::OutOfRange)) }
                let v = if neg { mag.wrapping_neg() } else { mag };
                Ok($make(v as $nz))
            }
            by_eq!();
        }
    )* };
}
ints! {
    u8 8 false u8 true |x| x; u16 16 false u16 true |x| x; u32 32 false u32 true |x| x; u64 64 false u64 true |x| x; u128 128 false u128 true |x| x; usize 64 false usize true |x| x;
    i8 8 true i8 true |x| x; i16 16 true i16 true |x| x; i32 32 true i32 true |x| x; i64 64 true i64 true |x| x; i128 128 true i128 true |x| x; isize 64 true isize true |x| x;
    NonZeroU8 8 false u8 false |x| unsafe { NonZeroU8::new_unchecked(x) }; NonZeroU16 16 false u16 false |x| unsafe { NonZeroU16::new_unchecked(x) };
    NonZeroU32 32 false u32 false |x| unsafe { NonZeroU32::new_unchecked(x) }; NonZeroU64 64 false u64 false |x| unsafe { NonZeroU64::new_unchecked(x) };
    NonZeroU128 128 false u128 false |x| unsafe { NonZeroU128::new_unchecked(x) };
    NonZeroI8 8 true i8 false |x| unsafe { NonZeroI8::new_unchecked(x) }; NonZeroI16 16 true i16 false |x| unsafe { NonZeroI16::new_unchecked(x) };
    NonZeroI32 32 true i32 false |x| unsafe { NonZeroI32::new_unchecked(x) }; NonZeroI64 64 true i64 false |x| unsafe { NonZeroI64::new_unchecked(x) };
    NonZeroI128 128 true i128 false |x| unsafe { NonZeroI128::new_unchecked(x) };
}

/// The items of a sequence or array, each converted.
pub fn items<T: Conv>(t: &Types, n: &Node) -> Option<Result<Vec<T>, Er>> {
    let (Val::Seq(v) | Val::Array(v)) = &n.v else { return None };
    let mut o = vec![];
    for (i, x) in v.iter().enumerate() {
        match T::conv(t, declared(t, n, i), x) { Ok(x) => o.push(x), Err(e) => return Some(Err(e.at(Loc::I(i)))) }
    }
    Some(Ok(o))
}
pub fn all_same<'a, T: Conv + 'a>(a: impl ExactSizeIterator<Item = &'a T>, b: impl ExactSizeIterator<Item = &'a T>) -> bool {
    if a.len() != b.len() { return false }
    for (x, y) in a.zip(b) { if !x.same(y) { return false } }
    true
}
macro_rules! collections {
    ($($ty:ident $(where $o:ident)?;)*) => { $(
        impl<T: Conv $(+ $o)?> Conv for $ty<T> {
            fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
                through_single!(t, n);
                match items::<T>(t, n) { None => unfit(n), Some(r) => r.map(|v| v.into_iter().collect()) }
            }
            fn same(&self, o: &Self) -> bool { all_same(self.iter(), o.iter()) }
        }
    )* };
}
collections! { Vec; VecDeque; LinkedList; BTreeSet where Ord; }
impl<T: Conv + Ord + Clone> Conv for BinaryHeap<T> {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        through_single!(t, n);
        match items::<T>(t, n) { None => unfit(n), Some(r) => r.map(|v| v.into_iter().collect()) }
    }
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (self.clone().into_sorted_vec(), o.clone().into_sorted_vec());
        all_same(a.iter(), b.iter())
    }
}
impl<T: Conv, const N: usize> Conv for [T; N] {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        through_single!(t, n);
        match items::<T>(t, n) {
            None => unfit(n),
            Some(r) => { let v = r?; let k = v.len(); v.try_into().map_err(|_| er(K::WrongLength(k, N))) }
        }
    }
    fn same(&self, o: &Self) -> bool { all_same(self.iter(), o.iter()) }
}
impl<T: Conv> Conv for BTreeMap<String, T> {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        let Val::Composite(f) = &n.v else { return unfit(n) };
        let mut m = BTreeMap::new();
        for (i, (name, x)) in f.iter().enumerate() {
            if let Some(name) = name { m.insert(name.to_string(), T::conv(t, declared(t, n, i), x).map_err(|e| e.at(Loc::F(name)))?); }
        }
        Ok(m)
    }
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() { return false }
        for (a, b) in self.iter().zip(o.iter()) { if a.0 != b.0 || !a.1.same(b.1) { return false } }
        true
    }
}
impl<T: Conv> Conv for Option<T> {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        through_single!(t, n);
        let Val::Variant(_, name, f) = &n.v else { return unfit(n) };
        match (*name, f.len()) {
            ("Some", 1) => Ok(Some(T::conv(t, declared(t, n, 0), &f[0].1).map_err(|e| e.at(Loc::V("Some")))?)),
            ("None", 0) => Ok(None),
            _ => Err(er(K::NoVariant(name))),
        }
    }
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
}
impl<T: Conv, E: Conv> Conv for Result<T, E> {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        through_single!(t, n);
        let Val::Variant(_, name, f) = &n.v else { return unfit(n) };
        match (*name, f.len()) {
            ("Ok", 1) => Ok(Ok(T::conv(t, declared(t, n, 0), &f[0].1).map_err(|e| e.at(Loc::V("Ok")))?)),
            ("Err", 1) => Ok(Err(E::conv(t, declared(t, n, 0), &f[0].1).map_err(|e| e.at(Loc::V("Err")))?)),
            _ => Err(er(K::NoVariant(name))),
        }
    }
    fn same(&self, o: &Self) -> bool { match (self, o) { (Ok(a), Ok(b)) => a.same(b), (Err(a), Err(b)) => a.same(b), _ => false } }
}

/// The items of a composite or tuple, whatever their names.
pub fn positional<'a>(n: &'a Node) -> Option<Vec<&'a Node>> {
    match &n.v {
        Val::Composite(f) => Some(f.iter().map(|x| &x.1).collect()),
        Val::Tuple(f) => Some(f.iter().collect()),
        _ => None,
    }
}
macro_rules! tuples {
    ($( ($n:literal $($t:ident $i:tt)*) )*) => { $(
        impl<$($t: Conv),*> Conv for ($($t,)*) {
            #[allow(unreachable_code)]
            fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> {
                if $n == 1 && !matches!(t.0[id as usize], Def::Composite(..) | Def::Tuple(..)) {
                    return one_tuple!(t, id, n; $($t)*);
                }
                let Some(f) = positional(n) else { return unfit(n) };
                if f.len() != $n { return Err(er(K::WrongLength(f.len(), $n))) }
                Ok(($( $t::conv(t, declared(t, n, $i), f[$i]).map_err(|e| e.at(Loc::I($i)))?, )*))
            }
            fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
        }
    )* };
}
macro_rules! one_tuple {
    ($x:ident, $id:ident, $n:ident; $t:ident) => { <$t>::conv($x, $id, $n).map(|v| (v,)) };
    ($x:ident, $id:ident, $n:ident; $($t:tt)*) => { unreachable!() };
}
tuples! {
    (0) (1 A 0) (2 A 0 B 1) (3 A 0 B 1 C 2) (4 A 0 B 1 C 2 D 3) (5 A 0 B 1 C 2 D 3 E 4) (6 A 0 B 1 C 2 D 3 E 4 F 5)
    (7 A 0 B 1 C 2 D 3 E 4 F 5 G 6) (8 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7) (9 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8) (10 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9)
    (11 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10) (12 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11)
    (13 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12) (14 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12 N 13)
    (15 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12 N 13 O 14)
    (16 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12 N 13 O 14 P 15)
    (17 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12 N 13 O 14 P 15 Q 16)
    (18 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12 N 13 O 14 P 15 Q 16 R 17)
    (19 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12 N 13 O 14 P 15 Q 16 R 17 S 18)
    (20 A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 KK 10 L 11 M 12 N 13 O 14 P 15 Q 16 R 17 S 18 U 19)
}

macro_rules! forwards {
    ($($ty:ident $make:expr;)*) => { $(
        impl<T: Conv> Conv for $ty<T> {
            fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> { T::conv(t, id, n).map($make) }
            fn same(&self, o: &Self) -> bool { (**self).same(&**o) }
        }
    )* };
}
forwards! { Box Box::new; Rc Rc::new; Arc Arc::new; }
impl<T: Conv> Conv for Compact<T> {
    fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> { T::conv(t, id, n).map(Compact) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
}
impl<T: Conv> Conv for Range<T> {
    fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> { <(T, T)>::conv(t, id, n).map(|x| x.0..x.1) }
    fn same(&self, o: &Self) -> bool { self.start.same(&o.start) && self.end.same(&o.end) }
}
impl<T: Conv> Conv for RangeInclusive<T> {
    fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> { <(T, T)>::conv(t, id, n).map(|x| x.0..=x.1) }
    fn same(&self, o: &Self) -> bool { self.start().same(o.start()) && self.end().same(o.end()) }
}
impl Conv for Cow<'static, str> {
    fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> { String::conv(t, id, n).map(Cow::Owned) }
    by_eq!();
}
impl<T: Conv + Clone + 'static> Conv for Cow<'static, [T]> {
    fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> { Vec::<T>::conv(t, id, n).map(Cow::Owned) }
    fn same(&self, o: &Self) -> bool { all_same(self.iter(), o.iter()) }
}
impl Conv for Duration {
    fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> {
        let (s, n) = <(u64, u32)>::conv(t, id, n)?;
        let secs = s as u128 + (n / 1_000_000_000) as u128;
        if secs > u64::MAX as u128 { return Err(er(K::Custom)) }
        Ok(Duration::new(secs as u64, n % 1_000_000_000))
    }
    fn same(&self, o: &Self) -> bool { self.as_secs() == o.as_secs() && self.subsec_nanos() == o.subsec_nanos() }
}
impl<T> Conv for PhantomData<T> {
    fn conv(_t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        match &n.v { Val::Tuple(f) if f.is_empty() => Ok(PhantomData), Val::Composite(f) if f.is_empty() => Ok(PhantomData), _ => unfit(n) }
    }
    fn same(&self, _: &Self) -> bool { true }
}
macro_rules! hashes {
    ($($ty:ident $n:literal;)*) => { $(
        impl Conv for primitive_types::$ty {
            fn conv(t: &Types, id: u32, n: &Node) -> Result<Self, Er> { <[u8; $n]>::conv(t, id, n).map(primitive_types::$ty) }
            fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
        }
    )* };
}
hashes! { H128 16; H160 20; H256 32; H384 48; H512 64; H768 96; }

/// The fields of a composite, tuple or variant as a derived struct sees them.
pub struct Fs<'a> { t: &'a Types, n: &'a Node, f: Vec<(Name, &'a Node)>, by_name: bool, next: usize, all: usize }
impl<'a> Fs<'a> {
    /// A struct or variant with `count` named fields (skipped ones not counted).
    pub fn named(t: &'a Types, n: &'a Node, count: usize) -> Result<Fs<'a>, Er> {
        if let Val::Variant(..) = n.v { return unfit(n) }
        Fs::variant_named(t, n, count)
    }
    /// One with `count` unnamed fields.
    pub fn unnamed(t: &'a Types, n: &'a Node, count: usize) -> Result<Fs<'a>, Er> {
        if let Val::Variant(..) = n.v { return unfit(n) }
        Fs::variant_unnamed(t, n, count)
    }
    /// The same for the fields of a variant.
    pub fn variant_named(t: &'a Types, n: &'a Node, count: usize) -> Result<Fs<'a>, Er> {
        let f: Vec<(Name, &'a Node)> = match &n.v {
            Val::Composite(f) | Val::Variant(_, _, f) => f.iter().map(|x| (x.0, &x.1)).collect(),
            Val::Tuple(f) => f.iter().map(|x| (None, x)).collect(),
            _ => return unfit(n),
        };
        let by_name = !matches!(n.v, Val::Tuple(_)) && f.iter().all(|x| x.0.is_some());
        if !by_name && f.len() != count { return Err(er(K::WrongLength(f.len(), count))) }
        Ok(Fs { t, n, f, by_name, next: 0, all: 0 })
    }
    pub fn variant_unnamed(t: &'a Types, n: &'a Node, count: usize) -> Result<Fs<'a>, Er> {
        let mut r = Fs::variant_named(t, n, usize::MAX);
        if let Err(Er { k: K::WrongLength(a, _), .. }) = r {
            if a != count { return Err(er(K::WrongLength(a, count))) }
            r = Fs::variant_named(t, n, a);
        }
        let mut r = r?;
        if r.f.len() != count { return Err(er(K::WrongLength(r.f.len(), count))) }
        r.by_name = false;
        Ok(r)
    }
    /// The next named target field.
    pub fn field<T: Conv>(&mut self, name: &'static str) -> Result<T, Er> {
        let i = if self.by_name {
            let mut at = None;
            for (i, x) in self.f.iter().enumerate() { if x.0 == Some(name) { at = Some(i) } }
            at.ok_or(er(K::NoField(name)))?
        } else { self.next += 1; self.next - 1 };
        T::conv(self.t, declared(self.t, self.n, i), self.f[i].1).map_err(|e| e.at(Loc::F(name)))
    }
    /// The next unnamed target field.
    pub fn item<T: Conv>(&mut self) -> Result<T, Er> {
        let i = self.next;
        self.next += 1;
        self.all += 1;
        let at = self.all - 1;
        T::conv(self.t, declared(self.t, self.n, i), self.f[i].1).map_err(|e| e.at(Loc::I(at)))
    }
    /// A skipped target field: its default, but it counts as a position of the target.
    pub fn skipped<T: Default>(&mut self) -> T { self.all += 1; T::default() }
}

pub const KIND: u8 = 1;
pub const PATH: u8 = 2;
pub const CURSOR: u8 = 4;
/// Only look at valid encodings.
pub const VALID: u8 = 8;

fn same_kind(e: &ErrorKind, k: &K) -> bool {
    match (e, k) {
        (ErrorKind::VisitorDecodeError(DecodeError::Unexpected(a)), K::Unexpected(b)) => a == b,
        (ErrorKind::VisitorDecodeError(DecodeError::InvalidStr(_)), K::BadStr) => true,
        (ErrorKind::NumberOutOfRange { .. }, K::OutOfRange) => true,
        (ErrorKind::CannotFindVariant { got, .. }, K::NoVariant(n)) => got == n,
        (ErrorKind::WrongLength { actual_len, expected_len }, K::WrongLength(a, b)) => actual_len == a && expected_len == b,
        (ErrorKind::CannotFindField { name }, K::NoField(n)) => name == n,
        (ErrorKind::Custom(_), K::Custom) => true,
        _ => false,
    }
}
pub fn kind_code(e: &ErrorKind) -> u8 {
    match e {
        ErrorKind::VisitorDecodeError(d) => crate::visit::err_code(d),
        ErrorKind::NumberOutOfRange { .. } => 101,
        ErrorKind::CannotFindVariant { .. } => 102,
        ErrorKind::WrongLength { .. } => 103,
        ErrorKind::CannotFindField { .. } => 104,
        ErrorKind::Custom(_) => 105,
    }
}
fn same_path(e: &Error, p: &[Loc]) -> bool {
    let path = e.context().path();
    let mut it = path.locations();
    for l in p {
        let want = match l { Loc::F(n) => Location::field(*n), Loc::I(i) => Location::idx(*i), Loc::V(n) => Location::variant(*n) };
        if it.next() != Some(&want) { return false }
    }
    it.next().is_none()
}
/// Compare the outcome of a decode with what the reference says.
pub fn judge<T: Conv>(t: &Types, id: u32, want: Result<Node, Bad>, left: usize, got: Result<T, Error>, rest: usize, what: u8) {
    match (got, want) {
        (Ok(g), Ok(n)) => match T::conv(t, id, &n) {
            Ok(w) => {
                check(g.same(&w), "decoded to another value than the encoded one");
                check(left == rest, "the input was not advanced by exactly the encoding of the value");
                cover("value");
                out_node(&n);
            }
            Err(_) => fail("a value that does not fit the target was decoded into it"),
        },
        (Err(e), Ok(n)) => match T::conv(t, id, &n) {
            Ok(_) => fail("a valid encoding of a value that fits the target was rejected"),
            Err(w) => {
                if what & KIND != 0 { check(same_kind(e.kind(), &w.k), "the wrong kind of error was returned") }
                if what & PATH != 0 { check(same_path(&e, &w.path), "the error does not name the place it happened") }
                if what & CURSOR != 0 { check(left == rest, "the input was not advanced past a value that did not fit the target") }
                cover("unfit");
                out(&[kind_code(e.kind())]);
            }
        },
        (Ok(_), Err(_)) => fail("a value was produced from bytes that are no encoding of the type"),
        (Err(_), Err(_)) => { cover("malformed"); out(&[0]) }
    }
}
pub fn diff<T: Conv + DecodeAsType>(t: &Types, id: u32, b: &[u8], what: u8) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    if want == Err(Bad::TooLong) || (what & VALID != 0 && want.is_err()) { return }
    let mut c = b;
    let got = T::decode_as_type(&mut c, id, t);
    judge(t, id, want, s.len(), got, c.len(), what)
}
/// `each!(k; diff as A | B | C; t, id, b, what)`: the k-th of some targets.
#[macro_export]
macro_rules! each {
    ($k:expr; $f:ident as $($t:ty)|*; $a:tt) => {{ let mut k = $k; $( if k == 0 { $f::<$t> $a; return } k -= 1; )* unreachable!() }};
}
