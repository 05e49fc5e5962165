//! Derived targets, each with what it should be given (by hand, independent of the derive macro).
use crate::conv::*;
use crate::{model::*, sym::pick};
use codec::Compact;
use scale_decode::DecodeAsType;

macro_rules! same_fields { ($($f:tt)*) => { fn same(&self, o: &Self) -> bool { true $(&& self.$f.same(&o.$f))* } } }
pub(crate) use same_fields;

/// Named fields: `named!(Name { a: A, b: B })`.
macro_rules! named {
    ($($name:ident { $($f:ident : $t:ty),* $(,)? })*) => { $(
        #[derive(DecodeAsType, Clone, Debug, PartialEq)]
        pub struct $name { $(pub $f: $t),* }
        impl Conv for $name {
            fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
                #[allow(unused_mut)]
                let names: &[&str] = &[$(stringify!($f)),*];
                #[allow(unused_mut)]
                let mut f = Fs::named(t, n, names.len())?;
                Ok($name { $($f: f.field(stringify!($f))?),* })
            }
            same_fields!($($f)*);
        }
    )* };
}
pub(crate) use named;
macro_rules! unnamed {
    ($($name:ident ( $($i:tt $t:ty),* $(,)? ))*) => { $(
        #[derive(DecodeAsType, Clone, Debug, PartialEq)]
        pub struct $name ( $(pub $t),* );
        impl Conv for $name {
            fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
                let idx: &[usize] = &[$($i),*];
                #[allow(unused_mut)]
                let mut f = Fs::unnamed(t, n, idx.len())?;
                Ok($name ( $({ let _ = $i; f.item::<$t>()? }),* ))
            }
            same_fields!($($i)*);
        }
    )* };
}
pub(crate) use unnamed;

#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub struct Unit;
impl Conv for Unit {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> { Fs::unnamed(t, n, 0)?; Ok(Unit) }
    fn same(&self, _: &Self) -> bool { true }
}
named! {
    N0 {}
    N1 { a: u8 }
    N2 { a: u8, b: bool }
    N3 { a: u8, b: bool, c: u16 }
    // Declared out of alphabetical order, with names that are prefixes of each other.
    NOdd { b: bool, ab: u8, a: u16 }
    NNest { a: N1, b: Vec<u8> }
    NOpt { a: Option<u8>, b: Option<bool> }
    NCompact { a: Compact<u32> }
    NWide { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8 }
    NStr { a: String, b: u8 }
    NU64 { a: u64 }
    NLong { a_field_whose_name_goes_on_for_quite_a_while_before_it_ends_as_x: u8, a_field_whose_name_goes_on_for_quite_a_while_before_it_ends_as_y: bool }
    NUni { größe: u8, größ: bool, Größe: u16 }
}
unnamed! {
    T1(0 u8)
    T2(0 u8, 1 bool)
    T3(0 u8, 1 bool, 2 u16)
    TU64(0 u64)
    TNest(0 T1, 1 N1)
    TWide(0 u8, 1 u8, 2 u8, 3 u8, 4 u8, 5 u8, 6 u8, 7 u8, 8 u8, 9 u8, 10 u8, 11 u8, 12 u8, 13 u8, 14 u8, 15 u8, 16 u8, 17 u8)
}
macro_rules! skipping {
    ($($name:ident { $($f:ident : $t:ty = $how:ident),* $(,)? })*) => { $(
        impl Conv for $name {
            fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
                let count = [$(stringify!($how)),*].iter().filter(|h| **h == "field").count();
                let mut f = Fs::named(t, n, count)?;
                Ok($name { $($f: skipping!(@ f $how $f)),* })
            }
            same_fields!($($f)*);
        }
    )* };
    (@ $fs:ident field $f:ident) => { $fs.field(stringify!($f))? };
    (@ $fs:ident skipped $f:ident) => { $fs.skipped() };
}
/// Skipped in the middle.
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub struct NSkip { pub a: u8, #[decode_as_type(skip)] pub b: u32, pub c: bool }
/// Skipped first and last, beside other attributes, and by the codec's own attribute.
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub struct NSkipEnds { #[codec(skip)] pub a: u8, pub b: bool, #[decode_as_type(skip)] #[codec(compact)] pub c: u32 }
/// A skipped field may have a type that cannot be decoded at all.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Opaque(pub u8);
impl Conv for Opaque {
    fn conv(_: &Types, _: u32, _: &Node) -> Result<Self, Er> { unreachable!() }
    fn same(&self, o: &Self) -> bool { self == o }
}
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub struct NSkipOpaque { pub b: bool, #[decode_as_type(skip)] pub a: Opaque }
skipping! {
    NSkip { a: u8 = field, b: u32 = skipped, c: bool = field }
    NSkipEnds { a: u8 = skipped, b: bool = field, c: u32 = skipped }
    NSkipOpaque { b: bool = field, a: Opaque = skipped }
}
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub struct TSkip(pub u8, #[decode_as_type(skip)] pub u32, pub bool);
impl Conv for TSkip {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        let mut f = Fs::unnamed(t, n, 2)?;
        Ok(TSkip(f.item()?, f.skipped(), f.item()?))
    }
    same_fields!(0 1 2);
}
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub struct NGen<A, B> { pub a: A, pub b: B }
impl<A: Conv, B: Conv> Conv for NGen<A, B> {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        let mut f = Fs::named(t, n, 2)?;
        Ok(NGen { a: f.field("a")?, b: f.field("b")? })
    }
    same_fields!(a b);
}
/// A nested generic newtype.
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub struct TGen<A>(pub A);
impl<A: Conv> Conv for TGen<A> {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> { let mut f = Fs::unnamed(t, n, 1)?; Ok(TGen(f.item()?)) }
    same_fields!(0);
}
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub enum En { A, B(u8), C { x: u8, y: bool }, D(u8, u16) }
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub enum EnSkip { Z, D(u8, #[decode_as_type(skip)] u32), C { #[decode_as_type(skip)] x: u8, y: bool } }
/// The name and node of a variant, through single-field wrappers.
fn variant_of<'a>(t: &Types, n: &'a Node) -> Result<(&'static str, &'a Node), Er> {
    if let Some((_, m)) = single(t, n)? { return variant_of(t, m) }
    match &n.v { Val::Variant(_, name, _) => Ok((name, n)), _ => unfit(n) }
}
impl Conv for En {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        let (name, n) = variant_of(t, n)?;
        Ok(match name {
            "A" => En::A,
            "B" => { let mut f = Fs::variant_unnamed(t, n, 1)?; En::B(f.item()?) }
            "C" => { let mut f = Fs::variant_named(t, n, 2)?; En::C { x: f.field("x")?, y: f.field("y")? } }
            "D" => { let mut f = Fs::variant_unnamed(t, n, 2)?; En::D(f.item()?, f.item()?) }
            _ => return Err(er(K::NoVariant(name))),
        })
    }
    fn same(&self, o: &Self) -> bool { self == o }
}
impl Conv for EnSkip {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        let (name, n) = variant_of(t, n)?;
        Ok(match name {
            "Z" => EnSkip::Z,
            "D" => { let mut f = Fs::variant_unnamed(t, n, 1)?; EnSkip::D(f.item()?, f.skipped()) }
            "C" => { let mut f = Fs::variant_named(t, n, 1)?; EnSkip::C { x: f.skipped(), y: f.field("y")? } }
            _ => return Err(er(K::NoVariant(name))),
        })
    }
    fn same(&self, o: &Self) -> bool { self == o }
}

/// The k-th of the targets there are.
#[macro_export]
macro_rules! all_targets {
    ($k:expr; $f:ident $a:tt) => {{
        use core::{marker::PhantomData, num::*, ops::{Range, RangeInclusive}, time::Duration};
        use std::{borrow::Cow, collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque}, rc::Rc, sync::Arc};
        use codec::Compact;
        $crate::each!($k; $f as bool | char | u8 | u16 | u32 | u64 | u128 | usize | i8 | i16 | i32 | i64 | i128 | isize
            | NonZeroU8 | NonZeroU16 | NonZeroU32 | NonZeroU64 | NonZeroU128 | NonZeroI8 | NonZeroI16 | NonZeroI32 | NonZeroI64 | NonZeroI128
            | String | scale_bits::Bits | Vec<u8> | VecDeque<bool> | LinkedList<u16> | BTreeSet<u8> | BinaryHeap<u8> | [u8; 2] | [bool; 0] | Vec<Vec<u8>> | Vec<(u8, bool)>
            | BTreeMap<String, u8> | BTreeMap<String, String> | Option<u8> | Option<String> | Result<u8, bool> | Option<Option<u8>>
            | () | (u8,) | (u8, u8) | (u8, bool, String) | ((u8,), (bool, u16)) | Box<u8> | Rc<String> | Arc<Vec<u8>> | Compact<u32> | Compact<(u8,)>
            | Range<u8> | RangeInclusive<u16> | Cow<'static, str> | Cow<'static, [u8]> | Duration | PhantomData<u8>
            | primitive_types::H128 | primitive_types::H160 | Unit | N0 | N1 | N2 | N3 | NOdd | NNest | NOpt | NCompact | NStr | T1 | T2 | T3 | TNest
            | NSkip | NSkipEnds | NSkipOpaque | TSkip | NGen<u8, Vec<u8>> | TGen<TGen<u8>> | En | EnSkip; $a)
    }};
}
pub const ALL_TARGETS: usize = 81;
/// A type of any kind: a leaf, or a container over leaves.
pub fn any_type(t: &mut Types) -> u32 {
    let k = pick(ALL_LEAVES + CONTAINERS);
    if k < ALL_LEAVES { return leaf(t, k) }
    let mut first = true;
    container(t, k - ALL_LEAVES, &mut |t| {
        let k = if first { pick(FEW_LEAVES) } else { [0, 1, 4][pick(3)] };
        first = false;
        few(t, k)
    })
}
/// The variants of `En` in another order, with explicit and codec indices, which must not matter.
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub enum EnRe { #[codec(index = 9)] E(u16), B(u8), A }
impl Conv for EnRe {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        let (name, n) = variant_of(t, n)?;
        Ok(match name {
            "A" => EnRe::A,
            "B" => { let mut f = Fs::variant_unnamed(t, n, 1)?; EnRe::B(f.item()?) }
            "E" => { let mut f = Fs::variant_unnamed(t, n, 1)?; EnRe::E(f.item()?) }
            _ => return Err(er(K::NoVariant(name))),
        })
    }
    fn same(&self, o: &Self) -> bool { self == o }
}
/// Long names that are alike but for their end, and one that is not ASCII.
#[derive(DecodeAsType, Clone, Debug, PartialEq)]
pub enum EnLong { AVariantWhoseNameGoesOnForQuiteAWhileBeforeItEndsAsX(u8), AVariantWhoseNameGoesOnForQuiteAWhileBeforeItEndsAsY(u8), Größe { größe: u8 } }
impl Conv for EnLong {
    fn conv(t: &Types, _id: u32, n: &Node) -> Result<Self, Er> {
        let (name, n) = variant_of(t, n)?;
        let (x, y) = (LONG_VARIANTS[0], LONG_VARIANTS[1]);
        Ok(if name == x { let mut f = Fs::variant_unnamed(t, n, 1)?; EnLong::AVariantWhoseNameGoesOnForQuiteAWhileBeforeItEndsAsX(f.item()?) }
        else if name == y { let mut f = Fs::variant_unnamed(t, n, 1)?; EnLong::AVariantWhoseNameGoesOnForQuiteAWhileBeforeItEndsAsY(f.item()?) }
        else if name == LONG_VARIANTS[2] { let mut f = Fs::variant_named(t, n, 1)?; EnLong::Größe { größe: f.field("größe")? } }
        else { return Err(er(K::NoVariant(name))) })
    }
    fn same(&self, o: &Self) -> bool { self == o }
}
pub const LONG_VARIANTS: [&str; 3] = ["AVariantWhoseNameGoesOnForQuiteAWhileBeforeItEndsAsX", "AVariantWhoseNameGoesOnForQuiteAWhileBeforeItEndsAsY", "Größe"];
pub const LONG_FIELDS: [&str; 2] = ["a_field_whose_name_goes_on_for_quite_a_while_before_it_ends_as_x", "a_field_whose_name_goes_on_for_quite_a_while_before_it_ends_as_y"];
/// `of` itself, or something close to it: another byte (any ASCII one) at several places, one character less or more.
pub fn spelled(of: &'static str) -> &'static str {
    use crate::sym::{assume, byte};
    let mut b = of.as_bytes().to_vec();
    let n = b.len();
    match pick(10) {
        0 => return of,
        1 => { b.pop(); }
        2 => { let c = byte(); assume(c < 128); b.push(c) }
        3 => { b.remove(0); }
        k => { let at = [0, 7, 8, n / 2, n - 2, n - 1][k - 4]; assume(b[at] < 128); let c = byte(); assume(c < 128); b[at] = c }
    }
    assume(core::str::from_utf8(&b).is_ok());
    Box::leak(unsafe { String::from_utf8_unchecked(b) }.into_boxed_str())
}
/// Names that are close to `größe`, most of them not the same.
pub const NEAR: [&str; 10] = ["größe", "größ", "Größe", "grosse", "grösse", "gro\u{308}ße", "GRÖSSE", "größe ", "größé", "gr\u{f6}\u{df}"];
