use crate::sym::*;
use scale_bits::Bits;
use codec::{Compact, Decode, Encode};
use core::{marker::PhantomData, num::*, ops::{Range, RangeInclusive}, time::Duration};
use scale_decode::DecodeAsType;
use scale_info::{meta_type, PortableRegistry, Registry, TypeInfo};
use std::{borrow::Cow, collections::{BTreeSet, VecDeque}, rc::Rc, sync::Arc};

macro_rules! both { ($($i:item)*) => { $( #[derive(Encode, Decode, TypeInfo, DecodeAsType, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] $i )* }; }
both! {
    pub struct Plain { a: u8, b: bool, c: u16 }
    pub struct Odd { zz: u16, a: Vec<u8>, m: Option<bool> }
    pub struct Packed { #[codec(compact)] a: u32, b: u8, #[codec(compact)] c: u128 }
    pub struct Holed { a: u8, #[codec(skip)] b: u32, c: bool }
    pub struct New(u16);
    pub struct Two(u8, Vec<bool>);
    pub struct TwoHoled(u8, #[codec(skip)] u64, #[codec(compact)] u16);
    pub struct Nothing;
    pub struct Empty {}
    pub struct Gen<A, B> { left: A, right: B }
    pub enum Simple { A, B, C }
    pub enum Mixed { A, B(u8), C { x: u16, y: bool }, D(u8, Vec<u8>), E { #[codec(compact)] n: u32 } }
    pub enum Indexed { #[codec(index = 9)] A(u8), #[codec(index = 0)] B { q: u16 }, #[codec(index = 255)] C }
    pub enum Deep { Leaf(Compact<u64>), Pair(New, Simple), Rec { inner: Option<Plain> } }
    pub struct Nest { p: Plain, e: Mixed, n: New }
    pub struct Raw { r#type: u8, fn_: bool, r#match: u16, ty: u8 }
    pub enum RawEnum { Fine(u8), r#Type { r#in: u8, out: bool }, r#Loop }
    pub enum Numbered { A = 3, B = 1, C = 200 }
    pub enum HoledEnum { A(u8, #[codec(skip)] u32, bool), #[codec(skip)] #[allow(dead_code)] Never, C { #[codec(skip)] x: u16, y: u8 } }
    pub struct Sized_<const N: usize>([u8; N]);
    pub struct Under { _a: u8, a_: u8, a: u8, aA: bool }
    pub enum List { Nil, Cons(u8, Box<List>) }
    pub struct Tree { val: bool, kids: Vec<Tree> }
    pub struct ViaTuple((u8, (bool, u16)), [Simple; 2], ());
    pub struct OfOne { only: (Vec<u8>,) }
    pub struct Boxed { a: Box<u8>, b: Arc<Simple> }
    pub struct Wide(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
    pub struct Wider { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: bool, a17: u16 }
}
#[derive(Encode, Decode, TypeInfo, DecodeAsType, codec::CompactAs, Clone, Debug, PartialEq)]
pub struct Newer { inner: u32 }
#[derive(Encode, Decode, TypeInfo, DecodeAsType, Clone, Debug, PartialEq)]
pub struct HasNewer { #[codec(compact)] n: Newer, after: Compact<Newer> }
/// Heaps have no equality.
#[derive(Encode, Decode, TypeInfo, DecodeAsType, Clone, Debug)]
pub struct Heap(std::collections::BinaryHeap<u8>);
impl PartialEq for Heap { fn eq(&self, o: &Heap) -> bool { self.0.clone().into_sorted_vec() == o.0.clone().into_sorted_vec() } }
/// The bytes, for a codec that is kept from reserving memory for more items than there can be.
struct Limited<'a>(&'a [u8], usize);
impl<'a> codec::Input for Limited<'a> {
    fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> { Ok(Some(self.0.len())) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> { self.0.read(into) }
    fn on_before_alloc_mem(&mut self, size: usize) -> Result<(), codec::Error> { if size > self.1 { Err("too much".into()) } else { Ok(()) } }
}
fn agree<T: Encode + Decode + TypeInfo + DecodeAsType + PartialEq + 'static>(b: &[u8]) { agree_by::<T>(b, |a, b| a == b) }
fn agree_by<T: Encode + Decode + TypeInfo + DecodeAsType + 'static>(b: &[u8], same: fn(&T, &T) -> bool) {
    let mut r = Registry::new();
    let id = r.register_type(&meta_type::<T>()).id;
    let r: PortableRegistry = r.into();
    // (No item is larger than 40 bytes, or takes fewer than one.)
    let mut i = Limited(b, b.len() * 40);
    let Ok(v) = T::decode(&mut i) else { cover("refused"); return };
    let c = i.0;
    let mut d = b;
    match T::decode_as_type(&mut d, id, &r) {
        Ok(w) => {
            check(same(&v, &w), "decoding by type information gives another value than the codec");
            check(c.len() == d.len(), "decoding by type information leaves another number of bytes than the codec");
        }
        Err(_) => fail("what the codec decodes is refused by type information"),
    }
    let e = v.encode();
    let mut d = &e[..];
    match T::decode_as_type(&mut d, id, &r) {
        Ok(w) => { check(same(&v, &w), "encoding a value and decoding it by type information gives another one"); check(d.is_empty(), "part of the encoding of a value is left over") }
        Err(_) => fail("the encoding of a value is refused by type information"),
    }
    cover("agreed");
    out(&e);
}
fn hashes<T: Encode + Decode + TypeInfo + DecodeAsType + PartialEq + 'static>() {
    let n = core::mem::size_of::<T>();
    // Symbolic where it makes a difference.
    let mut b = crate::model::mostly(n);
    if pick(2) == 0 { b.truncate(n - 1) }
    agree::<T>(&b)
}
/// A map is described as a struct with a list of pairs in it, which decodes to an empty map: a
/// known finding.
fn map<T: Encode + Decode + TypeInfo + DecodeAsType + PartialEq + 'static>(b: &[u8]) {
    use std::collections::BTreeMap;
    let mut r = Registry::new();
    let id = r.register_type(&meta_type::<BTreeMap<String, T>>()).id;
    let r: PortableRegistry = r.into();
    let mut i = Limited(b, 10000);
    let Ok(v) = BTreeMap::<String, T>::decode(&mut i) else { cover("refused"); return };
    let c = i.0;
    let mut d = b;
    match BTreeMap::<String, T>::decode_as_type(&mut d, id, &r) {
        Ok(w) => {
            if v == w { cover("agreed") } else { check(!w.is_empty(), "a map with entries decodes to an empty map"); fail("a map decodes to another one than with the codec") }
            check(c.len() == d.len(), "decoding by type information leaves another number of bytes than the codec");
        }
        Err(_) => fail("what the codec decodes is refused by type information"),
    }
}
harnesses! { "C04";
    c04_leaves(28, 28) ["agreed"] "28 types of integers, compact and non-zero integers, bool and unit, every input of 0..=18 bytes" "" {
        let b = input(18);
        let mut k = param();
        crate::each!(k; agree as u8 | u16 | u32 | u64 | u128 | i8 | i16 | i32 | i64 | i128 | bool | () | Compact<u8> | Compact<u16> | Compact<u32> | Compact<u64> | Compact<u128>
            | NonZeroU8 | NonZeroU16 | NonZeroU32 | NonZeroU64 | NonZeroU128 | NonZeroI8 | NonZeroI16 | NonZeroI32 | NonZeroI64 | NonZeroI128 | PhantomData<u8>; (&b))
    }
    c04_shipped(25, 25) ["agreed"] "25 options, results, tuples, arrays, collections, pointers and ranges, inputs of 5 (7) bytes and fewer" "" {
        let b = input(by_tier(5, 7));
        let mut k = param();
        crate::each!(k; agree as String | Option<u16> | Option<Option<bool>> | Result<u8, bool> | Result<String, ()> | (u8,) | (u8, u16, bool) | (Vec<u8>, bool) | [u16; 2] | [Option<u8>; 2] | [u8; 0]
            | Vec<u8> | Vec<u16> | Vec<Vec<bool>> | Vec<(u8, bool)> | Vec<Compact<u16>> | VecDeque<u8> | VecDeque<bool> | BTreeSet<u8> | Box<u8> | (u8, Vec<Option<bool>>) | Cow<'static, str>
            | Range<u8> | RangeInclusive<u16> | (u8, (u8, (u8, Compact<u8>))); (&b))
    }
    c04_derived(22, 22) ["agreed"] "22 derived structs and enums, with compact and skipped fields, explicit indices and generics, inputs of up to 6 (8) bytes" "" {
        let b = input(by_tier(6, 8));
        let mut k = param();
        crate::each!(k; agree as Plain | Odd | Packed | Holed | New | Two | TwoHoled | Nothing | Empty | Gen<u8, Vec<bool>> | Gen<New, (Simple, u8)> | Simple | Mixed | Indexed | Deep | Nest | Boxed | Vec<Mixed> | Option<Indexed> | Result<Plain, Simple> | [Indexed; 2] | Gen<Gen<u8, New>, Option<Simple>>; (&b))
    }
    c04_more(24, 24) ["agreed"] "raw identifiers, skipped variants, const generics, recursive types, compact newtypes, heaps and borrowed values: inputs of up to 6 (8) bytes" "" {
        let b = input(by_tier(6, 8));
        let mut k = param();
        crate::each!(k; agree as Raw | RawEnum | Numbered | HoledEnum | Sized_<0> | Sized_<3> | Under | List | Tree | ViaTuple | OfOne | Compact<Newer> | HasNewer | Heap | Rc<u16> | Option<Box<Tree>> | (u8, bool, u8, bool) | [(bool, Compact<u8>); 3] | VecDeque<String> | BTreeSet<Simple> | Vec<List> | (Option<()>, Result<(), ()>) | Cow<'static, [u8]> | Cow<'static, Simple>; (&b))
    }
    c04_bits(3, 3) ["agreed"] "bit sequences of up to 18 bits in 3 bytes" "" {
        // Each byte a word of its own or none, and two of its bits unknown.
        let some = |max: usize| { let n = pick(max + 1); let mut b = vec![]; if n > 0 { b.push(byte()) } for i in 1..n { b.push([0x5a, 0x24, 0x18][i % 3] | byte() & 0x81) } b };
        // (The equality of `Bits` looks at the unused bits of the last byte, too.)
        let same = |a: &Bits, b: &Bits| a.len() == b.len() && a.iter().zip(b.iter()).all(|x| x.0 == x.1);
        match param() {
            0 => agree_by::<Bits>(&some(3), same),
            1 => agree_by::<(Bits, u8)>(&some(4), |a, b| a.1 == b.1 && a.0.iter().eq(b.0.iter())),
            _ => { let mut b = some(3); b.insert(0, 4 * pick(2) as u8); agree_by::<Vec<Bits>>(&b, |a, b| a.len() == b.len() && a.iter().zip(b).all(|x| x.0.iter().eq(x.1.iter()))) }
        }
    }
    c04_hashes(6, 6) ["agreed"] "fixed hashes, alone and beside other values" "" {
        use primitive_types::*;
        let mut k = param();
        crate::each!(k; hashes as (H128, u8) | H160 | H256 | H384 | H512 | H768; ())
    }
    c04_maps(3, 3) ["agreed"] "string-keyed maps" "" {
        let b = input(6);
        let mut k = param();
        crate::each!(k; map as u8 | bool | (); (&b))
    }
    c04_long(5, 5) ["agreed"] "12-byte durations, 18 fields, 12-tuples and long vectors" "steps=100000000" {
        match param() {
            0 => agree::<Duration>(&input(13)),
            1 => agree::<Wide>(&vec(19)),
            2 => agree::<Wider>(&vec(20)),
            3 => agree::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool, u16)>(&vec(14)),
            _ => { let n = [63, 64, 100][pick(3)]; agree::<Vec<u8>>(&crate::model::long(n, 1, 2)) }
        }
    }
    c04_deep(3, 3) ["agreed"] "recursive types: chains of up to 40 (100) links, trees 40 (100) deep, lists of as many, whole and cut short" "steps=100000000 depth=4000" {
        let n = [16, 33, by_tier(40, 100)][pick(3)];
        let mut b = if param() == 2 { (Compact(n as u32)).encode() } else { vec![] };
        for k in 0..n {
            match param() {
                0 => b.extend_from_slice(&[1, if k % 8 == 0 { byte() } else { k as u8 }]),
                1 => b.extend_from_slice(&[if k % 8 == 0 { byte() & 1 } else { 0 }, 4]),
                _ => b.extend_from_slice(&[1, k as u8, if k % 8 == 0 { byte() & 1 } else { 0 }]),
            }
        }
        match param() { 0 => b.extend_from_slice(&vec(1)), 1 => b.extend_from_slice(&vec(2)), _ => b.extend_from_slice(&vec(2)) }
        let mut k = param();
        crate::each!(k; agree as List | Tree | Vec<List>; (&b))
    }
}
