use crate::{conv::*, model::*, sym::*, targets::*};
use codec::Compact;
use core::{marker::PhantomData, ops::{Range, RangeInclusive}, time::Duration};
use scale_decode::DecodeAsType;
use std::{borrow::Cow, rc::Rc, sync::Arc};

/// `W` and what it wraps, decoded from the same bytes and compared by `open`.
fn like<W: DecodeAsType, T: DecodeAsType + Conv>(t: &Types, id: u32, b: &[u8], open: fn(W) -> T) {
    let (mut c, mut d) = (b, b);
    match (W::decode_as_type(&mut c, id, t), T::decode_as_type(&mut d, id, t)) {
        (Ok(w), Ok(v)) => {
            check(open(w).same(&v), "the wrapper holds another value than the wrapped type decodes to");
            check(c.len() == d.len(), "the wrapper consumes another number of bytes than the wrapped type");
            cover("value");
            out_u64(c.len() as u64);
        }
        (Err(_), Err(_)) => { cover("error"); out(&[0]) }
        (Ok(_), Err(_)) => fail("the wrapper decodes what the wrapped type does not"),
        (Err(_), Ok(_)) => fail("the wrapper does not decode what the wrapped type does"),
    }
}
/// Types that suit the wrapped ones better than any type does.
fn suited(t: &mut Types) -> u32 {
    let u = t.u8();
    match pick(8) {
        0 => t.named(&[("a", u)]),
        1 => { let b = t.bool(); t.comp(vec![(Some("b"), b), (Some("a"), u)]) }
        2 => t.variant(vec![(4, "A", vec![]), (2, "B", vec![(None, u)])]),
        3 => { let i = t.named(&[("a", u)]); t.seq(i) }
        4 => { let o = t.option(u); t.tuple(&[o]) }
        5 => { let k = pick(5); let i = t.prim(UINTS[k]); t.compact(i) }
        6 => { let k = t.compact(u); t.seq(k) }
        _ => { let i = t.tuple(&[u]); t.option(i) }
    }
}
harnesses! { "C21";
    c21_pointers(20, 20) ["value", "error"] "20 wrapper and wrapped types; any of 28 leaf types, 18 containers over leaves, or 8 fitting types; inputs of 0..=4 (5) bytes" "" {
        let mut t = Types::new();
        let id = if pick(2) == 0 { any_type(&mut t) } else { suited(&mut t) };
        let id = if deep() { wraps(&mut t, 1, 3, id) } else { id };
        let b = input(by_tier(4, 5));
        let t = &t;
        match param() {
            0 => like::<Box<u8>, u8>(t, id, &b, |w| *w),
            1 => like::<Rc<String>, String>(t, id, &b, |w| (*w).clone()),
            2 => like::<Arc<Vec<u8>>, Vec<u8>>(t, id, &b, |w| (*w).clone()),
            3 => like::<Cow<'static, str>, String>(t, id, &b, |w| w.into_owned()),
            4 => like::<Cow<'static, [u8]>, Vec<u8>>(t, id, &b, |w| w.into_owned()),
            5 => like::<Compact<u32>, u32>(t, id, &b, |w| w.0),
            6 => like::<Compact<u128>, u128>(t, id, &b, |w| w.0),
            7 => like::<Compact<(u8,)>, (u8,)>(t, id, &b, |w| w.0),
            8 => like::<Box<En>, En>(t, id, &b, |w| *w),
            9 => like::<Rc<Option<u8>>, Option<u8>>(t, id, &b, |w| (*w).clone()),
            10 => like::<Arc<N2>, N2>(t, id, &b, |w| (*w).clone()),
            11 => like::<Box<[u8; 2]>, [u8; 2]>(t, id, &b, |w| *w),
            12 => like::<Arc<(u8,)>, (u8,)>(t, id, &b, |w| (*w).clone()),
            13 => like::<Rc<Box<Compact<u8>>>, u8>(t, id, &b, |w| (**w).0),
            14 => like::<Box<()>, ()>(t, id, &b, |w| *w),
            15 => like::<Cow<'static, [N1]>, Vec<N1>>(t, id, &b, |w| w.into_owned()),
            16 => like::<Rc<bool>, bool>(t, id, &b, |w| *w),
            17 => like::<Cow<'static, u16>, u16>(t, id, &b, |w| w.into_owned()),
            18 => like::<Arc<Result<u8, bool>>, Result<u8, bool>>(t, id, &b, |w| (*w).clone()),
            _ => like::<Box<scale_bits::Bits>, scale_bits::Bits>(t, id, &b, |w| *w),
        }
    }
    c21_pairs(6, 6) ["value", "unfit", "malformed"] "pairs of 6 item types as tuples, structs with start and end in both orders, unnamed structs, and others; inputs of 0..=6 bytes" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.u16(), t.bool(), t.str(), t.seq(0), t.compact(0)];
        let i = of[pick(6)];
        let j = if deep() { of[pick(6)] } else { [i, of[3], of[1]][pick(3)] };
        let id = match pick(8) {
            0 => t.tuple(&[i, j]),
            1 => t.named(&[("start", i), ("end", j)]),
            2 => t.named(&[("end", i), ("start", j)]),
            3 => t.unnamed(&[i, j]),
            4 => t.named(&[("start", i), ("end", j), ("x", i)]),
            5 => t.named(&[("start", i)]),
            6 => t.array(i, 2),
            _ => { let p = t.tuple(&[i, j]); t.tuple(&[p]) }
        };
        let b = input(by_tier(4, 6));
        let t = &t;
        match param() {
            0 => { like::<Range<u8>, (u8, u8)>(t, id, &b, |w| (w.start, w.end)); diff::<Range<u8>>(t, id, &b, 0) }
            1 => { like::<RangeInclusive<u8>, (u8, u8)>(t, id, &b, |w| w.into_inner()); diff::<RangeInclusive<u8>>(t, id, &b, 0) }
            2 => { like::<Range<u16>, (u16, u16)>(t, id, &b, |w| (w.start, w.end)); diff::<Range<u16>>(t, id, &b, 0) }
            3 => { like::<RangeInclusive<Vec<u8>>, (Vec<u8>, Vec<u8>)>(t, id, &b, |w| w.into_inner()); diff::<RangeInclusive<Vec<u8>>>(t, id, &b, 0) }
            4 => { like::<Range<String>, (String, String)>(t, id, &b, |w| (w.start, w.end)); diff::<Range<String>>(t, id, &b, 0) }
            _ => { like::<RangeInclusive<i8>, (i8, i8)>(t, id, &b, |w| w.into_inner()); diff::<RangeInclusive<i8>>(t, id, &b, 0) }
        }
    }
    c21_duration(12, 12) ["value", "unfit", "malformed"] "12 pairs of integer types, every value of both, as tuples and structs, complete or one byte short or with one more" "" {
        use scale_type_resolver::Primitive::*;
        let mut t = Types::new();
        let (p, q, n) = [(U64, U32, 12), (U64, U64, 16), (U128, U32, 20), (U8, U32, 5), (U64, U8, 9), (I64, I32, 12), (U32, U128, 20), (Bool, U32, 5), (I128, I64, 24), (U64, Char, 12), (U64, U32, 13), (U64, U32, 13)][param()];
        let (mut i, mut j) = (t.prim(p), t.prim(q));
        if param() == 10 { i = t.compact(i) }
        if param() == 11 { j = t.compact(j) }
        let id = match pick(4) { 0 => t.tuple(&[i, j]), 1 => t.named(&[("secs", i), ("nanos", j)]), 2 => t.named(&[("nanos", i), ("secs", j)]), _ => t.unnamed(&[i, j]) };
        let k = pick(3);
        diff::<Duration>(&t, id, &vec(n + 1 - k), 0)
    }
    c21_hashes(6, 6) ["value", "unfit", "malformed"] "H128 to H768 from arrays and sequences of bytes of the right size, one less and one more, and of other item types" "steps=100000000" {
        let mut t = Types::new();
        let n = [16, 20, 32, 48, 64, 96][param()];
        let u = t.u8();
        let (i, w) = match pick(5) { 0 | 1 => (u, 1), 2 => (t.tuple(&[u]), 1), 3 => (t.bool(), 1), _ => (t.u16(), 2) };
        let len = if w == 1 { n + pick(3) - 1 } else { n / 2 };
        let (id, mut b) = match pick(3) {
            0 => (t.array(i, len), vec![]),
            1 => (t.seq(i), long(len, 0, 0)),
            _ => { let a = t.array(i, len); (t.named(&[("inner", a)]), vec![]) }
        };
        b.extend_from_slice(&vec(len * w + pick(3) - 1));
        if let Def::Prim(scale_type_resolver::Primitive::Bool) = t.0[i as usize] { for k in b.len().saturating_sub(len)..b.len() { let x = concrete((b[k] > 1) as u64); assume(x == 0 || k + 2 > b.len()) } }
        each!(param(); diff as primitive_types::H128 | primitive_types::H160 | primitive_types::H256 | primitive_types::H384 | primitive_types::H512 | primitive_types::H768; (&t, id, &b, 0))
    }
    c21_phantom(4, 4) ["value", "unfit", "malformed"] "PhantomData and the empty tuple from any of 28 leaf types or 18 containers over leaves, in up to one wrapper, inputs of 0..=3 (4) bytes" "" {
        let mut t = Types::new();
        let mut id = any_type(&mut t);
        if param() > 0 { id = wrap(&mut t, param() - 1, id) }
        let b = input(by_tier(3, 4));
        diff::<PhantomData<u8>>(&t, id, &b, 0);
        diff::<()>(&t, id, &b, 0)
    }
}
