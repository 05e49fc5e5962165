use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use codec::Compact;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::DecodeAsType;
use scale_type_resolver::Primitive;
use std::rc::Rc;

fn refused<T: DecodeAsType>(t: &Types, id: u32, b: &[u8]) {
    let mut c = b;
    check(T::decode_as_type(&mut c, id, t).is_err(), "a type that cannot be compact encoded was decoded as such");
    cover("refused");
}
harnesses! { "C06";
    c06_values(20, 20) ["value", "malformed"] "5 compact integers with 0 to 2 (3) wrappers outside and inside the compact type, inputs of the longest encoding and one byte less, into 20 targets" "" {
        let mut t = Types::new();
        let k = pick(5);
        let i = t.prim(UINTS[k]);
        let inner = wraps(&mut t, by_tier(1, 2), 4, i);
        let id = t.compact(inner);
        let id = wraps(&mut t, 1, by_tier(2, 3), id);
        let b = vec([3, 4, 6, 9, 17][k] - pick(2));
        each!(param(); diff as u8 | u16 | u32 | u64 | u128 | i64 | usize | Compact<u8> | Compact<u64> | (u64,) | TU64 | NU64 | NCompact | Box<u32> | Compact<(u32,)>
            | TGen<TGen<u8>> | Rc<(Compact<u128>,)> | ((u16,),) | core::num::NonZeroU32 | Box<TGen<Compact<u64>>>; (&t, id, &b, KIND))
    }
    c06_visited(5, 5) ["value", "error"] "5 compact integers with up to 2 (3) wrappers, inputs of 0..=4 bytes, of the longest encoding and of one byte less, rebuilt and ignored" "" {
        let mut t = Types::new();
        let i = t.prim(UINTS[param()]);
        let inner = wraps(&mut t, by_tier(2, 3), 5, i);
        let id = t.compact(inner);
        let b = if pick(2) == 0 { input(4) } else { vec([3, 4, 6, 9, 17][param()] - pick(2)) };
        let mut s = &b[..];
        let want = spec(&t, id, false, &mut s);
        for ignore in [true, false] {
            let mut c = &b[..];
            let got = if ignore { decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).map(|_| None) } else { decode_with_visitor(&mut c, id, &t, ToNode).map(Some) };
            match (got, &want) {
                (Ok(g), Ok(w)) => { if let Some(g) = g { check(g == *w, "another value was shown than the compact encoded one"); out_node(&g) } check(c.len() == s.len(), "the wrong number of bytes was consumed"); cover("value") }
                (Err(_), Err(_)) => cover("error"),
                (Ok(_), Err(_)) => fail("bytes that are no canonical compact encoding were accepted"),
                (Err(_), Ok(_)) => fail("a canonical compact encoding was refused"),
            }
        }
    }
    c06_refused(32, 32) ["refused"] "compact types over 18 leaf types and 14 container types that are no unsigned integer, through up to 2 wrappers, inputs of 0..=3 and of 40 bytes, ignored, rebuilt and into 4 targets" "" {
        let mut t = Types::new();
        let p = param();
        let inner = match p {
            0..=9 => t.prim([Primitive::Bool, Primitive::Char, Primitive::Str, Primitive::U256, Primitive::I8, Primitive::I16, Primitive::I32, Primitive::I64, Primitive::I128, Primitive::I256][p]),
            10..=17 => t.bits(BITS[p - 10].0, BITS[p - 10].1),
            _ => {
                let u = t.u8();
                let c = t.compact(u);
                match p - 18 {
                    0 => t.seq(u), 1 => t.array(u, 1), 2 => t.array(u, 2), 3 => t.array(u, 0), 4 => t.tuple(&[]), 5 => t.tuple(&[u, u]), 6 => t.named(&[]), 7 => t.named(&[("a", u), ("b", u)]),
                    8 => t.option(u), 9 => t.variant(vec![(0, "A", vec![(None, u)])]), 10 => t.unnamed(&[u, c]), 11 => t.seq(c), 12 => t.array(c, 1), _ => t.variant(vec![]),
                }
            }
        };
        let inner = wraps(&mut t, 2, 4, inner);
        let id = t.compact(inner);
        let id = wraps(&mut t, 1, 3, id);
        let b = if pick(2) == 0 { input(3) } else { vec(40) };
        match pick(6) {
            0 => { let mut c = &b[..]; check(decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_err(), "a type that cannot be compact encoded was ignored as such"); cover("refused") }
            1 => { let mut c = &b[..]; check(decode_with_visitor(&mut c, id, &t, ToNode).is_err(), "a type that cannot be compact encoded was decoded as such"); cover("refused") }
            2 => refused::<u64>(&t, id, &b),
            3 => refused::<(u8,)>(&t, id, &b),
            4 => refused::<Compact<i64>>(&t, id, &b),
            _ => match p { 0 => refused::<bool>(&t, id, &b), 1 => refused::<char>(&t, id, &b), 2 => refused::<String>(&t, id, &b), 3..=9 => refused::<i128>(&t, id, &b), 10..=17 => refused::<scale_bits::Bits>(&t, id, &b), 18..=21 => refused::<Vec<u8>>(&t, id, &b), 22 => refused::<()>(&t, id, &b), 23 => refused::<(u8, u8)>(&t, id, &b), 24 => refused::<N0>(&t, id, &b), 25 => refused::<NGen<u8, u8>>(&t, id, &b), 26 => refused::<Option<u8>>(&t, id, &b), _ => refused::<Unit>(&t, id, &b) },
        }
    }
    c06_deep(10, 10) ["value"] "5 compact integers with (3,) 4, (5, 8, 16,) 17 and 33 wrappers within the compact type, or around it, inputs of the longest encoding and one byte less, into 10 targets" "steps=100000000 depth=4000" {
        let mut t = Types::new();
        let k = pick(5);
        let mut id = t.prim(UINTS[k]);
        let n = if deep() { [3, 4, 5, 8, 16, 17, 33][pick(7)] } else { [4, 17, 33][pick(3)] };
        let (first, out) = (pick(2), pick(2) == 1);
        if out { id = t.compact(id) }
        for l in 0..n { id = wrap(&mut t, (l * l + first) % 3, id) }
        if !out { id = t.compact(id) }
        let b = vec([3, 4, 6, 9, 17][k] - pick(2));
        // (Which other lengths a prefix may claim is for the values above.)
        assume(b[0] & 3 != 3 || b[0] >> 2 == [0, 0, 0, 4, 12][k]);
        each!(param(); diff as u8 | u32 | u128 | Compact<u16> | (u64,) | TU64 | Box<u64> | TGen<TGen<TGen<u64>>> | Compact<((u32,),)> | core::num::NonZeroU64; (&t, id, &b, KIND))
    }
}
