use crate::{conv::*, model::*, sym::*, targets::*};
use std::borrow::Cow;
use std::collections::{BTreeSet, BinaryHeap, LinkedList, VecDeque};
harnesses! { "C15";
    c15_wrapped(27, 27) ["value", "malformed"] "one of 15 kinds of type under 0 to 3 single-field wrappers, inputs of 0..=4 bytes, into 27 targets" "" {
        let mut t = Types::new();
        let k = pick(15);
        let i = match k {
            0..=5 => few(&mut t, k),
            6 => t.prim(scale_type_resolver::Primitive::Char),
            7 => t.prim(scale_type_resolver::Primitive::I16),
            8 => { let u = t.u8(); t.seq(u) }
            9 => { let u = t.u8(); t.array(u, 2) }
            10 => { let u = t.u8(); t.option(u) }
            11 => { let u = t.u8(); let b = t.bool(); t.result(u, b) }
            12 => { let u = t.u8(); let b = t.bool(); t.variant(vec![(0, "A", vec![]), (1, "B", vec![(None, u)]), (2, "C", vec![(Some("y"), b), (Some("x"), u)])]) }
            13 => { let u = t.u16(); let u = t.tuple(&[u]); t.seq(u) }
            _ => { let u = t.u8(); let u = t.named(&[("a", u)]); t.option(u) }
        };
        let id = wraps(&mut t, by_tier(2, 3), 3, i);
        let b = input(by_tier(4, 5));
        each!(param(); diff as u8 | bool | u16 | u32 | i64 | char | String | scale_bits::Bits | Vec<u8> | VecDeque<u8> | LinkedList<u8> | BTreeSet<u8> | BinaryHeap<u8> | [u8; 2] | Option<u8> | Result<u8, bool> | En | EnSkip
            | Cow<'static, str> | Cow<'static, [u8]> | core::num::NonZeroU8 | Box<u8> | Vec<u16> | TGen<u8> | NU64 | (u8,) | codec::Compact<u32>; (&t, id, &b, KIND))
    }
    c15_refused(12, 12) ["unfit"] "wrappers with no or two fields, alone and inside or around single-field ones, inputs of 0..=3 bytes" "" {
        let mut t = Types::new();
        let (a, b) = { let k = pick(3); let l = pick(2); (few(&mut t, [0, 1, 4][k]), few(&mut t, [0, 1][l])) };
        let none = pick(2) == 0;
        let i = wraps(&mut t, 1, 3, a);
        let j = match (pick(3), none) { (0, true) => t.tuple(&[]), (1, true) => t.named(&[]), (_, true) => t.unnamed(&[]), (0, false) => t.tuple(&[i, b]), (1, false) => t.named(&[("a", i), ("b", b)]), (_, false) => t.unnamed(&[b, i]) };
        let id = wraps(&mut t, 1, 3, j);
        let b = input(3);
        each!(param(); diff as u8 | bool | String | scale_bits::Bits | Vec<u8> | BTreeSet<u8> | [u8; 1] | Option<u8> | Result<u8, u8> | En | i32 | Cow<'static, str>; (&t, id, &b, KIND))
    }
    c15_deep(12, 12) ["value"] "one of 7 kinds of type under 4, (5, 8,) 9, (15, 16,) 17 and 33 single-field wrappers of three kinds, inputs of 3 bytes, into 12 targets" "steps=100000000 depth=4000" {
        let mut t = Types::new();
        let k = pick(7);
        let i = match k {
            0 => t.u8(),
            1 => t.str(),
            2 => { let u = t.u8(); t.seq(u) }
            3 => { let u = t.u8(); t.array(u, 2) }
            4 => { let u = t.u8(); t.option(u) }
            5 => { let u = t.u8(); t.variant(vec![(0, "A", vec![]), (1, "B", vec![(None, u)])]) }
            _ => { let u = t.u8(); t.unnamed(&[u, u]) }
        };
        let n = if deep() { [4, 5, 8, 9, 15, 16, 17, 33][pick(8)] } else { [4, 9, 17, 33][pick(4)] };
        let first = pick(2);
        let mut id = i;
        for l in 0..n { id = wrap(&mut t, (l * l + first) % 3, id) }
        let b = vec(3);
        each!(param(); diff as u8 | u32 | String | Vec<u8> | [u8; 2] | Option<u8> | En | (u8,) | TGen<TGen<TGen<u8>>> | BTreeSet<u8> | Cow<'static, str> | (u8, u8); (&t, id, &b, KIND))
    }
}
