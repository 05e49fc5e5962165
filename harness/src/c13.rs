use crate::{conv::*, model::*, sym::*, targets::*};
type A = u8;
/// `n` items, as a tuple, unnamed or named fields.
fn items_of(t: &mut Types, ids: &[u32]) -> u32 {
    const N: [&str; 22] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v"];
    match pick(3) {
        0 => t.tuple(ids),
        1 => t.unnamed(ids),
        _ => t.comp(ids.iter().enumerate().map(|(i, x)| (Some(N[i]), *x)).collect()),
    }
}
harnesses! { "C13";
    c13_arities(21, 21) ["value", "unfit", "malformed"] "tuples, named and unnamed fields of 0..=21 bytes into tuples of 0..=20" "" {
        let mut t = Types::new();
        let u = t.u8();
        let n = pick(22);
        let ids = vec![u; n];
        let id = items_of(&mut t, &ids);
        let b = vec(if n > 0 && pick(2) == 1 { n - 1 } else { n + 1 });
        each!(param(); diff as () | (A,) | (A, A) | (A, A, A) | (A, A, A, A) | (A, A, A, A, A) | (A, A, A, A, A, A) | (A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A); (&t, id, &b, KIND))
    }
    c13_types(18, 18) ["unfit", "malformed"] "0..=3 items of any of 4 types, inputs of 0..=5 bytes, into tuples, tuple structs and structs" "" {
        let mut t = Types::new();
        let n = pick(4);
        let mut ids = vec![];
        let of = [t.u8(), t.bool(), t.u16()];
        for _ in 0..n { ids.push(of[pick(3)]) }
        let id = items_of(&mut t, &ids);
        let b = input(5);
        each!(param(); diff as (u8, bool) | (bool, u8) | (u8, u16, bool) | (u8, (bool,)) | ((u8, bool),) | T1 | T2 | T3 | TSkip | TNest | N2 | N3 | NSkip | NSkipEnds | Unit | N0 | TGen<u8> | NGen<u16, u8>; (&t, id, &b, KIND))
    }
    c13_nested(8, 8) ["malformed"] "items that are tuples and structs themselves, and other types than those, inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        let id = container(&mut t, pick(CONTAINERS), &mut |t| { let k = pick(FEW_LEAVES + 3); if k < FEW_LEAVES { few(t, k) } else { container(t, [2, 5, 9][k - FEW_LEAVES], &mut |t| t.u8()) } });
        let b = input(by_tier(3, 4));
        each!(param(); diff as (u8,) | ((u8,),) | ((u8, u8),) | (Vec<u8>,) | (u8, (u8, u8)) | T1 | TNest | ((u8, u8), u8); (&t, id, &b, KIND))
    }
    c13_many(7, 7) ["unfit", "value"] "255 to 258, 300, 512 and 65536 to 65537 items into unit, tuples of 1 and 2, a tuple struct, a struct with named fields and one of one skipped field" "steps=1000000000 depth=1000" {
        let mut t = Types::new();
        let u = t.u8();
        let n = [255, 256, 257, 258, 300, 512, 65536, 65537][pick(8)];
        let ids = vec![u; n];
        let id = match pick(2) { 0 => t.tuple(&ids), _ => t.unnamed(&ids) };
        let mut b = vec![0u8; n + 1];
        b[0] = byte();
        b[1] = byte();
        // (The reference would take long.)
        fn no<T: scale_decode::DecodeAsType>(t: &Types, id: u32, b: &[u8], want: usize) {
            let Types(d) = t;
            let n = match &d[id as usize] { Def::Tuple(x) => x.len(), Def::Composite(_, f) => f.len(), _ => 0 };
            let mut c = b;
            match T::decode_as_type(&mut c, id, t) {
                Ok(_) => { check(n == want, "a value with another number of items was decoded"); cover("value") }
                Err(e) => {
                    match e.kind() {
                        scale_decode::error::ErrorKind::WrongLength { actual_len, expected_len } => check(*actual_len == n && *expected_len == want, "the error tells other numbers of items"),
                        _ => fail("the wrong kind of error was returned for a wrong number of items"),
                    }
                    check(n != want, "a value with the right number of items was refused");
                    cover("unfit")
                }
            }
        }
        match param() {
            0 => no::<()>(&t, id, &b, 0),
            1 => no::<(u8, u8)>(&t, id, &b, 2),
            2 => no::<T2>(&t, id, &b, 2),
            3 => no::<N2>(&t, id, &b, 2),
            4 => no::<TSkip>(&t, id, &b, 2),
            5 => no::<T3>(&t, id, &b, 3),
            _ => { let ids = [u, u]; let id = t.tuple(&ids); diff::<(u8, u8)>(&t, id, &b[..2], KIND) }
        }
    }
}
