use crate::{conv::*, model::*, sym::*};
use core::num::*;

/// The k-th of 22 integer targets.
pub fn into_int(k: usize, t: &Types, id: u32, b: &[u8]) {
    each!(k; diff as u8 | u16 | u32 | u64 | u128 | usize | i8 | i16 | i32 | i64 | i128 | isize
        | NonZeroU8 | NonZeroU16 | NonZeroU32 | NonZeroU64 | NonZeroU128 | NonZeroI8 | NonZeroI16 | NonZeroI32 | NonZeroI64 | NonZeroI128; (t, id, b, KIND))
}
harnesses! { "C05";
    c05_ints(22, 22) ["value", "unfit", "malformed"] "10 integer types and 5 compact ones, every input of 0..=18 bytes, into each of 22 integer targets" "" {
        let mut t = Types::new();
        let k = pick(15);
        let id = if k < 10 { t.prim(INTS[k]) } else { let i = t.prim(UINTS[k - 10]); t.compact(i) };
        let b = input(18);
        into_int(param(), &t, id, &b);
    }
}
