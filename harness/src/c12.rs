use crate::{conv::*, model::*, sym::*, targets::*};

const NAMES: [&str; 4] = ["a", "b", "c", "zz"];
/// A composite of up to `most` fields, each with any of four names and any of three types.
pub fn any_named(t: &mut Types, most: usize) -> u32 {
    let n = pick(most + 1);
    let ids = [t.u8(), t.bool(), t.u16()];
    let mut f = vec![];
    for _ in 0..n {
        let name = NAMES[pick(4)];
        f.push((Some(name), ids[pick(3)]));
    }
    t.comp(f)
}
/// Fields with the types the targets want, in any order, with any left out, plus others; names may repeat.
pub fn ordered(t: &mut Types, most: usize) -> u32 {
    let ids = [t.u8(), t.bool(), t.u16(), t.u8()];
    let n = pick(most + 1);
    let mut f = vec![];
    for _ in 0..n {
        let k = pick(4);
        f.push((Some(NAMES[k]), ids[k]));
    }
    t.comp(f)
}
harnesses! { "C12";
    c12_ordered(12, 12) ["value", "unfit", "malformed"] "composites of up to 4 (5) named fields in any order, any left out or repeated, inputs of 0..=5 (7) bytes, into 12 derived structs" "" {
        let mut t = Types::new();
        let id = ordered(&mut t, by_tier(4, 5));
        let b = input(by_tier(5, 7));
        each!(param(); diff as N0 | N1 | N2 | N3 | NSkip | NSkipEnds | NSkipOpaque | NGen<u8, bool> | NGen<u64, (bool,)> | NCompact | NStr | NOpt; (&t, id, &b, KIND))
    }
    c12_types(4, 4) ["value", "unfit", "malformed"] "composites of up to 3 fields with any of 4 names and 3 types, inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        let id = any_named(&mut t, 3);
        let b = input(4);
        each!(param(); diff as N2 | N3 | NSkip | NGen<u16, u32>; (&t, id, &b, KIND))
    }
    c12_nested(5, 5) ["value", "malformed"] "nested structs, names that are prefixes of one another, and 18 fields in two orders" "" {
        let mut t = Types::new();
        let (u8_, bool_, u16_, str_) = (t.u8(), t.bool(), t.u16(), t.str());
        match param() {
            0 => {
                let inner = match pick(3) { 0 => t.named(&[("a", u8_)]), 1 => t.named(&[("x", str_), ("a", u8_)]), _ => t.named(&[("a", u8_), ("x", u16_)]) };
                let seq = t.seq(u8_);
                let id = match pick(3) { 0 => t.named(&[("a", inner), ("b", seq)]), 1 => t.named(&[("b", seq), ("a", inner)]), _ => t.named(&[("b", seq), ("c", inner), ("a", inner)]) };
                diff::<NNest>(&t, id, &input(7), KIND)
            }
            1 => {
                let id = match pick(4) { 0 => t.named(&[("ab", u8_), ("b", bool_), ("a", u16_)]), 1 => t.named(&[("a", u16_), ("ab", u8_), ("b", bool_)]), 2 => t.named(&[("abc", u8_), ("b", bool_), ("a", u16_)]), _ => t.named(&[("b", bool_), ("A", u16_), ("a", u16_), ("ab", u8_)]) };
                diff::<NOdd>(&t, id, &input(7), KIND)
            }
            2 | 3 => {
                // More fields than are kept inline.
                let names = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17"];
                let n = 18 + pick(2);
                let mut f: Vec<(Name, u32)> = (0..n).map(|i| (Some(*names.get(i).unwrap_or(&"more")), u8_)).collect();
                if param() == 3 { f.reverse() }
                let id = t.comp(f);
                let k = 17 + pick(4);
                diff::<NWide>(&t, id, &vec(k), KIND)
            }
            _ => {
                // Structs as variants' fields and inside sequences.
                let s = match pick(2) { 0 => t.named(&[("b", bool_), ("a", u8_)]), _ => t.named(&[("a", u8_), ("c", u8_), ("b", bool_)]) };
                let id = t.seq(s);
                diff::<Vec<N2>>(&t, id, &input(7), KIND)
            }
        }
    }
    c12_variants(3, 3) ["value", "unfit", "malformed"] "struct-like enum variants with up to 3 fields in any order" "" {
        let mut t = Types::new();
        let ids = [t.u8(), t.bool(), t.u16()];
        let n = pick(4);
        let mut f: Vec<(Name, u32)> = vec![];
        for _ in 0..n { let k = pick(3); f.push((Some(["x", "y", "w"][k]), ids[k])) }
        let id = t.variant(vec![(0, "C", f), (1, "A", vec![])]);
        let b = input(6);
        each!(param(); diff as En | EnSkip | Option<u8>; (&t, id, &b, KIND))
    }
    c12_extra(5, 5) ["value", "malformed"] "structs and variants of 15 to 18, 33 and 40 fields, two or three of which are the target's, anywhere" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.bool(), t.u16()];
        let n = [15, 16, 17, 18, 33, 40][pick(6)];
        let at = |k: usize| [0, 7, 14, 15, 16, 17, n - 1][k].min(n - 1);
        let (i, j) = (at(pick(7)), at(pick(7)));
        assume(i != j);
        let mut f: Vec<(Name, u32)> = (0..n).map(|k| (if k % 7 == 3 { None } else { Some(MANY[k]) }, of[k % 3 % 2 * 2])).collect();
        let (x, y) = if param() == 3 { ("x", "y") } else { ("a", "b") };
        f[i] = (Some(x), of[0]);
        f[j] = (Some(y), of[1]);
        // (With an unnamed field in between, fields are matched by position.)
        if pick(2) == 0 { for k in 0..n { if f[k].0.is_none() { f[k].0 = Some(MANY[k]) } } }
        let mut b = vec![];
        let id = if param() == 3 { b.push(4); t.variant(vec![(4, "C", f.clone())]) } else { t.comp(f.clone()) };
        for k in 0..n { let k = &f[k]; if k.0 == Some(x) { b.push(byte()) } else if k.0 == Some(y) { b.push(byte()) } else { b.push(1); if k.1 == of[2] { b.push(2) } } }
        if pick(2) == 0 { b.push(3) } else { b.pop(); }
        each!(param(); diff as N2 | NSkip | NSkipEnds | En | NGen<u8, bool>; (&t, id, &b, KIND))
    }
    c12_names(6, 6) ["value", "unfit"] "1 to 3 fields under any ASCII names of 0..=2 (3) characters, into structs of 1 to 3 fields and of skipped ones" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.bool(), t.u16()];
        let n = 1 + pick(3);
        let first = pick(3);
        let f: Vec<(Name, u32)> = (0..n).map(|i| { let k = pick(by_tier(3, 4)); (Some(any_name(k)), of[(i + first) % 3]) }).collect();
        let id = t.comp(f);
        let b = vec(n + if n == 3 { 1 } else { 0 } + pick(2));
        each!(param(); diff as N1 | N2 | N3 | NOdd | NSkip | NSkipEnds; (&t, id, &b, KIND))
    }
    c12_long_names(2, 2) ["value", "unfit"] "one or two fields of names of 64 characters that are the target's or differ in any byte at one of 6 places, or in length; and names that are not ASCII" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.bool(), t.u16()];
        if param() == 0 {
            let n = 1 + pick(2);
            let first = pick(2);
            let f: Vec<(Name, u32)> = (0..n).map(|i| (Some(spelled(LONG_FIELDS[(i + first) % 2])), of[(i + first) % 2])).collect();
            let id = t.comp(f);
            diff::<NLong>(&t, id, &vec(n + pick(2)), KIND)
        } else {
            let n = 2 + pick(2);
            let f: Vec<(Name, u32)> = (0..n).map(|_| { let k = pick(NEAR.len()); (Some(NEAR[k]), of[if k < 3 { k } else { 0 }]) }).collect();
            let id = t.comp(f);
            diff::<NUni>(&t, id, &vec(5), KIND)
        }
    }
}
