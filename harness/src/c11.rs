use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_decode::error::ErrorKind;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor};
use scale_decode::DecodeAsType;

const NAMES: [&str; 10] = ["A", "B", "C", "D", "Z", "Some", "None", "Ok", "Err", "a"];
/// `n` variants with symbolic, distinct indices and names out of `names`; fields by `shape`.
fn variants(t: &mut Types, n: usize, names: &[&'static str], shapes: usize) -> u32 {
    let ids = [t.u8(), t.bool(), t.u16()];
    let mut v: Vec<(u8, &'static str, Vec<(Name, u32)>)> = vec![];
    for _ in 0..n {
        let i = byte();
        for x in &v { assume(x.0 != i) }
        let name = names[pick(names.len())];
        let f = match pick(shapes) {
            0 => vec![],
            1 => vec![(None, ids[0])],
            2 => vec![(Some("y"), ids[1]), (Some("x"), ids[0])],
            3 => vec![(None, ids[0]), (None, ids[2])],
            _ => vec![(Some("x"), ids[0])],
        };
        v.push((i, name, f));
    }
    t.variant(v)
}
fn found<T: DecodeAsType + Conv>(t: &Types, id: u32, b: &[u8]) {
    let mut s = b;
    if let Err(Bad::Variant(i)) = spec(t, id, false, &mut s) {
        match T::decode_as_type(&mut &*b, id, t) {
            Ok(_) => fail("an index was decoded that is none of the type's"),
            Err(e) => check(matches!(e.kind(), ErrorKind::VisitorDecodeError(DecodeError::VariantNotFound(j)) if *j == i), "the error is not variant-not-found with the index"),
        }
        cover("not found");
        return
    }
    diff::<T>(t, id, b, KIND)
}
harnesses! { "C11";
    c11_indices(4, 5) ["value", "not found"] "tables of 0..=3 (4) variants with any distinct indices, inputs of 0..=3 bytes, rebuilt and ignored" "" {
        let mut t = Types::new();
        let id = variants(&mut t, param(), &["A", "B"], 4);
        let b = input(3);
        let mut s = &b[..];
        let want = spec(&t, id, false, &mut s);
        for ignore in [false, true] {
            let mut c = &b[..];
            let got = if ignore { decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).map(|_| None) } else { decode_with_visitor(&mut c, id, &t, ToNode).map(Some) };
            match (got, &want) {
                (Ok(g), Ok(w)) => { if let Some(g) = g { check(g == *w, "another variant was shown than the one with the index"); out_node(&g) } check(c.len() == s.len(), "the wrong number of bytes was consumed"); cover("value") }
                (Err(DecodeError::VariantNotFound(i)), Err(Bad::Variant(j))) => { check(i == *j, "the error carries another index"); cover("not found") }
                (Err(_), Err(Bad::Variant(_))) => fail("an index that is none of the type's is another error than variant-not-found"),
                (Err(DecodeError::VariantNotFound(_)), Err(_)) => fail("variant-not-found although there is such a variant"),
                (Err(_), Err(_)) => {}
                (Ok(_), Err(_)) => fail("a value was produced from bytes that are no encoding of the type"),
                (Err(_), Ok(_)) => fail("a valid encoding was rejected"),
            }
        }
    }
    c11_targets(7, 7) ["value", "unfit", "not found"] "tables of 2 variants with any names and indices and 5 shapes of fields, inputs of 0..=5 bytes, into enums, options and results" "" {
        let mut t = Types::new();
        let names: &[&'static str] = if param() < 3 { &NAMES[..5] } else if param() < 6 { &NAMES[4..9] } else { &["A", "B", "a", "E"] };
        let id = variants(&mut t, 2, names, 5);
        let b = input(by_tier(4, 5));
        each!(param(); found as En | EnSkip | Box<En> | Option<u8> | Result<u8, bool> | Option<(u8,)> | EnRe; (&t, id, &b))
    }
    c11_single(4, 4) ["value", "unfit"] "each name and shape of fields as the only variant, inputs of 0..=5 bytes" "" {
        let mut t = Types::new();
        let id = variants(&mut t, 1, &NAMES, 5);
        let id = if pick(2) == 0 { id } else { t.tuple(&[id]) };
        let b = input(5);
        each!(param(); found as En | EnSkip | Option<Option<u8>> | Result<(u8, u16), u8>; (&t, id, &b))
    }
    c11_wide(4, 4) ["value", "not found"] "tables of 40 and 256 variants, the target's at several places among them, any index, and variants of 18 fields" "" {
        let mut t = Types::new();
        let (u, bo) = (t.u8(), t.bool());
        let n = if pick(2) == 0 { 40 } else { 255 };
        let at = [0, 1, 15, 16, 39][pick(5)];
        let vs = (0..n).map(|i| {
            let k = (i + 40 - at) % 40;
            let f = match k { 1 | 5 | 6 | 8 => vec![(None, u)], 2 => vec![(Some("y"), bo), (Some("x"), u)], 3 => MANY[..18].iter().map(|n| (Some(*n), u)).collect(), _ => vec![] };
            ((i * 7 % 255) as u8, if i < 40 && k < 9 { ["A", "B", "C", "D", "None", "Some", "Ok", "a", "Err"][k] } else { MANY[i % 40] }, f)
        }).collect();
        let id = t.variant(vs);
        let k = [2, 3, 20][pick(3)];
        let b = vec(k);
        each!(param(); found as En | EnSkip | Option<u8> | Result<u8, u8>; (&t, id, &b))
    }
    c11_names(6, 6) ["value", "unfit"] "two variants with any ASCII names of 0..=5 characters, no field, a field or two, into enums, options and results" "" {
        let mut t = Types::new();
        let (u, bo) = (t.u8(), t.bool());
        let v = (0..2).map(|i| {
            let k = pick(6);
            let f = match pick(4) { 0 => vec![], 1 => vec![(None, u)], 2 => vec![(Some("y"), bo), (Some("x"), u)], _ => vec![(None, u), (None, u)] };
            (7 * i, any_name(k), f)
        }).collect();
        let id = t.variant(v);
        let b = vec(3);
        each!(param(); found as En | EnSkip | Option<u8> | Result<u8, bool> | Option<(u8, u8)> | EnRe; (&t, id, &b))
    }
    c11_long_names(3, 3) ["value", "unfit"] "two variants of names of 52 characters that are the target's or differ in any byte at one of 6 places, or in length; and names that are not ASCII" "" {
        let mut t = Types::new();
        let u = t.u8();
        let v = (0..2).map(|i| {
            let name = match param() { 2 => [NEAR[2], NEAR[0], NEAR[6], "Gro\u{308}ße", "Größe "][pick(5)], _ => spelled(LONG_VARIANTS[(i + param()) % 2]) };
            (3 * i as u8, name, if param() == 2 { vec![(Some("größe"), u)] } else { vec![(None, u)] })
        }).collect();
        let id = t.variant(v);
        found::<EnLong>(&t, id, &vec(2))
    }
}
