use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use core::time::Duration;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::{DecodeAsFields, DecodeAsType};
use scale_type_resolver::Primitive;

/// What is left after a decode has to be the end of what there was.
pub fn within(b: &[u8], c: &[u8]) {
    check(c.len() <= b.len() && c.as_ptr() as usize == b.as_ptr() as usize + (b.len() - c.len()), "the input slice was moved to something that is no suffix of it");
}
fn into<T: DecodeAsType + Conv>(t: &Types, id: u32, b: &[u8]) {
    let mut c = b;
    match T::decode_as_type(&mut c, id, t) { Ok(_) => { cover("value"); out(&[1]) } Err(_) => { cover("error"); out(&[0]) } }
    within(b, c);
}
fn fields_into<T: DecodeAsFields>(t: &Types, f: &[(Name, u32)], b: &[u8]) {
    let mut c = b;
    match T::decode_as_fields(&mut c, &mut fields(f), t) { Ok(_) => { cover("value"); out(&[1]) } Err(_) => { cover("error"); out(&[0]) } }
    within(b, c);
}
harnesses! { "C01";
    c01_targets(81, 81) ["value", "error"] "any of 28 leaf types or 18 containers over leaves, inputs of 0..=3 (5) bytes, into each of 81 targets" "" {
        let mut t = Types::new();
        let id = any_type(&mut t);
        let b = input(by_tier(3, 5));
        all_targets!(param(); into (&t, id, &b))
    }
    c01_scripted(18, 18) ["value", "error"] "18 containers over leaves, inputs of 0..=4 bytes, valid or not, visitors that read, skip, fail or ignore errors" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| { let k = pick(3); few(t, [0, 1, 4][k]) });
        let b = input(4);
        let s = Script::new(2);
        let mut c = &b[..];
        match decode_with_visitor(&mut c, id, &t, s.visitor()) { Ok(_) => cover("value"), Err(_) => cover("error") }
        within(&b, c);
    }
    c01_ignore(28, 28) ["value", "error"] "each leaf type, alone and in 13 containers, inputs of 0..=10 bytes (leaves) and 0..=4 (containers), ignored or rebuilt" "" {
        let mut t = Types::new();
        let k = pick(14);
        let id = if k == 13 { leaf(&mut t, param()) } else { container(&mut t, k, &mut |t| leaf(t, param())) };
        let b = input(if k == 13 { 10 } else { 4 });
        let mut c = &b[..];
        let ok = if pick(2) == 0 { decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok() } else { decode_with_visitor(&mut c, id, &t, ToNode).is_ok() };
        cover(if ok { "value" } else { "error" });
        within(&b, c);
    }
    c01_fields(9, 9) ["error"] "lists of up to 3 fields, named and unnamed, inputs of 0..=4 bytes, into 9 targets" "" {
        let mut t = Types::new();
        let n = pick(4);
        let mut f: Vec<(Name, u32)> = vec![];
        for _ in 0..n {
            let name = [None, Some("a"), Some("b")][pick(3)];
            let k = [0, 1, 4][pick(3)];
            f.push((name, few(&mut t, k)));
        }
        let b = input(4);
        each!(param(); fields_into as () | (u8,) | (u8, bool) | (String, u8, u8) | N1 | N2 | T2 | NSkip | Unit; (&t, &f, &b))
    }
    c01_shapes(81, 81) ["value", "error"] "tuples, composites and variants (of 10 names) with 0..=3 fields, named or not in any of four mixtures, inputs of 4 bytes, into each of 81 targets" "" {
        let mut t = Types::new();
        let (u, s) = (t.u8(), t.str());
        let (kind, n) = (pick(3), pick(4));
        let mut f: Vec<(Name, u32)> = vec![];
        let (named, odd) = (if kind == 0 { 0 } else { pick(4) }, pick(2) == 0);
        for i in 0..n { f.push(([None, Some(["a", "x", "b"][i]), if i == 0 { Some("b") } else { None }, if i == 2 { None } else { Some("y") }][named], if odd && i == 0 { s } else { u })) }
        let id = match kind {
            0 => { let i: Vec<u32> = f.iter().map(|x| x.1).collect(); t.tuple(&i) }
            1 => t.comp(f),
            _ => { let name = ["A", "B", "C", "D", "Z", "Some", "None", "Ok", "Err", ""][pick(10)]; t.variant(vec![(0, name, f)]) }
        };
        all_targets!(param(); into (&t, id, &vec(4)))
    }
    c01_extremes(4, 4) ["value", "error"] "values at the limits: durations, integers of 16 bytes, compact integers of every length, 18 bytes" "" {
        let mut t = Types::new();
        match param() {
            0 => { let (s, n) = (t.u64(), t.u32()); let id = t.tuple(&[s, n]); into::<Duration>(&t, id, &vec(12)); into::<Duration>(&t, id, &input(3)) }
            1 => { let s = t.u64(); let id = t.compact(s); let p = t.tuple(&[id, id]); into::<Duration>(&t, p, &input(18)) }
            2 => { let i = t.prim(Primitive::U128); let id = t.compact(i); into::<i128>(&t, id, &input(18)) }
            _ => { let k = pick(10); let id = t.prim(INTS[k]); let b = vec(16); into::<i8>(&t, id, &b); into::<core::num::NonZeroI64>(&t, id, &b); into::<usize>(&t, id, &b); into::<u128>(&t, id, &b); into::<u128>(&t, id, &b[..3]) }
        }
    }
}
