use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_decode::error::ErrorKind;
use scale_decode::visitor::{decode_with_visitor, DecodeError, Unexpected};
use scale_decode::{DecodeAsFields, DecodeAsType, Error};

pub fn own(t: &Types, id: u32, b: &[u8], budget: usize) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    let script = Script::new(budget);
    let mut c = b;
    let got = decode_with_visitor(&mut c, id, t, script.visitor());
    match (script.top.get(), got) {
        (Some(Err(e)), Err(g)) => {
            check(e == g, "another error was returned than the one of the visitor");
            cover("own error");
            if want.is_err() { cover("own error before malformed bytes") }
        }
        (Some(Err(_)), Ok(())) => fail("decoding succeeded although the visitor failed"),
        (Some(Ok(())), Ok(())) => { if !script.swallowed.get() { check(want.is_ok(), "decoding succeeded although the rest of the value cannot be skipped") } cover("succeeded") }
        (Some(Ok(())), Err(g)) => { check(want.is_err() && matches!(g, VErr::Decode(_)), "decoding failed although the visitor succeeded and the bytes are a value"); cover("cannot be skipped") }
        (None, Err(g)) => { check(want.is_err() && matches!(g, VErr::Decode(_)), "decoding failed without asking the visitor"); cover("not visited") }
        (None, Ok(())) => fail("decoding succeeded without asking the visitor"),
    }
    match got { Ok(()) => out(&[0]), Err(VErr::Decode(k)) => out(&[1, k]), Err(VErr::Own(k)) => out(&[2, k]) }
}
fn is(e: Error, k: &Unexpected) -> bool { matches!(e.kind(), ErrorKind::VisitorDecodeError(DecodeError::Unexpected(u)) if u == k) }
/// The first field does not fit, whatever comes behind it.
fn first_unfit<T: DecodeAsType + DecodeAsFields>(t: &Types, id: u32, f: &[(Name, u32)], b: &[u8]) {
    let fits = match T::decode_as_type(&mut &*b, id, t) { Ok(_) => false, Err(e) => is(e, &Unexpected::Bool) };
    check(fits, "the error of a field was lost as the rest is malformed");
    let fits = match T::decode_as_fields(&mut &*b, &mut fields(f), t) { Ok(_) => false, Err(e) => is(e, &Unexpected::Bool) };
    check(fits, "the error of a field was lost as the rest of the fields is malformed");
    cover("malformed rest");
}
harnesses! { "C10";
    c10_containers(18, 18) ["own error", "succeeded"] "18 containers over leaves, inputs of 0..=3 (4) bytes, visitors that fail anywhere in up to 2 (3) reads" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| { let k = pick(3); few(t, [0, 1, 4][k]) });
        let b = input(by_tier(3, 4));
        own(&t, id, &b, by_tier(2, 3));
    }
    c10_leaves(28, 28) ["own error", "succeeded"] "each of the 28 leaf types, inputs of 0..=6 bytes, also 16 to 18 and 32 to 33" "" {
        let mut t = Types::new();
        let id = leaf(&mut t, param());
        let b = match param() { 8 | 14 => vec(32 + pick(2)), 7 | 13 => vec(16 + pick(2)), 6 | 12 => vec(8 + pick(2)), _ => input(6) };
        own(&t, id, &b, 1);
    }
    c10_nested(18, 18) ["own error", "succeeded"] "containers in sequences, tuples, structs and variants, inputs of 0..=3 bytes" "" {
        let mut t = Types::new();
        let outer = pick(4);
        let (u8_, bool_) = (t.u8(), t.bool());
        assume(outer != 1 || ![10, 11, 13].contains(&param()));
        let inner = container(&mut t, param(), &mut |_| bool_);
        let id = match outer {
            0 => t.tuple(&[inner, bool_]),
            1 => t.seq(inner),
            2 => t.named(&[("a", inner), ("b", bool_)]),
            _ => t.variant(vec![(1, "V", vec![(None, inner), (None, bool_)])]),
        };
        let b = input(3);
        own(&t, id, &b, 2);
    }
    c10_fields(4, 4) ["malformed rest"] "a field that does not fit followed by any bytes, decoded from a type and from a field list" "" {
        let mut t = Types::new();
        let bool_ = t.bool();
        let k = pick(3);
        let more = few(&mut t, [1, 4, 5][k]);
        let f: Vec<(Name, u32)> = vec![(None, bool_), (if param() == 3 { Some("b") } else { None }, more)];
        let id = t.comp(f.clone());
        let b = vec(1 + pick(4));
        assume(b[0] < 2);
        match param() { 0 => first_unfit::<NGen<u8, u8>>(&t, id, &f, &b), 1 => first_unfit::<T2>(&t, id, &f, &b), 2 => first_unfit::<N2>(&t, id, &f, &b), _ => first_unfit::<(u8, u8)>(&t, id, &f, &b) }
    }
    c10_wide(4, 4) ["malformed rest"] "one of 18 fields (the 1st, 2nd, 16th, 17th or last) that does not fit, followed by a malformed one or by nothing, decoded from a type and from a field list" "" {
        let mut t = Types::new();
        let (u, bool_, s) = (t.u8(), t.bool(), t.str());
        let n = 18;
        let at = [0, 1, 15, 16, 17][pick(5)];
        // (A struct of named fields wants to know where each of them is before it decodes any.)
        let named = param() == 3;
        let f: Vec<(Name, u32)> = (0..n).map(|i| (if named && i == 4 { Some("x") } else { None }, if i == at { bool_ } else if i == at + 1 { s } else { u })).collect();
        let id = t.comp(f.clone());
        let mut b = vec(at + 1 + pick(2));
        assume(b[at] < 2);
        if b.len() == at + 2 { assume(b[at + 1] > 3) }
        b.shrink_to_fit();
        type Wide = (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
        match param() { 0 => first_unfit::<Wide>(&t, id, &f, &b), 1 => first_unfit::<TWide>(&t, id, &f, &b), _ => first_unfit::<NWide>(&t, id, &f, &b) }
    }
}
