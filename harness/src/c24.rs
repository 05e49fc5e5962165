use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_decode::error::ErrorKind;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor};
use scale_decode::{DecodeAsFields, DecodeAsType};
use scale_type_resolver::UnhandledKind;

/// A type that cannot be used.
fn unusable(t: &mut Types, k: usize) -> u32 {
    match k {
        0 => t.add(Def::NotFound),
        1 => t.add(Def::Fails),
        2 => 500,
        3 => t.add(Def::Unhandled(UnhandledKind::Composite)),
        _ => t.add(Def::Unhandled([UnhandledKind::Variant, UnhandledKind::Sequence, UnhandledKind::Array, UnhandledKind::Tuple, UnhandledKind::Primitive, UnhandledKind::Compact, UnhandledKind::BitSequence, UnhandledKind::NotFound][k - 4])),
    }
}
fn some(t: &mut Types) -> u32 { match pick(5) { 0 | 1 => t.u8(), 2 => t.bool(), _ => { let k = pick(4); unusable(t, k) } } }
fn code(b: Bad) -> Option<u8> { match b { Bad::NotFound | Bad::Unhandled => Some(1), Bad::Resolver => Some(2), _ => None } }
/// A visitor that reads everything and one that reads nothing.
fn read(t: &Types, id: u32, b: &[u8]) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    if want == Err(Bad::TooLong) { return }
    for ignore in [false, true] {
        let mut c = b;
        let got = if ignore { decode_with_visitor(&mut c, id, t, IgnoreVisitor::new()).map(|_| None) } else { decode_with_visitor(&mut c, id, t, ToNode).map(Some) };
        match (&want, got) {
            (Ok(n), Ok(g)) => {
                if let Some(g) = g { check(g == *n, "another value was decoded than the encoded one") }
                check(c.len() == s.len(), "the wrong number of bytes was consumed");
                cover("not needed");
            }
            (Ok(_), Err(_)) => fail("a type that is not needed, or none that is unusable, made decoding fail"),
            (Err(_), Ok(_)) => fail("a value was produced although its type is unusable or its bytes are malformed"),
            (Err(w), Err(e)) => {
                if let Some(k) = code(*w) { check(err_code(&e) == k, "an unusable type is reported as another error"); cover("unusable") } else { cover("malformed") }
                out(&[err_code(&e)]);
            }
        }
    }
}
/// Targets: nothing is decoded from an unusable type.
fn target<T: Conv + DecodeAsType>(t: &Types, id: u32, b: &[u8], exact: bool) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    let mut c = b;
    let got = T::decode_as_type(&mut c, id, t);
    if let (Err(e), Err(w)) = (&got, &want) {
        if let Some(k) = code(*w) {
            if exact { check(matches!(e.kind(), ErrorKind::VisitorDecodeError(d) if err_code(d) == k), "an unusable type is reported as another error") }
            cover("unusable");
        }
    }
    judge(t, id, want, s.len(), got, c.len(), KIND)
}
fn listed<T: Conv + DecodeAsFields>(t: &Types, f: &[(Name, u32)], b: &[u8]) {
    let id = t.0.len() as u32 - 1;
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    let mut c = b;
    let got = T::decode_as_fields(&mut c, &mut fields(f), t);
    if let Err(w) = &want { if code(*w).is_some() { check(got.is_err(), "fields of an unusable type were decoded"); cover("unusable") } }
    judge(t, id, want, s.len(), got, c.len(), 0)
}
harnesses! { "C24";
    c24_read(18, 18) ["unusable", "not needed"] "18 containers over usable and unusable types (unknown, unhandled, resolver error, ID out of range), read and skipped, inputs of 0..=5 bytes" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| some(t));
        read(&t, id, &input(5));
    }
    c24_nested(18, 18) ["unusable"] "such containers within tuples, structs, sequences, variants and wrappers, inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        let i = container(&mut t, param(), &mut |t| if pick(2) == 0 { t.u8() } else { let k = pick(3); unusable(t, k) });
        let u = t.u8();
        let id = match pick(6) {
            0 => t.tuple(&[u, i]),
            1 => t.named(&[("a", i), ("b", u)]),
            2 => { let s = t.seq(i); assume(![10, 11, 13].contains(&param())); s }
            3 => t.variant(vec![(1, "A", vec![(None, u), (None, i)]), (0, "B", vec![])]),
            4 => t.tuple(&[i]),
            _ => t.compact(i),
        };
        read(&t, id, &vec(by_tier(4, 6)));
    }
    c24_kinds(12, 12) ["unusable"] "each way to be unusable, at top level and in a tuple, skipped and into every target" "" {
        let mut t = Types::new();
        let i = unusable(&mut t, param());
        let u = t.u8();
        let pair = t.tuple(&[u, i]);
        let b = vec(3);
        read(&t, i, &b);
        read(&t, pair, &b);
        let k = pick(ALL_TARGETS);
        let id = if pick(2) == 0 { i } else { pair };
        all_targets!(k; target (&t, id, &b, id == i));
    }
    c24_targets(81, 81) ["unusable"] "every target from 18 containers over usable and unusable types, inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        let k = pick(CONTAINERS);
        let id = container(&mut t, k, &mut |t| if pick(2) == 0 { t.u8() } else { let k = pick(3); unusable(t, k) });
        all_targets!(param(); target (&t, id, &vec(4), false));
    }
    c24_fitting(14, 14) ["unusable", "value"] "targets from types that fit but for an unusable part: the type error is what is reported; inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        let (u, k) = (t.u8(), pick(3));
        let x = unusable(&mut t, k);
        let b = vec(4);
        let t = &mut t;
        match param() {
            0 => { let id = t.seq(x); target::<Vec<u8>>(t, id, &b, true) }
            1 => { let id = t.array(x, pick(3)); if pick(2) == 0 { target::<[u8; 2]>(t, id, &b, true) } else { target::<Vec<u8>>(t, id, &b, true) } }
            2 => { let id = t.tuple(&[u, x]); target::<(u8, u8)>(t, id, &b, true) }
            3 => { let id = t.named(&[("a", u), ("b", x)]); target::<N2>(t, id, &b, true) }
            4 => { let id = t.named(&[("q", x), ("a", u)]); target::<N1>(t, id, &b, true) }
            5 => { let id = if pick(2) == 0 { t.option(x) } else { t.result(x, u) }; if matches!(&t.0[id as usize], Def::Variant(v) if v[0].1 == "None") { target::<Option<u8>>(t, id, &b, true) } else { target::<Result<u8, u8>>(t, id, &b, true) } }
            6 => { let id = wraps(t, 3, 4, x); target::<u8>(t, id, &b, true); target::<(u8,)>(t, id, &b, true); target::<String>(t, id, &b, true) }
            7 => { let id = t.named(&[("a", u), ("b", x)]); target::<std::collections::BTreeMap<String, u8>>(t, id, &b, true) }
            8 => { let id = t.variant(vec![(0, "B", vec![(None, u)]), (1, "D", vec![(None, u), (None, x)]), (2, "C", vec![(Some("x"), u), (Some("e"), x), (Some("y"), u)]), (3, "A", vec![(None, x)])]); target::<En>(t, id, &b, false) }
            9 => { let id = t.unnamed(&[u, x]); target::<N2>(t, id, &b, true); target::<T2>(t, id, &b, true) }
            10 => { let id = t.tuple(&[x, x]); target::<core::ops::Range<u8>>(t, id, &b, true); target::<core::time::Duration>(t, id, &b, true) }
            11 => { let id = wraps(t, 2, 3, x); target::<Box<u8>>(t, id, &b, true); target::<codec::Compact<u32>>(t, id, &b, true); target::<std::borrow::Cow<'static, str>>(t, id, &b, true) }
            12 => { let s = t.seq(x); let id = t.tuple(&[u, s]); target::<(u8, Vec<u8>)>(t, id, &b, true) }
            _ => {
                let mut f: Vec<(Name, u32)> = vec![];
                for n in ["a", "b", "c"] { if pick(2) == 0 { f.push((Some(n), if pick(2) == 0 { u } else { x })) } }
                t.comp(f.clone());
                listed::<N1>(t, &f, &b);
                listed::<(u8, u8)>(t, &f, &b);
                listed::<N2>(t, &f, &b)
            }
        }
    }
    c24_registry(3, 3) ["unusable"] "a scale-info registry without the ID asked for, or whose types refer to an ID it does not have" "" {
        use scale_info::{form::PortableForm, PortableRegistry};
        let mut r = scale_info::Registry::new();
        r.register_type(&scale_info::meta_type::<(u8, bool)>());
        let mut r: PortableRegistry = r.into();
        let n = r.types.len() as u32;
        let b = vec(3);
        let id = match param() {
            0 => n + byte() as u32,
            1 => { r.types.truncate(1); 0 }
            _ => { r.types.clear(); 0 }
        };
        let mut c = &b[..];
        let e = decode_with_visitor(&mut c, id, &r, IgnoreVisitor::new());
        check(matches!(&e, Err(DecodeError::TypeIdNotFound(_))), "an ID that is not in the registry is not reported as such");
        let mut c = &b[..];
        match <(u8, bool)>::decode_as_type(&mut c, id, &r) { Err(e) => check(matches!(e.kind(), ErrorKind::VisitorDecodeError(DecodeError::TypeIdNotFound(_))), "an ID that is not in the registry is not reported as such"), Ok(_) => fail("a value was decoded by an ID that is not in the registry") }
        cover("unusable");
    }
    c24_wide(5, 5) ["unusable", "not needed"] "tuples, structs and variants of 15 to 18 and 40 items, one of which is unusable" "" {
        let mut t = Types::new();
        let u = t.u8();
        let n = [15, 16, 17, 18, 40][pick(5)];
        let k = pick(5);
        let x = if k == 4 { u } else { unusable(&mut t, k) };
        let at = [0, 14, 15, 16, 17, n - 1][pick(6)].min(n - 1);
        let ids: Vec<u32> = (0..n).map(|i| if i == at { x } else { u }).collect();
        let (id, mut b) = broad(&mut t, param(), &ids);
        b.extend_from_slice(&vec(n));
        read(&t, id, &b);
        if param() == 1 { target::<NWide>(&t, id, &b, n == 18) }
    }
}
