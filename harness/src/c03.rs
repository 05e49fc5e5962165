use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::DecodeAsType;

/// Decode with and without bytes after the value.
pub fn suffixed<T: DecodeAsType + Conv>(t: &Types, id: u32, b: &[u8], n: usize) {
    let mut c = &b[..n];
    let Ok(v) = T::decode_as_type(&mut c, id, t) else { cover("error"); return };
    let mut s = &b[..n];
    if spec(t, id, false, &mut s).is_ok() { check(s.len() == c.len(), "the wrong number of bytes was consumed") }
    let mut d = b;
    match T::decode_as_type(&mut d, id, t) {
        Ok(w) => {
            check(v.same(&w), "bytes after the value changed what was decoded");
            check(d.len() == c.len() + (b.len() - n), "bytes after the value changed how much was consumed");
            cover("value");
            out_u64(d.len() as u64);
        }
        Err(_) => fail("bytes after the value made decoding fail"),
    }
}
fn ignored(t: &Types, id: u32, b: &[u8], n: usize) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    if want == Err(Bad::TooLong) { return }
    let mut c = b;
    let got = decode_with_visitor(&mut c, id, t, IgnoreVisitor::new());
    check(got.is_ok() == want.is_ok(), "bytes were ignored as a value which are none, or refused although they are one");
    if got.is_ok() { check(s.len() == c.len(), "ignoring a value consumed the wrong number of bytes"); cover("value"); out_u64(c.len() as u64) } else { cover("error") }
}
harnesses! { "C03";
    c03_targets(81, 81) ["value", "error"] "any of 28 leaf types or 18 containers over leaves, inputs of 0..=4 bytes with and without 1 to 2 more, into each of 81 targets" "" {
        let mut t = Types::new();
        let id = any_type(&mut t);
        let n = pick(by_tier(3, 5));
        let k = pick(2) + 1;
        let b = vec(n + k);
        all_targets!(param(); suffixed (&t, id, &b, n))
    }
    c03_wide(10, 10) ["value"] "fixed-width values of 4 to 32 bytes followed by 0 to 40 more" "" {
        use scale_type_resolver::Primitive::*;
        let mut t = Types::new();
        let (p, n) = [(U32, 4), (U64, 8), (U128, 16), (I32, 4), (I64, 8), (I128, 16), (Char, 4), (U256, 32), (I256, 32), (U16, 2)][param()];
        let i = t.prim(p);
        let id = match pick(4) { 0 => i, 1 => t.tuple(&[i]), 2 => t.array(i, 1), _ => t.named(&[("a", i)]) };
        let b = vec(n + [0, 1, 7, 16, 33, 40][pick(6)]);
        ignored(&t, id, &b, n);
        match param() { 0 => suffixed::<u32>(&t, id, &b, n), 1 => suffixed::<u64>(&t, id, &b, n), 2 => suffixed::<u128>(&t, id, &b, n), 3 => suffixed::<i64>(&t, id, &b, n), 4 => suffixed::<(i64,)>(&t, id, &b, n), 5 => suffixed::<[i128; 1]>(&t, id, &b, n), 6 => suffixed::<char>(&t, id, &b, n), _ => {} }
        let mut c = &b[..];
        match decode_with_visitor(&mut c, id, &t, ToNode) { Ok(_) => { check(c.len() == b.len() - n, "the wrong number of bytes was consumed"); cover("value") } Err(_) => check(matches!(p, Char), "a valid encoding was rejected") }
    }
    c03_ignored(18, 18) ["value", "error"] "18 containers over leaves and over containers, ignored, inputs of 0..=5 bytes" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| {
            let k = pick(FEW_LEAVES + 4);
            if k < FEW_LEAVES { few(t, k) } else { container(t, [0, 2, 4, 8][k - FEW_LEAVES], &mut |t| t.bool()) }
        });
        ignored(&t, id, &input(by_tier(4, 6)), 0);
    }
    c03_lengths(8, 8) ["value"] "strings of 63, 64, 8191, 8192, 16383, 16384 and 20000 zero bytes between other values, decoded and ignored" "steps=100000000" {
        let mut t = Types::new();
        let s = t.str();
        let u = t.u8();
        let n = [63, 64, 65, 8191, 8192, 16383, 16384, 20000][param()];
        let mut b = zeros(n as u64, n, 1);
        b.insert(0, byte());
        let id = match pick(2) { 0 => t.tuple(&[u, s, u]), _ => t.named(&[("a", u), ("b", s), ("c", u)]) };
        let mut c = &b[..];
        if pick(2) == 0 {
            check(decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok(), "a long string was refused");
        } else {
            match <(u8, String, u8)>::decode_as_type(&mut c, id, &t) {
                Ok(v) => check(v.0 == b[0] && v.1.len() == n && v.1.as_bytes()[0] == 0 && v.1.as_bytes()[n - 1] == 0 && v.2 == b[b.len() - 1], "a long string was decoded to something else"),
                Err(_) => fail("a long string was refused"),
            }
        }
        check(c.is_empty(), "the wrong number of bytes was consumed for a long string");
        cover("value");
    }
    c03_huge(9, 9) ["value"] "strings, and bit sequences in 8 formats, of 2^14 to 2^31 bytes or 2^32-1 bits (prefixes of two to five bytes), ignored between other values" "alloc=5000000000" {
        let mut t = Types::new();
        let u = t.u8();
        let k = param();
        // Just below and from the lengths at which something changes.
        let n = [1u64 << 14, (1 << 16) - 1, 1 << 16, (1 << 24) + 1, (1 << 28) - 1, 1 << 28, (1 << 29) - 1, 1 << 29, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1][pick(13)];
        let (s, size) = if k == 0 { assume(n <= 1 << 31); (t.str(), n) } else { let f = BITS[k - 1]; (t.bits(f.0, f.1), n.div_ceil(store_bytes(f.0) as u64 * 8) * store_bytes(f.0) as u64) };
        let b = zeros(n, size as usize, 2);
        let id = match pick(3) { 0 => s, 1 => t.tuple(&[s, u]), _ => t.named(&[("b", s), ("c", u)]) };
        let mut c = &b[..];
        check(decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok(), "a huge value was refused");
        check(c.len() == 1 + (id == s) as usize, "the wrong number of bytes was consumed for a huge value");
        cover("value");
    }
    c03_deep(7, 7) ["value"] "values up to 60 (200) levels deep: tuples, structs, arrays, variants, lists, wrappers, and types that contain themselves; decoded by a visitor and ignored, whole, followed by more, and cut short" "steps=100000000 depth=6000" {
        let mut t = Types::new();
        let (u, n) = (t.u8(), t.u16());
        let depth = [15, 31, 33, by_tier(60, 200)][pick(4)];
        let k = param();
        let mut b = vec![];
        let mut id = n;
        if k < 5 {
            for l in 0..depth {
                let x = if l % 16 == 0 { byte() } else { l as u8 };
                id = match k {
                    0 => { b.push(x); t.tuple(&[u, id]) }
                    1 => { b.push(x); t.named(&[("a", u), ("b", id)]) }
                    2 => t.array(id, 1),
                    3 => { b.push(1); t.option(id) }
                    _ => match l % 4 { 0 => t.tuple(&[id]), 1 => t.named(&[("w", id)]), 2 => t.unnamed(&[id]), _ => { b.push(4); t.seq(id) } },
                };
            }
        } else {
            // (An item of itself.)
            let own = t.0.len() as u32;
            id = if k == 5 { t.seq(own) } else { t.variant(vec![(0, "End", vec![(None, n)]), (1, "More", vec![(None, u), (Some("m"), own)])]) };
            for l in 0..depth { if k == 5 { b.push(4) } else { b.extend_from_slice(&[1, l as u8]) } }
            b.push(0);
        }
        if k != 5 { b.extend_from_slice(&vec(2)) }
        let n = b.len();
        b.extend_from_slice(&vec(pick(2)));
        if pick(3) == 0 { b.truncate(n - 1) }
        ignored(&t, id, &b, 0);
        let mut s = &b[..];
        let want = spec(&t, id, false, &mut s);
        let mut c = &b[..];
        match decode_with_visitor(&mut c, id, &t, ToNode) {
            Ok(v) => { check(want == Ok(v), "another value was shown"); check(c.len() == s.len(), "the wrong number of bytes was consumed"); cover("value") }
            Err(_) => check(want.is_err(), "a valid encoding was rejected"),
        }
    }
    c03_suffix(46, 46) ["value"] "each of 28 leaf types and 18 containers over leaves, values of up to 5 bytes (33 for leaves), followed by 300, 70000, 2^24 and 2^31 more" "alloc=5000000000" {
        let mut t = Types::new();
        let k = param();
        let id = if k < ALL_LEAVES { leaf(&mut t, k) } else { container(&mut t, k - ALL_LEAVES, &mut |t| { let k = pick(3); few(t, [0, 2, 4][k]) }) };
        let v = if k == 8 || k == 14 { vec(32) } else if k < ALL_LEAVES { input(17) } else { input(4) };
        let mut s = &v[..];
        let want = spec(&t, id, false, &mut s);
        if want.is_err() || !s.is_empty() { return }
        let more = [300usize, 70000, (1 << 24) + 3, (1 << 31) + 5][pick(4)];
        let mut b = vec![0u8; v.len() + more];
        b[..v.len()].copy_from_slice(&v);
        let mut c = &b[..];
        match decode_with_visitor(&mut c, id, &t, ToNode) { Ok(x) => check(want == Ok(x), "bytes after a value changed what was shown"), Err(_) => fail("bytes after a value made decoding fail") }
        check(c.len() == more, "bytes after a value changed how much was consumed");
        let mut c = &b[..];
        check(decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok() && c.len() == more, "bytes after a value changed how it is ignored");
        cover("value");
    }
    c03_claims(12, 12) ["error", "value"] "sequences of leaves, containers and sequences, strings and bit sequences whose length is given in 1, 2, 4 to 9 bytes and any, followed by 0 to 2 bytes; decoded by a visitor, ignored and into a type" "" {
        let mut t = Types::new();
        let k = param();
        let id = if k < FEW_LEAVES { let i = few(&mut t, k); t.seq(i) } else if k < 10 { let i = container(&mut t, [0, 1, 2, 4][k - FEW_LEAVES], &mut |t| t.u8()); t.seq(i) } else { few(&mut t, k - 6) };
        let head = [1usize, 2, 4, 5, 6, 7, 8, 9, 10][pick(9)];
        let mut b = vec(head + pick(3));
        b[0] = match head { 1 => b[0] & !3, 2 => b[0] & !3 | 1, 4 => b[0] & !3 | 2, _ => ((head - 5) << 2) as u8 | 3 };
        ignored(&t, id, &b, 0);
        let mut s = &b[..];
        let want = spec(&t, id, false, &mut s);
        let mut c = &b[..];
        match decode_with_visitor(&mut c, id, &t, ToNode) {
            Ok(v) => { check(want == Ok(v), "another value was shown"); check(c.len() == s.len(), "the wrong number of bytes was consumed") }
            Err(_) => check(want.is_err(), "a valid encoding was rejected"),
        }
        if k == 0 { check(Vec::<u8>::decode_as_type(&mut &b[..], id, &t).is_ok() == want.is_ok(), "a sequence was decoded which is none, or refused although it is one") }
        if k == 10 && want.is_err() { check(String::decode_as_type(&mut &b[..], id, &t).is_err(), "a string was decoded which is none") }
    }
}
