use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::DecodeAsType;

/// `b` is exactly a value; none of its beginnings is.
fn exact(t: &Types, id: u32, b: &[u8]) {
    let mut s = b;
    let ok = spec(t, id, false, &mut s).is_ok();
    assume(ok && s.is_empty());
    cover("encoding");
    out(&[b.len() as u8]);
    for k in 0..b.len() {
        let mut c = &b[..k];
        check(decode_with_visitor(&mut c, id, t, IgnoreVisitor::new()).is_err(), "a truncated value was ignored as if it were whole");
        let mut c = &b[..k];
        check(decode_with_visitor(&mut c, id, t, ToNode).is_err(), "a truncated value was decoded");
        cover("prefix");
    }
}
fn into<T: DecodeAsType + Conv>(t: &Types, id: u32, b: &[u8]) {
    let mut s = b;
    let ok = spec(t, id, false, &mut s).is_ok();
    assume(ok && s.is_empty());
    for k in 0..b.len() {
        let mut c = &b[..k];
        check(T::decode_as_type(&mut c, id, t).is_err(), "a truncated value was decoded");
        cover("prefix");
    }
}
harnesses! { "C18";
    c18_leaves(28, 28) ["encoding", "prefix"] "each of the 28 leaf types, encodings of 0..=16 (20) bytes (32 for 256-bit integers)" "" {
        let mut t = Types::new();
        let id = leaf(&mut t, param());
        let b = if param() == 8 || param() == 14 { vec(32) } else { input(by_tier(16, 20)) };
        exact(&t, id, &b);
    }
    c18_containers(18, 18) ["encoding"] "18 containers over leaves and over containers, encodings of 0..=6 (8) bytes" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| {
            let k = pick(FEW_LEAVES + 4);
            if k < FEW_LEAVES { few(t, k) } else { container(t, [0, 2, 4, 8][k - FEW_LEAVES], &mut |t| t.u8()) }
        });
        exact(&t, id, &input(by_tier(5, 7)));
    }
    c18_targets(81, 81) [] "any of 28 leaf types or 18 containers over leaves, encodings of 0..=5 bytes, into each of 81 targets" "" {
        let mut t = Types::new();
        let id = any_type(&mut t);
        let b = input(by_tier(4, 5));
        all_targets!(param(); into (&t, id, &b))
    }
    c18_long(4, 4) ["encoding", "prefix"] "sequences and strings of 64 bytes and bit sequences of 64 bits and more, whose length takes two bytes" "" {
        let mut t = Types::new();
        let u8_ = t.u8();
        let id = match param() { 0 => t.seq(u8_), 1 => t.str(), 2 => t.bits(BITS[0].0, BITS[0].1), _ => t.bits(BITS[7].0, BITS[7].1) };
        let n = 64 + pick(2);
        let b = match param() { 0 | 1 => { let mut b = vec(2 + n); b[0] = (n << 2) as u8 | 1; b[1] = (n >> 6) as u8; b } _ => { let mut b = vec(2 + if param() == 2 { (n + 7) / 8 } else { (n + 63) / 64 * 8 }); b[0] = (n << 2) as u8 | 1; b[1] = (n >> 6) as u8; b } };
        exact(&t, id, &b);
    }
    c18_wide(5, 5) ["encoding", "prefix"] "tuples, structs and variants of 16 to 18 items" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.u16()];
        let n = 16 + pick(3);
        let ids: Vec<u32> = (0..n).map(|i| of[(i == 16 || i == n - 1) as usize]).collect();
        let (id, mut b) = broad(&mut t, param(), &ids);
        b.extend_from_slice(&vec(n + 1 + (n == 18) as usize));
        exact(&t, id, &b);
        let named = param() == 1;
        if n == 18 && named { into::<NWide>(&t, id, &b) }
    }
    c18_huge(3, 3) ["prefix"] "strings and bit sequences of 65535 to 65537 bytes, 2^24, 2^29 and more that lack one byte, 256, 65536, half of theirs or all, ignored, decoded and rebuilt" "alloc=6000000000" {
        let mut t = Types::new();
        let (s, u) = (t.str(), t.u8());
        let bits = param() == 2;
        let i = if bits { t.bits(BITS[0].0, BITS[0].1) } else { s };
        let n = [65_535u64, 65_536, 65_537, 1 << 24, (1 << 24) + 5, (1 << 29) - 1][pick(6)];
        let less = [1, 256, 65_535, n / 2, n][pick(5)];
        let b = zeros(if bits { n * 8 } else { n }, (n - less) as usize, 0);
        let id = match pick(3) { 0 => i, 1 => t.tuple(&[i, u]), _ => t.seq(i) };
        let b = if pick(2) == 0 { b } else { assume(matches!(t.0[id as usize], Def::Seq(_))); let mut c = vec![4u8; 1]; c.extend_from_slice(&b); c };
        assume(!matches!(t.0[id as usize], Def::Seq(_)) || b[0] == 4);
        let err = match pick(3) {
            0 => decode_with_visitor(&mut &b[..], id, &t, IgnoreVisitor::new()).is_err(),
            1 => decode_with_visitor(&mut &b[..], id, &t, ToNode).is_err(),
            _ => match (bits, &t.0[id as usize]) { (false, Def::Tuple(_)) => <(String, u8)>::decode_as_type(&mut &b[..], id, &t).is_err(), (false, Def::Seq(_)) => Vec::<String>::decode_as_type(&mut &b[..], id, &t).is_err(), (false, _) => String::decode_as_type(&mut &b[..], id, &t).is_err(), (true, Def::Tuple(_)) => <(scale_bits::Bits, u8)>::decode_as_type(&mut &b[..], id, &t).is_err(), (true, Def::Seq(_)) => Vec::<scale_bits::Bits>::decode_as_type(&mut &b[..], id, &t).is_err(), (true, _) => scale_bits::Bits::decode_as_type(&mut &b[..], id, &t).is_err() },
        };
        check(err, "a truncated value was decoded or skipped as if it were whole");
        cover("prefix");
    }
}
