use crate::{conv::*, model::*, sym::*, visit::*};
use scale_bits::Bits;
use scale_decode::visitor::types::BitSequence;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor, Unexpected, Visitor};

/// Reads none, some or all bits and then succeeds or fails, looking at the bytes in between.
struct Partly<'x> { how: usize, b: &'x [u8], left: Option<usize> }
impl<'x> Visitor for Partly<'x> {
    type Value<'s, 'r> = ();
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> {
        check(v.bytes_from_start().len() == self.b.len() && v.bytes_from_start().as_ptr() == self.b.as_ptr(), "the bytes from the start are not those at the bit sequence");
        let after = |v: &BitSequence<'s>| match (v.bytes_after(), self.left) {
            (Ok(x), Some(n)) => check(x.len() == n && x.as_ptr() as usize == self.b.as_ptr() as usize + self.b.len() - n, "the bytes after are not those after the bit sequence"),
            (Err(_), None) => {}
            _ => fail("there are bytes after a bit sequence that is not all there, or none after one that is"),
        };
        after(v);
        match self.how {
            0 => Ok(()),
            1 => Err(VErr::Own(1)),
            2 => { v.decode()?; after(v); Ok(()) }
            3 => { v.decode()?.next(); after(v); Err(VErr::Own(2)) }
            4 => { for b in v.decode()? { b.map_err(|e| VErr::from(DecodeError::from(e)))?; } after(v); Ok(()) }
            _ => { v.decode()?; v.decode()?; after(v); Err(VErr::Own(3)) }
        }
    }
}
fn partly(t: &Types, id: u32, b: &[u8]) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    let how = pick(6);
    let mut c = b;
    let got = decode_with_visitor(&mut c, id, t, Partly { how, b, left: want.as_ref().ok().map(|_| s.len()) });
    if want.is_ok() {
        check(c.len() == s.len(), "the input is not left after the last store word");
        check(got == match how { 1 => Err(VErr::Own(1)), 3 => Err(VErr::Own(2)), 5 => Err(VErr::Own(3)), _ => Ok(()) }, "another result than the visitor's");
        cover("value");
    } else {
        check(got.is_err(), "a bit sequence was decoded that is not there");
        if how == 1 { check(got == Err(VErr::Own(1)), "another error than the visitor's") }
        cover("malformed");
    }
    out_u64(c.len() as u64);
}
/// `n` bits: prefix, store words, `extra` bytes.
fn words(n: usize, w: usize, extra: usize) -> Vec<u8> {
    let mut b = vec![];
    if n < 64 { b.push((n << 2) as u8) } else if n < 1 << 14 { b.extend_from_slice(&((n << 2 | 1) as u16).to_le_bytes()) } else { b.extend_from_slice(&((n << 2 | 2) as u32).to_le_bytes()) }
    b.extend_from_slice(&mostly((n + 8 * w - 1) / (8 * w) * w + extra));
    b
}
harnesses! { "C17";
    c17_bits(8, 8) ["value", "malformed"] "8 formats, every input of 0..=10 (18) bytes, into Bits" "" {
        let mut t = Types::new();
        let id = t.bits(BITS[param()].0, BITS[param()].1);
        diff::<Bits>(&t, id, &input(by_tier(10, 18)), KIND)
    }
    c17_partly(8, 8) ["value", "malformed"] "8 formats, every input of 0..=10 (18) bytes, visitors that read none, some or all bits and succeed or fail" "" {
        let mut t = Types::new();
        let id = t.bits(BITS[param()].0, BITS[param()].1);
        partly(&t, id, &input(by_tier(10, 18)))
    }
    c17_followed(8, 8) ["value", "malformed"] "8 formats, a bit sequence between other values, inputs of 0..=11 bytes" "" {
        let mut t = Types::new();
        let s = t.bits(BITS[param()].0, BITS[param()].1);
        let u = t.u8();
        let id = t.tuple(&[u, s, u]);
        diff::<(u8, Bits, u8)>(&t, id, &input(by_tier(11, 12)), KIND)
    }
    c17_two(8, 8) ["value", "malformed"] "8 formats, two bit sequences in a row of different formats, inputs of 0..=4 and 10 to 11 bytes" "" {
        let mut t = Types::new();
        let s = t.bits(BITS[param()].0, BITS[param()].1);
        let k = pick(3);
        let r = t.bits(BITS[[0, 4, 5][k]].0, BITS[[0, 4, 5][k]].1);
        let id = t.tuple(&[s, r]);
        let b = if pick(2) == 0 { input(4) } else { let n = 10 + pick(2); vec(n) };
        if b.len() > 4 { assume(b[0] & 3 == 0 && b[0] < 20) }
        diff::<(Bits, Bits)>(&t, id, &b, KIND)
    }
    c17_long(8, 8) ["value"] "8 formats, 63 to 65, 127, 128, 130 bits and 16384 bits (prefixes of one, two and four bytes)" "steps=100000000" {
        let mut t = Types::new();
        let (s, o) = BITS[param()];
        let id = t.bits(s, o);
        let n = [63, 64, 65, 127, 128, 130, 16383, 16384][pick(8)];
        let b = words(n, store_bytes(s), 1);
        if n < 1000 { diff::<Bits>(&t, id, &b, KIND) } else {
            let from = if n < 1 << 14 { 2 } else { 4 };
            let mut c = &b[..];
            let Ok(v) = <Bits as scale_decode::DecodeAsType>::decode_as_type(&mut c, id, &t) else { fail("a long bit sequence was rejected") };
            check(v.len() == n && c.len() == 1, "a long bit sequence has the wrong number of bits or bytes");
            let w = 8 * store_bytes(s);
            let mut same = true;
            for k in (0..n).filter(|k| *k < 200 || *k + 200 > n) {
                let pos = if matches!(o, scale_type_resolver::BitsOrderFormat::Lsb0) { k % w } else { w - 1 - k % w };
                same &= v.get(k) == Some(b[from + k / w * (w / 8) + pos / 8] >> (pos % 8) & 1 == 1);
            }
            check(same, "a bit of a long bit sequence is not the encoded one");
            cover("value");
        }
    }
    c17_huge(8, 8) ["value"] "8 formats, 2^14 to 2^32-1 bits (prefixes of two, four and five bytes): the visitor's result, and where the input is left, if the bits are not read or only the first is" "alloc=5000000000" {
        let mut t = Types::new();
        let (s, o) = BITS[param()];
        let id = t.bits(s, o);
        let n = [(1u64 << 14) - 1, 1 << 14, (1 << 16) - 1, 1 << 16, (1 << 24) + 1, 1 << 28, (1 << 29) + 9, (1 << 30) - 1, 1 << 30, (1 << 31) + 1, (1 << 32) - 1][pick(11)];
        let w = store_bytes(s);
        let b = zeros(n, n.div_ceil(8 * w as u64) as usize * w, 1);
        let how = pick(4);
        let mut c = &b[..];
        let got = decode_with_visitor(&mut c, id, &t, Partly { how, b: &b, left: Some(1) });
        check(got == match how { 1 => Err(VErr::Own(1)), 3 => Err(VErr::Own(2)), _ => Ok(()) }, "another result than the visitor's");
        check(c.len() == 1, "the input is not left after the last store word");
        cover("value");
    }
}
