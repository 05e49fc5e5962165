use crate::{conv::*, model::*, sym::*, visit::*};
use scale_decode::visitor::types::Str;
use scale_decode::visitor::{decode_with_visitor, DecodeError, Visitor};
use scale_decode::DecodeAsType;
use std::borrow::Cow;

/// Checks everything the string view says against the bytes of the value (at `from` in `b`, text at `text`, up to `end`).
struct View<'x> { b: &'x [u8], from: usize, text: usize, end: usize }
fn ptr_is(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.as_ptr() == b.as_ptr() }
impl<'x> Visitor for View<'x> {
    type Value<'s, 'r> = Result<&'s str, bool>;
    type Error = DecodeError;
    type TypeResolver = Types;
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        check(v.len() == self.end - self.text, "the string view has the wrong length");
        check(v.is_empty() == (v.len() == 0), "the string view is wrong about being empty");
        check(ptr_is(v.bytes_from_start(), &self.b[self.from..]), "the bytes from the start are not those at the string");
        match v.bytes_after() { Ok(x) => check(ptr_is(x, &self.b[self.end..]), "the bytes after are not those after the string"), Err(_) => fail("there are no bytes after a whole string") }
        Ok(match v.as_str() { Ok(s) => Ok(s), Err(DecodeError::InvalidStr(_)) => Err(true), Err(_) => Err(false) })
    }
}
/// One string at `from` in `b`.
fn string(t: &Types, id: u32, b: &[u8], from: usize) {
    let mut s = &b[from..];
    match compact(&mut s, 32) {
        Ok(n) if n <= s.len() as u128 => {
            let n = concrete(n as u64) as usize;
            let text = b.len() - s.len();
            let end = text + n;
            let ok = utf8(&b[text..end]);
            let mut c = &b[from..];
            match decode_with_visitor(&mut c, id, t, View { b, from, text, end }) {
                Ok(Ok(x)) => { check(ok, "bytes that are not UTF-8 were shown as a string"); check(ptr_is(x.as_bytes(), &b[text..end]), "the string does not borrow the encoded bytes"); cover("string") }
                Ok(Err(e)) => { check(!ok && e, "a string was refused, or not with the invalid-string error"); cover("not UTF-8") }
                Err(_) => fail("a string was rejected before it was looked at"),
            }
            check(c.len() == b.len() - end, "the input is not left behind the string");
        }
        _ => {
            let mut c = &b[from..];
            check(decode_with_visitor(&mut c, id, t, View { b, from, text: 0, end: 0 }).is_err(), "a string was decoded that is not there");
            cover("malformed");
        }
    }
}
harnesses! { "C16";
    c16_targets(4, 4) ["value", "unfit", "malformed"] "every input of 0..=6 (7) bytes, alone and in a tuple, into String and Cow<str>" "" {
        let mut t = Types::new();
        let s = t.str();
        let id = if param() < 2 { s } else { t.tuple(&[s]) };
        let b = input(by_tier(6, 7));
        match param() % 2 { 0 => diff::<String>(&t, id, &b, KIND), _ => diff::<Cow<'static, str>>(&t, id, &b, KIND) }
    }
    c16_view(3, 3) ["string", "not UTF-8", "malformed"] "the view of a string in every input of 0..=6 (7) bytes, at offsets 0 to 2" "" {
        let mut t = Types::new();
        let s = t.str();
        let b = input(by_tier(6, 7) + param());
        assume(b.len() >= param());
        string(&t, s, &b, param());
    }
    c16_pairs(2, 2) ["value", "unfit", "malformed"] "two strings in a row, inputs of 0..=6 bytes" "" {
        let mut t = Types::new();
        let s = t.str();
        let id = if param() == 0 { t.tuple(&[s, s]) } else { t.array(s, 2) };
        let b = input(by_tier(5, 6));
        match param() { 0 => diff::<(String, String)>(&t, id, &b, KIND), _ => diff::<Vec<String>>(&t, id, &b, KIND) }
    }
    c16_long(6, 6) ["string", "not UTF-8"] "strings of 63 to 68, 300 and 16384 bytes (prefixes of one, two and four bytes) with any 4 bytes at several places, the rest ASCII" "steps=100000000" {
        let mut t = Types::new();
        let s = t.str();
        let n = [63, 64, 65, 68, 300, 16384][param()];
        let mut b = vec![];
        if n < 64 { b.push((n << 2) as u8) } else if n < 1 << 14 { b.extend_from_slice(&((n << 2 | 1) as u16).to_le_bytes()) } else { b.extend_from_slice(&((n << 2 | 2) as u32).to_le_bytes()) }
        let text = b.len();
        for k in 0..n + 1 { b.push(b'a' + (k % 26) as u8) }
        let at = [0, 7, n / 2, n - 4, n - 3][pick(5)];
        let x = bytes::<4>();
        for k in 0..4 { b[text + at + k] = x[k] }
        if pick(2) == 1 { b.truncate(text + n - 1); let mut c = &b[..]; check(String::decode_as_type(&mut c, s, &t).is_err(), "a truncated string was decoded"); return }
        string(&t, s, &b, 0);
        let mut c = &b[..];
        match String::decode_as_type(&mut c, s, &t) { Ok(v) => check(v.as_bytes() == &b[text..text + n] && c.len() == 1, "the string is not what is encoded"), Err(_) => check(!utf8(&b[text..text + n]), "a valid string was rejected") }
    }
    c16_huge(2, 2) ["view", "string", "not UTF-8"] "strings of 65535, 65536, 65537 and 70000 bytes with any 4 last bytes; and where strings of 2^24, 2^29 and 2^31 bytes and more begin and end" "steps=3000000000 alloc=6000000000" {
        let mut t = Types::new();
        let s = t.str();
        if param() == 0 {
            let n = [65_535, 65_536, 65_537, 70_000][pick(4)];
            let mut b = zeros(n, n as usize, 1);
            let at = b.len() - 5;
            for k in 0..4 { b[at + k] = byte() }
            string(&t, s, &b, 0)
        } else {
            let n = [(1u64 << 24) - 1, 1 << 24, (1 << 29) + 1, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1][pick(8)];
            let b = zeros(n, n as usize, pick(3));
            struct Only<'x>(&'x [u8], usize, usize);
            impl<'x> Visitor for Only<'x> {
                type Value<'s, 'r> = ();
                type Error = DecodeError;
                type TypeResolver = Types;
                fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
                    check(v.len() == self.2 - self.1 && !v.is_empty(), "the string view has the wrong length");
                    check(ptr_is(v.bytes_from_start(), self.0), "the bytes from the start are not those at the string");
                    match v.bytes_after() { Ok(x) => check(ptr_is(x, &self.0[self.2..]), "the bytes after are not those after the string"), Err(_) => fail("there are no bytes after a whole string") }
                    Ok(())
                }
            }
            let text = if n < 1 << 30 { 4 } else { 5 };
            let mut c = &b[..];
            check(decode_with_visitor(&mut c, s, &t, Only(&b, text, text + n as usize)).is_ok(), "a huge string was refused");
            check(c.len() == b.len() - text - n as usize, "the input is not left behind the string");
            cover("view")
        }
    }
}
