use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_bits::Bits;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::{DecodeAsFields, DecodeAsType};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};

/// Runs `f` and compares what it used with the bytes there were: memory with 4096 plus 512 per byte (2048 where structs are
/// in structs, as the fields of each are kept by name), resolved types
/// with 64 plus 32 per byte, executed instructions with 100000 plus 10000 per byte.
fn bounded<T>(n: usize, f: impl FnOnce() -> T) -> T { bounded_by(512, n, f) }
fn bounded_by<T>(per: u64, n: usize, f: impl FnOnce() -> T) -> T {
    let live = heap_reset();
    let (r, s) = (resolved(), steps());
    let v = f();
    let (heap, r, s) = (heap_peak() - live, resolved() - r, steps() - s);
    check(heap <= 4096 + per * n as u64, "more memory was used than the bytes there are call for");
    check(r <= 64 + 32 * n as u64, "more types were resolved than the bytes there are call for");
    check(s <= 100_000 + 10_000 * n as u64, "more instructions were executed than the bytes there are call for");
    v
}
fn target<T: DecodeAsType>(t: &Types, id: u32, b: &[u8]) {
    let mut c = b;
    match bounded(b.len(), || T::decode_as_type(&mut c, id, t)) { Ok(_) => cover("decoded"), Err(_) => cover("refused") }
    out_u64(c.len() as u64);
}
type P8<T> = (u8, (u8, (u8, (u8, (u8, (u8, (u8, (u8, T))))))));
type S4<T> = NGen<u8, NGen<u8, NGen<u8, NGen<u8, T>>>>;
type S8<T> = S4<S4<T>>;
type V8<T> = Vec<Vec<Vec<Vec<Vec<Vec<Vec<Vec<T>>>>>>>>;
type O8<T> = Option<Option<Option<Option<Option<Option<Option<Option<T>>>>>>>>;
/// A list of items that take at least a byte, or something else with a length.
fn lengthy(t: &mut Types, k: usize) -> u32 {
    let (u, b, s) = (t.u8(), t.bool(), t.str());
    match k {
        0 => t.seq(u),
        1 => t.seq(b),
        2 => s,
        3 => t.bits(BITS[0].0, BITS[0].1),
        4 => t.bits(BITS[3].0, BITS[3].1),
        5 => t.bits(BITS[5].0, BITS[5].1),
        6 => { let p = t.tuple(&[u, b]); t.seq(p) }
        7 => { let q = t.seq(u); t.seq(q) }
        8 => t.seq(s),
        9 => { let p = t.named(&[("a", u), ("b", b)]); t.seq(p) }
        10 => { let c = t.compact(u); t.seq(c) }
        11 => { let o = t.option(u); t.seq(o) }
        _ => { let x = t.prim(scale_type_resolver::Primitive::U128); t.seq(x) }
    }
}
const LENGTHY: usize = 13;
harnesses! { "C02";
    c02_extreme(23, 23) ["refused"] "the same sources and arrays, with lengths claimed of 100, 1000, 2^20, 2^29, 2^30, 2^32 - 1, 2^40 or 2^64 - 1, followed by 0..=2 bytes; into 22 targets and visitors that read all, nothing or some items" "steps=1000000" {
        let mut t = Types::new();
        let n = [100u64, 1000, 1 << 20, 1 << 29, 1 << 30, u32::MAX as u64, 1 << 40, u64::MAX][pick(8)];
        let k = pick(LENGTHY + 2);
        let (mut id, mut b) = if k < LENGTHY { (lengthy(&mut t, k), codec::Encode::encode(&codec::Compact(n))) } else {
            // (The length of an array is in its type.)
            let i = lengthy(&mut t, if k == LENGTHY { 2 } else { 6 });
            let u = t.u8();
            let i = if k == LENGTHY { u } else { i };
            assume(n <= u32::MAX as u64);
            (t.array(i, n as usize), vec![])
        };
        for _ in 0..pick(3) { b.push(byte()) }
        if param() == 22 {
            let u = t.u8();
            match pick(4) { 0 => (), 1 => id = t.tuple(&[id, u]), 2 => id = t.array(id, 2), _ => { id = t.named(&[("a", id), ("b", u)]) } }
            let mut c = &b[..];
            let r = match pick(3) {
                0 => bounded(b.len(), || decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok()),
                1 => bounded(b.len(), || decode_with_visitor(&mut c, id, &t, ToNode).is_ok()),
                _ => { let s = Script::new(1); bounded(b.len(), || decode_with_visitor(&mut c, id, &t, s.visitor()).is_ok()) }
            };
            cover(if r { "decoded" } else { "refused" });
            return;
        }
        each!(param(); target as Vec<u8> | Vec<bool> | String | Bits | Vec<Vec<u8>> | VecDeque<u8> | LinkedList<u8> | BTreeSet<u8> | BinaryHeap<u8> | [u8; 2] | Vec<(u8, bool)> | Vec<N2> | Vec<String>
            | Cow<'static, str> | Cow<'static, [u8]> | Vec<Option<u8>> | Option<Vec<u8>> | (Vec<u8>,) | Box<Vec<u64>> | TGen<Vec<u8>> | Vec<u128> | (); (&t, id, &b))
    }
    c02_claims(22, 22) ["refused"] "13 sequences, strings and bit sequences, bare and in one wrapper or beside another value, every input of 0..=5 bytes, and of 9 that starts with a length over 2^30 (so every claimed length), into 22 targets" "steps=1000000" {
        let mut t = Types::new();
        let k = pick(LENGTHY);
        let mut id = lengthy(&mut t, k);
        let w = if deep() { pick(3) } else { 0 };
        if w == 1 { id = t.tuple(&[id]) }
        if w == 2 { id = t.option(id) }
        let n = [0, 1, 2, 4, 5, 9][pick(6)];
        let b = vec(n);
        // With nine bytes: claims beyond 2^30.
        if n == 9 { assume(b[0] & 3 == 3) }
        each!(param(); target as Vec<u8> | Vec<bool> | String | Bits | Vec<Vec<u8>> | VecDeque<u8> | LinkedList<u8> | BTreeSet<u8> | BinaryHeap<u8> | [u8; 2] | Vec<(u8, bool)> | Vec<N2> | Vec<String>
            | Cow<'static, str> | Cow<'static, [u8]> | Vec<Option<u8>> | Option<Vec<u8>> | (Vec<u8>,) | Box<Vec<u64>> | TGen<Vec<u8>> | Vec<u128> | (); (&t, id, &b))
    }
    c02_visitors(13, 13) ["refused"] "the same sources, alone and in structs, tuples, sequences and variants; visitors that read all, nothing or some items; every input of 0..=9 bytes" "steps=1000000" {
        let mut t = Types::new();
        let i = lengthy(&mut t, param());
        let u = t.u8();
        let id = match pick(6) {
            0 => i,
            1 => t.tuple(&[i, u]),
            2 => t.named(&[("a", i), ("b", u)]),
            3 => t.seq(i),
            4 => t.variant(vec![(0, "A", vec![(None, i)]), (1, "B", vec![(None, u), (Some("x"), i)])]),
            _ => t.array(i, 2),
        };
        let k = [0, 1, 3, 4, 5][pick(5)];
        let b = vec(if deep() && k == 5 { 9 } else { k });
        let mut c = &b[..];
        let r = match pick(3) {
            0 => bounded(b.len(), || decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok()),
            1 => bounded(b.len(), || decode_with_visitor(&mut c, id, &t, ToNode).is_ok()),
            _ => { let s = Script::new(1); bounded(b.len(), || decode_with_visitor(&mut c, id, &t, s.visitor()).is_ok()) }
        };
        cover(if r { "decoded" } else { "refused" });
        out_u64(c.len() as u64);
    }
    c02_fields(6, 6) ["refused"] "structs and maps with lists as fields, decoded and skipped, from composites and lists of fields, every input of 0..=9 bytes" "steps=1000000" {
        let mut t = Types::new();
        let k = pick(LENGTHY);
        let i = lengthy(&mut t, k);
        let u = t.u8();
        let n = [1, 3, 5, 9][pick(4)];
        let b = vec(n);
        let f: Vec<(Name, u32)> = match pick(3) { 0 => vec![(Some("zz"), i), (Some("a"), u)], 1 => vec![(Some("a"), u), (Some("b"), i)], _ => vec![(Some("b"), i), (Some("a"), u)] };
        let id = t.comp(f.clone());
        let mut c = &b[..];
        match param() {
            0 => target::<NGen<u8, Vec<u8>>>(&t, id, &b),
            1 => target::<N1>(&t, id, &b),
            2 => target::<BTreeMap<String, Vec<u8>>>(&t, id, &b),
            3 => { let r = bounded(b.len(), || N1::decode_as_fields(&mut c, &mut fields(&f), &t).is_ok()); cover(if r { "decoded" } else { "refused" }) }
            4 => { let r = bounded(b.len(), || NGen::<u8, Vec<u8>>::decode_as_fields(&mut c, &mut fields(&f), &t).is_ok()); cover(if r { "decoded" } else { "refused" }) }
            _ => { let r = bounded(b.len(), || <(Vec<u8>, u8)>::decode_as_fields(&mut c, &mut fields(&f), &t).is_ok()); cover(if r { "decoded" } else { "refused" }) }
        }
    }
    c02_present(8, 8) ["decoded"] "300 items or bytes or 2000 bits that are there: memory and steps in proportion" "steps=100000000" {
        let mut t = Types::new();
        let u = t.u8();
        match param() {
            0 => { let id = t.seq(u); target::<Vec<u8>>(&t, id, &long(300, 1, 0)) }
            1 => { let id = t.seq(u); let mut b = long(300, 0, 0); for k in 0..300u32 { b.push((k * 77) as u8) } target::<BTreeSet<u8>>(&t, id, &b) }
            2 => { let mut b = long(300, 0, 0); b.extend_from_slice(&[b'x'; 296]); b.extend_from_slice(&vec(4)); let id = t.str(); target::<String>(&t, id, &b) }
            3 => { let mut b = long(2000, 0, 0); b.extend_from_slice(&mostly(256)); let id = t.bits(BITS[2].0, BITS[2].1); target::<Bits>(&t, id, &b) }
            4 => { let id = t.seq(u); target::<LinkedList<u64>>(&t, id, &long(300, 1, 0)) }
            5 => { let p = t.tuple(&[u, u]); let id = t.seq(p); target::<Vec<(u8, u8)>>(&t, id, &long(300, 2, 0)) }
            6 => { let q = t.seq(u); let id = t.seq(q); let mut b = long(100, 0, 0); for k in 0..100 { b.extend_from_slice(&[4, k]) } target::<Vec<Vec<u8>>>(&t, id, &b) }
            _ => { let id = t.seq(u); target::<[u8; 300]>(&t, id, &long(300, 1, 0)) }
        }
    }
    c02_zero_sized(1, 1) [] "a sequence of up to 16383 empty tuples: five bytes at most" "steps=400000000" {
        let mut t = Types::new();
        let e = t.tuple(&[]);
        let id = t.seq(e);
        let b = [1, 0x40 | byte() & 0x3f, 0, 0, 0];
        assume(b[1] == 0x40 || b[1] == 0x7f);
        let r = resolved();
        let mut c = &b[..];
        let _ = decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new());
        cover("looked at");
        check(resolved() - r <= 64 + 32 * 5, "work was done for the claimed length of a sequence whose items take no bytes");
    }
    c02_deep(6, 6) ["decoded"] "values 24 levels deep that are there, in part or as a whole: tuples, structs, variants and lists within each other, decoded by a visitor, ignored, into structs and tuples" "steps=20000000 depth=2000" {
        let mut t = Types::new();
        let u = t.u8();
        let k = param();
        let mut id = u;
        let mut b = vec![];
        for l in 0..24 {
            id = match k {
                0 => { b.push(l); t.tuple(&[u, id]) }
                1 | 4 => { b.push(l); t.named(&[("a", u), ("b", id)]) }
                2 => { b.push(1); t.option(id) }
                3 => { b.push(4); t.seq(id) }
                _ => { b.push(1); b.push(l); t.variant(vec![(0, "A", vec![]), (1, "B", vec![(Some("x"), u), (Some("y"), id)])]) }
            };
        }
        b.push(byte());
        if pick(2) == 0 { b.truncate(24) }
        let b = &b[..];
        let mut c = b;
        let r = match pick(4) {
            0 => bounded_by(2048, b.len(), || decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok()),
            1 => bounded_by(2048, b.len(), || decode_with_visitor(&mut c, id, &t, ToNode).is_ok()),
            2 => { let s = Script::new(0); bounded_by(2048, b.len(), || decode_with_visitor(&mut c, id, &t, s.visitor()).is_ok()) }
            _ => match k {
                0 => bounded_by(2048, b.len(), || P8::<P8<P8<u8>>>::decode_as_type(&mut c, id, &t).is_ok()),
                3 => bounded_by(2048, b.len(), || V8::<V8<V8<u8>>>::decode_as_type(&mut c, id, &t).is_ok()),
                2 => bounded_by(2048, b.len(), || O8::<O8<O8<u8>>>::decode_as_type(&mut c, id, &t).is_ok()),
                1 => bounded_by(2048, b.len(), || S8::<S8<S8<u8>>>::decode_as_type(&mut c, id, &t).is_ok()),
                4 => bounded_by(2048, b.len(), || S8::<P8<S8<u8>>>::decode_as_type(&mut c, id, &t).is_ok()),
                _ => bounded_by(2048, b.len(), || decode_with_visitor(&mut c, id, &t, IgnoreVisitor::new()).is_ok()),
            },
        };
        cover(if r { "decoded" } else { "refused" });
    }
}
