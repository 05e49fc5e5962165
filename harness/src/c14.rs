use crate::{conv::*, model::*, sym::*, targets::*};
use std::collections::{BTreeSet, BinaryHeap, LinkedList, VecDeque};
harnesses! { "C14";
    c14_small(14, 14) ["value", "unfit", "malformed"] "sequences and arrays of 0..=3 items of 6 leaf types and others, inputs of 0..=5 bytes, into 14 collections" "" {
        let mut t = Types::new();
        let k = pick(8);
        let i = if k < FEW_LEAVES { few(&mut t, k) } else { let u = t.u8(); if k == FEW_LEAVES { t.tuple(&[u, u]) } else { t.seq(u) } };
        let id = match pick(7) { 0 => t.seq(i), 1 => { let s = t.seq(i); t.tuple(&[s]) } 6 => t.tuple(&[i, i]), k => t.array(i, k - 2) };
        let b = input(by_tier(4, 6));
        each!(param(); diff as Vec<u8> | VecDeque<u8> | LinkedList<u8> | BTreeSet<u8> | BinaryHeap<u8> | [u8; 0] | [u8; 1] | [u8; 2] | [u16; 3] | Vec<bool> | Vec<(u8, u8)> | Vec<Vec<u8>> | BTreeSet<String> | VecDeque<[u8; 1]>; (&t, id, &b, KIND))
    }
    c14_long(10, 10) ["value"] "sequences of 63 to 65 bytes, 65 pairs and 16383 to 16384 bytes (two- and four-byte prefixes), contents symbolic in full or in part" "steps=100000000" {
        let mut t = Types::new();
        let u = t.u8();
        let p = t.u16();
        let s = t.seq(u);
        let s2 = t.seq(p);
        let n = 63 + pick(3);
        match param() {
            0 => diff::<Vec<u8>>(&t, s, &long(n, 1, 1), KIND),
            1 => diff::<VecDeque<u8>>(&t, s, &long(n, 1, 1), KIND),
            2 => diff::<LinkedList<u8>>(&t, s, &long(n, 1, 1), KIND),
            3 => diff::<[u8; 64]>(&t, s, &long(n, 1, 1), KIND),
            4 => diff::<[u8; 65]>(&t, s, &long(n, 1, 1), KIND),
            5 => diff::<Vec<u16>>(&t, s2, &long(n, 2, 0), KIND),
            6 => { let a = t.array(u, n); let b = vec(n + 1); diff::<Vec<u8>>(&t, a, &b, KIND); diff::<[u8; 64]>(&t, a, &b, KIND) }
            _ => {
                // Shows every item in order, without recording what the reference would for so many.
                let n = [16383, 16384, 16385][param() - 7];
                let b = long(n, 1, 2);
                let from = b.len() - n - 2;
                let mut c = &b[..];
                let Ok(v) = <Vec<u8> as scale_decode::DecodeAsType>::decode_as_type(&mut c, s, &t) else { fail("a long sequence was rejected") };
                check(v.len() == n && c.len() == 2, "a long sequence has the wrong number of items");
                let mut same = true;
                for k in 0..n { same &= v[k] == b[from + k] }
                check(same, "an item of a long sequence is not the encoded one");
                cover("value");
            }
        }
    }
    c14_sorted(4, 4) ["value"] "3 to 4 (5) items of any value into sets and heaps" "" {
        let mut t = Types::new();
        let u = t.u8();
        let s = t.seq(u);
        let n = by_tier(4, 5) - pick(2);
        let b = long(n, 1, 1);
        each!(param(); diff as BTreeSet<u8> | BinaryHeap<u8> | BTreeSet<i16> | BTreeSet<(u8,)>; (&t, s, &b, KIND))
    }
    c14_huge(7, 7) ["value"] "sequences and an array of 16384, 65535, 65536, 65537 and 70000 bytes into each kind of collection: their number, and items at both ends" "steps=1000000000" {
        let mut t = Types::new();
        let u = t.u8();
        let k = param();
        let n = if k == 6 { 65537 } else { [16384, 65535, 65536, 65537, 70000][pick(5)] };
        let id = if k == 5 { t.array(u, n) } else { t.seq(u) };
        let mut b = zeros(n as u64, n, 1);
        let from = b.len() - n - 1;
        if k < 3 || k == 5 { b[from] = byte(); b[from + n - 1] = byte() } else { for i in 0..n { b[from + i] = (i * 151 / 64) as u8 } }
        let (first, last) = (b[from], b[from + n - 1]);
        let b = if k == 5 { &b[from..] } else { &b[..] };
        let mut c = b;
        fn get<T: scale_decode::DecodeAsType>(c: &mut &[u8], id: u32, t: &Types) -> T { match T::decode_as_type(c, id, t) { Ok(v) => v, Err(_) => fail("a huge sequence was refused") } }
        let ok = match k {
            0 | 5 => { let v: Vec<u8> = get(&mut c, id, &t); v.len() == n && v[0] == first && v[n - 1] == last && v[1] == 0 && v[n - 2] == 0 }
            1 => { let v: VecDeque<u8> = get(&mut c, id, &t); v.len() == n && v[0] == first && v[n - 1] == last }
            2 => { let v: LinkedList<u8> = get(&mut c, id, &t); v.len() == n && v.front() == Some(&first) && v.back() == Some(&last) }
            3 => { let v: BinaryHeap<u8> = get(&mut c, id, &t); v.len() == n && v.peek() == Some(&255) }
            4 => { let v: BTreeSet<u8> = get(&mut c, id, &t); v.len() == 256 }
            _ => { let v: Box<[u8; 65537]> = get(&mut c, id, &t); v[0] == first && v[65536] == last }
        };
        check(ok, "a huge sequence has other items than those encoded");
        check(c.len() == 1, "the wrong number of bytes was consumed for a huge sequence");
        cover("value");
    }
    c14_counts(6, 6) ["unfit"] "arrays and sequences that claim 2^8, 2^16 or 2^32 items more than the target array has, or twice as many; none of them there, or all" "steps=1000000000" {
        let mut t = Types::new();
        let u = t.u8();
        let e = t.tuple(&[]);
        let k = param();
        let want = [0usize, 2, 3, 2, 8, 65][k];
        let n = want as u64 + [1u64 << 8, 1 << 16, 1 << 32, want as u64][pick(4)];
        assume(n != want as u64);
        let (id, b) = match pick(3) {
            0 => (t.array(u, n as usize), vec(want)),
            1 => { let mut b = codec::Encode::encode(&codec::Compact(n)); b.extend_from_slice(&vec(want)); (t.seq(u), b) }
            _ => { assume(n < 70000); (t.array(if k == 3 { e } else { u }, n as usize), vec![0; n as usize]) }
        };
        fn no<T: scale_decode::DecodeAsType>(t: &Types, id: u32, b: &[u8]) { check(T::decode_as_type(&mut &b[..], id, t).is_err(), "a sequence or array was decoded into one of another length"); cover("unfit") }
        match k { 0 => no::<[u8; 0]>(&t, id, &b), 1 => no::<[u8; 2]>(&t, id, &b), 2 => no::<[u8; 3]>(&t, id, &b), 3 => no::<[(); 2]>(&t, id, &b), 4 => no::<[u8; 8]>(&t, id, &b), _ => no::<[u8; 65]>(&t, id, &b) }
    }
}
