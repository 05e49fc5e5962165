use crate::{conv::*, model::*, sym::*, targets::*};
use scale_decode::DecodeAsType;
use std::collections::{BTreeMap, LinkedList, VecDeque};

named! {
    Deep { one: NGen<u8, Vec<u8>>, two: (u8, N1) }
    InEnum { e: En, f: u8 }
}
unnamed! { Pair(0 Vec<u8>, 1 N2) }

type V4<T> = Vec<Vec<Vec<Vec<T>>>>;
type P4<T> = Vec<(u8, Vec<(u8, Vec<(u8, Vec<(u8, T)>)>)>)>;
type S4<T> = NGen<u8, NGen<u8, NGen<u8, NGen<u8, T>>>>;
/// A number, or something else that takes a byte.
fn num(t: &mut Types) -> u32 { match pick(4) { 0 => t.u8(), 1 => t.u16(), 2 => t.bool(), _ => { let u = t.u8(); t.compact(u) } } }
/// A number in up to one wrapper.
fn wrapped(t: &mut Types) -> u32 { let i = num(t); match pick(3) { 0 => i, 1 => t.tuple(&[i]), _ => t.named(&[("q", i)]) } }
fn list(t: &mut Types, i: u32) -> u32 { if pick(2) == 0 { t.seq(i) } else { t.array(i, 2) } }
/// A struct of a number and a bool in one of several descriptions, some of them not fitting.
fn two(t: &mut Types) -> u32 {
    let i = num(t);
    let j = if pick(2) == 0 { t.bool() } else { t.u8() };
    match pick(7) {
        0 => t.named(&[("a", i), ("b", j)]),
        1 => t.named(&[("b", j), ("a", i)]),
        2 => t.named(&[("a", i), ("c", j)]),
        3 => t.unnamed(&[i, j]),
        4 => t.tuple(&[i, j]),
        5 => t.named(&[("x", i), ("a", i), ("b", j)]),
        _ => t.tuple(&[i]),
    }
}
fn one(t: &mut Types) -> u32 { let i = num(t); match pick(4) { 0 => t.named(&[("a", i)]), 1 => t.unnamed(&[i]), 2 => t.named(&[("b", i)]), _ => t.named(&[("z", i), ("a", i)]) } }
harnesses! { "C20";
    c20_lists(8, 8) ["value", "unfit"] "8 collection targets over numbers and small structs, from sequences and arrays of 0 to 3 items that fit or not, encodings of 0..=5 bytes" "" {
        let mut t = Types::new();
        let b = vec(by_tier(4, 6));
        let i = match param() { 0 | 1 | 2 | 3 => wrapped(&mut t), 4 | 5 => two(&mut t), 6 => { let n = num(&mut t); let n = list(&mut t, n); match pick(3) { 0 => n, 1 => t.tuple(&[n]), _ => t.named(&[("l", n)]) } }, _ => { let n = num(&mut t); let u = t.u8(); match pick(4) { 0 => t.option(n), 1 => t.variant(vec![(0, "Some", vec![(None, n)])]), 2 => t.variant(vec![(0, "Some", vec![(Some("f"), n)]), (1, "Other", vec![])]), _ => t.variant(vec![(0, "Some", vec![(None, n), (None, u)]), (1, "None", vec![])]) } } };
        let id = list(&mut t, i);
        let id = match pick(3) { 0 => id, 1 => t.tuple(&[id]), _ => t.named(&[("w", id)]) };
        each!(param(); diff as Vec<u8> | [u8; 2] | LinkedList<(u8,)> | VecDeque<Box<u8>> | Vec<N2> | [(u8, bool); 2] | Vec<Vec<u8>> | Vec<Option<u8>>; (&t, id, &b, KIND | PATH | VALID))
    }
    c20_structs(8, 8) ["value", "unfit"] "derived structs and tuples within each other, from structs and tuples that fit or not at any place, encodings of 0..=6 bytes" "" {
        let mut t = Types::new();
        let b = vec(by_tier(5, 7));
        let id = match param() {
            0 => { let i = two(&mut t); let k = one(&mut t); t.tuple(&[i, k]) }
            1 => { let i = one(&mut t); let s = t.u8(); let s = list(&mut t, s); if pick(2) == 0 { t.named(&[("a", i), ("b", s)]) } else { t.named(&[("b", s), ("a", i)]) } }
            2 => {
                let (i, o, u) = (num(&mut t), one(&mut t), t.u8());
                let s = t.seq(i);
                let g = if pick(2) == 0 { t.named(&[("a", u), ("b", s)]) } else { t.named(&[("b", s), ("a", i)]) };
                let p = if pick(2) == 0 { t.tuple(&[u, o]) } else { t.unnamed(&[i, o]) };
                t.named(&[("one", g), ("two", p)])
            }
            3 => { let i = num(&mut t); let s = list(&mut t, i); let w = two(&mut t); if pick(2) == 0 { t.tuple(&[s, w]) } else { t.unnamed(&[s, w]) } }
            4 => { let i = two(&mut t); t.named(&[("a", i), ("b", i)]) }
            5 => { let (i, w) = (num(&mut t), wrapped(&mut t)); t.tuple(&[i, w, i]) }
            6 => { let i = two(&mut t); let u = num(&mut t); t.tuple(&[u, i]) }
            _ => { let i = wrapped(&mut t); match pick(3) { 0 => t.tuple(&[i]), 1 => t.named(&[("a", i)]), _ => { let u = t.u8(); t.tuple(&[i, u]) } } }
        };
        each!(param(); diff as (N2, N1) | NNest | Deep | Pair | NGen<N2, NGen<u8, bool>> | (u8, (u8,), u8) | (u8, TSkip) | TGen<TGen<u8>>; (&t, id, &b, KIND | PATH | VALID))
    }
    c20_enums(7, 7) ["value", "unfit"] "options, results and derived enums within structs, tuples and each other, from variants that fit or not, encodings of 0..=6 bytes" "" {
        let mut t = Types::new();
        let b = vec(by_tier(5, 6));
        let (i, u) = (num(&mut t), t.u8());
        let id = match param() {
            0 => { let o = t.option(i); t.option(o) }
            1 => { let w = two(&mut t); t.result(w, i) }
            2 => { let s = list(&mut t, i); let s = t.option(s); t.tuple(&[s, u]) }
            3 => { let e = t.variant(vec![(0, "A", vec![]), (1, "B", vec![(None, i)]), (2, "C", vec![(Some("y"), i), (Some("x"), u)]), (3, "D", vec![(None, u), (Some("n"), i)]), (4, "E", vec![])]); t.named(&[("f", u), ("e", e)]) }
            4 => { let e = t.variant(vec![(0, "B", vec![(Some("p"), i)]), (1, "D", vec![(None, i)]), (2, "C", vec![(Some("x"), i), (Some("z"), u)])]); list(&mut t, e) }
            5 => { let w = two(&mut t); let o = t.option(w); t.named(&[("a", o), ("b", i)]) }
            _ => { let r = t.result(i, u); let r = t.tuple(&[r]); t.tuple(&[u, r]) }
        };
        each!(param(); diff as Option<Option<u8>> | Result<N2, u8> | (Option<Vec<u8>>, u8) | InEnum | Vec<En> | NGen<Option<N2>, u8> | (u8, Result<u8, u8>); (&t, id, &b, KIND | PATH | VALID))
    }
    c20_maps(4, 4) ["value", "unfit"] "maps of numbers, structs, lists and options, within others, encodings of 0..=5 bytes" "" {
        let mut t = Types::new();
        let b = vec(by_tier(5, 6));
        let (i, j) = (num(&mut t), num(&mut t));
        let id = match param() {
            0 => t.comp(vec![(Some("x"), i), (None, j), (Some("y"), j)]),
            1 => { let w = two(&mut t); t.comp(vec![(Some("x"), w), (Some("y"), w)]) }
            2 => { let s = list(&mut t, i); let m = t.comp(vec![(Some("x"), s), (Some("x"), s)]); t.tuple(&[j, m]) }
            _ => { let o = t.option(i); let m = t.comp(vec![(Some("x"), o), (Some("y"), o)]); t.option(m) }
        };
        each!(param(); diff as BTreeMap<String, u8> | BTreeMap<String, N2> | (u8, BTreeMap<String, Vec<u8>>) | Option<BTreeMap<String, Option<u8>>>; (&t, id, &b, KIND | PATH | VALID))
    }
    c20_numbers(6, 6) ["value", "unfit"] "an item of a long list or tuple that does not fit: the index of it, for items 0 to 19 and 250 to 260" "steps=100000000" {
        let mut t = Types::new();
        let b = t.u16();
        match param() {
            0 => { let n = 16383; let _ = n; let id = t.seq(b); let v = { let mut v = long(260, 0, 0); for k in 0..260 { v.push(if k > 250 { byte() } else { 3 }); v.push(if k == 255 || k == 256 || k == 259 { byte() } else { 0 }) } v }; diff::<Vec<u8>>(&t, id, &v, KIND | PATH | VALID) }
            1 => { let id = t.array(b, 20); diff::<[u8; 20]>(&t, id, &vec(40), KIND | PATH | VALID) }
            2 => { let id = t.tuple(&[b; 20]); diff::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>(&t, id, &vec(40), KIND | PATH | VALID) }
            3 => { let id = t.tuple(&[b; 12]); diff::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>(&t, id, &vec(24), KIND | PATH | VALID) }
            4 => { let names = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17"]; let f = names.iter().map(|n| (Some(*n), b)).collect(); let id = t.comp(f); diff::<NWide>(&t, id, &vec(36), KIND | PATH | VALID) }
            _ => { let id = t.tuple(&[b; 7]); diff::<(u8, u8, u8, u8, u8, u8, u8)>(&t, id, &vec(14), KIND | PATH | VALID) }
        }
    }
    c20_deep(6, 6) ["value", "unfit"] "numbers 12 to 24 lists, tuples, structs and options deep" "steps=100000000" {
        let mut t = Types::new();
        let (u, n) = (t.u8(), t.u16());
        let mut id = n;
        let k = param();
        let depth = [12, 12, 12, 16, 20, 12][k];
        let mut b = vec![];
        for l in 0..depth {
            id = match k {
                0 | 3 => { b.push(4); if l % 3 == 1 { t.seq(id) } else { b.pop(); t.array(id, 1) } }
                1 => { let p = t.tuple(&[u, id]); b.push(4); b.push(byte()); t.seq(p) }
                5 => { let p = t.option(id); b.push(1); let _ = l; p }
                _ => { b.push(byte()); if l % 2 == 0 { t.named(&[("a", u), ("b", id)]) } else { t.unnamed(&[u, id]) } }
            };
        }
        b.extend_from_slice(&vec(2));
        each!(k; diff as V4<V4<V4<u8>>> | P4<P4<P4<u8>>> | S4<S4<S4<u8>>> | V4<V4<V4<V4<u8>>>> | S4<S4<S4<S4<S4<u8>>>>> | Option<Option<Option<Option<Option<Option<Option<Option<Option<Option<Option<Option<u8>>>>>>>>>>>>; (&t, id, &b, KIND | PATH | VALID))
    }
    c20_context(4, 4) ["context"] "up to 3 (4) locations, of 3 kinds, added to errors in one way or another; listed and shown" "" {
        use scale_decode::error::{Context, Error, ErrorKind, Location};
        let n = pick(by_tier(3, 4) + 1);
        let (mut e, mut c) = (match param() {
            0 => Error::new(ErrorKind::WrongLength { actual_len: 3, expected_len: 2 }),
            1 => Error::custom_str("own"),
            2 => Error::custom_string(String::from("own")),
            _ => Error::from(scale_decode::visitor::DecodeError::NotEnoughInput),
        }, Context::new());
        let (mut locs, mut shown) = (vec![], String::new());
        for i in 0..n {
            let k = pick(6);
            let x = [0usize, 7, 10, 260][pick(if k == 0 || k == 1 { 4 } else { 1 })];
            let owned = (i % 2) == 0;
            let (l, s) = match k { 0 | 1 => (Location::idx(x), format!("[{x}]")), 2 | 3 => (Location::field(if i % 2 == 0 { "fi" } else { "" }), (if i % 2 == 0 { "fi" } else { "" }).to_string()), _ => (Location::variant("Va"), "(Va)".to_string()) };
            e = match k {
                1 => e.at_idx(x),
                3 => if owned { e.at_field("fi".to_string()) } else { e.at_field("") },
                5 => if owned { e.at_variant("Va".to_string()) } else { e.at_variant("Va") },
                _ => e.at(l.clone()),
            };
            if i > 0 { shown.push('.') }
            shown.push_str(&s);
            c.push(l.clone());
            locs.push(l);
        }
        cover("context");
        check(e.context().path().locations().eq(locs.iter()), "the context does not list the locations in the order they were added");
        check(c.path().locations().eq(locs.iter()), "a context does not list the locations in the order they were added");
        check(c.path().into_owned().locations().eq(locs.iter()), "an owned path does not list the same locations");
        check(e.context().path().to_string() == shown, "the path is shown in another way");
        check(c.path().into_owned().to_string() == shown, "an owned path is shown in another way");
        let (kind, msg) = match param() {
            0 => (matches!(e.kind(), ErrorKind::WrongLength { actual_len: 3, expected_len: 2 }), None),
            1 | 2 => (matches!(e.kind(), ErrorKind::Custom(c) if c.to_string() == "own"), Some("own")),
            _ => (matches!(e.kind(), ErrorKind::VisitorDecodeError(scale_decode::visitor::DecodeError::NotEnoughInput)), None),
        };
        check(kind, "the kind of an error changed as locations were added");
        let all = e.to_string();
        check(all.contains(&shown), "an error shown does not tell the path");
        if let Some(m) = msg { check(all.ends_with(m), "an error shown does not tell what went wrong") }
    }
    c20_far(4, 4) ["unfit", "value"] "an item that does not fit behind 65534 to 65537 and 69998 that do: the index of it" "steps=3000000000" {
        let mut t = Types::new();
        let w = t.u16();
        let n = 70000usize;
        let k = param();
        let at = [65534, 65535, 65536, 65537, 69998][pick(5)];
        let id = if k == 1 { t.array(w, n) } else { t.seq(w) };
        let b = zeros(n as u64, 2 * n, 0);
        let from = b.len() - 2 * n;
        let mut b = if k == 1 { b[from..].to_vec() } else { b };
        let from = b.len() - 2 * n;
        b[from + 2 * at] = byte();
        b[from + 2 * at + 1] = byte();
        let v = b[from + 2 * at + 1];
        fn err<T: DecodeAsType>(t: &Types, id: u32, b: &[u8]) -> Option<scale_decode::Error> { T::decode_as_type(&mut &b[..], id, t).err() }
        let e = match k { 0 | 1 => err::<Vec<u8>>(&t, id, &b), 2 => err::<LinkedList<u8>>(&t, id, &b), _ => err::<VecDeque<(u8,)>>(&t, id, &b) };
        match e {
            None => { check(v == 0, "a number that does not fit was decoded"); cover("value") }
            Some(e) => {
                check(v != 0, "a number that fits was refused");
                let path = e.context().path();
                let mut l = path.locations();
                let idx = scale_decode::error::Location::idx(at);
                check(l.next() == Some(&idx), "the error does not name the index of the item");
                check(k == 3 || l.next().is_none(), "the error names more places than there are");
                cover("unfit")
            }
        }
    }
}
