use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_decode::visitor::{decode_with_visitor, DecodeError};

/// Whatever the visitor does, the input ends up behind the value if there is one.
pub fn scripted(t: &Types, id: u32, b: &[u8], budget: usize) {
    let mut s = b;
    if spec(t, id, false, &mut s).is_err() { cover("malformed"); return }
    let script = Script::new(budget);
    let mut c = b;
    let r = decode_with_visitor(&mut c, id, t, script.visitor());
    check(c.len() == s.len(), "the input was not left exactly after the value");
    match r { Ok(()) => cover("succeeded"), Err(_) => cover("failed") }
    if script.swallowed.get() { cover("ignored an error") }
    out_u64(c.len() as u64);
}
/// One container over a leaf that differs from container to container.
fn shape(t: &mut Types, k: usize) -> u32 { container(t, k, &mut |t| { let k = pick(3); few(t, [0, 2, 4][k]) }) }

harnesses! { "C08";
    c08_scripted(18, 18) ["succeeded", "malformed"] "18 containers over u8, u16 and strings, inputs of 0..=5 bytes, every way of reading up to 2 (3) items" "" {
        let mut t = Types::new();
        let id = shape(&mut t, param());
        let b = input(5);
        scripted(&t, id, &b, by_tier(2, 3));
    }
    c08_leaves(28, 28) ["succeeded", "failed"] "each of the 28 leaf types, inputs of 0..=18 bytes (6 for strings, 33 for 256-bit integers)" "" {
        let mut t = Types::new();
        let id = leaf(&mut t, param());
        let b = match param() { 2 => input(6), 8 | 14 => vec(33), _ => input(18) };
        scripted(&t, id, &b, 1);
    }
    c08_nested(18, 18) ["succeeded", "malformed"] "containers in tuples, sequences, structs and variants, inputs of 0..=5 bytes, up to 3 reads" "" {
        let mut t = Types::new();
        let outer = pick(5);
        // (Sequences of items that take no bytes: see C02.)
        assume(outer != 1 || ![10, 11, 13].contains(&param()));
        let u8_ = t.u8();
        let bool_ = t.bool();
        let inner = container(&mut t, param(), &mut |t| if pick(2) == 0 { u8_ } else { bool_ });
        let id = match outer {
            0 => t.tuple(&[inner, u8_]),
            1 => t.seq(inner),
            2 => t.named(&[("a", inner), ("b", u8_)]),
            3 => t.variant(vec![(1, "V", vec![(None, inner), (None, u8_)])]),
            _ => t.array(inner, 2),
        };
        let b = input(4);
        scripted(&t, id, &b, by_tier(if [4, 8].contains(&param()) { 2 } else { 3 }, 4));
    }
    c08_targets(9, 9) ["value", "unfit"] "shipped and derived targets on sources that do not fit them, inputs of 0..=5 bytes" "" {
        let mut t = Types::new();
        let k = pick(6);
        let inner = container(&mut t, [0, 1, 2, 3, 4, 8][k], &mut |t| { let k = pick(2); few(t, [0, 4][k]) });
        let u8_ = t.u8();
        let id = t.tuple(&[inner, u8_]);
        let b = input(5);
        each!(param(); diff as (u8, u8) | (Vec<u8>, u8) | ((u8, bool), u8) | (N2, u8) | ([u8; 2], u8) | (En, u8) | (Option<u8>, u8) | (String, String) | (Vec<String>, bool); (&t, id, &b, CURSOR))
    }
    c08_many(8, 8) ["succeeded", "failed"] "arrays, sequences, tuples, structs and variants of 4 to 7 items whose sizes differ, up to 1 (2) of which is read" "" {
        let mut t = Types::new();
        let k = param();
        let u = t.u8();
        let i = match k % 4 { 0 => t.option(u), 1 => { let w = t.u32(); t.compact(w) } 2 => t.str(), _ => t.variant(vec![(0, "A", vec![(None, u), (None, u)]), (1, "B", vec![]), (2, "C", vec![(Some("c"), u)])]) };
        let n = [4, 6, 5, 7][pick(by_tier(2, 4))];
        let mut b = vec![];
        let id = match pick(if k < 4 { 2 } else { 4 }) + if k < 4 { 0 } else { 2 } {
            0 => t.array(i, n),
            1 => { b.push(4 * n as u8); t.seq(i) }
            2 => t.tuple(&vec![i; n]),
            3 => t.unnamed(&vec![i; n]),
            4 => { let names = ["a", "b", "c", "d", "e", "f", "g"]; let f: Vec<_> = names[..n].iter().map(|x| (*x, i)).collect(); t.named(&f) }
            _ => { b.push(3); t.variant(vec![(3, "V", vec![(None, i); n])]) }
        };
        // The first three items and the last may be of two or three of their sizes each.
        for l in 0..n {
            let any = l < 3 || l == n - 1;
            match k % 4 {
                0 => if any && pick(2) == 1 { b.push(1); b.push(9) } else { b.push(0) },
                1 => { b.push(byte()); assume(if any { b[b.len() - 1] & 3 == 0 || b[b.len() - 1] & 3 == 2 } else { b[b.len() - 1] & 3 == 1 }); match b[b.len() - 1] & 3 { 0 => {} 1 => b.push(8), _ => b.extend_from_slice(&[0, 8, 0]) } }
                2 => { let m = if any { 2 * pick(2) } else { 1 }; b.push(4 * m as u8); b.extend_from_slice(&b"xyz"[..m]) }
                _ => { let m = if any { pick(2) } else { 2 }; b.push(m as u8); b.extend_from_slice(&[[1u8, 2].as_slice(), &[], &[5]][m]) }
            }
        }
        // Whole, cut short or followed by more.
        match pick(by_tier(2, 3)) { 0 => {} 1 => b.extend_from_slice(&[1, 1, 1]), _ => { b.pop(); } }
        scripted(&t, id, &b, by_tier(1, 2));
    }
    c08_wide(5, 5) ["succeeded", "failed"] "tuples, structs and variants of 16 to 18 and 33 items, one (two) of which is read" "" {
        let mut t = Types::new();
        let u = t.u8();
        let o = t.option(u);
        let n = [16, 17, 18, 33][pick(4)];
        let ids: Vec<u32> = (0..n).map(|i| if i % 5 == 0 { o } else { u }).collect();
        let (id, mut b) = broad(&mut t, param(), &ids);
        for i in 0..n { if i == 0 || i == 15 { if pick(2) == 1 { b.push(1); b.push(i as u8) } else { b.push(0) } } else { b.push(if i % 5 == 0 { 0 } else { i as u8 }) } }
        b.extend_from_slice(&[1, 2, 3]);
        scripted(&t, id, &b, by_tier(1, 2));
    }
}
