use crate::{conv::*, model::*, sym::*, targets::*};
use std::collections::BTreeMap;
harnesses! { "C22";
    c22_maps(7, 7) ["value", "malformed"] "composites of 0..=3 (4) fields, named (repeated or not) and unnamed, of 4 types, inputs of 0..=3 (4) bytes, into maps of 7 value types" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.bool(), t.u16(), t.str()];
        let n = pick(by_tier(3, 4) + 1);
        let mut f: Vec<(Name, u32)> = vec![];
        let second = pick(3) + 1;
        for _ in 0..n { f.push(([Some("b"), Some("a"), None][pick(3)], of[if pick(2) == 0 { 0 } else { second }])) }
        let id = t.comp(f);
        let b = input(by_tier(3, 4));
        each!(param(); diff as BTreeMap<String, u8> | BTreeMap<String, String> | BTreeMap<String, bool> | BTreeMap<String, i32> | BTreeMap<String, (u8,)> | BTreeMap<String, Box<u16>> | BTreeMap<String, Option<u8>>; (&t, id, &b, KIND))
    }
    c22_nested(4, 4) ["value", "malformed"] "maps of maps, sequences and options, and maps inside others, inputs of 0..=5 bytes" "" {
        let mut t = Types::new();
        let u = t.u8();
        let inner = match pick(3) { 0 => t.named(&[("a", u), ("b", u)]), 1 => t.unnamed(&[u]), _ => t.named(&[]) };
        let seq = t.seq(u);
        let opt = t.option(u);
        match param() {
            0 => { let id = t.comp(vec![(Some("x"), inner), (if pick(2) == 0 { None } else { Some("y") }, inner)]); diff::<BTreeMap<String, BTreeMap<String, u8>>>(&t, id, &input(5), KIND) }
            1 => { let id = t.comp(vec![(Some("x"), seq), (None, u), (Some("y"), seq)]); diff::<BTreeMap<String, Vec<u8>>>(&t, id, &input(5), KIND) }
            2 => { let id = t.seq(inner); assume(pick(2) == 0); let b = input(5); assume(!matches!(&t.0[inner as usize], Def::Composite(_, f) if f.is_empty())); diff::<Vec<BTreeMap<String, u8>>>(&t, id, &b, KIND) }
            _ => { let id = t.comp(vec![(Some("x"), opt), (Some("x"), opt)]); diff::<BTreeMap<String, Option<u8>>>(&t, id, &input(5), KIND) }
        }
    }
    c22_others(18, 18) ["malformed"] "18 containers over leaves into a map, inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| { let k = pick(FEW_LEAVES); few(t, k) });
        diff::<BTreeMap<String, u8>>(&t, id, &input(3), KIND)
    }
    c22_wide(4, 4) ["value", "malformed"] "15 to 18, 33 and 40 fields, named, some of them alike, and unnamed, whole and short of a byte" "" {
        let mut t = Types::new();
        let u = t.u8();
        let w = if param() == 1 { t.u16() } else { t.u8() };
        let n = [15, 16, 17, 18, 33, 40][pick(6)];
        let f: Vec<(Name, u32)> = (0..n).map(|i| match param() { 0 => (Some(MANY[i]), u), 1 => (if i % 3 == 1 { None } else { Some(MANY[i]) }, if i % 3 == 1 { w } else { u }), 2 => (Some(MANY[i * 7 % n / 2]), u), _ => (if i < 15 { None } else { Some(MANY[39 - i]) }, u) }).collect();
        let id = t.comp(f.clone());
        let size: usize = f.iter().map(|x| if x.1 == u || param() != 1 { 1 } else { 2 }).sum();
        let b = vec(if pick(2) == 0 { size - 1 } else { size + 1 });
        if pick(2) == 0 { diff::<BTreeMap<String, u8>>(&t, id, &b, KIND) } else { diff::<BTreeMap<String, u16>>(&t, id, &b, KIND) }
    }
    c22_names(3, 3) ["value"] "up to 3 fields under any ASCII names of 0..=2 characters" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.bool()];
        let n = 1 + pick(3);
        let f: Vec<(Name, u32)> = (0..n).map(|i| { let k = pick(4); (if k == 3 { None } else { Some(any_name(k)) }, of[if param() == 2 { i % 2 } else { 0 }]) }).collect();
        let id = t.comp(f);
        let b = vec(n);
        each!(param(); diff as BTreeMap<String, u8> | BTreeMap<String, Option<u8>> | BTreeMap<String, bool>; (&t, id, &b, KIND))
    }
    c22_long_names(3, 3) ["value"] "two fields of names of 64 and 300 characters, alike or not, and of names that are not ASCII" "steps=100000000" {
        let mut t = Types::new();
        let u = t.u8();
        let f: Vec<(Name, u32)> = (0..2).map(|i| (Some(match param() { 0 => spelled(LONG_FIELDS[i]), 1 => NEAR[pick(NEAR.len())], _ => { let n = [300, 299, 301][pick(3)]; let mut b = vec![b'k'; n]; let at = [0, 255, 256, n - 1][pick(4)]; let c = byte(); assume(c < 128); b[at] = c; Box::leak(String::from_utf8(b).unwrap().into_boxed_str()) } }), u)).collect();
        let id = t.comp(f);
        each!(pick(2); diff as BTreeMap<String, u8> | BTreeMap<String, Option<u8>>; (&t, id, &vec(2), KIND))
    }
}
