use crate::{conv::*, model::*, sym::*, targets::*};
use scale_decode::{DecodeAsFields, DecodeAsType};

/// From the list of fields and from the composite.
pub fn agree<T: DecodeAsType + DecodeAsFields + Conv>(t: &Types, id: u32, f: &[(Name, u32)], b: &[u8]) {
    let (mut c, mut d) = (b, b);
    let got = T::decode_as_fields(&mut c, &mut fields(f), t);
    match (&got, T::decode_as_type(&mut d, id, t)) {
        (Ok(x), Ok(y)) => { check(x.same(&y), "the fields decode to another value than the composite"); check(c.len() == d.len(), "the fields consume something else than the composite") }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => fail("the fields decode but the composite does not"),
        (Err(_), Ok(_)) => fail("the composite decodes but the fields do not"),
    }
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    if want == Err(Bad::TooLong) { return }
    judge(t, id, want, s.len(), got, c.len(), 0)
}
fn list(t: &mut Types, most: usize) -> Vec<(Name, u32)> {
    let of = [t.u8(), t.bool(), t.u16()];
    let n = pick(most + 1);
    let mut f: Vec<(Name, u32)> = vec![];
    for _ in 0..n {
        // The type goes with the name, or is a u8.
        let k = pick(4);
        f.push(if k < 3 { (Some(["a", "b", "c"][k]), of[k]) } else { (None, of[pick(2)]) });
    }
    f
}
harnesses! { "C19";
    c19_lists(21, 21) ["malformed"] "lists of up to 4 fields, named, unnamed, mixed, reordered, extra, inputs of 0..=5 bytes, into 21 targets" "" {
        let mut t = Types::new();
        let f = list(&mut t, by_tier(3, 4));
        let id = t.comp(f.clone());
        let b = input(5);
        each!(param(); agree as () | (u8,) | (u8, bool) | (u8, bool, u16) | (bool, u8) | N0 | N1 | N2 | N3 | T1 | T2 | T3 | NSkip | NSkipEnds | TSkip | NGen<u8, bool> | Unit | TGen<u8> | TGen<()> | NSkipOpaque | NGen<Unit, u8>; (&t, id, &f, &b))
    }
    c19_compact(6, 6) ["value", "malformed"] "fields that are strings, sequences, compact integers, options and structs, inputs of 0..=5 bytes" "" {
        let mut t = Types::new();
        let (u, c, s, o, q) = { let u = t.u8(); let w = t.u32(); (u, t.compact(w), t.str(), t.option(u), t.seq(u)) };
        let inner = t.named(&[("a", u)]);
        let mut f: Vec<(Name, u32)> = match param() { 0 => vec![(Some("a"), c)], 1 => vec![(Some("a"), s), (Some("b"), u)], 2 => vec![(Some("a"), inner), (Some("b"), q)], 3 => { let o2 = { let x = t.bool(); t.option(x) }; vec![(Some("a"), o), (Some("b"), o2)] } 4 => vec![(None, s), (None, q)], _ => vec![(Some("b"), inner), (Some("a"), inner)] };
        if pick(2) == 1 { f.reverse() }
        if pick(2) == 1 { f.push((if pick(2) == 0 { Some("more") } else { None }, u)) }
        let id = t.comp(f.clone());
        let b = input(by_tier(4, 5));
        match param() { 0 => agree::<NCompact>(&t, id, &f, &b), 1 => agree::<NStr>(&t, id, &f, &b), 2 => agree::<NNest>(&t, id, &f, &b), 3 => agree::<NOpt>(&t, id, &f, &b), 4 => agree::<(String, Vec<u8>)>(&t, id, &f, &b), _ => agree::<TNest>(&t, id, &f, &b) }
    }
    c19_arities(20, 20) ["value", "malformed"] "0..=21 fields of one byte into tuples of 1 to 20" "" {
        type A = u8;
        let mut t = Types::new();
        let u = t.u8();
        let n = pick(22);
        let named = pick(2) == 0;
        const N: [&str; 22] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v"];
        let f: Vec<(Name, u32)> = (0..n).map(|i| (if named { Some(N[i]) } else { None }, u)).collect();
        let id = t.comp(f.clone());
        let b = vec(if n > 0 && pick(2) == 1 { n - 1 } else { n + 1 });
        each!(param(); agree as (A,) | (A, A) | (A, A, A) | (A, A, A, A) | (A, A, A, A, A) | (A, A, A, A, A, A) | (A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A)
            | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A) | (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A); (&t, id, &f, &b))
    }
    c19_wide(3, 3) ["value", "malformed"] "18 to 22 fields in three orders, for a struct of 18; 17 to 40 fields for one of two" "" {
        let mut t = Types::new();
        let (u, bo) = (t.u8(), t.bool());
        if param() < 2 {
            let n = [17, 18, 19, 22][pick(4)];
            let mut f: Vec<(Name, u32)> = (0..n).map(|i| (if param() == 1 { None } else { Some(MANY[i]) }, u)).collect();
            match pick(3) { 0 => {} 1 => f.reverse(), _ => f.rotate_left(5) }
            let id = t.comp(f.clone());
            let b = vec(if pick(2) == 1 { n - 1 } else { n + 1 });
            agree::<NWide>(&t, id, &f, &b)
        } else {
            let n = [17, 18, 33, 40][pick(4)];
            let mut f: Vec<(Name, u32)> = (0..n).map(|i| (Some(MANY[i]), u)).collect();
            let (i, j) = ([0, 15, 16, n - 1][pick(4)], [1, 14, n - 2][pick(3)]);
            assume(i != j);
            f[i] = (Some("b"), bo);
            f[j] = (Some("a"), u);
            let id = t.comp(f.clone());
            let b = vec(n + pick(2));
            agree::<N2>(&t, id, &f, &b)
        }
    }
}
