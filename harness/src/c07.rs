use crate::{model::*, sym::*, visit::*};
use scale_decode::visitor::decode_with_visitor;

/// Decode with the rebuilding visitor and compare with the reference.
pub fn same_as_reference(t: &Types, id: u32, b: &[u8]) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    if want == Err(Bad::TooLong) { return }
    let mut c = b;
    let got = decode_with_visitor(&mut c, id, t, ToNode);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            check(g == w, "a visitor was shown something other than the encoded value, or with another type ID");
            check(c.len() == s.len(), "the input was not advanced by exactly the encoding of the value");
            cover("value");
            out_node(&g);
            out_u64(c.len() as u64);
        }
        (Err(e), Err(w)) => { cover("error"); out(&[err_code(&e)]) }
        (Ok(_), Err(_)) => fail("a value was produced from bytes that are no encoding of the type"),
        (Err(_), Ok(_)) => fail("a valid encoding was rejected"),
    }
}

harnesses! { "C07";
    c07_leaves(28, 28) ["value", "error"] "each of the 28 leaf types, every input of 0..=34 bytes" "" {
        let mut t = Types::new();
        let id = leaf(&mut t, param());
        let b = input(by_tier(34, 40));
        same_as_reference(&t, id, &b);
    }
    c07_nested(18, 18) ["value", "error"] "18 containers over 6 leaves" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| { let k = pick(FEW_LEAVES); few(t, k) });
        let b = input(by_tier(5, 6));
        same_as_reference(&t, id, &b);
    }
    c07_wide(5, 5) ["value", "error"] "tuples, structs and variants of 15, 16, 17, 18, 33 and 40 items of one of three types each, whole and short of a byte" "" {
        let mut t = Types::new();
        let n = [15, 16, 17, 18, 33, 40][pick(6)];
        let of = [t.u8(), t.u16(), t.bool()];
        let ids: Vec<u32> = (0..n).map(|i| if i == 3 { of[2] } else { of[i % 2] }).collect();
        let (id, mut b) = broad(&mut t, param(), &ids);
        let more = [0, 1, 2, 16][pick(4)];
        b.extend_from_slice(&vec(n + n / 2 - 2 + more));
        same_as_reference(&t, id, &b);
    }
    c07_variants(3, 3) ["value", "error"] "tables of 1, 100 and 256 variants in three orders, any index" "" {
        let mut t = Types::new();
        let of = [t.u8(), t.bool()];
        let n = [1, 100, 256][param()];
        let how = pick(3);
        let vs = (0..n).map(|i| { let i = match how { 0 => i, 1 => n - 1 - i, _ => i * 37 % n }; (i as u8, MANY[i % 40], match i % 4 { 0 => vec![], 1 => vec![(None, of[0])], 2 => vec![(Some("x"), of[1]), (Some("y"), of[0])], _ => vec![(None, of[0]), (None, of[0])] }) }).collect();
        let id = t.variant(vs);
        let b = input(3);
        same_as_reference(&t, id, &b);
    }
}
