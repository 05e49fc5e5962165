use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use core::cell::Cell;
use core::marker::PhantomData;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, DecodeAsTypeResult, DecodeError, TypeIdFor, Unexpected, Visitor, VisitorWithCrateError};
use scale_decode::error::ErrorKind;
use scale_decode::{DecodeAsType, Error, IntoVisitor};
use scale_type_resolver::TypeResolver;
use std::collections::{BTreeMap, LinkedList};
use std::rc::Rc;

/// Takes over the decoding of one type by reading `n` bytes, and rebuilds whatever else there is.
#[derive(Clone, Copy)]
struct Hook<'x> { special: u32, n: usize, calls: &'x Cell<usize>, asked: &'x Cell<usize>, first: &'x Cell<Option<(usize, usize)>> }
fn bytes_node(special: u32, x: &[u8]) -> Node {
    Node { id: special, v: Val::Array(x.iter().map(|b| Node { id: 0, v: Val::U(8, *b as u128) }).collect()) }
}
macro_rules! leaves {
    ($($m:ident $t:ty, |$v:ident| $e:expr;)*) => { $( fn $m<'s, 'r>(self, $v: $t, id: u32) -> Result<Self::Value<'s, 'r>, VErr> { Ok(Node { id, v: $e }) } )* };
}
impl<'x> Visitor for Hook<'x> {
    type Value<'s, 'r> = Node;
    type Error = VErr;
    type TypeResolver = Types;
    fn unchecked_decode_as_type<'s, 'r>(self, input: &mut &'s [u8], id: u32, _: &'r Types) -> DecodeAsTypeResult<Self, Result<Node, VErr>> {
        if self.first.get().is_none() { self.first.set(Some((input.as_ptr() as usize, input.len()))) }
        self.asked.set(self.asked.get() + 1);
        if id != self.special { return DecodeAsTypeResult::Skipped(self) }
        self.calls.set(self.calls.get() + 1);
        DecodeAsTypeResult::Decoded(match take(input, self.n) { Ok(x) => Ok(bytes_node(id, x)), Err(_) => Err(VErr::Own(9)) })
    }
    leaves! { visit_bool bool, |v| Val::Bool(v); visit_u8 u8, |v| Val::U(8, v as u128); visit_u16 u16, |v| Val::U(16, v as u128); visit_u32 u32, |v| Val::U(32, v as u128); }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, Types>, id: u32) -> Result<Node, VErr> {
        let mut o = vec![];
        while let Some(x) = v.decode_item(self) { o.push(x?) }
        Ok(Node { id, v: Val::Seq(o) })
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, Types>, id: u32) -> Result<Node, VErr> {
        let mut o = vec![];
        while let Some(x) = v.decode_item(self) { o.push(x?) }
        Ok(Node { id, v: Val::Array(o) })
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, Types>, id: u32) -> Result<Node, VErr> {
        let mut o = vec![];
        while let Some(x) = v.decode_item(self) { o.push(x?) }
        Ok(Node { id, v: Val::Tuple(o) })
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Types>, id: u32) -> Result<Node, VErr> { Ok(Node { id, v: Val::Composite(self.items(v)?) }) }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, Types>, id: u32) -> Result<Node, VErr> {
        let (i, n) = (v.index(), unsafe { core::mem::transmute::<&str, &'static str>(v.name()) });
        Ok(Node { id, v: Val::Variant(i, n, self.items(v.fields())?) })
    }
}
impl<'x> Hook<'x> {
    fn items<'s, 'r>(self, v: &mut Composite<'s, 'r, Types>) -> Result<Vec<(Name, Node)>, VErr> {
        let mut o = vec![];
        loop {
            let n = v.peek_name().map(|s| unsafe { core::mem::transmute::<&str, &'static str>(s) });
            match v.decode_item(self) { Some(x) => o.push((n, x?)), None => return Ok(o) }
        }
    }
}
fn count(n: &Node, id: u32) -> usize {
    let l: Vec<&Node> = match &n.v { Val::Seq(x) | Val::Array(x) | Val::Tuple(x) => x.iter().collect(), Val::Composite(x) | Val::Variant(_, _, x) => x.iter().map(|y| &y.1).collect(), _ => vec![] };
    if n.id == id { return 1 }
    l.iter().map(|x| count(x, id)).sum()
}
/// The types in which the one taken over is an array of bytes: what the hook makes of it.
fn seen(t: &Types, special: u32, n: usize) -> Types {
    let mut o = t.clone();
    o.0[special as usize] = Def::Array(0, n);
    o
}
fn hooked(t: &Types, id: u32, special: u32, n: usize, b: &[u8], wrapped: bool) {
    let mut s = b;
    let want = spec(&seen(t, special, n), id, false, &mut s);
    if want == Err(Bad::TooLong) { return }
    let (calls, asked, first) = (Cell::new(0), Cell::new(0), Cell::new(None));
    let v = Hook { special, n, calls: &calls, asked: &asked, first: &first };
    let mut c = b;
    let got = if wrapped { decode_with_visitor(&mut c, id, t, VisitorWithCrateError(v)).map_err(|_| ()) } else { decode_with_visitor(&mut c, id, t, v).map_err(|_| ()) };
    check(first.get() == Some((b.as_ptr() as usize, b.len())), "the visitor was not asked before anything was read");
    match (want, got) {
        (Ok(n), Ok(g)) => {
            check(n == g, "the visitor's own results are not used as they are");
            check(c.len() == s.len(), "the visitor's own consumption is not used as it is");
            check(calls.get() == count(&n, special), "the visitor decoded another number of values than there are");
            if calls.get() > 0 { cover("taken over") } else { cover("declined") }
            out_node(&g);
        }
        (Err(_), Err(_)) => { cover("error"); out(&[0]) }
        _ => fail("taking over the decoding of a type changed what is an encoding"),
    }
}
/// The type the hook takes over; what it really is does not matter.
fn special(t: &mut Types, k: usize) -> u32 {
    match k { 0 => t.str(), 1 => t.u32(), 2 => t.add(Def::NotFound), 3 => t.seq(0), 4 => t.tuple(&[0, 0, 0]), 5 => t.named(&[("a", 0)]), _ => t.add(Def::Fails) }
}

/// A target whose visitor always takes over, reading a byte.
#[derive(Clone, Debug, PartialEq, PartialOrd)]
struct Own1(u8);
struct Own1Visitor<R>(PhantomData<R>);
impl<R: TypeResolver> Visitor for Own1Visitor<R> {
    type Value<'s, 'r> = Own1;
    type Error = Error;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'s, 'r>(self, input: &mut &'s [u8], _: R::TypeId, _: &'r R) -> DecodeAsTypeResult<Self, Result<Own1, Error>> {
        DecodeAsTypeResult::Decoded(match take(input, 1) { Ok(x) => Ok(Own1(x[0])), Err(_) => Err(Error::custom_str("none left")) })
    }
}
impl IntoVisitor for Own1 {
    type AnyVisitor<R: TypeResolver> = Own1Visitor<R>;
    fn into_visitor<R: TypeResolver>() -> Own1Visitor<R> { Own1Visitor(PhantomData) }
}
impl Conv for Own1 {
    fn conv(_: &Types, _: u32, n: &Node) -> Result<Self, Er> {
        match &n.v { Val::Array(x) if x.len() == 1 => if let Val::U(8, b) = x[0].v { Ok(Own1(b as u8)) } else { Err(er(K::Custom)) }, _ => Err(er(K::Custom)) }
    }
    fn same(&self, o: &Self) -> bool { self == o }
}
fn hooks<T: Conv + DecodeAsType>(t: &Types, id: u32, special: u32, b: &[u8]) {
    let r = seen(t, special, 1);
    let mut s = b;
    let want = spec(&r, id, false, &mut s);
    if want == Err(Bad::TooLong) { return }
    let mut c = b;
    let got = T::decode_as_type(&mut c, id, t);
    judge(&r, id, want, s.len(), got, c.len(), KIND)
}

/// Handles nothing, and counts what comes.
#[derive(Clone, Copy)]
struct Nothing<'x> { calls: &'x Cell<usize>, kind: &'x Cell<Option<Unexpected>>, fails: bool }
impl<'x> Visitor for Nothing<'x> {
    type Value<'s, 'r> = u8;
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_unexpected<'s, 'r>(self, u: Unexpected) -> Result<Self::Value<'s, 'r>, VErr> {
        self.calls.set(self.calls.get() + 1);
        self.kind.set(Some(u));
        if self.fails { Err(VErr::Own(3)) } else { Ok(7) }
    }
}
fn catch_all(t: &Types, id: u32, b: &[u8]) {
    let mut s = b;
    let want = spec(t, id, false, &mut s);
    if want == Err(Bad::TooLong) { return }
    let (calls, kind, fails) = (Cell::new(0), Cell::new(None), pick(2) == 1);
    let mut c = b;
    let got = decode_with_visitor(&mut c, id, t, Nothing { calls: &calls, kind: &kind, fails });
    match want {
        Ok(n) => {
            check(calls.get() == 1, "the catch-all was not reached exactly once");
            check(kind.get() == Some(unexpected(&n.v)), "the catch-all was told another kind of value");
            check(got == if fails { Err(VErr::Own(3)) } else { Ok(7) }, "what the catch-all returned is not the result");
            check(c.len() == s.len(), "the input was not left after the value");
            cover("caught");
        }
        Err(_) => {
            check(calls.get() <= 1, "the catch-all was reached more than once");
            check(got.is_err(), "malformed bytes were accepted");
            cover("malformed");
        }
    }
}

/// Reads up to `most` items of everything, fails at one type; used plain and wrapped.
#[derive(Clone, Copy)]
struct Some_ { most: usize, bad: u32 }
impl Some_ { fn end(&self, id: u32, n: u32) -> Result<u32, VErr> { if id == self.bad { Err(VErr::Own(5)) } else { Ok(n) } } }
macro_rules! some_items { ($self:ident $v:ident $id:ident) => {{
    let mut n = 1;
    for _ in 0..$self.most { match $v.decode_item($self) { Some(x) => n = n * 3 + x?, None => break } }
    $self.end($id, n)
}}; }
impl Visitor for Some_ {
    type Value<'s, 'r> = u32;
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_unexpected<'s, 'r>(self, u: Unexpected) -> Result<Self::Value<'s, 'r>, VErr> { if self.bad == 777 { Err(VErr::Own(6)) } else { Ok(2) } }
    fn visit_u8<'s, 'r>(self, v: u8, id: u32) -> Result<Self::Value<'s, 'r>, VErr> { self.end(id, v as u32) }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, Types>, id: u32) -> Result<u32, VErr> { some_items!(self v id) }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, Types>, id: u32) -> Result<u32, VErr> { some_items!(self v id) }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, Types>, id: u32) -> Result<u32, VErr> { some_items!(self v id) }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Types>, id: u32) -> Result<u32, VErr> { some_items!(self v id) }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, Types>, id: u32) -> Result<u32, VErr> { let v = v.fields(); some_items!(self v id) }
}
fn own_code(e: &Error) -> Option<u8> {
    match e.kind() { ErrorKind::Custom(c) => c.downcast_ref::<Own>().map(|o| o.0), _ => None }
}
fn wrapped(t: &Types, id: u32, b: &[u8]) {
    let (mut c, mut d) = (b, b);
    let (p, q) = (decode_with_visitor(&mut c, id, t, ToNode), decode_with_visitor(&mut d, id, t, VisitorWithCrateError(ToNode)));
    check(c.len() == d.len(), "wrapping the visitor changed what was consumed");
    match (p, q) {
        (Ok(x), Ok(y)) => { check(x == y, "wrapping the visitor changed the value"); cover("value") }
        (Err(x), Err(y)) => { check(matches!(y.kind(), ErrorKind::VisitorDecodeError(y) if err_code(y) == err_code(&x)), "wrapping the visitor changed the error"); check(y.context().path().locations().next().is_none(), "wrapping the visitor invented a place"); cover("error") }
        _ => fail("wrapping the visitor changed whether it succeeds"),
    }
    let v = Some_ { most: pick(3), bad: [1000, 0, id, 777][pick(4)] };
    let (mut c, mut d) = (b, b);
    let (p, q) = (decode_with_visitor(&mut c, id, t, v), decode_with_visitor(&mut d, id, t, VisitorWithCrateError(v)));
    check(c.len() == d.len(), "wrapping the visitor changed what was consumed");
    match (p, q) {
        (Ok(x), Ok(y)) => check(x == y, "wrapping the visitor changed the value"),
        (Err(VErr::Own(k)), Err(y)) => { check(own_code(&y) == Some(k), "wrapping the visitor changed its own error"); cover("own error") }
        (Err(_), Err(y)) => check(own_code(&y).is_none(), "wrapping the visitor changed the error"),
        _ => fail("wrapping the visitor changed whether it succeeds"),
    }
    out_u64(c.len() as u64);
}
harnesses! { "C23";
    c23_hook(17, 17) ["taken over", "error"] "17 containers over u8 and a type taken over (7 kinds, unusable ones included) by a visitor that reads 0 to 2 bytes, plain and wrapped, inputs of 0..=5 bytes" "" {
        let mut t = Types::new();
        t.u8();
        let k = pick(7);
        let x = special(&mut t, k);
        let mut some = false;
        let id = container(&mut t, if param() >= 12 { param() + 1 } else { param() }, &mut |_| { if !some { some = true; if pick(4) > 0 { x } else { 0 } } else if pick(2) == 0 { x } else { 0 } });
        let n = pick(3);
        if n == 0 && param() == 0 { assume(false) }
        hooked(&t, id, x, n, &input(by_tier(4, 5)), pick(2) == 1);
    }
    c23_hook_top(7, 7) ["taken over", "declined", "error"] "the type taken over at top level, and none taken over" "" {
        let mut t = Types::new();
        t.u8();
        let x = special(&mut t, param());
        let n = pick(4);
        hooked(&t, x, x, n, &input(5), pick(2) == 1);
        let y = t.u32();
        let z = t.tuple(&[0, y]);
        hooked(&t, if pick(2) == 0 { z } else { 0 }, x, n, &input(6), pick(2) == 1);
    }
    c23_hook_deep(10, 10) ["taken over", "error"] "two levels of containers over u8 and a type taken over, inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        t.u8();
        let k = pick(3);
        let x = special(&mut t, [0, 2, 4][k]);
        let n = 1 + pick(2);
        let i = container(&mut t, param(), &mut |_| if pick(2) == 0 { x } else { 0 });
        let id = match pick(5) { 0 => t.tuple(&[i, x]), 1 => t.seq(i), 2 => t.named(&[("a", i), ("b", 0)]), 3 => t.variant(vec![(0, "A", vec![(None, 0), (Some("i"), i)])]), _ => t.option(i) };
        hooked(&t, id, x, n, &vec(by_tier(4, 6)), false);
    }
    c23_targets(18, 18) ["value"] "a target with a visitor of its own, within 18 shipped and derived targets, in place of 7 kinds of types, inputs of 0..=4 bytes" "" {
        let mut t = Types::new();
        t.u8();
        let b = input(4);
        let k = pick(7);
        // (Derived structs skip fields by the described type first, and decode them later.)
        let x = if [7, 8].contains(&param()) { assume(k < 3); match k { 0 => t.prim(scale_type_resolver::Primitive::I8), 1 => t.unnamed(&[0]), _ => t.tuple(&[0]) } } else { special(&mut t, k) };
        let t = &mut t;
        match param() {
            0 => hooks::<Own1>(t, x, x, &b),
            1 => { let id = if pick(2) == 0 { t.seq(x) } else { t.array(x, 2) }; hooks::<Vec<Own1>>(t, id, x, &b) }
            2 => { let id = if pick(2) == 0 { t.seq(x) } else { t.array(x, 2) }; hooks::<[Own1; 2]>(t, id, x, &b) }
            3 => { let id = if pick(2) == 0 { t.tuple(&[x, 0]) } else { t.named(&[("p", x), ("q", 0)]) }; hooks::<(Own1, u8)>(t, id, x, &b) }
            4 => { let id = if pick(2) == 0 { t.tuple(&[0, x]) } else { t.unnamed(&[0, x]) }; hooks::<(u8, Own1)>(t, id, x, &b) }
            5 => { let id = t.option(x); hooks::<Option<Own1>>(t, id, x, &b) }
            6 => { let id = t.result(0, x); hooks::<Result<u8, Own1>>(t, id, x, &b) }
            7 => { let id = match pick(3) { 0 => t.named(&[("a", x), ("b", 0)]), 1 => t.named(&[("b", 0), ("a", x)]), _ => t.tuple(&[x, 0]) }; hooks::<NGen<Own1, u8>>(t, id, x, &b) }
            8 => { let id = t.unnamed(&[x]); hooks::<TGen<Own1>>(t, id, x, &b) }
            9 => hooks::<Box<Own1>>(t, x, x, &b),
            10 => { let id = t.named(&[("m", x), ("n", x)]); hooks::<BTreeMap<String, Own1>>(t, id, x, &b) }
            11 => { let id = t.tuple(&[x, x]); hooks::<core::ops::Range<Own1>>(t, id, x, &b) }
            12 => hooks::<codec::Compact<Own1>>(t, x, x, &b),
            13 => { let id = t.seq(x); hooks::<LinkedList<Rc<Own1>>>(t, id, x, &b) }
            14 => { assume(![2, 4, 5, 6].contains(&k)); hooks::<(Own1,)>(t, x, x, &b) }
            15 => { let id = if pick(2) == 0 { t.tuple(&[x]) } else { t.named(&[("w", x)]) }; hooks::<(Own1,)>(t, id, x, &b) }
            16 => { let i = t.option(x); let id = t.seq(i); hooks::<Vec<Option<Own1>>>(t, id, x, &b) }
            _ => { let i = t.seq(x); let id = t.tuple(&[i, x]); hooks::<(Vec<Own1>, std::sync::Arc<Own1>)>(t, id, x, &b) }
        }
    }
    c23_catch_all(46, 46) ["caught"] "each of 28 leaf types and 18 containers over leaves, a visitor that handles nothing and succeeds or fails, inputs of 0..=5 bytes (0..=18, 33 for leaves)" "" {
        let mut t = Types::new();
        let k = param();
        let (id, b) = if k < ALL_LEAVES { (leaf(&mut t, k), match k { 2 => input(4), 8 | 14 => vec(33), _ => input(18) }) } else { (container(&mut t, k - ALL_LEAVES, &mut |t| { let k = pick(3); few(t, [0, 2, 4][k]) }), input(4)) };
        catch_all(&t, id, &b);
    }
    c23_wrapped(46, 46) ["own error"] "each of 28 leaf types and 18 containers over leaves; visitors that read everything or up to 2 items and fail or not; inputs of 0..=4 bytes (0..=10, 33 for leaves)" "" {
        let mut t = Types::new();
        t.u8();
        let k = param();
        let (id, b) = if k < ALL_LEAVES { (leaf(&mut t, k), match k { 2 => input(4), 8 | 14 => vec(33), _ => input(10) }) } else { (container(&mut t, k - ALL_LEAVES, &mut |t| if pick(2) == 0 { 0 } else { t.bool() }), input(4)) };
        wrapped(&t, id, &b);
    }
    c23_wide(5, 5) ["taken over", "error"] "tuples, structs and variants of 16 to 18 items, one, two or all but one of which (among them the 16th to 18th) are of a type taken over, and long sequences and arrays of it" "" {
        let mut t = Types::new();
        t.u8();
        let k = pick(3);
        let x = special(&mut t, [0, 2, 5][k]);
        let n = 1 + pick(2);
        let all = 16 + pick(3);
        let at = [0, 7, 14, 15, 16, 17][pick(6)];
        let how = pick(3);
        let ids: Vec<u32> = (0..all).map(|i| if match how { 0 => i == at, 1 => i == at || i + 1 == all, _ => i != at } { x } else { 0 }).collect();
        let (mut id, mut b) = broad(&mut t, param(), &ids);
        let size: usize = ids.iter().map(|i| if *i == x { n } else { 1 }).sum();
        if how == 2 && at == 17 && param() == 0 { id = if pick(2) == 0 { t.array(x, 40) } else { b.push(40 << 2); t.seq(x) }; b.extend_from_slice(&vec(40 * n - pick(2))) } else { b.extend_from_slice(&vec(size + 1 - 2 * pick(2))) }
        hooked(&t, id, x, n, &b, pick(2) == 1)
    }
}
