use crate::{model::*, sym::*, visit::*};
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor, Unexpected, Visitor};
use scale_decode::DecodeAsType;

/// An item of a container: where its encoding is, counted from the start of the container, and what it is.
struct Item { name: Name, id: u32, node: Node, lo: usize, hi: usize }
/// The items of a container up to the first that is not there or is malformed.
struct Plan { items: Vec<Item>, names: Vec<Name>, base: usize, count: u64, bad: bool, compact: bool }
impl Plan {
    fn lo(&self, k: usize) -> usize { if k == 0 { self.base } else { self.items[k - 1].hi } }
    fn left(&self, k: usize) -> u64 { self.count - k as u64 }
    fn name(&self, k: usize) -> Name { if k < self.names.len() { self.names[k] } else { None } }
}
fn plan(t: &Types, d: &Def, compact_: bool, b: &[u8]) -> Plan {
    let mut c = b;
    let mut fs: Vec<(Name, u32)> = vec![];
    let mut count = 0;
    let mut same = None;
    match d {
        Def::Composite(_, f) => fs.extend_from_slice(f),
        Def::Tuple(f) => for i in f { fs.push((None, *i)) },
        Def::Variant(vs) => { c = &c[1..]; for (i, _, f) in vs { if *i == b[0] { fs.extend_from_slice(f); break } } }
        Def::Array(i, n) => { same = Some(*i); count = *n as u64 }
        Def::Seq(i) => { same = Some(*i); count = match compact(&mut c, 64) { Ok(n) => n as u64, Err(_) => fail("a sequence was shown without a length") } }
        _ => fail("another kind of container was shown"),
    }
    if same.is_none() { count = fs.len() as u64 }
    let base = b.len() - c.len();
    let mut p = Plan { items: vec![], names: fs.iter().map(|f| f.0).collect(), base, count, bad: false, compact: compact_ };
    while (p.items.len() as u64) < count {
        let k = p.items.len();
        let (name, id) = match same { Some(i) => (None, i), None => fs[k] };
        let lo = b.len() - c.len();
        match spec(t, id, compact_, &mut c) { Ok(node) => p.items.push(Item { name, id, node, lo, hi: b.len() - c.len() }), Err(_) => { p.bad = true; break } }
    }
    p
}
/// `x` is `b` from `n` on.
fn from(x: &[u8], b: &[u8], n: usize) -> bool { x.as_ptr() as usize == b.as_ptr() as usize + n && x.len() == b.len() - n }
fn within(x: &[u8], b: &[u8], i: &Item) -> bool { x.as_ptr() as usize == b.as_ptr() as usize + i.lo && x.len() == i.hi - i.lo }

/// How to walk: `free` chooses what to do at each item, otherwise `fixed` says it.
#[derive(Clone, Copy)]
struct Walk<'x> { t: &'x Types, top: Option<&'x [u8]>, compact: bool, how: usize }
impl<'x> Walk<'x> {
    fn def(&self, id: u32) -> &'x Def { &self.t.0[id as usize] }
    fn act(&self, n: usize) -> usize { if self.how < 99 { self.how } else { pick(n) } }
    fn inside(&self, id: u32) -> Walk<'x> { Walk { t: self.t, top: None, compact: self.compact || matches!(self.t.0[id as usize], Def::Compact(_)), how: 1 } }
    fn top(&self, x: &[u8]) { if let Some(b) = self.top { check(from(x, b, 0), "the bytes from the start do not begin at the value") } }
}
/// A typed decode of an item by its view and of its bytes by themselves.
macro_rules! typed {
    ($me:ident, $view:ident, $all:ident, $i:expr; $($ty:ty),*) => {$({
        let i: &Item = $i;
        let a = $view.decode_as_type::<$ty>();
        let b = <$ty>::decode_as_type_maybe_compact(&mut &$all[i.lo..], i.id, $me.t, $me.compact);
        match (a, b) { (Ok(x), Ok(y)) => { check(x == y, "decoding an item as a type gives another value by its view"); cover("typed") } (Err(_), Err(_)) => {} _ => fail("decoding an item as a type works either by its view or directly, but not both") }
    })*};
}
/// Checks the view of an item.
macro_rules! view {
    ($me:ident, $f:ident, $b:ident, $p:ident, $k:expr, $kind:ident) => {{
        let i = &$p.items[$k];
        check(within($f.bytes(), $b, i), "an item exposes other bytes than its own");
        check(*$f.type_id() == i.id, "an item exposes another type ID");
        view!(@$kind $f, $p, i);
        match $f.decode_with_visitor(ToNode) { Ok(n) => check(n == i.node, "decoding an item from its view gives another value"), Err(_) => fail("an item cannot be decoded from its view") }
        check($f.decode_with_visitor($me.inside(i.id)).is_ok(), "an item cannot be decoded from its view again");
        typed!($me, $f, $b, i; u16, String, (u8, bool));
        cover("view");
    }};
    (@array $f:ident, $p:ident, $i:ident) => {};
    (@tuple $f:ident, $p:ident, $i:ident) => { check($f.is_compact() == $p.compact, "an item is wrong on whether it is compact") };
    (@composite $f:ident, $p:ident, $i:ident) => {
        check($f.is_compact() == $p.compact, "an item is wrong on whether it is compact");
        check($f.name() == $i.name, "an item exposes another name");
    };
}
/// Checks what a container says after `k` items.
macro_rules! state {
    ($me:ident, $v:ident, $b:ident, $p:ident, $k:expr, $kind:ident) => {{
        check($v.remaining() as u64 == $p.left($k), "the remaining count is not the number of items not decoded yet");
        check(from($v.bytes_from_undecoded(), $b, $p.lo($k)), "the un-decoded bytes do not begin at the next item");
        state!(@$kind $me, $v, $b, $p, $k);
    }};
    (@array $me:ident, $v:ident, $b:ident, $p:ident, $k:expr) => { check(from($v.bytes_from_start(), $b, 0), "the bytes from the start do not begin at the value") };
    (@tuple $me:ident, $v:ident, $b:ident, $p:ident, $k:expr) => { check(from($v.bytes_from_start(), $b, 0), "the bytes from the start do not begin at the value") };
    (@composite $me:ident, $v:ident, $b:ident, $p:ident, $k:expr) => {
        check($v.peek_name() == $p.name($k), "the name peeked at is not that of the next field");
        check($v.fields().len() as u64 == $p.count, "another number of fields");
        if $me.act(2) == 1 || $me.how < 99 {
            let from_ = $p.lo($k);
            let mut t = $v.as_tuple();
            check(from(t.bytes_from_start(), $b, from_), "a tuple of the remaining fields does not begin at the next field");
            let mut j = $k;
            while j < $p.items.len() {
                check(t.remaining() as u64 == $p.left(j), "a tuple of the remaining fields has another number of items");
                check(from(t.bytes_from_undecoded(), $b, $p.lo(j)), "a tuple of the remaining fields has its next item elsewhere");
                if j % 2 == 0 {
                    match t.decode_item(ToNode) { Some(Ok(n)) => check(n == $p.items[j].node, "a tuple of the remaining fields has other items"), _ => fail("a tuple of the remaining fields lacks an item") }
                } else {
                    match t.next() { Some(Ok(f)) => view!($me, f, $b, $p, j, tuple), _ => fail("a tuple of the remaining fields lacks an item") }
                }
                j += 1;
            }
            match t.next() { None => check(!$p.bad, "a tuple of the remaining fields ends early"), Some(Err(_)) => check($p.bad, "a tuple of the remaining fields has an item that fails"), Some(Ok(_)) => fail("a tuple of the remaining fields has an item too many") }
            cover("as tuple");
        }
    };
}
macro_rules! walk {
    ($me:ident, $v:ident, $b:ident, $p:ident, $kind:ident) => {{
        let mut k = 0;
        loop {
            state!($me, $v, $b, $p, k, $kind);
            if k == $p.items.len() {
                if !$p.bad {
                    check($v.next().is_none() && $v.decode_item(ToNode).is_none(), "there is an item after the last");
                    state!($me, $v, $b, $p, k, $kind);
                    cover("all items");
                } else {
                    let failed = match $me.act(3) { 0 => matches!($v.decode_item(ToNode), Some(Err(_))), 1 => matches!($v.next(), Some(Err(_))), _ => $v.skip_decoding().is_err() };
                    check(failed, "an item that is not there or malformed does not fail");
                    cover("malformed item");
                }
                break;
            }
            match $me.act(5) {
                0 => match $v.decode_item(ToNode) { Some(Ok(n)) => { check(n == $p.items[k].node, "another item is decoded"); k += 1 } _ => fail("an item does not decode") },
                1 => match $v.next() { Some(Ok(f)) => { view!($me, f, $b, $p, k, $kind); k += 1 } _ => fail("there is no view of an item") },
                2 => match $v.decode_item(IgnoreVisitor::<Types>::new()) { Some(Ok(())) => k += 1, _ => fail("an item does not decode") },
                3 => {
                    let r = $v.skip_decoding();
                    check(r.is_ok() == !$p.bad, "skipping the rest fails when it should not, or does not when it should");
                    if r.is_err() { break }
                    k = $p.items.len();
                }
                _ => { cover("stopped early"); break }
            }
        }
    }};
}
impl<'x> Visitor for Walk<'x> {
    type Value<'s, 'r> = ();
    type Error = DecodeError;
    type TypeResolver = Types;
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(()) }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let b = v.bytes_from_start();
        self.top(b);
        let mut c = b;
        let ok = spec(self.t, { let mut i = 0; while !matches!(self.t.0[i as usize], Def::Prim(scale_type_resolver::Primitive::Str)) { i += 1 } i }, false, &mut c).is_ok();
        match v.bytes_after() { Ok(x) => check(ok && from(x, b, b.len() - c.len()), "the bytes after a string do not begin behind it"), Err(_) => check(!ok, "there are no bytes after a string") }
        Ok(())
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let b = v.bytes_from_start();
        self.top(b);
        let mut c = b;
        let ok = spec(self.t, id, false, &mut c).is_ok();
        match v.bytes_after() { Ok(x) => check(ok && from(x, b, b.len() - c.len()), "the bytes after a bit sequence do not begin behind it"), Err(_) => check(!ok, "there are no bytes after a bit sequence") }
        Ok(())
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let b = v.bytes_from_start();
        self.top(b);
        let p = plan(self.t, self.def(id), false, b);
        walk!(self, v, b, p, array);
        Ok(())
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let b = v.bytes_from_start();
        self.top(b);
        let p = plan(self.t, self.def(id), false, b);
        check(v.is_empty() == (p.count == 0), "an array is wrong on whether it is empty");
        walk!(self, v, b, p, array);
        check(v.is_empty() == (v.remaining() == 0), "an array is wrong on whether it is empty");
        Ok(())
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let b = v.bytes_from_start();
        self.top(b);
        let p = plan(self.t, self.def(id), self.compact, b);
        walk!(self, v, b, p, tuple);
        Ok(())
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let b = v.bytes_from_start();
        self.top(b);
        let d = self.def(id);
        let p = plan(self.t, d, self.compact, b);
        if let Def::Composite(path, fs) = d {
            check(v.path().eq(path.iter().copied()), "another path");
            check(v.name() == path.last().copied(), "another name");
            check(v.has_unnamed_fields() == fs.iter().any(|f| f.0.is_none()), "wrong on whether there are unnamed fields");
            check(v.fields().iter().zip(fs).all(|(f, g)| f.name == g.0 && f.id == g.1), "other fields");
        }
        walk!(self, v, b, p, composite);
        Ok(())
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let b = v.bytes_from_start();
        self.top(b);
        let d = self.def(id);
        let p = plan(self.t, d, false, b);
        if let Def::Variant(vs) = d {
            for (i, n, f) in vs { if *i == b[0] { check(v.index() == *i && v.name() == *n, "another variant"); check(v.fields().fields().len() == f.len(), "another number of fields"); break } }
        }
        check(from(v.bytes_from_undecoded(), b, 1), "the un-decoded bytes do not begin at the fields");
        if self.act(2) == 1 {
            let r = v.skip_decoding();
            check(r.is_ok() == !p.bad, "skipping a variant fails when it should not, or does not when it should");
            if r.is_ok() { check(from(v.bytes_from_undecoded(), b, p.lo(p.items.len())) && v.fields().remaining() == 0, "the un-decoded bytes do not begin behind a skipped variant"); cover("all items") }
            return Ok(());
        }
        let fs = v.fields();
        check(from(fs.bytes_from_start(), b, 1), "the fields do not begin behind the index");
        check(fs.has_unnamed_fields() == p.names.iter().any(|n| n.is_none()), "wrong on whether there are unnamed fields");
        let me = Walk { compact: false, ..self };
        walk!(me, fs, b, p, composite);
        let (a, e) = (fs.bytes_from_undecoded(), b.len());
        let _ = e;
        let after = v.bytes_from_undecoded();
        check(after.as_ptr() == a.as_ptr() && after.len() == a.len(), "a variant and its fields differ on the un-decoded bytes");
        Ok(())
    }
}
fn run(t: &Types, id: u32, b: &[u8], how: usize) {
    let mut c = b;
    let w = Walk { t, top: Some(b), compact: matches!(t.0[id as usize], Def::Compact(_)), how };
    let r = decode_with_visitor(&mut c, id, t, w);
    out_u64(r.is_ok() as u64);
}
const FREE: usize = 99;

/// Fields of alternating types, named or not.
fn many(t: &mut Types, kind: usize, n: usize) -> u32 {
    const NAMES: [&str; 5] = ["a", "b", "c", "", "a"];
    let u8_ = t.u8();
    let bool_ = t.bool();
    let c = t.compact(u8_);
    let ids: Vec<u32> = (0..n).map(|k| [u8_, c, bool_][if k % 7 == 3 { 1 } else if k % 5 == 4 { 2 } else { 0 }]).collect();
    let fs: Vec<(Name, u32)> = ids.iter().enumerate().map(|(k, i)| (if k % 6 == 5 { None } else { Some(NAMES[k % 5]) }, *i)).collect();
    match kind { 0 => t.tuple(&ids), 1 => t.comp(fs), _ => t.variant(vec![(9, "V", fs), (4, "W", vec![])]) }
}

/// Two items, one of them too long to look at: where they are by their views.
struct Where;
macro_rules! spots {
    ($v:expr) => {{
        let b = $v.bytes_from_undecoded();
        let mut r = vec![];
        while let Some(f) = $v.next() {
            let f = f?;
            let x = f.bytes();
            r.push((x.as_ptr() as usize - b.as_ptr() as usize, x.len()));
            check(f.decode_with_visitor(IgnoreVisitor::<Types>::new()).is_ok(), "an item cannot be decoded from its view");
            check(from($v.bytes_from_undecoded(), b, x.as_ptr() as usize - b.as_ptr() as usize + x.len()), "the un-decoded bytes do not begin at the next item");
        }
        Ok(r)
    }};
}
impl Visitor for Where {
    type Value<'s, 'r> = Vec<(usize, usize)>;
    type Error = DecodeError;
    type TypeResolver = Types;
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(vec![]) }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { spots!(v) }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { spots!(v) }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { spots!(v) }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { spots!(v) }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { spots!(v.fields()) }
}

harnesses! { "C09";
    c09_containers(18, 18) ["view", "all items", "malformed item", "stopped early", "as tuple"] "18 containers over u8, u16, strings and compact integers, inputs of 0..=4 (5) bytes, items decoded, viewed, ignored and skipped in every combination" "" {
        let mut t = Types::new();
        let mut first = true;
        let id = container(&mut t, param(), &mut |t| {
            let k = if first || deep() { pick(4) } else { 1 };
            first = false;
            few(t, [0, 2, 3, 4][k])
        });
        assume(!matches!(t.0[id as usize], Def::Compact(_)));
        t.str();
        run(&t, id, &input(by_tier(4, 5)), FREE)
    }
    c09_nested(18, 18) ["view", "all items", "malformed item", "as tuple"] "each of the 18 containers in a tuple, sequence, array, struct or variant with another item, inputs of 0..=5 bytes, everything viewed, inside as well" "" {
        let mut t = Types::new();
        let u8_ = t.u8();
        let bool_ = t.bool();
        t.str();
        let outer = pick(5);
        assume(outer != 1 || ![10, 11, 13].contains(&param()));
        let inner = container(&mut t, param(), &mut |t| if pick(2) == 0 { u8_ } else { bool_ });
        let id = match outer {
            0 => t.tuple(&[inner, u8_]),
            1 => t.seq(inner),
            2 => t.named(&[("a", inner), ("b", u8_)]),
            3 => t.variant(vec![(1, "V", vec![(None, inner), (None, u8_)])]),
            _ => t.array(inner, 2),
        };
        run(&t, id, &input(5), 1)
    }
    c09_compact(5, 5) ["view", "all items", "malformed item", "as tuple"] "compact-encoded integers of 5 widths in up to two single-field wrappers of 4 kinds, every input of 0..=5 (18) bytes" "" {
        let mut t = Types::new();
        t.str();
        let i = t.prim(UINTS[param()]);
        let k = pick(4);
        let i = wrap(&mut t, [0, 1, 2, 4][k], i);
        let i = if pick(2) == 1 { let k = pick(4); wrap(&mut t, [0, 1, 2, 4][k], i) } else { i };
        let id = t.compact(i);
        run(&t, id, &input(by_tier(5, 18)), FREE)
    }
    c09_compact_field(4, 4) ["view", "all items", "malformed item", "as tuple"] "compact-encoded integers and structs next to other items, inputs of 0..=6 bytes, views and tuples of them" "" {
        let mut t = Types::new();
        t.str();
        let u8_ = t.u8();
        let u32_ = t.u32();
        let i = if pick(2) == 1 { t.named(&[("x", u32_)]) } else { u32_ };
        let c = t.compact(i);
        let id = match param() { 0 => t.tuple(&[u8_, c, u8_]), 1 => t.named(&[("a", c), ("b", u8_), ("c", c)]), 2 => t.seq(c), _ => t.variant(vec![(3, "V", vec![(Some("q"), u8_), (None, c)])]) };
        let how = pick(2);
        run(&t, id, &input(6), how)
    }
    c09_many(3, 3) ["view", "all items", "malformed item", "as tuple"] "tuples, structs and variants of 14 to 20 and 40 items, complete or cut short by some bytes, all items decoded, viewed, ignored or skipped" "" {
        let mut t = Types::new();
        let k = pick(by_tier(4, 8));
        let n = [15, 16, 17, 40, 14, 18, 19, 20][k];
        let id = many(&mut t, param(), n);
        t.str();
        let cut = [0, 1, 9][pick(3)];
        let mut b: Vec<u8> = vec![];
        if param() == 2 { b.push(9) }
        // Compact integers of one byte, valid booleans.
        for k in 0..n - cut { let x = byte(); if k % 7 == 3 { assume(x & 3 == 0) } else if k % 5 == 4 { assume(x < 2) } b.push(x) }
        let how = pick(4);
        run(&t, id, &b, how)
    }
    c09_long(2, 2) ["view", "all items", "malformed item"] "sequences and arrays of 62 to 66 items, complete or short by some bytes, all items decoded, viewed, ignored or skipped" "" {
        let mut t = Types::new();
        let u8_ = t.u8();
        t.str();
        let n = 62 + pick(5);
        let b = long(n, 1, 1);
        let b = if param() == 0 { b } else { b[if n < 64 { 1 } else { 2 }..].to_vec() };
        let id = if param() == 0 { t.seq(u8_) } else { t.array(u8_, n) };
        let cut = [0, 1, 3][pick(3)];
        let how = pick(4);
        run(&t, id, &b[..b.len() - cut], how)
    }
    c09_path(9, 9) ["all items"] "struct types with a path of 0 to 8 segments" "" {
        let mut t = Types::new();
        let u8_ = t.u8();
        t.str();
        const PATH: [&str; 8] = ["a", "bb", "c", "", "e", "f", "a", "hh"];
        let id = t.add(Def::Composite(PATH[..param()].to_vec(), vec![(Some("x"), u8_), (None, u8_)]));
        run(&t, id, &vec(2), 0)
    }
    c09_leaves(9, 9) ["value"] "strings and bit sequences of the eight formats, every input of 0..=10 bytes" "" {
        let mut t = Types::new();
        let id = if param() == 8 { t.str() } else { t.bits(BITS[param()].0, BITS[param()].1) };
        t.str();
        cover("value");
        run(&t, id, &input(10), 0)
    }
    c09_huge(6, 6) ["views"] "items of 65535 to 65537 bytes, 2^24 and 2^31 bytes and more followed by a string of any length up to 3, in tuples, structs, variants, sequences and arrays" "alloc=6000000000" {
        let mut t = Types::new();
        let s = t.str();
        // (What a long string or bit sequence contains, nobody looks at.)
        let bits = pick(2) == 1;
        let i = if bits { t.bits(BITS[0].0, BITS[0].1) } else { s };
        let n = [65_531u64, 65_532, 65_533, 70_000, (1 << 24) + 5, (1 << 31) - 1][pick(6)];
        let mut b = zeros(if bits { n.min((1 << 29) - 1) * 8 } else { n }, if bits { n.min((1 << 29) - 1) } else { n } as usize, 0);
        let len = b.len();
        let last = match param() { 3 | 4 => i, _ => s };
        let k = if bits && last == i { 0 } else { pick(4) };
        let (id, pre) = match param() {
            0 => (t.tuple(&[i, s]), 0),
            1 => (t.named(&[("a", i), ("b", s)]), 0),
            2 => (t.variant(vec![(0, "V", vec![(Some("a"), i), (None, s)])]), 1),
            3 => (t.array(i, 2), 0),
            4 => (t.seq(i), 1),
            _ => { let x = t.unnamed(&[i]); (t.tuple(&[x, s]), 0) }
        };
        let mut input = vec![0u8; pre + len + 1 + k];
        if pre == 1 && param() == 4 { input[0] = 2 << 2 }
        let head = 8.min(len);
        input[pre..pre + head].copy_from_slice(&b[..head]);
        input[pre + len] = (k as u8) << 2;
        b.clear();
        let r = decode_with_visitor(&mut &input[..], id, &t, Where);
        check(r == Ok(vec![(0, len), (len, 1 + k)]), "the view of an item has other bytes than those of the item");
        cover("views")
    }
}
