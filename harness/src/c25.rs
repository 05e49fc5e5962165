use crate::{conv::*, model::*, sym::*, targets::*, visit::*};
use scale_decode::visitor::{decode_with_visitor, types, DecodeError, Unexpected, Visitor};
use scale_decode::DecodeAsType;
use scale_info::{form::PortableForm, PortableRegistry, PortableType};
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver, Variant};
use std::rc::Rc;

fn map(d: &Def, f: &mut dyn FnMut(u32) -> u32) -> Def {
    let mut flds = |x: &Vec<(Name, u32)>, f: &mut dyn FnMut(u32) -> u32| -> Vec<(Name, u32)> { x.iter().map(|(n, i)| (*n, f(*i))).collect() };
    match d {
        Def::Compact(i) => Def::Compact(f(*i)),
        Def::Seq(i) => Def::Seq(f(*i)),
        Def::Array(i, n) => Def::Array(f(*i), *n),
        Def::Tuple(x) => Def::Tuple(x.iter().map(|i| f(*i)).collect()),
        Def::Composite(p, x) => Def::Composite(p.clone(), flds(x, f)),
        Def::Variant(vs) => Def::Variant(vs.iter().map(|(i, n, x)| (*i, *n, flds(x, f))).collect()),
        d => d.clone(),
    }
}
/// In reverse, with unknown types in between.
fn permuted(t: &Types, id: u32) -> (Types, u32) {
    let n = t.0.len() as u32;
    let to = |i: u32| 2 * (n - 1 - i) + 1;
    let mut o = vec![Def::NotFound; 2 * n as usize];
    for (i, d) in t.0.iter().enumerate() { o[to(i as u32) as usize] = map(d, &mut |i| to(i)) }
    (Types(o), to(id))
}
/// Under IDs that are far from 0 (and far from each other).
struct Far(Types, u32);
impl TypeResolver for Far {
    type TypeId = u64;
    type Error = ResolveError;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u64>>(&'this self, id: u64, v: V) -> Result<V::Value, ResolveError> {
        let sh = self.1;
        fn flds(f: &[(Name, u32)], sh: u32) -> std::vec::IntoIter<Field<'static, u64>> { f.iter().map(|(n, i)| Field { name: *n, id: (*i as u64 + 1) << sh }).collect::<Vec<_>>().into_iter() }
        let k = |i: &u32| (*i as u64 + 1) << sh;
        let Some(d) = self.0 .0.get(((id >> sh) as usize).wrapping_sub(1)) else { return Ok(v.visit_not_found()) };
        Ok(match d {
            Def::Prim(p) => v.visit_primitive(*p),
            Def::Compact(i) => v.visit_compact(k(i)),
            Def::Seq(i) => v.visit_sequence(core::iter::once("Vec"), k(i)),
            Def::Array(i, n) => v.visit_array(k(i), *n),
            Def::Tuple(t) => v.visit_tuple(t.iter().map(|i| k(i)).collect::<Vec<_>>().into_iter()),
            Def::Composite(p, f) => v.visit_composite(p.iter().copied(), flds(f, sh)),
            Def::Variant(vs) => v.visit_variant(["a", "b"].into_iter(), vs.iter().map(|(i, n, f)| Variant { index: *i, name: *n, fields: flds(f, sh) })),
            Def::Bits(s, o) => v.visit_bit_sequence(*s, *o),
            Def::NotFound => v.visit_not_found(),
            Def::Unhandled(x) => v.visit_unhandled(*x),
            Def::Fails => return Err(ResolveError(0)),
        })
    }
}
fn far(t: &Types, id: u32) -> (Far, u64) { let sh = [8, 16, 32, 56][pick(4)]; (Far(t.clone(), sh), (id as u64 + 1) << sh) }
/// Every use of a type gets a type of its own.
fn unshared(t: &Types, id: u32, o: &mut Types) -> u32 {
    let d = map(&t.0[id as usize], &mut |i| unshared(t, i, o));
    o.add(d)
}
/// Equal types become one.
fn shared(t: &Types, id: u32) -> (Types, u32) {
    let flds = |x: &[(Name, u32)], y: &[(Name, u32)]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.1 == b.1 && a.0 == b.0);
    let eq = |a: &Def, b: &Def| match (a, b) {
        (Def::Prim(p), Def::Prim(q)) => p == q,
        (Def::Compact(i), Def::Compact(j)) | (Def::Seq(i), Def::Seq(j)) => i == j,
        (Def::Array(i, n), Def::Array(j, m)) => i == j && n == m,
        (Def::Tuple(x), Def::Tuple(y)) => x == y,
        (Def::Composite(_, x), Def::Composite(_, y)) => flds(x, y),
        (Def::Variant(x), Def::Variant(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && flds(&a.2, &b.2)),
        (Def::Bits(s, o), Def::Bits(p, q)) => s == p && o == q,
        _ => false,
    };
    let mut o = Types::new();
    let mut to: Vec<u32> = vec![];
    // (Types come after those they are made of.)
    for d in &t.0 {
        let d = map(d, &mut |i| to[i as usize]);
        let k = match o.0.iter().position(|e| eq(e, &d)) { Some(k) => k as u32, None => o.add(d) };
        to.push(k);
    }
    (o, to[id as usize])
}
/// Types under names of their own.
struct Named(Types, Vec<&'static str>);
impl TypeResolver for Named {
    type TypeId = u32;
    type Error = ResolveError;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(&'this self, id: u32, v: V) -> Result<V::Value, ResolveError> {
        let p = self.1.iter().copied();
        let mut names = self.0 .0.iter();
        Ok(match names.nth(id as usize) {
            Some(Def::Composite(_, f)) => v.visit_composite(p, f.iter().map(|(n, i)| Field { name: *n, id: *i }).collect::<Vec<_>>().into_iter()),
            Some(Def::Seq(i)) => v.visit_sequence(p, *i),
            Some(Def::Variant(vs)) => v.visit_variant(p, vs.iter().map(|(i, n, f)| Variant { index: *i, name: *n, fields: f.iter().map(|(n, i)| Field { name: *n, id: *i }).collect::<Vec<_>>().into_iter() }).collect::<Vec<_>>().into_iter()),
            _ => return self.0.resolve_type(id, v),
        })
    }
}
/// How many bytes each item within a value has, found by iterating.
struct Sizes;
fn sizes<'s, E, I: Iterator<Item = Result<(&'s [u8], Result<Vec<usize>, DecodeError>), E>>>(i: I) -> Result<Vec<usize>, DecodeError> where DecodeError: From<E> {
    let mut o = vec![1000];
    for x in i { let x = x?; o.push(x.0.len()); o.extend(x.1?) }
    Ok(o)
}
impl Visitor for Sizes {
    type Value<'s, 'r> = Vec<usize>;
    type Error = DecodeError;
    type TypeResolver = Types;
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(vec![]) }
    fn visit_sequence<'s, 'r>(self, v: &mut types::Sequence<'s, 'r, Types>, _: u32) -> Result<Vec<usize>, DecodeError> { sizes(v.map(|x| x.map(|x| (x.bytes(), x.decode_with_visitor(Sizes))))) }
    fn visit_array<'s, 'r>(self, v: &mut types::Array<'s, 'r, Types>, _: u32) -> Result<Vec<usize>, DecodeError> { sizes(v.map(|x| x.map(|x| (x.bytes(), x.decode_with_visitor(Sizes))))) }
    fn visit_tuple<'s, 'r>(self, v: &mut types::Tuple<'s, 'r, Types>, _: u32) -> Result<Vec<usize>, DecodeError> { sizes(v.map(|x| x.map(|x| (x.bytes(), x.decode_with_visitor(Sizes))))) }
    fn visit_composite<'s, 'r>(self, v: &mut types::Composite<'s, 'r, Types>, _: u32) -> Result<Vec<usize>, DecodeError> { sizes(v.map(|x| x.map(|x| (x.bytes(), x.decode_with_visitor(Sizes))))) }
    fn visit_variant<'s, 'r>(self, v: &mut types::Variant<'s, 'r, Types>, _: u32) -> Result<Vec<usize>, DecodeError> { sizes(v.fields().map(|x| x.map(|x| (x.bytes(), x.decode_with_visitor(Sizes))))) }
}
fn iterated(t: &Types, id: u32, r: &Types, rid: u32, b: &[u8]) {
    let (mut c, mut d) = (b, b);
    match (decode_with_visitor(&mut c, id, t, Sizes), decode_with_visitor(&mut d, rid, r, Sizes)) {
        (Ok(x), Ok(y)) => { check(x == y, "what is iterated over depends on how the types are described"); check(c.len() == d.len(), "the consumption depends on how the types are described"); cover("value") }
        (Err(x), Err(y)) => { check(err_code(&x) == err_code(&y), "the error depends on how the types are described"); cover("error") }
        _ => fail("whether decoding succeeds depends on how the types are described"),
    }
}
fn renamed(t: &Types, k: usize) -> Types {
    let p: Vec<&'static str> = match k { 1 => vec!["Option"], 3 => vec![], 2 => vec!["alloc", "borrow", "Cow"], 0 => vec!["some", "crate_", "deep", "down", "in", "Duration"], _ => vec!["En"] };
    Types(t.0.iter().map(|d| match d { Def::Composite(_, f) => Def::Composite(p.clone(), f.clone()), d => d.clone() }).collect())
}
/// Another kind of ID, which cannot be copied.
#[derive(Clone, Debug, Default)]
pub struct Key(Rc<u32>);
pub struct Keyed(Types);
impl TypeResolver for Keyed {
    type TypeId = Key;
    type Error = ResolveError;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = Key>>(&'this self, id: Key, v: V) -> Result<V::Value, ResolveError> {
        let k = |i: &u32| Key(Rc::new(*i));
        fn keyed(f: &[(Name, u32)]) -> std::vec::IntoIter<Field<'static, Key>> { f.iter().map(|(n, i)| Field { name: *n, id: Key(Rc::new(*i)) }).collect::<Vec<_>>().into_iter() }
        let Some(d) = self.0 .0.get(*id.0 as usize) else { return Ok(v.visit_not_found()) };
        Ok(match d {
            Def::Prim(p) => v.visit_primitive(*p),
            Def::Compact(i) => v.visit_compact(k(i)),
            Def::Seq(i) => v.visit_sequence(core::iter::once("Vec"), k(i)),
            Def::Array(i, n) => v.visit_array(k(i), *n),
            Def::Tuple(t) => v.visit_tuple(t.iter().map(|i| Key(Rc::new(*i)))),
            Def::Composite(p, f) => v.visit_composite(p.iter().copied(), keyed(f)),
            Def::Variant(vs) => v.visit_variant(["a", "b"].into_iter(), vs.iter().map(|(i, n, f)| Variant { index: *i, name: *n, fields: keyed(f) })),
            Def::Bits(s, o) => v.visit_bit_sequence(*s, *o),
            Def::NotFound => v.visit_not_found(),
            Def::Unhandled(x) => v.visit_unhandled(*x),
            Def::Fails => return Err(ResolveError(*id.0)),
        })
    }
}
/// The same types in a scale-info registry.
pub fn portable(t: &Types) -> PortableRegistry {
    use scale_info::*;
    let mut types: Vec<PortableType> = vec![];
    let mut more: Vec<(u32, Type<PortableForm>)> = vec![];
    let mut next = t.0.len() as u32;
    let path = |p: &[&'static str]| Path::<PortableForm>::from_segments_unchecked(p.iter().copied());
    let prim = |p: &Primitive| match p {
        Primitive::Bool => TypeDefPrimitive::Bool, Primitive::Char => TypeDefPrimitive::Char, Primitive::Str => TypeDefPrimitive::Str,
        Primitive::U8 => TypeDefPrimitive::U8, Primitive::U16 => TypeDefPrimitive::U16, Primitive::U32 => TypeDefPrimitive::U32, Primitive::U64 => TypeDefPrimitive::U64, Primitive::U128 => TypeDefPrimitive::U128, Primitive::U256 => TypeDefPrimitive::U256,
        Primitive::I8 => TypeDefPrimitive::I8, Primitive::I16 => TypeDefPrimitive::I16, Primitive::I32 => TypeDefPrimitive::I32, Primitive::I64 => TypeDefPrimitive::I64, Primitive::I128 => TypeDefPrimitive::I128, Primitive::I256 => TypeDefPrimitive::I256,
    };
    let flds = |f: &[(Name, u32)]| -> Vec<scale_info::Field<PortableForm>> { f.iter().map(|(n, i)| scale_info::Field { name: *n, ty: (*i).into(), type_name: None, docs: vec![] }).collect() };
    for (i, d) in t.0.iter().enumerate() {
        let mut p = path(&[]);
        let def: TypeDef<PortableForm> = match d {
            Def::Prim(x) => prim(x).into(),
            Def::Compact(i) => TypeDefCompact::<PortableForm>::new((*i).into()).into(),
            Def::Seq(i) => TypeDefSequence::<PortableForm>::new((*i).into()).into(),
            Def::Array(i, n) => TypeDefArray::<PortableForm>::new(*n as u32, (*i).into()).into(),
            Def::Tuple(x) => TypeDefTuple::<PortableForm>::new_portable(x.iter().map(|i| (*i).into())).into(),
            Def::Composite(q, f) => { p = path(q); TypeDefComposite::<PortableForm> { fields: flds(f) }.into() }
            Def::Variant(vs) => TypeDefVariant::<PortableForm> { variants: vs.iter().map(|(i, n, f)| scale_info::Variant { name: *n, fields: flds(f), index: *i, docs: vec![] }).collect() }.into(),
            Def::Bits(s, o) => {
                let st = match s { BitsStoreFormat::U8 => TypeDefPrimitive::U8, BitsStoreFormat::U16 => TypeDefPrimitive::U16, BitsStoreFormat::U32 => TypeDefPrimitive::U32, BitsStoreFormat::U64 => TypeDefPrimitive::U64 };
                more.push((next, Type::new(path(&[]), vec![], TypeDef::from(st), vec![])));
                let name = if matches!(o, BitsOrderFormat::Lsb0) { "Lsb0" } else { "Msb0" };
                more.push((next + 1, Type::new(path(&["bitvec", "order", name]), vec![], TypeDef::from(TypeDefComposite::<PortableForm> { fields: vec![] }), vec![])));
                next += 2;
                TypeDefBitSequence::<PortableForm>::new_portable((next - 2).into(), (next - 1).into()).into()
            }
            _ => unreachable!(),
        };
        types.push(PortableType::new(i as u32, Type::new(p, vec![], def, vec![])));
    }
    for (i, ty) in more { types.push(PortableType::new(i, ty)) }
    PortableRegistry { types }
}
fn named<T: Conv + DecodeAsType>(t: &Types, id: u32, r: &Named, b: &[u8]) { both::<T, _>(t, id, r, id, b) }
fn both<T: Conv + DecodeAsType, R: TypeResolver>(t: &Types, id: u32, r: &R, rid: R::TypeId, b: &[u8]) {
    let (mut c, mut d) = (b, b);
    match (T::decode_as_type(&mut c, id, t), T::decode_as_type(&mut d, rid, r)) {
        (Ok(x), Ok(y)) => { check(x.same(&y), "the value depends on how the types are described"); check(c.len() == d.len(), "the consumption depends on how the types are described"); cover("value"); out_u64(c.len() as u64) }
        (Err(x), Err(y)) => { cover("error"); out(&[kind_code(x.kind())]); }
        _ => fail("whether decoding succeeds depends on how the types are described"),
    }
}
fn versions<T: Conv + DecodeAsType>(t: &Types, id: u32, b: &[u8], how: usize) {
    match how {
        0 => { let (r, i) = permuted(t, id); both::<T, _>(t, id, &r, i, b) }
        1 => { let mut r = Types::new(); let i = unshared(t, id, &mut r); both::<T, _>(t, id, &r, i, b) }
        2 => { let (r, i) = shared(t, id); both::<T, _>(t, id, &r, i, b) }
        3 => both::<T, _>(t, id, &renamed(t, pick(by_tier(2, 5))), id, b),
        4 => both::<T, _>(t, id, &Keyed(t.clone()), Key(Rc::new(id)), b),
        5 => both::<T, _>(t, id, &portable(t), id, b),
        7 => { let (r, i) = far(t, id); both::<T, _>(t, id, &r, i, b) }
        _ => { let (mut r, i) = permuted(t, id); for d in &mut r.0 { if matches!(d, Def::NotFound) { *d = Def::Prim(Primitive::Bool) } } both::<T, _>(t, id, &portable(&r), i, b) }
    }
}
/// The same shape and value, whatever the IDs.
fn alike(a: &Node, b: &Node) -> bool {
    let list = |x: &[Node], y: &[Node]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| alike(a, b));
    let flds = |x: &[(Name, Node)], y: &[(Name, Node)]| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && alike(&a.1, &b.1));
    match (&a.v, &b.v) {
        (Val::Seq(x), Val::Seq(y)) | (Val::Array(x), Val::Array(y)) | (Val::Tuple(x), Val::Tuple(y)) => list(x, y),
        (Val::Composite(x), Val::Composite(y)) => flds(x, y),
        (Val::Variant(i, n, x), Val::Variant(j, m, y)) => i == j && n == m && flds(x, y),
        (x, y) => x == y,
    }
}
fn visited(t: &Types, id: u32, r: &Types, rid: u32, b: &[u8]) {
    let (mut c, mut d) = (b, b);
    match (decode_with_visitor(&mut c, id, t, ToNode), decode_with_visitor(&mut d, rid, r, ToNode)) {
        (Ok(x), Ok(y)) => { check(alike(&x, &y) && y.id != 4_000_000, "what is visited depends on how the types are described"); check(c.len() == d.len(), "the consumption depends on how the types are described"); cover("value"); out_node(&x) }
        (Err(x), Err(y)) => { check(err_code(&x) == err_code(&y), "the error depends on how the types are described"); cover("error") }
        _ => fail("whether decoding succeeds depends on how the types are described"),
    }
}
harnesses! { "C25";
    c25_targets(81, 81) ["error"] "each of 81 targets; any of 28 leaf types or 18 containers over leaves, with other IDs, renamed, (unshared, shared,) under IDs that are not numbers, and in scale-info registries; inputs of 3 (4) bytes" "" {
        let mut t = Types::new();
        let id = any_type(&mut t);
        let how = if deep() { pick(7) } else { [0, 3, 4, 6][pick(4)] };
        let b = vec(by_tier(3, 4));
        all_targets!(param(); versions (&t, id, &b, how))
    }
    c25_visited(18, 18) ["value", "error"] "18 containers over containers over leaves, visited, with other IDs, unshared, shared and renamed; inputs of 4 (5) bytes" "" {
        let mut t = Types::new();
        let id = container(&mut t, param(), &mut |t| {
            let k = pick(FEW_LEAVES + 5);
            if k < FEW_LEAVES { few(t, k) } else { container(t, [2, 3, 4, 6, 12][k - FEW_LEAVES], &mut |t| t.u8()) }
        });
        let b = vec(by_tier(4, 5));
        match pick(4) {
            0 => { let (r, i) = permuted(&t, id); visited(&t, id, &r, i, &b) }
            1 => { let mut r = Types::new(); let i = unshared(&t, id, &mut r); visited(&t, id, &r, i, &b) }
            2 => { let (r, i) = shared(&t, id); visited(&t, id, &r, i, &b) }
            _ => visited(&t, id, &renamed(&t, pick(5)), id, &b),
        }
    }
    c25_nested(12, 12) ["value"] "12 nested targets from types that fit them, in all eight descriptions (one with IDs of 2^8, 2^16, 2^32 or 2^56 and more); inputs of 5 (6) bytes" "" {
        let mut t = Types::new();
        let (u, bo, w) = (t.u8(), t.bool(), t.u8());
        let c = t.compact(w);
        let s = t.str();
        let id = match param() {
            0 => { let i = t.named(&[("b", bo), ("a", u)]); t.seq(i) }
            1 => { let i = t.named(&[("a", u)]); let q = t.seq(w); t.named(&[("b", q), ("a", i)]) }
            2 => t.variant(vec![(3, "D", vec![(None, u), (None, c)]), (1, "C", vec![(Some("y"), bo), (Some("x"), w)]), (2, "B", vec![(Some("q"), u)]), (0, "A", vec![])]),
            3 => { let i = t.option(u); let j = t.option(i); t.option(j) }
            4 => { let q = t.seq(u); let i = t.tuple(&[q]); t.named(&[("x", i), ("y", q)]) }
            5 => { let i = t.array(c, 2); t.tuple(&[i, s]) }
            6 => { let i = t.result(s, u); t.seq(i) }
            7 => { let b = t.bits(BitsStoreFormat::U16, BitsOrderFormat::Msb0); t.tuple(&[u, b]) }
            8 => { let i = t.unnamed(&[u]); let j = t.tuple(&[i]); let k = t.named(&[("z", j)]); t.compact(k) }
            9 => { let (x, y) = (t.prim(Primitive::I16), t.prim(Primitive::U16)); t.named(&[("a", x), ("b", y)]) }
            10 => { let b = t.bits(BitsStoreFormat::U8, BitsOrderFormat::Lsb0); t.option(b) }
            _ => { let i = t.prim(Primitive::Char); let p = t.option(i); t.array(p, 1) }
        };
        let how = pick(8);
        let b = vec(by_tier(5, 6));
        use std::collections::BTreeMap;
        each!(param(); versions as Vec<N2> | NNest | En | Option<Option<Option<u8>>> | BTreeMap<String, Vec<u8>> | ([u8; 2], String) | Vec<Result<String, u8>> | (u8, scale_bits::Bits) | u16 | NGen<i8, u8> | Option<scale_bits::Bits> | [Option<char>; 1]; (&t, id, &b, how))
    }
    c25_iterated(6, 6) ["value", "error"] "structs, tuples, arrays, sequences and variants with many items of one type, alone and beside others, iterated over, with shared and unshared types; inputs of 6 (8) bytes" "" {
        let mut t = Types::new();
        let k = param();
        let item = |t: &mut Types| match k { 0 => { let u = t.u8(); t.seq(u) } 1 => { let u = t.u8(); t.option(u) } 2 => { let w = t.u32(); t.compact(w) } 3 => t.str(), 4 => { let (u, w) = (t.u8(), t.u16()); t.variant(vec![(0, "A", vec![(None, u)]), (1, "B", vec![(None, w)]), (2, "C", vec![])]) } _ => { let u = t.u8(); let s = t.seq(u); t.tuple(&[s]) } };
        let (x, y, z) = (item(&mut t), item(&mut t), item(&mut t));
        let u = t.u8();
        let id = match pick(7) {
            0 => t.tuple(&[x, y, z]),
            1 => t.tuple(&[x, u, y]),
            2 => t.named(&[("a", x), ("b", y), ("c", z)]),
            3 => t.unnamed(&[x, y]),
            4 => t.variant(vec![(0, "V", vec![(None, x), (None, y), (None, u)]), (1, "W", vec![(Some("w"), x), (Some("v"), y)])]),
            5 => { let s = t.tuple(&[x, y]); t.array(s, 2) }
            _ => { let s = t.tuple(&[y, z]); t.seq(s) }
        };
        let b = vec(by_tier(6, 8));
        if pick(2) == 0 { let mut r = Types::new(); let i = unshared(&t, id, &mut r); iterated(&t, id, &r, i, &b) } else { let (r, i) = shared(&t, id); iterated(&t, id, &r, i, &b) }
    }
    c25_names(12, 12) ["value"] "12 targets from types whose names may be anything of up to three segments: 1 to 16 characters, after segments of 2 to 8, 12 or 18; inputs of 5 bytes" "" {
        let mut t = Types::new();
        let (u, w, s) = (t.u8(), t.u32(), t.str());
        let k = param();
        let id = match k {
            0 => t.unnamed(&[w]),
            1 => { let a = t.array(u, 2); t.unnamed(&[a]) }
            2 => t.named(&[("a", u), ("b", u)]),
            3 => t.option(u),
            4 => { let q = t.seq(u); t.unnamed(&[q]) }
            5 => t.named(&[("x", u), ("y", w)]),
            6 => { let n = t.u64(); t.named(&[("secs", n), ("nanos", w)]) }
            7 => t.unnamed(&[s]),
            8 => { let p = t.tuple(&[u, u]); let p = t.seq(p); t.unnamed(&[p]) }
            9 => t.variant(vec![(0, "A", vec![]), (1, "B", vec![(None, u)])]),
            10 => t.result(u, u),
            _ => t.unnamed(&[u, u]),
        };
        let l = pick(3);
        let mut p = vec![];
        for _ in 0..l { p.push(any_name([2, 3, 4, 5, 6, 7, 8, 12, 18][pick(9)])) }
        p.push(any_name(1 + pick(16)));
        let b = [&[4u8, 1, 1, 0, 0][..], &[1, 5, 0, 0, 0], &[0, 0, 0, 0, 0]][if l == 2 { (k % 5 == 0) as usize } else { pick(3) }];
        let mut b = b.to_vec();
        b[1] = byte();
        b.resize(12, 0);
        use std::collections::BTreeMap;
        each!(k; named as u32 | Vec<u8> | N2 | Option<u8> | Vec<u16> | BTreeMap<String, u64> | core::time::Duration | String | Vec<(u8, u8)> | En | Result<u8, u8> | (u8, u16); (&t, id, &Named(t.clone(), p), &b))
    }
}
