//! A type resolver over plain definitions, and an independent reading of the SCALE encoding: `spec` decodes bytes
//! against a definition without using the code under test or parity-scale-codec.
use crate::sym;
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver, UnhandledKind, Variant};

pub type Name = Option<&'static str>;

#[derive(Clone, Debug)]
pub enum Def {
    Prim(Primitive),
    Compact(u32),
    Seq(u32),
    Array(u32, usize),
    Tuple(Vec<u32>),
    Composite(Vec<&'static str>, Vec<(Name, u32)>),
    Variant(Vec<(u8, &'static str, Vec<(Name, u32)>)>),
    Bits(BitsStoreFormat, BitsOrderFormat),
    NotFound,
    Unhandled(UnhandledKind),
    Fails,
}

#[derive(Clone, Debug, Default)]
pub struct Types(pub Vec<Def>);

#[derive(Debug)]
pub struct ResolveError(pub u32);
impl core::fmt::Display for ResolveError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("resolver gave up") }
}

#[derive(Clone)]
pub struct Fields<'a>(core::slice::Iter<'a, (Name, u32)>);
impl<'a> Iterator for Fields<'a> {
    type Item = Field<'a, u32>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|(n, i)| Field { name: *n, id: *i }) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<'a> ExactSizeIterator for Fields<'a> {}
pub fn fields(f: &[(Name, u32)]) -> Fields<'_> { Fields(f.iter()) }

struct Variants<'a>(core::slice::Iter<'a, (u8, &'static str, Vec<(Name, u32)>)>);
impl<'a> Iterator for Variants<'a> {
    type Item = Variant<'a, Fields<'a>>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|(i, n, f)| Variant { index: *i, name: n, fields: Fields(f.iter()) }) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<'a> ExactSizeIterator for Variants<'a> {}

/// How often types were resolved: a measure of work that native runs share.
pub static RESOLVED: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);
pub fn resolved() -> u64 { RESOLVED.load(core::sync::atomic::Ordering::Relaxed) }

impl TypeResolver for Types {
    type TypeId = u32;
    type Error = ResolveError;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(&'this self, id: u32, v: V) -> Result<V::Value, ResolveError> {
        RESOLVED.store(resolved() + 1, core::sync::atomic::Ordering::Relaxed);
        let Some(d) = self.0.get(id as usize) else { return Ok(v.visit_not_found()) };
        Ok(match d {
            Def::Prim(p) => v.visit_primitive(*p),
            Def::Compact(i) => v.visit_compact(*i),
            Def::Seq(i) => v.visit_sequence(core::iter::empty(), *i),
            Def::Array(i, n) => v.visit_array(*i, *n),
            Def::Tuple(t) => v.visit_tuple(t.iter().copied()),
            Def::Composite(p, f) => v.visit_composite(p.iter().copied(), Fields(f.iter())),
            Def::Variant(vs) => v.visit_variant(core::iter::empty(), Variants(vs.iter())),
            Def::Bits(s, o) => v.visit_bit_sequence(*s, *o),
            Def::NotFound => v.visit_not_found(),
            Def::Unhandled(k) => v.visit_unhandled(*k),
            Def::Fails => return Err(ResolveError(id)),
        })
    }
}

impl Types {
    pub fn new() -> Types { Types(vec![]) }
    pub fn add(&mut self, d: Def) -> u32 { self.0.push(d); (self.0.len() - 1) as u32 }
    pub fn prim(&mut self, p: Primitive) -> u32 { self.add(Def::Prim(p)) }
    pub fn u8(&mut self) -> u32 { self.prim(Primitive::U8) }
    pub fn u16(&mut self) -> u32 { self.prim(Primitive::U16) }
    pub fn u32(&mut self) -> u32 { self.prim(Primitive::U32) }
    pub fn u64(&mut self) -> u32 { self.prim(Primitive::U64) }
    pub fn bool(&mut self) -> u32 { self.prim(Primitive::Bool) }
    pub fn str(&mut self) -> u32 { self.prim(Primitive::Str) }
    pub fn compact(&mut self, i: u32) -> u32 { self.add(Def::Compact(i)) }
    pub fn seq(&mut self, i: u32) -> u32 { self.add(Def::Seq(i)) }
    pub fn array(&mut self, i: u32, n: usize) -> u32 { self.add(Def::Array(i, n)) }
    pub fn tuple(&mut self, t: &[u32]) -> u32 { self.add(Def::Tuple(t.to_vec())) }
    pub fn named(&mut self, f: &[(&'static str, u32)]) -> u32 { self.add(Def::Composite(vec!["krate", "Struct"], f.iter().map(|(n, i)| (Some(*n), *i)).collect())) }
    pub fn unnamed(&mut self, f: &[u32]) -> u32 { self.add(Def::Composite(vec!["Struct"], f.iter().map(|i| (None, *i)).collect())) }
    pub fn comp(&mut self, f: Vec<(Name, u32)>) -> u32 { self.add(Def::Composite(vec![], f)) }
    pub fn variant(&mut self, v: Vec<(u8, &'static str, Vec<(Name, u32)>)>) -> u32 { self.add(Def::Variant(v)) }
    pub fn bits(&mut self, s: BitsStoreFormat, o: BitsOrderFormat) -> u32 { self.add(Def::Bits(s, o)) }
    pub fn option(&mut self, i: u32) -> u32 { self.variant(vec![(0, "None", vec![]), (1, "Some", vec![(None, i)])]) }
    pub fn result(&mut self, a: u32, b: u32) -> u32 { self.variant(vec![(0, "Ok", vec![(None, a)]), (1, "Err", vec![(None, b)])]) }
}

pub const PRIMS: [Primitive; 15] = [
    Primitive::Bool, Primitive::Char, Primitive::Str, Primitive::U8, Primitive::U16, Primitive::U32, Primitive::U64, Primitive::U128,
    Primitive::U256, Primitive::I8, Primitive::I16, Primitive::I32, Primitive::I64, Primitive::I128, Primitive::I256,
];
pub const UINTS: [Primitive; 5] = [Primitive::U8, Primitive::U16, Primitive::U32, Primitive::U64, Primitive::U128];
pub const INTS: [Primitive; 10] = [
    Primitive::U8, Primitive::U16, Primitive::U32, Primitive::U64, Primitive::U128,
    Primitive::I8, Primitive::I16, Primitive::I32, Primitive::I64, Primitive::I128,
];
pub const BITS: [(BitsStoreFormat, BitsOrderFormat); 8] = [
    (BitsStoreFormat::U8, BitsOrderFormat::Lsb0), (BitsStoreFormat::U16, BitsOrderFormat::Lsb0),
    (BitsStoreFormat::U32, BitsOrderFormat::Lsb0), (BitsStoreFormat::U64, BitsOrderFormat::Lsb0),
    (BitsStoreFormat::U8, BitsOrderFormat::Msb0), (BitsStoreFormat::U16, BitsOrderFormat::Msb0),
    (BitsStoreFormat::U32, BitsOrderFormat::Msb0), (BitsStoreFormat::U64, BitsOrderFormat::Msb0),
];

/// One decoded value: the ID of the type it was described by, and what it is.
#[derive(Clone, PartialEq, Debug)]
pub struct Node { pub id: u32, pub v: Val }
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Bool(bool),
    Char(char),
    /// width in bits, value
    U(u32, u128),
    I(u32, i128),
    U256([u8; 32]),
    I256([u8; 32]),
    /// raw bytes: the encoding does not force them to be UTF-8
    Str(Vec<u8>),
    Seq(Vec<Node>),
    Array(Vec<Node>),
    Tuple(Vec<Node>),
    Composite(Vec<(Name, Node)>),
    Variant(u8, &'static str, Vec<(Name, Node)>),
    Bits(Vec<bool>),
}

/// Why bytes are no encoding of a type.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad { Eof, Bool, Char(u32), Compact, NotCompactable, NotFound, Unhandled, Resolver, Variant(u8), TooLong }

pub fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], Bad> {
    if b.len() < n { return Err(Bad::Eof) }
    let (x, y) = b.split_at(n);
    *b = y;
    Ok(x)
}
pub fn uint(b: &mut &[u8], n: usize) -> Result<u128, Bad> {
    let x = take(b, n)?;
    let mut r = 0u128;
    for i in 0..n { r |= (x[i] as u128) << (8 * i) }
    Ok(r)
}
/// A compact integer of a `bits`-wide type: the two low bits of the first byte give the mode; the shortest form is the
/// only one allowed.
pub fn compact(b: &mut &[u8], bits: u32) -> Result<u128, Bad> {
    let first = *b.first().ok_or(Bad::Eof)?;
    let v = match first & 3 {
        0 => { take(b, 1)?; return Ok((first >> 2) as u128) }
        1 => { let v = uint(b, 2)? >> 2; if v < 1 << 6 { return Err(Bad::Compact) } v }
        2 => { if bits < 16 { return Err(Bad::Compact) } let v = uint(b, 4)? >> 2; if v < 1 << 14 { return Err(Bad::Compact) } v }
        _ => {
            let n = sym::concrete((first >> 2) as u64 + 4) as u32;
            if n * 8 > bits { return Err(Bad::Compact) }
            take(b, 1)?;
            let v = uint(b, n as usize)?;
            if n == 4 { if v < 1 << 30 { return Err(Bad::Compact) } } else if v >> (8 * (n - 1)) == 0 { return Err(Bad::Compact) }
            v
        }
    };
    if bits < 128 && v >> bits != 0 { return Err(Bad::Compact) }
    Ok(v)
}
pub fn store_bytes(s: BitsStoreFormat) -> usize {
    match s { BitsStoreFormat::U8 => 1, BitsStoreFormat::U16 => 2, BitsStoreFormat::U32 => 4, BitsStoreFormat::U64 => 8 }
}
/// Whether values of type `id` may take no bytes (or whether it is not easy to tell).
fn weightless(t: &Types, id: u32, depth: usize) -> bool {
    if depth == 0 { return true }
    match t.0.get(id as usize) {
        Some(Def::Array(i, n)) => *n == 0 || weightless(t, *i, depth - 1),
        Some(Def::Tuple(f)) => f.iter().all(|i| weightless(t, *i, depth - 1)),
        Some(Def::Composite(_, f)) => f.iter().all(|f| weightless(t, f.1, depth - 1)),
        Some(Def::Compact(i)) => weightless(t, *i, depth - 1),
        _ => false,
    }
}
/// The longest sequence the reference decoder follows if its elements may take no bytes (others cannot be longer than
/// the bounded inputs).
pub const MAX_LEN: u128 = 4096;

/// The reference: decode one value of type `id` off the front of `b`.
pub fn spec(t: &Types, id: u32, is_compact: bool, b: &mut &[u8]) -> Result<Node, Bad> {
    let d = t.0.get(id as usize).ok_or(Bad::NotFound)?;
    let no = |ok: bool| if is_compact && !ok { Err(Bad::NotCompactable) } else { Ok(()) };
    let v = match d {
        Def::Prim(p) => {
            let w = match p { Primitive::U8 | Primitive::I8 => 8, Primitive::U16 | Primitive::I16 => 16, Primitive::U32 | Primitive::I32 => 32, Primitive::U64 | Primitive::I64 => 64, _ => 128u32 };
            match p {
                Primitive::U8 | Primitive::U16 | Primitive::U32 | Primitive::U64 | Primitive::U128 =>
                    Val::U(w, if is_compact { compact(b, w)? } else { uint(b, w as usize / 8)? }),
                Primitive::I8 | Primitive::I16 | Primitive::I32 | Primitive::I64 | Primitive::I128 => {
                    no(false)?;
                    let u = uint(b, w as usize / 8)?;
                    Val::I(w, ((u << (128 - w)) as i128) >> (128 - w))
                }
                Primitive::Bool => { no(false)?; match take(b, 1)?[0] { 0 => Val::Bool(false), 1 => Val::Bool(true), _ => return Err(Bad::Bool) } }
                Primitive::Char => {
                    no(false)?;
                    let n = uint(b, 4)? as u32;
                    if n > 0x10ffff || (n >= 0xd800 && n <= 0xdfff) { return Err(Bad::Char(n)) }
                    Val::Char(unsafe { char::from_u32_unchecked(n) })
                }
                Primitive::U256 | Primitive::I256 => {
                    no(false)?;
                    let x = take(b, 32)?;
                    let mut a = [0u8; 32];
                    a.copy_from_slice(x);
                    if matches!(p, Primitive::U256) { Val::U256(a) } else { Val::I256(a) }
                }
                Primitive::Str => {
                    no(false)?;
                    let n = compact(b, 32)?;
                    if n > b.len() as u128 { return Err(Bad::Eof) }
                    let n = sym::concrete(n as u64) as usize;
                    Val::Str(take(b, n)?.to_vec())
                }
            }
        }
        Def::Compact(i) => return spec(t, *i, true, b),
        Def::Seq(i) => {
            no(false)?;
            let n = compact(b, 64)?;
            if n > MAX_LEN && weightless(t, *i, 8) { return Err(Bad::TooLong) }
            let mut v = vec![];
            let mut k = 0;
            while k < n { v.push(spec(t, *i, false, b)?); k += 1 }
            Val::Seq(v)
        }
        Def::Array(i, n) => {
            no(false)?;
            let mut v = vec![];
            for _ in 0..*n { v.push(spec(t, *i, false, b)?) }
            Val::Array(v)
        }
        Def::Tuple(ts) => {
            no(ts.len() == 1)?;
            let mut v = vec![];
            for i in ts { v.push(spec(t, *i, is_compact, b)?) }
            Val::Tuple(v)
        }
        Def::Composite(_, f) => {
            no(f.len() == 1)?;
            let mut v = vec![];
            for (n, i) in f { v.push((*n, spec(t, *i, is_compact, b)?)) }
            Val::Composite(v)
        }
        Def::Variant(vs) => {
            no(false)?;
            let x = take(b, 1)?[0];
            let mut r = None;
            for (i, n, f) in vs {
                if *i == x {
                    let mut v = vec![];
                    for (n, i) in f { v.push((*n, spec(t, *i, false, b)?)) }
                    r = Some(Val::Variant(*i, n, v));
                    break;
                }
            }
            match r { Some(v) => v, None => return Err(Bad::Variant(x)) }
        }
        Def::Bits(s, o) => {
            no(false)?;
            let n = compact(b, 32)?;
            if n > 8 * b.len() as u128 { return Err(Bad::Eof) }
            let n = sym::concrete(n as u64) as usize;
            let w = 8 * store_bytes(*s);
            let data = take(b, (n + w - 1) / w * (w / 8))?;
            let mut v = vec![];
            for k in 0..n {
                // Bit k lives in store word k / w; words are little endian; the order says which end of the word is first.
                let (word, pos) = (k / w, k % w);
                let pos = if matches!(o, BitsOrderFormat::Lsb0) { pos } else { w - 1 - pos };
                v.push(data[word * (w / 8) + pos / 8] >> (pos % 8) & 1 == 1);
            }
            Val::Bits(v)
        }
        Def::NotFound => return Err(Bad::NotFound),
        Def::Unhandled(_) => return Err(Bad::Unhandled),
        Def::Fails => return Err(Bad::Resolver),
    };
    Ok(Node { id, v })
}

/// Serialise a node for `sym::out` (natively replayed runs must produce the same bytes).
pub fn ser(n: &Node, o: &mut Vec<u8>) {
    let list = |k: u8, l: &[Node], o: &mut Vec<u8>| { o.push(k); o.push(l.len() as u8); for x in l { ser(x, o) } };
    let flds = |k: u8, l: &[(Name, Node)], o: &mut Vec<u8>| { o.push(k); o.push(l.len() as u8); for x in l { ser(&x.1, o) } };
    match &n.v {
        Val::Bool(b) => { o.push(1); o.push(*b as u8) }
        Val::Char(c) => { o.push(2); o.extend_from_slice(&(*c as u32).to_le_bytes()) }
        Val::U(w, x) => { o.push(3); o.push(*w as u8); o.extend_from_slice(&x.to_le_bytes()) }
        Val::I(w, x) => { o.push(4); o.push(*w as u8); o.extend_from_slice(&x.to_le_bytes()) }
        Val::U256(x) => { o.push(5); o.extend_from_slice(x) }
        Val::I256(x) => { o.push(6); o.extend_from_slice(x) }
        Val::Str(x) => { o.push(7); o.push(x.len() as u8); o.extend_from_slice(x) }
        Val::Seq(x) => list(8, x, o),
        Val::Array(x) => list(9, x, o),
        Val::Tuple(x) => list(10, x, o),
        Val::Composite(x) => flds(11, x, o),
        Val::Variant(i, _, x) => { o.push(*i); flds(12, x, o) }
        Val::Bits(x) => { o.push(13); o.push(x.len() as u8); for b in x { o.push(*b as u8) } }
    }
}
pub fn out_node(n: &Node) { let mut o = vec![]; ser(n, &mut o); sym::out(&o) }

/// A visitor error, without its strings.
pub fn bad_code(b: Bad) -> u8 {
    match b { Bad::Eof => 1, Bad::Bool => 2, Bad::Char(_) => 3, Bad::Compact => 4, Bad::NotCompactable => 5, Bad::NotFound => 6, Bad::Unhandled => 7, Bad::Resolver => 8, Bad::Variant(_) => 9, Bad::TooLong => 10 }
}

// ---- Schemas chosen by symbolic bytes -------------------------------------------------------------------------------

/// Every primitive, bit sequence format and compact integer: 28 leaf types.
pub const ALL_LEAVES: usize = 28;
pub fn leaf(t: &mut Types, k: usize) -> u32 {
    if k < 15 { t.prim(PRIMS[k]) }
    else if k < 23 { let (s, o) = BITS[k - 15]; t.bits(s, o) }
    else { let i = t.prim(UINTS[k - 23]); t.compact(i) }
}
/// A small set of leaves that differ in how many bytes they take and in how they fail.
pub const FEW_LEAVES: usize = 6;
pub fn few(t: &mut Types, k: usize) -> u32 {
    match k {
        0 => t.u8(),
        1 => t.bool(),
        2 => t.u16(),
        3 => { let i = t.u32(); t.compact(i) }
        4 => t.str(),
        _ => t.bits(BitsStoreFormat::U8, BitsOrderFormat::Lsb0),
    }
}
pub const CONTAINERS: usize = 18;
/// A container over types produced by `inner`.
pub fn container(t: &mut Types, k: usize, inner: &mut dyn FnMut(&mut Types) -> u32) -> u32 {
    match k {
        0 => { let i = inner(t); t.seq(i) }
        1 => { let i = inner(t); t.array(i, 2) }
        2 => { let i = inner(t); let j = inner(t); t.tuple(&[i, j]) }
        3 => { let i = inner(t); let j = inner(t); t.named(&[("a", i), ("b", j)]) }
        4 => { let i = inner(t); let j = inner(t); t.variant(vec![(0, "A", vec![(None, i)]), (7, "B", vec![(Some("x"), j)]), (3, "C", vec![])]) }
        5 => { let i = inner(t); t.tuple(&[i]) }
        6 => { let i = inner(t); t.named(&[("a", i)]) }
        7 => { let i = inner(t); t.unnamed(&[i]) }
        8 => { let i = inner(t); t.option(i) }
        9 => { let i = inner(t); let j = inner(t); t.unnamed(&[i, j]) }
        10 => { let i = inner(t); t.array(i, 0) }
        11 => t.tuple(&[]),
        12 => { let i = inner(t); t.compact(i) }
        13 => t.named(&[]),
        14 => t.variant(vec![(3, "A", vec![])]),
        15 => { let i = inner(t); let j = inner(t); t.variant(vec![(0, "B", vec![(None, i), (None, j)])]) }
        16 => t.variant(vec![]),
        _ => { let i = inner(t); t.array(i, 1) }
    }
}

/// A single-field wrapper of one of five kinds.
pub fn wrap(t: &mut Types, k: usize, i: u32) -> u32 {
    match k { 0 => t.tuple(&[i]), 1 => t.named(&[("a", i)]), 2 => t.unnamed(&[i]), 3 => t.compact(i), _ => t.comp(vec![(Some("zz"), i)]) }
}
/// Up to `most` wrappers around `i`.
pub fn wraps(t: &mut Types, most: usize, kinds: usize, mut i: u32) -> u32 {
    let n = sym::pick(most + 1);
    for _ in 0..n { let k = sym::pick(kinds); i = wrap(t, k, i) }
    i
}
/// A prefix for a length, then `n` items of `w` bytes, then `extra` bytes.
pub fn long(n: usize, w: usize, extra: usize) -> Vec<u8> {
    let mut b = vec![];
    if n < 64 { b.push((n << 2) as u8) } else if n < 1 << 14 { b.extend_from_slice(&((n << 2 | 1) as u16).to_le_bytes()) } else { b.extend_from_slice(&((n << 2 | 2) as u32).to_le_bytes()) }
    b.extend_from_slice(&mostly(n * w + extra));
    b
}
pub const MANY: [&str; 40] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31", "f32", "f33", "f34", "f35", "f36", "f37", "f38", "f39"];
pub const BROAD: usize = 5;
/// A tuple, named or unnamed fields, or a variant of named or unnamed ones; and the bytes it starts with.
pub fn broad(t: &mut Types, k: usize, ids: &[u32]) -> (u32, Vec<u8>) {
    let named = || -> Vec<(Name, u32)> { ids.iter().enumerate().map(|(i, x)| (Some(MANY[i]), *x)).collect() };
    let unnamed = || -> Vec<(Name, u32)> { ids.iter().map(|x| (None, *x)).collect() };
    match k {
        0 => (t.tuple(ids), vec![]),
        1 => (t.comp(named()), vec![]),
        2 => (t.comp(unnamed()), vec![]),
        3 => (t.variant(vec![(0, "A", vec![]), (7, "V", named())]), vec![7]),
        _ => (t.variant(vec![(200, "V", unnamed()), (1, "A", vec![])]), vec![200]),
    }
}
/// `n` as a prefix, that many zero bytes, and `extra` symbolic ones.
pub fn zeros(n: u64, bytes: usize, extra: usize) -> Vec<u8> {
    let p = codec::Encode::encode(&codec::Compact(n));
    // (Zeroed memory costs nothing until it is written to.)
    let mut b = vec![0u8; p.len() + bytes + extra];
    b[..p.len()].copy_from_slice(&p);
    for k in p.len() + bytes..b.len() { b[k] = sym::byte() }
    b
}
/// `n` bytes: symbolic if that makes no more than 100, otherwise at both ends and here and there.
pub fn mostly(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    for k in 0..n {
        b[k] = if n <= 100 || k < 20 || k + 20 >= n || (n > 500 && k % 1024 == 1000) { sym::byte() } else { (k * 7 + k / 256) as u8 };
    }
    b
}
/// Any name of `n` ASCII characters.
pub fn any_name(n: usize) -> &'static str {
    let b = sym::vec(n);
    for x in &b { sym::assume(*x < 128) }
    Box::leak(unsafe { String::from_utf8_unchecked(b) }.into_boxed_str())
}
