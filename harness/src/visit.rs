//! Visitors that rebuild the value they are shown.
use crate::model::*;
use crate::sym;
use core::marker::PhantomData;
use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeError, TypeIdFor, Unexpected, Visitor};
use scale_type_resolver::TypeResolver;

/// Rebuilds the value as a `Node`, decoding items directly.
pub struct ToNode;
fn name(s: Option<&str>) -> Name { s.map(|s| -> &'static str { unsafe { core::mem::transmute(s) } }) }

impl Visitor for ToNode {
    type Value<'s, 'r> = Node;
    type Error = DecodeError;
    type TypeResolver = Types;
    fn visit_bool<'s, 'r>(self, v: bool, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::Bool(v) }) }
    fn visit_char<'s, 'r>(self, v: char, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::Char(v) }) }
    fn visit_u8<'s, 'r>(self, v: u8, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::U(8, v as u128) }) }
    fn visit_u16<'s, 'r>(self, v: u16, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::U(16, v as u128) }) }
    fn visit_u32<'s, 'r>(self, v: u32, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::U(32, v as u128) }) }
    fn visit_u64<'s, 'r>(self, v: u64, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::U(64, v as u128) }) }
    fn visit_u128<'s, 'r>(self, v: u128, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::U(128, v) }) }
    fn visit_u256<'r>(self, v: &[u8; 32], id: u32) -> Result<Self::Value<'_, 'r>, DecodeError> { Ok(Node { id, v: Val::U256(*v) }) }
    fn visit_i8<'s, 'r>(self, v: i8, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::I(8, v as i128) }) }
    fn visit_i16<'s, 'r>(self, v: i16, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::I(16, v as i128) }) }
    fn visit_i32<'s, 'r>(self, v: i32, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::I(32, v as i128) }) }
    fn visit_i64<'s, 'r>(self, v: i64, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::I(64, v as i128) }) }
    fn visit_i128<'s, 'r>(self, v: i128, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> { Ok(Node { id, v: Val::I(128, v) }) }
    fn visit_i256<'r>(self, v: &[u8; 32], id: u32) -> Result<Self::Value<'_, 'r>, DecodeError> { Ok(Node { id, v: Val::I256(*v) }) }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let n = v.len();
        let all = v.bytes_from_start();
        let after = v.bytes_after()?;
        let end = all.len() - after.len();
        Ok(Node { id, v: Val::Str(all[end - n..end].to_vec()) })
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let mut o = vec![];
        while let Some(x) = v.decode_item(ToNode) { o.push(x?) }
        Ok(Node { id, v: Val::Seq(o) })
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let mut o = vec![];
        while let Some(x) = v.decode_item(ToNode) { o.push(x?) }
        Ok(Node { id, v: Val::Array(o) })
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let mut o = vec![];
        while let Some(x) = v.decode_item(ToNode) { o.push(x?) }
        Ok(Node { id, v: Val::Tuple(o) })
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        Ok(Node { id, v: Val::Composite(composite(v)?) })
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, Types>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let i = v.index();
        let n = name(Some(v.name())).unwrap();
        Ok(Node { id, v: Val::Variant(i, n, composite(v.fields())?) })
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, id: u32) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let mut o = vec![];
        for b in v.decode()? { o.push(b?) }
        Ok(Node { id, v: Val::Bits(o) })
    }
}
fn composite<'s, 'r>(v: &mut Composite<'s, 'r, Types>) -> Result<Vec<(Name, Node)>, DecodeError> {
    let mut o = vec![];
    loop {
        let n = name(v.peek_name());
        match v.decode_item(ToNode) { Some(x) => o.push((n, x?)), None => return Ok(o) }
    }
}

/// A number for each kind of decode error.
pub fn err_code(e: &DecodeError) -> u8 {
    match e {
        DecodeError::TypeIdNotFound(_) => 1,
        DecodeError::TypeResolvingError(_) => 2,
        DecodeError::CannotDecodeCompactIntoType => 3,
        DecodeError::InvalidStr(_) => 4,
        DecodeError::InvalidChar(_) => 5,
        DecodeError::NotEnoughInput => 6,
        DecodeError::VariantNotFound(_) => 7,
        DecodeError::CodecError(_) => 8,
        DecodeError::Unexpected(_) => 9,
        #[allow(unreachable_patterns)]
        _ => 99,
    }
}

// ---- Visitors that do as they are told ------------------------------------------------------------------------------

/// The error of a scripted visitor: its own ones are numbered, so that each is told from every other.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum VErr { Decode(u8), Own(u8) }
impl From<DecodeError> for VErr { fn from(e: DecodeError) -> VErr { VErr::Decode(err_code(&e)) } }
impl From<VErr> for scale_decode::Error {
    fn from(e: VErr) -> scale_decode::Error { match e { VErr::Own(k) => scale_decode::Error::custom(Own(k)), VErr::Decode(_) => scale_decode::Error::custom_str("decode") } }
}
#[derive(Debug)]
pub struct Own(pub u8);
impl core::fmt::Display for Own { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("own") } }
impl core::error::Error for Own {}

use core::cell::Cell;
/// What scripted visitors share: how many more reads there may be, and what has happened.
pub struct Script {
    pub budget: Cell<usize>,
    pub next: Cell<u8>,
    /// An error of an item was not passed on.
    pub swallowed: Cell<bool>,
    /// What the outermost visitor returned.
    pub top: Cell<Option<Result<(), VErr>>>,
}
impl Script {
    pub fn new(budget: usize) -> Script { Script { budget: Cell::new(budget), next: Cell::new(0), swallowed: Cell::new(false), top: Cell::new(None) } }
    pub fn own(&self) -> VErr { self.next.set(self.next.get() + 1); VErr::Own(self.next.get()) }
    pub fn visitor(&self) -> Scripted<'_> { Scripted { s: self, depth: 0 } }
    fn act(&self, n: usize) -> usize {
        if self.budget.get() == 0 { return sym::pick(2) }
        let k = sym::pick(n);
        if k > 1 { self.budget.set(self.budget.get() - 1) }
        k
    }
}
/// At every visit a symbolic choice of what to do: succeed, fail, read an item in one of the ways there are (passing on
/// its error or not), look at a field and decode it later or not, skip the rest.
#[derive(Clone, Copy)]
pub struct Scripted<'x> { s: &'x Script, depth: usize }
impl<'x> Scripted<'x> {
    fn deeper(&self) -> Scripted<'x> { Scripted { s: self.s, depth: self.depth + 1 } }
    fn done(&self, r: Result<(), VErr>) -> Result<(), VErr> { if self.depth == 0 { self.s.top.set(Some(r)) } r }
    fn leaf(&self) -> Result<(), VErr> { let r = if sym::pick(2) == 0 { Ok(()) } else { Err(self.s.own()) }; self.done(r) }
}
macro_rules! drive {
    ($self:ident, $v:expr, $n:literal, $more:expr) => {{
        let me = $self;
        let s = me.s;
        let mut res = Ok(());
        loop {
            match s.act($n) {
                0 => break,
                1 => { res = Err(s.own()); break }
                2 => match $v.decode_item(me.deeper()) { Some(Ok(())) => {} Some(Err(e)) => { res = Err(e); break } None => break },
                3 => match $v.decode_item(me.deeper()) { Some(Ok(())) => {} Some(Err(_)) => s.swallowed.set(true), None => break },
                4 => match $v.decode_item(IgnoreVisitor::<Types>::new()) { Some(Ok(())) => {} Some(Err(e)) => { res = Err(e.into()); break } None => break },
                5 => match $v.next() {
                    Some(Ok(f)) => if sym::pick(2) == 1 { if f.decode_with_visitor(me.deeper()).is_err() { s.swallowed.set(true) } },
                    Some(Err(e)) => { res = Err(e.into()); break }
                    None => break,
                },
                6 => if let Err(e) = $v.skip_decoding() { res = Err(e.into()); break },
                _ => { let f: &dyn Fn() -> Result<(), VErr> = &$more; if f().is_err() { s.swallowed.set(true) } }
            }
        }
        me.done(res)
    }};
}
use scale_decode::visitor::IgnoreVisitor;
impl<'x> Visitor for Scripted<'x> {
    type Value<'s, 'r> = ();
    type Error = VErr;
    type TypeResolver = Types;
    // Leaves come here.
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, VErr> { self.leaf() }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> {
        let r = match sym::pick(3) { 0 => Ok(()), 1 => Err(self.s.own()), _ => v.as_str().map(|_| ()).map_err(VErr::from) };
        self.done(r)
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> {
        let r = match sym::pick(5) {
            0 => Ok(()),
            1 => Err(self.s.own()),
            2 => v.decode().map(|mut d| { d.next(); }).map_err(VErr::from),
            3 => v.decode().map_err(VErr::from).and_then(|mut d| { while let Some(b) = d.next() { b.map_err(|e| VErr::from(DecodeError::from(e)))?; } Ok(()) }),
            _ => v.bytes_after().map(|_| ()).map_err(VErr::from).and_then(|_| if sym::pick(2) == 0 { Ok(()) } else { Err(self.s.own()) }),
        };
        self.done(r)
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> { drive!(self, v, 7, || Ok(())) }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> { drive!(self, v, 7, || Ok(())) }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> { drive!(self, v, 7, || Ok(())) }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> {
        drive!(self, v, 8, || { let mut t = v.as_tuple(); t.decode_item(me_deeper(&self)); t.skip_decoding().map_err(VErr::from) })
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, Types>, _: u32) -> Result<Self::Value<'s, 'r>, VErr> {
        if sym::pick(2) == 1 {
            if let Err(e) = v.skip_decoding() { return self.done(Err(e.into())) }
        }
        let v = v.fields();
        drive!(self, v, 8, || { let mut t = v.as_tuple(); t.decode_item(me_deeper(&self)); t.skip_decoding().map_err(VErr::from) })
    }
}
fn me_deeper<'x>(s: &Scripted<'x>) -> Scripted<'x> { s.deeper() }
