//! Type-erased patterns and units.  They are thin forwarders: everything that
//! decides a result is the implementation under test behind them.
use crate::val::{Hd, ItemT, Val, burn};
use neure::ctor::Ctor;
use neure::ctx::{Context, Match, PolicyMatch};
use neure::err::Error;
use neure::neu::Neu;
use neure::regex::Regex;
use neure::span::Span;

pub trait PObj<C> {
    fn rx(&self, c: &mut C) -> Result<Span, Error>;
    fn cx(&self, c: &mut C, h: &mut Hd) -> Result<Val, Error>;
}

pub struct Node<P, O> {
    p: P,
    f: fn(O) -> Val,
}

impl<C, P, O> PObj<C> for Node<P, O>
where
    P: Regex<C> + Ctor<C, O, Hd>,
{
    fn rx(&self, c: &mut C) -> Result<Span, Error> {
        self.p.try_parse(c)
    }
    fn cx(&self, c: &mut C, h: &mut Hd) -> Result<Val, Error> {
        self.p.construct(c, h).map(self.f)
    }
}

pub struct Dyn<C: 'static>(pub &'static dyn PObj<C>);

impl<C> Clone for Dyn<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C> Copy for Dyn<C> {}
impl<C> std::fmt::Debug for Dyn<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Dyn")
    }
}

// The erased patterns live forever; whether sharing one is sound is decided
// by the tests that share it, which only do so with thread-safe patterns.
unsafe impl<C> Send for Dyn<C> {}
unsafe impl<C> Sync for Dyn<C> {}

impl<C> Regex<C> for Dyn<C> {
    fn try_parse(&self, c: &mut C) -> Result<Span, Error> {
        burn();
        self.0.rx(c)
    }
}

impl<C> Ctor<C, Val, Hd> for Dyn<C> {
    fn construct(&self, c: &mut C, h: &mut Hd) -> Result<Val, Error> {
        burn();
        self.0.cx(c, h)
    }
}

pub fn mk<C, P, O>(p: P, f: fn(O) -> Val) -> Dyn<C>
where
    C: 'static,
    O: 'static,
    P: Regex<C> + Ctor<C, O, Hd> + 'static,
{
    Dyn(Box::leak(Box::new(Node { p, f })))
}

pub fn idv(v: Val) -> Val {
    v
}

struct Dummy;
impl<C> PObj<C> for Dummy {
    fn rx(&self, _: &mut C) -> Result<Span, Error> {
        panic!("replaced pattern was evaluated")
    }
    fn cx(&self, _: &mut C, _: &mut Hd) -> Result<Val, Error> {
        panic!("replaced pattern was evaluated")
    }
}

/// A pattern that must have been replaced before use.
pub fn dummy<C>() -> Dyn<C> {
    Dyn(&Dummy)
}

pub struct DynU<T: 'static>(pub &'static dyn Neu<T>);

impl<T> Clone for DynU<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for DynU<T> {}
impl<T> std::fmt::Debug for DynU<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("DynU")
    }
}
unsafe impl<T> Send for DynU<T> {}
unsafe impl<T> Sync for DynU<T> {}

impl<T> Neu<T> for DynU<T> {
    fn is_match(&self, other: &T) -> bool {
        self.0.is_match(other)
    }
    fn min_length(&self) -> usize {
        self.0.min_length()
    }
}

pub fn mku<T, U: Neu<T> + 'static>(u: U) -> DynU<T> {
    DynU(Box::leak(Box::new(u)))
}

struct DummyU;
impl<T> Neu<T> for DummyU {
    fn is_match(&self, _: &T) -> bool {
        panic!("replaced unit was evaluated")
    }
}

pub fn dummyu<T>() -> DynU<T> {
    DynU(&DummyU)
}

/// What a handler extracted: where, or the content itself.
#[derive(Debug, PartialEq)]
pub enum Piece {
    At(usize, usize),
    Own(Vec<u8>),
    Nothing,
}

/// The contexts of the models.
pub trait Cx:
    Match<'static> + Context<'static, Item: UnitItem> + PolicyMatch<'static> + Sized + 'static
{
    fn lit(cs: &[i64], w: &str, st: usize) -> Option<Dyn<Self>>;
    fn not_lit(cs: &[i64]) -> Option<Dyn<Self>>;
    /// The piece of the input that `p` matches, through each of the handlers
    /// that extract one.
    fn piece(&mut self, _: &Dyn<Self>, _: i64) -> Option<Result<Piece, Error>> {
        None
    }
    /// `p` with blanks of class `cl` skipped after it (or before it).
    fn blank(p: Dyn<Self>, cl: &str, after: bool, st: usize) -> Option<Dyn<Self>>;
}

/// Items with their named classes.
pub trait UnitItem: ItemT + Neu<Self> + neure::MayDebug {
    fn cls(n: &str) -> Option<DynU<Self>>;
    fn cls3(n: &str) -> Option<DynU<Self>>;
    fn cls_not(n: &str) -> Option<DynU<Self>>;
    fn dig_not(r: u32) -> Option<DynU<Self>>;
    fn dig(r: u32) -> Option<DynU<Self>>;
}
