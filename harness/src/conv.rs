//! Conversions: one line of the conversion model is one conversion applied to
//! one value, performed directly, through a context and inside a pattern.
use crate::json::J;
use crate::val::err_name;
use neure::err::Error;
use neure::map::{self, FallibleMap};
use neure::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering};

pub trait Bits: Copy + PartialEq + PartialOrd + 'static {
    const NAME: &'static str;
    fn lebytes(&self) -> Vec<u8>;
    fn of(b: &[u8]) -> Self;
}
macro_rules! bits {
    ($($t:ident)*) => { $(impl Bits for $t {
        const NAME: &'static str = stringify!($t);
        fn lebytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        fn of(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().expect("harness: width")) }
    })* };
}
bits!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize f32 f64 u128 i128);

fn st(s: &str) -> J {
    J::Str(s.into())
}

/// The model's notation for a value.
pub trait Show {
    fn show(&self) -> J;
}
impl<T: Bits> Show for T {
    fn show(&self) -> J {
        J::Arr(vec![st("i"), st(T::NAME), J::Arr(self.lebytes().iter().map(|b| J::Int(*b as i64)).collect())])
    }
}
fn text_j(s: &str) -> J {
    J::Arr(vec![st("s"), J::Arr(s.chars().map(|c| J::Int(c as u32 as i64)).collect())])
}
macro_rules! show {
    ($($t:ty, $s:ident => $e:expr;)*) => { $(impl Show for $t { fn show(&self) -> J { let $s = self; $e } })* };
}
show! {
    &'static str, s => text_j(s);
    char, c => J::Arr(vec![st("c"), J::Int(*c as u32 as i64)]);
    bool, b => J::Arr(vec![st("B"), J::Bool(*b)]);
    &'static [u8], b => J::Arr(vec![st("y"), J::Arr(b.iter().map(|b| J::Int(*b as i64)).collect())]);
    &'static [u8; 2], b => J::Arr(vec![st("y"), J::Arr(b.iter().map(|b| J::Int(*b as i64)).collect())]);
}
#[cfg(feature = "alloc")]
show! {
    String, s => text_j(s);
    std::borrow::Cow<'static, str>, s => text_j(s);
}
impl<A: Show, B: Show> Show for (A, B) {
    fn show(&self) -> J {
        J::Arr(vec![st("p"), self.0.show(), self.1.show()])
    }
}

pub trait Read: Sized + 'static {
    fn read(j: &J) -> Option<Self>;
}
impl<T: Bits> Read for T {
    fn read(j: &J) -> Option<T> {
        (j.at(0).s() == "i" && j.at(1).s() == T::NAME)
            .then(|| T::of(&j.at(2).ints().iter().map(|x| *x as u8).collect::<Vec<_>>()))
    }
}
impl Read for char {
    fn read(j: &J) -> Option<char> {
        (j.at(0).s() == "c").then(|| char::from_u32(j.at(1).i() as u32).unwrap())
    }
}
impl Read for &'static str {
    fn read(j: &J) -> Option<&'static str> {
        (j.at(0).s() == "s").then(|| {
            let s: String = j.at(1).ints().iter().map(|c| char::from_u32(*c as u32).unwrap()).collect();
            &*Box::leak(s.into_boxed_str())
        })
    }
}
impl Read for &'static [u8] {
    fn read(j: &J) -> Option<&'static [u8]> {
        (j.at(0).s() == "y").then(|| {
            let v: Vec<u8> = j.at(1).ints().iter().map(|c| *c as u8).collect();
            &*Box::leak(v.into_boxed_slice())
        })
    }
}
impl<A: Read, B: Read> Read for (A, B) {
    fn read(j: &J) -> Option<(A, B)> {
        if j.at(0).s() != "p" {
            return None;
        }
        Some((A::read(j.at(1))?, B::read(j.at(2))?))
    }
}

pub fn out<O: Show>(r: Result<O, Error>) -> J {
    match r {
        Ok(v) => J::Arr(vec![st("ok"), v.show()]),
        Err(e) => J::Arr(vec![st("err"), st(&err_name(&e))]),
    }
}

static CALLS: AtomicU64 = AtomicU64::new(0);

fn counted<I, O>(m: impl FallibleMap<I, O>) -> impl Fn(I) -> Result<O, Error> {
    move |v| {
        CALLS.fetch_add(1, Ordering::Relaxed);
        m.try_map(v)
    }
}

pub struct Got {
    pub outs: Vec<(&'static str, J)>,
    pub size: usize,
}

fn calls(want: u64, j: J) -> J {
    let n = CALLS.swap(0, Ordering::Relaxed);
    if n == want { j } else { J::Arr(vec![st("calls"), J::Int(n as i64), j]) }
}

/// From any value: directly, and as the conversion of a pattern that built it.
fn plain<I, O, M>(m: M, v: &J) -> Option<Got>
where
    I: Read + Clone,
    O: Show + 'static,
    M: FallibleMap<I, O> + Clone + 'static,
{
    let x = I::read(v)?;
    let size = m.out_size();
    let mut outs = vec![("direct", out(m.try_map(x.clone())))];
    let y = x.clone();
    let built = regex::consume_all().map(move |_: &str| y.clone());
    outs.push(("pattern", out(CharsCtx::new("z").ctor(&built.try_map(m.clone())))));
    CALLS.store(0, Ordering::Relaxed);
    let y = x.clone();
    let built = regex::consume_all().map(move |_: Span| y.clone());
    outs.push(("span", calls(1, out(CharsCtx::new("z").ctor_span(&built.try_map(counted(m.clone())))))));
    let y = x.clone();
    let built = regex::literal("q").map(move |_: &str| y.clone()).try_map(counted(m.clone()));
    let r: Result<O, Error> = CharsCtx::new("z").ctor(&built);
    outs.push(("unmatched", calls(0, if matches!(r, Err(Error::Literal)) { outs[0].1.clone() } else { out(r) })));
    outs.push(("map_span", out(CharsCtx::new("z").map_span(&regex::consume_all(), move |_: Span| m.try_map(x.clone())))));
    Some(Got { outs, size })
}

macro_rules! over {
    ($name:ident, $ctx:ident, $inp:ty, $dat:ty) => {
        /// From the text of a match.
        fn $name<O, M>(m: M, v: &J) -> Option<Got>
        where
            O: Show + 'static,
            M: FallibleMap<$inp, O> + Clone + 'static,
        {
            let x = <$inp>::read(v)?;
            let size = m.out_size();
            let all = regex::consume_all();
            let mut outs = vec![("direct", out(m.try_map(x)))];
            let mut c = $ctx::new(x);
            outs.push(("ctor", out(c.ctor(&all.try_map(m.clone())))));
            outs.push(("map", out($ctx::new(x).map(&all, m.clone()))));
            CALLS.store(0, Ordering::Relaxed);
            outs.push(("counted", calls(1, out($ctx::new(x).ctor(&all.try_map(counted(m.clone())))))));
            outs.push((
                "ctor_with",
                out($ctx::new(x).ctor_with(&all.try_map(m.clone()), |c: &neure::ctx::RegexCtx<'static, $dat>, s: &Span| {
                    c.orig_sub(s.beg, s.len)
                })),
            ));
            let k = m.clone();
            outs.push(("map_with", out($ctx::new(x).map_with(&all, move |c: &neure::ctx::RegexCtx<'static, $dat>, s: &Span| {
                k.try_map(c.orig_sub(s.beg, s.len)?)
            }))));
            let k = m.clone();
            outs.push(("with", out(neure::ctx::RegexCtx::<$dat>::with(x, move |mut c| c.ctor(&all.try_map(k.clone()))))));
            // a mapping replaced by the conversion
            let mp = all.try_map(|_: $inp| Err::<O, _>(Error::Uid(1))).map_to(m.clone());
            outs.push(("map_to", out($ctx::new(x).ctor(&mp.clone()))));
            let mut mp = neure::ctor::Map::new(all, m.clone());
            mp.set_mapper(m.clone()).set_pat(all);
            *mp.mapper_mut() = m.clone();
            *mp.pat_mut() = all;
            outs.push(("getter", out(mp.mapper().try_map(x))));
            outs.push(("set", out($ctx::new(x).ctor::<_, O>(&mp))));
            // the part after a prefix only
            let mut t = x.to_owned();
            $crate::conv::Pre::pre(&mut t);
            let t: &'static $dat = $crate::conv::Pre::leak(t);
            outs.push(("prefixed", out($ctx::new(t).ctor(&all.try_map(m.clone()).prefix(regex::consume(1))))));
            let mut c = $ctx::new(t);
            let r: Result<_, Error> = c.ctor(&regex::consume(1).try_map(|v: $inp| Ok(v.len())).then(all.try_map(m)));
            outs.push(("then", out(r.map(|(n, v)| { assert!(n == 1); v }))));
            Some(Got { outs, size })
        }
    };
}

pub trait Pre {
    type D: ?Sized + 'static;
    fn pre(&mut self);
    fn leak(self) -> &'static Self::D;
}
impl Pre for String {
    type D = str;
    fn pre(&mut self) {
        self.insert(0, '7');
    }
    fn leak(self) -> &'static str {
        Box::leak(self.into_boxed_str())
    }
}
impl Pre for Vec<u8> {
    type D = [u8];
    fn pre(&mut self) {
        self.insert(0, b'7');
    }
    fn leak(self) -> &'static [u8] {
        Box::leak(self.into_boxed_slice())
    }
}

over!(text, CharsCtx, &'static str, str);
over!(bytes, BytesCtx, &'static [u8], [u8]);

macro_rules! by_ty {
    ($ty:expr, $($t:ident)*, $T:ident => $e:expr) => {
        match $ty {
            $(stringify!($t) => { type $T = $t; $e })*
            t => panic!("harness: type {t}"),
        }
    };
}

fn bounded<T: Read + Show + Clone + Copy + PartialOrd>(c: &J, v: &J) -> Option<Got> {
    plain::<T, T, _>(map::bounded(T::read(c.at(1))?, T::read(c.at(2))?), v)
}
fn pairs<A, B>(c: &J, v: &J) -> Option<Got>
where
    A: Read + Show + Clone + PartialEq,
    B: Read + Show + Clone,
{
    match c.at(0).s() {
        "sel0" => plain::<(A, B), A, _>(map::select0(), v),
        _ => plain::<(A, B), B, _>(map::select1(), v),
    }
}
fn same<A: Read + Show + Clone + PartialEq>(c: &J, v: &J) -> Option<Got> {
    match c.at(0).s() {
        "seleq" => plain::<(A, A), (A, A), _>(map::select_eq(), v),
        "selneq" => plain::<(A, A), (A, A), _>(map::select_neq(), v),
        _ => pairs::<A, A>(c, v),
    }
}
fn cast<I, O>(c: &J, v: &J) -> Option<Got>
where
    I: Read + Clone + TryInto<O>,
    O: Show + TryFrom<I> + 'static,
{
    assert!(c.at(0).s() == "tryinto");
    plain::<I, O, _>(map::try_into::<O>(), v)
}
fn into<I: Read + Clone, O: Show + From<I> + 'static>(v: &J) -> Option<Got> {
    plain::<I, O, _>(map::into::<O>(), v)
}
fn refuse(c: &J) -> impl Fn(&'static str) -> Result<&'static str, Error> + Clone + 'static {
    let k = char::from_u32(c.at(1).i() as u32).unwrap();
    move |s: &'static str| if s.starts_with(k) { Err(Error::Uid(77)) } else { Ok(s) }
}

macro_rules! chain {
    ($ctx:ident, $inp:ty, $v:expr, $a:expr, $b:expr) => {{
        let x = <$inp>::read($v)?;
        let all = regex::consume_all();
        let (a, b) = ($a, $b);
        let mut outs = vec![("direct", out(a.try_map(x).and_then(|y| b.try_map(y))))];
        outs.push(("chained", out($ctx::new(x).ctor(&all.try_map(a.clone()).try_map(b.clone())))));
        CALLS.store(0, Ordering::Relaxed);
        let first = a.try_map(x).is_ok() as u64;
        outs.push(("counted", calls(first, out($ctx::new(x).ctor(&all.try_map(a.clone()).try_map(counted(b.clone())))))));
        let (k, l) = (a.clone(), b.clone());
        outs.push(("nested", out($ctx::new(x).map(&all, move |s: $inp| l.try_map(k.try_map(s)?)))));
        Some(Got { outs, size: 0 })
    }};
}

pub fn run(c: &J, v: &J) -> Option<Got> {
    let name = c.at(0).s();
    match name {
        "radix" => {
            let r = c.at(2).i() as u32;
            by_ty!(c.at(1).s(), u8 i8 u16 i16 u32 i32 u64 i64 usize isize, T => {
                let m = map::from_str_radix::<T>(r);
                assert!(m.clone().radix() == r, "radix");
                text(m, v)
            })
        }
        "fromstr" => match c.at(1).s() {
            "bool" => text(map::from_str::<bool>(), v),
            "char" => text(map::from_str::<char>(), v),
            #[cfg(feature = "alloc")]
            "string" => text(map::from_str::<String>(), v),
            #[cfg(not(feature = "alloc"))]
            "string" => None,
            t => by_ty!(t, u8 i8 u16 i16 u32 i32 u64 i64 usize isize, T => text(map::from_str::<T>(), v)),
        },
        "le" => by_ty!(c.at(1).s(), u8 i8 u16 i16 u32 i32 u64 i64 usize isize f32 f64 u128 i128, T => {
            let m = map::from_le_bytes::<T>();
            assert!(m.size() == m.out_size() && map::FromLeBytes::<T>::default().size() == m.size(), "size");
            bytes(m, v)
        }),
        "be" => by_ty!(c.at(1).s(), u8 i8 u16 i16 u32 i32 u64 i64 usize isize f32 f64 u128 i128, T => {
            let m = map::from_be_bytes::<T>();
            assert!(m.size() == m.out_size() && map::FromBeBytes::<T>::default().size() == m.size(), "size");
            bytes(m, v)
        }),
        "ne" => by_ty!(c.at(1).s(), u8 i8 u16 i16 u32 i32 u64 i64 usize isize f32 f64 u128 i128, T => {
            let m = map::from_ne_bytes::<T>();
            assert!(m.size() == m.out_size() && map::FromNeBytes::<T>::default().size() == m.size(), "size");
            bytes(m, v)
        }),
        "utf8" if c.at(1).s() == "str" => bytes(map::from_utf8::<&'static str>(), v),
        #[cfg(feature = "alloc")]
        "utf8" => bytes(map::from_utf8::<String>(), v),
        #[cfg(feature = "alloc")]
        "lossy" => bytes(map::from_utf8_lossy::<std::borrow::Cow<'static, str>>(), v),
        #[cfg(not(feature = "alloc"))]
        "utf8" | "lossy" => None,
        "bounded" => bounded::<i32>(c, v)
            .or_else(|| bounded::<u8>(c, v))
            .or_else(|| bounded::<char>(c, v))
            .or_else(|| bounded::<f64>(c, v))
            .or_else(|| bounded::<&'static str>(c, v)),
        "sel0" | "sel1" | "seleq" | "selneq" => same::<i32>(c, v)
            .or_else(|| same::<&'static str>(c, v))
            .or_else(|| same::<f64>(c, v))
            .or_else(|| pairs::<&'static str, i32>(c, v)),
        "tryinto" => match (c.at(1).s(), if v.at(0).s() == "i" { v.at(1).s() } else { "" }) {
            ("u8", "i32") => cast::<i32, u8>(c, v),
            ("i8", "i32") => cast::<i32, i8>(c, v),
            ("u64", "i32") => cast::<i32, u64>(c, v),
            ("i32", "i64") => cast::<i64, i32>(c, v),
            ("i8", "u8") => cast::<u8, i8>(c, v),
            ("usize", "u64") => cast::<u64, usize>(c, v),
            ("u16", "i16") => cast::<i16, u16>(c, v),
            ("i32", "u32") => cast::<u32, i32>(c, v),
            ("u32", "u8") => cast::<u8, u32>(c, v),
            ("char", "u32") => cast::<u32, char>(c, v),
            ("array", "") => bytes(map::try_into::<&'static [u8; 2]>(), v),
            x => panic!("harness: cast {x:?}"),
        },
        "into" => match (c.at(1).s(), if v.at(0).s() == "i" { v.at(1).s() } else { v.at(0).s() }) {
            ("u32", "u8") => into::<u8, u32>(v),
            ("i64", "u8") => into::<u8, i64>(v),
            ("i32", "i8") => into::<i8, i32>(v),
            ("u64", "u32") => into::<u32, u64>(v),
            ("char", "u8") => into::<u8, char>(v),
            ("u32", "c") => into::<char, u32>(v),
            #[cfg(feature = "alloc")]
            ("string", "s") => text(map::into::<String>(), v),
            #[cfg(not(feature = "alloc"))]
            ("string", "s") => None,
            x => panic!("harness: into {x:?}"),
        },
        "count" => text(map::mapper(|s: &'static str| s.chars().count()), v),
        "refuse" => text(refuse(c), v),
        "fixed" => text(map::fixed_size(c.at(1).u()), v),
        "default" => {
            let (i, d) = (c.at(1), c.at(2));
            use map::WithDefaultHelper;
            match i.at(0).s() {
                "fromstr" => {
                    let d = i32::read(d)?;
                    text(WithDefaultHelper::<&'static str, i32>::with_default(map::from_str::<i32>(), move || d), v)
                }
                "fixed" => {
                    let d = <&'static str>::read(d)?;
                    text(map::with_default(move || d, map::fixed_size(i.at(1).u())), v)
                }
                "refuse" => {
                    let d = <&'static str>::read(d)?;
                    text(map::with_default(move || d, refuse(i)), v)
                }
                "be" => {
                    let d = u16::read(d)?;
                    bytes(WithDefaultHelper::<&'static [u8], u16>::with_default(map::from_be_bytes::<u16>(), move || d), v)
                }
                x => panic!("harness: default {x}"),
            }
        }
        "pipe" => {
            let (a, b) = (c.at(1), c.at(2));
            let i32s = map::from_str::<i32>();
            match (a.at(0).s(), b.at(0).s()) {
                ("fromstr", "bounded") => {
                    chain!(CharsCtx, &'static str, v, i32s, map::bounded(i32::read(b.at(1))?, i32::read(b.at(2))?))
                }
                ("fromstr", "tryinto") => chain!(CharsCtx, &'static str, v, i32s, map::try_into::<u8>()),
                ("fromstr", "default") => {
                    let (d, b) = (i32::read(b.at(2))?, b.at(1));
                    let m = map::bounded(i32::read(b.at(1))?, i32::read(b.at(2))?);
                    chain!(CharsCtx, &'static str, v, i32s, map::with_default(move || d, m))
                }
                ("default", "bounded") => {
                    let d = i32::read(a.at(2))?;
                    let m = map::bounded(i32::read(b.at(1))?, i32::read(b.at(2))?);
                    chain!(CharsCtx, &'static str, v, map::with_default(move || d, i32s), m)
                }
                ("refuse", "fromstr") => chain!(CharsCtx, &'static str, v, refuse(a), i32s),
                ("radix", "tryinto") => {
                    chain!(CharsCtx, &'static str, v, map::from_str_radix::<u32>(16), map::try_into::<char>())
                }
                ("utf8", "fromstr") => chain!(BytesCtx, &'static [u8], v, map::from_utf8::<&'static str>(), i32s),
                ("le", "tryinto") => {
                    chain!(BytesCtx, &'static [u8], v, map::from_le_bytes::<u16>(), map::try_into::<u8>())
                }
                x => panic!("harness: pipe {x:?}"),
            }
        }
        x => panic!("harness: conversion {x}"),
    }
}
