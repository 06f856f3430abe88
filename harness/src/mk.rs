//! Patterns from their description, in several construction styles.
use crate::dynp::*;
use crate::json::J;
use crate::mku::{bound, unit};
use crate::val::{Ev, Hd, ItemT, Val, log};
use neure::ctor::{self, Ctor, CtorIntoHelper, CtorOps, CtorRefAsDynCtor};
use neure::ctor::{DynamicCtorThenBuilder, DynamicCtorThenBuilderHelper};
use neure::ctx::{BytesCtx, CharsCtx, Context, PolicyCtx};
use neure::err::Error;
use neure::map::{Select0, Select1, SelectEq, SelectNeq, mapper};
use neure::neu::{
    self, Between, CRange, Condition, EmptyCond, NeuCond, NeuIntoRegexOps, regex_cond,
};
use neure::regex::{
    self, DynamicRegexBuilderHelper, Regex, RegexIntoHelper, RegexRefAsCtor, RegexRefAsDynRegex,
};
use neure::span::Span;

pub const STYLES: usize = 4;

pub fn pairv((a, b): (Val, Val)) -> Val {
    Val::pair(a, b)
}
pub fn ifv((a, b): (Val, Option<Val>)) -> Val {
    Val::pair(a, Val::opt(b))
}
pub fn listv(v: Vec<Val>) -> Val {
    Val::L(v)
}
pub fn arrv<const N: usize>(v: [Option<Val>; N]) -> Val {
    Val::L(v.into_iter().map(Val::opt).collect())
}
fn payv((a, k): (Val, i64)) -> Val {
    Val::pair(a, Val::K(k))
}

/// The number `n` as a range, through every integer type.
fn exactly(n: usize) -> CRange<usize> {
    use std::ops::{Bound, RangeBounds};
    let mut all: Vec<CRange<usize>> = vec![];
    macro_rules! each {
        ($($t:ty),*) => {$(
            #[allow(irrefutable_let_patterns)]
            if let Ok(v) = <$t>::try_from(n) {
                all.push(v.into());
                all.push((&v).into());
            }
        )*};
    }
    each!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
    for r in &all {
        let b = (r.start_bound(), r.end_bound());
        if b != (Bound::Included(&n), Bound::Included(&n)) {
            panic!("{n} became the range {b:?}");
        }
    }
    all[n % all.len()]
}

macro_rules! with_range {
    ($j:expr, $st:expr, |$r:ident| $e:expr) => {{
        let (lk, hk) = ($j.get("lk").s(), $j.get("hk").s());
        let lo = if lk == "u" { 0 } else { $j.get("lo").u() };
        let hi = if hk == "u" { 0 } else { $j.get("hi").u() };
        if $st == 0 {
            let $r = CRange::<usize>::new(bound(lk, lo), bound(hk, hi));
            $e
        } else if $st == 1 {
            let $r = (bound(lk, lo), bound(hk, hi));
            $e
        } else if $st == 3 {
            match (lk, hk) {
                ("i", "i") if lo == hi => {
                    let $r = exactly(lo);
                    $e
                }
                ("i", "x") => {
                    let $r = core::range::Range { start: lo, end: hi };
                    $e
                }
                ("i", "i") => {
                    let $r = core::range::RangeInclusive { start: lo, last: hi };
                    $e
                }
                ("i", "u") => {
                    let $r = core::range::RangeFrom { start: lo };
                    $e
                }
                ("u", "i") => {
                    let $r = core::range::RangeToInclusive { last: hi };
                    $e
                }
                _ => {
                    let $r = CRange::clone_from((bound(lk, lo), bound(hk, hi)));
                    $e
                }
            }
        } else {
            match (lk, hk) {
                ("i", "i") if lo == hi => {
                    let $r = lo;
                    $e
                }
                ("i", "x") => {
                    let $r = lo..hi;
                    $e
                }
                ("i", "i") => {
                    let $r = lo..=hi;
                    $e
                }
                ("i", "u") => {
                    let $r = lo..;
                    $e
                }
                ("u", "x") => {
                    let $r = ..hi;
                    $e
                }
                ("u", "i") => {
                    let $r = ..=hi;
                    $e
                }
                ("u", "u") => {
                    let $r = ..;
                    $e
                }
                _ => {
                    let $r = (bound(lk, lo), bound(hk, hi));
                    $e
                }
            }
        }
    }};
}

#[macro_export]
macro_rules! pairs {
    ($m:expr, $n:expr, $f:ident) => {
        match ($m, $n) {
            (0, 0) => $f!(0, 0),
            (0, 1) => $f!(0, 1),
            (0, 2) => $f!(0, 2),
            (0, 3) => $f!(0, 3),
            (1, 1) => $f!(1, 1),
            (1, 2) => $f!(1, 2),
            (1, 3) => $f!(1, 3),
            (2, 2) => $f!(2, 2),
            (2, 3) => $f!(2, 3),
            (3, 3) => $f!(3, 3),
            (2, 1) => $f!(2, 1),
            (m, n) => panic!("no instance for {m},{n}"),
        }
    };
}

/// Bodies of the enclosing recursive patterns.
pub struct B<C: 'static> {
    pub st: usize,
    /// A fresh handle of each enclosing recursive pattern.
    pub env: Vec<std::rc::Rc<dyn Fn() -> Dyn<C>>>,
}
impl<C> Clone for B<C> {
    fn clone(&self) -> Self {
        B { st: self.st, env: self.env.clone() }
    }
}

fn btw_empty<const M: usize, const N: usize, C: Cx>(u: DynU<C::Item>, st: usize) -> Dyn<C> {
    match st {
        0 => mk(u.between::<M, N>(), idv),
        1 => {
            let mut p = Between::<M, N, C, _, EmptyCond>::new(dummyu::<C::Item>(), EmptyCond);
            p.set_unit(u);
            mk(p, idv)
        }
        _ if N == usize::MAX => mk(u.at_least::<M>(), idv),
        _ if M == 0 => mk(u.at_most::<N>(), idv),
        _ if M == N => mk(u.count::<M>(), idv),
        _ => mk(regex::count::<M, N, C, _>(u).clone(), idv),
    }
}

fn btw_cond<const M: usize, const N: usize, C: Cx, I>(u: DynU<C::Item>, c: I, st: usize) -> Dyn<C>
where
    I: NeuCond<'static, C> + Clone + 'static,
{
    match st {
        0 => mk(u.between::<M, N>().set_cond(c), idv),
        1 => mk(Between::<M, N, C, _, I>::new(u, c), idv),
        _ => mk(regex::count_if::<M, N, C, _, _>(u, c).clone(), idv),
    }
}

fn quant_empty<C: Cx>(j: &J, u: DynU<C::Item>, st: usize) -> Dyn<C> {
    match j.get("t").s() {
        "once" => match st {
            0 => mk(u.once(), idv),
            1 => {
                let mut p = neu::Once::new(dummyu::<C::Item>(), EmptyCond);
                p.set_unit(u);
                mk::<C, _, _>(p, idv)
            }
            _ => mk::<C, _, _>(regex::once(u).clone(), idv),
        },
        "opt" => match st {
            0 => mk(NeuIntoRegexOps::<C>::opt(u), idv),
            1 => {
                let mut p = neu::Opt::new(dummyu::<C::Item>(), EmptyCond);
                p.set_unit(u);
                mk::<C, _, _>(p, idv)
            }
            _ => mk::<C, _, _>(regex::opt(u).clone(), idv),
        },
        "many0" => match st {
            0 => mk(u.many0(), idv),
            1 => {
                let mut p = neu::Many0::new(dummyu::<C::Item>(), EmptyCond);
                *p.unit_mut() = u;
                mk::<C, _, _>(p, idv)
            }
            _ => mk::<C, _, _>(regex::many0(u).clone(), idv),
        },
        "many1" => match st {
            0 => mk(u.many1(), idv),
            1 => {
                let mut p = neu::Many1::new(dummyu::<C::Item>(), EmptyCond);
                p.set_unit(u);
                mk::<C, _, _>(p, idv)
            }
            _ => mk::<C, _, _>(regex::many1(u).clone(), idv),
        },
        "btw" => {
            let (m, n) = (j.get("min").i(), j.get("max").i());
            macro_rules! go {
                ($m:literal, $n:expr) => {
                    btw_empty::<$m, { $n }, C>(u, st)
                };
            }
            match (m, n) {
                (0, -1) => go!(0, usize::MAX),
                (1, -1) => go!(1, usize::MAX),
                (2, -1) => go!(2, usize::MAX),
                (m, n) => pairs!(m, n, go),
            }
        }
        "times" => match st {
            1 => {
                let mut p = neu::Times::new(dummyu::<C::Item>(), CRange::from(7usize), EmptyCond);
                p.set_unit(u);
                with_range!(j, st, |r| {
                    p.set_range(r);
                });
                mk::<C, _, _>(p, idv)
            }
            _ => with_range!(j, st, |r| mk(NeuIntoRegexOps::<C>::times(u, r), idv)),
        },
        t => panic!("quantifier {t}"),
    }
}

fn quant_cond<C: Cx, I>(j: &J, u: DynU<C::Item>, c: I, st: usize) -> Dyn<C>
where
    I: NeuCond<'static, C> + Clone + 'static,
{
    match j.get("t").s() {
        "once" => match st {
            0 => mk(u.once().set_cond(c), idv),
            1 => mk::<C, _, _>(neu::Once::new(u, c), idv),
            _ => mk(u.once().set_cond(c).clone(), idv),
        },
        "opt" => match st {
            0 => mk(NeuIntoRegexOps::<C>::opt(u).set_cond(c), idv),
            1 => mk::<C, _, _>(neu::Opt::new(u, c), idv),
            _ => mk(NeuIntoRegexOps::<C>::opt(u).set_cond(c).clone(), idv),
        },
        "many0" => match st {
            0 => mk(u.many0().set_cond(c), idv),
            1 => mk::<C, _, _>(neu::Many0::new(u, c), idv),
            _ => mk(u.many0().set_cond(c).clone(), idv),
        },
        "many1" => match st {
            0 => mk(u.many1().set_cond(c), idv),
            1 => mk::<C, _, _>(neu::Many1::new(u, c), idv),
            _ => mk(u.many1().set_cond(c).clone(), idv),
        },
        "btw" => {
            let (m, n) = (j.get("min").i(), j.get("max").i());
            macro_rules! go {
                ($m:literal, $n:expr) => {
                    btw_cond::<$m, { $n }, C, I>(u, c, st)
                };
            }
            match (m, n) {
                (0, -1) => go!(0, usize::MAX),
                (1, -1) => go!(1, usize::MAX),
                (0, 2) => go!(0, 2),
                (0, 3) => go!(0, 3),
                (1, 2) => go!(1, 2),
                (1, 3) => go!(1, 3),
                (2, 2) => go!(2, 2),
                (2, 3) => go!(2, 3),
                x => panic!("no conditional instance for {x:?}"),
            }
        }
        "times" => {
            let (lk, hk) = (j.get("lk").s(), j.get("hk").s());
            let lo = if lk == "u" { 0 } else { j.get("lo").u() };
            let hi = if hk == "u" { 0 } else { j.get("hi").u() };
            let r = CRange::<usize>::new(bound(lk, lo), bound(hk, hi));
            match st {
                0 => mk(NeuIntoRegexOps::<C>::times(u, r).set_cond(c), idv),
                1 => mk::<C, _, _>(neu::Times::new(u, r, c), idv),
                _ => mk(NeuIntoRegexOps::<C>::times(u, r).set_cond(c).clone(), idv),
            }
        }
        "nthen" => panic!("nthen"),
        t => panic!("quantifier {t}"),
    }
}

fn nthen_cond<C: Cx, I>(u: DynU<C::Item>, v: DynU<C::Item>, c: I, st: usize) -> Dyn<C>
where
    I: NeuCond<'static, C> + Clone + 'static,
{
    match st {
        0 => mk(NeuIntoRegexOps::<C>::then(u, v).set_cond(c), idv),
        1 => {
            let mut p = neu::NeureThen::new(dummyu::<C::Item>(), dummyu::<C::Item>(), c);
            p.set_left(u);
            p.set_right(v);
            mk::<C, _, _>(p, idv)
        }
        _ => mk(NeuIntoRegexOps::<C>::then(u, v).set_cond(c).clone(), idv),
    }
}

fn cond_fn<C: Cx>(
    c: &J,
) -> impl Fn(&C, &(usize, <C as Context<'static>>::Item)) -> Result<bool, Error> + Clone + 'static {
    let (t, k) = (c.get("c").s().to_string(), c.get("k").i());
    move |_: &C, it: &(usize, <C as Context<'static>>::Item)| match t.as_str() {
        "idx" => Ok((it.0 as i64) < k),
        "not" => Ok(it.1.code() != k),
        "err" => {
            if it.1.code() == k {
                Err(Error::Uid(600))
            } else {
                Ok(true)
            }
        }
        t => panic!("condition {t}"),
    }
}

pub fn test_fn<C: Cx>(f: &J) -> impl Fn(&C) -> Result<bool, Error> + Clone + 'static {
    let t = f.get("f").s().to_string();
    let k = if let J::Int(k) = f.get("k") { *k } else { 0 };
    move |c: &C| {
        log(Ev::T(c.offset()));
        let first = || c.peek().ok().and_then(|mut i| i.next()).map(|x| x.1.code());
        match t.as_str() {
            "at" => Ok(c.offset() as i64 == k),
            "pk" => Ok(first() == Some(k)),
            "yes" => Ok(true),
            "no" => Ok(false),
            "err" => {
                if first() == Some(k) {
                    Err(Error::Uid(500))
                } else {
                    Ok(true)
                }
            }
            t => panic!("test {t}"),
        }
    }
}

pub fn map_fn(m: &J) -> impl Fn(Val) -> Result<Val, Error> + Clone + 'static {
    let t = m.get("m").s().to_string();
    let k = if let J::Int(k) = m.get("k") { *k } else { 0 };
    move |v: Val| {
        log(Ev::M);
        match t.as_str() {
            "id" => Ok(v),
            "tag" => Ok(Val::T(k, Box::new(v))),
            "err" => Err(Error::Uid(700)),
            "short" => match &v {
                Val::S(_, n) if *n as i64 > k => Err(Error::Uid(701)),
                _ => Ok(v),
            },
            t => panic!("mapping {t}"),
        }
    }
}

fn split(v: Val) -> Result<(Val, Val), Error> {
    match v {
        Val::P(a, b) => Ok((*a, *b)),
        v => panic!("not a pair: {v:?}"),
    }
}

pub struct DynSpec<C: 'static> {
    t: String,
    k: usize,
    p: Option<Dyn<C>>,
    st: usize,
}

impl<C> Clone for DynSpec<C> {
    fn clone(&self) -> Self {
        DynSpec { t: self.t.clone(), k: self.k, p: self.p, st: self.st }
    }
}

fn codes_of<C: Cx>(c: &C, b: usize, n: usize) -> Vec<i64> {
    match c.peek_at(b) {
        Ok(it) => it.take_while(|x| x.0 < n).map(|x| x.1.code()).collect(),
        Err(_) => vec![],
    }
}

fn dyn_call<C: Cx>(d: &DynSpec<C>, c: &mut C, b: usize, n: usize) -> Result<Dyn<C>, Error> {
    log(Ev::F(b, n, c.offset()));
    match d.t.as_str() {
        "same" => Ok(C::lit(&codes_of(c, b, n), "str", d.st).unwrap()),
        "len" => Ok(mk(NeuIntoRegexOps::<C>::times(neu::always::<C::Item>(), n), idv)),
        "pat" => Ok(d.p.unwrap()),
        "adv" => {
            c.inc(d.k);
            Ok(d.p.unwrap())
        }
        "err" => {
            c.inc(d.k);
            Err(Error::Uid(800))
        }
        "cond" => {
            if n > d.k {
                Ok(d.p.unwrap())
            } else {
                Err(Error::Uid(801))
            }
        }
        t => panic!("dynamic {t}"),
    }
}

fn dspec<C: Cx>(f: &J, b: &B<C>) -> Option<DynSpec<C>> {
    let t = f.get("f").s().to_string();
    let k = if let J::Int(k) = f.get("k") { *k as usize } else { 0 };
    let p = match f.get("p") {
        J::Null => None,
        p => Some(pat(p, b)?),
    };
    Some(DynSpec { t, k, p, st: b.st })
}

pub fn chars_of(cs: &[i64]) -> String {
    cs.iter().map(|c| char::of(*c)).collect()
}
pub fn bytes_of(cs: &[i64]) -> Vec<u8> {
    if cs.iter().any(|c| *c > 255) {
        // not expressible in bytes: something the models' inputs do not contain
        return chars_of(cs).into_bytes();
    }
    cs.iter().map(|c| *c as u8).collect()
}

macro_rules! cx_text {
    ($t:ty) => {
        impl Cx for $t {
            fn lit(cs: &[i64], w: &str, st: usize) -> Option<Dyn<Self>> {
                let s: &'static str = Box::leak(chars_of(cs).into_boxed_str());
                Some(match w {
                    "str" => match st {
                        0 => mk(s, idv),
                        1 => mk(regex::literal(s), idv),
                        _ => mk(regex::Literal::new(s).clone(), idv),
                    },
                    #[cfg(feature = "alloc")]
                    "own" => match st {
                        0 => mk(s.to_string(), idv),
                        1 => mk::<Self, &'static String, Val>(Box::leak(Box::new(s.to_string())), idv),
                        _ => mk(regex::literal::<String>(Box::leak(Box::new(s.to_string()))), idv),
                    },
                    #[cfg(not(feature = "alloc"))]
                    "own" => return None,
                    w => panic!("literal {w}"),
                })
            }
            fn not_lit(cs: &[i64]) -> Option<Dyn<Self>> {
                let s: &'static str = Box::leak(chars_of(cs).into_boxed_str());
                Some(mk(!regex::literal(s), idv))
            }
            fn piece(&mut self, p: &Dyn<Self>, k: i64) -> Option<Result<Piece, Error>> {
                use neure::ctx::MatchExt;
                let base = self.orig_at(0).ok()?.as_ptr() as usize;
                let at = |x: &'static str| Piece::At(x.as_ptr() as usize - base, x.len());
                Some(match k {
                    0 => self.map_handler(p, ctor::Extract::<&'static str>::default().clone()).map(at),
                    #[cfg(feature = "alloc")]
                    1 => self
                        .map_handler(p, ctor::Extract::<String>::default())
                        .map(|x| Piece::Own(x.into_bytes())),
                    2 => self.map_handler(p, ctor::extract::<()>()).map(|()| Piece::Nothing),
                    3 => self.map(p, |x: &'static str| Ok(at(x))),
                    4 => self
                        .map_handler(p, ctor::Extract::<Span>::new())
                        .map(|x| Piece::At(x.beg, x.len)),
                    _ => return None,
                })
            }
            fn blank(p: Dyn<Self>, cl: &str, after: bool, st: usize) -> Option<Dyn<Self>> {
                Some(match (cl, after, st) {
                    ("whitespace", true, 0) => mk(CtorOps::skip_ws(p), idv),
                    ("whitespace", true, _) => mk(CtorOps::skip_ws(p).clone(), idv),
                    ("whitespace", false, 0) => mk(CtorOps::skip_ws_leading(p), idv),
                    ("whitespace", false, _) => mk(CtorOps::skip_ws_leading(p).clone(), idv),
                    ("ascii_whitespace", true, 0) => mk(CtorOps::skip_ascii_ws(p), idv),
                    ("ascii_whitespace", true, _) => mk(CtorOps::skip_ascii_ws(p).clone(), idv),
                    ("ascii_whitespace", false, 0) => mk(CtorOps::skip_ascii_ws_leading(p), idv),
                    ("ascii_whitespace", false, _) => {
                        mk(CtorOps::skip_ascii_ws_leading(p).clone(), idv)
                    }
                    _ => return None,
                })
            }
        }
    };
}

macro_rules! cx_bytes {
    ($t:ty) => {
        impl Cx for $t {
            fn lit(cs: &[i64], w: &str, st: usize) -> Option<Dyn<Self>> {
                let v = bytes_of(cs);
                let s: &'static [u8] = Box::leak(v.clone().into_boxed_slice());
                Some(match w {
                    "str" => match st {
                        0 => mk(s, idv),
                        1 => mk(regex::literal(s), idv),
                        _ => match s.len() {
                            0 => mk([0u8; 0], idv),
                            1 => mk([s[0]], idv),
                            2 => mk::<Self, &'static [u8; 2], Val>(s.try_into().unwrap(), idv),
                            _ => mk(regex::Literal::new(s).clone(), idv),
                        },
                    },
                    #[cfg(feature = "alloc")]
                    "own" => match st {
                        0 => mk(v, idv),
                        1 => mk::<Self, &'static Vec<u8>, Val>(Box::leak(Box::new(v)), idv),
                        _ => match s.len() {
                            1 => mk(regex::literal::<[u8; 1]>(s.try_into().unwrap()), idv),
                            2 => mk(regex::literal::<[u8; 2]>(s.try_into().unwrap()), idv),
                            _ => mk(s, idv),
                        },
                    },
                    #[cfg(not(feature = "alloc"))]
                    "own" => return None,
                    w => panic!("literal {w}"),
                })
            }
            fn not_lit(cs: &[i64]) -> Option<Dyn<Self>> {
                let s: &'static [u8] = Box::leak(bytes_of(cs).into_boxed_slice());
                Some(mk(!regex::literal(s), idv))
            }
            fn piece(&mut self, p: &Dyn<Self>, k: i64) -> Option<Result<Piece, Error>> {
                use neure::ctx::MatchExt;
                let base = self.orig_at(0).ok()?.as_ptr() as usize;
                let at = |x: &'static [u8]| Piece::At(x.as_ptr() as usize - base, x.len());
                Some(match k {
                    0 => self.map_handler(p, ctor::Extract::<&'static [u8]>::default().clone()).map(at),
                    2 => self.map_handler(p, ctor::extract::<()>()).map(|()| Piece::Nothing),
                    3 => self.map(p, |x: &'static [u8]| Ok(at(x))),
                    4 => self
                        .map_handler(p, ctor::Extract::<Span>::new())
                        .map(|x| Piece::At(x.beg, x.len)),
                    _ => return None,
                })
            }
            fn blank(p: Dyn<Self>, cl: &str, after: bool, st: usize) -> Option<Dyn<Self>> {
                Some(match (cl, after, st) {
                    ("ascii_whitespace", true, 0) => mk(CtorOps::skip_ascii_ws(p), idv),
                    ("ascii_whitespace", true, _) => mk(CtorOps::skip_ascii_ws(p).clone(), idv),
                    ("ascii_whitespace", false, 0) => mk(CtorOps::skip_ascii_ws_leading(p), idv),
                    ("ascii_whitespace", false, _) => {
                        mk(CtorOps::skip_ascii_ws_leading(p).clone(), idv)
                    }
                    _ => return None,
                })
            }
        }
    };
}

pub type Tx = CharsCtx<'static>;
pub type Bx = BytesCtx<'static>;
pub type PTx = PolicyCtx<Tx, Dyn<Tx>>;
pub type PBx = PolicyCtx<Bx, Dyn<Bx>>;

cx_text!(Tx);
cx_text!(PTx);
cx_bytes!(Bx);
cx_bytes!(PBx);

fn rep2<const M: usize, const N: usize, C: Cx>(p: Dyn<C>, st: usize) -> Dyn<C> {
    match st {
        0 => mk(CtorOps::repeat2::<M, N>(p), arrv::<N>),
        1 => {
            let mut r = ctor::Repeat2::<C, _, M, N>::new(dummy::<C>());
            r.set_pat(p);
            mk(r, arrv::<N>)
        }
        _ => mk(ctor::Repeat2::<C, _, M, N>::new(p).clone(), arrv::<N>),
    }
}

fn sep2<const M: usize, const N: usize, C: Cx>(
    p: Dyn<C>,
    s: Dyn<C>,
    skip: bool,
    st: usize,
) -> Dyn<C> {
    match st {
        0 => mk(CtorOps::sep2::<_, M, N>(p, s).with_skip(skip), arrv::<N>),
        1 => {
            let mut r = ctor::Separate2::<C, _, _, M, N>::new(dummy::<C>(), dummy::<C>());
            r.set_pat(p).set_sep(s).set_skip(skip);
            mk(r, arrv::<N>)
        }
        // the default allows a trailing element without separator
        _ if skip => mk(CtorOps::sep2::<_, M, N>(p, s).clone(), arrv::<N>),
        _ => mk(CtorOps::sep2::<_, M, N>(p, s).with_skip(skip).clone(), arrv::<N>),
    }
}

/// The class, when `j` takes any number of blanks.
pub fn blanks(j: &J) -> Option<&str> {
    let is = j.get("t").s() == "many0"
        && j.get("c").get("c").s() == "none"
        && j.get("u").get("u").s() == "cls";
    let cl = if is { j.get("u").get("cl").s() } else { "" };
    matches!(cl, "whitespace" | "ascii_whitespace").then_some(cl)
}

/// Build pattern `j`; `None` when this configuration does not offer it.
pub fn pat<C: Cx>(j: &J, b: &B<C>) -> Option<Dyn<C>> {
    let st = b.st;
    let go = |n: &str| pat(j.get(n), b);
    let t = j.get("t").s();
    // `p.skip_ws()` and its relatives are a prefix or suffix of blanks
    if matches!((t, st), ("prefix" | "suffix", 0 | 3))
        && let Some(cl) = blanks(j.get("x"))
        && let Some(d) = C::blank(go("p")?, cl, t == "suffix", st)
    {
        return Some(d);
    }
    if st == 3
        && let Some(r) = crate::mk3::pat3(j, b)
    {
        return r;
    }
    Some(match t {
        "once" | "opt" | "many0" | "many1" | "btw" | "times" => {
            let u = unit::<C::Item>(j.get("u"), st)?;
            let c = j.get("c");
            match c.get("c").s() {
                "none" => quant_empty(j, u, st),
                "rx" => quant_cond(j, u, regex_cond::<C, _>(pat(c.get("p"), b)?), st),
                _ => quant_cond(j, u, cond_fn::<C>(c), st),
            }
        }
        "nthen" => {
            let u = unit::<C::Item>(j.get("u"), st)?;
            let v = unit::<C::Item>(j.get("v"), st)?;
            let c = j.get("c");
            match c.get("c").s() {
                "none" if st == 0 => mk(NeuIntoRegexOps::<C>::then(u, v), idv),
                "none" => nthen_cond(u, v, EmptyCond, st),
                "rx" => nthen_cond(u, v, regex_cond::<C, _>(pat(c.get("p"), b)?), st),
                _ => nthen_cond(u, v, cond_fn::<C>(c), st),
            }
        }
        "lit" => C::lit(&j.get("s").ints(), j.get("w").s(), st)?,
        "start" => match st {
            0 => mk(regex::start(), idv),
            1 => mk(regex::AnchorStart::new(), idv),
            _ => mk(regex::start().clone(), idv),
        },
        "end" => match st {
            0 => mk(regex::end(), idv),
            1 => mk(regex::AnchorEnd::new(), idv),
            _ => mk(regex::end().clone(), idv),
        },
        "empty" => match st {
            0 => mk(regex::empty(), idv),
            1 => mk(regex::EmptyRegex::new(), idv),
            _ => mk(regex::empty().clone(), idv),
        },
        "unit" => mk(RegexIntoHelper::<C>::into_ctor(()), idv),
        "fail" => match st {
            0 => mk(regex::fail(), idv),
            1 => mk(regex::FailRegex::new(), idv),
            _ => mk(regex::fail().clone(), idv),
        },
        "cons" => {
            let k = j.get("k").u();
            match st {
                0 => mk(regex::consume(k), idv),
                1 => mk(regex::Consume::new(k), idv),
                _ => mk(regex::consume(k).clone(), idv),
            }
        }
        "consall" => match st {
            0 => mk(regex::consume_all(), idv),
            1 => mk(regex::ConsumeAll::new(), idv),
            _ => mk(regex::consume_all().clone(), idv),
        },
        "radv" => {
            let k = j.get("k").u();
            mk(
                move |c: &mut C| {
                    let o = c.offset();
                    c.inc(k);
                    Ok(Span::new(o, k))
                },
                idv,
            )
        }
        "rset" => {
            let k = j.get("k").u();
            mk(
                move |c: &mut C| {
                    c.set_offset(k);
                    Ok(Span::new(k, 0))
                },
                idv,
            )
        }
        "rfail" => {
            let k = j.get("k").u();
            mk(
                move |c: &mut C| {
                    c.inc(k);
                    Err(Error::Uid(400))
                },
                idv,
            )
        }
        "then" => {
            let (l, r) = (go("l")?, go("r")?);
            match st {
                0 => mk(CtorOps::then(l, r), pairv),
                1 => {
                    let mut p = ctor::Then::new(dummy::<C>(), dummy::<C>());
                    p.set_left(l).set_right(r);
                    mk::<C, _, _>(p, pairv)
                }
                _ => mk(CtorOps::then(l, r).clone(), pairv),
            }
        }
        "or" => {
            let (l, r) = (go("l")?, go("r")?);
            match st {
                0 => mk(CtorOps::or(l, r), idv),
                1 => {
                    let mut p = ctor::Or::new(dummy::<C>(), dummy::<C>());
                    p.set_left(l).set_right(r);
                    mk::<C, _, _>(p, idv)
                }
                _ => mk(CtorOps::or(l, r).clone(), idv),
            }
        }
        "longest" => {
            let (l, r) = (go("l")?, go("r")?);
            match st {
                0 => mk(CtorOps::longest(l, r), idv),
                1 => {
                    let mut p = ctor::LongestTokenMatch::new(dummy::<C>(), dummy::<C>());
                    p.set_left(l).set_right(r);
                    mk::<C, _, _>(p, idv)
                }
                _ => mk(CtorOps::longest(l, r).clone(), idv),
            }
        }
        "ifthen" => {
            let (l, i, r) = (go("l")?, go("i")?, go("r")?);
            match st {
                0 => mk(CtorOps::if_then(l, i, r), ifv),
                1 => {
                    let mut p = ctor::IfThen::new(dummy::<C>(), dummy::<C>(), dummy::<C>());
                    p.set_left(l).set_test(i).set_right(r);
                    mk::<C, _, _>(p, ifv)
                }
                _ => mk(CtorOps::if_then(l, i, r).clone(), ifv),
            }
        }
        "seponce" => {
            let (l, s, r) = (go("l")?, go("s")?, go("r")?);
            match st {
                0 => mk(CtorOps::sep_once(l, s, r), pairv),
                1 => {
                    let mut p = ctor::SepOnce::new(dummy::<C>(), dummy::<C>(), dummy::<C>());
                    p.set_left(l).set_sep(s).set_right(r);
                    mk::<C, _, _>(p, pairv)
                }
                _ => mk(CtorOps::sep_once(l, s, r).clone(), pairv),
            }
        }
        "enclose" => {
            let (o, p, c) = (go("o")?, go("p")?, go("c")?);
            match st {
                0 => mk(CtorOps::enclose(p, o, c), idv),
                1 => {
                    let mut e = ctor::Enclose::new(dummy::<C>(), dummy::<C>(), dummy::<C>());
                    e.set_pat(p).set_open(o).set_close(c);
                    mk::<C, _, _>(e, idv)
                }
                _ => mk(CtorOps::enclose(p, o, c).clone(), idv),
            }
        }
        "prefix" => {
            let (x, p) = (go("x")?, go("p")?);
            match st {
                0 => mk(CtorOps::prefix(p, x), idv),
                1 => {
                    let mut e = ctor::Prefix::new(dummy::<C>(), dummy::<C>());
                    e.set_pat(p).set_prefix(x);
                    mk::<C, _, _>(e, idv)
                }
                _ => mk(CtorOps::prefix(p, x).clone(), idv),
            }
        }
        "suffix" => {
            let (x, p) = (go("x")?, go("p")?);
            match st {
                0 => mk(CtorOps::suffix(p, x), idv),
                1 => {
                    let mut e = ctor::Suffix::new(dummy::<C>(), dummy::<C>());
                    e.set_pat(p).set_suffix(x);
                    mk::<C, _, _>(e, idv)
                }
                _ => mk(CtorOps::suffix(p, x).clone(), idv),
            }
        }
        "optp" => {
            let p = go("p")?;
            match st {
                0 => mk(CtorOps::opt(p), Val::opt),
                1 => {
                    let mut e = ctor::OptionPat::new(dummy::<C>());
                    e.set_pat(p);
                    mk::<C, _, _>(e, Val::opt)
                }
                _ => mk(CtorOps::opt(p).clone(), Val::opt),
            }
        }
        "branch" => {
            let (l, r) = (go("l")?, go("r")?);
            let f = test_fn::<C>(j.get("f"));
            match st {
                0 => mk(CtorOps::if_else(l, f, r), idv),
                1 => {
                    let mut e = ctor::Branch::new(f, dummy::<C>(), dummy::<C>());
                    e.set_pat(l).set_other(r);
                    mk::<C, _, _>(e, idv)
                }
                _ => mk(ctor::branch(f, l, r).clone(), idv),
            }
        }
        "collect" => {
            let p = go("p")?;
            let m = j.get("min").u();
            match st {
                0 => mk(CtorOps::collect::<Val, Vec<Val>>(p).at_least(m), listv),
                1 => {
                    let mut e = ctor::Collect::<C, _, Val, Vec<Val>>::new(dummy::<C>());
                    e.set_pat(p).set_min(m);
                    mk(e, listv)
                }
                _ if m == 1 => mk(CtorOps::collect::<Val, Vec<Val>>(p).clone(), listv),
                _ => mk(CtorOps::collect::<Val, Vec<Val>>(p).at_least(m).clone(), listv),
            }
        }
        #[cfg(feature = "alloc")]
        "repeat" => {
            let p = go("p")?;
            match st {
                1 => {
                    let mut e = ctor::Repeat::new(dummy::<C>(), 7usize);
                    e.set_pat(p);
                    with_range!(j, st, |r| {
                        e.set_range(r).set_capacity(1);
                    });
                    mk::<C, _, _>(e, listv)
                }
                _ => with_range!(j, st, |r| mk(CtorOps::repeat(p, r), listv)),
            }
        }
        "rep2" => {
            let p = go("p")?;
            macro_rules! f {
                ($m:literal, $n:literal) => {
                    rep2::<$m, $n, C>(p, st)
                };
            }
            pairs!(j.get("min").i(), j.get("max").i(), f)
        }
        #[cfg(feature = "alloc")]
        "sep" => {
            let (p, s) = (go("p")?, go("s")?);
            let (m, skip) = (j.get("min").u(), j.get("skip").b());
            match st {
                0 => mk(CtorOps::sep(p, s).at_least(m).with_skip(skip), listv),
                1 => {
                    let mut e = ctor::Separate::new(dummy::<C>(), dummy::<C>());
                    e.set_pat(p).set_sep(s).set_skip(skip).set_min(m).set_capacity(1);
                    mk::<C, _, _>(e, listv)
                }
                _ if skip && m == 1 => mk(CtorOps::sep(p, s).clone(), listv),
                _ => mk(CtorOps::sep(p, s).with_skip(skip).at_least(m).clone(), listv),
            }
        }
        #[cfg(not(feature = "alloc"))]
        "repeat" | "sep" | "rec" => return None,
        "sep2" => {
            let (p, s) = (go("p")?, go("s")?);
            let skip = j.get("skip").b();
            macro_rules! f {
                ($m:literal, $n:literal) => {
                    sep2::<$m, $n, C>(p, s, skip, st)
                };
            }
            pairs!(j.get("min").i(), j.get("max").i(), f)
        }
        "sepc" => {
            let (p, s) = (go("p")?, go("s")?);
            let (m, skip) = (j.get("min").u(), j.get("skip").b());
            type V = Vec<Val>;
            match st {
                0 => mk(
                    CtorOps::sep_collect::<_, Val, V>(p, s).at_least(m).with_skip(skip),
                    listv,
                ),
                1 => {
                    let mut e =
                        ctor::SepCollect::<C, _, _, Val, V>::new(dummy::<C>(), dummy::<C>());
                    e.set_pat(p).set_sep(s).set_skip(skip).set_min(m);
                    mk(e, listv)
                }
                _ if skip && m == 1 => mk(CtorOps::sep_collect::<_, Val, V>(p, s).clone(), listv),
                _ => mk(
                    CtorOps::sep_collect::<_, Val, V>(p, s).with_skip(skip).at_least(m).clone(),
                    listv,
                ),
            }
        }
        "map" => map_pat(j, b)?,
        "pat" => {
            let p = go("p")?;
            match st {
                0 => mk(CtorOps::pat(p), idv),
                1 => {
                    let mut e = ctor::Pattern::new(dummy::<C>());
                    e.set_pat(p);
                    mk::<C, _, _>(e, idv)
                }
                _ => mk(CtorOps::pat(p).clone(), idv),
            }
        }
        "assert" => {
            let p = go("p")?;
            let pos = j.get("pos").b();
            match st {
                0 if pos => mk(regex::peek(p), idv),
                0 => mk(regex::not(p), idv),
                1 => {
                    let mut e = regex::Assert::new(dummy::<C>(), !pos);
                    e.set_pat(p).set_value(pos);
                    mk(e, idv)
                }
                _ => mk(regex::assert(p, !pos).with_value(pos).clone(), idv),
            }
        }
        "arr" | "parr" => arr_pat(j, b)?,
        "irb" => {
            let p = go("p")?;
            let d = dspec(j.get("f"), b)?;
            let f = move |c: &mut C, s: &Span| dyn_call(&d, c, s.beg, s.len);
            match st {
                1 => mk(regex::into_regex_builder(p, f), idv),
                _ => mk(DynamicRegexBuilderHelper::into_regex_builder(p, f), idv),
            }
        }
        "dthen" => {
            let p = go("p")?;
            match st {
                0 => mk(p.into_ctor_then_builder(dthen_fn(j, b)?), pairv),
                1 => {
                    let mut e = DynamicCtorThenBuilder::new(dummy::<C>(), dthen_fn(j, b)?);
                    e.set_pat(p);
                    mk::<C, _, _>(e, pairv)
                }
                _ => mk(p.into_ctor_then_builder(dthen_fn(j, b)?).clone(), pairv),
            }
        }
        #[cfg(feature = "alloc")]
        "rec" => rec_pat(j, b)?,
        "self" => {
            let k = j.get("k").u();
            b.env[b.env.len() - 1 - k]()
        }
        "wrap" => wrap_pat(j.get("w").s(), go("p")?, st)?,
        _ => panic!("pattern {t}"),
    })
}

pub fn dthen_fn<C: Cx>(
    j: &J,
    b: &B<C>,
) -> Option<impl Fn(&mut C, &Val) -> Result<Dyn<C>, Error> + Clone + 'static> {
    let d = dspec(j.get("f"), b)?;
    // a value other than a single piece is reported as an empty piece at 0
    Some(move |c: &mut C, v: &Val| match v {
        Val::S(o, n) => dyn_call(&d, c, *o, *n),
        _ => dyn_call(&d, c, 0, 0),
    })
}

impl PartialEq<Option<Val>> for Val {
    fn eq(&self, o: &Option<Val>) -> bool {
        *self == Val::opt(o.clone())
    }
}

macro_rules! select {
    ($p:expr, $m:expr, $st:expr, $C:ty, $I:ty, $v2:ident, $pv:ident) => {
        match ($m, $st) {
            ("sel0", 0) => mk::<$C, _, _>($p._0::<$I>(), idv),
            ("sel1", 0) => mk::<$C, _, _>($p._1::<$I>(), $v2),
            ("seleq", 0) => mk::<$C, _, _>($p._eq(), $pv),
            ("sel0", _) => mk::<$C, _, _>(CtorOps::try_map::<_, $I>($p, Select0), idv),
            ("sel1", _) => mk::<$C, _, _>(CtorOps::try_map::<_, $I>($p, neure::map::select1()), $v2),
            ("seleq", _) => mk::<$C, _, _>(CtorOps::try_map::<_, $I>($p, SelectEq), $pv),
            ("selneq", _) => mk::<$C, _, _>(CtorOps::try_map::<_, $I>($p, SelectNeq), $pv),
            (m, _) => panic!("selection {m}"),
        }
    };
}

fn map_pat<C: Cx>(j: &J, b: &B<C>) -> Option<Dyn<C>> {
    let st = b.st;
    let m = j.get("m").get("m").s();
    let pj = j.get("p");
    if matches!(m, "sel0" | "sel1" | "seleq" | "selneq") {
        let go = |n: &str| pat(pj.get(n), b);
        return Some(match pj.get("t").s() {
            "then" => select!(ctor::Then::new(go("l")?, go("r")?), m, st, C, (Val, Val), idv, pairv),
            "ifthen" => {
                let optv: fn(Option<Val>) -> Val = Val::opt;
                select!(ctor::IfThen::new(go("l")?, go("i")?, go("r")?), m, st, C, (Val, Option<Val>), optv, ifv)
            }
            "seponce" => {
                select!(ctor::SepOnce::new(go("l")?, go("s")?, go("r")?), m, st, C, (Val, Val), idv, pairv)
            }
            "dthen" => {
                select!(
                    DynamicCtorThenBuilder::new(go("p")?, dthen_fn(pj, b)?),
                    m,
                    st,
                    C,
                    (Val, Val),
                    idv,
                    pairv
                )
            }
            _ => {
                let p = CtorOps::try_map::<_, Val>(
                    pat(pj, b)?,
                    split as fn(Val) -> Result<(Val, Val), Error>,
                );
                match m {
                    "sel0" => mk::<C, _, _>(CtorOps::try_map::<_, (Val, Val)>(p, Select0), idv),
                    "sel1" => mk::<C, _, _>(CtorOps::try_map::<_, (Val, Val)>(p, Select1), idv),
                    "seleq" => mk::<C, _, _>(CtorOps::try_map::<_, (Val, Val)>(p, SelectEq), pairv),
                    _ => mk::<C, _, _>(CtorOps::try_map::<_, (Val, Val)>(p, SelectNeq), pairv),
                }
            }
        });
    }
    let p = pat(pj, b)?;
    let f = map_fn(j.get("m"));
    Some(match st {
        0 if matches!(m, "id" | "tag") => {
            mk(CtorOps::map::<_, Val>(p, move |v: Val| f(v).unwrap()), idv)
        }
        0 => mk(CtorOps::try_map::<_, Val>(p, f), idv),
        1 => {
            let mut e = ctor::Map::<C, _, _, Val>::new(dummy::<C>(), f);
            e.set_pat(p);
            mk(e, idv)
        }
        _ if m == "id" => mk(
            ctor::Map::<C, _, _, Val>::new(p, mapper(move |v: Val| f(v).unwrap())).clone(),
            idv,
        ),
        _ => mk(ctor::Map::<C, _, _, Val>::new(p, f).clone(), idv),
    })
}

fn arr_pat<C: Cx>(j: &J, b: &B<C>) -> Option<Dyn<C>> {
    let st = b.st;
    let ps: Vec<Dyn<C>> =
        j.get("ps").arr().iter().map(|p| pat(p, b)).collect::<Option<Vec<_>>>()?;
    let ltm = j.get("ltm").b();
    let w = j.get("w").s();
    fn array<const N: usize, C: Cx>(ps: [Dyn<C>; N], ltm: bool, st: usize) -> Dyn<C> {
        match (st, ltm) {
            (0, true) => mk(regex::array_ltm(ps), idv),
            (0, false) => mk(regex::array(ps), idv),
            (1, _) => {
                let mut a = ctor::Array::new([dummy::<C>(); N], !ltm);
                a.set_longest(ltm);
                for i in 0..N {
                    a[i] = ps[i];
                }
                mk(a, idv)
            }
            (3, _) => {
                let a = ctor::Array::new(ps, ltm);
                mk(ctor::Array::new(*a, (&a).longest()), idv)
            }
            _ => mk(ctor::Array::new(ps, !ltm).with_longest(ltm).clone(), idv),
        }
    }
    fn parray<const N: usize, C: Cx>(ps: [(Dyn<C>, i64); N], ltm: bool, st: usize) -> Dyn<C> {
        match (st, ltm) {
            (0, true) => mk(regex::pair_array_ltm(ps), payv),
            (0, false) => mk(regex::pair_array(ps), payv),
            (1, _) => {
                let mut a = ctor::PairArray::new([(dummy::<C>(), -1); N], !ltm);
                a.set_longest(ltm);
                for i in 0..N {
                    a[i] = ps[i];
                }
                mk(a, payv)
            }
            (3, _) => {
                let a = ctor::PairArray::new(ps, ltm);
                mk(ctor::PairArray::new(*a, (&a).longest()), payv)
            }
            _ => mk(ctor::PairArray::new(ps, !ltm).with_longest(ltm).clone(), payv),
        }
    }
    if j.get("t").s() == "arr" {
        return Some(match (w, ps.len()) {
            ("array", 0) => array::<0, C>([], ltm, st),
            ("array", 1) => array([ps[0]], ltm, st),
            ("array", 2) => array([ps[0], ps[1]], ltm, st),
            ("array", 3) => array([ps[0], ps[1], ps[2]], ltm, st),
            ("array", 4) => array([ps[0], ps[1], ps[2], ps[3]], ltm, st),
            #[cfg(feature = "alloc")]
            ("vec", _) => match (st, ltm) {
                (0, true) => mk(regex::vector_ltm(ps), idv),
                (0, false) => mk(regex::vector(ps), idv),
                (1, _) => {
                    let mut a = ctor::Vector::new(vec![], !ltm);
                    a.set_longest(ltm);
                    for p in ps {
                        a.push(p);
                    }
                    mk(a, idv)
                }
                _ => mk(ctor::Vector::new(ps, !ltm).with_longest(ltm).clone(), idv),
            },
            #[cfg(not(feature = "alloc"))]
            ("vec", _) => return None,
            ("slice", _) => {
                let ps: &'static [Dyn<C>] = Box::leak(ps.into_boxed_slice());
                match (st, ltm) {
                    (0, true) => mk(regex::slice_ltm(ps), idv),
                    (0, false) => mk(regex::slice(ps), idv),
                    (1, _) => {
                        let mut a = ctor::Slice::new(ps, !ltm);
                        a.set_longest(ltm);
                        mk(a, idv)
                    }
                    (3, _) => {
                        let a = ctor::Slice::new(ps, ltm);
                        mk(ctor::Slice::new(Box::leak(a.to_vec().into_boxed_slice()), (&a).longest()), idv)
                    }
                    _ => mk(ctor::Slice::new(ps, !ltm).with_longest(ltm).clone(), idv),
                }
            }
            x => panic!("array {x:?}"),
        });
    }
    let ps: Vec<(Dyn<C>, i64)> = ps.into_iter().zip(j.get("ks").ints()).collect();
    Some(match (w, ps.len()) {
        ("array", 0) => parray::<0, C>([], ltm, st),
        ("array", 1) => parray([ps[0]], ltm, st),
        ("array", 2) => parray([ps[0], ps[1]], ltm, st),
        ("array", 3) => parray([ps[0], ps[1], ps[2]], ltm, st),
        ("array", 4) => parray([ps[0], ps[1], ps[2], ps[3]], ltm, st),
        #[cfg(feature = "alloc")]
        ("vec", _) => match (st, ltm) {
            (0, true) => mk(regex::pair_vector_ltm(ps), payv),
            (0, false) => mk(regex::pair_vector(ps), payv),
            (1, _) => {
                let mut a = ctor::PairVector::new(vec![], !ltm);
                a.set_longest(ltm);
                for p in ps {
                    a.push(p);
                }
                mk(a, payv)
            }
            (3, _) => {
                let mut a = ctor::PairVector::new(vec![], !ltm);
                a.extend(ps);
                a.set_longest(ltm);
                mk(ctor::PairVector::new(a.iter().copied().collect(), (&a).longest()), payv)
            }
            _ => mk(ctor::PairVector::new(ps, !ltm).with_longest(ltm).clone(), payv),
        },
        #[cfg(not(feature = "alloc"))]
        ("vec", _) => return None,
        ("slice", _) => {
            let ps: &'static [(Dyn<C>, i64)] = Box::leak(ps.into_boxed_slice());
            match (st, ltm) {
                (0, true) => mk(regex::pair_slice_ltm(ps), payv),
                (0, false) => mk(regex::pair_slice(ps), payv),
                (1, _) => {
                    let mut a = ctor::PairSlice::new(ps, !ltm);
                    a.set_longest(ltm);
                    mk(a, payv)
                }
                (3, _) => {
                    let a = ctor::PairSlice::new(ps, ltm);
                    let v = Box::leak(a.to_vec().into_boxed_slice());
                    mk(ctor::PairSlice::new(v, (&a).longest()), payv)
                }
                _ => mk(ctor::PairSlice::new(ps, !ltm).with_longest(ltm).clone(), payv),
            }
        }
        x => panic!("pair array {x:?}"),
    })
}

#[cfg(feature = "alloc")]
fn rec_pat<C: Cx>(j: &J, b: &B<C>) -> Option<Dyn<C>> {
    let mut fine = true;
    let fine_ = &mut fine;
    let mut body = |h: std::rc::Rc<dyn Fn() -> Dyn<C>>| -> Dyn<C> {
        let mut b2 = b.clone();
        b2.env.push(h);
        match pat(j.get("p"), &b2) {
            Some(p) => p,
            None => {
                *fine_ = false;
                dummy::<C>()
            }
        }
    };
    let r = match b.st {
        0 => mk(regex::rec_parser::<C, Val, Hd, Dyn<C>>(|h| body(std::rc::Rc::new(move || mk(h.clone(), idv)))), idv),
        #[cfg(feature = "std")]
        1 => mk(regex::rec_parser_sync::<C, Val, Dyn<C>, Hd>(|h| body(std::rc::Rc::new(move || mk(h.clone(), idv)))), idv),
        #[cfg(feature = "std")]
        2 => {
            use neure::regex::RecursiveParserSync;
            mk(
                <regex::RecParserSync as RecursiveParserSync<'static, C>>::build::<Val, Dyn<C>, Hd, _>(
                    |h| body(std::rc::Rc::new(move || mk(h.clone(), idv))),
                ),
                idv,
            )
        }
        _ => {
            use neure::regex::RecursiveParser;
            mk(
                <regex::RecParser as RecursiveParser<'static, C>>::build::<Val, Dyn<C>, Hd, _>(
                    |h| body(std::rc::Rc::new(move || mk(h.clone(), idv))),
                ),
                idv,
            )
        }
    };
    if fine { Some(r) } else { None }
}

fn wrap_pat<C: Cx>(w: &str, p: Dyn<C>, st: usize) -> Option<Dyn<C>> {
    #[cfg(feature = "alloc")]
    {
        let clone = st == 2;
        use neure::ctor::Adapter as CA;
        use neure::regex::Adapter as RA;
        use std::rc::Rc;
        use std::sync::Arc;
        type BR<C> = Box<dyn Regex<C>>;
        type BC<C> = Box<dyn Ctor<C, Val, Hd>>;
        type BCS<C> = Box<dyn Ctor<C, Val, Hd> + Send>;
        type BCSS<C> = Box<dyn Ctor<C, Val, Hd> + Send + Sync>;
        type AC<C> = Arc<dyn Ctor<C, Val, Hd>>;
        type ACS<C> = Arc<dyn Ctor<C, Val, Hd> + Send>;
        type ACSS<C> = Arc<dyn Ctor<C, Val, Hd> + Send + Sync>;
        type RC<C> = Rc<dyn Ctor<C, Val, Hd>>;
        type RCS<C> = Rc<dyn Ctor<C, Val, Hd> + Send>;
        let r = match w {
            "rx_box" if st == 1 => mk(RA::r#box(p), idv),
            "rx_box" if clone => mk(RA::r#box(p).into_inner().clone(), idv),
            "rx_box" => mk(p.into_box_regex(), idv),
            "rx_rc" if st == 1 => mk(RA::rc(p), idv),
            "rx_rc" if clone => mk(p.into_rc_regex().clone(), idv),
            "rx_rc" => mk(p.into_rc_regex(), idv),
            "rx_arc" if st == 1 => mk(RA::arc(p), idv),
            "rx_arc" if clone => mk(p.into_arc_regex().clone(), idv),
            "rx_arc" => mk(p.into_arc_regex(), idv),
            "rx_dynbox" if st == 1 => mk(RA::dyn_box(p), idv),
            "rx_dynbox" => mk(p.into_dyn_regex(), idv),
            "rx_dynbox_send" => mk(RA::dyn_box_send(p), idv),
            "rx_dynbox_sync" => mk(RA::dyn_box_sync(p), idv),
            "rx_dynarc" if st == 1 => mk(RA::dyn_arc(p), idv),
            "rx_dynarc" => mk(p.into_dyn_arc_regex(), idv),
            "rx_dynarc_send" => mk(RA::dyn_arc_send(p), idv),
            "rx_dynarc_sync" => mk(RA::dyn_arc_sync(p), idv),
            "rx_dynrc" if st == 1 => mk(RA::dyn_rc(p), idv),
            "rx_dynrc" => mk(p.into_dyn_rc_regex(), idv),
            "rx_dynrc_send" => mk(RA::dyn_rc_send(p), idv),
            "boxdynregex" => match st {
                0 => mk::<C, BR<C>, Val>(Box::new(p), idv),
                1 => mk::<C, Box<dyn Regex<C> + Send>, Val>(Box::new(p), idv),
                _ => mk::<C, Box<dyn Regex<C> + Send + Sync>, Val>(Box::new(p), idv),
            },
            "rcdynregex" => match st {
                0 => mk::<C, Rc<dyn Regex<C>>, Val>(Rc::new(p), idv),
                _ => mk::<C, Rc<dyn Regex<C> + Send>, Val>(Rc::new(p), idv),
            },
            "rc" => mk(Rc::new(p), idv),
            "arc" => mk(Arc::new(p), idv),
            "boxdyn" => match st {
                0 => mk::<C, BC<C>, Val>(Box::new(p), idv),
                1 => mk::<C, BCS<C>, Val>(Box::new(p), idv),
                _ => mk::<C, BCSS<C>, Val>(Box::new(p), idv),
            },
            "arcdyn" => match st {
                0 => mk::<C, AC<C>, Val>(Arc::new(p), idv),
                1 => mk::<C, ACS<C>, Val>(Arc::new(p), idv),
                _ => mk::<C, ACSS<C>, Val>(Arc::new(p), idv),
            },
            "rcdyn" => match st {
                0 => mk::<C, RC<C>, Val>(Rc::new(p), idv),
                _ => mk::<C, RCS<C>, Val>(Rc::new(p), idv),
            },
            "into_box" if st == 1 => mk(CA::r#box(p), idv),
            "into_box" if clone => mk(CA::r#box(p).into_inner().clone(), idv),
            "into_box" => mk(p.into_box(), idv),
            "into_rc" if st == 1 => mk(CA::rc(p), idv),
            "into_rc" if clone => mk(p.into_rc().clone(), idv),
            "into_rc" => mk(p.into_rc(), idv),
            "into_arc" if st == 1 => mk(CA::arc(p), idv),
            "into_arc" if clone => mk(p.into_arc().clone(), idv),
            "into_arc" => mk(p.into_arc(), idv),
            "into_dyn" => mk(p.into_dyn::<Val, Hd>(), idv),
            "into_dyn_arc" => mk(p.into_dyn_arc::<Val, Hd>(), idv),
            "into_dyn_rc" => mk(p.into_dyn_rc::<Val, Hd>(), idv),
            "dyn_box" => mk(CA::<C, BC<C>>::dyn_box(p), idv),
            "dyn_box_send" => mk(CA::<C, BCS<C>>::dyn_box_send(p), idv),
            "dyn_box_sync" => mk(CA::<C, BCSS<C>>::dyn_box_sync(p), idv),
            "dyn_arc" => mk(CA::<C, AC<C>>::dyn_arc(p), idv),
            "dyn_arc_send" => mk(CA::<C, ACS<C>>::dyn_arc_send(p), idv),
            "dyn_arc_sync" => mk(CA::<C, ACSS<C>>::dyn_arc_sync(p), idv),
            "dyn_rc" => mk(CA::<C, RC<C>>::dyn_rc(p), idv),
            "dyn_rc_send" => mk(CA::<C, RCS<C>>::dyn_rc_send(p), idv),
            _ => return wrap_core(w, p, st),
        };
        Some(r)
    }
    #[cfg(not(feature = "alloc"))]
    wrap_core(w, p, st)
}

fn wrap_core<C: Cx>(w: &str, p: Dyn<C>, st: usize) -> Option<Dyn<C>> {
    use std::cell::{Cell, RefCell};
    #[cfg(feature = "std")]
    match w {
        "rx_mutex" if st == 1 => return Some(mk(regex::Adapter::mutex(p), idv)),
        "rx_mutex" => return Some(mk(p.into_mutex_regex(), idv)),
        "mutex" => return Some(mk(std::sync::Mutex::new(p), idv)),
        "into_mutex" if st == 1 => return Some(mk(ctor::Adapter::mutex(p), idv)),
        "into_mutex" => return Some(mk(p.into_mutex(), idv)),
        "oncelock" => {
            let l = std::sync::OnceLock::new();
            let _ = l.set(p);
            return Some(mk(l, idv));
        }
        "once_unset" => return Some(mk(std::sync::OnceLock::<Dyn<C>>::new(), idv)),
        _ => {}
    }
    Some(match w {
        "rx_into_ctor" => match st {
            0 => mk(p.into_ctor(), idv),
            1 => mk(regex::Adapter::new(dummy::<C>()).with_inner(p), idv),
            _ => mk::<C, _, _>(regex::Adapter::from(p), idv),
        },
        "rx_cell" if st == 1 => mk(regex::Adapter::cell(p), idv),
        "rx_cell" => mk(p.into_cell_regex(), idv),
        "rx_refcell" if st == 1 => mk(regex::Adapter::refcell(p), idv),
        "rx_refcell" => mk(p.into_refcell_regex(), idv),
        "as_ctor" => {
            let r: &'static Dyn<C> = Box::leak(Box::new(p));
            mk(RegexRefAsCtor::<C>::as_ctor(r), idv)
        }
        "as_dyn_regex" => {
            let r: &'static Dyn<C> = Box::leak(Box::new(p));
            mk(RegexRefAsDynRegex::<C>::as_dyn_regex(r), idv)
        }
        "as_dyn_ctor" => {
            let r: &'static Dyn<C> = Box::leak(Box::new(p));
            mk(CtorRefAsDynCtor::<C, Val, Hd>::as_dyn_ctor(r), idv)
        }
        "fnregex" => mk(move |c: &mut C| p.try_parse(c), idv),
        "cell" => mk(Cell::new(p), idv),
        "refcell" => mk(RefCell::new(p), idv),
        "some" => mk(Some(p), idv),
        "none" => mk(None::<Dyn<C>>, idv),
        "into_cell" if st == 1 => mk(ctor::Adapter::cell(p), idv),
        "into_cell" => mk(p.into_cell(), idv),
        "into_refcell" if st == 1 => mk(ctor::Adapter::refcell(p), idv),
        "into_refcell" => mk(p.into_refcell(), idv),
        "func" => {
            let f = move |c: &mut C, h: &mut Hd| p.construct(c, h);
            let a = ctor::Adapter::<C, _>::func(f);
            match st {
                0 => mk(a, idv),
                1 => mk(a.into_inner(), idv),
                _ => mk(a.clone(), idv),
            }
        }
        "adapter" => match st {
            0 => mk(ctor::Adapter::new(p), idv),
            1 => mk(ctor::Adapter::new(dummy::<C>()).with_inner(p), idv),
            _ => {
                let mut a = ctor::Adapter::<C, _>::from(dummy::<C>());
                a.set_inner(p);
                mk(a, idv)
            }
        },
        #[cfg(not(feature = "std"))]
        _ if w.contains("mutex") || w.contains("once") => return None,
        #[cfg(not(feature = "alloc"))]
        _ if w.contains("box") || w.contains("rc") || w.contains("dyn") => return None,
        _ => panic!("wrapper {w}"),
    })
}
