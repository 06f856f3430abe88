//! Performs the histories emitted by NSession on the implementation.
use crate::cases::Pools;
use crate::dynp::*;
use crate::json::{J, ji};
use crate::mk::{B, Bx, PBx, PTx, Tx, pat};
use crate::mku::unit;
use crate::val::*;
use neure::ctor::Ctor;
use neure::ctx::{Assert, Context, CtxGuard, Match, MatchExt, MatchMulti, RegexCtx};
use neure::err::Error;
use neure::iter::IndexBySpan;
use neure::neu::{self, Between, EmptyCond, Many0, Neu, Prefix, PrefixSync};
use neure::span::{ArrayStorer, Span, VecStorer};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub const STYLES: usize = 4;

fn s(x: &str) -> J {
    J::Str(x.into())
}
fn arr(v: Vec<J>) -> J {
    J::Arr(v)
}
fn int(u: usize) -> J {
    J::Int(ji(u))
}
fn codes(v: &[i64]) -> J {
    arr(v.iter().map(|c| J::Int(*c)).collect())
}
fn oob() -> J {
    s("oob")
}
fn none() -> J {
    arr(vec![])
}
fn spanj(p: &Span) -> J {
    arr(vec![int(p.beg), int(p.len)])
}
fn spanv(p: &Span) -> J {
    arr(vec![s("s"), int(p.beg), int(p.len)])
}
fn logj() -> J {
    arr(take_log().iter().map(|e| e.j()).collect())
}
/// what a match returned; which error is not compared here
fn mret(r: &Result<Span, Error>) -> J {
    match r {
        Ok(p) => arr(vec![J::Bool(true), int(p.beg), int(p.len)]),
        Err(_) => arr(vec![J::Bool(false), J::Int(0), J::Int(0)]),
    }
}

/// Indexing by spans through what holds the data.
trait Sub {
    fn sub(&self, s: &Span) -> Option<Vec<i64>>;
}
impl Sub for &'static str {
    fn sub(&self, s: &Span) -> Option<Vec<i64>> {
        IndexBySpan::get_by_span(self, s).map(strc)
    }
}
impl Sub for Vec<u8> {
    fn sub(&self, s: &Span) -> Option<Vec<i64>> {
        let (v, w) = (self, self.as_slice());
        let r = IndexBySpan::get_by_span(&v, s).map(bytec);
        if r == IndexBySpan::get_by_span(&w, s).map(bytec) { r } else { None }
    }
}

/// What differs between the contexts.
pub trait Sx: Cx + MatchMulti<'static> + Clone + IndexBySpan {
    fn make(p: &mut Pools, cs: &[i64], pol: Option<&J>, st: usize) -> Option<Self>;
    fn oc(o: <Self as Context<'static>>::Orig<'static>) -> Vec<i64>;
    fn gc(o: &<Self as IndexBySpan>::Output) -> Vec<i64>;
    fn sub_owned(&self, b: usize, n: usize) -> Option<Vec<i64>>;
    fn restart(&mut self, st: usize);
    fn restart_with(&mut self, p: &mut Pools, cs: &[i64], st: usize);
    fn change_dat(&mut self, p: &mut Pools, cs: &[i64], st: usize);
    fn change_off(&mut self, o: usize, st: usize);
    /// searches that extract the text itself, reported as a span
    fn find_orig(&mut self, p: Dyn<Self>) -> Option<Span>;
    fn find_all_orig(&mut self, p: Dyn<Self>, n: usize, seq: bool) -> Vec<Span>;
    fn slice_vec(&self, t: &VecStorer, g: usize, i: usize, st: usize) -> Option<Vec<i64>>;
    fn slice_arr(&self, t: &dyn AStore, g: usize, i: usize, st: usize) -> Option<Vec<i64>>;
    fn iter_vec(&self, t: &VecStorer, g: usize, st: usize) -> Option<Sliced>;
    fn iter_arr(&self, t: &dyn AStore, g: usize, st: usize) -> Option<Sliced>;
    fn storer(&self, n: usize) -> VecStorer;
}

/// the slices an iterator yields, and what it said remains before each and at the end
#[derive(Debug)]
pub struct Sliced {
    v: Vec<Vec<i64>>,
    rem: Vec<usize>,
}

fn drain<T, I: ExactSizeIterator<Item = T>>(mut it: I, f: impl Fn(T) -> Vec<i64>) -> Sliced {
    let mut r = Sliced { v: vec![], rem: vec![] };
    loop {
        r.rem.push(it.len());
        match it.next() {
            Some(x) => r.v.push(f(x)),
            None => break,
        }
    }
    r
}

fn strc(x: &str) -> Vec<i64> {
    x.chars().map(|c| c as i64).collect()
}
fn bytec(x: &[u8]) -> Vec<i64> {
    x.iter().map(|c| *c as i64).collect()
}

pub trait AStore {
    fn clone_box(&self) -> Box<dyn AStore>;
    fn dims(&self) -> (usize, usize);
    fn set(&mut self, g: usize, i: usize, sp: Span);
    fn clr(&mut self, g: usize);
    fn rst(&mut self);
    fn contain(&self, g: usize) -> bool;
    fn span(&self, g: usize, i: usize) -> Option<Span>;
    fn spans(&self, g: usize) -> Option<Vec<Option<Span>>>;
    fn spans_iter(&self, g: usize) -> Option<Vec<Span>>;
    fn a22(&self) -> Option<&ArrayStorer<2, 2>> {
        None
    }
    fn a13(&self) -> Option<&ArrayStorer<1, 3>> {
        None
    }
    fn a22m(&mut self) -> Option<&mut ArrayStorer<2, 2>> {
        None
    }
    fn a13m(&mut self) -> Option<&mut ArrayStorer<1, 3>> {
        None
    }
}

macro_rules! astore {
    ($m:literal, $n:literal, $f:ident, $fm:ident) => {
        impl AStore for ArrayStorer<$m, $n> {
            fn clone_box(&self) -> Box<dyn AStore> {
                Box::new(self.clone())
            }
            fn dims(&self) -> (usize, usize) {
                assert!(self.len() == $m && !self.is_empty());
                ($m, $n)
            }
            fn set(&mut self, g: usize, i: usize, sp: Span) {
                self.set_span(g, i, sp);
            }
            fn clr(&mut self, g: usize) {
                self.clr_span(g);
            }
            fn rst(&mut self) {
                self.reset();
            }
            fn contain(&self, g: usize) -> bool {
                ArrayStorer::contain(self, g)
            }
            fn span(&self, g: usize, i: usize) -> Option<Span> {
                ArrayStorer::span(self, g, i).copied()
            }
            fn spans(&self, g: usize) -> Option<Vec<Option<Span>>> {
                ArrayStorer::spans(self, g).map(|v| v.to_vec())
            }
            fn spans_iter(&self, g: usize) -> Option<Vec<Span>> {
                ArrayStorer::spans_iter(self, g).map(|v| v.collect())
            }
            fn $f(&self) -> Option<&ArrayStorer<$m, $n>> {
                Some(self)
            }
            fn $fm(&mut self) -> Option<&mut ArrayStorer<$m, $n>> {
                Some(self)
            }
        }
    };
}
astore!(2, 2, a22, a22m);
astore!(1, 3, a13, a13m);

fn newa(v: &J, st: usize) -> Box<dyn AStore> {
    let opt = |x: &J| if x.arr().is_empty() { None } else { Some(Span::new(x.at(0).u(), x.at(1).u())) };
    let at = |g: usize, i: usize| opt(v.at(g).at(i));
    let mut r: Box<dyn AStore> = match (v.arr().len(), v.at(0).arr().len(), st) {
        (2, 2, 1) => {
            return Box::new(ArrayStorer::<2, 2>::new_with([[at(0, 0), at(0, 1)], [at(1, 0), at(1, 1)]]));
        }
        (1, 3, 1) => return Box::new(ArrayStorer::<1, 3>::new_with([[at(0, 0), at(0, 1), at(0, 2)]])),
        (2, 2, 0) => Box::new(ArrayStorer::<2, 2>::new()),
        (1, 3, 0) => Box::new(ArrayStorer::<1, 3>::new()),
        (2, 2, _) => Box::new(ArrayStorer::<2, 2>::default()),
        (1, 3, _) => Box::new(ArrayStorer::<1, 3>::default()),
        d => panic!("harness: array store {d:?}"),
    };
    for (g, ss) in v.arr().iter().enumerate() {
        for (i, x) in ss.arr().iter().enumerate() {
            if let Some(p) = opt(x) {
                r.set(g, i, p);
            }
        }
    }
    r
}

macro_rules! on_arr {
    ($t:expr, |$a:ident| $e:expr) => {
        if let Some($a) = $t.a22() {
            $e
        } else if let Some($a) = $t.a13() {
            $e
        } else {
            panic!("harness: array store")
        }
    };
}

macro_rules! sx {
    ($ty:ty, $orig:ty, $conv:ident, $pool:ident, $self_:ident, $dat:expr, $owned:expr,
     make: |$p:ident, $cs:ident, $pol:ident, $mst:ident| $make:expr,
     inner: |$x:ident| $inner:expr,
     set: |$y:ident, $v:ident, $sst:ident| $set:expr) => {
        impl Sx for $ty {
            fn make($p: &mut Pools, $cs: &[i64], $pol: Option<&J>, $mst: usize) -> Option<Self> {
                $make
            }
            fn oc(o: $orig) -> Vec<i64> {
                $conv(o)
            }
            fn gc(o: &<Self as IndexBySpan>::Output) -> Vec<i64> {
                $conv(o)
            }
            fn restart(&mut self, st: usize) {
                let $x = &mut *self;
                match st {
                    0 => {
                        ($inner).reset();
                    }
                    1 => {
                        self.set_offset(0);
                    }
                    _ => {
                        let d = ($inner).dat();
                        ($inner).reset_with(d);
                    }
                }
            }
            fn restart_with(&mut self, p: &mut Pools, cs: &[i64], st: usize) {
                let d = p.$pool(cs);
                if st == 0 {
                    let $x = &mut *self;
                    ($inner).reset_with(d);
                } else {
                    let $y = self;
                    let $v = RegexCtx::new(d);
                    let $sst = st;
                    $set
                }
            }
            fn change_dat(&mut self, p: &mut Pools, cs: &[i64], st: usize) {
                let d = p.$pool(cs);
                let n = {
                    let $x = &mut *self;
                    ($inner).with_dat(d)
                };
                let $y = self;
                let $v = n;
                let $sst = st;
                $set
            }
            fn change_off(&mut self, o: usize, st: usize) {
                let n = {
                    let $x = &mut *self;
                    ($inner).with_offset(o)
                };
                let $y = self;
                let $v = n;
                let $sst = st;
                $set
            }
            fn find_orig(&mut $self_, p: Dyn<Self>) -> Option<Span> {
                let base = $dat.as_ptr() as usize;
                let r: Option<$orig> = $self_.find(p);
                r.map(|x| Span::new(x.as_ptr() as usize - base, x.len()))
            }
            fn find_all_orig(&mut $self_, p: Dyn<Self>, n: usize, seq: bool) -> Vec<Span> {
                let base = $dat.as_ptr() as usize;
                let f = |x: $orig| Span::new(x.as_ptr() as usize - base, x.len());
                if seq {
                    $self_.match_seq::<$orig>(p).take(n).map(f).collect()
                } else {
                    $self_.find_all::<$orig>(p).take(n).map(f).collect()
                }
            }
            fn slice_vec(&$self_, t: &VecStorer, g: usize, i: usize, st: usize) -> Option<Vec<i64>> {
                match st {
                    0 => t.slice($self_, g, i).map($conv),
                    1 => t.slice($dat, g, i).map($conv),
                    3 => t.slice(&$dat, g, i).map($conv),
                    _ => t.slice(&$owned, g, i).map($conv),
                }
            }
            fn slice_arr(&$self_, t: &dyn AStore, g: usize, i: usize, st: usize) -> Option<Vec<i64>> {
                on_arr!(t, |t| match st {
                    0 => t.slice($self_, g, i).map($conv),
                    1 => t.slice($dat, g, i).map($conv),
                    3 => t.slice(&$dat, g, i).map($conv),
                    _ => t.slice(&$owned, g, i).map($conv),
                })
            }
            fn iter_vec(&$self_, t: &VecStorer, g: usize, st: usize) -> Option<Sliced> {
                match st {
                    0 => t.slice_iter($self_, g).map(|x| drain(x, $conv)),
                    1 => t.slice_iter($dat, g).map(|x| drain(x, $conv)),
                    3 => t.slice_iter(&$dat, g).map(|x| drain(x, $conv)),
                    _ => t.slice_iter(&$owned, g).map(|x| drain(x.clone(), $conv)),
                }
            }
            fn iter_arr(&$self_, t: &dyn AStore, g: usize, st: usize) -> Option<Sliced> {
                on_arr!(t, |t| match st {
                    0 => t.slice_iter($self_, g).map(|x| drain(x, $conv)),
                    1 => t.slice_iter($dat, g).map(|x| drain(x, $conv)),
                    3 => t.slice_iter(&$dat, g).map(|x| drain(x, $conv)),
                    _ => t.slice_iter(&$owned, g).map(|x| drain(x, $conv)),
                })
            }
            fn sub_owned(&$self_, b: usize, n: usize) -> Option<Vec<i64>> {
                $owned.sub(&Span::new(b, n))
            }
            fn storer(&self, n: usize) -> VecStorer {
                self.span_storer(n)
            }
        }
    };
}

sx!(Tx, &'static str, strc, text, self, self.dat(), self.dat(),
    make: |p, cs, _pol, _st| Some(RegexCtx::new(p.text(cs))),
    inner: |x| *x,
    set: |y, v, _st| *y = v);
sx!(Bx, &'static [u8], bytec, bytes, self, self.dat(), self.dat().to_vec(),
    make: |p, cs, _pol, _st| Some(RegexCtx::new(p.bytes(cs))),
    inner: |x| *x,
    set: |y, v, _st| *y = v);
sx!(PTx, &'static str, strc, text, self, self.inner().dat(), self.inner().dat(),
    make: |p, cs, pol, st| {
        let r = pat(pol?, &B { st: st.min(2), env: vec![] })?;
        let c = RegexCtx::new(p.text(cs));
        Some(if st == 0 { c.skip_before(r) } else { neure::ctx::PolicyCtx::new(c, r) })
    },
    inner: |x| *x.inner_mut(),
    set: |y, v, st| match st {
        0 => { y.set_inner(v); }
        1 => { y.reset_with(v); }
        _ => { *y = y.clone().with_inner(v); }
    });
sx!(PBx, &'static [u8], bytec, bytes, self, self.inner().dat(), self.inner().dat().to_vec(),
    make: |p, cs, pol, st| {
        let r = pat(pol?, &B { st: st.min(2), env: vec![] })?;
        let c = RegexCtx::new(p.bytes(cs));
        Some(if st == 0 { c.skip_before(r) } else { neure::ctx::PolicyCtx::new(c, r) })
    },
    inner: |x| *x.inner_mut(),
    set: |y, v, st| match st {
        0 => { y.set_inner(v); }
        1 => { y.reset_with(v); }
        _ => { *y = y.clone().with_inner(v); }
    });

fn peeks<I: Iterator<Item = (usize, T)>, T: ItemT>(r: Result<I, Error>) -> J {
    match r {
        Ok(it) => arr(it.map(|(o, c)| arr(vec![int(o), J::Int(c.code())])).collect()),
        Err(_) => oob(),
    }
}
fn view<C: Sx>(r: Result<<C as Context<'static>>::Orig<'static>, Error>) -> J {
    match r {
        Ok(x) => codes(&C::oc(x)),
        Err(_) => oob(),
    }
}

/// decides on an attempt during a search, as `Decide` of the model
fn decide<C: Sx>(f: &str, c: &mut C, r: Result<Span, Error>) -> Option<Span> {
    let hit = matches!(&r, Ok(p) if p.len > 0);
    match f {
        "seq" if !hit => {
            let n = c.len();
            c.set_offset(n);
            None
        }
        "empt" => match r {
            Ok(p) => {
                if p.len == 0 {
                    c.inc(1);
                }
                Some(p)
            }
            Err(_) => {
                c.inc(1);
                None
            }
        },
        "two" if !hit => {
            c.inc(2);
            None
        }
        _ if !hit => {
            c.inc(1);
            None
        }
        "over" => {
            let p = r.ok()?;
            c.set_offset(p.beg + 1);
            Some(p)
        }
        _ => r.ok(),
    }
}

struct Fail(J);

struct Run<'a, C: Sx> {
    p: &'a mut Pools,
    pats: &'a [Dyn<C>],
    steps: &'a [J],
    st: usize,
    obs: &'a str,
    vs: VecStorer,
    va: Option<Box<dyn AStore>>,
    begs: Vec<usize>,
}

impl<C: Sx> Run<'_, C>
where
    <C as Context<'static>>::Item: ItemT,
{
    fn bad(&self, i: usize, what: &str, want: &J, got: J) -> Fail {
        Fail(J::Obj(vec![
            ("step".into(), J::Int(i as i64 + 1)),
            ("what".into(), s(what)),
            ("required".into(), want.clone()),
            ("observed".into(), got),
        ]))
    }

    fn same(&self, i: usize, what: &str, want: &J, got: J) -> Result<(), Fail> {
        if *want == got { Ok(()) } else { Err(self.bad(i, what, want, got)) }
    }

    fn pat(&self, j: &J) -> Dyn<C> {
        self.pats[j.u() - 1]
    }

    /// an operation that needs no guard; None: it is a guard operation
    fn op(&mut self, x: &mut C, o: &J) -> Option<J> {
        let st = self.st;
        reset_log();
        Some(match o.at(0).s() {
            "set" | "sset" => {
                x.set_offset(o.at(1).u());
                none()
            }
            "inc" => {
                x.inc(o.at(1).u());
                none()
            }
            "dec" => {
                x.dec(o.at(1).u());
                none()
            }
            "reset" => {
                x.restart(st);
                none()
            }
            "resetw" => {
                x.restart_with(self.p, &o.at(1).ints(), st);
                none()
            }
            "withdat" => {
                x.change_dat(self.p, &o.at(1).ints(), st);
                none()
            }
            "withoff" => {
                x.change_off(o.at(1).u(), st);
                none()
            }
            "peek" => peeks(x.peek()),
            "peekat" => peeks(x.peek_at(o.at(1).u())),
            "orig" => view::<C>(x.orig()),
            "origat" => view::<C>(x.orig_at(o.at(1).u())),
            "origsub" => {
                let (b, n) = (o.at(1).u(), o.at(2).u());
                match st {
                    0 => view::<C>(x.orig_sub(b, n)),
                    1 => view::<C>(Span::new(b, n).orig(x)),
                    3 => x.sub_owned(b, n).map_or(oob(), |v| codes(&v)),
                    _ => x.get_by_span(&Span::new(b, n)).map_or(oob(), |v| codes(&C::gc(v))),
                }
            }
            "clone" => {
                let mut y = x.clone();
                let r = y.try_mat(&self.pat(o.at(1)));
                arr(vec![mret(&r), int(y.offset()), view::<C>(y.orig_at(0))])
            }
            "cloneat" => match x.clone_at(o.at(1).u()) {
                Ok(mut y) => {
                    let r = y.try_mat(&self.pat(o.at(2)));
                    arr(vec![mret(&r), int(y.offset()), view::<C>(y.orig_at(0))])
                }
                Err(_) => oob(),
            },
            "mat" => mret(&x.try_mat(&self.pat(o.at(1)))),
            "ismat" => J::Bool(x.is_mat(&self.pat(o.at(1)))),
            "assert" => {
                let p = self.pat(o.at(1));
                J::Bool(if st == 0 { x.assert(&p) } else { x.try_assert(&p).unwrap_or(false) })
            }
            "con" => {
                let p = self.pat(o.at(1));
                let mut h = Hd::new("ok", 0);
                let r = if st == 0 { p.construct(x, &mut h) } else { x.ctor_handler(&p, h) };
                match r {
                    Ok(v) => arr(vec![J::Bool(true), v.j(), logj()]),
                    Err(_) => arr(vec![J::Bool(false), none(), logj()]),
                }
            }
            "find" => {
                let p = self.pat(o.at(1));
                let r = if st == 1 { x.find_orig(p) } else { x.find::<Span>(p) };
                arr(r.iter().map(spanv).collect())
            }
            "findall" => {
                let p = self.pat(o.at(1));
                let n = o.at(2).u();
                let r: Vec<Span> = match st {
                    1 => x.find_all_orig(p, n, false),
                    _ => x.find_all::<Span>(p).take(n).collect(),
                };
                arr(r.iter().map(spanv).collect())
            }
            "seq" => {
                let p = self.pat(o.at(1));
                let n = o.at(2).u();
                let r: Vec<Span> = match st {
                    1 => x.find_all_orig(p, n, true),
                    _ => x.match_seq::<Span>(p).take(n).collect(),
                };
                arr(r.iter().map(spanv).collect())
            }
            "findw" => {
                let p = self.pat(o.at(1));
                let f = o.at(2).s();
                let h = Hd::new(o.at(3).get("t").s(), o.at(3).get("k").i());
                let r: Option<Val> = x.find_with(p, |c: &mut C, r| decide(f, c, r), h);
                arr(vec![arr(r.iter().map(|v| v.j()).collect()), logj()])
            }
            "findallw" => {
                let p = self.pat(o.at(1));
                let f = o.at(2).s();
                let h = Hd::new(o.at(3).get("t").s(), o.at(3).get("k").i());
                let n = o.at(4).u();
                let r: Vec<Val> = x.find_all_with(p, |c: &mut C, r| decide(f, c, r), h).take(n).collect();
                arr(vec![arr(r.iter().map(|v| v.j()).collect()), logj()])
            }
            "add" => {
                self.vs.add_span(o.at(1).u() - 1, Span::new(o.at(2).u(), o.at(3).u()));
                none()
            }
            "clr" => {
                self.vs.clr_span(o.at(1).u() - 1);
                none()
            }
            "rst" => {
                self.vs.reset();
                none()
            }
            "cap" => {
                let p = self.pat(o.at(2));
                if st == 2 {
                    // a clone of the store is independent of the store
                    let keep = self.vs.clone();
                    let mut other = self.vs.clone();
                    let mut y = x.clone();
                    let _ = other.try_cap(o.at(1).u() - 1, &mut y, &p);
                    self.vs = keep;
                    reset_log();
                }
                mret(&self.vs.try_cap(o.at(1).u() - 1, x, &p))
            }
            "resize" => {
                let v = std::mem::take(&mut self.vs);
                self.vs = v.with_capacity(o.at(1).u());
                none()
            }
            "aset" => {
                let a = self.va.as_mut().expect("harness: store");
                a.set(o.at(1).u() - 1, o.at(2).u() - 1, Span::new(o.at(3).u(), o.at(4).u()));
                none()
            }
            "aclr" => {
                self.va.as_mut().expect("harness: store").clr(o.at(1).u() - 1);
                none()
            }
            "arst" => {
                self.va.as_mut().expect("harness: store").rst();
                none()
            }
            "acap" => {
                let p = self.pat(o.at(3));
                let (g, i) = (o.at(1).u() - 1, o.at(2).u() - 1);
                let a = self.va.as_mut().expect("harness: store");
                if st == 2 {
                    *a = a.clone_box();
                }
                let r = if let Some(a) = a.a22m() {
                    a.try_cap(g, i, x, &p)
                } else {
                    a.a13m().expect("harness: store").try_cap(g, i, x, &p)
                };
                mret(&r)
            }
            _ => return None,
        })
    }

    /// expected return, with the parts that are not compared removed
    fn strip(o: &J, want: &J) -> J {
        let m = |w: &J| arr(w.arr()[..3].to_vec());
        match o.at(0).s() {
            "mat" | "cap" | "acap" | "gmat" | "con" => m(want),
            "clone" | "cloneat" if matches!(want, J::Arr(_)) => {
                arr(vec![m(want.at(0)), want.at(1).clone(), want.at(2).clone()])
            }
            _ => want.clone(),
        }
    }

    fn obs1(&self, i: usize, x: &C) -> Result<(), Fail> {
        let w = self.steps[i].at(2);
        match self.obs {
            "cur" => {
                let b = arr(self.begs.iter().map(|b| int(*b)).collect());
                self.same(i, "offset, length, guards", w, arr(vec![int(x.offset()), int(x.len()), b]))?;
                self.same(i, "is_empty", &J::Bool(w.at(1).i() == 0), J::Bool(x.is_empty()))
            }
            "store" => {
                self.same(i, "offset", w.at(0), int(x.offset()))?;
                self.obs_store(i, x, w.at(1), false)?;
                if self.va.is_some() { self.obs_store(i, x, w.at(2), true) } else { Ok(()) }
            }
            _ => Ok(()),
        }
    }

    fn obs_store(&self, i: usize, x: &C, want: &J, array: bool) -> Result<(), Fail> {
        let a = self.va.as_deref();
        let (v, st) = (&self.vs, self.st);
        let cnt = want.arr().len() - 1;
        let n = if array { a.unwrap().dims().0 } else { v.len() };
        self.same(i, "groups", &J::Int(cnt as i64), int(n))?;
        if !array {
            self.same(i, "is_empty", &J::Bool(cnt == 0), J::Bool(v.is_empty()))?;
        }
        for (g, w) in want.arr().iter().enumerate() {
            let c = if array { a.unwrap().contain(g) } else { v.contain(g) };
            self.same(i, &format!("contain({g})"), w.at(0), J::Bool(c))?;
            let full = w.at(2);
            let slots = w.at(1).arr();
            for k in 0..slots.len() + 2 {
                let sp = if array { a.unwrap().span(g, k) } else { v.span(g, k).copied() };
                let want = slots.get(k).cloned().unwrap_or(none());
                self.same(i, &format!("span({g},{k})"), &want, sp.as_ref().map_or(none(), spanj))?;
                let sl = if array { x.slice_arr(a.unwrap(), g, k, st) } else { x.slice_vec(v, g, k, st) };
                let want = w.at(3).arr().get(k).cloned().unwrap_or(oob());
                self.same(i, &format!("slice({g},{k})"), &want, sl.map_or(oob(), |c| codes(&c)))?;
            }
            let (all, it) = if array {
                let all = a.unwrap().spans(g);
                if let Some(v) = &all {
                    let got = arr(v.iter().map(|o| o.as_ref().map_or(none(), spanj)).collect());
                    self.same(i, &format!("spans({g})"), w.at(1), got)?;
                }
                (all.map(|v| v.into_iter().flatten().collect()), a.unwrap().spans_iter(g))
            } else {
                (v.spans(g).cloned(), v.spans_iter(g).map(|x| x.collect::<Vec<_>>()))
            };
            for (what, r) in [("spans", all), ("spans_iter", it)] {
                let some = r.is_some();
                let got = arr(r.unwrap_or_default().iter().map(spanj).collect());
                self.same(i, &format!("{what}({g})"), full, got)?;
                self.same(i, &format!("{what}({g}) present"), w.at(0), J::Bool(some))?;
            }
            let sl = if array { x.iter_arr(a.unwrap(), g, st) } else { x.iter_vec(v, g, st) };
            self.same(i, &format!("slice_iter({g}) present"), w.at(0), J::Bool(sl.is_some()))?;
            if let Some(sl) = sl {
                // up to the first span that is not within the text
                let all: Vec<J> = w.at(4).arr().to_vec();
                let good = all.iter().take_while(|x| matches!(x, J::Arr(_))).count();
                let got: Vec<J> = sl.v.iter().map(|c| codes(c)).collect();
                if got.len() < good || got[..good] != all[..good] || (good == all.len() && got.len() > good) {
                    return Err(self.bad(i, &format!("slice_iter({g})"), w.at(4), arr(got)));
                }
                for k in 0..=good {
                    self.same(i, &format!("slice_iter({g}) remaining"), &int(all.len() - k), int(sl.rem[k]))?;
                }
            }
        }
        Ok(())
    }

    fn ret(&self, i: usize, got: J) -> Result<(), Fail> {
        let e = &self.steps[i];
        let o = if e.at(0).at(0).s() == "on" { e.at(0).at(2) } else { e.at(0) };
        self.same(i, "returned", &Self::strip(o, e.at(1)), got)
    }

    /// steps from i on a context; stops after the last
    fn on_ctx(&mut self, x: &mut C, mut i: usize) -> Result<usize, Fail> {
        while i < self.steps.len() {
            let o = self.steps[i].at(0).clone();
            if o.at(0).s() == "gnew" {
                i = self.guarded(x, i)?;
            } else {
                let r = self.op(x, &o).unwrap_or_else(|| panic!("harness: operation {}", o.show()));
                self.ret(i, r)?;
                self.obs1(i, x)?;
                i += 1;
            }
        }
        Ok(i)
    }

    fn gobs(&self, i: usize, g: &mut CtxGuard<'_, 'static, C>) -> Result<(), Fail> {
        let b = g.beg();
        self.same(i, "guard begin", &int(*self.begs.last().unwrap()), int(b))?;
        let w = self.steps[i].at(2);
        self.same(i, "guard end, length", &arr(vec![w.at(0).clone(), w.at(1).clone()]), arr(vec![int(g.end()), int(g.len())]))?;
        self.same(i, "guard is_empty", &J::Bool(w.at(1).i() == 0), J::Bool(g.is_empty()))?;
        self.obs1(i, g.ctx())
    }

    /// step i creates a guard; runs until it is released or the history ends
    fn guarded(&mut self, x: &mut C, mut i: usize) -> Result<usize, Fail> {
        let mut dropped = false;
        {
            let mut g = CtxGuard::new(x);
            self.begs.push(g.beg());
            self.ret(i, none())?;
            self.gobs(i, &mut g)?;
            i += 1;
            while i < self.steps.len() {
                let o = self.steps[i].at(0).clone();
                let r = match o.at(0).s() {
                    "gnew" => {
                        i = self.guarded(g.ctx(), i)?;
                        continue;
                    }
                    "gdrop" => {
                        dropped = true;
                        break;
                    }
                    "ginc" => spanj(&g.inc(o.at(1).u())),
                    "greset" => {
                        g.reset();
                        none()
                    }
                    "gok" => J::Bool(g.process_ret(Ok::<i32, Error>(5)).is_ok_and(|x| x == 5)),
                    "gerr" => J::Bool(!matches!(g.process_ret(Err::<i32, Error>(Error::Uid(3))), Err(Error::Uid(3)))),
                    "gmat" => {
                        reset_log();
                        let p = self.pat(o.at(1));
                        mret(&g.try_mat(&p))
                    }
                    "gpeek" => peeks(g.peek()),
                    "gpeekat" => peeks(g.peek_at(o.at(1).u())),
                    _ => self.op(g.ctx(), &o).unwrap_or_else(|| panic!("harness: operation {}", o.show())),
                };
                self.ret(i, r)?;
                self.gobs(i, &mut g)?;
                i += 1;
            }
        }
        self.begs.pop();
        if dropped {
            self.ret(i, none())?;
            self.obs1(i, x)?;
            i += 1;
        }
        Ok(i)
    }

    /// several contexts, one set of patterns
    fn on_many(&mut self, xs: &mut [C]) -> Result<(), Fail> {
        for i in 0..self.steps.len() {
            let o = self.steps[i].at(0).clone();
            let r = self.op(&mut xs[o.at(1).u() - 1], o.at(2)).expect("harness: operation");
            self.ret(i, r)?;
            let got = arr(xs.iter().map(|x| int(x.offset())).collect());
            self.same(i, "offsets", self.steps[i].at(2), got)?;
        }
        Ok(())
    }
}

/// A group of histories with its patterns and units.
pub struct Grp {
    ps: J,
    us: J,
    t: HashMap<usize, Option<Vec<Dyn<Tx>>>>,
    b: HashMap<usize, Option<Vec<Dyn<Bx>>>>,
    pt: HashMap<usize, Option<Vec<Dyn<PTx>>>>,
    pb: HashMap<usize, Option<Vec<Dyn<PBx>>>>,
}

fn pats<C: Cx>(m: &mut HashMap<usize, Option<Vec<Dyn<C>>>>, ps: &J, st: usize) -> Option<Vec<Dyn<C>>> {
    m.entry(st)
        .or_insert_with(|| ps.arr().iter().map(|p| pat(p, &B { st, env: vec![] })).collect())
        .clone()
}

impl Grp {
    pub fn new(ps: J, us: J) -> Grp {
        Grp { ps, us, t: HashMap::new(), b: HashMap::new(), pt: HashMap::new(), pb: HashMap::new() }
    }

    pub fn line(&self, g: &J) -> J {
        arr(vec![s("G"), g.clone(), self.ps.clone(), self.us.clone()])
    }

    /// the line ["S", group, obs, init, steps, final]
    pub fn run(&mut self, l: &J, p: &mut Pools, st: usize) -> Option<Result<(), J>> {
        if !self.us.arr().is_empty() {
            return Some(units(&self.us, l, st));
        }
        let c = l.at(3).get("c").at(0);
        let k = (c.get("k").s(), c.get("pol").arr().is_empty());
        match k {
            ("t", true) => history(l, &pats(&mut self.t, &self.ps, st)?, p, st),
            ("t", false) => history(l, &pats(&mut self.pt, &self.ps, st)?, p, st),
            (_, true) => history(l, &pats(&mut self.b, &self.ps, st)?, p, st),
            (_, false) => history(l, &pats(&mut self.pb, &self.ps, st)?, p, st),
        }
    }
}

fn history<C: Sx>(l: &J, ps: &[Dyn<C>], p: &mut Pools, st: usize) -> Option<Result<(), J>>
where
    <C as Context<'static>>::Item: ItemT,
{
    let init = l.at(3);
    let mut xs = vec![];
    for c in init.get("c").arr() {
        let mut x = C::make(p, &c.get("cs").ints(), c.get("pol").arr().first(), st)?;
        x.set_offset(c.get("off").u());
        xs.push(x);
    }
    let v = init.get("vs");
    let sp = |x: &J| Span::new(x.at(0).u(), x.at(1).u());
    let vs = if st == 1 {
        VecStorer::new_with(v.arr().iter().map(|g| g.arr().iter().map(sp).collect()).collect())
    } else {
        let n = v.arr().len();
        let mut r = if st == 0 { VecStorer::new(n) } else { xs[0].storer(n) };
        for (g, ss) in v.arr().iter().enumerate() {
            for x in ss.arr() {
                r.add_span(g, sp(x));
            }
        }
        r
    };
    let va = if init.get("as").arr().is_empty() { None } else { Some(newa(init.get("as"), st)) };
    let mut r = Run { p, pats: ps, steps: l.at(4).arr(), st, obs: l.at(2).s(), vs, va, begs: vec![] };
    let out = if r.obs == "curs" {
        r.on_many(&mut xs)
    } else {
        let x = &mut xs[0];
        match r.on_ctx(x, 0) {
            Ok(_) => r.same(r.steps.len(), "offset after releasing every guard", l.at(5), int(x.offset())),
            Err(e) => Err(e),
        }
    };
    Some(out.map_err(|f| f.0))
}

/// prefix-guarded units, single-threaded and thread-safe
trait PInst {
    fn test(&self, c: char) -> bool;
    fn fork(&self) -> Box<dyn PInst>;
    fn run(&self, t: &'static str, upto2: bool) -> Result<Span, Error>;
}
type Up<'a> = Prefix<DynU<char>, DynU<char>, char>;
type Us<'a> = PrefixSync<DynU<char>, DynU<char>, char>;
impl PInst for Rc<Up<'_>> {
    fn test(&self, c: char) -> bool {
        (**self).is_match(&c)
    }
    fn fork(&self) -> Box<dyn PInst> {
        Box::new(Rc::new((**self).clone()))
    }
    fn run(&self, t: &'static str, upto2: bool) -> Result<Span, Error> {
        let mut x: Tx = RegexCtx::new(t);
        if upto2 {
            x.try_mat(&Between::<0, 2, _, _, _>::new(self.clone(), EmptyCond))
        } else {
            x.try_mat(&Many0::new(self.clone(), EmptyCond))
        }
    }
}
impl PInst for Arc<Us<'_>> {
    fn test(&self, c: char) -> bool {
        (**self).is_match(&c)
    }
    fn fork(&self) -> Box<dyn PInst> {
        Box::new(Arc::new((**self).clone()))
    }
    fn run(&self, t: &'static str, upto2: bool) -> Result<Span, Error> {
        let mut x: Tx = RegexCtx::new(t);
        if upto2 {
            x.try_mat(&Between::<0, 2, _, _, _>::new(self.clone(), EmptyCond))
        } else {
            x.try_mat(&Many0::new(self.clone(), EmptyCond))
        }
    }
}

fn units(us: &J, l: &J, st: usize) -> Result<(), J> {
    // st 0, 1: single-threaded; 2: thread-safe (3 of every kind through the functions)
    let mk = |u: &J, sync: bool| -> Box<dyn PInst> {
        let p = unit::<char>(u.at(0), st).expect("harness: unit");
        let b = unit::<char>(u.at(2), st).expect("harness: unit");
        let n = u.at(1).u();
        match (sync, st) {
            (false, 0) => Box::new(Rc::new(Up::new(p, n, b))),
            (false, 1) if n == 1 => Box::new(Rc::new(neu::prefix(p, b))),
            (false, 1) => Box::new(Rc::new(neu::prefix_cnt(p, n, b))),
            (false, 3) => {
                let mut x = Up::default();
                *x.prefix_mut() = p;
                *x.unit_mut() = b;
                Box::new(Rc::new(Up::new(*x.prefix(), n, *x.unit())))
            }
            (true, 3) => {
                let mut x = Us::default();
                x.set_prefix(p).set_unit(b);
                Box::new(Arc::new(Us::new(*x.prefix(), n, *x.unit())))
            }
            (false, _) => {
                let mut x = Up::new(dummyu(), n, dummyu());
                x.set_prefix(p).set_unit(b);
                Box::new(Rc::new(x))
            }
            (true, 0) => Box::new(Arc::new(Us::new(p, n, b))),
            (true, 1) if n == 1 => Box::new(Arc::new(neu::prefix_sync(p, b))),
            (true, 1) => Box::new(Arc::new(neu::prefix_sync_cnt(p, n, b))),
            (true, _) => {
                let mut x = Us::new(dummyu(), n, dummyu());
                *x.prefix_mut() = p;
                *x.unit_mut() = b;
                Box::new(Arc::new(x))
            }
        }
    };
    for sync in [false, true] {
        let mut us: Vec<Vec<Box<dyn PInst>>> = us.arr().iter().map(|u| vec![mk(u, sync)]).collect();
        for (i, e) in l.at(4).arr().iter().enumerate() {
            let o = e.at(0);
            let x = &mut us[o.at(1).u() - 1];
            let k = o.at(2).u() - 1;
            let txt = || -> &'static str { Box::leak(crate::mk::chars_of(&o.at(3).ints()).into_boxed_str()) };
            let got = match o.at(0).s() {
                "test" => J::Bool(x[k].test(char::of(o.at(3).i()))),
                "fork" => {
                    let f = x[k].fork();
                    x.push(f);
                    none()
                }
                m => match x[k].run(txt(), m == "upto2") {
                    Ok(sp) if sp.beg == 0 => int(sp.len),
                    r => s(&format!("{r:?}")),
                },
            };
            if got != *e.at(1) {
                return Err(J::Obj(vec![
                    ("step".into(), J::Int(i as i64 + 1)),
                    ("variant".into(), s(if sync { "thread-safe" } else { "single-threaded" })),
                    ("required".into(), e.at(1).clone()),
                    ("observed".into(), got),
                ]));
            }
        }
    }
    Ok(())
}
