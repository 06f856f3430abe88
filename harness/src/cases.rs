//! Replays the cases emitted by NCases on the implementation.
use crate::dynp::*;
use crate::json::{self, J, ji};
use crate::mk::{B, Bx, PBx, PTx, STYLES, Tx, blanks, bytes_of, chars_of, pat};
use crate::val::*;
use neure::ctx::{Assert, Context, MatchExt, PolicyCtx, RegexCtx};
use neure::neu::{AsciiWhiteSpace, Many0, WhiteSpace};
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Expected or observed outcome of one operation.
#[derive(Debug, Clone, PartialEq)]
pub struct Out {
    pub ok: bool,
    pub off: i64,
    pub b: i64,
    pub n: i64,
    pub v: J,
    pub h: J,
    pub e: String,
}

impl Out {
    pub fn j(&self) -> J {
        J::Arr(vec![
            J::Bool(self.ok),
            J::Int(self.off),
            J::Int(self.b),
            J::Int(self.n),
            self.v.clone(),
            self.h.clone(),
            J::Str(self.e.clone()),
        ])
    }
    pub fn of(j: &J) -> Out {
        Out {
            ok: j.at(0).b(),
            off: j.at(1).i(),
            b: j.at(2).i(),
            n: j.at(3).i(),
            v: j.at(4).clone(),
            h: j.at(5).clone(),
            e: j.at(6).s().to_string(),
        }
    }
    /// does `self` (expected) admit `o` (observed)?
    pub fn admits(&self, o: &Out) -> bool {
        self.ok == o.ok
            && self.off == o.off
            && self.b == o.b
            && self.n == o.n
            && self.v == o.v
            && self.h == o.h
            && (self.e == "*" || self.e == o.e)
    }
}

pub struct Case<'a> {
    pub k: &'a str,
    pub cs: Vec<i64>,
    pub pol: &'a J,
    pub ht: &'a str,
    pub hk: i64,
    pub off: usize,
    pub op: &'a str,
    pub arg: &'a J,
}

fn logj() -> J {
    J::Arr(take_log().iter().map(|e| e.j()).collect())
}

fn nov() -> J {
    J::Arr(vec![])
}

fn err_out(off: usize, e: &Error) -> Out {
    Out { ok: false, off: ji(off), b: 0, n: 0, v: nov(), h: logj(), e: err_name(e) }
}

fn span_out(off: usize, r: Result<Span, Error>) -> Out {
    match r {
        Ok(s) => Out {
            ok: true,
            off: ji(off),
            b: ji(s.beg),
            n: ji(s.len),
            v: nov(),
            h: logj(),
            e: String::new(),
        },
        Err(e) => err_out(off, &e),
    }
}

fn val_out(off: usize, r: Result<Val, Error>) -> Out {
    match r {
        Ok(v) => Out {
            ok: true,
            off: ji(off),
            b: 0,
            n: 0,
            v: v.j(),
            h: logj(),
            e: String::new(),
        },
        Err(e) => err_out(off, &e),
    }
}

/// Extracts the piece that was reported by `o` again, in every other way.
fn pieces<C: Cx>(x: &mut C, p: &Dyn<C>, c: &Case, o: &mut Out) {
    let text = (c.k == "t").then(|| chars_of(&c.cs));
    let bytes = text.clone().map_or_else(|| bytes_of(&c.cs), String::into_bytes);
    // a piece that is not part of the input can't be extracted
    let (b, n) = if o.ok { (o.v.at(1).u(), o.v.at(2).u()) } else { (0, 0) };
    let part = match &text {
        Some(t) => t.get(b..b.saturating_add(n)).is_some(),
        None => bytes.get(b..b.saturating_add(n)).is_some(),
    };
    for k in 0..5 {
        x.set_offset(c.off);
        let Some(r) = x.piece(p, k) else { continue };
        reset_log();
        let good = match &r {
            Ok(r) => {
                o.ok && match r {
                    Piece::At(x, y) => (*x, *y) == (b, n),
                    Piece::Own(v) => part && bytes.get(b..b + n) == Some(v),
                    Piece::Nothing => true,
                }
            }
            Err(e) => err_name(e) == if o.ok && !part { "OutOfBound" } else { &o.e } && (!o.ok || !part),
        };
        if !good || ji(x.offset()) != o.off {
            o.ok = false;
            o.off = ji(x.offset());
            o.e = format!("handler {k}: {r:?}").replace(['"', '\\', '\n'], " ");
            return;
        }
    }
}

/// One operation on a context placed at `c.off`.
/// (`build` makes the explicit policies of `c.arg`).
pub fn operate<C: Cx>(
    mut x: C,
    p: Dyn<C>,
    build: impl Fn(&J) -> Option<Dyn<C>>,
    st: usize,
    c: &Case,
) -> Option<Out> {
    x.set_offset(c.off);
    let hd = Hd::new(c.ht, c.hk);
    reset_log();
    Some(match c.op {
        "mat" => {
            if st == 1 {
                // is_mat reports success only; then repeat on the same context
                let ok = x.is_mat(&p);
                let (off, h) = (x.offset(), logj());
                reset_log();
                x.set_offset(c.off);
                let r = x.try_mat(&p);
                let o = span_out(x.offset(), r);
                if ok != o.ok || ji(off) != o.off || h != o.h {
                    return Some(Out { e: format!("is_mat {ok} {off} {}", h.show()), ..o });
                }
                o
            } else {
                let r = x.try_mat(&p);
                span_out(x.offset(), r)
            }
        }
        "con" => match st {
            0 => {
                let mut hd = hd;
                let r = neure::ctor::Ctor::construct(&p, &mut x, &mut hd);
                val_out(x.offset(), r)
            }
            _ => {
                let r = x.ctor_handler(&p, hd);
                val_out(x.offset(), r)
            }
        },
        "raw" => {
            if st == 1 {
                let ok = p.parse(&mut x);
                let (off, h) = (x.offset(), logj());
                reset_log();
                x.set_offset(c.off);
                let r = p.try_parse(&mut x);
                let o = span_out(x.offset(), r);
                if ok != o.ok || ji(off) != o.off || h != o.h {
                    return Some(Out { e: format!("parse {ok} {off} {}", h.show()), ..o });
                }
                o
            } else {
                let r = p.try_parse(&mut x);
                span_out(x.offset(), r)
            }
        }
        "leaf" => match st {
            0 => {
                let r = x.map_handler(&p, hd);
                val_out(x.offset(), r)
            }
            3 => {
                let r = x.map_handler(&p, hd);
                let mut o = val_out(x.offset(), r);
                if c.ht == "ok" {
                    pieces(&mut x, &p, c, &mut o);
                }
                o
            }
            1 => {
                let mut hd = hd;
                let r = x.map_with(&p, |c: &C, s: &Span| {
                    neure::ctor::Handler::<C>::invoke(&mut hd, c, s)
                });
                val_out(x.offset(), r)
            }
            _ => {
                if c.ht != "ok" {
                    return None;
                }
                let r = x.map_span(&p, |s: Span| Ok(Val::S(s.beg, s.len)));
                // the mapper does not see the context: log what the handler would
                if let Ok(Val::S(b, n)) = &r {
                    log(Ev::H(*b, *n, x.offset()));
                }
                val_out(x.offset(), r)
            }
        },
        "assert" => {
            let r = match st {
                0 | 2 => x.try_assert(&p).unwrap_or(false),
                _ => x.assert(&p),
            };
            Out {
                ok: r,
                off: ji(x.offset()),
                b: 0,
                n: 0,
                v: nov(),
                h: logj(),
                e: String::new(),
            }
        }
        "pol" => {
            let bf = build(c.arg.at(0))?;
            let af = build(c.arg.at(1))?;
            let be = c.arg.at(0).get("t").s() == "empty";
            let ae = c.arg.at(1).get("t").s() == "empty";
            let r = match st {
                1 if be && !ae => x.try_mat_after(&p, &af),
                1 if ae && !be => x.try_mat_before(&p, &bf),
                _ => x.try_mat_policy(&p, &bf, &af),
            };
            span_out(x.offset(), r)
        }
        o => panic!("operation {o}"),
    })
}

/// A pattern built for every context type and style.
pub struct Built {
    pub j: J,
    t: [Option<Option<Dyn<Tx>>>; STYLES],
    b: [Option<Option<Dyn<Bx>>>; STYLES],
    pt: [Option<Option<Dyn<PTx>>>; STYLES],
    pb: [Option<Option<Dyn<PBx>>>; STYLES],
}

fn env<C: Cx>(st: usize) -> B<C> {
    B { st, env: vec![] }
}

impl Built {
    pub fn new(j: J) -> Self {
        Built {
            j,
            t: [const { None }; STYLES],
            b: [const { None }; STYLES],
            pt: [const { None }; STYLES],
            pb: [const { None }; STYLES],
        }
    }
}

/// Inputs and policies are shared between cases.
#[derive(Default)]
pub struct Pools {
    text: HashMap<Vec<i64>, &'static str>,
    bytes: HashMap<Vec<i64>, &'static [u8]>,
    pt: HashMap<String, Option<Dyn<Tx>>>,
    pb: HashMap<String, Option<Dyn<Bx>>>,
}

impl Pools {
    pub fn text(&mut self, cs: &[i64]) -> &'static str {
        self.text
            .entry(cs.to_vec())
            .or_insert_with(|| Box::leak(chars_of(cs).into_boxed_str()))
    }
    pub fn bytes(&mut self, cs: &[i64]) -> &'static [u8] {
        self.bytes
            .entry(cs.to_vec())
            .or_insert_with(|| Box::leak(bytes_of(cs).into_boxed_slice()))
    }
}

/// Contexts that skip blanks on their own account: `skip_whitespace` and
/// `skip_ascii_whitespace`.
type WTx = PolicyCtx<Tx, Many0<Tx, WhiteSpace, char>>;
type ATx = PolicyCtx<Tx, Many0<Tx, AsciiWhiteSpace<char>, char>>;
type ABx = PolicyCtx<Bx, Many0<Bx, AsciiWhiteSpace<u8>, u8>>;

/// A pattern without parts, handed to such a context.
struct Leaf<C: 'static>(Dyn<C>);

macro_rules! blank_ctx {
    ($($t:ty, $i:ty);*) => {$(
        impl PObj<$t> for Leaf<$i> {
            fn rx(&self, c: &mut $t) -> Result<Span, Error> {
                self.0.try_parse(c.inner_mut())
            }
            fn cx(&self, c: &mut $t, h: &mut Hd) -> Result<Val, Error> {
                // what a pattern without parts does
                c.map_with(self, |c: &$t, s: &Span| neure::ctor::Handler::<$t>::invoke(h, c, s))
            }
        }
        impl Regex<$t> for Leaf<$i> {
            fn try_parse(&self, c: &mut $t) -> Result<Span, Error> {
                self.rx(c)
            }
        }
        impl Cx for $t {
            fn lit(_: &[i64], _: &str, _: usize) -> Option<Dyn<Self>> {
                None
            }
            fn not_lit(_: &[i64]) -> Option<Dyn<Self>> {
                None
            }
            fn blank(_: Dyn<Self>, _: &str, _: bool, _: usize) -> Option<Dyn<Self>> {
                None
            }
        }
    )*};
}
blank_ctx!(WTx, Tx; ATx, Tx; ABx, Bx);

fn leaf<C: Cx, W>(j: &J, st: usize) -> Option<Dyn<W>>
where
    Leaf<C>: PObj<W>,
{
    let part = match j.get("t").s() {
        "once" | "opt" | "many0" | "many1" | "btw" | "times" | "nthen" => {
            j.get("c").get("c").s() != "rx"
        }
        "lit" | "start" | "end" | "empty" | "fail" | "cons" | "consall" => true,
        _ => false,
    };
    if part { Some(Dyn(Box::leak(Box::new(Leaf(pat::<C>(j, &env(st))?))))) } else { None }
}

/// The ways to come by a context over `d`.
fn place<T: ?Sized>(d: &'static T, other: &'static T, st: usize) -> RegexCtx<'static, T> {
    match st {
        0 => RegexCtx::new(d),
        1 => RegexCtx::new(other).with_offset(1).with_dat(d),
        2 => {
            let mut x = RegexCtx::new(other).with_offset(2);
            x.reset_with(d);
            x
        }
        _ => {
            let mut x = RegexCtx::new(d).with_offset(7);
            x.reset();
            let y = x;
            x = RegexCtx::new(y.dat()).with_offset(y.offset());
            x.clone()
        }
    }
}

/// The ways to put a policy on it.
fn policed<T: ?Sized, R: Copy>(
    d: &'static T,
    other: &'static T,
    pol: R,
    st: usize,
) -> PolicyCtx<RegexCtx<'static, T>, R> {
    let x = RegexCtx::new(d);
    match st {
        0 => x.skip_before(pol),
        1 => PolicyCtx::new(RegexCtx::new(other), ()).with_regex(pol).with_inner(x),
        2 => {
            let mut x = RegexCtx::new(other).with_offset(1).skip_before(pol);
            x.reset_with(RegexCtx::new(d));
            x.clone()
        }
        _ => {
            let mut y = RegexCtx::new(other).skip_before(pol);
            y.set_inner(x);
            let i = *y.inner();
            *y.inner_mut() = i;
            y
        }
    }
}

fn run_blank(j: &J, pools: &mut Pools, c: &Case, st: usize) -> Option<Out> {
    let cl = blanks(c.pol.at(0))?;
    Some(match (c.k, cl) {
        ("t", "whitespace") => {
            let x = RegexCtx::new(pools.text(&c.cs)).skip_whitespace();
            operate(x, leaf::<Tx, WTx>(j, st)?, |j| leaf::<Tx, WTx>(j, st), st, c)?
        }
        ("t", _) => {
            let x = RegexCtx::new(pools.text(&c.cs)).skip_ascii_whitespace();
            operate(x, leaf::<Tx, ATx>(j, st)?, |j| leaf::<Tx, ATx>(j, st), st, c)?
        }
        ("b", "ascii_whitespace") => {
            let x = RegexCtx::new(pools.bytes(&c.cs)).skip_ascii_whitespace();
            operate(x, leaf::<Bx, ABx>(j, st)?, |j| leaf::<Bx, ABx>(j, st), st, c)?
        }
        _ => return None,
    })
}

/// Run one case in style `st`; `None` when this configuration lacks something.
pub fn run(p: &mut Built, pools: &mut Pools, c: &Case, st: usize) -> Option<Out> {
    let Built { j, t, b, pt, pb } = p;
    if c.pol.arr().is_empty() {
        if c.k == "t" {
            let d = (*t[st].get_or_insert_with(|| pat(j, &env::<Tx>(st))))?;
            operate(place(pools.text(&c.cs), "é", st), d, |j| pat(j, &env(st)), st, c)
        } else {
            let d = (*b[st].get_or_insert_with(|| pat(j, &env::<Bx>(st))))?;
            operate(place(pools.bytes(&c.cs), b"zz", st), d, |j| pat(j, &env(st)), st, c)
        }
    } else {
        if st == 1 || st == 3 {
            if let Some(o) = run_blank(j, pools, c, st) {
                return Some(o);
            }
        }
        let key = format!("{st}{}", c.pol.show());
        if c.k == "t" {
            let pol =
                (*pools.pt.entry(key).or_insert_with(|| pat(c.pol.at(0), &env::<Tx>(st))))?;
            let d = (*pt[st].get_or_insert_with(|| pat(j, &env::<PTx>(st))))?;
            operate(policed(pools.text(&c.cs), "é", pol, st), d, |j| pat(j, &env(st)), st, c)
        } else {
            let pol =
                (*pools.pb.entry(key).or_insert_with(|| pat(c.pol.at(0), &env::<Bx>(st))))?;
            let d = (*pb[st].get_or_insert_with(|| pat(j, &env::<PBx>(st))))?;
            operate(policed(pools.bytes(&c.cs), b"zz", pol, st), d, |j| pat(j, &env(st)), st, c)
        }
    }
}

/// `run`, with a panic turned into an outcome.
pub fn run_caught(p: &mut Built, pools: &mut Pools, c: &Case, st: usize) -> Option<Out> {
    match catch_unwind(AssertUnwindSafe(|| run(p, pools, c, st))) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            Some(Out {
                ok: false,
                off: -1,
                b: 0,
                n: 0,
                v: nov(),
                h: nov(),
                e: format!("panic: {}", m.replace(['"', '\\', '\n'], " ")),
            })
        }
    }
}

pub fn case_of<'a>(l: &'a J) -> Case<'a> {
    Case {
        k: l.at(3).s(),
        cs: l.at(4).ints(),
        pol: l.at(5),
        ht: l.at(6).s(),
        hk: l.at(7).i(),
        off: l.at(8).u(),
        op: l.at(9).s(),
        arg: l.at(10),
    }
}

/// Text laid out by the spans that were reported must be sliceable.
pub fn sliceable(c: &Case, o: &Out, pools: &mut Pools) -> Option<String> {
    if !o.ok || c.k != "t" || !matches!(c.op, "mat" | "raw" | "pol") {
        return None;
    }
    let s = pools.text(&c.cs);
    let x: Tx = RegexCtx::new(s);
    let want = s.get(o.b as usize..(o.b + o.n) as usize);
    let got = x.orig_sub(o.b as usize, o.n as usize).ok();
    if want != got {
        return Some(format!("orig_sub({},{}) = {got:?}, the text there is {want:?}", o.b, o.n));
    }
    None
}

pub fn parse_line(l: &str) -> Option<J> {
    // TLC prints strings quoted and escaped
    let l = l.trim();
    if !l.starts_with("\"[") {
        return None;
    }
    let mut s = String::with_capacity(l.len());
    let mut it = l[1..l.len() - 1].chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            if let Some(n) = it.next() {
                s.push(n);
            }
        } else {
            s.push(c);
        }
    }
    Some(json::parse(&s).unwrap_or_else(|e| panic!("{e}: {s}")))
}
