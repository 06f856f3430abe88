//! Values built by the models' handlers, the log of user calls and the fuel
//! that turns a runaway evaluation into a panic.
use crate::json::{J, ji};
use neure::ctor::Handler;
use neure::ctx::Context;
use neure::err::Error;
use neure::span::Span;
use std::cell::{Cell, RefCell};

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    S(usize, usize),
    P(Box<Val>, Box<Val>),
    L(Vec<Val>),
    O(Option<Box<Val>>),
    T(i64, Box<Val>),
    K(i64),
}

fn st(s: &str) -> J {
    J::Str(s.to_string())
}

impl Val {
    pub fn j(&self) -> J {
        J::Arr(match self {
            Val::S(b, n) => vec![st("s"), J::Int(ji(*b)), J::Int(ji(*n))],
            Val::P(a, b) => vec![st("p"), a.j(), b.j()],
            Val::L(v) => vec![st("l"), J::Arr(v.iter().map(|x| x.j()).collect())],
            Val::O(None) => vec![st("o")],
            Val::O(Some(v)) => vec![st("o"), v.j()],
            Val::T(k, v) => vec![st("t"), J::Int(*k), v.j()],
            Val::K(k) => vec![st("k"), J::Int(*k)],
        })
    }
    pub fn opt(v: Option<Val>) -> Val {
        Val::O(v.map(Box::new))
    }
    pub fn pair(a: Val, b: Val) -> Val {
        Val::P(Box::new(a), Box::new(b))
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    H(usize, usize, usize),
    F(usize, usize, usize),
    T(usize),
    M,
}

impl Ev {
    pub fn j(&self) -> J {
        let i = |x: &usize| J::Int(ji(*x));
        J::Arr(match self {
            Ev::H(b, n, o) => vec![st("h"), i(b), i(n), i(o)],
            Ev::F(b, n, o) => vec![st("f"), i(b), i(n), i(o)],
            Ev::T(o) => vec![st("t"), i(o)],
            Ev::M => vec![st("m")],
        })
    }
}

thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    static FUEL: Cell<u64> = const { Cell::new(0) };
    static EVENT: RefCell<Option<Box<dyn Fn()>>> = const { RefCell::new(None) };
    static YIELD: Cell<u32> = const { Cell::new(0) };
}

/// What this thread does before each call of the user's functions.
pub fn on_event(f: Option<Box<dyn Fn()>>) {
    EVENT.with(|e| *e.borrow_mut() = f);
}

/// Whether this thread lets others run in the middle of its work.
pub fn yielding(y: bool) {
    YIELD.with(|c| c.set(y as u32));
}

pub const FUEL0: u64 = 1_000_000;

pub fn reset_log() {
    LOG.with(|l| l.borrow_mut().clear());
    FUEL.with(|f| f.set(FUEL0));
}

pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub fn log(e: Ev) {
    EVENT.with(|f| {
        if let Some(f) = &*f.borrow() {
            f()
        }
    });
    LOG.with(|l| l.borrow_mut().push(e));
}

/// Called on every evaluation of a (sub)pattern.
pub fn burn() {
    YIELD.with(|y| {
        let n = y.get();
        if n > 0 {
            y.set(n % 7 + 1);
            if n % 3 == 0 {
                std::thread::yield_now();
            }
        }
    });
    FUEL.with(|f| {
        let n = f.get();
        if n == 0 {
            panic!("runaway evaluation");
        }
        f.set(n - 1);
    });
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum HdMode {
    Ok,
    Nth(i64),
    Chr(i64),
}

/// The handler of the models: logs its call and builds a span value.
#[derive(Debug, Clone)]
pub struct Hd {
    pub mode: HdMode,
    pub calls: i64,
}

impl Hd {
    pub fn new(t: &str, k: i64) -> Self {
        let mode = match t {
            "ok" => HdMode::Ok,
            "nth" => HdMode::Nth(k),
            "chr" => HdMode::Chr(k),
            _ => panic!("handler {t}"),
        };
        Hd { mode, calls: 0 }
    }
}

pub trait ItemT: Copy + PartialEq + PartialOrd + std::fmt::Debug + 'static {
    fn code(&self) -> i64;
    fn of(c: i64) -> Self;
}

impl ItemT for char {
    fn code(&self) -> i64 {
        *self as u32 as i64
    }
    fn of(c: i64) -> Self {
        char::from_u32(c as u32).expect("char")
    }
}

impl ItemT for u8 {
    fn code(&self) -> i64 {
        *self as i64
    }
    fn of(c: i64) -> Self {
        c as u8
    }
}

impl<C> Handler<C> for Hd
where
    C: Context<'static>,
    C::Item: ItemT,
{
    type Out = Val;
    type Error = Error;

    fn invoke(&mut self, ctx: &C, span: &Span) -> Result<Val, Error> {
        self.calls += 1;
        log(Ev::H(span.beg, span.len, ctx.offset()));
        let bad = match self.mode {
            HdMode::Ok => false,
            HdMode::Nth(k) => self.calls == k,
            HdMode::Chr(k) => match ctx.peek_at(span.beg) {
                Ok(it) => {
                    let mut r = false;
                    for (o, c) in it {
                        if o >= span.len {
                            break;
                        }
                        r |= c.code() == k;
                    }
                    r
                }
                Err(_) => false,
            },
        };
        if bad { Err(Error::Uid(900)) } else { Ok(Val::S(span.beg, span.len)) }
    }
}

pub fn err_name(e: &Error) -> String {
    match e {
        Error::Uid(n) => format!("Uid{n}"),
        e => format!("{e:?}"),
    }
}
