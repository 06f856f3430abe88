//! Units from their description.
use crate::dynp::*;
use crate::json::J;
use neure::neu::{self, CRange, Neu, NeuOp};
use std::ops::Bound;

macro_rules! named {
    ($n:expr, $t:ty, $w:ident, [$($g:literal $gf:ident $gt:ident),*], [$($c:literal $cf:ident $ct:ident),*]) => {
        match $n {
            $( $g => $w!(neu::$gf::<$t>(), neu::$gt::<$t>), )*
            $( $c => $w!(neu::$cf(), neu::$ct), )*
            _ => return None,
        }
    };
}
macro_rules! plain { ($f:expr, $t:ty) => { mku($f) }; }
macro_rules! deflt { ($f:expr, $t:ty) => { mku(<$t>::default().clone()) }; }
macro_rules! negat { ($f:expr, $t:ty) => { mku(!<$t>::new()) }; }

macro_rules! both {
    ($n:expr, $t:ty, $w:ident, $more:tt) => {
        named!($n, $t, $w, [
            "ascii" ascii Ascii, "ascii_alphabetic" ascii_alphabetic AsciiAlphabetic,
            "ascii_alphanumeric" ascii_alphanumeric AsciiAlphanumeric, "ascii_control" ascii_control AsciiControl,
            "ascii_digit" ascii_digit AsciiDigit, "ascii_graphic" ascii_graphic AsciiGraphic,
            "ascii_hexdigit" ascii_hexdigit AsciiHexDigit, "ascii_lowercase" ascii_lowercase AsciiLowercase,
            "ascii_punctuation" ascii_punctuation AsciiPunctuation, "ascii_uppercase" ascii_uppercase AsciiUppercase,
            "ascii_whitespace" ascii_whitespace AsciiWhiteSpace, "word" word Word
        ], $more)
    };
}
macro_rules! on_char {
    ($n:expr, $w:ident) => {
        both!($n, char, $w, [
            "alphabetic" alphabetic Alphabetic, "alphanumeric" alphanumeric Alphanumeric, "control" control Control,
            "lowercase" lowercase Lowercase, "numeric" numeric Numeric, "uppercase" uppercase Uppercase,
            "whitespace" whitespace WhiteSpace, "wild" wild Wild
        ])
    };
}

impl UnitItem for u8 {
    fn cls(n: &str) -> Option<DynU<u8>> {
        Some(both!(n, u8, plain, []))
    }
    fn cls3(n: &str) -> Option<DynU<u8>> {
        Some(both!(n, u8, deflt, []))
    }
    fn cls_not(n: &str) -> Option<DynU<u8>> {
        Some(both!(n, u8, negat, []))
    }
    fn dig_not(_: u32) -> Option<DynU<u8>> {
        None
    }
    fn dig(_: u32) -> Option<DynU<u8>> {
        None
    }
}

impl UnitItem for char {
    fn cls(n: &str) -> Option<DynU<char>> {
        Some(on_char!(n, plain))
    }
    fn cls3(n: &str) -> Option<DynU<char>> {
        Some(on_char!(n, deflt))
    }
    fn cls_not(n: &str) -> Option<DynU<char>> {
        Some(on_char!(n, negat))
    }
    fn dig_not(r: u32) -> Option<DynU<char>> {
        Some(mku(!neu::Digit::new(r)))
    }
    fn dig(r: u32) -> Option<DynU<char>> {
        Some(mku(neu::digit(r)))
    }
}

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

pub fn bound<T>(k: &str, v: T) -> Bound<T> {
    match k {
        "u" => Bound::Unbounded,
        "i" => Bound::Included(v),
        "x" => Bound::Excluded(v),
        _ => panic!("bound {k}"),
    }
}

fn bound_ref<T>(k: &str, v: T) -> Bound<&'static T> {
    match k {
        "u" => Bound::Unbounded,
        "i" => Bound::Included(leak(v)),
        _ => Bound::Excluded(leak(v)),
    }
}

/// `!u` for a unit whose type offers the operator
fn negated<T: UnitItem>(j: &J) -> Option<Option<DynU<T>>> {
    let go = |n: &str| unit::<T>(j.get(n), 0);
    Some(Some(match j.get("u").s() {
        "eq" => mku(!neu::equal(T::of(j.get("c").i()))),
        "cls" => return Some(T::cls_not(j.get("cl").s())),
        "and" => match (go("l"), go("r")) {
            (Some(l), Some(r)) => mku(!neu::and::<T, _, _>(l, r)),
            _ => return Some(None),
        },
        "or" => match (go("l"), go("r")) {
            (Some(l), Some(r)) => mku(!neu::or::<T, _, _>(l, r)),
            _ => return Some(None),
        },
        "dig" => return Some(T::dig_not(j.get("r").i() as u32)),
        "always" => mku(!neu::always::<T>()),
        "never" => mku(!neu::never::<T>()),
        "rng" if j.get("w").s() == "crange" => {
            let (lk, hk) = (j.get("lk").s(), j.get("hk").s());
            let g = |k: &str, n: &str| if k == "u" { T::of(97) } else { T::of(j.get(n).i()) };
            mku(!CRange::new(bound(lk, g(lk, "lo")), bound(hk, g(hk, "hi"))))
        }
        _ => return None,
    }))
}

/// Build unit `j`; `None` when the item type does not support it.
pub fn unit<T: UnitItem>(j: &J, st: usize) -> Option<DynU<T>> {
    let t = j.get("u").s();
    Some(match t {
        "chr" => mku(T::of(j.get("c").i())),
        "eq" => {
            let v = T::of(j.get("c").i());
            match st {
                0 => mku(neu::equal(v)),
                1 => mku(neu::Equal::new(v)),
                _ => mku(neu::equal(v).clone()),
            }
        }
        "set" => {
            let v: Vec<T> = j.get("cs").ints().into_iter().map(T::of).collect();
            match (j.get("w").s(), v.len()) {
                #[cfg(feature = "alloc")]
                ("vec", _) => mku(v),
                #[cfg(not(feature = "alloc"))]
                ("vec", _) => return None,
                ("array", 0) => mku::<T, [T; 0]>([]),
                ("array", 1) => mku([v[0]]),
                ("array", 2) => mku([v[0], v[1]]),
                ("array", 3) => mku([v[0], v[1], v[2]]),
                ("array", 4) => mku([v[0], v[1], v[2], v[3]]),
                _ => mku::<T, &'static [T]>(leak(v).as_slice()),
            }
        }
        "rng" => {
            let (lk, hk) = (j.get("lk").s(), j.get("hk").s());
            let g = |k: &str, n: &str| if k == "u" { T::of(97) } else { T::of(j.get(n).i()) };
            let (lo, hi) = (g(lk, "lo"), g(hk, "hi"));
            match (j.get("w").s(), lk, hk) {
                ("crange", ..) => match st {
                    0 => mku(CRange::new(bound(lk, lo), bound(hk, hi))),
                    1 => mku(CRange::clone_from((bound(lk, lo), bound(hk, hi)))),
                    3 => match (lk, hk) {
                        ("i", "x") => mku(neu::range(core::range::Range { start: lo, end: hi })),
                        ("i", "i") => {
                            mku(neu::range(core::range::RangeInclusive { start: lo, last: hi }))
                        }
                        ("i", "u") => mku(neu::range(core::range::RangeFrom { start: lo })),
                        ("u", "i") => mku(neu::range(core::range::RangeToInclusive { last: hi })),
                        ("u", "u") => mku(CRange::<T>::default()),
                        _ => mku(CRange::from((bound(lk, lo), bound(hk, hi)))),
                    },
                    _ => match (lk, hk) {
                        ("i", "x") => mku(neu::range(lo..hi)),
                        ("i", "i") => mku(neu::range(lo..=hi)),
                        ("i", "u") => mku(neu::range(lo..)),
                        ("u", "x") => mku(neu::range(..hi)),
                        ("u", "i") => mku(neu::range(..=hi)),
                        ("u", "u") => mku(neu::range::<T>(..)),
                        _ => mku(neu::range((bound(lk, lo), bound(hk, hi)))),
                    },
                },
                ("ref", "i", "x") => mku(leak(lo)..leak(hi)),
                ("ref", "i", "i") => mku(leak(lo)..=leak(hi)),
                ("ref", "i", "u") => mku(leak(lo)..),
                ("ref", "u", "x") => mku(..leak(hi)),
                ("ref", "u", "i") => mku(..=leak(hi)),
                ("std", "i", "x") => mku(lo..hi),
                ("std", "i", "i") => mku(lo..=hi),
                ("std", "i", "u") => mku(lo..),
                ("std", "u", "x") => mku(..hi),
                ("std", "u", "i") => mku(..=hi),
                (_, "u", "u") => mku(..),
                ("ref", ..) => mku((bound_ref(lk, lo), bound_ref(hk, hi))),
                _ => mku((bound(lk, lo), bound(hk, hi))),
            }
        }
        "cls" if st == 3 => return T::cls3(j.get("cl").s()),
        "cls" => return T::cls(j.get("cl").s()),
        "dig" => return T::dig(j.get("r").i() as u32),
        "fn" => {
            let (m, r) = (j.get("m").i(), j.get("r").i());
            mku(move |x: &T| x.code() % m == r)
        }
        "and" if st == 3 => {
            let (l, r) = (unit::<T>(j.get("l"), st)?, unit::<T>(j.get("r"), st)?);
            let mut p = neu::And::<DynU<T>, DynU<T>, T>::default();
            *p.left_mut() = l;
            *p.right_mut() = r;
            mku(neu::And::<_, _, T>::new(*p.left(), *p.right()))
        }
        "or" if st == 3 => {
            let (l, r) = (unit::<T>(j.get("l"), st)?, unit::<T>(j.get("r"), st)?);
            let mut p = neu::Or::<DynU<T>, DynU<T>, T>::default();
            *p.left_mut() = l;
            p.set_right(r);
            mku(neu::Or::<_, _, T>::new(*p.left(), *p.right()))
        }
        "not" if st == 3 => {
            if let Some(r) = negated(j.get("x")) {
                return r;
            }
            let x = unit::<T>(j.get("x"), st)?;
            let mut p = neu::Not::<DynU<T>, T>::default();
            *p.unit_mut() = x;
            mku(neu::Not::<_, T>::new(*p.unit()))
        }
        "and" => {
            let (l, r) = (unit::<T>(j.get("l"), st)?, unit::<T>(j.get("r"), st)?);
            match st {
                0 => mku(NeuOp::and(l, r)),
                1 => {
                    let mut p = neu::And::<_, _, T>::new(dummyu(), dummyu());
                    p.set_left(l).set_right(r);
                    mku(p)
                }
                _ => mku(neu::and::<T, _, _>(l, r).clone()),
            }
        }
        "or" => {
            let (l, r) = (unit::<T>(j.get("l"), st)?, unit::<T>(j.get("r"), st)?);
            match st {
                0 => mku(NeuOp::or(l, r)),
                1 => {
                    let mut p = neu::Or::<_, _, T>::new(dummyu(), dummyu());
                    p.set_left(l);
                    *p.right_mut() = r;
                    mku(p)
                }
                _ => mku(neu::or::<T, _, _>(l, r).clone()),
            }
        }
        "not" => {
            let x = unit::<T>(j.get("x"), st)?;
            match st {
                0 => mku(NeuOp::not(x)),
                1 => {
                    let mut p = neu::Not::<_, T>::new(dummyu());
                    p.set_unit(x);
                    mku(p)
                }
                _ => mku(neu::not::<T, _>(x).clone()),
            }
        }
        "always" => match st {
            0 => mku(neu::always::<T>()),
            1 => mku(neu::Always::<T>::new()),
            3 => mku(neu::Always::<T>::default()),
            _ => mku(neu::always::<T>().clone()),
        },
        "never" => match st {
            0 => mku(neu::never::<T>()),
            1 => mku(neu::Never::<T>::new()),
            3 => mku(neu::Never::<T>::default()),
            _ => mku(neu::never::<T>().clone()),
        },
        "wrap" => {
            let x = unit::<T>(j.get("x"), st)?;
            wrap_unit(j.get("w").s(), x)?
        }
        _ => panic!("unit {t}"),
    })
}

fn wrap_unit<T: UnitItem>(w: &str, x: DynU<T>) -> Option<DynU<T>> {
    #[cfg(feature = "alloc")]
    {
        use std::rc::Rc;
        use std::sync::Arc;
        match w {
            "box" => return Some(mku::<T, Box<dyn Neu<T>>>(Box::new(x))),
            "rc" => return Some(mku(Rc::new(x))),
            "arc" => return Some(mku(Arc::new(x))),
            "rcdyn" => return Some(mku::<T, Rc<dyn Neu<T>>>(Rc::new(x))),
            "arcdyn" => return Some(mku::<T, Arc<dyn Neu<T>>>(Arc::new(x))),
            _ => {}
        }
    }
    Some(match w {
        "cell" => mku(std::cell::Cell::new(x)),
        "refcell" => mku(std::cell::RefCell::new(x)),
        #[cfg(feature = "std")]
        "mutex" => mku(std::sync::Mutex::new(x)),
        "box" | "rc" | "arc" | "rcdyn" | "arcdyn" => return None,
        #[cfg(not(feature = "std"))]
        "mutex" => return None,
        "fn" => mku(move |i: &T| x.is_match(i)),
        _ => panic!("unit wrapper {w}"),
    })
}
