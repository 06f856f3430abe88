//! A further way of building every pattern: default values filled in through
//! the mutable accessors, rebuilt from what the accessors report, and the
//! `!` operator for negative look-ahead.
use crate::dynp::*;
use crate::json::J;
use crate::mk::*;
use crate::mku::{bound, unit};
use crate::val::Val;
use neure::ctor;
use neure::neu::{self, CRange, EmptyCond};
use neure::regex;
use std::ops::RangeBounds;

impl<C> Default for Dyn<C> {
    fn default() -> Self {
        dummy::<C>()
    }
}
impl<T: 'static> Default for DynU<T> {
    fn default() -> Self {
        dummyu::<T>()
    }
}

fn quant3<C: Cx>(j: &J, u: DynU<C::Item>) -> Option<Dyn<C>> {
    Some(match j.get("t").s() {
        "once" => {
            let mut p = neu::Once::<C, DynU<C::Item>, C::Item, EmptyCond>::default();
            *p.unit_mut() = u;
            let q: neu::Once<C, _, C::Item, _> = neu::Once::new(*p.unit(), EmptyCond);
            mk(q, idv)
        }
        "opt" => {
            let mut p = neu::Opt::<C, DynU<C::Item>, C::Item, EmptyCond>::default();
            *p.unit_mut() = u;
            let q: neu::Opt<C, _, C::Item, _> = neu::Opt::new(*p.unit(), EmptyCond);
            mk(q, idv)
        }
        "many0" => {
            let mut p = neu::Many0::<C, DynU<C::Item>, C::Item, EmptyCond>::default();
            p.set_unit(u);
            let q: neu::Many0<C, _, C::Item, _> = neu::Many0::new(*p.unit(), EmptyCond);
            mk(q, idv)
        }
        "many1" => {
            let mut p = neu::Many1::<C, DynU<C::Item>, C::Item, EmptyCond>::default();
            *p.unit_mut() = u;
            let q: neu::Many1<C, _, C::Item, _> = neu::Many1::new(*p.unit(), EmptyCond);
            mk(q, idv)
        }
        "times" => {
            let mut p: neu::Times<C, _> = neu::Times::new(dummyu::<C::Item>(), CRange::from(7usize), EmptyCond);
            *p.unit_mut() = u;
            *p.range_mut() = crange(j);
            mk::<C, _, _>(neu::Times::new(*p.unit(), *p.range(), EmptyCond), idv)
        }
        _ => return None,
    })
}

/// The range of `j`, through every conversion that can express it; one that
/// deviates is preferred.
fn crange(j: &J) -> CRange<usize> {
    let (lk, hk) = (j.get("lk").s(), j.get("hk").s());
    let lo = if lk == "u" { 0 } else { j.get("lo").u() };
    let hi = if hk == "u" { 0 } else { j.get("hi").u() };
    let want = (bound(lk, lo), bound(hk, hi));
    let mut all: Vec<CRange<usize>> = vec![want.into(), CRange::clone_from(want), CRange::new(want.0, want.1).clone()];
    match (lk, hk) {
        ("i", "i") => {
            all.extend([CRange::from(lo..=hi), core::range::RangeInclusive { start: lo, last: hi }.into()]);
            if lo == hi && lo < 100 {
                macro_rules! num {
                    ($($t:ty),*) => { $( all.push((lo as $t).into()); all.push((&(lo as $t)).into()); )* };
                }
                num!(i8, u8, i16, u16, u32, i32, u64, i64, isize, usize);
            }
        }
        ("i", "x") => {
            all.extend([CRange::from(lo..hi), core::range::Range { start: lo, end: hi }.into()])
        }
        ("i", "u") => all.extend([CRange::from(lo..), core::range::RangeFrom { start: lo }.into()]),
        ("u", "x") => all.push((..hi).into()),
        ("u", "i") => {
            all.extend([CRange::from(..=hi), core::range::RangeToInclusive { last: hi }.into()])
        }
        ("u", "u") => all.push(CRange::from(..)),
        _ => {}
    }
    let same = |r: &&CRange<usize>| r.start_bound().cloned() != want.0 || r.end_bound().cloned() != want.1;
    *all.iter().find(same).unwrap_or(&all[0])
}

/// `None`: nothing special in this style.
pub fn pat3<C: Cx>(j: &J, b: &B<C>) -> Option<Option<Dyn<C>>> {
    macro_rules! go {
        ($n:expr) => {
            match pat(j.get($n), b) {
                Some(p) => p,
                None => return Some(None),
            }
        };
    }
    let t = j.get("t").s();
    Some(Some(match t {
        "once" | "opt" | "many0" | "many1" | "times" if j.get("c").get("c").s() == "none" => {
            match unit::<C::Item>(j.get("u"), 3) {
                Some(u) => return quant3(j, u).map(Some),
                None => return Some(None),
            }
        }
        "nthen" if j.get("c").get("c").s() == "none" => {
            let (Some(u), Some(v)) =
                (unit::<C::Item>(j.get("u"), 3), unit::<C::Item>(j.get("v"), 3))
            else {
                return Some(None);
            };
            let mut p =
                neu::NeureThen::<C, DynU<C::Item>, DynU<C::Item>, C::Item, EmptyCond>::default();
            *p.left_mut() = u;
            *p.right_mut() = v;
            let q: neu::NeureThen<C, _, _, C::Item, _> =
                neu::NeureThen::new(*p.left(), *p.right(), EmptyCond);
            mk(q, idv)
        }
        "start" => mk(regex::AnchorStart::default(), idv),
        "end" => mk(regex::AnchorEnd::default(), idv),
        "empty" => mk(regex::EmptyRegex::default(), idv),
        "fail" => mk(regex::FailRegex::default(), idv),
        "consall" => mk(regex::ConsumeAll::default(), idv),
        "then" => {
            let mut p = ctor::Then::<C, Dyn<C>, Dyn<C>>::default();
            *p.left_mut() = go!("l");
            *p.right_mut() = go!("r");
            mk::<C, _, _>(ctor::Then::new(*p.left(), *p.right()), pairv)
        }
        "or" => {
            let mut p = ctor::Or::<C, Dyn<C>, Dyn<C>>::default();
            *p.left_mut() = go!("l");
            *p.right_mut() = go!("r");
            mk::<C, _, _>(ctor::Or::new(*p.left(), *p.right()), idv)
        }
        "longest" => {
            let mut p = ctor::LongestTokenMatch::<C, Dyn<C>, Dyn<C>>::default();
            *p.left_mut() = go!("l");
            *p.right_mut() = go!("r");
            mk::<C, _, _>(ctor::LongestTokenMatch::new(*p.left(), *p.right()), idv)
        }
        "ifthen" => {
            let mut p = ctor::IfThen::<C, Dyn<C>, Dyn<C>, Dyn<C>>::default();
            *p.left_mut() = go!("l");
            *p.test_mut() = go!("i");
            *p.right_mut() = go!("r");
            mk::<C, _, _>(ctor::IfThen::new(*p.left(), *p.test(), *p.right()), ifv)
        }
        "seponce" => {
            let mut p = ctor::SepOnce::<C, Dyn<C>, Dyn<C>, Dyn<C>>::default();
            *p.left_mut() = go!("l");
            *p.sep_mut() = go!("s");
            *p.right_mut() = go!("r");
            mk::<C, _, _>(ctor::SepOnce::new(*p.left(), *p.sep(), *p.right()), pairv)
        }
        "enclose" => {
            let mut p = ctor::Enclose::<C, Dyn<C>, Dyn<C>, Dyn<C>>::default();
            *p.open_mut() = go!("o");
            *p.pat_mut() = go!("p");
            *p.close_mut() = go!("c");
            mk::<C, _, _>(ctor::Enclose::new(*p.pat(), *p.open(), *p.close()), idv)
        }
        "prefix" => {
            let mut p = ctor::Prefix::<C, Dyn<C>, Dyn<C>>::default();
            *p.pat_mut() = go!("p");
            *p.prefix_mut() = go!("x");
            mk::<C, _, _>(ctor::Prefix::new(*p.pat(), *p.prefix()), idv)
        }
        "suffix" => {
            let mut p = ctor::Suffix::<C, Dyn<C>, Dyn<C>>::default();
            *p.pat_mut() = go!("p");
            *p.suffix_mut() = go!("x");
            mk::<C, _, _>(ctor::Suffix::new(*p.pat(), *p.suffix()), idv)
        }
        "optp" => {
            let mut p = ctor::OptionPat::<C, Dyn<C>>::default();
            *p.pat_mut() = go!("p");
            mk::<C, _, _>(ctor::OptionPat::new(*p.pat()), Val::opt)
        }
        "pat" => {
            let mut p = ctor::Pattern::<C, Dyn<C>>::default();
            *p.pat_mut() = go!("p");
            mk::<C, _, _>(ctor::Pattern::new(*p.pat()), idv)
        }
        "branch" => {
            let f = test_fn::<C>(j.get("f"));
            let mut p: ctor::Branch<C, _, _, _> = ctor::Branch::new(f.clone(), dummy::<C>(), dummy::<C>());
            *p.test_mut() = f.clone();
            p.set_test(f);
            *p.pat_mut() = go!("l");
            *p.other_mut() = go!("r");
            mk::<C, _, _>(ctor::Branch::new(p.test().clone(), *p.pat(), *p.other()).clone(), idv)
        }
        "collect" => {
            let mut p = ctor::Collect::<C, Dyn<C>, Val, Vec<Val>>::default();
            *p.pat_mut() = go!("p");
            p.set_min(j.get("min").u());
            let mut q = ctor::Collect::<C, _, Val, Vec<Val>>::new(*p.pat());
            q.set_min(p.min());
            mk(q, listv)
        }
        #[cfg(feature = "alloc")]
        "repeat" => {
            let mut p: ctor::Repeat<C, _> = ctor::Repeat::new(dummy::<C>(), 7usize)
                .with_range(crange(j))
                .with_capacity(3);
            *p.pat_mut() = go!("p");
            let q = ctor::Repeat::new(dummy::<C>(), *p.range())
                .with_pat(*p.pat())
                .with_capacity(p.capacity());
            mk::<C, _, _>(q.clone(), listv)
        }
        "rep2" => {
            let p = go!("p");
            macro_rules! f {
                ($m:literal, $n:literal) => {{
                    let mut r = ctor::Repeat2::<C, Dyn<C>, $m, $n>::default();
                    *r.pat_mut() = p;
                    let q = ctor::Repeat2::<C, Dyn<C>, $m, $n>::default().with_pat(*r.pat());
                    mk(q.clone(), arrv::<$n>)
                }};
            }
            pairs!(j.get("min").i(), j.get("max").i(), f)
        }
        #[cfg(feature = "alloc")]
        "sep" => {
            let mut p = ctor::Separate::<C, Dyn<C>, Dyn<C>>::default();
            *p.pat_mut() = go!("p");
            *p.sep_mut() = go!("s");
            p.set_min(j.get("min").u());
            let q: ctor::Separate<C, _, _> = ctor::Separate::new(*p.pat(), *p.sep())
                .with_skip(j.get("skip").b())
                .at_least(p.min())
                .with_capacity(2);
            let r = ctor::Separate::new(*q.pat(), *q.sep())
                .with_skip(q.skip())
                .at_least(q.min())
                .with_capacity(q.capacity());
            mk::<C, _, _>(r, listv)
        }
        "sep2" => {
            let (p, s, skip) = (go!("p"), go!("s"), j.get("skip").b());
            macro_rules! f {
                ($m:literal, $n:literal) => {{
                    let mut r = ctor::Separate2::<C, Dyn<C>, Dyn<C>, $m, $n>::default();
                    *r.pat_mut() = p;
                    *r.sep_mut() = s;
                    r.set_skip(skip);
                    let q = ctor::Separate2::<C, _, _, $m, $n>::new(*r.pat(), *r.sep())
                        .with_skip(r.skip());
                    mk(q.clone(), arrv::<$n>)
                }};
            }
            pairs!(j.get("min").i(), j.get("max").i(), f)
        }
        "sepc" => {
            let mut p = ctor::SepCollect::<C, Dyn<C>, Dyn<C>, Val, Vec<Val>>::default();
            *p.pat_mut() = go!("p");
            *p.sep_mut() = go!("s");
            p.set_skip(j.get("skip").b()).set_min(j.get("min").u());
            let q = ctor::SepCollect::<C, _, _, Val, Vec<Val>>::new(*p.pat(), *p.sep())
                .with_skip(p.skip())
                .at_least(p.min());
            mk(q, listv)
        }
        "map" if !matches!(j.get("m").get("m").s(), "sel0" | "sel1" | "seleq" | "selneq") => {
            let f = map_fn(j.get("m"));
            let mut p = ctor::Map::<C, Dyn<C>, _, Val>::new(dummy::<C>(), f.clone());
            *p.pat_mut() = go!("p");
            *p.mapper_mut() = f.clone();
            p.set_mapper(f);
            mk(ctor::Map::<C, _, _, Val>::new(*p.pat(), p.mapper().clone()), idv)
        }
        "dthen" => {
            let Some(f) = dthen_fn(j, b) else { return Some(None) };
            let mut p = ctor::DynamicCtorThenBuilder::<C, _, _>::new(dummy::<C>(), f.clone());
            *p.pat_mut() = go!("p");
            *p.func_mut() = f.clone();
            p.set_func(f);
            mk::<C, _, _>(
                ctor::DynamicCtorThenBuilder::new(*p.pat(), p.func().clone()),
                pairv,
            )
        }
        "assert" if j.get("pos").b() => {
            let mut p = regex::Assert::new(dummy::<C>(), false);
            *p.pat_mut() = go!("p");
            p.set_value(true);
            mk(regex::Assert::new(*p.pat(), p.value()), idv)
        }
        "assert" => return negated(j.get("p"), b),
        "arr" if j.get("w").s() == "vec" => {
            #[cfg(feature = "alloc")]
            {
                let mut ps = vec![];
                for p in j.get("ps").arr() {
                    let Some(p) = pat(p, b) else { return Some(None) };
                    ps.push(p);
                }
                let mut a = ctor::Vector::new(vec![], !j.get("ltm").b());
                a.extend(ps);
                a.set_longest(j.get("ltm").b());
                let v: Vec<Dyn<C>> = a.iter().copied().collect();
                mk(ctor::Vector::new(v, a.longest()), idv)
            }
            #[cfg(not(feature = "alloc"))]
            return Some(None);
        }
        "wrap" => return wrap3(j.get("w").s(), go!("p")).map(Some),
        _ => return None,
    }))
}

/// `!p` for a pattern whose type offers the operator
fn negated<C: Cx>(j: &J, b: &B<C>) -> Option<Option<Dyn<C>>> {
    macro_rules! go {
        ($n:expr) => {
            match pat(j.get($n), b) {
                Some(p) => p,
                None => return Some(None),
            }
        };
    }
    macro_rules! u {
        ($n:expr) => {
            match unit::<C::Item>(j.get($n), 0) {
                Some(p) => p,
                None => return Some(None),
            }
        };
    }
    let plain = |j: &J| j.get("c").get("c").s() == "none";
    Some(Some(match j.get("t").s() {
        "once" if plain(j) => mk(!neu::NeuIntoRegexOps::<C>::once(u!("u")), idv),
        "opt" if plain(j) => mk(!neu::NeuIntoRegexOps::<C>::opt(u!("u")), idv),
        "many0" if plain(j) => mk(!neu::NeuIntoRegexOps::<C>::many0(u!("u")), idv),
        "many1" if plain(j) => mk(!neu::NeuIntoRegexOps::<C>::many1(u!("u")), idv),
        "times" if plain(j) => {
            mk(!neu::NeuIntoRegexOps::<C>::times(u!("u"), crange(j)), idv)
        }
        "nthen" if plain(j) => mk(!neu::NeuIntoRegexOps::<C>::then(u!("u"), u!("v")), idv),
        "btw" if plain(j) => {
            let u = u!("u");
            macro_rules! f {
                ($m:literal, $n:literal) => {
                    mk(!neu::NeuIntoRegexOps::<C>::between::<$m, $n>(u), idv)
                };
            }
            match (j.get("min").i(), j.get("max").i()) {
                (_, -1) => return None,
                (m, n) => pairs!(m, n, f),
            }
        }
        "start" => mk(!regex::start(), idv),
        "end" => mk(!regex::end(), idv),
        "empty" => mk(!regex::empty(), idv),
        "fail" => mk(!regex::fail(), idv),
        "cons" => mk(!regex::consume(j.get("k").u()), idv),
        "consall" => mk(!regex::consume_all(), idv),
        "lit" => return C::not_lit(&j.get("s").ints()).map(Some),
        "then" => mk(!ctor::CtorOps::then(go!("l"), go!("r")), idv),
        "or" => mk(!ctor::CtorOps::or(go!("l"), go!("r")), idv),
        "longest" => mk(!ctor::CtorOps::longest(go!("l"), go!("r")), idv),
        "ifthen" => mk(!ctor::CtorOps::if_then(go!("l"), go!("i"), go!("r")), idv),
        "seponce" => mk(!ctor::CtorOps::sep_once(go!("l"), go!("s"), go!("r")), idv),
        "enclose" => mk(!ctor::CtorOps::enclose(go!("p"), go!("o"), go!("c")), idv),
        "prefix" => mk(!ctor::CtorOps::prefix(go!("p"), go!("x")), idv),
        "suffix" => mk(!ctor::CtorOps::suffix(go!("p"), go!("x")), idv),
        "optp" => mk(!ctor::CtorOps::opt(go!("p")), idv),
        "pat" => mk(!ctor::CtorOps::pat(go!("p")), idv),
        "branch" => {
            mk(!ctor::CtorOps::if_else(go!("l"), test_fn::<C>(j.get("f")), go!("r")), idv)
        }
        "collect" => {
            mk(!ctor::CtorOps::collect::<Val, Vec<Val>>(go!("p")).at_least(j.get("min").u()), idv)
        }
        "rep2" => {
            let p = go!("p");
            macro_rules! f {
                ($m:literal, $n:literal) => {
                    mk(!ctor::CtorOps::repeat2::<$m, $n>(p), idv)
                };
            }
            pairs!(j.get("min").i(), j.get("max").i(), f)
        }
        "sep2" => {
            let (p, s) = (go!("p"), go!("s"));
            let skip = j.get("skip").b();
            macro_rules! f {
                ($m:literal, $n:literal) => {
                    mk(!ctor::CtorOps::sep2::<_, $m, $n>(p, s).with_skip(skip), idv)
                };
            }
            pairs!(j.get("min").i(), j.get("max").i(), f)
        }
        #[cfg(feature = "alloc")]
        "repeat" => {
            mk(!ctor::CtorOps::repeat(go!("p"), crange(j)), idv)
        }
        #[cfg(feature = "alloc")]
        "sep" => mk(
            !ctor::CtorOps::sep(go!("p"), go!("s")).with_skip(j.get("skip").b()).at_least(j.get("min").u()),
            idv,
        ),
        "sepc" => mk(
            !ctor::CtorOps::sep_collect::<_, Val, Vec<Val>>(go!("p"), go!("s"))
                .with_skip(j.get("skip").b())
                .at_least(j.get("min").u()),
            idv,
        ),
        "assert" => mk(!regex::assert(go!("p"), j.get("pos").b()), idv),
        "arr" => {
            let mut ps = vec![];
            for p in j.get("ps").arr() {
                let Some(p) = pat(p, b) else { return Some(None) };
                ps.push(p);
            }
            let ltm = j.get("ltm").b();
            match (j.get("w").s(), ps.len()) {
                ("array", 2) => mk(!ctor::Array::new([ps[0], ps[1]], ltm), idv),
                ("array", 3) => mk(!ctor::Array::new([ps[0], ps[1], ps[2]], ltm), idv),
                #[cfg(feature = "alloc")]
                ("vec", _) => mk(!ctor::Vector::new(ps, ltm), idv),
                ("slice", _) => {
                    let ps: &'static [Dyn<C>] = Box::leak(ps.into_boxed_slice());
                    mk(!ctor::Slice::new(ps, ltm), idv)
                }
                _ => return None,
            }
        }
        "parr" => {
            let mut ps = vec![];
            for (p, k) in j.get("ps").arr().iter().zip(j.get("ks").ints()) {
                let Some(p) = pat(p, b) else { return Some(None) };
                ps.push((p, k));
            }
            let ltm = j.get("ltm").b();
            match (j.get("w").s(), ps.len()) {
                ("array", 2) => mk(!ctor::PairArray::new([ps[0], ps[1]], ltm), idv),
                ("array", 3) => mk(!ctor::PairArray::new([ps[0], ps[1], ps[2]], ltm), idv),
                #[cfg(feature = "alloc")]
                ("vec", _) => mk(!ctor::PairVector::new(ps, ltm), idv),
                ("slice", _) => {
                    let ps: &'static [(Dyn<C>, i64)] = Box::leak(ps.into_boxed_slice());
                    mk(!ctor::PairSlice::new(ps, ltm), idv)
                }
                _ => return None,
            }
        }
        "map" if !matches!(j.get("m").get("m").s(), "sel0" | "sel1" | "seleq" | "selneq") => {
            mk(!ctor::Map::<C, _, _, Val>::new(go!("p"), map_fn(j.get("m"))), idv)
        }
        _ => return None,
    }))
}

/// wrappers after use, copied, or reached through their contents
fn wrap3<C: Cx>(w: &str, p: Dyn<C>) -> Option<Dyn<C>> {
    #[cfg(feature = "alloc")]
    {
        use neure::ctor::Adapter as CA;
        use neure::ctor::CtorIntoHelper;
        use neure::regex::Adapter as RA;
        use neure::regex::RegexIntoHelper;
        match w {
            "rx_box" => return Some(mk(p.into_box_regex().clone(), idv)),
            "into_box" => return Some(mk(p.into_box().clone(), idv)),
            "rx_rc" => {
                let mut a = RA::rc(dummy::<C>());
                *a.inner_mut() = std::rc::Rc::new(p);
                let c = a.inner().clone();
                return Some(mk(RA::<C, _>::from(c), idv));
            }
            "into_arc" => {
                let mut a: CA<C, _> = CA::arc(dummy::<C>());
                *a.inner_mut() = std::sync::Arc::new(p);
                let c = a.inner().clone();
                return Some(mk(CA::<C, _>::from(c), idv));
            }
            _ => {}
        }
    }
    Some(match w {
        "as_ctor" => {
            let r: &'static Dyn<C> = Box::leak(Box::new(p));
            mk(regex::RegexRefAsCtor::<C>::as_ctor(r).clone(), idv)
        }
        "as_dyn_regex" => {
            let r: &'static Dyn<C> = Box::leak(Box::new(p));
            mk(regex::RegexRefAsDynRegex::<C>::as_dyn_regex(r).clone(), idv)
        }
        "as_dyn_ctor" => {
            let r: &'static Dyn<C> = Box::leak(Box::new(p));
            mk(ctor::CtorRefAsDynCtor::<C, Val, crate::val::Hd>::as_dyn_ctor(r).clone(), idv)
        }
        "adapter" => {
            let mut a = ctor::Adapter::<C, _>::from(dummy::<C>());
            *a.inner_mut() = p;
            mk(ctor::Adapter::<C, _>::from(*a.inner()), idv)
        }
        _ => return None,
    })
}
