//! Forces real threads that share a pattern through the schedules emitted by
//! NThreads.
use crate::cases::{Case, Out, Pools, operate};
use crate::dynp::*;
use crate::json::J;
use crate::mk::{B, Bx, Tx, pat};
use crate::val::{self, Hd, Val};
use neure::ctor::Ctor;
use neure::ctx::RegexCtx;
use neure::err::Error;
use neure::regex::Regex;
use neure::span::Span;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::mpsc::Receiver;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

/// Where the threads of one schedule wait for their turn.
pub struct Gate {
    st: Mutex<GateSt>,
    cv: Condvar,
}

#[derive(Default)]
struct GateSt {
    arrived: Vec<usize>,
    granted: Vec<usize>,
    done: Vec<bool>,
    free: bool,
}

impl Gate {
    fn new(n: usize) -> Gate {
        Gate {
            st: Mutex::new(GateSt {
                arrived: vec![0; n],
                granted: vec![0; n],
                done: vec![false; n],
                free: false,
            }),
            cv: Condvar::new(),
        }
    }
    /// called by thread `t` before a visible event
    pub fn pass(&self, t: usize) {
        let mut s = self.st.lock().unwrap();
        s.arrived[t] += 1;
        let me = s.arrived[t];
        self.cv.notify_all();
        while s.granted[t] < me && !s.free {
            s = self.cv.wait(s).unwrap();
        }
    }
    /// time passes in ticks, so that a machine that is halted for a while
    /// does not count as waiting
    fn until(&self, d: Duration, f: impl Fn(&GateSt) -> bool) -> bool {
        let mut left = d.as_millis().div_ceil(TICK.as_millis()).max(1);
        let tick = d.min(TICK);
        let mut s = self.st.lock().unwrap();
        while !f(&s) {
            if left == 0 {
                return false;
            }
            let (g, r) = self.cv.wait_timeout(s, tick).unwrap();
            s = g;
            if r.timed_out() {
                left -= 1;
            }
        }
        true
    }
    /// let `t` perform one event, and wait until it is at the next one
    fn step(&self, t: usize, patience: Duration) {
        self.until(patience, |s| s.done[t] || s.arrived[t] > s.granted[t]);
        {
            let mut s = self.st.lock().unwrap();
            if s.done[t] {
                return;
            }
            s.granted[t] += 1;
            self.cv.notify_all();
        }
        self.until(patience, |s| s.done[t] || s.arrived[t] > s.granted[t]);
    }
    fn finish(&self, t: usize) {
        self.st.lock().unwrap().done[t] = true;
        self.cv.notify_all();
    }
    fn free(&self) {
        self.st.lock().unwrap().free = true;
        self.cv.notify_all();
    }
}

/// A pattern that is put into its once-cell while it is in use.
struct Late<C: 'static>(&'static OnceLock<Dyn<C>>);
impl<C> PObj<C> for Late<C> {
    fn rx(&self, c: &mut C) -> Result<Span, Error>
    where
        OnceLock<Dyn<C>>: Regex<C>,
    {
        Regex::try_parse(self.0, c)
    }
    fn cx(&self, c: &mut C, h: &mut Hd) -> Result<Val, Error> {
        Ctor::construct(self.0, c, h)
    }
}

#[derive(Clone)]
struct Work {
    t: Dyn<Tx>,
    b: Dyn<Bx>,
    /// per operation: its description and its input
    ops: Arc<Vec<(J, &'static str, &'static [u8])>>,
}

fn perform(w: &Work, i: usize) -> Out {
    let (j, t, b) = &w.ops[i];
    let none = J::Arr(vec![]);
    let c = Case {
        k: j.at(1).s(),
        cs: vec![],
        pol: &none,
        ht: j.at(4).s(),
        hk: j.at(5).i(),
        off: j.at(3).u(),
        op: j.at(0).s(),
        arg: &none,
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if c.k == "t" {
            operate(RegexCtx::new(*t), w.t, |_| None, 0, &c)
        } else {
            operate(RegexCtx::new(*b), w.b, |_| None, 0, &c)
        }
    }));
    match r {
        Ok(o) => o.expect("harness operation"),
        Err(_) => Out {
            ok: false,
            off: -1,
            b: 0,
            n: 0,
            v: J::Arr(vec![]),
            h: J::Arr(vec![]),
            e: "panic".into(),
        },
    }
}

/// Patterns already built, by description and style.
#[derive(Default)]
pub struct Thr {
    pats: HashMap<(String, usize), Option<(Dyn<Tx>, Dyn<Bx>)>>,
    seen: HashMap<String, usize>,
}

fn has(j: &J, t: &str) -> bool {
    match j {
        J::Arr(v) => v.iter().any(|x| has(x, t)),
        J::Obj(v) => v.iter().any(|(k, x)| (k == "t" && matches!(x, J::Str(s) if s == t)) || has(x, t)),
        _ => false,
    }
}

const NEVER: Duration = Duration::from_secs(20);
const TICK: Duration = Duration::from_millis(200);

/// what the next thread to finish sends, or nothing when none finishes
fn next<X>(rx: &Receiver<X>) -> Option<X> {
    (0..NEVER.as_millis() / TICK.as_millis()).find_map(|_| rx.recv_timeout(TICK).ok())
}

impl Thr {
    /// `Ok(executions)`, or what went wrong
    pub fn run(&mut self, l: &J, pools: &mut Pools) -> Result<u64, J> {
        let (pj, cell, progs, sched, want) = (l.at(1), l.at(2).b(), l.at(3), l.at(4), l.at(5));
        let locked = l.at(6).arr().iter().any(|x| x.arr().iter().any(|y| y.b()));
        let key = pj.show();
        // the variant of recursion that threads may share, any style otherwise
        let styles: &[usize] = if has(pj, "rec") { &[1, 2] } else { &[0, 1, 2, 3] };
        let pkey = format!("{key}{}", progs.show());
        let n = self.seen.entry(pkey).or_insert(0);
        *n += 1;
        let first = *n <= styles.len();
        let st = styles[(*n - 1) % styles.len()];
        let built = *self.pats.entry((key, st)).or_insert_with(|| {
            Some((pat(pj, &B { st, env: vec![] })?, pat(pj, &B { st, env: vec![] })?))
        });
        let Some((t, b)) = built else { return Ok(0) };
        let work: Vec<Work> = progs
            .arr()
            .iter()
            .map(|p| Work {
                t,
                b,
                ops: Arc::new(
                    p.arr()
                        .iter()
                        .map(|o| {
                            let cs = o.at(2).ints();
                            (o.clone(), pools.text(&cs), pools.bytes(&cs))
                        })
                        .collect(),
                ),
            })
            .collect();
        let want: Vec<Vec<Out>> =
            want.arr().iter().map(|t| t.arr().iter().map(Out::of).collect()).collect();
        let mut runs = scheduled(&work, cell, sched, &want, locked)?;
        if first && !cell {
            runs += free(&work, &want)?;
        }
        Ok(runs)
    }
}

fn scheduled(work: &[Work], cell: bool, sched: &J, want: &[Vec<Out>], locked: bool) -> Result<u64, J> {
    let n = work.len();
    let gate = Arc::new(Gate::new(n));
    let (ct, cb) = (OnceLock::new(), OnceLock::new());
    let (lt, lb): (&'static OnceLock<Dyn<Tx>>, &'static OnceLock<Dyn<Bx>>) =
        if cell { (Box::leak(Box::new(ct)), Box::leak(Box::new(cb))) } else {
            // not used
            static T: OnceLock<Dyn<Tx>> = OnceLock::new();
            static U: OnceLock<Dyn<Bx>> = OnceLock::new();
            (&T, &U)
        };
    let (tx, rx) = std::sync::mpsc::channel();
    for (i, w) in work.iter().enumerate() {
        let mut w = w.clone();
        if cell {
            w.t = Dyn(Box::leak(Box::new(Late(lt))));
            w.b = Dyn(Box::leak(Box::new(Late(lb))));
        }
        let (gate, tx) = (gate.clone(), tx.clone());
        std::thread::spawn(move || {
            let g2 = gate.clone();
            val::on_event(Some(Box::new(move || g2.pass(i))));
            let mut outs = vec![];
            for o in 0..w.ops.len() {
                gate.pass(i); // the operation begins
                outs.push(perform(&w, o));
            }
            val::on_event(None);
            gate.finish(i);
            let _ = tx.send((i, outs));
        });
    }
    // a lock that is taken makes a thread come late
    let patience = if locked { Duration::from_millis(1) } else { NEVER };
    // everybody is there before anything happens
    gate.until(NEVER, |s| s.arrived.iter().all(|a| *a > 0));
    for s in sched.arr() {
        match s.u() {
            0 => {
                let _ = lt.set(work[0].t);
                let _ = lb.set(work[0].b);
            }
            t => gate.step(t - 1, patience),
        }
    }
    gate.free();
    for _ in 0..n {
        let Some((i, outs)) = next(&rx) else {
            return Err(J::Str("threads wait for each other".into()));
        };
        compare(i, &outs, &want[i])?;
    }
    Ok(n as u64)
}

fn compare(i: usize, outs: &[Out], want: &[Out]) -> Result<(), J> {
    for (o, w) in outs.iter().zip(want) {
        if !w.admits(o) {
            return Err(J::Obj(vec![
                ("thread".into(), J::Int(i as i64 + 1)),
                ("required".into(), w.j()),
                ("observed".into(), o.j()),
            ]));
        }
    }
    Ok(())
}

/// The same programs, many times over, as the machine schedules them.
fn free(work: &[Work], want: &[Vec<Out>]) -> Result<u64, J> {
    const REPS: usize = 12;
    let (tx, rx) = std::sync::mpsc::channel();
    let start = Arc::new(std::sync::Barrier::new(2 * work.len()));
    for (k, w) in work.iter().chain(work).enumerate() {
        let (w, tx, start) = (w.clone(), tx.clone(), start.clone());
        let n = work.len();
        std::thread::spawn(move || {
            val::yielding(true);
            start.wait();
            let all: Vec<Vec<Out>> =
                (0..REPS).map(|_| (0..w.ops.len()).map(|o| perform(&w, o)).collect()).collect();
            val::yielding(false);
            let _ = tx.send((k % n, all));
        });
    }
    for _ in 0..2 * work.len() {
        let Some((i, all)) = next(&rx) else {
            return Err(J::Str("threads wait for each other".into()));
        };
        for outs in &all {
            compare(i, outs, &want[i])?;
        }
    }
    Ok((2 * work.len() * REPS) as u64)
}
