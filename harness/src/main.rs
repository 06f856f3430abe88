mod cases;
mod conv;
mod diag;
mod dynp;
mod json;
#[macro_use]
mod mk;
mod mk3;
mod mku;
#[cfg(feature = "std")]
mod sess;
#[cfg(feature = "std")]
mod threads;
mod val;

use json::J;
use std::collections::{BTreeMap, HashMap};
use std::fs::{self, File};
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static SEQ: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);

/// Where results go, and what was covered.
struct Sink {
    prop: String,
    dir: String,
    cur: File,
    counts: BTreeMap<String, u64>,
    samples: Vec<J>,
    bad: u64,
}

impl Sink {
    fn new(prop: &str, dir: &str) -> Sink {
        fs::create_dir_all(dir).expect("work directory");
        let _ = fs::remove_file(format!("{dir}/replay.json"));
        Sink {
            prop: prop.into(),
            dir: dir.into(),
            cur: File::create(format!("{dir}/current")).expect("current"),
            counts: BTreeMap::new(),
            samples: vec![],
            bad: 0,
        }
    }
    fn bump(&mut self, k: &str) {
        match self.counts.get_mut(k) {
            Some(n) => *n += 1,
            None => {
                self.counts.insert(k.to_string(), 1);
            }
        }
    }
    /// note what is being run, for the case that it never comes back
    /// what is about to be executed, as the fields of a replay file
    fn at(&mut self, what: &str) {
        SEQ.fetch_add(1, Ordering::Relaxed);
        BUSY.store(true, Ordering::Relaxed);
        let _ = self.cur.write_at(format!("{what}\n").as_bytes(), 0);
    }
    fn idle(&mut self) {
        BUSY.store(false, Ordering::Relaxed);
    }
    fn violation(&mut self, what: J) {
        self.bad += 1;
        let path = format!("{}/replay.json", self.dir);
        if self.bad == 1 {
            fs::write(&path, format!("{}\n", what.show())).expect("replay");
            println!("VIOLATION property={} replay={path}", self.prop);
        }
        if self.bad <= 5 {
            eprintln!("mismatch: {}", what.show());
        }
    }
    fn finish(&mut self) {
        let mut o: Vec<(String, J)> =
            self.counts.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect();
        o.push(("samples".into(), J::Arr(std::mem::take(&mut self.samples))));
        o.push(("violations".into(), J::Int(self.bad as i64)));
        o.push(("records".into(), J::Int(diag::RECORDS.load(Ordering::Relaxed) as i64)));
        fs::write(format!("{}/summary.json", self.dir), J::Obj(o).show()).expect("summary");
    }
}

/// Reports what does not come to an end.  Time passes in ticks, so that a
/// machine that is halted for a while does not count.
fn watchdog(dir: String, prop: String, ticks: u32) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let s = SEQ.load(Ordering::Relaxed);
            if s != last || !BUSY.load(Ordering::Relaxed) {
                last = s;
                since = 0;
            } else if since < ticks {
                since += 1;
            } else {
                let path = format!("{dir}/replay.json");
                let cur = fs::read_to_string(format!("{dir}/current")).unwrap_or_default();
                let line = cur.lines().next().unwrap_or("").to_string();
                let _ = fs::write(&path, format!("{{{line},\"hang\":true}}\n"));
                println!("VIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
        }
    });
}

#[derive(Default)]
struct State {
    pats: HashMap<(i64, i64), cases::Built>,
    pools: cases::Pools,
    #[cfg(feature = "std")]
    grps: HashMap<i64, sess::Grp>,
    #[cfg(feature = "std")]
    thr: threads::Thr,
}

fn one_line(l: &J, st: &mut State, k: &mut Sink) {
    match l.at(0).s() {
        "P" => {
            st.pats.insert((l.at(1).i(), l.at(2).i()), cases::Built::new(l.at(3).clone()));
            k.bump("patterns");
        }
        "C" => {
            let key = (l.at(1).i(), l.at(2).i());
            let c = cases::case_of(l);
            let exp = cases::Out::of(l.at(11));
            let p = st.pats.get_mut(&key).expect("pattern line precedes its cases");
            k.at(&format!("\"pattern\":[\"P\",{},{},{}],\"case\":{}", key.0, key.1, p.j.show(), l.show()));
            k.bump("cases");
            k.bump(&format!("op {}", c.op));
            k.bump(if exp.ok { "succeeding" } else { "failing" });
            let n = k.counts["cases"];
            if k.samples.len() < 4 && (n % 1009 == 400 || n == 1) {
                k.samples.push(J::Obj(vec![
                    ("pattern".into(), p.j.clone()),
                    ("case".into(), l.clone()),
                ]));
            }
            for s in 0..mk::STYLES {
                let Some(got) = cases::run_caught(p, &mut st.pools, &c, s) else {
                    k.bump("not offered");
                    continue;
                };
                k.bump("executions");
                let mut bad = !exp.admits(&got);
                let mut note = String::new();
                if !bad {
                    if let Some(x) = cases::sliceable(&c, &got, &mut st.pools) {
                        bad = true;
                        note = x;
                    }
                }
                if bad {
                    let w = J::Obj(vec![
                        ("pattern".into(), J::Arr(vec![J::Str("P".into()), J::Int(key.0), J::Int(key.1), p.j.clone()])),
                        ("case".into(), l.clone()),
                        ("style".into(), J::Int(s as i64)),
                        ("required".into(), exp.j()),
                        ("observed".into(), got.j()),
                        ("note".into(), J::Str(note.replace(['"', '\\'], "'"))),
                    ]);
                    k.violation(w);
                    break;
                }
            }
        }
        "V" => {
            let (c, v, exp, size) = (l.at(1), l.at(2), l.at(3), l.at(4).u());
            k.at(&format!("\"pattern\":[\"nop\"],\"case\":{}", l.show()));
            k.bump("conversions");
            k.bump(&format!("conv {}", c.at(0).s()));
            k.bump(if exp.at(0).s() == "ok" { "converting" } else { "refusing" });
            let n = k.counts["conversions"];
            if k.samples.len() < 4 && (n % 2003 == 400 || n == 1) {
                k.samples.push(l.clone());
            }
            let r = std::panic::catch_unwind(|| conv::run(c, v));
            let bad = match r {
                Ok(None) => {
                    k.bump("not offered");
                    return;
                }
                Ok(Some(g)) => {
                    g.outs.iter().for_each(|_| k.bump("executions"));
                    if let Some((w, j)) = g.outs.into_iter().find(|o| &o.1 != exp) {
                        Some((w, j))
                    } else if size != 0 && g.size != size && c.at(0).s() != "pipe" {
                        Some(("out_size", J::Int(g.size as i64)))
                    } else {
                        None
                    }
                }
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned()
                        .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    if m.starts_with("harness") {
                        panic!("{m}");
                    }
                    Some(("panic", J::Str(m.replace(['"', '\\', '\n'], " "))))
                }
            };
            if let Some((w, j)) = bad {
                k.violation(J::Obj(vec![
                    ("pattern".into(), J::Arr(vec![J::Str("nop".into())])),
                    ("case".into(), l.clone()),
                    ("through".into(), J::Str(w.into())),
                    ("observed".into(), j),
                ]));
            }
        }
        "nop" => {}
        #[cfg(feature = "std")]
        "T" => {
            k.at(&format!("\"pattern\":[\"nop\"],\"case\":{}", l.show()));
            k.bump("schedules");
            k.bump(&format!("schedules of {} threads", l.at(3).arr().len()));
            let n = k.counts["schedules"];
            if k.samples.len() < 4 && (n % 1009 == 400 || n == 1) {
                k.samples.push(l.clone());
            }
            match st.thr.run(l, &mut st.pools) {
                Ok(n) => *k.counts.entry("executions".into()).or_insert(0) += n,
                Err(j) => {
                    k.violation(J::Obj(vec![
                        ("pattern".into(), J::Arr(vec![J::Str("nop".into())])),
                        ("case".into(), l.clone()),
                        ("mismatch".into(), j.clone()),
                    ]));
                    if matches!(j, J::Str(_)) {
                        k.bad = 1000; // threads are left behind
                    }
                }
            }
        }
        #[cfg(feature = "std")]
        "G" => {
            st.grps.insert(l.at(1).i(), sess::Grp::new(l.at(2).clone(), l.at(3).clone()));
            k.bump("groups");
        }
        #[cfg(feature = "std")]
        "S" => {
            k.bump("histories");
            let n = k.counts["histories"];
            if k.samples.len() < 4 && (n % 1009 == 400 || n == 1) {
                k.samples.push(l.clone());
            }
            for e in l.at(4).arr() {
                let o = e.at(0);
                let o = if o.at(0).s() == "on" { o.at(2) } else { o };
                k.bump(&format!("step {}", o.at(0).s()));
            }
            let g = st.grps.get_mut(&l.at(1).i()).expect("group line precedes its histories");
            k.at(&format!("\"group\":{},\"history\":{}", g.line(l.at(1)).show(), l.show()));
            for s in 0..sess::STYLES {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.run(l, &mut st.pools, s)));
                let bad = match r {
                    Ok(None) => {
                        k.bump("not offered");
                        continue;
                    }
                    Ok(Some(Ok(()))) => None,
                    Ok(Some(Err(j))) => Some(j),
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned()
                            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        if m.starts_with("harness") {
                            panic!("{m}");
                        }
                        Some(J::Str(format!("panic: {}", m.replace(['"', '\\', '\n'], " "))))
                    }
                };
                k.bump("executions");
                if let Some(j) = bad {
                    let w = J::Obj(vec![
                        ("group".into(), g.line(l.at(1))),
                        ("history".into(), l.clone()),
                        ("style".into(), J::Int(s as i64)),
                        ("mismatch".into(), j),
                    ]);
                    k.violation(w);
                    break;
                }
            }
        }
        t => panic!("line {t}"),
    }
}

fn prop_has_split(prop: &str) -> bool {
    use neure::ctx::{Match, RegexCtx};
    let t = "\u{e9}";
    let mut x: RegexCtx<'_, str> = RegexCtx::new(t);
    prop == "P20" && x.is_mat(&neure::regex::consume(1)) && !t.is_char_boundary(x.offset())
}

fn work(args: Vec<String>) -> i32 {
    let prop = args[1].clone();
    let dir = args[2].clone();
    let mut k = Sink::new(&prop, &dir);
    let mut st = State::default();
    // threads are given their own time to come to an end, see threads.rs
    watchdog(dir.clone(), prop, if args[0] == "threads" { 1000 } else { 150 });
    match args[0].as_str() {
        "cases" | "sessions" | "conv" | "threads" => {
            let stdin = std::io::stdin();
            let mut raw = std::io::BufWriter::new(File::create(format!("{dir}/tlc.log")).unwrap());
            for line in stdin.lock().lines() {
                let line = line.expect("input");
                match cases::parse_line(&line) {
                    Some(j) => {
                        one_line(&j, &mut st, &mut k);
                        k.idle();
                        if k.bad > 200 {
                            break;
                        }
                    }
                    None => writeln!(raw, "{line}").unwrap(),
                }
            }
        }
        "replay" => {
            let s = fs::read_to_string(&args[3]).expect("replay file");
            let j = json::parse(s.trim()).expect("replay file");
            let (a, b) = if j.has("group") { ("group", "history") } else { ("pattern", "case") };
            one_line(j.get(a), &mut st, &mut k);
            one_line(j.get(b), &mut st, &mut k);
        }
        "known" => {
            // the findings that are listed as known: does each still fail?
            if prop_has_split(&args[1]) {
                println!(
                    "KNOWN-FINDING: property=P20 consume(1) at 0 of the text \"\u{e9}\" succeeds and \
                     leaves the cursor inside the character (consume counts bytes)"
                );
            }
        }
        c => panic!("command {c}"),
    }
    k.finish();
    if k.bad > 0 { 1 } else { 0 }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("harness") || m.contains("precedes") {
            eprintln!("{m}");
        }
    }));
    diag::install();
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || work(args)).unwrap();
    match t.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(2),
    }
}
