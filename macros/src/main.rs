//! Replays the macro notation: every written form of the model is compiled
//! with the macros of the implementation (FORMS is generated from the model's
//! `F` lines) and run on every input; the outcome must be the specified one.
//!
//! macros PROP DIR < TLC's output
#[path = "../../harness/src/json.rs"]
#[allow(dead_code)]
mod json;

use json::J;
use neure::prelude::*;
#[allow(unused_imports)]
use neure::{escape_strval, neu, regex};
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::io::{BufRead, Write};

/// recognised span and final cursor, or the cursor after the failure
type Seen = (bool, usize, usize, usize);

/// the match, and the piece handed to construction
type Got = (Seen, Option<(usize, usize)>);

fn text<'a, P>(p: P, s: &'a str) -> Got
where
    P: Regex<CharsCtx<'a>> + neure::ctor::Ctor<CharsCtx<'a>, &'a str, neure::ctor::Extract<&'a str>>,
{
    let mut c = CharsCtx::new(s);
    let r = c.try_mat(&p);
    let m = match r {
        Ok(x) => (true, c.offset(), x.beg, x.len),
        Err(_) => (false, c.offset(), 0, 0),
    };
    let v = CharsCtx::new(s).ctor(&p).ok();
    (m, v.map(|v| (v.as_ptr() as usize - s.as_ptr() as usize, v.len())))
}

fn bytes<'a, P>(p: P, s: &'a [u8]) -> Got
where
    P: Regex<BytesCtx<'a>> + neure::ctor::Ctor<BytesCtx<'a>, &'a [u8], neure::ctor::Extract<&'a [u8]>>,
{
    let mut c = BytesCtx::new(s);
    let r = c.try_mat(&p);
    let m = match r {
        Ok(x) => (true, c.offset(), x.beg, x.len),
        Err(_) => (false, c.offset(), 0, 0),
    };
    let v = BytesCtx::new(s).ctor(&p).ok();
    (m, v.map(|v| (v.as_ptr() as usize - s.as_ptr() as usize, v.len())))
}

include!(env!("FORMS"));

fn unquote(l: &str) -> Option<String> {
    let l = l.strip_prefix('"')?.strip_suffix('"')?;
    if !l.starts_with("[\\\"C\\\"") {
        return None;
    }
    Some(l.replace("\\\"", "\"").replace("\\\\", "\\"))
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (prop, dir) = (&a[0], &a[1]);
    fs::create_dir_all(dir).unwrap();
    let mut raw = std::io::BufWriter::new(File::create(format!("{dir}/tlc.log")).unwrap());
    let mut n: BTreeMap<String, i64> = BTreeMap::new();
    let mut bad = 0;
    let mut samples = vec![];
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let Some(t) = unquote(&line) else {
            if !line.starts_with("\"[") {
                writeln!(raw, "{line}").unwrap();
            }
            continue;
        };
        let l = json::parse(&t).expect("line");
        let id = form(l.at(1).i(), l.at(2).i());
        let cs: Vec<u32> = l.at(4).arr().iter().map(|c| c.i() as u32).collect();
        let txt = l.at(3).s() == "t";
        let s: String = if txt { cs.iter().map(|c| char::from_u32(*c).unwrap()).collect() } else { String::new() };
        let b: Vec<u8> = if txt { vec![] } else { cs.iter().map(|c| *c as u8).collect() };
        let got = std::panic::catch_unwind(|| if txt { run_text(id, &s) } else { run_bytes(id, &b) });
        let e = l.at(11);
        let want = (e.at(0).b(), e.at(1).u(), e.at(2).u(), e.at(3).u());
        let ok = match &got {
            Ok((m, v)) => *m == want && *v == want.0.then_some((want.2, want.3)),
            Err(_) => false,
        };
        for k in ["executions", "cases", if want.0 { "succeeding" } else { "failing" }] {
            *n.entry(k.into()).or_default() += 1;
        }
        if samples.len() < 4 && n["cases"] % 20011 == 7 {
            samples.push(J::Str(format!("{} on {:?}: {:?}", SRC[id], cs, want).replace(['"', '\\'], "'")));
        }
        if !ok {
            bad += 1;
            let what = format!("{{\"form\":{:?},\"input\":{:?},\"text\":{},\"required\":{:?},\"observed\":{:?}}}",
                SRC[id], cs, txt, format!("{want:?}"), format!("{got:?}"));
            let path = format!("{dir}/replay.json");
            if bad == 1 {
                fs::write(&path, format!("{what}\n")).unwrap();
                println!("VIOLATION property={prop} replay={path}");
            }
            if bad <= 5 {
                eprintln!("mismatch: {what}");
            }
        }
    }
    raw.flush().unwrap();
    let mut o: Vec<(String, J)> = n.into_iter().map(|(k, v)| (k, J::Int(v))).collect();
    o.push(("forms".into(), J::Int(SRC.len() as i64)));
    o.push(("samples".into(), J::Arr(samples)));
    fs::write(format!("{dir}/summary.json"), J::Obj(o).show()).unwrap();
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
