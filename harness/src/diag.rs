//! Active diagnostics back ends: every record is formatted and dropped.
#[allow(unused_imports)]
use std::sync::atomic::{AtomicU64, Ordering};

pub static RECORDS: AtomicU64 = AtomicU64::new(0);

#[cfg(feature = "log")]
struct L;

#[cfg(feature = "log")]
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = format!("{} {}", r.target(), r.args());
        if !s.is_empty() {
            RECORDS.fetch_add(1, Ordering::Relaxed);
        }
    }
    fn flush(&self) {}
}

#[cfg(feature = "log")]
pub fn install() {
    static LOGGER: L = L;
    log::set_logger(&LOGGER).expect("logger");
    log::set_max_level(log::LevelFilter::Trace);
}

#[cfg(feature = "tracing")]
struct S;

#[cfg(feature = "tracing")]
struct V(String);

#[cfg(feature = "tracing")]
impl tracing::field::Visit for V {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0 = format!("{f}={v:?}");
    }
}

#[cfg(feature = "tracing")]
impl tracing::Subscriber for S {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut v = V(String::new());
        e.record(&mut v);
        if !v.0.is_empty() {
            RECORDS.fetch_add(1, Ordering::Relaxed);
        }
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

#[cfg(all(feature = "tracing", not(feature = "log")))]
pub fn install() {
    tracing::dispatcher::set_global_default(tracing::Dispatch::new(S)).expect("subscriber");
}

#[cfg(not(any(feature = "log", feature = "tracing")))]
pub fn install() {}
