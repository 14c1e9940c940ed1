//! A `tracing` subscriber that wants everything and renders every field of it, so
//! that whatever the library computes only for its log is computed too.
use std::fmt::Write;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use tracing_core::field::{Field, Visit};
use tracing_core::subscriber::Interest;
use tracing_core::{dispatcher, span, Dispatch, Event, Metadata, Subscriber};

/// Counts what is written and forgets it.
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl Visit for Sink {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self, "{}={v:?}", f.name());
    }
}

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
static IDS: AtomicU64 = AtomicU64::new(1);
struct All;
impl Subscriber for All {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        // ask every time: outside `logged` nobody listens
        Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let mut s = Sink(0);
        a.record(&mut s);
        BYTES.set(BYTES.get() + s.0);
        span::Id::from_u64(IDS.fetch_add(1, Ordering::Relaxed))
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        let mut s = Sink(0);
        r.record(&mut s);
        BYTES.set(BYTES.get() + s.0);
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut s = Sink(0);
        e.record(&mut s);
        BYTES.set(BYTES.get() + s.0);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

/// Run `f` while everything it logs is recorded; also tells how many bytes of log
/// that made.
pub fn logged<T>(f: impl FnOnce() -> T) -> (T, u64) {
    // With a single dispatcher in the process a call site would take the answer of
    // whatever thread reaches it first, for good; with two, both are asked.
    static D: OnceLock<[Dispatch; 2]> = OnceLock::new();
    let d = &D.get_or_init(|| [Dispatch::new(All), Dispatch::new(All)])[0];
    let was = BYTES.get();
    let r = dispatcher::with_default(d, f);
    (r, BYTES.get() - was)
}
