//! A trace subscriber that a thread can turn on and off. Formats every event it
//! is given, and either throws the text away or keeps it.

use std::{
    cell::{Cell, RefCell},
    fmt::{self, Write},
};
use tracing::{
    field::{Field, Visit},
    span::{Attributes, Id, Record},
    subscriber::Interest,
    Event, Metadata, Subscriber,
};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Off,
    Discard,
    Keep,
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static TEXT: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Watcher;

struct Nowhere;

impl Write for Nowhere {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}

struct Fields<'a>(&'a mut dyn Write);

impl Visit for Fields<'_> {
    fn record_debug(&mut self, field: &Field, value: &dyn fmt::Debug) {
        let _ = write!(self.0, "{}={value:?} ", field.name());
    }
}

impl Subscriber for Watcher {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }

    fn enabled(&self, m: &Metadata<'_>) -> bool {
        MODE.with(|k| k.get()) != Mode::Off && m.target().starts_with("viadkim")
    }

    fn new_span(&self, a: &Attributes<'_>) -> Id {
        put(|w| a.record(&mut Fields(w)));
        Id::from_u64(1)
    }

    fn record(&self, _: &Id, values: &Record<'_>) {
        put(|w| values.record(&mut Fields(w)));
    }

    fn record_follows_from(&self, _: &Id, _: &Id) {}

    fn event(&self, e: &Event<'_>) {
        put(|w| {
            let _ = write!(w, "{}: ", e.metadata().target());
            e.record(&mut Fields(w));
            let _ = w.write_str("\n");
        });
    }

    fn enter(&self, _: &Id) {}

    fn exit(&self, _: &Id) {}
}

fn put(f: impl FnOnce(&mut dyn Write)) {
    EVENTS.with(|n| n.set(n.get() + 1));
    match MODE.with(|k| k.get()) {
        Mode::Off => {}
        Mode::Discard => f(&mut Nowhere),
        Mode::Keep => {
            let mut s = String::new();
            f(&mut s);
            TEXT.with(|t| t.borrow_mut().push_str(&s));
        }
    }
}

pub fn install() {
    tracing::subscriber::set_global_default(Watcher).expect("subscriber");
}

/// Sets the mode and resets what was kept.
pub fn set(m: Mode) {
    MODE.with(|k| k.set(m));
    EVENTS.with(|n| n.set(0));
    TEXT.with(|t| t.borrow_mut().clear());
}

/// Runs something with logging on; returns the log, and the number of events.
pub fn logged<T>(f: impl FnOnce() -> T) -> (T, String, u64) {
    let before = MODE.with(|k| k.get());
    set(Mode::Keep);
    let r = f();
    let (t, n) = (TEXT.with(|t| std::mem::take(&mut *t.borrow_mut())), EVENTS.with(|n| n.get()));
    set(before);
    (r, t, n)
}

/// Runs something with logging off.
pub fn silent<T>(f: impl FnOnce() -> T) -> T {
    let before = MODE.with(|k| k.get());
    set(Mode::Off);
    let r = f();
    set(before);
    r
}
