//! Stand-in for slog-term: accepts every record and prints nothing, so that a
//! simulated run produces no output and does not read the wall clock. The
//! simulator can ask to see the records.
use slog::{Drain, OwnedKVList, Record};
use std::cell::RefCell;
use std::fmt::Write;
use std::io;
use std::sync::{Arc, Mutex};

/// A record as it reached the terminal.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub level: slog::Level,
    pub file: String,
    pub line: u32,
    pub column: u32,
    pub msg: String,
    pub pairs: Vec<(String, String)>,
}
pub type Sink = Arc<Mutex<Vec<Seen>>>;
thread_local! {
    static SINK: RefCell<Option<Sink>> = const { RefCell::new(None) };
}
/// Lets the simulator see what is printed on this thread.
pub fn capture(sink: Option<Sink>) {
    SINK.with(|s| *s.borrow_mut() = sink);
}
struct Pairs(Vec<(String, String)>);
impl slog::Serializer for Pairs {
    fn emit_arguments(&mut self, key: slog::Key, val: &std::fmt::Arguments) -> slog::Result {
        let mut v = String::new();
        let _ = v.write_fmt(*val);
        self.0.push((key.to_string(), v));
        Ok(())
    }
}

pub struct PlainSyncDecorator<W>(std::marker::PhantomData<fn(W)>);
impl<W: io::Write> PlainSyncDecorator<W> {
    pub fn new(_io: W) -> Self {
        PlainSyncDecorator(std::marker::PhantomData)
    }
}
pub struct TermDecorator;
pub struct TermDecoratorBuilder;
impl TermDecorator {
    pub fn new() -> TermDecoratorBuilder {
        TermDecoratorBuilder
    }
}
impl TermDecoratorBuilder {
    pub fn build(self) -> TermDecorator {
        TermDecorator
    }
}
pub struct FullFormat<D>(std::marker::PhantomData<fn(D)>);
pub struct FullFormatBuilder<D>(std::marker::PhantomData<fn(D)>);
impl<D> FullFormat<D> {
    pub fn new(_d: D) -> FullFormatBuilder<D> {
        FullFormatBuilder(std::marker::PhantomData)
    }
}
impl<D> FullFormatBuilder<D> {
    pub fn build(self) -> FullFormat<D> {
        FullFormat(std::marker::PhantomData)
    }
}
impl<D> Drain for FullFormat<D> {
    type Ok = ();
    type Err = io::Error;
    fn log(&self, record: &Record, values: &OwnedKVList) -> io::Result<()> {
        SINK.with(|s| {
            if let Some(s) = &*s.borrow() {
                use slog::KV;
                let mut pairs = Pairs(Vec::new());
                let _ = record.kv().serialize(record, &mut pairs);
                let _ = values.serialize(record, &mut pairs);
                s.lock().unwrap().push(Seen {
                    level: record.level(),
                    file: record.file().to_string(),
                    line: record.line(),
                    column: record.column(),
                    msg: record.msg().to_string(),
                    pairs: pairs.0,
                });
            }
        });
        Ok(())
    }
}
