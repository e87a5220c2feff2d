//! Recording of traces: one JSON object per line, `{"id": ..., "ev": [...]}`.
//! A call into the code under test that panics is recorded with result kind "panic"; one that does
//! not return in time with kind "hang" (watchdog); one that takes the process down is completed by
//! the driver from the progress file with kind "crash".
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

struct Inner {
    out: BufWriter<File>,
    progress: File,
    id: String,
    ev: Vec<Value>,
    pending: Option<(Value, Instant)>,
    traces: usize,
    events: usize,
    dropped: usize,
}

thread_local! {
    /// a panic on this thread is caught and judged
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn guarded<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    r
}

static REC: OnceLock<Mutex<Inner>> = OnceLock::new();

fn rec() -> std::sync::MutexGuard<'static, Inner> {
    REC.get().expect("recorder").lock().unwrap_or_else(|e| e.into_inner())
}

/// ASCII-only JSON, so that no tool downstream depends on a default character encoding.
pub fn ascii(v: &Value) -> String {
    let s = serde_json::to_string(v).unwrap();
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        if c.is_ascii() && c != '\u{7f}' {
            o.push(c);
        } else {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{:04x}", u));
            }
        }
    }
    o
}

impl Inner {
    fn write_trace(&mut self) {
        if self.ev.is_empty() {
            return;
        }
        let line = ascii(&json!({"id": self.id, "ev": self.ev}));
        self.out.write_all(line.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.traces += 1;
        self.events += self.ev.len();
        self.ev.clear();
    }
}

pub fn init(dir: &Path, limit: Duration) {
    let inner = Inner {
        out: BufWriter::new(File::create(dir.join("traces.ndjson")).unwrap()),
        progress: File::create(dir.join("progress")).unwrap(),
        id: String::new(),
        ev: vec![],
        pending: None,
        traces: 0,
        events: 0,
        dropped: 0,
    };
    REC.set(Mutex::new(inner)).ok().unwrap();
    std::panic::set_hook(Box::new(|p| {
        if !GUARDED.with(|g| g.get()) {
            eprintln!("harness: {p}");
        }
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let mut r = rec();
        if let Some((op, since)) = &r.pending {
            if since.elapsed() > limit {
                let mut op = op.clone();
                op["r"] = json!({"k": "hang"});
                r.ev.push(op);
                r.write_trace();
                r.out.flush().unwrap();
                println!("STATS {} {} {}", r.traces, r.events, r.dropped);
                std::process::exit(7);
            }
        }
    });
}

pub fn begin(id: String) {
    let mut r = rec();
    assert!(r.ev.is_empty(), "trace not ended");
    r.id = id.clone();
    use std::io::Seek;
    r.progress.set_len(0).unwrap();
    r.progress.rewind().unwrap();
    let l = format!("{}\n", ascii(&json!({ "id": id })));
    r.progress.write_all(l.as_bytes()).unwrap();
}

pub fn end() {
    let mut r = rec();
    r.write_trace();
}

/// Forget the trace being recorded: its set-up failed for reasons this suite does not judge.
pub fn drop_trace() {
    let mut r = rec();
    r.ev.clear();
    r.dropped += 1;
}

/// Record an event that needs no call.
pub fn note(ev: Value) {
    let mut r = rec();
    let l = format!("{}\n", ascii(&ev));
    r.progress.write_all(l.as_bytes()).unwrap();
    r.ev.push(ev);
}

/// Run `f`, record `op` with what it observed as "r". Returns f's side value unless it panicked.
pub fn call<T>(mut op: Value, f: impl FnOnce() -> (Value, T)) -> Option<T> {
    {
        let mut r = rec();
        let l = format!("PENDING {}\n", ascii(&op));
        r.progress.write_all(l.as_bytes()).unwrap();
        r.pending = Some((op.clone(), Instant::now()));
    }
    let res = guarded(f);
    let mut r = rec();
    r.pending = None;
    let out = match res {
        Ok((v, t)) => {
            op["r"] = v;
            Some(t)
        }
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            op["r"] = json!({"k": "panic", "m": m});
            None
        }
    };
    let l = format!("{}\n", ascii(&op));
    r.progress.write_all(l.as_bytes()).unwrap();
    r.ev.push(op);
    out
}

/// Run set-up code that is not judged; None if it panicked.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    {
        let mut r = rec();
        r.pending = Some((json!({"op": "setup"}), Instant::now()));
    }
    let res = guarded(f).ok();
    rec().pending = None;
    res
}

pub fn finish() {
    let mut r = rec();
    r.out.flush().unwrap();
    println!("STATS {} {} {}", r.traces, r.events, r.dropped);
}
