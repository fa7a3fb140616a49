//! Shared plumbing of the drivers: JSON lines in, JSON lines out, panics as data.
use serde_json::Value;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Seconds a single record may take before it counts as a hang.
const RECORD_LIMIT: u64 = 20;
/// Exit status of a driver that found itself hanging.
const HANG: i32 = 97;

/// Runs `f` on the JSON lines of the file named by the first argument, starting with the line whose
/// number is the third argument, and writes one result line each to the file named by the second.
/// When the driver dies, the number of lines written tells which record it was working on.
pub fn each_line(f: impl Fn(Value) -> Value) {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("input"));
    let mut out = BufWriter::new(std::fs::File::create(&args[2]).expect("output"));
    let from: usize = args.get(3).map_or(0, |s| s.parse().expect("start line"));
    std::panic::set_hook(Box::new(|_| {}));
    static STARTED: AtomicU64 = AtomicU64::new(0);
    let epoch = Instant::now();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let started = STARTED.load(Ordering::SeqCst);
            if started > 0 && epoch.elapsed().as_millis() as u64 - (started - 1) > RECORD_LIMIT * 1000 {
                std::process::exit(HANG);
            }
        }
    });
    for line in input.lines().skip(from) {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("json");
        STARTED.store(epoch.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let r = f(v);
        STARTED.store(0, Ordering::SeqCst);
        serde_json::to_writer(&mut out, &r).expect("write");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let text = if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        String::new()
    };
    format!("panic: {text}")
}

/// Calls `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}
