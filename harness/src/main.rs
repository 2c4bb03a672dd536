//! Conformance harness: executes cases (ndjson, one per line) against the code
//! in /repo's working tree and records what it observed (ndjson, one line per
//! case). It decides nothing: the recorded traces are judged by TLC against
//! the specifications in /verif/spec.
//!
//! usage: vh DOMAIN CASES.ndjson OUT.ndjson FROM SCRATCH_DIR
#![allow(dead_code, unused_imports, unexpected_cfgs)]

include!(concat!(env!("OUT_DIR"), "/more.rs"));

#[path = "/repo/src/store/mod.rs"]
mod store;

mod buffers;
mod codec;
mod column;
mod content;
mod decode;
mod reader;
mod segment;
mod sys;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Identifies the sources this binary was built from.
static BUILT_FROM: &str = env!("VH_BUILT_FROM");

/// A case that runs longer than this is recorded as a hang.
const CASE_TIMEOUT: Duration = Duration::from_secs(60);

static CASE_NO: AtomicU64 = AtomicU64::new(u64::MAX);
static PROGRESS: Mutex<Option<Instant>> = Mutex::new(None);

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`; Ok(its result) or Err(panic message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap()
}

/// A runtime whose clock jumps to the next timer whenever there is nothing to
/// do: a time limit in the code under test expires while a write is held.
pub fn impatient_runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap()
}

/// Runs a future that does no I/O of its own on a shared runtime.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime = runtime();
    }
    if ROVING.with(|r| r.get()) {
        static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
        rove(RT.get_or_init(pool), f)
    } else {
        RT.with(|rt| rt.block_on(f))
    }
}

pub fn pool() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap()
}

thread_local! {
    /// Futures are polled by another thread each time.
    pub static ROVING: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// Runs a future in a runtime with many threads of which each polls it once: a
/// task may go on in another thread after every await.
pub fn rove<F: std::future::Future>(rt: &tokio::runtime::Runtime, f: F) -> F::Output {
    struct Flag(std::sync::atomic::AtomicBool, std::thread::Thread);
    impl std::task::Wake for Flag {
        fn wake(self: std::sync::Arc<Self>) {
            self.0.store(true, Ordering::SeqCst);
            self.1.unpark();
        }
    }
    // one thread after the other uses it
    struct Moved<T>(T);
    unsafe impl<T> Send for Moved<T> {}

    let flag = std::sync::Arc::new(Flag(Default::default(), std::thread::current()));
    let waker: std::task::Waker = flag.clone().into();
    let mut f = Box::pin(f);
    loop {
        flag.0.store(false, Ordering::SeqCst);
        let moved = Moved((&mut f, &waker));
        let polled = std::thread::scope(|s| {
            s.spawn(move || {
                let moved = moved;
                let (f, waker) = moved.0;
                let _in = rt.enter();
                Moved(f.as_mut().poll(&mut std::task::Context::from_waker(waker)))
            })
            .join()
        });
        match polled {
            Ok(Moved(std::task::Poll::Ready(r))) => return r,
            Ok(_) => {}
            Err(p) => std::panic::resume_unwind(p),
        }
        while !flag.0.load(Ordering::SeqCst) {
            std::thread::park_timeout(Duration::from_millis(50));
        }
    }
}

/// Cases that are run in company take no longer.
const SMALL: Duration = Duration::from_millis(20);

/// Runs a case that needs nothing but memory, alone and then several times
/// while another thread runs others; the result that differs from the one of
/// the case alone is shown, if there is one.
fn in_company(run: fn(&Value) -> Value, case: &Value, others: &[Value]) -> Value {
    let t = Instant::now();
    let alone = run(case);
    if t.elapsed() > SMALL {
        return alone;
    }
    let stop = std::sync::atomic::AtomicBool::new(false);
    let begun = std::sync::atomic::AtomicBool::new(false);
    let odd = std::thread::scope(|s| {
        let t = s.spawn(|| {
            let expected: Vec<Value> = others.iter().map(run).collect();
            begun.store(true, Ordering::SeqCst);
            while !stop.load(Ordering::Relaxed) {
                for (o, e) in others.iter().zip(&expected) {
                    let r = run(o);
                    if r != *e {
                        return Some(r);
                    }
                }
            }
            None
        });
        while !begun.load(Ordering::SeqCst) && !t.is_finished() {
            std::thread::yield_now();
        }
        let odd = (0..30).map(|_| run(case)).find(|r| *r != alone);
        stop.store(true, Ordering::SeqCst);
        match t.join() {
            Ok(r) => odd.or(r),
            Err(p) => Some(json!({"ev": [], "crash": format!("panic: {}", panic_text(p))})),
        }
    });
    odd.unwrap_or(alone)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 {
        eprintln!("usage: vh DOMAIN CASES OUT FROM SCRATCH");
        std::process::exit(2);
    }
    let domain = args[1].clone();
    let input = std::fs::File::open(&args[2]).expect("cases");
    let out_path = args[3].clone();
    let from: u64 = args[4].parse().unwrap();
    let scratch = std::path::PathBuf::from(&args[5])
        .canonicalize()
        .expect("scratch directory");

    let mut out = std::io::BufWriter::new(
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&out_path)
            .expect("out"),
    );

    if std::env::var_os("VH_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }

    // Watchdog: a hang is an observation, not an error of the harness.
    {
        // opened before the code under test runs, see sys::outside
        let mut f = std::fs::OpenOptions::new().append(true).open(&out_path).unwrap();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let started = *PROGRESS.lock().unwrap();
            if let Some(t) = started {
                if t.elapsed() > CASE_TIMEOUT {
                    let n = CASE_NO.load(Ordering::SeqCst);
                    let _ = writeln!(f, "{}", json!({"i": n, "crash": "hang"}));
                    std::process::exit(97);
                }
            }
        });
    }

    let mut slow = 0;
    let mut small: Vec<Value> = Vec::new();
    for (i, line) in std::io::BufReader::new(input).lines().enumerate() {
        let line = line.unwrap();
        if (i as u64) < from || line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case");
        CASE_NO.store(i as u64, Ordering::SeqCst);
        // large cases say how much longer they may take
        let patience = Duration::from_secs(case["patience"].as_u64().unwrap_or(0));
        *PROGRESS.lock().unwrap() = Some(Instant::now() + patience);
        let mut res = match domain.as_str() {
            "column" => column::run(&case),
            "buffers" | "rle" | "varint" => {
                let run = match domain.as_str() {
                    "buffers" => buffers::run,
                    "rle" => codec::run_rle,
                    _ => codec::run_varint,
                };
                if i % 25 == 7 && line.len() < 1500 && !small.is_empty() {
                    in_company(run, &case, &small)
                } else {
                    let t = Instant::now();
                    let r = run(&case);
                    if line.len() < 1500 && t.elapsed() < SMALL {
                        small.push(case.clone());
                        if small.len() > 4 {
                            small.remove(0);
                        }
                    }
                    r
                }
            }
            "reader" => reader::run(&case, &scratch),
            "segment" => segment::run(&case, &scratch),
            "writer" => segment::run_writer(&case, &scratch),
            "matrix" => column::run_matrix(&case, &scratch),
            _ => {
                eprintln!("unknown domain {}", domain);
                std::process::exit(2);
            }
        };
        *PROGRESS.lock().unwrap() = None;
        res["i"] = json!(i);
        writeln!(out, "{}", res).unwrap();
        out.flush().unwrap();
        // each of these waited in vain for a long time: a few are enough
        slow += (res["slow"] == true) as u32;
        if slow == 3 {
            break;
        }
    }
}
