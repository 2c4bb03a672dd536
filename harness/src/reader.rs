//! Batch reads through the block reader, free-running or following a schedule
//! of polls and completions generated from spec/BlockReader.tla.

use crate::content::*;
use crate::store::verif::io::*;
use crate::{guarded, impatient_runtime, runtime, sys};
use futures::stream::BoxStream;
use futures::{Stream, StreamExt};
use serde_json::{json, Value};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake};
use std::time::{Duration, Instant};

struct Flag(AtomicBool, std::thread::Thread);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
        self.1.unpark();
    }
}

fn info_of(op: &Value) -> OpInfo {
    match op[2].as_u64().unwrap() {
        0 => OpInfo::GenericBlock,
        1 => OpInfo::IndexBlock,
        _ => OpInfo::DataBlock { first_row_id: op[3].as_u64().unwrap() as u32 },
    }
}

fn info_json(i: &OpInfo) -> Value {
    match i {
        OpInfo::GenericBlock => json!([0, 0]),
        OpInfo::IndexBlock => json!([1, 0]),
        OpInfo::DataBlock { first_row_id } => json!([2, first_row_id]),
    }
}

fn big(v: &Value) -> u64 {
    // numbers beyond TLC's range are given as strings
    v.as_u64().unwrap_or_else(|| v.as_str().unwrap().parse().unwrap())
}

/// Where the bytes are in the file: [lo, hi], or [-1, -1].
fn locate(content: &[u8], buf: &[u8], hint: u64) -> (i64, i64) {
    let h = hint as usize;
    if h.checked_add(buf.len()).map(|e| e <= content.len()).unwrap_or(false)
        && &content[h..h + buf.len()] == buf
    {
        return (hint as i64, hint as i64 + buf.len() as i64);
    }
    if !buf.is_empty() && buf.len() <= content.len() {
        for (i, w) in content.windows(buf.len()).enumerate().take(1 << 16) {
            if w == buf {
                return (i as i64, (i + buf.len()) as i64);
            }
        }
    }
    (-1, -1)
}

type Item = Result<Block<Vec<u8>>, BlockError>;

/// Without the hole that is in front of the content, if it is there.
fn without_hole(mut buf: Vec<u8>, hole: u64) -> Vec<u8> {
    if hole > 0 && buf.len() as u64 >= hole && buf[..hole as usize].iter().all(|x| *x == 0) {
        buf.split_off(hole as usize)
    } else if hole > 0 {
        vec![]
    } else {
        buf
    }
}

/// `hole`: the operation began at the start of the file and not of the content.
fn item_json(item: Item, content: &[u8], hint: u64, hole: u64) -> Value {
    match item {
        Ok(b) => {
            let (buf, info) = block_parts(b);
            let (lo, hi) = locate(content, &without_hole(buf, hole), hint);
            json!({"ok": true, "info": info_json(&info), "lo": lo, "hi": hi})
        }
        Err(e) => {
            let (_, info) = block_error_parts(e);
            json!({"ok": false, "info": info_json(&info), "lo": -1, "hi": -1})
        }
    }
}

pub fn run(case: &Value, scratch: &std::path::Path) -> Value {
    let dir = scratch.join("reader");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("file.dat");
    let size = case["size"].as_u64().unwrap() as usize;
    let seed = case["seed"].as_u64().unwrap();
    let content = noise(seed, size);
    // a hole in front of the content makes the file as large as wanted
    let base = case["base"].as_u64().unwrap_or(0);
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(&path).unwrap();
        if case["rewrite"] == true {
            f.write_all_at(&noise(seed + 1, size), base).unwrap();
        } else {
            f.write_all_at(&content, base).unwrap();
        }
        f.set_len(base + size as u64).unwrap();
    }
    let ops: Vec<Value> = case["ops"].as_array().unwrap().clone();
    let sched = case["steps"].is_array();
    let mut faults = sys::faults_of(&case["faults"]);
    for f in &mut faults {
        if f.call == "read" {
            f.nth += base;
        }
    }
    if sched {
        // batches before this one, on the same reader
        sys::arm(&dir, vec![], false);
    } else {
        sys::arm(&dir, faults.clone(), false);
    }
    let r = guarded(|| {
        if sched {
            run_sched(case, &ops, &path, &content, || sys::arm(&dir, faults, true))
        } else {
            run_free(case, &ops, &path, &content)
        }
    });
    sys::open_gate();
    let max = sys::max_outstanding();
    sys::disarm();
    let shown: Vec<Value> = ops
        .iter()
        .zip(case["shape"].as_array().unwrap())
        .map(|(o, s)| {
            // ranges beyond TLC's integers are shown by their shape only
            let small = |v: &Value| v.as_u64().filter(|x| *x < 1 << 30).map(|x| x as i64).unwrap_or(-1);
            json!({"start": small(&o[0]), "end": small(&o[1]),
                   "info": [o[2], if o[2] == 2 { o[3].clone() } else { json!(0) }], "shape": s})
        })
        .collect();
    let mut out = json!({
        "ops": shown, "size": size, "ev": [], "max": max, "crash": "", "len": -1, "slow": false,
        "cut": case["truncate"].is_u64(),
        "mode": if sched { "sched" } else { "free" },
    });
    match r {
        Ok((len, ev)) => {
            let steps = case["steps"].as_array().map(|s| s.len() + 1).unwrap_or(0);
            let n = ev.as_array().unwrap().len();
            out["slow"] = json!(n < steps || ev.as_array().unwrap().iter().any(|e| e["out"] == "stall"));
            let given_up = |b: &Value| b[1].as_u64() < b[2].as_u64();
            if case["beside"].is_array() || case["before"].as_array().map(|b| b.iter().any(given_up)) == Some(true) {
                // two batches together, or reads of an abandoned one
                out["max"] = json!(0);
            }
            out["ev"] = ev;
            out["len"] = json!(len.wrapping_sub(base).min(1 << 30));
        }
        Err(p) => out["crash"] = json!(format!("panic: {}", p)),
    }
    let _ = std::fs::remove_file(&path);
    out
}

/// The operations of a case count from where its content begins.
fn read_ops(ops: &[Value], base: u64) -> Vec<ReadOp> {
    ops.iter().map(|o| read_op(first(base, o), at(base, &o[1]), info_of(o))).collect()
}

/// Some operations read the hole as well.
fn first(base: u64, op: &Value) -> u64 {
    at(base, &op[0]) - hole(base, op)
}

fn hole(base: u64, op: &Value) -> u64 {
    if op[4] == "hole" {
        base
    } else {
        0
    }
}

fn at(base: u64, v: &Value) -> u64 {
    big(v).saturating_add(base)
}

/// Batches on the same reader, before the one that is judged: [how often,
/// results taken, operations].
async fn batches_before(case: &Value, ops: &[Value], base: u64, reader: &Reader, patience: Option<u64>) {
    for b in case["before"].as_array().unwrap_or(&vec![]) {
        let some: Vec<Value> = ops.iter().take(b[2].as_u64().unwrap() as usize).cloned().collect();
        for _ in 0..b[0].as_u64().unwrap() {
            let mut s = reader.read_blocks(read_ops(&some, base));
            for _ in 0..b[1].as_u64().unwrap() {
                if !matches!(within(patience, s.next()).await, Some(Some(_))) {
                    break;
                }
            }
        }
    }
}

/// The result, or None after so many seconds.
async fn within<F: std::future::Future>(secs: Option<u64>, f: F) -> Option<F::Output> {
    match secs {
        None => Some(f.await),
        Some(n) => tokio::time::timeout(Duration::from_secs(n), f).await.ok(),
    }
}

fn run_free(case: &Value, ops: &[Value], path: &std::path::Path, content: &[u8]) -> (u64, Value) {
    // with virtual time the case itself has no time limits
    let impatient = case["impatient"] == true;
    let rt = if impatient { impatient_runtime() } else { runtime() };
    let single = case["single"] == true;
    let patience = if impatient { None } else { case["patience"].as_u64().or(Some(20)) };
    let base = case["base"].as_u64().unwrap_or(0);
    rt.block_on(async {
        let reader = Reader::new(path).await.expect("open");
        let mut ev = Vec::new();
        batches_before(case, ops, base, &reader, patience).await;
        // the file is changed while it is open
        let file = || std::fs::OpenOptions::new().write(true).open(path).unwrap();
        if let Some(n) = case["truncate"].as_u64() {
            file().set_len(base + n).unwrap();
        }
        if case["rewrite"] == true {
            std::os::unix::fs::FileExt::write_all_at(&file(), content, base).unwrap();
        }
        if single {
            for o in ops {
                let r = reader.read_block(block_range(first(base, o), at(base, &o[1]))).await;
                ev.push(match r {
                    Ok(buf) => {
                        let (lo, hi) = locate(content, &without_hole(buf, hole(base, o)), big(&o[0]));
                        json!({"op": "poll", "out": "item", "ok": true, "info": info_json(&info_of(o)), "lo": lo, "hi": hi})
                    }
                    Err(_) => json!({"op": "poll", "out": "item", "ok": false, "info": info_json(&info_of(o)), "lo": -1, "hi": -1}),
                });
            }
            ev.push(json!({"op": "poll", "out": "end"}));
            return (reader.len(), json!(ev));
        }
        // another batch on the same reader, consumed at the same time
        let other = case["beside"].as_array().cloned().unwrap_or_default();
        let reader2 = if case["clone"] == true { reader.clone() } else { Reader::new(path).await.expect("open") };
        let second = if case["clone"] == true { &reader2 } else { &reader };
        let beside = async {
            let mut s = second.read_blocks(read_ops(&other, base));
            let mut n = 0;
            while let Some(_) = s.next().await {
                n += 1;
                if n > other.len() + 3 {
                    break;
                }
            }
        };
        let mut s = reader.read_blocks(read_ops(ops, base));
        let mut k = 0;
        let main = async { loop {
            match within(patience, s.next()).await {
                None => {
                    ev.push(json!({"op": "poll", "out": "stall"}));
                    break;
                }
                Some(None) => {
                    ev.push(json!({"op": "poll", "out": "end"}));
                    break;
                }
                Some(Some(item)) => {
                    let hint = ops.get(k).map(|o| big(&o[0])).unwrap_or(0);
                    let h = ops.get(k).map(|o| hole(base, o)).unwrap_or(0);
                    let mut j = item_json(item, content, hint, h);
                    j["op"] = json!("poll");
                    j["out"] = json!("item");
                    ev.push(j);
                    k += 1;
                    if k > ops.len() + 3 {
                        break;
                    }
                }
            }
        } };
        let _ = within(patience.map(|p| p + 5), async { futures::join!(main, beside) }).await;
        drop(s);
        (reader.len(), json!(ev))
    })
}

fn run_sched(
    case: &Value,
    ops: &[Value],
    path: &std::path::Path,
    content: &[u8],
    arm: impl FnOnce(),
) -> (u64, Value) {
    let base = case["base"].as_u64().unwrap_or(0);
    let before = runtime();
    let reader = before.block_on(async {
        let reader = Reader::new(path).await.expect("open");
        batches_before(case, ops, base, &reader, Some(20)).await;
        reader
    });
    // waits for the reads of abandoned batches
    drop(before);
    arm();
    let rt = runtime();
    let _enter = rt.enter();
    let flag = Arc::new(Flag(AtomicBool::new(false), std::thread::current()));
    let mut flag = flag;
    let fresh = case["wakers"] == "fresh";
    let mut stream: Option<BoxStream<'_, Item>> = Some(reader.read_blocks(read_ops(ops, base)));
    let mut ev: Vec<Value> = Vec::new();
    let mut taken = 0usize;
    // the operations that read something have different offsets
    let reads = |k: usize| case["shape"][k] != "bad" && big(&ops[k][0]) < big(&ops[k][1]);
    let op_at = |off: u64| {
        (0..ops.len()).find(|k| reads(*k) && at(base, &ops[*k][0]) == off).map(|x| x + 1).unwrap_or(0)
    };

    let settle = |n: usize| {
        // reads are started by other threads
        let late = !sys::wait_started(n, Duration::from_millis(5000));
        std::thread::sleep(Duration::from_micros(case["settle"].as_u64().unwrap_or(700)));
        let s = sys::started();
        let started: Vec<usize> = s.iter().map(|o| op_at(*o)).collect();
        (started, sys::outstanding(), late)
    };

    for step in case["steps"].as_array().unwrap() {
        let expect = step["started"].as_u64().unwrap() as usize;
        let mut e = match step["op"].as_str().unwrap() {
            "poll" => {
                let want_item = step["out"] != "pending";
                let t = Instant::now();
                loop {
                    if fresh {
                        // another task polls; only the last one has to be woken
                        flag = Arc::new(Flag(AtomicBool::new(false), std::thread::current()));
                    }
                    flag.0.store(false, Ordering::SeqCst);
                    let waker = flag.clone().into();
                    let mut cx = Context::from_waker(&waker);
                    match stream.as_mut().unwrap().as_mut().poll_next(&mut cx) {
                        Poll::Ready(Some(item)) => {
                            let hint = ops.get(taken).map(|o| big(&o[0])).unwrap_or(0);
                            taken += 1;
                            let mut j = item_json(item, content, hint, 0);
                            j["op"] = json!("poll");
                            j["out"] = json!("item");
                            break j;
                        }
                        Poll::Ready(None) => break json!({"op": "poll", "out": "end"}),
                        Poll::Pending => {
                            if !want_item {
                                break json!({"op": "poll", "out": "pending"});
                            }
                            // a consumer polls again when it is woken
                            while !flag.0.load(Ordering::SeqCst)
                                && t.elapsed() < Duration::from_secs(10)
                            {
                                std::thread::park_timeout(Duration::from_millis(100));
                            }
                            if !flag.0.load(Ordering::SeqCst) || t.elapsed() > Duration::from_secs(20) {
                                break json!({"op": "poll", "out": "stall"});
                            }
                        }
                    }
                }
            }
            "rel" => {
                let k = step["k"].as_u64().unwrap() as usize;
                let ok = sys::release(
                    at(base, &ops[k - 1][0]),
                    step["act"].as_str().unwrap(),
                    step["arg"].as_u64().unwrap_or(1),
                );
                json!({"op": "rel", "k": k, "act": step["act"], "found": ok})
            }
            "look" => json!({"op": "look"}),
            "drop" => {
                stream = None;
                json!({"op": "drop"})
            }
            o => panic!("step {}", o),
        };
        let (started, out, late) = settle(expect);
        e["started"] = json!(started);
        e["outstanding"] = json!(out);
        let stalled = late || e["out"] == "stall";
        ev.push(e);
        if stalled {
            // the rest of the schedule makes no sense any more
            break;
        }
    }
    // let the reads in progress finish; after a drop no other may start
    sys::open_gate();
    let t = Instant::now();
    while sys::outstanding() > 0 && t.elapsed() < Duration::from_secs(2) {
        std::thread::sleep(Duration::from_micros(200));
    }
    let (started, out, _) = settle(0);
    ev.push(json!({"op": "final", "started": started, "outstanding": out}));
    drop(stream);
    (reader.len(), json!(ev))
}
