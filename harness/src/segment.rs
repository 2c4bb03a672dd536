//! Segments and block writers, with the file system calls they make.

use crate::column::{bufs_of, merged, project, Appended};
use crate::content::*;
use crate::store::verif::io::*;
use crate::store::verif::segment_metadata as meta;
use crate::store::verif::*;
use crate::{guarded, impatient_runtime, runtime, sys};
use futures::StreamExt;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::AssertUnwindSafe;
use std::path::Path;
use std::rc::Rc;

fn text(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

fn res<T, E: std::fmt::Debug>(r: &Result<T, E>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("error: {:?}", e).replace('\n', " ").chars().take(200).collect(),
    }
}

struct Col {
    app: Appended,
    entries: Vec<(u32, u64)>,
    rows: Vec<(u64, u64, usize)>,
    taken: usize, // runs of rows in calls that returned success
    opened: bool,
    closed: bool,
}

struct SegOut {
    cols: Vec<Col>,
    ok: bool,
    closed: bool,
    failed: String,
}

fn uuid_of(hex: &str) -> uuid::Uuid {
    uuid::Uuid::parse_str(hex).unwrap()
}

/// Waits for its turn before every call to the segment writer.
struct Turns {
    go: tokio::sync::mpsc::UnboundedReceiver<()>,
    done: tokio::sync::mpsc::UnboundedSender<()>,
    first: bool,
}

impl Turns {
    /// Every turn is its own.
    fn none() -> Self {
        let (_, go) = tokio::sync::mpsc::unbounded_channel();
        let (done, _) = tokio::sync::mpsc::unbounded_channel();
        Turns { go, done, first: true }
    }

    async fn next(&mut self) {
        if !self.first {
            let _ = self.done.send(());
        }
        self.first = false;
        let _ = self.go.recv().await;
    }
}

impl Drop for Turns {
    fn drop(&mut self) {
        if !self.first {
            let _ = self.done.send(());
        }
    }
}

/// A future with block indexes flushed of its own, also when several run in a
/// thread.
struct Own<F> {
    inner: std::pin::Pin<Box<F>>,
    flushed: Option<Vec<(u32, u64)>>,
    noted: Vec<(u32, u64)>,
}

impl<F> Own<F> {
    fn new(inner: F) -> Self {
        Own { inner: Box::pin(inner), flushed: None, noted: vec![] }
    }

    fn swap(&mut self) {
        FLUSHED.with(|f| std::mem::swap(&mut *f.borrow_mut(), &mut self.flushed));
        NOTED.with(|n| std::mem::swap(&mut *n.borrow_mut(), &mut self.noted));
    }
}

impl<F: std::future::Future> std::future::Future for Own<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        let this = &mut *self;
        this.swap();
        let r = this.inner.as_mut().poll(cx);
        this.swap();
        r
    }
}

async fn drive(seg: &Value, s: usize, dir: &Path, out: Rc<RefCell<SegOut>>, mut turns: Turns) {
    let api = |call: &str, c: usize, r: &str, pos: i64| {
        sys::note(json!({"op": "api", "s": s, "call": call, "c": c, "res": r, "pos": pos}));
        let ok = r == "ok";
        if !ok {
            out.borrow_mut().ok = false;
            out.borrow_mut().failed = r.to_string();
        }
        ok
    };
    turns.next().await;
    let r = SegmentWriter::new(
        dir,
        SegmentInfo {
            segment_id: uuid_of(seg["id"].as_str().unwrap()),
            database_name: text(&seg["db"]),
            table_name: text(&seg["table"]),
            shard_id: seg["shard"].as_u64().unwrap() as u32,
            num_rows: seg["rows"].as_u64().unwrap() as u32,
        },
    )
    .await;
    if !api("new", 0, &res(&r), -1) {
        return;
    }
    let mut w = r.ok().unwrap();
    for (c, col) in seg["cols"].as_array().unwrap().iter().enumerate() {
        let nullable = col["nullable"].as_bool().unwrap();
        let unit = col["unit"].as_u64().unwrap_or(1) as usize;
        let seed = col["seed"].as_u64().unwrap();
        out.borrow_mut().cols.push(Col {
            app: Appended::default(),
            entries: vec![],
            rows: vec![],
            taken: 0,
            opened: false,
            closed: false,
        });
        turns.next().await;
        let info = ColumnInfo {
            name: text(&col["name"]),
            column_type: meta::ColumnType::from_i32(col["ctype"].as_i64().unwrap() as i32).unwrap(),
            encoding: meta::Encoding::from_i32(col["enc"].as_i64().unwrap_or(0) as i32).unwrap(),
            index_type: meta::IndexType::from_i32(col["index"].as_i64().unwrap() as i32).unwrap(),
            nullable,
        };
        let mut flushed = None;
        {
            let r = w.new_binary_column_writer(info);
            if !api("col", c, &res(&r), -1) {
                return;
            }
            let mut cw = r.ok().unwrap();
            out.borrow_mut().cols[c].opened = true;
            let mut shared = BinaryBuffer::new(nullable);
            for runs in bufs_of(&col["bufs"]) {
                turns.next().await;
                let mut fresh = BinaryBuffer::new(nullable);
                let buf = if col["reuse"] == true { &mut shared } else { &mut fresh };
                buf.clear();
                for (kind, n, len) in &runs {
                    for _ in 0..*n {
                        if *kind == 1 {
                            let o = &mut out.borrow_mut();
                            let v = if col["zero"] == true {
                                vec![0; *len]
                            } else {
                                bytes_of(seed, o.cols[c].app.vals.len() as u64, *len)
                            };
                            buf.append(&v);
                            o.cols[c].app.add(v);
                        } else {
                            buf.append_null();
                        }
                    }
                }
                out.borrow_mut().cols[c].rows.extend(
                    runs.iter().map(|(k, n, l)| (*k, *n, if *k == 1 { *l / unit } else { 0 })),
                );
                let r = cw.write(buf).await;
                if !api("write", c, &res(&r), -1) {
                    return;
                }
                let o = &mut out.borrow_mut().cols[c];
                o.taken = o.rows.len();
            }
            if col["close"] != false {
                turns.next().await;
                FLUSHED.with(|f| *f.borrow_mut() = None);
                let r = cw.close().await;
                flushed = Some(FLUSHED.with(|f| f.borrow_mut().take()).unwrap_or_default());
                if !api("colclose", c, &res(&r), -1) {
                    return;
                }
                out.borrow_mut().cols[c].closed = true;
            }
        }
        // the block index as it was flushed when the column was closed
        let entries = flushed.unwrap_or_else(|| w.verif_entries());
        let pos = entries.last().map(|e| e.1 as i64).unwrap_or(-1);
        out.borrow_mut().cols[c].entries = entries;
        sys::note(json!({"op": "api", "s": s, "call": "entries", "c": c, "res": "ok", "pos": pos}));
    }
    let stop = seg["stop"].as_str().unwrap_or("close");
    if stop == "drop" {
        return;
    }
    turns.next().await;
    let r = w.verif_close().await;
    if !api("close", 0, &res(&r), -1) {
        return;
    }
    out.borrow_mut().closed = true;
    if stop == "sync" {
        turns.next().await;
        let r = w.verif_sync().await;
        api("sync", 0, &res(&r), -1);
    }
}

fn clean(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
}

/// The directory of the segments below the scratch directory; U+FFFF stands
/// for a byte that is not UTF-8.
fn dirname_of(case: &Value) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let name = case["dir"].as_str().unwrap_or("d");
    let mut v = Vec::new();
    for c in name.chars() {
        match c {
            '\u{FFFF}' => v.push(0xFF),
            c => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    std::ffi::OsString::from_vec(v)
}

/// The working directory and the path that is given to the segment writer.
fn place_of(case: &Value, base: &Path, dir: &Path) -> (std::path::PathBuf, std::path::PathBuf) {
    use std::os::unix::ffi::OsStrExt;
    let name = dir.strip_prefix(base).unwrap();
    let with = |p: &Path, tail: &[u8]| {
        let mut v = p.as_os_str().as_bytes().to_vec();
        v.extend_from_slice(tail);
        std::path::PathBuf::from(std::ffi::OsStr::from_bytes(&v))
    };
    let root = std::path::PathBuf::from("/");
    match case["form"].as_str().unwrap_or("absolute") {
        "relative" => (base.to_path_buf(), name.to_path_buf()),
        "dot" => (dir.to_path_buf(), ".".into()),
        "empty" => (dir.to_path_buf(), "".into()),
        "up" => (dir.to_path_buf(), with(&Path::new("..").join(dir.file_name().unwrap()), b"")),
        "slash" => (root, with(dir, b"/")),
        "slashes" => (root, with(dir, b"//.//")),
        "link" => {
            std::os::unix::fs::symlink(dir, base.join("link")).unwrap();
            (root, base.join("link"))
        }
        _ => (root, dir.to_path_buf()),
    }
}

pub fn run(case: &Value, scratch: &Path) -> Value {
    let base = scratch.join("segment");
    clean(&base);
    let base = base.canonicalize().unwrap();
    let dirname = dirname_of(case);
    let dir = base.join(&dirname);
    std::fs::create_dir_all(&dir).unwrap();
    let (cwd, given) = place_of(case, &base, &dir);
    let before = std::env::current_dir().unwrap();
    std::env::set_current_dir(cwd).unwrap();
    for f in case["preexist"].as_array().unwrap_or(&vec![]) {
        std::fs::write(dir.join(f[0].as_str().unwrap()), vec![7u8; f[1].as_u64().unwrap() as usize]).unwrap();
    }
    let segs = case["segs"].as_array().unwrap();
    let blank = || Rc::new(RefCell::new(SegOut { cols: vec![], ok: true, closed: false, failed: String::new() }));
    let mut outs: Vec<Rc<RefCell<SegOut>>> = segs.iter().map(|_| blank()).collect();

    // the same segments, written before by this process: here or elsewhere
    for prior in case["again"].as_array().unwrap_or(&vec![]) {
        let there = if prior["dir"] == "other" { base.with_extension("other") } else { dir.clone() };
        std::fs::create_dir_all(&there).unwrap();
        let out = blank();
        let _ = guarded(AssertUnwindSafe(|| {
            let rt = impatient_runtime();
            rt.block_on(drive(&prior["seg"], 0, &there, out.clone(), Turns::none()));
            drop(rt);
        }));
        if prior["dir"] == "other" {
            let _ = std::fs::remove_dir_all(&there);
        } else if prior["left"] != true {
            clean(&dir);
        }
    }

    sys::arm(&base, sys::faults_of(&case["faults"]), false);
    let sparse = case["sparse"] == true;
    sys::set_sparse(sparse);
    let mode = case["mode"].as_str().unwrap_or("turns");
    let crash = guarded(AssertUnwindSafe(|| {
        if mode == "threads" {
            // every segment in a thread of its own
            let (given, blank) = (&given, &blank);
            let done: Vec<std::thread::Result<SegOut>> = std::thread::scope(|sc| {
                let all: Vec<_> = segs
                    .iter()
                    .enumerate()
                    .map(|(s, seg)| {
                        sc.spawn(move || {
                            let out = blank();
                            let rt = impatient_runtime();
                            rt.block_on(drive(seg, s, given, out.clone(), Turns::none()));
                            drop(rt);
                            Rc::try_unwrap(out).ok().unwrap().into_inner()
                        })
                    })
                    .collect();
                all.into_iter().map(|t| t.join()).collect()
            });
            for (s, d) in done.into_iter().enumerate() {
                match d {
                    Ok(o) => outs[s] = Rc::new(RefCell::new(o)),
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            return;
        }
        // calls overlap wherever one waits
        let all = || {
            futures::future::join_all(segs.iter().enumerate().map(|(s, seg)| Own::new(drive(seg, s, &given, outs[s].clone(), Turns::none()))))
        };
        if mode == "roving" {
            // ... and go on in another thread
            let rt = crate::pool();
            crate::rove(&rt, all());
            drop(rt);
            return;
        }
        let rt = impatient_runtime();
        if mode == "together" {
            rt.block_on(all());
            drop(rt);
            return;
        }
        rt.block_on(async {
            let mut tasks = Vec::new();
            let mut ctl = Vec::new();
            for (s, seg) in segs.iter().enumerate() {
                let (go_tx, go_rx) = tokio::sync::mpsc::unbounded_channel();
                let (done_tx, done_rx) = tokio::sync::mpsc::unbounded_channel();
                ctl.push((go_tx, done_rx));
                let turns = Turns { go: go_rx, done: done_tx, first: true };
                tasks.push(Own::new(drive(seg, s, &given, outs[s].clone(), turns)));
            }
            let sched: Vec<usize> = case["sched"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
                .unwrap_or_default();
            let n = segs.len();
            let controller = async move {
                let mut live = vec![true; n];
                let mut k = 0;
                while live.iter().any(|x| *x) {
                    // the given schedule first, then the segments one by one
                    let s = match sched.get(k) {
                        Some(s) => *s,
                        None => live.iter().position(|x| *x).unwrap(),
                    };
                    k += 1;
                    if !live[s] {
                        continue;
                    }
                    if ctl[s].0.send(()).is_err() || ctl[s].1.recv().await.is_none() {
                        live[s] = false;
                    }
                }
            };
            futures::join!(controller, futures::future::join_all(tasks));
        });
        // waits for the writes in progress
        drop(rt);
    }));
    let mut log = sys::disarm();
    if sparse {
        log.clear();
    }
    std::env::set_current_dir(before).unwrap();

    // whatever it is called, the directory is shown as "d"
    let own = dirname.to_string_lossy().to_string() + "/";
    let shown = |f: &str| -> String {
        match f.strip_prefix(own.as_str()).or_else(|| f.strip_prefix("link/")) {
            Some(rest) => "d/".to_string() + rest,
            None => f.to_string(),
        }
    };
    for e in log.iter_mut() {
        if let Some(f) = e["f"].as_str() {
            e["f"] = json!(shown(f));
        }
    }
    let mut files: Vec<(String, u64)> = Vec::new();
    list(&base, &base, &mut files);
    files.retain(|f| f.0 != "link" && !(f.0.ends_with('/') && own.starts_with(&f.0)));
    for f in files.iter_mut() {
        f.0 = shown(&f.0);
    }
    files.sort();

    let crash_text = crash.err().map(|p| format!("panic: {}", p)).unwrap_or_default();
    let seg_out: Vec<Value> = segs
        .iter()
        .zip(&outs)
        .map(|(seg, out)| observe(seg, &mut out.borrow_mut(), &dir, case, &crash_text))
        .collect();
    let _ = std::fs::remove_dir_all(&base);
    json!({"segs": seg_out, "files": files, "log": log, "crash": crash_text})
}

fn list(base: &Path, dir: &Path, out: &mut Vec<(String, u64)>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let m = match std::fs::symlink_metadata(e.path()) {
            Ok(m) => m,
            Err(_) => continue,
        };
        let name = e.path().strip_prefix(base).unwrap().to_string_lossy().to_string();
        if m.is_dir() {
            out.push((name.clone() + "/", 0));
            list(base, &e.path(), out);
        } else {
            out.push((name, m.len().min(1 << 30)));
        }
    }
}

/// A position in a file, in MiB and bytes: TLC's integers have 32 bits.
fn place(pos: u64) -> Value {
    json!([(pos >> 20).min(1 << 30), pos & 0xF_FFFF])
}

/// What is in a data file.
struct Data {
    file: Option<std::fs::File>,
    len: u64,
}

impl Data {
    fn open(path: &Path) -> Self {
        let file = std::fs::File::open(path).ok();
        let len = file.as_ref().and_then(|f| f.metadata().ok()).map(|m| m.len()).unwrap_or(0);
        Data { file, len }
    }

    fn part(&self, from: u64, to: u64) -> Option<Vec<u8>> {
        use std::os::unix::fs::FileExt;
        if from > to || to > self.len {
            return None;
        }
        let mut v = vec![0; (to - from) as usize];
        self.file.as_ref()?.read_exact_at(&mut v, from).ok()?;
        Some(v)
    }

    fn same(&self, from: u64, to: u64, data: &[u8]) -> bool {
        self.part(from, to).map(|p| p == data).unwrap_or(false)
    }
}

fn observe(seg: &Value, out: &mut SegOut, dir: &Path, case: &Value, crash: &str) -> Value {
    let id = uuid_of(seg["id"].as_str().unwrap());
    let raw = case["raw"] == true;
    // found by their suffix among the files of this case, if there is one
    // segment only; else by the documented name
    let stem = base64::encode_config(id.as_bytes(), base64::URL_SAFE_NO_PAD);
    let mut path = |ext: &str| -> std::path::PathBuf {
        let named = dir.join(format!("{}.{}", stem, ext));
        if !named.exists() && case["segs"].as_array().unwrap().len() == 1 {
            for e in std::fs::read_dir(dir).unwrap() {
                let p = e.unwrap().path();
                if p.extension().map(|x| x == ext).unwrap_or(false) {
                    return p;
                }
            }
        }
        named
    };
    let dat_path = path("dat");
    let idx = std::fs::read(path("idx")).unwrap_or_default();
    let dat = Data::open(&dat_path);

    let mut cols: Vec<Value> = Vec::new();
    let mut start = 13u64;
    for (c, col) in out.cols.iter_mut().enumerate() {
        let spec = &seg["cols"][c];
        let nullable = spec["nullable"].as_bool().unwrap();
        let mut blocks: Vec<Value> = Vec::new();
        if out.ok && crash.is_empty() {
            // the blocks as the block reader returns them
            let mut ops = Vec::new();
            let mut first = 0u32;
            let mut s = start;
            for (row, end) in &col.entries {
                ops.push(read_op(s, *end, OpInfo::DataBlock { first_row_id: first }));
                first = row.wrapping_add(1);
                s = *end;
            }
            let unit = spec["unit"].as_i64().unwrap_or(1);
            let entries = col.entries.clone();
            let app = &mut col.app;
            let blocks_ref = &mut blocks;
            let rt = runtime();
            let r = guarded(AssertUnwindSafe(|| {
                rt.block_on(async {
                    let reader = Reader::new(&dat_path).await.ok();
                    let mut st = reader.as_ref().map(|r| r.read_blocks(ops.clone()));
                    let mut prev_end = 0u64;
                    let mut s = start;
                    for (row, end) in &entries {
                        let item = match st.as_mut() {
                            Some(st) => st.next().await,
                            None => None,
                        };
                        let got = item.and_then(|x| x.ok()).map(|b| block_parts(b).0);
                        let readable = got.is_some();
                        let data = got.unwrap_or_default();
                        let direct = readable && dat.same(s, *end, &data);
                        let mut b = project(*row, &data, 0, nullable, prev_end, app, raw);
                        b["read"] = json!(direct);
                        if unit > 1 {
                            // sizes in units, or -1
                            for k in ["dlen", "last"] {
                                let v = b[k].as_i64().unwrap();
                                b[k] = json!(if v % unit == 0 { v / unit } else { -1 });
                            }
                        }
                        b["from"] = place(s);
                        b["to"] = place(*end);
                        blocks_ref.push(b);
                        prev_end = *row as u64 + 1;
                        s = *end;
                    }
                })
            }));
            for (row, end) in &col.entries[blocks.len()..] {
                // the reader did not survive
                let mut b = project(*row, &[], 0, nullable, 0, &mut col.app, raw);
                b["read"] = json!(false);
                b["from"] = place(start);
                b["to"] = place(*end);
                blocks.push(b);
            }
            let _ = r;
        }
        if let Some(e) = col.entries.last() {
            start = e.1;
        }
        let rows = if case["merge"] == true { merged(col.rows.drain(..)) } else { col.rows.clone() };
        cols.push(json!({
            "name": spec["name"].as_str().unwrap().as_bytes(),
            "ctype": spec["ctype"], "index": spec["index"], "enc": spec["enc"].as_i64().unwrap_or(0),
            "nullable": nullable,
            "opened": col.opened, "closed": col.closed, "taken": col.taken, "rows": rows, "blocks": blocks,
            "vals": if raw { json!(col.app.plain()) } else { json!([]) },
        }));
    }
    let sig = dat.part(0, dat.len.min(13)).unwrap_or_default();
    json!({
        "id": id.as_bytes(), "db": seg["db"].as_str().unwrap().as_bytes(),
        "table": seg["table"].as_str().unwrap().as_bytes(),
        "shard": dig(seg["shard"].as_u64().unwrap()), "rows": dig(seg["rows"].as_u64().unwrap()),
        "ok": out.ok, "closed": out.closed, "failed": out.failed,
        "stop": seg["stop"].as_str().unwrap_or("close"),
        "dat_size": place(dat.len), "sig": sig,
        "idx": if idx.len() <= 1_000_000 { idx.clone() } else { vec![] }, "idx_size": idx.len(),
        "stem": stem, "cols": cols,
    })
}

fn dig(mut v: u64) -> Vec<u64> {
    (0..10)
        .map(|_| {
            let d = v & 0x7F;
            v >>= 7;
            d
        })
        .collect()
}

/// ops: ["w", len] | ["flush"] | ["sync"]
pub fn run_writer(case: &Value, scratch: &Path) -> Value {
    let base = scratch.join("writer");
    clean(&base);
    let path = base.join("file.dat");
    let seed = case["seed"].as_u64().unwrap();
    if let Some(n) = case["preexist"].as_u64() {
        std::fs::write(&path, vec![9u8; n as usize]).unwrap();
    }
    let mut expected: Vec<u8> = Vec::new();
    sys::arm(&base, sys::faults_of(&case["faults"]), false);
    let crash = guarded(AssertUnwindSafe(|| {
        let rt = impatient_runtime();
        rt.block_on(async {
            let api = |call: &str, r: &str, pos: u64, len: usize| {
                sys::note(json!({"op": "api", "s": 0, "call": call, "c": len, "res": r, "pos": pos.min(1 << 30)}));
                r == "ok"
            };
            let r = BlockWriter::new(&path).await;
            if !api("new", &res(&r), 0, 0) {
                return;
            }
            let mut w = r.unwrap();
            for (k, op) in case["ops"].as_array().unwrap().iter().enumerate() {
                let ok = match op[0].as_str().unwrap() {
                    "w" => {
                        let data = noise(hash(seed, k as u64), op[1].as_u64().unwrap() as usize);
                        expected.extend_from_slice(&data);
                        let r = w.write_block(&data).await;
                        api("write", &res(&r), w.pos(), data.len())
                    }
                    "flush" => {
                        let r = w.flush().await;
                        api("flush", &res(&r), w.pos(), 0)
                    }
                    "sync" => {
                        let r = w.sync().await;
                        api("sync", &res(&r), w.pos(), 0)
                    }
                    o => panic!("op {}", o),
                };
                // what a reader of the file sees now
                if op[0] != "w" && ok {
                    let now = std::fs::read(&path).unwrap_or_default();
                    let same = now == expected;
                    sys::note(json!({"op": "seen", "same": same, "size": now.len()}));
                }
                if !ok {
                    break;
                }
            }
        });
        drop(rt);
    }));
    let log = sys::disarm();
    let content = std::fs::read(&path).unwrap_or_default();
    let common = content.iter().zip(&expected).take_while(|(a, b)| a == b).count();
    let _ = std::fs::remove_dir_all(&base);
    json!({
        "log": log, "size": content.len(), "common": common, "expected": expected.len(),
        "crash": crash.err().map(|p| format!("panic: {}", p)).unwrap_or_default(),
    })
}
