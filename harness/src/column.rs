//! Column encoders: writes the buffers of a case and records the announced
//! blocks, projected to value identities, validity runs and sizes.

use crate::content::*;
use crate::decode;
use crate::store::verif::encoding::*;
use crate::store::verif::segment_metadata::Encoding;
use crate::store::verif::*;
use crate::{block_on, guarded};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;

pub struct MemSink {
    pub blocks: Vec<(u32, Vec<u8>)>,
    pub limit: usize,
    /// the block that is refused
    pub fail: Option<usize>,
    pub calls: usize,
    pub refused: bool,
    /// never ready at once
    pub slow: bool,
}

impl MemSink {
    pub fn new(limit: usize) -> Self {
        MemSink { blocks: vec![], limit, fail: None, calls: 0, refused: false, slow: false }
    }
}

#[async_trait]
impl BlockSink for MemSink {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> Result<()> {
        if self.blocks.len() >= self.limit {
            return Err(anyhow!("runaway"));
        }
        self.calls += 1;
        if self.calls % 3 == 2 || self.slow {
            // not ready at once
            tokio::task::yield_now().await;
        }
        if self.fail == Some(self.calls - 1) {
            self.refused = true;
            return Err(anyhow!("refused"));
        }
        self.blocks.push((row_id, block_data.to_vec()));
        Ok(())
    }
}

/// A buffer of one of the column types, filled with generated values.
pub trait Buf: Sized {
    type Enc;
    const WIDTH: usize; // 0: binary
    fn new(nullable: bool) -> Self;
    /// appends the value and returns its bytes
    fn push(&mut self, seed: u64, ord: u64, len: usize) -> Vec<u8>;
    fn push_null(&mut self);
    fn clear(&mut self);
    fn encoder(e: Encoding, bs: usize, nullable: bool) -> Result<Self::Enc>;
    fn encode(e: &mut Self::Enc, b: &Self, s: &mut MemSink) -> Result<()>;
    fn flush(e: &mut Self::Enc, s: &mut MemSink) -> Result<String>;
    /// two columns at the same time; either gives way at its sink
    fn encode_both(a: (&mut Self::Enc, &Self, &mut MemSink), b: (&mut Self::Enc, &Self, &mut MemSink)) -> (Result<()>, Result<()>);
}

macro_rules! prim {
    ($t:ty, $buf:ty, $of:ident, $enc:ident, $w:expr) => {
        impl Buf for $buf {
            type Enc = Box<dyn BlockEncoder<$buf, MemSink>>;
            const WIDTH: usize = $w;
            fn new(nullable: bool) -> Self {
                <$buf>::new(nullable)
            }
            fn push(&mut self, seed: u64, ord: u64, _len: usize) -> Vec<u8> {
                let v: $t = $of(seed, ord);
                self.append(v);
                v.to_le_bytes().to_vec()
            }
            fn push_null(&mut self) {
                self.append_null()
            }
            fn clear(&mut self) {
                <$buf>::clear(self)
            }
            fn encoder(e: Encoding, bs: usize, nullable: bool) -> Result<Self::Enc> {
                $enc::<MemSink>(e, bs as _, nullable)
            }
            fn encode(e: &mut Self::Enc, b: &Self, s: &mut MemSink) -> Result<()> {
                block_on(e.encode(b, s))
            }
            fn encode_both(a: (&mut Self::Enc, &Self, &mut MemSink), b: (&mut Self::Enc, &Self, &mut MemSink)) -> (Result<()>, Result<()>) {
                block_on(async { futures::join!(a.0.encode(a.1, a.2), b.0.encode(b.1, b.2)) })
            }
            fn flush(e: &mut Self::Enc, s: &mut MemSink) -> Result<String> {
                block_on(e.flush(s))
                    .map(|l| format!("{:?}", l).split('(').next().unwrap().to_string())
            }
        }
    };
}

prim!(i32, Int32Buffer, i32_of, new_i32_encoder, 4);
prim!(i64, Int64Buffer, i64_of, new_i64_encoder, 8);
prim!(u64, Uint64Buffer, u64_of, new_u64_encoder, 8);
prim!(f64, Float64Buffer, f64_of, new_f64_encoder, 8);

impl Buf for BinaryBuffer {
    type Enc = Box<dyn BlockEncoder<BinaryBuffer, MemSink>>;
    const WIDTH: usize = 0;
    fn new(nullable: bool) -> Self {
        BinaryBuffer::new(nullable)
    }
    fn push(&mut self, seed: u64, ord: u64, len: usize) -> Vec<u8> {
        let v = bytes_of(seed, ord, len);
        self.append(&v);
        v
    }
    fn push_null(&mut self) {
        self.append_null()
    }
    fn clear(&mut self) {
        BinaryBuffer::clear(self)
    }
    fn encoder(e: Encoding, bs: usize, nullable: bool) -> Result<Self::Enc> {
        new_binary_encoder::<MemSink>(e, bs as _, nullable)
    }
    fn encode(e: &mut Self::Enc, b: &Self, s: &mut MemSink) -> Result<()> {
        block_on(e.encode(b, s))
    }
    fn encode_both(a: (&mut Self::Enc, &Self, &mut MemSink), b: (&mut Self::Enc, &Self, &mut MemSink)) -> (Result<()>, Result<()>) {
        block_on(async { futures::join!(a.0.encode(a.1, a.2), b.0.encode(b.1, b.2)) })
    }
    fn flush(e: &mut Self::Enc, s: &mut MemSink) -> Result<String> {
        block_on(e.flush(s))
            .map(|l| format!("{:?}", l).split('(').next().unwrap().to_string())
    }
}

/// Runs [kind, count, len] of one buffer.
pub fn runs_of(v: &Value) -> Vec<(u64, u64, usize)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|r| {
            (
                r[0].as_u64().unwrap(),
                r[1].as_u64().unwrap(),
                r[2].as_u64().unwrap_or(0) as usize,
            )
        })
        .collect()
}

/// Buffers; {"times": n, "bufs": [...]} stands for n repetitions.
pub fn bufs_of(v: &Value) -> Vec<Vec<(u64, u64, usize)>> {
    let mut out = Vec::new();
    for b in v.as_array().unwrap() {
        match b["times"].as_u64() {
            None => out.push(runs_of(b)),
            Some(n) => {
                let part = bufs_of(&b["bufs"]);
                for _ in 0..n {
                    out.extend_from_slice(&part);
                }
            }
        }
    }
    out
}

/// The runs of rows of many buffers, merged.
pub fn merged(runs: impl IntoIterator<Item = (u64, u64, usize)>) -> Vec<(u64, u64, usize)> {
    let mut out: Vec<(u64, u64, usize)> = Vec::new();
    for r in runs {
        match out.last_mut() {
            _ if r.1 == 0 => {}
            Some(l) if l.0 == r.0 && (l.0 == 0 || l.2 == r.2) => l.1 += r.1,
            _ => out.push(r),
        }
    }
    out
}

/// The appended values by ordinal, and a way to recognise a value read back.
#[derive(Default)]
pub struct Appended {
    pub vals: Vec<Arc<Vec<u8>>>,
    first: HashMap<Arc<Vec<u8>>, u64>,
    /// ordinal of the next value expected in the blocks
    next: u64,
}

impl Appended {
    pub fn add(&mut self, v: Vec<u8>) {
        let ord = self.vals.len() as u64;
        if let Some(last) = self.vals.last().filter(|l| ***l == v).cloned() {
            // many large values that are all the same are kept once
            return self.vals.push(last);
        }
        let v = Arc::new(v);
        self.first.entry(v.clone()).or_insert(ord);
        self.vals.push(v);
    }

    pub fn plain(&self) -> Vec<Vec<u8>> {
        self.vals.iter().map(|v| (**v).clone()).collect()
    }

    /// Ordinals (1-based; 0: no such value) of the values as intervals [a, b].
    pub fn identify(&mut self, values: &[Vec<u8>]) -> Vec<(u64, u64)> {
        let mut out: Vec<(u64, u64)> = Vec::new();
        for v in values {
            let id = match self.vals.get(self.next as usize) {
                Some(e) if **e == *v => self.next + 1,
                _ => self.first.get(v).map(|x| x + 1).unwrap_or(0),
            };
            if id != 0 {
                self.next = id;
            }
            match out.last_mut() {
                Some(l) if id != 0 && l.1 + 1 == id => l.1 = id,
                _ => out.push((id, id)),
            }
        }
        out.truncate(64);
        out
    }

    /// As `identify`, for values expected to be those with the given ordinals.
    pub fn identify_as(&self, values: &[Vec<u8>], expected: &[u64]) -> Vec<(u64, u64)> {
        let mut out: Vec<(u64, u64)> = Vec::new();
        for (k, v) in values.iter().enumerate() {
            let id = match expected.get(k) {
                Some(o) if *self.vals[*o as usize] == *v => o + 1,
                _ => self.first.get(v).map(|x| x + 1).unwrap_or(0),
            };
            match out.last_mut() {
                Some(l) if id != 0 && l.1 + 1 == id => l.1 = id,
                _ => out.push((id, id)),
            }
        }
        out.truncate(3000);
        out
    }
}

/// Projection of a block. `prev_end`: the row after the previous block.
pub fn project(
    row: u32,
    data: &[u8],
    width: usize,
    nullable: bool,
    prev_end: u64,
    app: &mut Appended,
    raw: bool,
) -> Value {
    let d = if width > 0 {
        decode::primitive(data, width, nullable)
    } else {
        decode::binary(data, nullable, (row as u64 + 1).checked_sub(prev_end))
    };
    let ok = d.values.is_some();
    let values = d.values.unwrap_or_default();
    let ids = app.identify(&values);
    let mut b = json!({
        "row": row,
        "ok": ok,
        "n": values.len(),
        "ids": ids,
        "vok": d.valid.is_some(),
        "valid": d.valid.unwrap_or_default(),
        "dlen": d.data_len.min(1 << 30),
        "last": values.last().map(|v| v.len()).unwrap_or(0),
        "bytes": [],
    });
    if raw {
        b["bytes"] = json!(data);
    }
    b
}

/// Another column of the same type in the same process: written and given up
/// before the column that is judged, or written in turns with it.
struct Other<B: Buf> {
    enc: Option<B::Enc>,
    sink: MemSink,
    bufs: Vec<Vec<(u64, u64, usize)>>,
    nullable: bool,
    seed: u64,
    next: usize,
}

impl<B: Buf> Other<B> {
    fn of(v: &Value) -> Option<Self> {
        let bufs = bufs_of(v.get("bufs")?);
        let nullable = v["nullable"] == true;
        let total: u64 = bufs.iter().flatten().map(|r| r.1).sum();
        let enc = B::encoder(Encoding::Raw, v["bs"].as_u64()? as usize, nullable).ok();
        let seed = v["seed"].as_u64()?;
        let mut o = Self { enc, sink: MemSink::new(total as usize + 16), bufs, nullable, seed, next: 0 };
        o.sink.fail = v["fail"].as_u64().map(|n| n as usize);
        if v["mode"] == "before" {
            while o.write() {}
            if v["flush"] == true {
                o.flush();
            }
            return None;
        }
        Some(o)
    }

    /// The next buffer.
    fn buffer(&mut self) -> Option<B> {
        self.enc.as_ref()?;
        let runs = self.bufs.get(self.next)?;
        self.next += 1;
        guarded(|| {
            let mut b = B::new(self.nullable);
            let mut k = 0;
            for (kind, n, len) in runs {
                for _ in 0..*n {
                    if *kind == 1 {
                        b.push(self.seed, k, *len);
                        k += 1;
                    } else {
                        b.push_null();
                    }
                }
            }
            b
        })
        .ok()
    }

    fn write(&mut self) -> bool {
        let b = match self.buffer() {
            Some(b) => b,
            None => return false,
        };
        let (enc, sink) = (self.enc.as_mut().unwrap(), &mut self.sink);
        let r = guarded(|| B::encode(enc, &b, sink).is_ok());
        if !matches!(r, Ok(true)) {
            self.enc = None;
        }
        true
    }

    fn flush(&mut self) {
        if let Some(mut e) = self.enc.take() {
            let _ = guarded(|| B::flush(&mut e, &mut self.sink).is_ok());
        }
    }
}

/// Ends the thread when dropped.
struct Joined(Arc<std::sync::atomic::AtomicBool>, Option<std::thread::JoinHandle<()>>);

impl Drop for Joined {
    fn drop(&mut self) {
        self.0.store(true, std::sync::atomic::Ordering::Relaxed);
        let _ = self.1.take().map(|t| t.join());
    }
}

/// While it lives, calls go on in another thread after every await.
struct Roving;

impl Roving {
    fn of(on: bool) -> Self {
        crate::ROVING.with(|r| r.set(on));
        Roving
    }
}

impl Drop for Roving {
    fn drop(&mut self) {
        crate::ROVING.with(|r| r.set(false));
    }
}

/// Writes the buffers; one event per call with the blocks it announced.
fn write_all<B: Buf + 'static>(
    bufs: &[Vec<(u64, u64, usize)>],
    nullable: bool,
    bs: usize,
    seed: u64,
    reuse: bool,
    fail: Option<usize>,
    other: &Value,
    mut on: impl FnMut(&str, usize, &[(u32, Vec<u8>)], &mut Appended, &str, bool),
) -> Appended {
    let mut app = Appended::default();
    let total: u64 = bufs.iter().flatten().map(|r| r.1).sum();
    let mut sink = MemSink::new(total as usize + 16);
    sink.fail = fail;
    // in another thread, again and again
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let _thread = (other["mode"] == "thread").then(|| {
        let (stop2, other) = (stop.clone(), other.clone());
        let t = std::thread::spawn(move || {
            for _ in 0..1000 {
                let mut o = match Other::<B>::of(&other) {
                    Some(o) => o,
                    None => break,
                };
                while !stop2.load(std::sync::atomic::Ordering::Relaxed) && o.write() {}
                if stop2.load(std::sync::atomic::Ordering::Relaxed) {
                    break;
                }
                o.flush();
            }
        });
        Joined(stop, Some(t))
    });
    let mut other_col = if other["mode"] == "thread" { None } else { Other::<B>::of(other) };
    let together = other["mode"] == "together";
    let roving = other["mode"] == "roving";
    let _home = Roving::of(roving);
    if together || roving {
        sink.slow = true;
        if let Some(o) = other_col.as_mut() {
            o.sink.slow = true;
        }
    }
    let mut enc = match B::encoder(Encoding::Raw, bs, nullable) {
        Ok(e) => e,
        Err(e) => {
            on("new", 0, &[], &mut app, &format!("error: {}", e), false);
            return app;
        }
    };
    let mut seen = 0;
    let mut shared = B::new(nullable);
    for (i, runs) in bufs.iter().enumerate() {
        if let Some(o) = other_col.as_mut().filter(|_| !together) {
            o.write();
        }
        let mut fresh = B::new(nullable);
        let buf = if reuse { &mut shared } else { &mut fresh };
        let filled = guarded(|| {
            if reuse {
                buf.clear();
            }
            for (kind, n, len) in runs {
                for _ in 0..*n {
                    if *kind == 1 {
                        let v = buf.push(seed, app.vals.len() as u64, *len);
                        app.add(v);
                    } else {
                        buf.push_null();
                    }
                }
            }
        });
        let res = match filled {
            Err(p) => format!("panic: {}", p),
            Ok(()) => match guarded(|| match other_col.as_mut().filter(|_| together).and_then(|o| o.buffer().map(|b| (o, b))) {
                Some((o, b)) => {
                    let oe = o.enc.as_mut().unwrap();
                    let (r, r2) = B::encode_both((&mut enc, buf, &mut sink), (oe, &b, &mut o.sink));
                    if r2.is_err() {
                        o.enc = None;
                    }
                    r
                }
                None => B::encode(&mut enc, buf, &mut sink),
            }) {
                Ok(Ok(())) => "ok".to_string(),
                Ok(Err(e)) => format!("error: {}", e),
                Err(p) => format!("panic: {}", p),
            },
        };
        let new = sink.blocks[seen..].to_vec();
        seen = sink.blocks.len();
        on("write", i, &new, &mut app, &res, sink.refused);
        if res != "ok" {
            return app;
        }
    }
    if let Some(o) = other_col.as_mut() {
        while o.write() {}
        if other["flush"] == true {
            o.flush();
        }
    }
    let res = match guarded(|| B::flush(&mut enc, &mut sink)) {
        Ok(Ok(_)) => "ok".to_string(),
        Ok(Err(e)) => format!("error: {}", e),
        Err(p) => format!("panic: {}", p),
    };
    let new = sink.blocks[seen..].to_vec();
    on("flush", 0, &new, &mut app, &res, sink.refused);
    app
}

fn run_kind<B: Buf + 'static>(case: &Value) -> Value {
    let nullable = case["nullable"].as_bool().unwrap();
    let bs = case["bs"].as_u64().unwrap() as usize;
    let seed = case["seed"].as_u64().unwrap();
    let reuse = case["reuse"].as_bool().unwrap_or(false);
    let raw = case["raw"].as_bool().unwrap_or(false);
    let bufs = bufs_of(&case["bufs"]);

    // that many successful calls are recorded as one
    let group = case["merge"].as_u64().unwrap_or(1) as usize;
    let mut held: (Vec<(u64, u64, usize)>, Vec<Value>) = Default::default();

    let mut ev: Vec<Value> = Vec::new();
    let mut prev_end = 0u64;
    let app = write_all::<B>(
        &bufs,
        nullable,
        bs,
        seed,
        reuse,
        case["fail"].as_u64().map(|n| n as usize),
        &case["other"],
        |op, i, blocks, app, res, refused| {
            let projected: Vec<Value> = blocks
                .iter()
                .map(|(row, data)| {
                    let p = project(*row, data, B::WIDTH, nullable, prev_end, app, raw);
                    prev_end = *row as u64 + 1;
                    p
                })
                .collect();
            let rows: Vec<(u64, u64, usize)> = if op == "write" {
                bufs[i]
                    .iter()
                    .map(|(k, n, l)| {
                        let len = match (*k, B::WIDTH) {
                            (0, _) => 0,
                            (_, 0) => *l,
                            (_, w) => w,
                        };
                        (*k, *n, len)
                    })
                    .collect()
            } else {
                vec![]
            };
            if group == 1 {
                ev.push(json!({"op": op, "rows": rows, "res": res, "blocks": projected,
                    "refused": refused, "error": res.starts_with("error")}));
                return;
            }
            if op == "flush" && !(held.0.is_empty() && held.1.is_empty()) {
                ev.push(json!({"op": "write", "rows": merged(held.0.drain(..)), "res": "ok",
                    "blocks": held.1.split_off(0), "refused": false, "error": false}));
            }
            held.0.extend(rows);
            held.1.extend(projected);
            if op == "flush" || res != "ok" || refused || (i + 1) % group == 0 {
                ev.push(json!({"op": op, "rows": merged(held.0.drain(..)), "res": res,
                    "blocks": held.1.split_off(0), "refused": refused, "error": res.starts_with("error")}));
            }
        },
    );
    let vals = if raw { app.plain() } else { vec![] };

    // C19: the same rows written in other ways
    let mut runs: Vec<Value> = Vec::new();
    if let Some(alts) = case["alts"].as_array() {
        let main = json!({"bufs": case["bufs"], "reuse": reuse});
        for alt in std::iter::once(&main).chain(alts) {
            let ab = bufs_of(&alt["bufs"]);
            let mut blocks: Vec<Value> = Vec::new();
            let mut res = "ok".to_string();
            write_all::<B>(
                &ab,
                nullable,
                bs,
                seed,
                alt["reuse"].as_bool().unwrap_or(false),
                None,
                &alt["other"],
                |_, _, new, _, r, _| {
                    for (row, data) in new {
                        blocks.push(json!([row, digest(data)]));
                    }
                    if r != "ok" {
                        res = r.to_string();
                    }
                },
            );
            let rows = merged(ab.into_iter().flatten());
            runs.push(json!({"bufs": [rows], "res": res, "blocks": blocks}));
        }
    }

    json!({
        "kind": case["kind"], "w": B::WIDTH, "nullable": nullable, "bs": bs.min(1 << 30),
        "raw": raw, "vals": vals, "ev": ev, "runs": runs, "crash": "",
    })
}

pub fn run(case: &Value) -> Value {
    match case["kind"].as_str().unwrap() {
        "i32" => run_kind::<Int32Buffer>(case),
        "i64" => run_kind::<Int64Buffer>(case),
        "u64" => run_kind::<Uint64Buffer>(case),
        "f64" => run_kind::<Float64Buffer>(case),
        "bin" => run_kind::<BinaryBuffer>(case),
        k => panic!("kind {}", k),
    }
}

/// C18: what asking for (type, encoding) gives, as an encoder or, for binary
/// columns, through a segment's column writer.
pub fn run_matrix(case: &Value, scratch: &std::path::Path) -> Value {
    fn go<B: Buf>(case: &Value) -> Value {
        let enc = Encoding::from_i32(case["enc"].as_i64().unwrap() as i32).unwrap();
        let nullable = case["nullable"].as_bool().unwrap();
        let bs = case["bs"].as_u64().unwrap() as usize;
        let seed = case["seed"].as_u64().unwrap();
        let bufs = bufs_of(&case["bufs"]);
        let total: u64 = bufs.iter().flatten().map(|r| r.1).sum();
        let mut app = Appended::default();
        let mut rows: Vec<(u64, u64, usize)> = Vec::new();
        let mut sink = MemSink::new(total as usize + 16);
        let mut layout = String::new();
        let mut taken = 0; // rows in calls that returned success
        let res = guarded(|| -> Result<String> {
            let mut e = match B::encoder(enc, bs, nullable) {
                Ok(e) => e,
                Err(_) => return Ok("refused".into()),
            };
            for runs in &bufs {
                let mut b = B::new(nullable);
                for (k, n, len) in runs {
                    for _ in 0..*n {
                        if *k == 1 {
                            let v = b.push(seed, app.vals.len() as u64, *len);
                            rows.push((1, 1, v.len()));
                            app.add(v);
                        } else {
                            b.push_null();
                            rows.push((0, 1, 0));
                        }
                    }
                }
                if let Err(_) = B::encode(&mut e, &b, &mut sink) {
                    return Ok("error".into());
                }
                taken = rows.len();
            }
            match B::flush(&mut e, &mut sink) {
                Ok(l) => {
                    layout = l;
                    Ok("ok".into())
                }
                Err(_) => Ok("error".into()),
            }
        });
        let res = match res {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => e.to_string(),
            Err(p) => format!("panic: {}", p),
        };
        let mut prev = 0u64;
        let blocks: Vec<Value> = sink
            .blocks
            .iter()
            .map(|(row, data)| {
                let p = project(*row, data, B::WIDTH, nullable, prev, &mut app, false);
                prev = *row as u64 + 1;
                p
            })
            .collect();
        json!({
            "kind": case["kind"], "enc": case["enc"], "via": "encoder", "nullable": nullable,
            "w": B::WIDTH, "res": res, "layout": layout, "taken": taken, "rows": rows, "blocks": blocks,
            "announced": sink.blocks.len(), "crash": "",
        })
    }
    if case["via"] == "segment" {
        let mut r = crate::segment::run(&case["seg"], scratch);
        let seg = r["segs"][0].take();
        let col = &seg["cols"][0];
        return json!({
            "kind": case["kind"], "enc": case["enc"], "via": "segment",
            "nullable": col["nullable"], "w": 0,
            "res": if col["opened"] == false { json!("refused") }
                   else if seg["ok"] == true { json!("ok") } else { json!("error") },
            "layout": "", "taken": col["taken"], "rows": col["rows"], "blocks": col["blocks"],
            "announced": col["blocks"].as_array().map(|b| b.len()).unwrap_or(0),
            "crash": r["crash"],
        });
    }
    match case["kind"].as_str().unwrap() {
        "i32" => go::<Int32Buffer>(case),
        "i64" => go::<Int64Buffer>(case),
        "u64" => go::<Uint64Buffer>(case),
        "f64" => go::<Float64Buffer>(case),
        "bin" => go::<BinaryBuffer>(case),
        k => panic!("kind {}", k),
    }
}
