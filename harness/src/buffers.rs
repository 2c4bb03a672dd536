//! Indexing buffers: histories of appends, null appends, clears and range
//! appends, with everything the buffer reports after the operations.
//!
//! ops: ["a", n, len] append n generated values, ["b", bit, n] append n bits,
//! ["n", n] append n nulls, ["c"] clear, ["o"] observe,
//! ["r", n, [ops]] the operations and a clear, n times,
//! ["f", [ops of the source], start, end, row] append a range of another buffer

use crate::column::Appended;
use crate::content::*;
use crate::decode::runs;
use crate::guarded;
use crate::store::verif::*;
use serde_json::{json, Value};

fn bit_runs(b: &Bitmap) -> Vec<(u8, u64)> {
    let mut r: Vec<(u8, u64)> = Vec::new();
    for i in 0..b.len() {
        let v = b.is_set(i) as u8;
        match r.last_mut() {
            Some(l) if l.0 == v => l.1 += 1,
            _ => r.push((v, 1)),
        }
    }
    r.truncate(3000);
    r
}

fn lens(l: impl Iterator<Item = u64>) -> Vec<(u64, u64)> {
    let mut r: Vec<(u64, u64)> = Vec::new();
    for x in l {
        match r.last_mut() {
            Some(e) if e.0 == x => e.1 += 1,
            _ => r.push((x, 1)),
        }
    }
    r.truncate(3000);
    r
}

trait B {
    fn value(&mut self, _seed: u64, _ord: u64, _len: usize) -> Vec<u8> {
        panic!("no values")
    }
    fn bit(&mut self, _bit: bool) {
        panic!("no bits")
    }
    fn null(&mut self);
    fn clear(&mut self);
    fn from(&mut self, src: &Self, start: usize, end: usize, row: usize) -> i64;
    fn observe(&self, app: &Appended, exp: &[u64]) -> Value;
}

macro_rules! prim {
    ($buf:ty, $of:ident) => {
        impl B for $buf {
            fn value(&mut self, seed: u64, ord: u64, _len: usize) -> Vec<u8> {
                let v = $of(seed, ord);
                self.append(v);
                v.to_le_bytes().to_vec()
            }
            fn null(&mut self) {
                self.append_null()
            }
            fn clear(&mut self) {
                <$buf>::clear(self)
            }
            fn from(&mut self, src: &Self, start: usize, end: usize, row: usize) -> i64 {
                self.append_from(src, start, end, row) as i64
            }
            fn observe(&self, app: &Appended, exp: &[u64]) -> Value {
                let vals: Vec<Vec<u8>> =
                    self.values().iter().map(|v| v.to_le_bytes().to_vec()).collect();
                json!({
                    "ids": app.identify_as(&vals, exp), "nvals": vals.len(), "lens": [],
                    "len": self.len(), "rows": self.num_values(),
                    "nullable": self.is_nullable(), "has_nulls": self.has_nulls(),
                    "validity": match self.validity() { Some(v) => bit_runs(v), None => vec![] },
                    "hasv": self.validity().is_some(), "bits": [], "offs": true,
                })
            }
        }
    };
}

prim!(Int32Buffer, i32_of);
prim!(Int64Buffer, i64_of);
prim!(Uint64Buffer, u64_of);
prim!(Float64Buffer, f64_of);

impl B for BinaryBuffer {
    fn value(&mut self, seed: u64, ord: u64, len: usize) -> Vec<u8> {
        let v = bytes_of(seed, ord, len);
        self.append(&v);
        v
    }
    fn null(&mut self) {
        self.append_null()
    }
    fn clear(&mut self) {
        BinaryBuffer::clear(self)
    }
    fn from(&mut self, src: &Self, start: usize, end: usize, row: usize) -> i64 {
        self.append_from(src, start, end, row) as i64
    }
    fn observe(&self, app: &Appended, exp: &[u64]) -> Value {
        let offs = self.offsets();
        let ok = !offs.is_empty()
            && offs[0] == 0
            && offs.windows(2).all(|w| w[0] <= w[1])
            && *offs.last().unwrap() as usize == self.data().len()
            && offs.len() == self.len() + 1
            && (0..self.len()).all(|i| self.item_len(i) == offs[i + 1] - offs[i]);
        let vals: Vec<Vec<u8>> = if ok {
            offs.windows(2)
                .map(|w| self.data()[w[0] as usize..w[1] as usize].to_vec())
                .collect()
        } else {
            vec![]
        };
        json!({
            "ids": app.identify_as(&vals, exp), "nvals": vals.len(),
            "lens": lens(vals.iter().map(|v| v.len() as u64)),
            "len": self.len(), "rows": self.num_values(),
            "nullable": self.is_nullable(), "has_nulls": self.has_nulls(),
            "validity": match self.validity() { Some(v) => bit_runs(v), None => vec![] },
            "hasv": self.validity().is_some(), "bits": [], "offs": ok,
        })
    }
}

impl B for BoolBuffer {
    fn bit(&mut self, bit: bool) {
        self.append(bit)
    }
    fn null(&mut self) {
        self.append_null()
    }
    fn clear(&mut self) {
        BoolBuffer::clear(self)
    }
    fn from(&mut self, _: &Self, _: usize, _: usize, _: usize) -> i64 {
        panic!("no append_from")
    }
    fn observe(&self, _: &Appended, _: &[u64]) -> Value {
        json!({
            "ids": [], "nvals": self.values().len(), "lens": [],
            "len": self.len(), "rows": self.len(),
            "nullable": self.is_nullable(), "has_nulls": self.has_nulls(),
            "validity": if self.is_nullable() { bit_runs(self.validity()) } else { vec![] },
            "hasv": self.is_nullable(), "bits": bit_runs(self.values()), "offs": true,
        })
    }
}

impl B for Bitmap {
    fn bit(&mut self, bit: bool) {
        self.append(bit)
    }
    fn null(&mut self) {
        panic!("no nulls")
    }
    fn clear(&mut self) {
        Bitmap::clear(self)
    }
    fn from(&mut self, src: &Self, start: usize, num: usize, _: usize) -> i64 {
        self.append_from(src, start, num) as i64
    }
    fn observe(&self, _: &Appended, _: &[u64]) -> Value {
        let probe = guarded(|| self.is_set(self.len()));
        json!({
            "ids": [], "nvals": self.len(), "lens": [], "len": self.len(), "rows": self.len(),
            "nullable": false, "has_nulls": false, "validity": [], "hasv": false,
            "bits": bit_runs(self), "offs": probe.is_err(),
        })
    }
}

/// Applies a simple operation; `exp` are the ordinals of the values that should
/// be in the buffer (used to tell equal values apart).
fn apply<T: B>(b: &mut T, op: &Value, seed: u64, app: &mut Appended, exp: &mut Vec<u64>) {
    let u = |i: usize| op[i].as_u64().unwrap();
    match op[0].as_str().unwrap() {
        "a" => {
            for _ in 0..u(1) {
                let ord = app.vals.len() as u64;
                let v = b.value(seed, ord, u(2) as usize);
                app.add(v);
                exp.push(ord);
            }
        }
        "b" => {
            for _ in 0..u(2) {
                b.bit(u(1) == 1)
            }
        }
        "n" => {
            for _ in 0..u(1) {
                b.null()
            }
        }
        "c" => {
            b.clear();
            exp.clear();
        }
        "o" => {}
        o => panic!("op {}", o),
    }
}

fn run_with<T: B>(mut b: T, mk: impl Fn() -> T, case: &Value) -> Value {
    let seed = case["seed"].as_u64().unwrap();
    let mut app = Appended::default();
    let mut exp: Vec<u64> = Vec::new();
    let mut ev: Vec<Value> = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let r = guarded(|| {
            if op[0] == "r" {
                // always the same rows: what there is before and after each
                // clear must be what there was the first time
                let mut odd = None;
                let mut first = None;
                for i in 0..op[1].as_u64().unwrap() {
                    let mut other = Appended::default();
                    let mut other_exp = Vec::new();
                    for o in op[2].as_array().unwrap() {
                        apply(&mut b, o, seed, &mut other, &mut other_exp);
                    }
                    let full = b.observe(&other, &other_exp);
                    b.clear();
                    let empty = b.observe(&app, &[]);
                    let both = (full, empty);
                    match first {
                        // the first time there are also the rows from before
                        None if i == 0 => {}
                        None => first = Some(both),
                        Some(ref f) if f.1 != both.1 => odd = Some(both.1),
                        Some(ref f) if f.0 != both.0 => odd = Some(both.0),
                        _ => {}
                    }
                    if odd.is_some() {
                        break;
                    }
                }
                exp.clear();
                let obs = odd.unwrap_or_else(|| b.observe(&app, &exp));
                json!({"op": "c", "args": ["c"], "obs": [obs], "crash": ""})
            } else if op[0] == "f" {
                let first = app.vals.len() as u64;
                let mut src = mk();
                let mut src_exp = Vec::new();
                for o in op[1].as_array().unwrap() {
                    apply(&mut src, o, seed, &mut app, &mut src_exp);
                }
                let u = |i: usize| op[i].as_u64().unwrap() as usize;
                let before = src.observe(&app, &src_exp);
                let ret = b.from(&src, u(2), u(3), u(4));
                let after = src.observe(&app, &src_exp);
                if !src_exp.is_empty() {
                    exp.extend_from_slice(&src_exp[u(2)..u(3)]);
                }
                json!({
                    "op": "f", "src": op[1], "first": first, "start": u(2), "end": u(3), "row": u(4),
                    "ret": ret, "same": before == after, "obs": [b.observe(&app, &exp)],
                    "args": [], "crash": "",
                })
            } else {
                apply(&mut b, op, seed, &mut app, &mut exp);
                let seen = op[0] == "o" || case["each"] == true;
                let obs = if seen { vec![b.observe(&app, &exp)] } else { vec![] };
                json!({"op": op[0], "args": op, "obs": obs, "crash": ""})
            }
        });
        match r {
            Ok(v) => ev.push(v),
            Err(p) => {
                ev.push(json!({"op": op[0], "obs": [], "crash": format!("panic: {}", p)}));
                break;
            }
        }
    }
    json!({"type": case["type"], "nullable": case["nullable"], "ev": ev, "crash": ""})
}

pub fn run(case: &Value) -> Value {
    let nullable = case["nullable"].as_bool().unwrap_or(false);
    match case["type"].as_str().unwrap() {
        "i32" => run_with(Int32Buffer::new(nullable), || Int32Buffer::new(nullable), case),
        "i64" => run_with(Int64Buffer::new(nullable), || Int64Buffer::new(nullable), case),
        "u64" => run_with(Uint64Buffer::new(nullable), || Uint64Buffer::new(nullable), case),
        "f64" => run_with(Float64Buffer::new(nullable), || Float64Buffer::new(nullable), case),
        "bin" => run_with(BinaryBuffer::new(nullable), || BinaryBuffer::new(nullable), case),
        "bool" => run_with(BoolBuffer::new(nullable), || BoolBuffer::new(nullable), case),
        "bitmap" => match case["cap"].as_u64() {
            None => run_with(Bitmap::new(), Bitmap::new, case),
            Some(c) => run_with(
                Bitmap::with_capacity(c as usize),
                || Bitmap::with_capacity(c as usize),
                case,
            ),
        },
        t => panic!("type {}", t),
    }
}
