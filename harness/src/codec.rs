//! Validity bitmap codec and varints.

use crate::guarded;
use crate::store::verif::encoding::bitmap_rle;
use crate::store::verif::encoding::varint::{self, Encoder as _};
use crate::store::verif::Bitmap;
use serde_json::{json, Value};

/// Base-128 digits of a u64, least significant first (TLC has 32-bit integers).
fn digits(mut v: u64) -> Vec<u64> {
    (0..10)
        .map(|_| {
            let d = v & 0x7F;
            v >>= 7;
            d
        })
        .collect()
}

fn undigits(v: &Value) -> u64 {
    v.as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, d)| d.as_u64().unwrap() << (7 * i))
        .sum()
}

fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}

fn decoded(buf: &[u8]) -> Value {
    match guarded(|| varint::decode_varint(buf)) {
        Ok(Ok((v, n))) => json!({"res": "ok", "v": digits(v), "n": n}),
        Ok(Err(_)) => json!({"res": "error", "v": [], "n": 0}),
        Err(p) => json!({"res": format!("panic: {}", p), "v": [], "n": 0}),
    }
}

/// {"op":"enc","v":digits,"pre":n,"suf":bytes} or {"op":"dec","b":bytes}
pub fn run_varint(case: &Value) -> Value {
    if case["op"] == "dec" {
        let b = bytes_of(&case["b"]);
        return json!({"op": "dec", "b": b, "dec": decoded(&b), "crash": ""});
    }
    let v = undigits(&case["v"]);
    let suffix = bytes_of(&case["suf"]);
    let pre = case["pre"].as_u64().unwrap() as usize;
    let r = guarded(|| {
        let len = varint::encoded_len_varint(v);
        let mut buf = [0xA5u8; 32];
        let n = varint::encode_varint(v, &mut buf);
        let clean = buf[n..].iter().all(|x| *x == 0xA5);
        let mut vec = vec![0x5Au8; pre];
        vec.put_varint(v);
        let mut all = buf[..n].to_vec();
        all.extend_from_slice(&suffix);
        json!({
            "op": "enc", "v": digits(v), "len": len, "n": n, "clean": clean,
            "bytes": &buf[..n],
            "pre": vec[..pre.min(vec.len())].iter().all(|x| *x == 0x5A),
            "put": if vec.len() >= pre { &vec[pre..] } else { &vec[..] },
            "dec": decoded(&all), "crash": "",
        })
    });
    r.unwrap_or_else(|p| json!({"op": "enc", "v": digits(v), "crash": format!("panic: {}", p)}))
}

fn intervals(pos: &[u32]) -> Vec<(u32, u32)> {
    let mut r: Vec<(u32, u32)> = Vec::new();
    for p in pos {
        match r.last_mut() {
            Some(l) if l.1.wrapping_add(1) == *p => l.1 = *p,
            _ => r.push((*p, *p)),
        }
    }
    r
}

/// ops: ["put", bit, n] | ["from", [[bit, n]..], start, num] | ["flush"] | ["clear"] |
/// ["rep", n, [["put", bit, n] | ["flush"]..]]: all of these and a clear, n times
pub fn run_rle(case: &Value) -> Value {
    let mut enc = bitmap_rle::Encoder::new();
    let mut ev: Vec<Value> = Vec::new();
    let mut ones = 0usize;
    for op in case["ops"].as_array().unwrap() {
        let r = guarded(|| match op[0].as_str().unwrap() {
            "put" => {
                let bit = op[1] == 1;
                for _ in 0..op[2].as_u64().unwrap() {
                    enc.put(bit);
                    ones += bit as usize;
                }
                json!({"op": "put", "runs": [[op[1], op[2]]], "crash": ""})
            }
            "from" => {
                let mut bm = Bitmap::new();
                for r in op[1].as_array().unwrap() {
                    for _ in 0..r[1].as_u64().unwrap() {
                        bm.append(r[0] == 1);
                    }
                }
                let start = op[2].as_u64().unwrap() as usize;
                let num = op[3].as_u64().unwrap() as usize;
                let end = enc.put_from(&bm, start, num);
                ones += num;
                json!({"op": "from", "runs": op[1], "start": start, "num": num, "ret": end, "crash": ""})
            }
            "flush" => {
                enc.flush();
                let bytes = enc.encoded_values().to_vec();
                let mut pos = vec![u32::MAX; ones + 16];
                let mut dec = guarded(|| bitmap_rle::decode(&bytes, &mut pos));
                // no more room than there are positions
                let mut exact = vec![u32::MAX; ones];
                if dec.is_ok() {
                    dec = guarded(|| bitmap_rle::decode(&bytes, &mut exact));
                    if dec.is_ok() && exact[..] != pos[..ones] {
                        dec = Err("other positions into exactly enough room".into());
                    }
                }
                let n = pos.iter().position(|x| *x == u32::MAX).unwrap_or(pos.len());
                let iv = intervals(&pos[..n]);
                json!({
                    "op": "flush", "bytes": bytes, "n": n, "set": &iv[..iv.len().min(2000)],
                    "dec": match dec { Ok(()) => "ok".to_string(), Err(p) => format!("panic: {}", p) },
                    "crash": "",
                })
            }
            "rep" => {
                for _ in 0..op[1].as_u64().unwrap() {
                    for o in op[2].as_array().unwrap() {
                        if o[0] == "flush" {
                            enc.flush();
                        } else {
                            for _ in 0..o[2].as_u64().unwrap() {
                                enc.put(o[1] == 1);
                            }
                        }
                    }
                    enc.clear();
                }
                ones = 0;
                json!({"op": "clear", "crash": ""})
            }
            "clear" => {
                enc.clear();
                ones = 0;
                json!({"op": "clear", "crash": ""})
            }
            o => panic!("op {}", o),
        });
        match r {
            Ok(v) => ev.push(v),
            Err(p) => {
                ev.push(json!({"op": op[0], "crash": format!("panic: {}", p)}));
                break;
            }
        }
    }
    json!({"ev": ev, "crash": ""})
}
