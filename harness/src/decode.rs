//! Projection: raw blocks to abstract blocks, from the documented formats and
//! independent of the repository's code. Small blocks are decoded a second
//! time by spec/BlockFormat.tla.

/// LEB128; (value, bytes read)
pub fn varint(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u64 = 0;
    for (i, x) in b.iter().enumerate().take(10) {
        if i == 9 && *x > 1 {
            return None;
        }
        v |= ((*x & 0x7F) as u64) << (7 * i);
        if *x < 0x80 {
            return Some((v, i + 1));
        }
    }
    None
}

/// RLE bitmap to bytes.
pub fn rle(mut b: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    while !b.is_empty() {
        let (h, n) = varint(b)?;
        b = &b[n..];
        let len = (h >> 1) as usize;
        if len == 0 {
            return None;
        }
        if h & 1 == 1 {
            if b.len() < len {
                return None;
            }
            out.extend_from_slice(&b[..len]);
            b = &b[len..];
        } else {
            if b.is_empty() || len > 1 << 28 {
                return None;
            }
            out.resize(out.len() + len, b[0]);
            b = &b[1..];
        }
    }
    Some(out)
}

/// Bytes of a bitmap to runs [bit, n] of rows, ending with the last set bit.
pub fn runs(bits: &[u8]) -> (Vec<(u8, u64)>, u64) {
    let mut r: Vec<(u8, u64)> = Vec::new();
    let mut ones = 0;
    for byte in bits {
        for k in 0..8 {
            let v = (byte >> k) & 1;
            ones += v as u64;
            match r.last_mut() {
                Some(l) if l.0 == v => l.1 += 1,
                _ => r.push((v, 1)),
            }
        }
    }
    if let Some(l) = r.last() {
        if l.0 == 0 {
            r.pop();
        }
    }
    (r, ones)
}

/// One chunk of 128 values, four interleaved lanes.
pub fn unpack(b: &[u8], nb: usize) -> Vec<u32> {
    (0..128)
        .map(|i| {
            let (lane, start) = (i % 4, (i / 4) * nb);
            let mut v: u64 = 0;
            for k in 0..nb {
                let bit = start + k;
                let byte = 16 * (bit / 32) + 4 * lane + (bit % 32) / 8;
                v |= (((b[byte] >> (bit % 8)) & 1) as u64) << k;
            }
            v as u32
        })
        .collect()
}

#[derive(Default)]
pub struct Decoded {
    /// None if the block is malformed
    pub values: Option<Vec<Vec<u8>>>,
    pub data_len: u64,
    /// validity as runs, None if malformed
    pub valid: Option<Vec<(u8, u64)>>,
}

pub fn primitive(block: &[u8], width: usize, nullable: bool) -> Decoded {
    let mut d = Decoded::default();
    let (len, n) = match varint(block) {
        Some(x) => x,
        None => return d,
    };
    d.data_len = len;
    let rest = &block[n..];
    if rest.len() < len as usize || len as usize % width != 0 {
        return d;
    }
    let data = &rest[..len as usize];
    d.values = Some(data.chunks(width).map(|c| c.to_vec()).collect());
    let rest = &rest[len as usize..];
    if nullable {
        if let Some(bits) = rle(rest) {
            d.valid = Some(runs(&bits).0);
        }
    } else if rest.is_empty() {
        d.valid = Some(vec![]);
    }
    d
}

/// `rows`: the number of rows of the block according to the announced row ids,
/// needed to tell trailing empty values of a block without validity.
pub fn binary(block: &[u8], nullable: bool, rows: Option<u64>) -> Decoded {
    let mut d = Decoded::default();
    let (len, n) = match varint(block) {
        Some(x) => x,
        None => return d,
    };
    d.data_len = len;
    let rest = &block[n..];
    if rest.len() < len as usize + 1 {
        return d;
    }
    let data = &rest[..len as usize];
    let nb = rest[len as usize] as usize;
    let rest = &rest[len as usize + 1..];
    if nb > 32 {
        return d;
    }
    let chunk = 16 * nb;
    let max_chunks = if chunk == 0 { 0 } else { rest.len() / chunk };
    let mut lens: Vec<u32> = Vec::new();
    for c in 0..=max_chunks {
        if c > 0 {
            lens.extend(unpack(&rest[(c - 1) * chunk..c * chunk], nb));
        }
        let tail = &rest[c * chunk..];
        let total: u64 = lens.iter().map(|x| *x as u64).sum();
        if total > len {
            break;
        }
        if total < len {
            continue;
        }
        let used = lens
            .iter()
            .rposition(|x| *x != 0)
            .map(|x| x + 1)
            .unwrap_or(0);
        let count = if nullable {
            let bits = match rle(tail) {
                Some(b) => b,
                None => continue,
            };
            let (r, ones) = runs(&bits);
            // no more groups than the values need: otherwise a reader would look
            // for the validity in the wrong place
            if ones < used as u64 || (chunk > 0 && (ones as usize + 127) / 128 != c) {
                continue;
            }
            d.valid = Some(r);
            ones as usize
        } else {
            if !tail.is_empty() {
                continue;
            }
            if let Some(r) = rows {
                let r = r as usize;
                if chunk > 0 && r >= used && r <= lens.len() && (r + 127) / 128 != c {
                    continue;
                }
            }
            d.valid = Some(vec![]);
            match rows {
                Some(r) if r as usize >= used && (chunk == 0 || r as usize <= lens.len()) => {
                    r as usize
                }
                _ => used,
            }
        };
        let mut pos = 0;
        let mut values = Vec::with_capacity(count);
        for k in 0..count {
            let l = lens.get(k).copied().unwrap_or(0) as usize;
            values.push(data[pos..pos + l].to_vec());
            pos += l;
        }
        d.values = Some(values);
        return d;
    }
    d
}
