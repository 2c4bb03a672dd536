//! Values as a function of (seed, ordinal), so that a value read back can be
//! identified, plus the bit patterns that are special for their type.

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash(seed: u64, ord: u64) -> u64 {
    mix(mix(seed) ^ ord.wrapping_mul(0xD1B54A32D192ED03))
}

/// How the values of a seed are related: most are unrelated.
#[derive(PartialEq)]
enum Mode {
    Unrelated,
    Sequence,
    Special,
    Small,
}

/// The kind of content and a number the value is made of.
fn content(seed: u64, ord: u64) -> (Mode, u64) {
    match mix(seed ^ 0xC0FFEE) % 24 {
        0 => (Mode::Unrelated, hash(seed, 0)),
        1 => (Mode::Unrelated, hash(seed, ord / 10)),
        2 => (Mode::Unrelated, hash(seed, ord % 3)),
        3 => (Mode::Sequence, ord),
        4 => (Mode::Special, hash(seed, ord)),
        5 => (Mode::Small, hash(seed, ord) % 5),
        _ => (Mode::Unrelated, hash(seed, ord)),
    }
}

pub fn i32_of(seed: u64, ord: u64) -> i32 {
    i64_with(seed, ord, &[0, 1, -1, i32::MIN as i64, i32::MAX as i64], |h| (h >> 32) as i64) as i32
}

pub fn i64_of(seed: u64, ord: u64) -> i64 {
    i64_with(seed, ord, &[0, 1, -1, i64::MIN, i64::MAX, 1 << 32], |h| mix(h) as i64)
}

fn i64_with(seed: u64, ord: u64, special: &[i64], of: fn(u64) -> i64) -> i64 {
    let (mode, h) = content(seed, ord);
    match mode {
        Mode::Sequence => seed as i64 % 1000 - 500 + h as i64,
        Mode::Small => h as i64,
        _ if mode == Mode::Special || h % 11 == 0 => special[(h >> 32) as usize % special.len()],
        _ => of(h),
    }
}

pub fn u64_of(seed: u64, ord: u64) -> u64 {
    i64_of(seed, ord) as u64
}

pub fn f64_of(seed: u64, ord: u64) -> f64 {
    let (mode, h) = content(seed, ord);
    match mode {
        Mode::Sequence => h as f64 - 5.0,
        Mode::Small => h as f64 / 4.0,
        _ if mode == Mode::Special || h % 7 == 0 => f64::from_bits(
            [
                0x0000000000000000,
                0x8000000000000000,
                0x7FF0000000000000,
                0xFFF0000000000000,
                0x7FF8000000000001,
                0xFFF800000000DEAD,
                0x0000000000000001,
                0x7FEFFFFFFFFFFFFF,
            ][(h >> 32) as usize % 8],
        ),
        // avoid signalling NaNs, whose bits a move may legally change
        _ => {
            let b = mix(h);
            if (b >> 52) & 0x7FF == 0x7FF {
                f64::from_bits(b | 1 << 51)
            } else {
                f64::from_bits(b)
            }
        }
    }
}

pub fn bytes_of(seed: u64, ord: u64, len: usize) -> Vec<u8> {
    let (mode, h) = content(seed, ord);
    let mut v = match mode {
        Mode::Sequence => {
            // text with a common beginning
            let mut v = vec![b'a'; len.saturating_sub(10)];
            v.extend_from_slice(format!("{:010}", h).as_bytes());
            return v[v.len() - len..].to_vec();
        }
        Mode::Special => vec![[0, 0xFF, 0x80, 0x7F][(h >> 32) as usize % 4]; len],
        Mode::Small => vec![h as u8; len],
        _ => noise(h, len),
    };
    if mode == Mode::Unrelated && h % 13 < 2 {
        v.fill(if h % 13 == 0 { 0 } else { 0xFF });
    }
    v
}

/// Bytes of which no part is like another.
pub fn noise(h: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut x = mix(h) | 1;
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(len);
    v
}

pub fn digest(data: &[u8]) -> String {
    let mut a: u64 = 0xcbf29ce484222325;
    let mut b: u64 = 0x9E3779B97F4A7C15;
    for x in data {
        a = (a ^ *x as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(5) ^ *x as u64).wrapping_mul(0x2545F4914F6CDD1D);
    }
    format!("{:016x}{:016x}{:x}", a, b, data.len())
}
