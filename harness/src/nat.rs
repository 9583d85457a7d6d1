//! Random numbers, and elementary arithmetic on digit vectors (least significant first) in any
//! radix up to 2^64, used only to make operands and to look for suspicious results.
use crate::api::{BYTES, RADIX};
use std::cmp::Ordering;

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15u64.wrapping_mul(a + 1), b.wrapping_mul(0xd1342543de82ef95) | 1);
        for _ in 0..4 { r.u64(); }
        r
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro-like mix of a splitmix counter
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0 ^ self.1.rotate_left(24);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        self.1 = self.1.rotate_left(7) ^ z;
        z
    }
    pub fn below(&mut self, n: usize) -> usize { ((self.u64() as u128 * n as u128) >> 64) as usize }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<T: Copy>(&mut self, x: &[T]) -> T { x[self.below(x.len())] }
    pub fn digit(&mut self, r: u128) -> u64 { ((self.u64() as u128 * r) >> 64) as u64 }
}

pub type Dv = Vec<u64>;

pub fn norm(a: &mut Dv) { while a.last() == Some(&0) { a.pop(); } }
pub fn cmp(a: &[u64], b: &[u64]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
pub fn add(r: u128, a: &[u64], b: &[u64]) -> Dv {
    let n = a.len().max(b.len());
    let mut c = 0u128;
    let mut out = Vec::with_capacity(n + 1);
    for i in 0..n {
        let t = *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        if t >= r { out.push((t - r) as u64); c = 1 } else { out.push(t as u64); c = 0 }
    }
    if c > 0 { out.push(1); }
    norm(&mut out);
    out
}
/// a - b for a >= b
pub fn sub(r: u128, a: &[u64], b: &[u64]) -> Dv {
    let mut br = 0i128;
    let mut out = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let mut t = a[i] as i128 - *b.get(i).unwrap_or(&0) as i128 - br;
        if t < 0 { t += r as i128; br = 1 } else { br = 0 }
        out.push(t as u64);
    }
    norm(&mut out);
    out
}
pub fn mul(r: u128, a: &[u64], b: &[u64]) -> Dv {
    let mut out = vec![0u64; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        if x == 0 { continue; }
        let mut c = 0u128;
        if r == 1 << 64 {
            for (j, &y) in b.iter().enumerate() {
                let t = x as u128 * y as u128 + out[i + j] as u128 + c;
                out[i + j] = t as u64;
                c = t >> 64;
            }
        } else {
            for (j, &y) in b.iter().enumerate() {
                let t = x as u128 * y as u128 + out[i + j] as u128 + c;
                out[i + j] = (t % r) as u64;
                c = t / r;
            }
        }
        out[i + b.len()] = c as u64;
    }
    norm(&mut out);
    out
}
/// Quotient and remainder of a by b, b not zero, both without leading zeros (schoolbook)
pub fn divrem(r: u128, a: &[u64], b: &[u64]) -> (Dv, Dv) {
    if cmp(a, b) == Ordering::Less { return (vec![], a.to_vec()); }
    if b.len() == 1 {
        let (mut q, mut m) = (vec![0; a.len()], 0u128);
        for i in (0..a.len()).rev() { let x = m * r + a[i] as u128; q[i] = (x / b[0] as u128) as u64; m = x % b[0] as u128; }
        norm(&mut q);
        return (q, if m == 0 { vec![] } else { vec![m as u64] });
    }
    let f = (r / (b[b.len() - 1] as u128 + 1)) as u64;
    let (mut u, mut v) = (a.to_vec(), b.to_vec());
    scale(r, &mut u, f);
    scale(r, &mut v, f);
    norm(&mut v);
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u64; m];
    let (v1, v2) = (v[n - 1] as u128, v[n - 2] as u128);
    for j in (0..m).rev() {
        let top = u[j + n] as u128 * r + u[j + n - 1] as u128;
        let (mut qh, mut rh) = (top / v1, top % v1);
        while qh >= r || (rh < r && qh * v2 > if r == 1 << 64 { rh << 64 | u[j + n - 2] as u128 } else { rh * r + u[j + n - 2] as u128 }) {
            qh -= 1;
            rh += v1;
            if rh >= r { break; }
        }
        let (mut bor, mut car) = (0i128, 0u128);
        for i in 0..=n {
            let p = car + if i < n { qh * v[i] as u128 } else { 0 };
            car = p / r;
            let mut t = u[j + i] as i128 - (p % r) as i128 - bor;
            if t < 0 { t += r as i128; bor = 1 } else { bor = 0 }
            u[j + i] = t as u64;
        }
        if bor > 0 {
            qh -= 1;
            let mut c = 0u128;
            for i in 0..=n {
                let t = u[j + i] as u128 + if i < n { v[i] as u128 } else { 0 } + c;
                if t >= r { u[j + i] = (t - r) as u64; c = 1 } else { u[j + i] = t as u64; c = 0 }
            }
        }
        q[j] = qh as u64;
    }
    norm(&mut q);
    // undo the scaling
    let mut rem = 0u128;
    for i in (0..u.len()).rev() { let x = rem * r + u[i] as u128; u[i] = (x / f as u128) as u64; rem = x % f as u128; }
    norm(&mut u);
    (q, u)
}
/// a := a * f, one digit longer
fn scale(r: u128, a: &mut Dv, f: u64) {
    let mut c = 0u128;
    for d in a.iter_mut() { let t = *d as u128 * f as u128 + c; *d = (t % r) as u64; c = t / r; }
    a.push(c as u64);
}
/// x * y = 1 modulo r, if there is such a y
pub fn inverse(x: u64, r: u128) -> Option<u64> {
    let (mut a, mut b, mut u, mut v) = (x as i128, r as i128, 1i128, 0i128);
    while b != 0 { let q = a / b; (a, b) = (b, a - q * b); (u, v) = (v, u - q * v); }
    if a == 1 { Some(u.rem_euclid(r as i128) as u64) } else { None }
}
pub fn to_raw(t: u8, a: &[u64]) -> Vec<u8> {
    let k = BYTES[t as usize];
    let mut out = Vec::with_capacity(a.len() * k);
    for d in a { out.extend_from_slice(&d.to_le_bytes()[..k]); }
    out
}
pub fn of_raw(t: u8, x: &[u8]) -> Dv {
    x.chunks(BYTES[t as usize]).map(|c| { let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c); u64::from_le_bytes(b) }).collect()
}
/// Multiply a number in radix 2^64 by m and add c
fn mul_add_bin(a: &mut Dv, m: u128, c: u64) {
    let mut carry = c as u128;
    for d in a.iter_mut() {
        let t = *d as u128 * m + carry;   // m < 2^64
        *d = t as u64;
        carry = t >> 64;
    }
    if carry > 0 { a.push(carry as u64); }
}
/// The number as little-endian 64 bit words
pub fn to_bin(t: u8, a: &[u64]) -> Dv {
    let r = RADIX[t as usize];
    if t < 4 {
        let raw = to_raw(t, a);
        let mut w = of_raw(3, &raw);
        norm(&mut w);
        return w;
    }
    let mut out = vec![];
    for d in a.iter().rev() { mul_add_bin(&mut out, r, *d); }
    out
}
pub fn shr_bin(a: &[u64], n: u64) -> Dv {
    let (q, s) = ((n / 64) as usize, n % 64);
    if n / 64 >= a.len() as u64 { return vec![]; }
    let mut out: Dv = a[q..].to_vec();
    if s > 0 {
        for i in 0..out.len() {
            let hi = if i + 1 < out.len() { out[i + 1] } else { 0 };
            out[i] = (out[i] >> s) | (hi << (64 - s));
        }
    }
    norm(&mut out);
    out
}

// Residues modulo 2^61 - 1
pub const P: u64 = (1 << 61) - 1;
pub fn red(x: u128) -> u64 {
    let y = (x & P as u128) + (x >> 61);
    let y = (y & P as u128) as u64 + (y >> 61) as u64;
    if y >= P { y - P } else { y }
}
pub fn mulp(a: u64, b: u64) -> u64 { red(a as u128 * b as u128) }
pub fn addp(a: u64, b: u64) -> u64 { red(a as u128 + b as u128) }
pub fn subp(a: u64, b: u64) -> u64 { red(a as u128 + P as u128 - b as u128) }
pub fn powp(mut a: u64, mut n: u64) -> u64 {
    let mut r = 1;
    while n > 0 { if n & 1 == 1 { r = mulp(r, a); } a = mulp(a, a); n >>= 1; }
    r
}
pub fn res_digits(t: u8, a: &[u64]) -> u64 {
    let rr = red(RADIX[t as usize]);
    let mut v = 0;
    for d in a.iter().rev() { v = red(v as u128 * rr as u128 + *d as u128); }
    v
}
