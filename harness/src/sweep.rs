//! Histories enumerated exhaustively over small bounds: all numbers of up to three digits over the
//! digits where carries, borrows and quotient estimates change, all pairs of lengths, all shifts,
//! all short strings, all combinations of format flags, all pairs of operations.
use crate::api::*;
use crate::exec::*;
use crate::gen::{mk, newc, powers, Case};
use crate::nat::*;
use std::sync::Arc;

type Make = Box<dyn Fn(u64) -> Case + Send + Sync>;
pub struct Block { n: u64, make: Make }
pub struct Sweep { blocks: Vec<Block>, pub total: u64 }

impl Sweep {
    pub fn case(&self, mut i: u64) -> Case {
        for (k, b) in self.blocks.iter().enumerate() {
            if i < b.n { let mut c = (b.make)(i); c.key |= 1 << 31 | (k as u32) << 20; return c; }
            i -= b.n;
        }
        unreachable!("sweep index")
    }
}

fn radix(t: u8) -> u128 { RADIX[t as usize] }

/// The eight (or five) digits at which things happen
fn symbols(t: u8, many: bool) -> Vec<u64> {
    let r = radix(t);
    let (h, m) = ((r / 2) as u64, (r - 1) as u64);
    if many { vec![0, 1, 2, h - 1, h, h + 1, m - 1, m] } else { vec![0, 1, h, m - 1, m] }
}
/// Digits at quarters, thirds and roots of the radix and the machine word
fn rich(t: u8) -> Vec<u64> {
    let r = radix(t);
    let w = 8 * BYTES[t as usize];
    let root = (r as f64).sqrt() as u128;
    let mut v = vec![0, 1, 2, 3, 10, r / 4, r / 3, r / 2 - 1, r / 2, r / 2 + 1, r - 2, r - 1, root - 1, root, root + 1];
    for k in [w / 2, w - 2, w - 1] { for d in 0..3 { v.push((1u128 << k) + d - 1); } }
    v.retain(|x| *x < r);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u64).collect()
}
/// Digits that look special from within: special halves, runs of bits, few bits, around quotients of the radix and powers of ten
fn word(t: u8, h: u64) -> u64 {
    let r = radix(t);
    let w = 8 * BYTES[t as usize];
    let (k, i, j) = (h % 12, (h >> 8) as usize % w, (h >> 16) as usize % w);
    let x = hash(h);
    let part = |b: u128, c: u64, x: u64| match c % 9 { 0 => 0, 1 => 1, 2 => 2, 3 => b / 2 - 1, 4 => b / 2, 5 => b / 2 + 1, 6 => b - 2, 7 => b - 1, _ => x as u128 % b };
    let bit = |i: usize| 1u128 << i;
    let near = |v: u128, c: u64| (v + c as u128 % 5).saturating_sub(2);
    let v = match k {
        0 | 1 | 2 => { let b = bit(w / 2); part(b, h >> 24, x) * b + part(b, h >> 32, x >> 32) }
        3 => { let b = (if t < 4 { bit(w / 4) } else { [1u128, 1, 1, 1, 10, 100, 10_000, 1_000_000_000][t as usize] }).max(4); part(r / b, h >> 24, x) * b + part(b, h >> 32, x >> 32) }
        4 => near(bit(i.max(j) + 1) - bit(i.min(j)), h >> 24),
        5 => near(bit(i) + bit(j), h >> 24),
        6 => near(r / (1 + (h >> 24) as u128 % 17) * (1 + (h >> 32) as u128 % 17), h >> 40),
        7 => near(10u128.pow((h >> 24) as u32 % 20) * (1 + (h >> 32) as u128 % 9), h >> 40),
        8 => r - 1 - part(bit(w / 2), h >> 24, x),
        9 => near((((h >> 24) as u128 % r * (r - 1)) as f64).sqrt() as u128, h >> 24),
        10 => (x as u128) >> (64 - 1 - i),
        _ => x as u128,
    };
    (if v < r { v } else { v % r }) as u64
}
/// All canonical digit sequences of at most len of these digits
fn numbers(sym: &[u64], len: usize) -> Vec<Dv> {
    let mut out: Vec<Dv> = vec![vec![]];
    let mut last: Vec<Dv> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for x in &last { for s in sym { let mut y = x.clone(); y.push(*s); next.push(y); } }
        out.extend(next.iter().filter(|x| *x.last().unwrap() != 0).cloned());
        last = next;
    }
    out
}
fn hash(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9).wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
/// A number of so many digits
fn pattern(t: u8, len: usize, p: usize, salt: u64) -> Dv {
    let r = radix(t);
    let m = (r - 1) as u64;
    let mut v = match p {
        0 => vec![m; len],
        1 => { let mut v = vec![0; len]; if len > 0 { v[len - 1] = 1; } v }
        2 => (0..len).map(|i| ((hash(salt ^ (i as u64) << 20 ^ (t as u64) << 50) as u128 * r) >> 64) as u64).collect(),
        3 => (0..len).map(|i| [m, 0, 0, m, m, (r / 2) as u64, 1][i.wrapping_add(salt as usize) % 7]).collect(),
        4 => { let mut v = vec![m; len]; if len > 0 { v[len / 2] = m - 1; v[0] = 0; } v }
        _ => { let mut v = vec![0; len]; if len > 0 { v[len - 1] = m; v[0] = 1; } v }
    };
    if len > 0 && v[len - 1] == 0 { v[len - 1] = (r / 2) as u64; }
    v
}
fn sizes(a: usize, b: usize) -> u32 { ((a.min(15) as u32) << 4) | b.min(15) as u32 }
fn key(t: u8, tag: u32, a: usize, b: usize) -> u32 { tag << 14 | (t as u32) << 8 | sizes(a, b) }

struct B { blocks: Vec<Block>, thorough: bool }
impl B {
    fn add(&mut self, n: usize, make: impl Fn(u64) -> Case + Send + Sync + 'static) {
        if n > 0 { self.blocks.push(Block { n: n as u64, make: Box::new(make) }); }
    }
    /// All pairs of an element of xs and one of ys
    fn pairs(&mut self, t: u8, xs: Vec<Dv>, ys: Vec<Dv>, f: impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + 'static) {
        let m = ys.len() as u64;
        self.add(xs.len() * ys.len(), move |i| {
            let (a, b) = (&xs[(i / m) as usize], &ys[(i % m) as usize]);
            Case { calls: f(hash(i), t, a, b), key: key(t, 0, a.len(), b.len()) }
        });
    }
    /// All pairs of lengths and of patterns
    fn lengths(&mut self, t: u8, la: std::ops::Range<usize>, lb: std::ops::Range<usize>, pats: &'static [(usize, usize)],
               f: impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + 'static) {
        let (na, nb, np) = (la.len(), lb.len(), pats.len());
        self.add(na * nb * np, move |i| {
            let i = i as usize;
            let (p, j) = (i % np, i / np);
            let (x, y) = (la.start + j / nb, lb.start + j % nb);
            let a = pattern(t, x, pats[p].0, i as u64);
            let b = pattern(t, y, pats[p].1, !(i as u64));
            Case { calls: f(hash(i as u64), t, &a, &b), key: key(t, 1 + p as u32, x / 4, y / 4) }
        });
    }
    /// Every length, against related lengths: 0: as it is, 1: one less, 2: half, 3: a third, from 4 on: that many
    fn ladder(&mut self, t: u8, from: usize, to: usize, rel: &'static [usize], pats: &'static [(usize, usize)],
              f: impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + 'static) {
        let (ls, nr, np) = (ladder(from, to), rel.len(), pats.len());
        self.add(ls.len() * nr * np, move |i| {
            let (p, j) = (i as usize % np, i as usize / np);
            let (x, k) = (ls[j / nr], rel[j % nr]);
            let y = match k { 0 => x, 1 => x - 1, 2 => x / 2, 3 => x / 3, _ => k - 4 };
            let a = pattern(t, x, pats[p].0, i);
            let b = pattern(t, y, pats[p].1, !i);
            Case { calls: f(hash(i), t, &a, &b), key: key(t, 32, x.ilog2() as usize, 0) }
        });
    }
    /// Numbers of special shapes with runs of all these lengths, and one related number
    fn shapes(&mut self, t: u8, ls: Vec<usize>, partners: &'static [usize], f: impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + 'static) {
        let np = partners.len();
        self.add(ls.len() * NSHAPES * np, move |i| {
            let (q, j) = (i as usize % np, i as usize / np);
            let (s, n) = (j % NSHAPES, ls[j / NSHAPES]);
            let h = hash(i ^ (t as u64) << 32);
            let a = canon(shape(t, n, s, h));
            let b = canon(partner(t, &a, partners[q], hash(h)));
            Case { calls: f(hash(!h), t, &a, &b), key: key(t, 40 + s as u32, n.ilog2() as usize, partners[q]) }
        });
    }
    /// Short numbers of such digits, the second sharing a digit with the first now and then
    fn words(&mut self, t: u8, n: usize, la: usize, lb: usize, f: impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + 'static) {
        self.add(if self.thorough { 10 * n } else { n }, move |i| {
            let h = hash(i ^ (t as u64) << 48 ^ 0x5bd1 << 32);
            let make = |l: u64, h: u64| canon((0..l).map(|j| word(t, hash(h.wrapping_add(j << 7)))).collect());
            let (mut a, mut b) = (make(1 + h % la as u64, hash(h)), make(1 + (h >> 8) % lb as u64, hash(!h)));
            if h >> 16 & 7 == 0 { if let (Some(x), Some(y)) = (a.last(), b.last_mut()) { *y = *x } }
            if h >> 16 & 7 == 1 { let c = word(t, h); if !a.is_empty() { a[0] = c } if !b.is_empty() { b[0] = c } }
            let (a, b) = (canon(a), canon(b));
            Case { calls: f(hash(!i), t, &a, &b), key: key(t, 63, a.len(), b.len()) }
        });
    }
    /// Lengths far from everything else: around powers of two up to 2^16 and above
    fn huge(&mut self, t: u8, la: &[usize], lb: &[usize], pats: &'static [(usize, usize)],
            f: impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + 'static) {
        let (la, lb, np) = (la.to_vec(), lb.to_vec(), pats.len());
        self.add(la.len() * lb.len() * np, move |i| {
            let (p, j) = (i as usize % np, i as usize / np);
            let a = pattern(t, la[j / lb.len()], pats[p].0, i);
            let b = pattern(t, lb[j % lb.len()], pats[p].1, !i);
            Case { calls: f(hash(i), t, &a, &b), key: key(t, 30, 0, 0) }
        });
    }
}
/// Every length up to 600, and those around multiples of powers of two and a coarser ladder above
fn ladder(from: usize, to: usize) -> Vec<usize> {
    (from..=to).filter(|n| *n <= 600 || n % 13 == 0 || (n + 1) % 128 <= 2).collect()
}
const HUGE: &[usize] = &[1023, 1025, 4096, 8191, 32_767, 32_769, 65_535, 65_536, 65_537, 66_100];
const SMALL: &[usize] = &[0, 1, 2, 3, 40];
/// Lengths for numbers of special shapes
fn runs(thorough: bool, to: usize) -> Vec<usize> {
    if thorough { (1..=to).collect() } else { ladder(1, to) }
}
const NSHAPES: usize = 12;
/// A number with a run of exactly n digits zero or at the top, and what lies around the run
fn shape(t: u8, n: usize, s: usize, h: u64) -> Dv {
    let m = (radix(t) - 1) as u64;
    // some digits, none of them zero or at the top
    let some = |k: u64, salt: u64| -> Dv { (0..k).map(|i| 1 + (((hash(h ^ salt << 40 ^ i) as u128) * (m as u128 - 1)) >> 64) as u64).collect() };
    let zeros = vec![0; n];
    let tops = vec![m; n];
    let (k, l) = (1 + (h >> 3) % 6, 1 + (h >> 7) % 6);
    match s {
        0 => [zeros, vec![1]].concat(),
        1 => tops,
        2 => { let mut v = [zeros, vec![1]].concat(); v[0] = 1; v }
        3 => [zeros, some(k, 1)].concat(),
        4 => [tops, some(k, 1)].concat(),
        5 => [some(k, 1), tops].concat(),
        6 => [some(k, 1), zeros, some(l, 2)].concat(),
        7 => [some(k, 1), tops, some(l, 2)].concat(),
        8 => { let mut v = some(n as u64, 1); for x in v[..n / 2].iter_mut() { *x = m; } v }
        9 => { let mut v = some(2 * n as u64, 1); for i in 0..n { v[2 * i + (hash(h ^ i as u64) & 1) as usize] = 0; } v[2 * n - 1] = v[2 * n - 1].max(1); v }
        10 => [zeros, vec![m], some(k - 1, 1)].concat(),
        _ => { let mut v = some(n as u64 + 2, 1); v[0] = 0; v[n] = 0; v }
    }
}
fn canon(mut v: Dv) -> Dv { norm(&mut v); v }
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
/// A number related to a
fn partner(t: u8, a: &Dv, s: usize, h: u64) -> Dv {
    let (m, n) = ((radix(t) - 1) as u64, a.len());
    let i = (h >> 5) as usize % n;
    match s {
        0 => vec![[1, m, 1 + h % m][h as usize % 3]],
        1 => vec![[0, m, h % m][h as usize % 3], 1 + (h >> 9) % m],
        2 => { let mut v = a.clone(); v[0] = if v[0] == 0 { m } else { v[0] - 1 }; v }
        3 => { let mut v = a.clone(); v[i] = if v[i] == m { m - 1 } else { v[i] + 1 }; v }
        4 => { let mut v = vec![0; n + (h & 1) as usize]; *v.last_mut().unwrap() = 1; v }
        5 => vec![m; n - (h & 1) as usize],
        6 => pattern(t, n, 2, h),
        8 => pattern(t, 3 + (h >> 5) as usize % 17, 2, h),
        9 => shape(t, 1 + (h >> 5) as usize % 18, (h >> 20) as usize % NSHAPES, h),
        _ => if h & 1 == 0 { a.clone() } else { a[i..].to_vec() },
    }
}
fn two(t: u8, a: &Dv, b: &Dv) -> Vec<Call> { vec![newc(1, t, a), newc(2, t, b)] }
fn binary(op: u8) -> impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + Clone + 'static {
    move |h, t, a, b| { let mut v = two(t, a, b); v.push(Call { f: (h % 6) as u8, ..mk(Op::Big(op), 3, 1, 2) }); v }
}
/// A far number and one close to it: their difference loses (almost) all digits, or there is none
fn close(h: u64, t: u8, a: &Dv, how: &Dv) -> Vec<Call> {
    let m = (radix(t) - 1) as u64;
    let mut c = a.clone();
    let n = a.len();
    match how.len() {
        0 => {}
        1 => c[0] = if c[0] == 0 { 1 } else { c[0] - 1 },
        2 => c[0] = if c[0] == m { 0 } else { c[0] + 1 },
        3 => c[n / 2] ^= 1,
        4 => for x in c[..n / 2].iter_mut() { *x = m - *x },
        5 => { let k = n.min(256); c[n - k..].rotate_left(k / 2) }
        6 => c[n - 1] = 1,
        _ => { for x in c.iter_mut() { *x = 0; } c[n - 1] = 1 }
    }
    for x in c.iter_mut() { if *x > m { *x = m; } }
    if c[n - 1] == 0 { c[n - 1] = 1; }
    let mut v = two(t, a, &c);
    for (d, x, y) in [(3, 1, 2), (4, 2, 1)] { v.push(Call { f: (h >> d) as u8 % 6, ..mk(Op::Big(SUB), d, x, y) }); }
    v
}
fn division(h: u64, t: u8, a: &Dv, b: &Dv) -> Vec<Call> {
    let mut v = two(t, a, b);
    v.push(Call { e: 4, ..mk(Op::DivRem, 3, 1, 2) });
    match h % 5 {
        0 => v.push(Call { f: (h / 5 % 6) as u8, ..mk(Op::Big(DIV), 5, 1, 2) }),
        1 => v.push(Call { f: (h / 5 % 6) as u8, ..mk(Op::Big(REM), 5, 1, 2) }),
        2 => v.push(mk(Op::RemAs, 5, 1, 2)),
        _ => {}
    }
    v
}
const MIXED: &[(usize, usize)] = &[(0, 0), (2, 2), (1, 0), (3, 2), (4, 4), (5, 3), (0, 2)];
const FEW: &[(usize, usize)] = &[(0, 0), (2, 2), (3, 4)];

/// Machine integers around everything that matters for the type
fn scalars(t: u8) -> Vec<u64> {
    let r = radix(t);
    let lim: u128 = 1 << (8 * BYTES[t as usize]);
    if lim == 256 { return (0..256).collect(); }
    let mut v: Vec<u128> = vec![0, 1, 2, 3, 7, 10, r / 2 - 1, r / 2, r / 2 + 1, r - 2, r - 1, lim - 1, lim - 2, lim / 2, lim / 2 - 1];
    for k in 1..=lim / r { for d in 0..4 { v.push(k * r + d); v.push(k * r - 1 - d); } if k > 8 { break; } }
    let k = lim / r;
    for d in 0..3 { v.push(k * r + d); v.push(k * r - 1 - d); v.push((k - k / 2) * r + d); }
    let mut k = 1;
    while k < lim { v.push(k); v.push(k - 1); k <<= 1; }
    v.retain(|x| *x < lim);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u64).collect()
}

pub fn sweep(p: usize, thorough: bool) -> Sweep {
    let mut b = B { blocks: vec![], thorough };
    let n3 = |t: u8| numbers(&symbols(t, true), 3);
    let n2 = |t: u8| numbers(&symbols(t, true), 2);
    let s4 = |t: u8| numbers(&symbols(t, false), 4);
    let s3 = |t: u8| numbers(&symbols(t, false), 3);
    let s2 = |t: u8| numbers(&symbols(t, false), 2);
    let r2 = |t: u8| numbers(&rich(t), 2);
    let p2 = |t: u8| numbers(powers(t), 2);
    let one = |t: u8| -> Vec<Dv> { numbers(&(0..radix(t) as u64).collect::<Vec<_>>(), 1) };
    for t in 0..8u8 {
        match p {
            1 | 2 => {
                let op = if p == 1 { ADD } else { SUB };
                b.pairs(t, n3(t), n3(t), binary(op));
                b.pairs(t, r2(t), r2(t), binary(op));
                if thorough { b.pairs(t, s4(t), s4(t), binary(op)); }
                b.lengths(t, 0..40, 0..40, MIXED, binary(op));
                b.lengths(t, 40..300, 0..300, &[(2, 2)], binary(op));
                if p == 1 { b.lengths(t, 0..40, 40..300, &[(2, 2)], binary(op)); }
                let all: Vec<usize> = SMALL.iter().chain(HUGE).copied().collect();
                b.ladder(t, 40, 1100, &[0, 1, 2, 5, 24], MIXED, binary(op));
                if p == 2 { b.ladder(t, 3, 1100, &[4, 5, 6, 7, 8, 9, 10, 11], FEW, close); }
                b.huge(t, HUGE, &all, FEW, binary(op));
                b.words(t, 100_000, 4, 4, move |h, t, a, b| if op == SUB && cmp(a, b).is_lt() { binary(op)(h, t, b, a) } else { binary(op)(h, t, a, b) });
                b.shapes(t, runs(thorough, 2000), ALL, move |h, t, a, b| {
                    let swap = if op == SUB { cmp(a, b).is_lt() && h % 7 > 0 } else { h & 1 == 1 };
                    if swap { binary(op)(h >> 4, t, b, a) } else { binary(op)(h >> 4, t, a, b) }
                });
                if p == 2 { b.huge(t, HUGE, &[0, 1, 2, 3, 4, 5, 6, 7], FEW, close); }
            }
            3 => {
                b.pairs(t, n3(t), n3(t), binary(MUL));
                if t % 4 == 0 { b.pairs(t, one(t), one(t), binary(MUL)); }
                b.pairs(t, r2(t), r2(t), binary(MUL));
                b.words(t, 200_000, 4, 3, binary(MUL));
                b.pairs(t, numbers(powers(t), 1), numbers(powers(t), 1), binary(MUL));
                b.lengths(t, 1..70, 1..70, FEW, binary(MUL));
                if thorough { b.lengths(t, 1..140, 1..140, MIXED, binary(MUL)); }
                b.lengths(t, 1..150, 1..150, &[(2, 2)], binary(MUL));
                b.lengths(t, 150..400, 1..30, &[(2, 2)], binary(MUL));
                b.lengths(t, 1..30, 150..400, &[(2, 2)], binary(MUL));
                b.lengths(t, 126..134, 126..134, FEW, binary(MUL));
                b.ladder(t, 70, 700, &[0, 2, 3, 24, 25], FEW, binary(MUL));
                b.ladder(t, 40, 1100, &[5, 6, 7], FEW, binary(MUL));
                b.huge(t, HUGE, SMALL, FEW, binary(MUL));
                b.shapes(t, runs(thorough, 300).into_iter().filter(|n| thorough || *n < 140 || n % 16 < 2).collect(), &[0, 1, 3, 4, 5, 6],
                         |h, t, a, b| if h & 1 == 1 { binary(MUL)(h >> 4, t, b, a) } else { binary(MUL)(h >> 4, t, a, b) });
                b.shapes(t, runs(thorough, 2000), &[0, 1, 8, 9], |h, t, a, b| if h & 1 == 1 { binary(MUL)(h >> 4, t, b, a) } else { binary(MUL)(h >> 4, t, a, b) });
                // two numbers of arbitrary shapes within the reach of Toom-3
                b.add(if thorough { 150_000 } else { 15_000 }, move |i| {
                    let h = hash(i ^ (t as u64) << 40);
                    let (n, m) = (128 + (h >> 3) as usize % 270, 128 + (h >> 20) as usize % 270);
                    let one = |n: usize, h: u64| {
                        let mut v = pattern(t, n, 2, h);
                        if h >> 60 > 3 { let k = canon(shape(t, 1 + (h >> 30) as usize % n, (h >> 8) as usize % NSHAPES, h)); let at = (h >> 16) as usize % n; for (i, x) in k.iter().enumerate() { if at + i < n { v[at + i] = *x; } } }
                        canon(v)
                    };
                    let (x, y) = (one(n, hash(h)), one(m, hash(!h)));
                    Case { calls: binary(MUL)(h >> 40, t, &x, &y), key: key(t, 61, n / 32, m / 32) }
                });
                // a number of one shape and one of another
                b.add(60 * NSHAPES * NSHAPES, move |i| {
                    let (s, i) = (i as usize % (NSHAPES * NSHAPES), i as usize / (NSHAPES * NSHAPES));
                    let h = hash((i * 1000 + s) as u64);
                    let (x, y) = (canon(shape(t, 1 + i, s % NSHAPES, h)), canon(shape(t, 1 + (h >> 8) as usize % (i + 1), s / NSHAPES, !h)));
                    Case { calls: binary(MUL)(h >> 40, t, &x, &y), key: key(t, 60, s % NSHAPES, s / NSHAPES) }
                });
                b.huge(t, &[19, 21, 129], &[4097, 32_769, 65_537], FEW, binary(MUL));
                b.huge(t, &[4096, 8191, 32_769], &[4097, 32_770], &[(2, 2)], binary(MUL));
            }
            4 => {
                let xs = if thorough { numbers(&symbols(t, true), 4) } else { n3(t) };
                b.pairs(t, xs, vec![vec![]], |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]);
                b.pairs(t, p2(t), vec![vec![]], |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]);
                b.pairs(t, numbers(&rich(t), 3), vec![vec![]], |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]);
                b.words(t, 100_000, 4, 1, |h, t, a, _| vec![newc(1, t, a), if h % 4 > 0 { mk(Op::Square, 2, 1, 0) } else { Call { f: (h >> 8 & 1) as u8, n: h >> 16 & 7, ..mk(Op::Pow, 2, 1, 0) } }]);
                b.lengths(t, 1..150, 0..1, MIXED, |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]);
                if thorough { b.lengths(t, 150..420, 0..1, MIXED, |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]); }
                b.ladder(t, 150, 1100, &[4], FEW, |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]);
                b.shapes(t, runs(thorough, 500), &[0], |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]);
                b.shapes(t, (1..41).collect(), &[0], |h, t, a, _| vec![newc(1, t, a), Call { f: (h & 1) as u8, n: (h >> 8) % (2 + 100 / a.len() as u64), ..mk(Op::Pow, 2, 1, 0) }]);
                b.huge(t, &[1023, 1025, 4095, 4096, 8193, 16_384, 32_767, 32_769], &[0], &[(2, 2), (3, 3)], |_, t, a, _| vec![newc(1, t, a), mk(Op::Square, 2, 1, 0)]);
                b.add(12, move |i| {
                    let (l, n) = [(1, 255), (1, 256), (1, 257), (1, 65_535), (1, 65_536), (1, 65_537), (2, 4095), (2, 4096), (2, 32_769), (3, 257), (40, 64), (3, 1000)][i as usize];
                    let a = if l == 1 { vec![if i % 2 == 0 { 3 } else { (radix(t) - 1) as u64 }] } else { pattern(t, l, 2, i) };
                    Case { calls: vec![newc(1, t, &a), Call { f: (i % 2) as u8, n, ..mk(Op::Pow, 2, 1, 0) }], key: key(t, 31, 0, 0) }
                });
                let pow = |h: u64, t: u8, a: &Dv, n: u64| vec![newc(1, t, a), Call { f: (h % 2) as u8, n, ..mk(Op::Pow, 2, 1, 0) }];
                let xs = n2(t);
                let m = if thorough { 70 } else { 34 };
                b.add(xs.len() * m, move |i| {
                    let (a, n) = (&xs[i as usize / m], i % m as u64);
                    Case { calls: pow(hash(i), t, a, n), key: key(t, 9, a.len(), (n / 4) as usize) }
                });
                if t % 4 == 0 {
                    let xs = one(t);
                    b.add(xs.len() * 70, move |i| {
                        let (a, n) = (&xs[i as usize / 70], i % 70);
                        Case { calls: pow(hash(i), t, a, n), key: key(t, 10, 1, (n / 8) as usize) }
                    });
                }
            }
            5 => {
                b.pairs(t, s4(t), s3(t), division);
                b.pairs(t, numbers(&symbols(t, true), 4), n2(t), division);
                if t == 4 { b.pairs(t, numbers(&(0..100).collect::<Vec<_>>(), 2), if thorough { one(t) } else { n2(t) }, division); }
                if thorough {
                    b.pairs(t, numbers(&symbols(t, true), 4), n3(t), division);
                    if t == 0 { b.pairs(t, numbers(&(0..256).collect::<Vec<_>>(), 2), one(t), division); }
                }
                b.pairs(t, r2(t), r2(t), division);
                b.words(t, 150_000, 5, 3, division);
                // quotient, divisor and remainder of special digits
                b.words(t, 300_000, 3, 3, |h, t, q, y| {
                    let r = radix(t);
                    if y.is_empty() { return division(h, t, q, y); }
                    let mut z: Dv = y.iter().enumerate().map(|(i, d)| match h >> (8 + 4 * i) & 15 { 0 | 1 => 0, 2 => *d, 3 => (r - 1) as u64, _ => word(t, hash(h + i as u64)) }).collect();
                    norm(&mut z);
                    if cmp(&z, y).is_ge() { z = match h >> 32 & 3 { 0 => vec![], 1 => sub(r, y, &[1]), _ => divrem(r, &z, y).1 }; }
                    let mut x = add(r, &mul(r, q, y), &z);
                    norm(&mut x);
                    division(h, t, &x, y)
                });
                b.pairs(t, p2(t).into_iter().filter(pure).collect(), numbers(powers(t), 1), division);
                b.lengths(t, 1..66, 1..46, FEW, division);
                b.lengths(t, 1..240, 1..120, &[(2, 2)], division);
                b.ladder(t, 46, 500, &[0, 1, 2, 3, 5, 6, 7, 23, 24, 44], FEW, division);
                b.huge(t, HUGE, &[1, 2, 3, 19, 21], FEW, division);
                b.shapes(t, runs(thorough, 2000), &[0, 1, 2, 7, 8, 9], |h, t, a, b| if h & 15 == 0 { division(h >> 4, t, b, a) } else { division(h >> 4, t, a, b) });
                b.shapes(t, runs(thorough, 300), &[3, 4, 5, 6], |h, t, a, b| if h & 3 == 0 { division(h >> 4, t, b, a) } else { division(h >> 4, t, a, b) });
                // multiples of the divisor, and the numbers next to them
                b.add(if thorough { 120 } else { 48 } * NSHAPES * NSHAPES * 3, move |i| {
                    let i = i as usize;
                    let (s, i) = (i % (NSHAPES * NSHAPES), i / (NSHAPES * NSHAPES));
                    let (d, n) = (i % 3, 1 + i / 3);
                    let h = hash((i * 1000 + s) as u64);
                    let r = radix(t);
                    let y = canon(shape(t, n, s % NSHAPES, h));
                    let q = canon(shape(t, 1 + (h >> 8) as usize % (n + 8), s / NSHAPES, !h));
                    let mut x = mul(r, &y, &q);
                    if d == 0 { x = sub(r, &x, &[1]); }
                    if d == 2 { x = add(r, &x, &sub(r, &y, &[1])); }
                    norm(&mut x);
                    Case { calls: division(h >> 40, t, &x, &y), key: key(t, 60 + d as u32, s % NSHAPES, s / NSHAPES) }
                });
                b.huge(t, &[4096, 8191, 32_769], &[1023, 4096, 16_385], &[(2, 2)], |h, t, a, b| division(h - h % 5 + 4, t, a, b));
                if thorough { b.lengths(t, 1..180, 1..90, MIXED, division); }
            }
            6 => {
                let xs = n3(t);
                let ss = scalars(t);
                let (nx, ns) = (xs.len(), ss.len());
                b.add(nx * ns * 5, move |i| {
                    let i = i as usize;
                    let (op, j) = (i % 5, i / 5);
                    let (a, n) = (&xs[j / ns], ss[j % ns]);
                    let h = hash(i as u64);
                    let dig = (n as u128) < radix(t) && h & 8 == 0;
                    let two = (n as u128 >= radix(t)) as u32;
                    Case { calls: vec![newc(1, t, a), Call { f: ((h >> 8) % 3) as u8, n, dig, ..mk(Op::Short(op as u8), 2, 1, 0) }],
                           key: key(t, 1 + op as u32 * 2 + two, a.len(), 0) }
                });
                b.words(t, 200_000, 4, 1, |h, t, a, b| {
                    // the machine integer: any word, beyond the radix too
                    let n = match h & 3 { 0 => b.first().copied().unwrap_or(0), 1 => (radix(t) as u64).wrapping_add(b.first().copied().unwrap_or(0)), _ => word(t % 4, hash(h)) };
                    let n = n & (u64::MAX >> (64 - 8 * BYTES[t as usize]));
                    vec![newc(1, t, a), Call { f: (h >> 8) as u8 % 3, n, ..mk(Op::Short((h >> 16) as u8 % 5), 2, 1, 0) }]
                });
                let ss = scalars(t);
                let ls = ss.clone();
                let zs = ss.clone();
                b.shapes(t, runs(thorough, 2000), &[0, 1, 2, 3, 4, 0, 1, 2, 3, 4], move |h, t, a, _| {
                    let n = if h & 1 == 0 { zs[(h >> 8) as usize % zs.len()] } else { (h >> 8) & (u64::MAX >> (64 - 8 * BYTES[t as usize])) };
                    vec![newc(1, t, a), Call { f: (h % 3) as u8, n, ..mk(Op::Short((h >> 48) as u8 % 5), 2, 1, 0) }]
                });
                b.ladder(t, 4, 1100, &[4, 5, 6, 7, 8], FEW, move |h, t, a, o| vec![newc(1, t, a),
                    Call { f: (h % 3) as u8, n: ls[(h >> 8) as usize % ls.len()], ..mk(Op::Short(o.len() as u8), 2, 1, 0) }]);
                b.huge(t, HUGE, &[0, 1, 2, 3, 4], FEW, move |h, t, a, o| vec![newc(1, t, a),
                    Call { f: (h % 3) as u8, n: ss[(h >> 8) as usize % ss.len()], ..mk(Op::Short(o.len() as u8), 2, 1, 0) }]);
                if t == 4 {
                    // every decimal number of two digits and every byte
                    let step = if thorough { 1 } else { 3 };
                    b.add(10_000 * 256 * 5 / step, move |i| {
                        let i = i as usize * step;
                        let (op, n, x) = (i % 5, (i / 5 % 256) as u64, i / 1280);
                        let mut a = vec![(x % 100) as u64, (x / 100) as u64];
                        norm(&mut a);
                        Case { calls: vec![newc(1, t, &a), Call { f: 2, n, ..mk(Op::Short(op as u8), 2, 1, 0) }], key: key(t, 12, op, (n >= 100) as usize) }
                    });
                }
            }
            7 | 8 => {
                let op = if p == 7 { Op::Shl } else { Op::Shr };
                let xs = if thorough { numbers(&symbols(t, true), 4) } else { n3(t) };
                let m = 8 * BYTES[t as usize] * 3 + 10;
                // far shifts of short numbers, short shifts of far numbers, and everything between
                let per = if t < 4 { 8 * BYTES[t as usize] } else { 3 * BYTES[t as usize] };
                b.ladder(t, 40, 1100, &[4, 5, 6, 7], FEW, move |h, t, a, k| {
                    let len = a.len() * per;
                    let n = [h as usize % (2 * per), h as usize % len, len - 1 - h as usize % per, len + per - h as usize % 8][k.len()];
                    vec![newc(1, t, a), Call { f: (h >> 40) as u8 % 3, n: if t >= 4 { n.min(1500) } else { n } as u64, ..mk(op, 2, 1, 0) }]
                });
                b.shapes(t, runs(thorough, if t >= 4 { 500 } else { 2000 }), &[0, 1, 2, 3, 4, 5], move |h, t, a, _| {
                    let len = a.len() * per;
                    let low = a.iter().take_while(|x| **x == 0).count();
                    let n = match h % 8 {
                        0 => h as usize / 8 % (2 * per),
                        1 => h as usize / 8 % len,
                        2 => h as usize / 8 % (a.len() + 1) * per,
                        3 => low * per,
                        4 => low * per + h as usize / 8 % per,
                        5 => (low * per).saturating_sub(1 + h as usize / 8 % per),
                        6 => 1 + h as usize / 8 % 8,
                        _ => len - 1 - h as usize / 8 % per,
                    };
                    vec![newc(1, t, a), Call { f: (h >> 40) as u8 % 3, n: if t >= 4 { n.min(1500) } else { n } as u64, ..mk(op, 2, 1, 0) }]
                });
                b.words(t, 60_000, 4, 1, move |h, t, a, _| vec![newc(1, t, a), Call { f: (h >> 40) as u8 % 3, n: (h >> 8) % (3 * per) as u64, ..mk(op, 2, 1, 0) }]);
                // amounts of every size
                b.add(if thorough { 6000 } else { 3000 } * 3, move |i| {
                    let (n, i) = (i / 3, i % 3);
                    let l = [1, 2 + hash(n) as usize % 4, 6 + hash(n) as usize % 40][i as usize];
                    let a = pattern(t, if p == 8 && i > 0 { l + n as usize / per } else { l }, 2, i << 40 | n);
                    Case { calls: vec![newc(1, t, &a), Call { f: hash(n) as u8 % 3, n, ..mk(op, 2, 1, 0) }], key: key(t, 62, n.max(1).ilog2() as usize, i as usize) }
                });
                b.huge(t, if p == 7 { &[1, 3, 20, 8191, 66_100] } else { HUGE }, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[(2, 2), (0, 0)], move |h, t, a, k| {
                    let n = [1, 7, per, 255, 256, 257, 1000 * per, 65_535, 65_536, 65_537, 66_000 * per][k.len()];
                    // decimal digits are shifted a few bits at a time
                    let n = if t >= 4 { n.min(if a.len() > 9000 { 260 } else if a.len() > 100 { 1000 } else { 20_000 }) } else { n };
                    vec![newc(1, t, a), Call { f: (h % 3) as u8, n: n as u64, ..mk(op, 2, 1, 0) }]
                });
                let m = if thorough { m.max(200) } else { m };
                b.add(xs.len() * m, move |i| {
                    let (a, n) = (&xs[i as usize / m], i % m as u64);
                    Case { calls: vec![newc(1, t, a), Call { f: (hash(i) % 3) as u8, n, ..mk(op, 2, 1, 0) }], key: key(t, 1, a.len(), n as usize / 16) }
                });
                b.lengths(t, 0..40, 0..200, FEW, move |h, t, a, s| vec![newc(1, t, a), Call { f: (h % 3) as u8, n: s.len() as u64, ..mk(op, 2, 1, 0) }]);
            }
            9 => {
                let syms: &'static [&'static str] = &["0", "1", "9", "a", "F", "x", "X", "+", "-", " ", "_", "\u{e9}", "/", ":", "g"];
                let m = syms.len() as u64;
                let len = if thorough { 5 } else { 4 };
                for (prefix, k) in [("", len), ("0x", len - 1)] {
                    for l in 0..=k {
                        b.add(m.pow(l as u32) as usize, move |i| {
                            let mut s = prefix.to_string();
                            let mut j = i;
                            for _ in 0..l { s.push_str(syms[(j % m) as usize]); j /= m; }
                            Case { calls: vec![Call { d: 1, t, s, ..Call::new(Op::Parse) }], key: key(t, 1, l, 0) }
                        });
                    }
                }
                b.add(24, move |i| {
                    let (hex, p, l) = (i as usize % 2, i as usize / 2 % 2, [4097, 16_384, 32_769, 65_535, 65_537, 131_073][i as usize / 4]);
                    // quadratic where the base changes
                    let l = if t % 4 < 2 && (hex == 1) != (t < 4) { l.min(16_384) } else { l };
                    let s: String = (0..l).map(|j| if p == 0 && j > 0 { '0' } else { char::from_digit(1 + (hash((j * 131 + l) as u64) % 9) as u32, 16).unwrap() }).collect();
                    Case { calls: vec![Call { d: 1, t, s: format!("{}{}", ["", "0x"][hex], s), ..Call::new(Op::Parse) }], key: key(t, 31, 0, 0) }
                });
                // long numerals of every length: nines, a one before zeros, arbitrary digits before or after a half of zeros
                let maxl = if thorough { 3000 } else { 2200 };
                b.add(maxl * 4 * 2, move |i| {
                    let i = i as usize;
                    let (l, i) = (1 + i % maxl, i / maxl);
                    let (p, hex) = (i % 4, i / 4);
                    let d = |j: usize| char::from_digit((hash((j * 131 + l) as u64) % if hex == 1 { 16 } else { 10 }) as u32, 16).unwrap();
                    let s: String = (0..l).map(|j| match p {
                        0 => if hex == 1 { 'f' } else { '9' },
                        1 => if j == 0 { '1' } else { '0' },
                        2 => if j < l / 2 { d(j) } else { '0' },
                        _ => if j == 0 { '3' } else if j < l / 2 { '0' } else { d(j) },
                    }).collect();
                    Case { calls: vec![Call { d: 1, t, s: format!("{}{}", ["", "0x"][hex], s), ..Call::new(Op::Parse) }], key: key(t, 18 + hex as u32 * 4 + p as u32, l / 64, 0) }
                });
                // runs of zeros or of the last figure at either end or within
                let ls = runs(thorough, 1100);
                b.add(ls.len() * 10 * 2, move |i| {
                    let i = i as usize;
                    let (n, s, hex) = (ls[i / 20], i % 20 / 2, i % 2);
                    let d = |k: usize, salt: usize| -> String { (0..k).map(|j| char::from_digit(1 + (hash((j * 131 + n * 7 + salt * 31) as u64) % if hex == 1 { 14 } else { 8 }) as u32, 16).unwrap()).collect() };
                    let (z, m) = ("0".repeat(n), if hex == 1 { "f" } else { "9" }.repeat(n));
                    let (k, l) = (1 + hash((n * 3 + s) as u64) as usize % 25, 1 + hash((n * 5 + s) as u64) as usize % 25);
                    let s = match s {
                        0 => z, 1 => m, 2 => z + &d(k, 1), 3 => z + "1", 4 => "1".to_string() + &z, 5 => d(k, 1) + &z, 6 => d(k, 1) + &m, 7 => m + &d(k, 1),
                        8 => d(k, 1) + &z + &d(l, 2), _ => d(k, 1) + &m + &d(l, 2),
                    };
                    Case { calls: vec![Call { d: 1, t, s: format!("{}{}", ["", "0x"][hex], s), ..Call::new(Op::Parse) }], key: key(t, 40 + i as u32 % 20, n.ilog2() as usize, 0) }
                });
                // numerals of every length, with a foreign character at every position
                let bad: &'static [char] = &['g', '+', '/', ':', '@', '`', '\u{663}'];
                let nb = bad.len() + 1;
                let maxl = if thorough { 90 } else { 45 };
                b.add(maxl * 4 * 2 * (nb * maxl), move |i| {
                    let i = i as usize;
                    let (l, i) = (1 + i % maxl, i / maxl);
                    let (p, i) = (i % 4, i / 4);
                    let (hex, i) = (i % 2, i / 2);
                    let (at, c) = (i / nb % maxl, i % nb);
                    let mut d: Vec<char> = (0..l).map(|j| match p {
                        0 => '9', 1 => if j == 0 { '1' } else { '0' }, 2 => if j + 1 == l { '7' } else { '0' },
                        _ => char::from_digit((hash((j * 131 + l) as u64) % if hex == 1 { 16 } else { 10 }) as u32, if hex == 1 { 16 } else { 10 }).unwrap(),
                    }).collect();
                    if hex == 1 && p == 0 { d.iter_mut().for_each(|x| *x = 'f'); }
                    if c < bad.len() && at < l { d[at] = bad[c]; }
                    let s = format!("{}{}", ["", "0x"][hex], d.into_iter().collect::<String>());
                    Case { calls: vec![Call { d: 1, t, s, ..Call::new(Op::Parse) }], key: key(t, 2 + hex as u32 * 4 + p as u32, l / 4, (c < bad.len()) as usize) }
                });
            }
            10 => {
                let xs: Vec<Dv> = {
                    let r = radix(t) as u64;
                    let m = r.wrapping_sub(1);
                    vec![vec![], vec![1], vec![m], vec![0, 1], vec![m / 16 + 1, 1], vec![5, 0, m]]
                };
                let nk = if t < 4 { 3 } else { 1 };
                let nw = if thorough { 34 } else { 14 };
                b.add(xs.len() * nk * nw * 8 * 13 * 3, move |i| {
                    let i = i as usize;
                    let (a, i) = (&xs[i % xs.len()], i / xs.len());
                    let (k, i) = (i % nk, i / nk);
                    let (w, i) = (i % nw, i / nw);
                    let (fl, i) = (i % 8, i / 8);
                    let (al, pr) = (i % 13, i / 13);
                    let fmt = Fmt { w: w as i32 - 1, z: fl & 1 == 1, p: fl & 2 == 2, h: fl & 4 == 4,
                                    al: if al == 0 { 0 } else { 1 + ((al - 1) / 4) as u8 }, fc: if al == 0 { 0 } else { ((al - 1) % 4) as u8 },
                                    pr: [-1, 0, 3][pr] };
                    Case { calls: vec![newc(1, t, a), Call { k: k as u8, fl: fmt, ..mk(Op::Show, 0, 1, 0) }], key: key(t, 1 + k as u32, fl, al) }
                });
                b.words(t, 40_000, 5, 1, |h, t, a, _| vec![newc(1, t, a), Call { k: if t < 4 { h as u8 % 3 } else { 0 }, fl: Fmt { h: h >> 8 & 3 == 0, ..Fmt::default() }, ..mk(Op::Show, 0, 1, 0) }]);
                b.lengths(t, 0..60, 0..3, MIXED, |_, t, a, k| vec![newc(1, t, a), Call { k: if t < 4 { k.len() as u8 } else { 0 }, ..mk(Op::Show, 0, 1, 0) }]);
                b.shapes(t, runs(thorough, 700), if t < 4 { &[1, 2] } else { &[0] }, move |h, t, a, k| vec![newc(1, t, a), Call {
                    k: if t < 4 { 1 + (h >> 20) as u8 % 2 } else { 0 * k.len() as u8 },
                    fl: Fmt { h: h % 3 == 0, p: h % 7 == 0, z: h % 11 == 0, w: if h % 5 == 0 { (h >> 8) as i32 & 1023 } else { -1 }, ..Fmt::default() }, ..mk(Op::Show, 0, 1, 0) }]);
                if t < 4 { b.shapes(t, (1..60).collect(), &[0], |_, t, a, _| vec![newc(1, t, a), mk(Op::Show, 0, 1, 0)]); }
                // to the base of the digits; decimal text of binary numbers goes through to_decimal
                let top: &[usize] = if t < 4 { &[1023, 4097, 16_384, 65_537] } else { HUGE };
                b.ladder(t, 60, 1100, if t < 4 { &[4, 5, 6] } else { &[4] }, FEW, |h, t, a, k| vec![newc(1, t, a),
                    Call { k: k.len() as u8, fl: Fmt { h: h % 3 == 0, ..Fmt::default() }, ..mk(Op::Show, 0, 1, 0) }]);
                b.huge(t, top, if t < 4 { &[1, 2] } else { &[0] }, FEW, |h, t, a, k| vec![newc(1, t, a),
                    Call { k: k.len() as u8, fl: Fmt { w: if h % 2 == 0 { -1 } else { 65_535 }, h: h % 3 == 0, z: h % 5 == 0, ..Fmt::default() }, ..mk(Op::Show, 0, 1, 0) }]);
            }
            11 if t < 4 => {
                b.pairs(t, n3(t), vec![vec![]], |_, t, a, _| vec![newc(1, t, a), mk(Op::ToDec, 2, 1, 0)]);
                b.words(t, 60_000, 6, 1, |_, t, a, _| vec![newc(1, t, a), mk(Op::ToDec, 2, 1, 0)]);
                b.words(t, 5_000, 70, 1, |_, t, a, _| vec![newc(1, t, a), mk(Op::ToDec, 2, 1, 0)]);
                b.lengths(t, 0..if thorough { 200 } else { 90 }, 0..1, MIXED, |_, t, a, _| vec![newc(1, t, a), mk(Op::ToDec, 2, 1, 0)]);
                b.ladder(t, 90, 1100, &[4], MIXED, |_, t, a, _| vec![newc(1, t, a), mk(Op::ToDec, 2, 1, 0)]);
                b.shapes(t, runs(thorough, 300), &[0, 1], |_, t, a, _| vec![newc(1, t, a), mk(Op::ToDec, 2, 1, 0)]);
                b.huge(t, if t == 3 { &[1023, 1025, 4097, 16_385] } else { &[1023, 1025, 4096, 8191, 16_385, 32_769, 65_537] }, &[0], MIXED,
                       |_, t, a, _| vec![newc(1, t, a), mk(Op::ToDec, 2, 1, 0)]);
                // 10^k * m + c, and c below zero
                let cs: Vec<i64> = vec![0, 1, -1, 9, 10, -10, 99, 12345];
                let maxk = if thorough { 400 } else { 160 };
                b.add(maxk * 9 * cs.len(), move |i| {
                    let i = i as usize;
                    let (c, i) = (cs[i % cs.len()], i / cs.len());
                    let (m, k) = ([1, 2, 5, 16, 99, 100, 255, 256, 1_000_003][i % 9], i / 9);
                    let r = 1u128 << 64;
                    let mut v = vec![m];
                    for _ in 0..k { v = mul(r, &v, &[10]); }
                    if c >= 0 { v = add(r, &v, &[c as u64]); } else if v.len() > 1 || v[0] > 10 { v = sub(r, &v, &[(-c) as u64]); }
                    let mut d = of_raw(t, &to_raw(3, &v));
                    norm(&mut d);
                    Case { calls: vec![newc(1, t, &d), mk(Op::ToDec, 2, 1, 0)], key: key(t, 8, d.len() / 4, 0) }
                });
            }
            12 | 14 => {
                // every operation on every pair of short numbers
                for op in 0..5 { b.pairs(t, n2(t), n2(t), inspected(op)); }
                b.words(t, 50_000, 4, 3, |h, t, a, b| { let op = (h >> 40) as u8 % 5; if op == SUB && cmp(a, b).is_lt() { inspected(op)(h, t, b, a) } else { inspected(op)(h, t, a, b) } });
                b.ladder(t, 3, 1100, &[4, 5, 6, 7, 8, 9, 10, 11], FEW, close);
                b.huge(t, HUGE, &[0, 1, 2, 3, 4, 5, 6, 7], FEW, close);
                b.pairs(t, s3(t), s2(t), |h, t, a, b| { let mut v = division(h, t, a, b); v.push(mk(Op::Insp, 0, 3, 0)); v });
                for op in [SUB, SUB, ADD, REM, DIV] {
                    b.shapes(t, runs(thorough, 300).into_iter().filter(|n| op == SUB || thorough || *n < 90).collect(), &[2, 3, 4, 5, 7],
                             move |h, t, a, b| if cmp(a, b).is_lt() { inspected(op)(h, t, b, a) } else { inspected(op)(h, t, a, b) });
                }
                let xs = n2(t);
                let m = 8 * BYTES[t as usize] * 2 + 4;
                b.add(xs.len() * m * 2, move |i| {
                    let j = i as usize / 2;
                    let op = if i % 2 == 0 { Op::Shl } else { Op::Shr };
                    let (a, n) = (&xs[j / m], (j % m) as u64);
                    Case { calls: vec![newc(1, t, a), Call { f: (hash(i) % 3) as u8, n, ..mk(op, 2, 1, 0) }, mk(Op::Insp, 0, 2, 0)], key: key(t, 1 + (i % 2) as u32, a.len(), n as usize / 16) }
                });
                let xs = s2(t);
                let ss = scalars(t);
                let (nx, ns) = (xs.len(), ss.len());
                b.add(nx * ns * 5, move |i| {
                    let i = i as usize;
                    let (op, j) = (i % 5, i / 5);
                    let (a, n) = (&xs[j / ns], ss[j % ns]);
                    let h = hash(i as u64);
                    let dig = (n as u128) < radix(t) && h & 8 == 0;
                    Case { calls: vec![newc(1, t, a), Call { f: ((h >> 8) % 3) as u8, n, dig, ..mk(Op::Short(op as u8), 2, 1, 0) }, mk(Op::Insp, 0, 2, 0)],
                           key: key(t, 3 + op as u32, a.len(), 0) }
                });
            }
            13 => {
                b.pairs(t, n3(t), n3(t), |h, t, a, b| {
                    let mut v = two(t, a, b);
                    v.push(mk(Op::Cmp, 0, 1, 2));
                    if h % 4 == 0 { v.push(mk(Op::Max, 3, 1, 2)); v.push(mk(Op::Min, 4, 1, 2)); }
                    v
                });
                b.words(t, 100_000, 4, 4, |_, t, a, b| { let mut v = two(t, a, b); v.push(mk(Op::Cmp, 0, 1, 2)); v });
                b.lengths(t, 0..300, 0..300, &[(2, 2)], |_, t, a, b| { let mut v = two(t, a, b); v.push(mk(Op::Cmp, 0, 1, 2)); v });
                b.lengths(t, 0..30, 0..30, MIXED, |_, t, a, b| { let mut v = two(t, a, b); v.push(mk(Op::Cmp, 0, 1, 2)); v });
                let all: Vec<usize> = SMALL.iter().chain(HUGE).copied().collect();
                b.ladder(t, 30, 1100, &[0, 1], FEW, |_, t, a, b| { let mut v = two(t, a, b); v.push(mk(Op::Cmp, 0, 1, 2)); v });
                b.ladder(t, 3, 1100, &[4, 5, 6, 7, 8, 9, 10, 11], FEW, |h, t, a, how| {
                    let mut v = close(h, t, a, how);
                    v.truncate(2);
                    v.push(mk(Op::Cmp, 0, 1, 2));
                    v.push(mk(Op::Cmp, 0, 2, 1));
                    v
                });
                b.shapes(t, runs(thorough, 2000), ALL, |h, t, a, b| {
                    let mut v = two(t, a, b);
                    v.push(mk(Op::Cmp, 0, 1, 2));
                    if h % 2 == 0 { v.push(mk(Op::Cmp, 0, 2, 1)); }
                    if h % 8 == 0 { v.push(mk(Op::Max, 3, 1, 2)); v.push(mk(Op::Min, 4, 1, 2)); }
                    v
                });
                b.huge(t, HUGE, &all, FEW, |_, t, a, b| { let mut v = two(t, a, b); v.push(mk(Op::Cmp, 0, 1, 2)); v.push(mk(Op::Cmp, 0, 2, 1)); v });
                // far numbers that differ in one digit
                b.add(HUGE.len() * 6, move |i| {
                    let l = HUGE[i as usize / 6];
                    let a = pattern(t, l, 2, i);
                    let mut c = a.clone();
                    let at = [0, l / 2, l - 1, 0, 255.min(l - 1), l.saturating_sub(65_536)][i as usize % 6];
                    c[at] = if c[at] == 1 { 2 } else { 1 };
                    if i % 6 == 3 { c = a.clone(); }
                    let mut v = two(t, &a, &c);
                    v.push(mk(Op::Cmp, 0, 1, 2));
                    v.push(mk(Op::Cmp, 0, 2, 1));
                    Case { calls: v, key: key(t, 31, 0, 0) }
                });
                // longer numbers that differ in one digit
                b.add(24 * 24 * 2, move |i| {
                    let (l, at, up) = (1 + i as usize % 24, i as usize / 24 % 24, i >= 576);
                    let a = pattern(t, l, 2, 5);
                    let mut c = a.clone();
                    if at < l { c[at] = if up { (radix(t) - 1) as u64 } else { c[at].saturating_sub(1) }; }
                    norm(&mut c);
                    let mut v = two(t, &a, &c);
                    v.push(mk(Op::Cmp, 0, 1, 2));
                    v.push(mk(Op::Cmp, 0, 2, 1));
                    Case { calls: v, key: key(t, 9, l / 2, at / 2) }
                });
            }
            15 => {
                b.words(t, 20_000, 4, 3, |h, t, a, b| {
                    let op = (h >> 40) as u8 % 5;
                    let mut v = if op == SUB && cmp(a, b).is_lt() { two(t, b, a) } else { two(t, a, b) };
                    for f in 0..6 { v.push(Call { f, g: 1, ..mk(Op::Big(op), 3, 1, 2) }); }
                    v
                });
                for op in 0..5u8 {
                    if op < 2 {
                        b.huge(t, &[1025, 8191, 65_537], &[1, 255, 1024, 8191, 65_536], FEW, move |_, t, a, b| {
                            let mut v = two(t, a, b);
                            for f in 0..6 { v.push(Call { f, g: 1, ..mk(Op::Big(op), 3, 1, 2) }); }
                            v
                        });
                    }
                    b.shapes(t, (1..if thorough { 200 } else { 50 }).collect(), ALL, move |h, t, a, b| {
                        let mut v = if h & 1 == 1 && (op != SUB || h % 5 == 0) { two(t, b, a) } else { two(t, a, b) };
                        for f in 0..6 { v.push(Call { f, g: 1, ..mk(Op::Big(op), 3, 1, 2) }); }
                        v
                    });
                    b.pairs(t, s2(t), s2(t), move |_, t, a, b| {
                        let mut v = two(t, a, b);
                        for f in 0..6 { v.push(Call { f, g: 1, ..mk(Op::Big(op), 3, 1, 2) }); }
                        v.push(Call { f: 4, g: 1, ..mk(Op::Big(op), 1, 1, 2) });
                        v
                    });
                    let xs = n2(t);
                    let ss: Vec<u64> = scalars(t).into_iter().filter(|x| t % 4 != 0 || x % 5 < 2 || *x > 97 && *x < 103).collect();
                    let ns = ss.len();
                    b.add(xs.len() * ns, move |i| {
                        let (a, n) = (&xs[i as usize / ns], ss[i as usize % ns]);
                        let mut v = vec![newc(1, t, a)];
                        for f in 0..3 {
                            v.push(Call { f, n, g: 1, ..mk(Op::Short(op), 3, 1, 0) });
                            if (n as u128) < radix(t) { v.push(Call { f, n, dig: true, g: 1, ..mk(Op::Short(op), 3, 1, 0) }); }
                        }
                        v.push(Call { d: 2, t, n, ..Call::new(Op::From) });
                        v.push(Call { f: 4, g: 1, ..mk(Op::Big(op), 3, 1, 2) });
                        Case { calls: v, key: key(t, 1 + op as u32, a.len(), ((n as u128) >= radix(t)) as usize) }
                    });
                }
                let xs = n2(t);
                let m = 8 * BYTES[t as usize] * 2 + 4;
                b.add(xs.len() * m * 2, move |i| {
                    let j = i as usize / 2;
                    let op = if i % 2 == 0 { Op::Shl } else { Op::Shr };
                    let (a, n) = (&xs[j / m], (j % m) as u64);
                    let mut v = vec![newc(1, t, a)];
                    for f in 0..3 { v.push(Call { f, n, g: 1, ..mk(op, 2, 1, 0) }); }
                    Case { calls: v, key: key(t, 7 + (i % 2) as u32, a.len(), n as usize / 16) }
                });
            }
            16 => {
                // all sequences of two (thorough: three) operations from a list, on a few states
                let ops: Arc<Vec<Call>> = Arc::new(operations(t));
                let m = ops.len() as u64;
                let starts: Vec<(Dv, Dv)> = starts(t);
                let depth = if thorough { 3 } else { 2 };
                let ns = if thorough { 4 } else { starts.len() as u64 };
                b.add((m.pow(depth) * ns) as usize, move |i| {
                    let (a, c) = &starts[(i % ns) as usize];
                    let mut j = i / ns;
                    let mut v = two(t, a, c);
                    for _ in 0..depth { v.push(ops[(j % m) as usize].clone()); j /= m; }
                    v.push(mk(Op::Cmp, 0, 1, 2));
                    v.push(mk(Op::Insp, 0, 1, 0));
                    Case { calls: v, key: key(t, 1 + (i % ns) as u32, (j % 16) as usize, (i / ns % 16) as usize) }
                });
            }
            17 => {
                let xs: Vec<Dv> = n3(t);
                b.add(xs.len() * 4, move |i| {
                    let mut a = xs[i as usize / 4].clone();
                    for _ in 0..i % 4 { a.push(0); }
                    Case { key: key(t, 1, a.len(), 0), calls: vec![newc(1, t, &a), mk(Op::Insp, 0, 1, 0), mk(Op::Clone, 2, 1, 0), mk(Op::Cmp, 0, 1, 2)] }
                });
                let n = if t % 4 == 0 { 256 } else if t % 4 == 1 { 65536 } else { scalars(t).len() };
                let ss = scalars(t);
                b.add(n, move |i| {
                    let n = if t % 4 < 2 { i } else { ss[i as usize] };
                    Case { key: key(t, 2, 0, 0), calls: vec![Call { d: 1, t, n, ..Call::new(Op::From) }, mk(Op::Insp, 0, 1, 0)] }
                });
                if t >= 4 {
                    let ss = scalars(t);
                    b.add(if t == 5 { 65536 } else { ss.len() }, move |i| {
                        let n = if t == 5 { i } else { ss[i as usize] };
                        Case { key: key(t, 3, 0, 0), calls: vec![Call { t, n, ..Call::new(Op::Split) }] }
                    });
                }
                b.lengths(t, 0..80, 0..4, FEW, |_, t, a, z| {
                    let mut a = a.clone();
                    a.extend(z.iter().map(|_| 0));
                    vec![newc(1, t, &a), mk(Op::Insp, 0, 1, 0)]
                });
                b.ladder(t, 80, 1100, &[4, 5, 20, 0], FEW, |_, t, a, z| {
                    let mut a = a.clone();
                    a.extend(z.iter().map(|_| 0));
                    vec![newc(1, t, &a), mk(Op::Insp, 0, 1, 0), mk(Op::Clone, 2, 1, 0), mk(Op::Cmp, 0, 1, 2)]
                });
                // zeros alone, and after everything
                b.add(1100 * 6, move |i| {
                    let (n, s) = (1 + i as usize / 6, i as usize % 6);
                    let a: Dv = match s { 0 => vec![0; n], 1 => [vec![1], vec![0; n]].concat(), _ => [pattern(t, s * s, 2, i), vec![0; n]].concat() };
                    Case { calls: vec![newc(1, t, &a), mk(Op::Insp, 0, 1, 0), mk(Op::Clone, 2, 1, 0), mk(Op::Cmp, 0, 1, 2)], key: key(t, 60, s, n.ilog2() as usize) }
                });
                b.shapes(t, runs(thorough, 1100), &[1], |_, t, a, z| {
                    let mut a = a.clone();
                    a.extend(z.iter().map(|_| 0));
                    vec![newc(1, t, &a), mk(Op::Insp, 0, 1, 0), mk(Op::Clone, 2, 1, 0), mk(Op::Cmp, 0, 1, 2)]
                });
                b.huge(t, HUGE, &[0, 1, 5, 65_537], &[(2, 2), (1, 1)], |_, t, a, z| {
                    let mut a = a.clone();
                    a.extend(z.iter().map(|_| 0));
                    vec![newc(1, t, &a), mk(Op::Insp, 0, 1, 0), mk(Op::Clone, 2, 1, 0), mk(Op::Cmp, 0, 1, 2)]
                });
            }
            18 => {
                let xs = n2(t);
                let nk = if t < 4 { 3u64 } else { 1 };
                b.add(xs.len() * nk as usize * 8, move |i| {
                    let (u, k) = ((i % 8) as u8, (i / 8 % nk) as u8);
                    let a = &xs[(i / 8 / nk) as usize];
                    Case { calls: vec![newc(1, t, a), Call { t: u, k, ..mk(Op::Trip, 2, 1, 0) }], key: key(t, 1 + k as u32, u as usize, a.len()) }
                });
                b.lengths(t, 0..70, 0..24, FEW, move |_, t, a, ku| {
                    let (k, u) = ((ku.len() as u64 / 8 % nk) as u8, (ku.len() % 8) as u8);
                    vec![newc(1, t, a), Call { t: u, k, ..mk(Op::Trip, 2, 1, 0) }]
                });
                b.shapes(t, runs(thorough, 120), &[0, 1], move |h, t, a, _| vec![newc(1, t, a), Call { t: (h % 8) as u8, k: ((h >> 8) % nk) as u8, ..mk(Op::Trip, 2, 1, 0) }]);
                // through the notation of the digits' own base, at far lengths
                b.ladder(t, 70, 1100, &[4, 5], FEW, move |_, t, a, u| {
                    let k = if t < 4 { 1 + u.len() as u8 } else { 0 };
                    vec![newc(1, t, a), Call { t: if u.is_empty() { t } else { t / 4 * 4 + (t + 1) % 4 }, k, ..mk(Op::Trip, 2, 1, 0) }]
                });
                b.ladder(t, 70, 500, &[4], FEW, move |h, t, a, _| vec![newc(1, t, a), Call { t: (h % 8) as u8, k: ((h >> 8) % nk) as u8, ..mk(Op::Trip, 2, 1, 0) }]);
                b.huge(t, &[1025, 8191, 32_769, 65_537], &[0, 1], FEW, move |_, t, a, u| {
                    let k = if t < 4 { 1 + u.len() as u8 } else { 0 };
                    vec![newc(1, t, a), Call { t: if u.is_empty() { t } else { t / 4 * 4 + (t + 1) % 4 }, k, ..mk(Op::Trip, 2, 1, 0) }]
                });
            }
            20 => {
                b.pairs(t, n2(t), n2(t), move |h, t, a, b| laws(h, t, a, b, &vec![((h as u128 % radix(t)) as u64).max(1)]));
                b.shapes(t, runs(thorough, 64), ALL, move |h, t, a, b| laws(h, t, a, b, &canon(shape(t, 1 + (h >> 30) as usize % 30, (h >> 50) as usize % NSHAPES, h))));
                b.lengths(t, 1..46, 1..46, FEW, move |h, t, a, b| laws(h, t, a, b, &pattern(t, (h >> 32) as usize % 30, 2, h)));
            }
            _ => {}
        }
    }
    if p == 19 {
        // decimal values around powers of both bases
        let mut vals: Vec<String> = vec![];
        for k in [0u32, 1, 2, 3, 4, 5, 8, 9, 10, 18, 19, 20, 27, 36, 38] {
            let x = 10u128.pow(k.min(38));
            for y in [x - 1, x, x + 1] { vals.push(y.to_string()); }
        }
        for k in [7, 8, 15, 16, 31, 32, 63, 64, 126] {
            let x = 1u128 << k;
            for y in [x - 1, x, x + 1] { vals.push(y.to_string()); }
        }
        vals.sort();
        vals.dedup();
        let n = vals.len();
        b.add(n * n * 9, move |i| {
            let i = i as usize;
            let (kind, j) = (i % 9, i / 9);
            let (x, y) = (&vals[j / n], &vals[j % n]);
            let mut v = vec![];
            for t in 0..8u8 {
                v.push(Call { d: 1, t, s: x.clone(), ..Call::new(Op::Parse) });
                v.push(Call { d: 2, t, s: y.clone(), ..Call::new(Op::Parse) });
                let sh = y.parse::<u128>().unwrap() % 150;
                let c = match kind {
                    k @ 0..=4 => mk(Op::Big(k as u8), 3, 1, 2),
                    5 => Call { n: sh as u64, ..mk(Op::Shl, 3, 1, 0) },
                    6 => Call { n: sh as u64, ..mk(Op::Shr, 3, 1, 0) },
                    7 => Call { e: 4, ..mk(Op::DivRem, 3, 1, 2) },
                    _ => mk(Op::Cmp, 0, 1, 2),
                };
                v.push(Call { g: 1, ..c });
                v.push(Call { g: 2, ..mk(Op::Show, 0, 1, 0) });
            }
            Case { calls: v, key: key(0, 1 + kind as u32, x.len() / 4, y.len() / 4) }
        });
    }
    if p == 19 {
        // the digits at which things happen in one type, in every type
        for s in 0..8u8 {
            let text = move |d: &Dv| crate::screen::numeral(s, d);
            let xs = r2(s);
            let ys: Vec<Dv> = xs.iter().filter(|x| !x.is_empty()).cloned().collect();
            let (ny, step) = (ys.len(), if thorough { 1 } else { 7 });
            b.add(xs.len() * ny / step, move |i| {
                let i = i as usize * step;
                let (x, y) = (&xs[i / ny], &ys[i % ny]);
                let kind = hash(i as u64) % 7;
                typed(text(x), text(y), (hash(i as u64) >> 8) % 200, kind, key(s, 16 + kind as u32, x.len(), y.len()))
            });
            let xs: Vec<Dv> = if thorough || s % 4 < 2 { p2(s) } else { p2(s).into_iter().enumerate().filter(|(i, x)| i % 5 == 0 || pure(x)).map(|x| x.1).collect() };
            b.add(xs.len(), move |i| typed(text(&xs[i as usize]), "7".into(), 0, 7, key(s, 23, xs[i as usize].len(), 0)));
            b.shapes(s, (1..if thorough { 60 } else { 24 }).collect(), ALL, move |h, t, a, b| {
                let a = crate::screen::numeral(t, a);
                let b = crate::screen::numeral(t, b);
                typed(a, b, (h >> 8) % 1000, h % 8, 0).calls
            });
        }
    }
    let total = b.blocks.iter().map(|x| x.n).sum();
    let _ = b.thorough;
    Sweep { blocks: b.blocks, total }
}

/// All digits powers of two
fn pure(x: &Dv) -> bool { x.iter().all(|d| d.is_power_of_two()) }
/// The same computation in every type
fn typed(x: String, y: String, n: u64, kind: u64, key: u32) -> Case {
    let mut v = vec![];
    for t in 0..8u8 {
        v.push(Call { d: 1, t, s: x.clone(), ..Call::new(Op::Parse) });
        if kind != 7 { v.push(Call { d: 2, t, s: y.clone(), ..Call::new(Op::Parse) }); }
        v.push(Call { g: 1, ..match kind {
            k @ 0..=4 => Call { f: (n % 6) as u8, ..mk(Op::Big(k as u8), 3, 1, 2) },
            5 => Call { n, ..mk(Op::Shl, 3, 1, 0) },
            6 => Call { n, ..mk(Op::Shr, 3, 1, 0) },
            _ => mk(Op::Square, 3, 1, 0),
        } });
    }
    Case { calls: v, key }
}

/// One operation followed by an inspection of its result
fn inspected(op: u8) -> impl Fn(u64, u8, &Dv, &Dv) -> Vec<Call> + Send + Sync + 'static {
    move |h, t, a, b| {
        let mut v = two(t, a, b);
        v.push(Call { f: (h % 6) as u8, ..mk(Op::Big(op), 3, 1, 2) });
        let zero = b.is_empty();
        let fails = if op == SUB { cmp(a, b).is_lt() } else { op >= DIV && zero };
        if !fails { v.push(mk(Op::Insp, 0, 3, 0)); }
        v
    }
}

/// Operations for all short histories, on registers 1 and 2
fn operations(t: u8) -> Vec<Call> {
    let r = radix(t);
    let w = 8 * BYTES[t as usize] as u64;
    let m = (r - 1) as u64;
    let big = |op, f, d, a, b| Call { f, ..mk(Op::Big(op), d, a, b) };
    let sh = |op, f, d, a, n, dig| Call { f, n, dig, ..mk(Op::Short(op), d, a, 0) };
    let mut v = vec![
        big(ADD, 4, 1, 1, 2), big(ADD, 0, 2, 1, 2), big(ADD, 4, 2, 2, 2), big(SUB, 4, 1, 1, 2), big(SUB, 1, 2, 1, 2), big(SUB, 2, 1, 2, 1),
        big(SUB, 0, 1, 1, 1), big(MUL, 4, 1, 1, 2), big(MUL, 0, 2, 2, 1), big(DIV, 4, 1, 1, 2), big(DIV, 0, 2, 1, 2), big(REM, 4, 1, 1, 2),
        big(REM, 0, 2, 1, 2), big(REM, 5, 2, 2, 1),
        sh(ADD, 2, 1, 1, 1, true), sh(ADD, 1, 1, 1, m, true), sh(SUB, 2, 1, 1, 1, true), sh(MUL, 2, 1, 1, m, true), sh(MUL, 2, 1, 1, 0, true),
        sh(DIV, 2, 1, 1, m, true), sh(REM, 2, 1, 1, m, true), sh(DIV, 0, 2, 1, 2, true),
        Call { f: 2, n: 1, ..mk(Op::Shl, 1, 1, 0) }, Call { f: 2, n: w, ..mk(Op::Shl, 1, 1, 0) }, Call { f: 0, n: w + 3, ..mk(Op::Shl, 2, 1, 0) },
        Call { f: 2, n: 1, ..mk(Op::Shr, 1, 1, 0) }, Call { f: 2, n: w, ..mk(Op::Shr, 1, 1, 0) }, Call { f: 0, n: w - 1, ..mk(Op::Shr, 2, 1, 0) },
        mk(Op::Square, 1, 1, 0), Call { f: 1, n: 3, ..mk(Op::Pow, 1, 1, 0) }, Call { n: 0, ..mk(Op::Pow, 2, 2, 0) },
        Call { e: 2, ..mk(Op::DivRem, 1, 1, 2) }, Call { e: 1, ..mk(Op::DivRem, 2, 2, 1) }, mk(Op::RemAs, 1, 1, 2),
        Call { t, k: 0, ..mk(Op::Trip, 1, 1, 0) }, mk(Op::Clone, 2, 1, 0), mk(Op::Max, 1, 1, 2), mk(Op::Min, 2, 1, 2),
        Call { d: 2, t, ..Call::new(Op::Zero) },
    ];
    if t >= 4 {
        let lim = (1u128 << (8 * BYTES[t as usize])) - 1;
        for op in 0..5 { v.push(sh(op, 2, 1, 1, lim as u64, false)); v.push(sh(op, 0, 1, 1, r as u64, false)); }
    }
    v
}
fn starts(t: u8) -> Vec<(Dv, Dv)> {
    let m = (radix(t) - 1) as u64;
    let h = (radix(t) / 2) as u64;
    vec![
        (vec![], vec![]), (vec![m, m, m], vec![1]), (vec![0, 0, 1], vec![m]), (vec![1], vec![0, 1]), (vec![m, m], vec![m, m]),
        (vec![0, h], vec![1, h]), (vec![5, 0, 0, 7], vec![0, 0, 3]), (vec![m, 0, m, m - 1], vec![m, m]),
        (pattern(t, 21, 0, 0), pattern(t, 20, 3, 1)), (pattern(t, 45, 2, 1), pattern(t, 22, 4, 1)),
    ]
}

/// One of the laws
fn laws(h: u64, t: u8, a: &Dv, b: &Dv, c: &Dv) -> Vec<Call> {
    let mut v = two(t, a, b);
    v.push(newc(3, t, c));
    let big = |k: u32, op, d, x, y| Call { f: ((h >> k) % 6) as u8, ..mk(Op::Big(op), d, x, y) };
    let same = |x, y| mk(Op::Law, 0, x, y);
    match h % 7 {
        0 => v.extend([big(8, ADD, 4, 1, 2), big(9, SUB, 5, 4, 2), same(5, 1), big(10, SUB, 6, 4, 1), same(6, 2)]),
        1 => {
            v.extend([big(8, MUL, 4, 1, 2), big(9, MUL, 5, 2, 1), same(4, 5)]);
            if !b.is_empty() { v.extend([big(10, DIV, 6, 4, 2), same(6, 1)]); }
        }
        2 if !b.is_empty() => v.extend([big(8, DIV, 4, 1, 2), big(9, REM, 5, 1, 2), big(10, MUL, 6, 4, 2), big(11, ADD, 6, 6, 5), same(6, 1)]),
        3 => v.extend([big(8, ADD, 4, 1, 2), mk(Op::Square, 5, 4, 0), mk(Op::Square, 6, 1, 0), big(9, MUL, 7, 1, 2), big(10, ADD, 7, 7, 7),
                       mk(Op::Square, 8, 2, 0), big(11, ADD, 6, 6, 7), big(12, ADD, 6, 6, 8), same(5, 6)]),
        4 => v.extend([big(8, ADD, 4, 2, 3), big(9, MUL, 4, 1, 4), big(10, MUL, 5, 1, 2), big(11, MUL, 6, 1, 3), big(12, ADD, 5, 5, 6), same(4, 5)]),
        5 => {
            let n = (h >> 16) % 140;
            v.extend([Call { f: 0, n, ..mk(Op::Shl, 4, 1, 0) }, newc(5, t, &vec![2]), Call { n, ..mk(Op::Pow, 5, 5, 0) }, big(8, MUL, 6, 1, 5), same(4, 6),
                      Call { f: 2, n, ..mk(Op::Shr, 7, 4, 0) }, same(7, 1), Call { f: 1, n, ..mk(Op::Shr, 8, 1, 0) }, big(9, DIV, 9, 1, 5), same(8, 9)]);
        }
        _ => {
            let op = if h >> 20 & 1 == 0 { ADD } else { MUL };
            v.extend([big(8, op, 4, 1, 2), big(9, op, 4, 4, 3), big(10, op, 5, 2, 3), big(11, op, 5, 1, 5), same(4, 5)]);
        }
    }
    v
}
