//! Generators of histories, one family per property.  All choices come from the seed.
use crate::api::*;
use crate::exec::*;
use crate::nat::*;

pub struct Case { pub calls: Vec<Call>, pub key: u32 }

/// Bits in the largest shift a decimal digit can absorb, and interesting distances around it
const MAXSHIFT: [usize; 8] = [8, 16, 32, 64, 4, 12, 28, 60];

/// far: numbers may be very long now and then (only where no operation takes more than linear time)
pub struct G<'a> { pub r: &'a mut Rng, pub thorough: bool, pub far: bool }

/// The same calls on slightly different operands: nothing may remain of the first ones
pub fn twin(r: &mut Rng, calls: &[Call]) -> Vec<Call> {
    let mut v = calls.to_vec();
    // Not where other operands would make the results huge, or a law inapplicable
    if v.iter().any(|c| match c.op { Op::Law => true, Op::Pow => c.n > 64, Op::Shl => c.n > 20_000, _ => false }) { return vec![]; }
    let at: Vec<usize> = (0..v.len()).filter(|i| match v[*i].op {
        Op::New => v[*i].d <= 2 && !v[*i].x.is_empty(),
        Op::Parse => !v[*i].s.is_empty() && v[*i].s.is_ascii(),
        Op::Shl | Op::Shr | Op::Short(_) => true,
        _ => false,
    }).collect();
    if at.is_empty() { return vec![]; }
    let c = &mut v[at[r.below(at.len())]];
    match c.op {
        Op::New => {
            let m = (RADIX[c.t as usize] - 1) as u64;
            let mut x = of_raw(c.t, &c.x);
            let n = x.len();
            let i = r.below(n);
            match r.below(8) {
                0 => x.swap(i, n / 2),
                1 => x[0] = if x[0] == m { 0 } else { x[0] + 1 },
                2 => x[n - 1] = if x[n - 1] <= 1 { m } else { x[n - 1] - 1 },
                3 => x.insert(i, 0),
                4 => { x.remove(i); }
                5 => x.reverse(),
                _ => x[i] = 1 + r.u64() % m,
            }
            while x.last() == Some(&0) { x.pop(); }
            if x.is_empty() { x.push(1); }
            c.x = to_raw(c.t, &x);
        }
        Op::Parse => {
            let mut x: Vec<char> = c.s.chars().collect();
            let i = r.below(x.len());
            match r.below(6) {
                0 => { let n = x.len(); x.swap(i, n / 2) }
                1 => x.insert(i, '0'),
                2 => { x.remove(i); }
                3 => x[i] = ['g', '/', ':', '+', '.'][r.below(5) as usize],
                _ => x[i] = (b'0' + r.below(10) as u8) as char,
            }
            c.s = x.into_iter().collect();
        }
        Op::Short(_) => c.n = if c.n == 0 { 1 } else { c.n - 1 },
        _ => c.n = if r.below(2) == 0 { c.n.saturating_add(1) } else { c.n.saturating_sub(1) },
    }
    v
}

pub fn mk(op: Op, d: u8, a: u8, b: u8) -> Call { Call { d, a, b, ..Call::new(op) } }
pub fn newc(d: u8, t: u8, x: &[u64]) -> Call { Call { d, t, x: to_raw(t, x), ..Call::new(Op::New) } }

/// Digits next to the powers of two and ten below the radix, and below the radix itself
pub fn powers(t: u8) -> &'static [u64] {
    static P: std::sync::OnceLock<Vec<Dv>> = std::sync::OnceLock::new();
    &P.get_or_init(|| RADIX.iter().map(|&r| {
        let mut v = vec![];
        for b in [2u128, 10] {
            let mut x = 1;
            while x < r { for y in [x - 1, x, x + 1, r - x, r - x - 1] { if y < r { v.push(y as u64); } } x *= b; }
        }
        v.sort();
        v.dedup();
        v
    }).collect())[t as usize]
}

impl<'a> G<'a> {
    fn ty(&mut self) -> u8 {
        // the narrow types reach rare digit patterns much more often
        self.r.pick(&[0, 0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 7])
    }

    /// Below r, every length in bits as often
    fn magnitude(&mut self, r: u128) -> u64 { self.r.digit(r) >> self.r.below(r.ilog2() as usize) }

    fn extreme(&mut self, r: u128) -> u64 {
        let h = (r / 2) as u64;
        let m = (r - 1) as u64;
        match self.r.below(18) {
            0 | 1 => 0,
            // every magnitude, and next to its powers of two
            15 => self.magnitude(r),
            16 => ((1u64 << self.r.below(r.ilog2() as usize)) - 1).wrapping_add(self.r.below(3) as u64) % m,
            2 => 1,
            3 | 4 => m,
            5 => m - 1,
            6 => h,
            7 => h - 1,
            8 => h + 1,
            9 => 2,
            10 => m / 3 + self.r.below(3) as u64,
            11 => (1u64 << self.r.below(63)) % m,
            12 => m - ((1u64 << self.r.below(63)) % m),
            13 => h.wrapping_add(self.r.below(5) as u64) % m,
            // around R/2^k, where the normalising shift changes
            14 => ((r >> self.r.range(1, 6)) as u64).wrapping_sub(self.r.below(2) as u64) % m,
            _ => self.r.digit(r),
        }
    }

    /// A digit whose product with x is close to a multiple of the radix (or to half way)
    fn product_digit(&mut self, x: u64, r: u128) -> u64 {
        let d = self.r.below(4) as u128;
        let target = match self.r.below(5) { 0 | 1 => d, 2 | 3 => r - 1 - d, _ => r / 2 + d - 2 };
        if let Some(y) = inverse(x, r) { return (y as u128 * target % r) as u64; }
        if x == 0 { return self.extreme(r); }
        let k = self.r.below(x as usize) as u128;
        ((k * r + target) / x as u128 + self.r.below(2) as u128).min(r - 1) as u64
    }
    /// A digit whose square is close to a multiple of the radix
    fn square_digit(&mut self, r: u128) -> u64 {
        let k = self.r.digit(r) as u128;
        let mut x = ((k * r) as f64).sqrt() as u128;
        while x * x > k * r { x -= 1; }
        while (x + 1) * (x + 1) <= k * r { x += 1; }
        (x + self.r.below(2) as u128).min(r - 1) as u64
    }
    /// A digit that crosses the radix, or just does not, when shifted left by s bits
    fn shift_digit(&mut self, r: u128, s: usize) -> u64 {
        let k = self.r.below(1 << s) as u128;
        let d = self.r.below(3) as u128;
        (((k * r + d) >> s) + self.r.below(2) as u128).min(r - 1) as u64
    }

    /// A digit vector with exactly len digits (top digit not zero)
    pub fn digits(&mut self, r: u128, len: usize) -> Dv {
        if len == 0 { return vec![]; }
        let m = (r - 1) as u64;
        let mut v: Dv = Vec::with_capacity(len);
        match self.r.below(15) {
            14 => {
                let p = powers(RADIX.iter().position(|x| *x == r).unwrap_or(3) as u8);
                for _ in 0..len { let d = self.r.pick(p); v.push(d % (m + (m < u64::MAX) as u64).max(1)); }
            }
            12 => {
                // few different digits
                let x = [0, self.r.pick(&[1, 1, m, r.ilog2() as u64, (r / 2) as u64]), self.extreme(r)];
                let k = self.r.range(2, 3);
                for _ in 0..len { v.push(x[self.r.below(k)]); }
                if self.r.one_in(2) { v[0] = 0; }
            }
            13 if len <= 12 => {
                // powers of two, ten and the like
                let b = self.r.pick(&[2, 2, 2, 10, 10, 3, 5, 100, 256]).min(m);
                v = vec![self.r.pick(&[1, 1, 1, b + 1, b - 1]).min(m)];
                let mut more = self.r.below(70);
                loop {
                    let w = mul(r, &v, &[b]);
                    if w.len() > len || (w.len() == len && more == 0) { break }
                    if w.len() == len { more -= 1; }
                    v = w;
                }
                while v.len() < len { v.insert(0, 0); }
                if self.r.one_in(4) { let d = self.extreme(r); v[0] = d; }
            }
            0 => for _ in 0..len { let d = self.r.digit(r); v.push(d) },
            1 => for _ in 0..len { let d = if self.r.one_in(2) { self.magnitude(r) } else { self.r.digit(r) }; v.push(d) },
            2 | 3 => for _ in 0..len { let d = self.extreme(r); v.push(d) },
            4 => while v.len() < len {
                let d = self.extreme(r);
                let n = self.r.range(1, len - v.len());
                for _ in 0..n { v.push(d); }
            },
            5 => {
                v = vec![0; len];
                for _ in 0..self.r.range(1, 3) { let i = self.r.below(len); v[i] = self.extreme(r); }
            }
            6 => {
                v = vec![m; len];
                for _ in 0..self.r.below(3) { let i = self.r.below(len); v[i] = self.extreme(r); }
            }
            7 => {
                // R^(len-1) + small or R^len - small
                if self.r.one_in(2) {
                    v = vec![0; len];
                    v[len - 1] = 1;
                    v[0] = v[0].max(self.extreme(r));
                } else {
                    v = vec![m; len];
                    v[0] = m - self.r.below(3) as u64;
                }
            }
            8 | 9 => {
                // composed of equal parts, as recursive algorithms see it
                let k = self.r.pick(&[2, 2, 3, 3, 4, 6, 9]);
                let pl = (len + k - 1) / k;
                let mut parts: Vec<Dv> = vec![];
                for i in 0..k {
                    let p = match self.r.below(8) {
                        0 | 1 => vec![0; pl],
                        2 => vec![m; pl],
                        3 => { let mut p = vec![0; pl]; p[0] = self.extreme(r); p }
                        4 => { let mut p = vec![0; pl]; p[pl - 1] = self.extreme(r); p }
                        5 if i > 0 => parts[self.r.below(i)].clone(),
                        6 => { let n = self.r.below(pl + 1); let mut p: Dv = (0..n).map(|_| self.r.digit(r)).collect(); p.resize(pl, 0); p }
                        _ => (0..pl).map(|_| self.r.digit(r)).collect(),
                    };
                    parts.push(p);
                }
                v = parts.concat();
                v.truncate(len);
            }
            10 => {
                // runs of bits or of decimal digits
                let mut words = vec![0u64; len + 1];
                let nbits = words.len() * 64;
                let mut i = 0;
                let mut bit = self.r.one_in(2);
                while i < nbits {
                    let n = self.r.range(1, 2 * nbits / 3 + 1);
                    if bit { for j in i..(i + n).min(nbits) { words[j / 64] |= 1 << (j % 64); } }
                    bit = !bit;
                    i += n;
                }
                for i in 0..len { v.push(if r == 1 << 64 { words[i] } else { (words[i] as u128 % r) as u64 }); }
            }
            _ => {
                for _ in 0..len { let d = self.r.digit(r); v.push(d) }
                let d = self.extreme(r);
                v[len - 1] = d;
                if len > 1 && self.r.one_in(2) { let d = self.extreme(r); v[len - 2] = d; }
            }
        }
        if v[len - 1] == 0 { v[len - 1] = self.extreme(r).max(1); }
        v
    }

    fn small_len(&mut self) -> usize { let hi = self.r.pick(&[2, 3, 4, 6, 9]); self.r.range(0, hi) }
    /// Mostly short, sometimes up to a few dozen digits
    fn len(&mut self) -> usize {
        if self.far && self.r.one_in(4000) { return self.far_len(1500, 70_000); }
        match self.r.below(600) {
            0..=399 => self.small_len(),
            400..=539 => self.r.range(5, 25),
            540..=589 => self.r.range(20, 60),
            590..=597 => self.r.range(60, 300),
            _ => self.r.range(300, 1500),
        }
    }
    /// lo to hi, every order of magnitude as often
    fn far_len(&mut self, lo: usize, hi: usize) -> usize {
        let x = self.r.u64() as f64 / 2f64.powi(64);
        let n = (lo as f64 * (hi as f64 / lo as f64).powf(x)) as usize;
        // at or next to a power of two every now and then
        if self.r.one_in(3) { (n.next_power_of_two() + self.r.below(3) - 1).min(hi) } else { n }
    }
    fn num(&mut self, t: u8) -> Dv { let n = self.len(); self.digits(RADIX[t as usize], n) }
    fn snum(&mut self, t: u8) -> Dv { let n = self.small_len(); self.digits(RADIX[t as usize], n) }

    fn small(&mut self, t: u8) -> Dv {
        let r = RADIX[t as usize];
        let mut v = vec![match self.r.below(4) { 0 => 1, 1 => (r - 1) as u64, 2 => self.r.below(5) as u64, _ => self.r.digit(r) }];
        norm(&mut v);
        v
    }

    fn key(&self, t: u8, tag: usize, n: usize) -> u32 {
        let sz = match n { 0 => 0, 1 => 1, 2 => 2, 3..=8 => 3, 9..=19 => 4, 20..=40 => 5, 41..=127 => 6, 128..=260 => 7, 261..=400 => 8, _ => 9 };
        ((tag as u32) << 8) | ((t as u32) << 4) | sz
    }

    // ---- addition and subtraction --------------------------------------------------------
    fn add_pair(&mut self, t: u8) -> (Dv, Dv) {
        let r = RADIX[t as usize];
        let a = self.num(t);
        let b = match self.r.below(6) {
            0 | 1 => self.num(t),
            2 => {
                // complement to a power of the radix, give or take
                let mut p = vec![0; a.len() + self.r.below(2)];
                p.push(1);
                let b = sub(r, &p, &a);
                let s = self.small(t);
                if self.r.one_in(2) { add(r, &b, &s) } else if cmp(&b, &s).is_ge() { sub(r, &b, &s) } else { b }
            }
            3 => self.small(t),
            4 => { let n = a.len(); self.digits(r, n) }
            _ => a.clone(),
        };
        if self.r.one_in(2) { (a, b) } else { (b, a) }
    }
    fn sub_pair(&mut self, t: u8) -> (Dv, Dv) {
        let r = RADIX[t as usize];
        let a = self.num(t);
        match self.r.below(9) {
            0 => { let b = self.num(t); if cmp(&a, &b).is_ge() || self.r.one_in(4) { (a, b) } else { (b, a) } }
            1 => (a.clone(), a),
            2 => { let s = self.small(t); (add(r, &a, &s), a) }
            3 => { let s = self.small(t); let b = add(r, &a, &s); (a, b) }   // underflow
            4 | 5 => {
                // b + c - b, the sum possibly longer
                let c = if self.r.one_in(2) { self.num(t) } else { self.small(t) };
                let s = add(r, &a, &c);
                if self.r.one_in(2) { (s, a) } else { (s, c) }
            }
            6 => {
                // a power of the radix minus something
                let k = self.len();
                let mut p = vec![0; k];
                p.push(self.extreme(r).max(1));
                let b = if self.r.one_in(2) {
                    let s = self.small(t);
                    if cmp(&p, &s).is_ge() { sub(r, &p, &s) } else { s }
                } else {
                    let n = self.r.range(0, k + 1);
                    self.digits(r, n)
                };
                (p, b)
            }
            7 => {
                // common leading digits
                let mut b = a.clone();
                if !b.is_empty() {
                    let n = self.r.below(b.len());
                    for i in 0..=n { b[i] = self.extreme(r); }
                    norm(&mut b);
                }
                if cmp(&a, &b).is_ge() || self.r.one_in(3) { (a, b) } else { (b, a) }
            }
            _ => { let b = self.small(t); (a, b) }
        }
    }

    // ---- multiplication ------------------------------------------------------------------
    fn mul_lens(&mut self) -> (usize, usize) {
        // from cheap and frequent to expensive and rare, about the same time spent on each
        let w = self.r.below(20_000);
        let n = if w == 0 && self.r.one_in(2) { return self.far_mul_lens() }
            else if w >= 8000 { return (self.small_len(), self.small_len()) }
            else if w >= 5000 { self.r.range(8, 24) }
            else if w >= 2000 { self.r.range(18, 46) }
            else if w >= 1000 { self.r.range(36, 132) }
            else if w >= 600 { self.r.range(124, 136) }
            else if w >= 200 { self.r.range(126, 270) }
            else if w >= 60 { self.r.range(250, 420) }
            else if w >= 12 { self.r.range(380, 800) }
            else { self.r.range(1130, 1400) };
        let m = match self.r.below(8) {
            0 => n,
            1 => n + self.r.below(3),
            2 => n - self.r.below(n.min(3)),
            3 => n + n / 2 + self.r.below(3),
            4 => self.r.range(1, n),
            5 => (2 * n + self.r.below(4)).min(900),
            6 => (n + 2) / 3 + self.r.below(n / 2 + 1),
            _ => self.r.range(n, 3 * n).min(900),
        };
        if self.r.one_in(2) { (n, m) } else { (m, n) }
    }
    fn far_mul_lens(&mut self) -> (usize, usize) {
        let n = self.far_len(1400, 16_000);
        let m = match self.r.below(4) { 0 => n, 1 => self.r.range(1, 40), 2 => self.r.range(n / 2, n), _ => self.r.range(1, n) };
        if self.r.one_in(2) { (n, m) } else { (m, n) }
    }
    fn mul_pair(&mut self, t: u8) -> (Dv, Dv) {
        let r = RADIX[t as usize];
        let (n, m) = self.mul_lens();
        let a = self.digits(r, n);
        let mut b = match self.r.below(8) {
            0 if n == m => a.clone(),
            1 if n > 0 && n == m => {
                // nearly the same number
                let mut b = a.clone();
                let i = self.r.below(n);
                b[i] = self.extreme(r);
                b
            }
            _ => self.digits(r, m),
        };
        if n > 0 && m > 0 && self.r.one_in(3) {
            // product digits close to multiples of the radix
            for _ in 0..self.r.range(1, 3) {
                let (i, j) = (self.r.below(n), self.r.below(m));
                b[j] = self.product_digit(a[i], r);
            }
        }
        norm(&mut b);
        (a, b)
    }

    // ---- division ------------------------------------------------------------------------
    fn div_lens(&mut self) -> (usize, usize) {
        // (quotient, divisor)
        let w = self.r.below(4000);
        let nd = if w >= 1600 { self.r.pick(&[1, 2, 2, 3, 3, 3, 4, 5, 6, 8]) }
            else if w >= 700 { self.r.range(1, 22) }
            else if w >= 200 { self.r.range(16, 44) }
            else if w >= 60 { self.r.range(38, 90) }
            else if w >= 10 { self.r.range(76, 170) }
            else if w >= 1 || !self.r.one_in(4) { self.r.range(150, 420) }
            else if self.r.one_in(2) { self.r.range(420, 760) }
            else { self.far_len(760, 6000) };
        let nq = match self.r.below(6) {
            0 => self.r.range(0, 2),
            1 => self.r.range(0, 5),
            2 => self.r.range(0, nd.max(2)),
            3 => nd + self.r.below(4),
            4 if nd > 8 => self.r.range(nd, (3 * nd).min(500).max(nd)),
            _ => self.r.range(0, 8),
        };
        (nq, nd)
    }
    /// A divisor; sometimes right at the boundary of normalisation
    fn divisor(&mut self, t: u8, n: usize) -> Dv {
        let r = RADIX[t as usize];
        let mut b = self.digits(r, n);
        if n == 0 { return b; }
        if self.r.one_in(3) {
            // close below or above R^n / 2^k
            let k = self.r.range(1, 6);
            let mut rem = 1u128;
            let mut v = vec![0u64; n];
            for i in (0..n).rev() {
                let x = rem * (r >> 0).min(1 << 64);
                v[i] = ((x >> k) as u64).min((r - 1) as u64);
                rem = x & ((1 << k) - 1);
            }
            if self.r.one_in(2) { let s = self.small(t); v = add(r, &v, &s); } else if self.r.one_in(2) { let s = self.small(t); if cmp(&v, &s).is_gt() { v = sub(r, &v, &s); } }
            if n > 1 && self.r.one_in(2) { let d = self.extreme(r); v[0] = d; }
            norm(&mut v);
            if !v.is_empty() { b = v; }
        } else if self.r.one_in(3) {
            b[n - 1] = self.extreme(r).max(1);
        }
        b
    }
    fn div_pair(&mut self, t: u8) -> (Dv, Dv) {
        let r = RADIX[t as usize];
        let (nq, nd) = self.div_lens();
        let b = self.divisor(t, nd);
        let a = match self.r.below(8) {
            0 => { let n = self.r.range(0, nq + nd); self.digits(r, n) }
            1 | 2 => {
                // leading digits equal to the divisor's, give or take
                let mut a = b.clone();
                if !a.is_empty() {
                    let i = self.r.below(a.len());
                    match self.r.below(3) { 0 => {}, 1 => if a[i] > 0 { a[i] -= 1 }, _ => a[i] = self.extreme(r) }
                }
                let mut low: Dv = (0..nq).map(|_| self.extreme(r)).collect();
                low.extend(a);
                low
            }
            _ => {
                let mut q = self.digits(r, nq);
                if nq > 0 && nd > 0 && self.r.one_in(3) {
                    let (i, j) = (self.r.below(nq), if self.r.one_in(2) { nd - 1 } else { self.r.below(nd) });
                    q[i] = self.product_digit(*b.get(j).unwrap_or(&1), r);
                }
                let rem = match self.r.below(5) {
                    0 => vec![],
                    1 => { if b.is_empty() { vec![] } else { sub(r, &b, &[1]) } }
                    2 => { let s = self.small(t); if cmp(&s, &b).is_lt() { s } else { vec![] } }
                    _ => { let n = self.r.range(0, b.len()); let x = self.digits(r, n); if cmp(&x, &b).is_lt() { x } else { vec![] } }
                };
                add(r, &mul(r, &q, &b), &rem)
            }
        };
        let mut a = a;
        norm(&mut a);
        (a, b)
    }

    // ---- scalars -------------------------------------------------------------------------
    fn scalar(&mut self, t: u8, dig: bool) -> u64 {
        let r = RADIX[t as usize];
        let lim: u128 = if dig { r } else { 1u128 << (8 * BYTES[t as usize]) };
        let x = match self.r.below(16) {
            0 => 0,
            1 => 1,
            2 => r - 1,
            3 => r,
            4 => r + 1,
            5 => lim - 1,
            6 => lim - 1 - self.r.below(3) as u128,
            7 => 2 * r + self.r.below(3) as u128,
            8 => match self.r.below(3) {
                0 => r / 2 + self.r.below(2) as u128,
                // around a multiple of the radix
                _ => (1 + self.r.below((lim / r) as usize + 1) as u128) * r - 1 - self.r.below(3) as u128,
            },
            9 => self.r.below(20) as u128,
            12 | 13 => self.magnitude(lim) as u128,
            14 => (1u128 << self.r.below(lim.ilog2() as usize)) - 1 + self.r.below(3) as u128,
            15 => (1u128 << self.r.below(lim.ilog2() as usize)).wrapping_sub(self.r.below(100) as u128),
            _ => (self.r.u64() as u128 * lim) >> 64,
        };
        (x % lim) as u64
    }
    fn dv_of(&self, t: u8, n: u64) -> Dv {
        let r = RADIX[t as usize];
        let mut v = vec![];
        let mut n = n as u128;
        while n > 0 { v.push((n % r) as u64); n /= r; }
        v
    }
    fn short_pair(&mut self, t: u8, op: u8, dig: bool) -> (Dv, u64) {
        let r = RADIX[t as usize];
        let n = self.scalar(t, dig);
        let nd = self.dv_of(t, n);
        let a = match (op, self.r.below(6)) {
            (_, 0) | (_, 1) => self.num(t),
            (SUB, 2) => nd.clone(),
            (SUB, 3) => { let s = self.small(t); if cmp(&nd, &s).is_ge() { sub(r, &nd, &s) } else { nd.clone() } }
            (SUB, 4) => { let s = self.small(t); add(r, &nd, &s) }
            (SUB, _) | (ADD, 2) => { let k = self.len(); let mut p = vec![0; k]; p.push(self.extreme(r).max(1)); p }
            (ADD, _) => { let k = self.len(); let mut p = vec![(r - 1) as u64; k]; if k > 0 { p[0] = self.extreme(r); } if k > 1 && self.r.one_in(2) { p[1] = self.extreme(r); } norm(&mut p); p }
            (DIV, 2..=4) | (REM, 2..=4) => {
                let k = self.len();
                let q = self.digits(r, k);
                let p = mul(r, &q, &nd);
                match self.r.below(3) {
                    0 => p,
                    1 => if nd.is_empty() { p } else { add(r, &p, &sub(r, &nd, &[1])) },
                    _ => { if !nd.is_empty() && self.r.one_in(2) { add(r, &p, &nd[..1].iter().map(|_| 0).collect::<Dv>()) } else if p.is_empty() { p } else { sub(r, &p, &[1]) } }
                }
            }
            (DIV, _) | (REM, _) if nd.len() > 1 => { let mut l: Dv = (0..self.small_len()).map(|_| self.extreme(r)).collect(); l.extend(&nd); l }
            (MUL, 3) => {
                let l = self.len();
                let mut v = vec![(r - 1) as u64; l];
                for d in v.iter_mut() { if self.r.one_in(6) { *d = self.extreme(r); } }
                norm(&mut v);
                v
            }
            (MUL, 2) if n > 1 => {
                let l = self.len();
                let mut v = self.digits(r, l);
                for d in v.iter_mut() {
                    *d = if self.r.one_in(4) { (r - 1) as u64 } else { self.product_digit((n as u128 % r) as u64, r) };
                }
                norm(&mut v);
                v
            }
            _ => self.num(t),
        };
        (a, n)
    }

    // ---- shifts --------------------------------------------------------------------------
    fn shift(&mut self, t: u8, len: usize) -> u64 {
        let w = 8 * BYTES[t as usize];
        let m = MAXSHIFT[t as usize];
        (match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => w - 1,
            3 => w,
            4 => w + 1,
            5 => m + self.r.below(3) - 1,
            6 => w * self.r.range(1, 5),
            7 => w * self.r.range(1, 5) + self.r.below(w),
            8 => self.r.below(w),
            9 => w * (len + self.r.below(3)),
            10 => (w * len + self.r.below(3 * w)).saturating_sub(w),
            _ => if self.r.one_in(20) { self.r.below(20_000) } else { self.r.below(300) },
        }) as u64
    }

    // ---- numbers of a given value in any type ---------------------------------------------
    fn dec_string(&mut self, maxlen: usize) -> String {
        let n = self.r.range(1, maxlen);
        if self.r.one_in(6) { return self.run_string(n, false); }
        let mut s = String::new();
        let st = self.r.below(4);
        for i in 0..n {
            let d = match st { 0 => self.r.below(10), 1 => self.r.pick(&[0, 9]), 2 => self.r.pick(&[0, 0, 0, 0, 0, 0, 1, 5]), _ => if i == 0 { 1 } else { self.r.pick(&[0, 0, 0, 9, 4, 5]) } };
            s.push((b'0' + d as u8) as char);
        }
        s
    }
    fn hex_string(&mut self, maxlen: usize) -> String {
        let n = self.r.range(1, maxlen);
        if self.r.one_in(6) { return self.run_string(n, true); }
        let st = self.r.below(3);
        let mut s = String::from("0x");
        for _ in 0..n {
            let c = match st { 0 => self.r.pick(b"0123456789abcdefABCDEF"), 1 => self.r.pick(b"0fF"), _ => self.r.pick(b"000018") };
            s.push(c as char);
        }
        s
    }

    // ---- properties ----------------------------------------------------------------------
    pub fn case(&mut self, p: usize) -> Case {
        self.far = matches!(p, 1 | 2 | 6 | 7 | 8 | 13 | 17);
        let mut c = self.case_of(p);
        self.far = false;
        for x in c.calls.iter_mut() {
            match x.op {
                // storage with room to spare
                Op::New => x.f = self.r.pick(&[0, 0, 0, 1, 2, 5, 40, 200]),
                // over an existing number, where there is one
                Op::Clone => x.f = self.r.below(2) as u8,
                _ => {}
            }
        }
        c
    }
    fn case_of(&mut self, p: usize) -> Case {
        match p {
            1 => self.c_add(), 2 => self.c_sub(), 3 => self.c_mul(), 4 => self.c_sq(), 5 => self.c_div(), 6 => self.c_short(),
            7 => self.c_shl(), 8 => self.c_shr(), 9 => self.c_parse(), 10 => self.c_show(), 11 => self.c_todec(),
            12 => self.c_canon(), 13 => self.c_order(), 14 => self.c_fail(), 15 => self.c_forms(), 16 => self.c_history(),
            17 => self.c_make(), 18 => self.c_trip(), 19 => self.c_types(), _ => self.c_laws(),
        }
    }
    fn big(&mut self, op: u8, d: u8, a: u8, b: u8) -> Call { Call { f: self.r.below(6) as u8, ..mk(Op::Big(op), d, a, b) } }
    fn two(&mut self, t: u8, a: &Dv, b: &Dv) -> Vec<Call> { vec![newc(1, t, a), newc(2, t, b)] }

    fn c_add(&mut self) -> Case {
        let t = self.ty();
        let (a, b) = self.add_pair(t);
        let mut v = self.two(t, &a, &b);
        let c = self.big(ADD, 3, 1, 2);
        v.push(c);
        if self.r.one_in(4) { let c = self.big(ADD, 4, 2, 1); v.push(c); }
        if self.r.one_in(8) { let c = self.big(ADD, 1, 1, 1); v.push(c); }
        Case { calls: v, key: self.key(t, 1, a.len().max(b.len())) }
    }
    fn c_sub(&mut self) -> Case {
        let t = self.ty();
        let (a, b) = self.sub_pair(t);
        let mut v = self.two(t, &a, &b);
        let c = self.big(SUB, 3, 1, 2);
        v.push(c);
        if self.r.one_in(6) { let c = self.big(SUB, 4, 2, 1); v.push(c); }
        if self.r.one_in(16) { let c = self.big(SUB, 1, 1, 1); v.push(c); }
        Case { calls: v, key: self.key(t, 2, a.len()) }
    }
    fn c_mul(&mut self) -> Case {
        let t = self.ty();
        let (a, b) = self.mul_pair(t);
        let mut v = self.two(t, &a, &b);
        let c = self.big(MUL, 3, 1, 2);
        v.push(c);
        if self.r.one_in(4) { let c = self.big(MUL, 3, 2, 1); v.push(c); }
        Case { calls: v, key: self.key(t, 3 + 32 * (a.len() * 2 < b.len() || b.len() * 2 < a.len()) as usize, a.len().min(b.len())) }
    }
    fn c_sq(&mut self) -> Case {
        let t = self.ty();
        let r = RADIX[t as usize];
        if self.r.one_in(3) {
            let huge = self.r.one_in(40);
            let l = if huge { self.r.range(1, 2) } else { self.r.range(0, 5) };
            let a = self.digits(r, l);
            let big = a.is_empty() || a == [1];
            let n = match self.r.below(8) {
                _ if huge => { let hi = if self.r.one_in(8) { 20_000 / l } else { 1000 }; self.far_len(50, hi) as u64 }
                0 => 0, 1 => 1, 2 => 2, 3 => 3,
                4 if big => self.r.u64() >> self.r.below(64),
                4 | 5 => self.r.below(70) as u64,
                _ => self.r.below(14) as u64,
            };
            let f = self.r.below(2) as u8;
            return Case { calls: vec![newc(1, t, &a), Call { f, n, ..mk(Op::Pow, 2, 1, 0) }], key: self.key(t, 5, (n as usize).min(99)) };
        }
        let (n, m) = self.mul_lens();
        let n = if n.max(m) > 1500 && n.min(m) < 40 { n.min(m) } else { n.max(m) };
        let mut a = self.digits(r, n);
        if n > 0 && self.r.one_in(3) {
            for _ in 0..self.r.range(1, 3) {
                let (i, j) = (self.r.below(n), self.r.below(n));
                a[i] = if i == j { self.square_digit(r) } else { self.product_digit(a[j], r) };
            }
            norm(&mut a);
        }
        Case { calls: vec![newc(1, t, &a), mk(Op::Square, 2, 1, 0)], key: self.key(t, 4, n) }
    }
    fn c_div(&mut self) -> Case {
        let t = self.ty();
        let (a, b) = self.div_pair(t);
        let mut v = self.two(t, &a, &b);
        v.push(Call { e: 4, ..mk(Op::DivRem, 3, 1, 2) });
        match self.r.below(4) {
            0 => { let c = self.big(DIV, 5, 1, 2); v.push(c); }
            1 => { let c = self.big(REM, 5, 1, 2); v.push(c); }
            2 => v.push(mk(Op::RemAs, 5, 1, 2)),
            _ => {}
        }
        Case { calls: v, key: self.key(t, 6 + 32 * (a.len() > 2 * b.len()) as usize, b.len()) }
    }
    fn c_short(&mut self) -> Case {
        let t = self.ty();
        let op = self.r.below(5) as u8;
        let dig = self.r.one_in(3);
        let (a, n) = self.short_pair(t, op, dig);
        let f = self.r.below(3) as u8;
        let two = (n as u128 >= RADIX[t as usize]) as usize;
        Case { calls: vec![newc(1, t, &a), Call { f, n, dig, ..mk(Op::Short(op), 2, 1, 0) }],
               key: self.key(t, 8 + op as usize + 32 * (two + 2 * dig as usize), a.len()) }
    }
    fn c_shl(&mut self) -> Case {
        let t = self.ty();
        let mut a = self.num(t);
        let mut n = self.shift(t, a.len());
        // quadratic
        if t >= 4 && a.len() > 3000 { n %= 2000; }
        if self.far && t < 4 && self.r.one_in(4000) { n = self.far_len(20_000, 1_000_000) as u64; }
        if self.r.one_in(24) { n = self.r.pick(&[1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX, u64::MAX - 7]); a.clear(); }
        if self.r.one_in(3) {
            let s = (n as usize) % (8 * BYTES[t as usize]);
            for d in a.iter_mut() { if self.r.one_in(3) { *d = self.shift_digit(RADIX[t as usize], s); } }
            norm(&mut a);
        }
        let f = self.r.below(3) as u8;
        Case { calls: vec![newc(1, t, &a), Call { f, n, ..mk(Op::Shl, 2, 1, 0) }], key: self.key(t, 14, a.len()) }
    }
    fn c_shr(&mut self) -> Case {
        let t = self.ty();
        let mut a = self.num(t);
        // quadratic
        if t >= 4 && a.len() > 3000 { a.drain(..a.len() - 3000); }
        let n = match self.r.below(24) {
            0 => self.r.u64() >> self.r.below(44),
            1 => self.r.pick(&[1u64 << 31, 1 << 32, 1 << 35, 1 << 36, 1 << 63, u64::MAX]).wrapping_add(self.shift(t, a.len())),
            _ => self.shift(t, a.len()),
        };
        let f = self.r.below(3) as u8;
        Case { calls: vec![newc(1, t, &a), Call { f, n, ..mk(Op::Shr, 2, 1, 0) }], key: self.key(t, 15, a.len()) }
    }
    /// A numeral of `n` digits in runs (zeros, nines, one digit repeated, arbitrary), whose ends fall anywhere or on
    /// the halves, quarters... of its length
    fn run_string(&mut self, n: usize, hex: bool) -> String {
        let top = if hex { 16 } else { 10 };
        let mut cuts = vec![0, n];
        for _ in 0..self.r.range(0, 4) {
            let c = match self.r.below(3) {
                0 => self.r.range(0, n),
                1 => { let d = self.r.pick(&[2usize, 2, 4, 8]); n * self.r.range(0, d) / d },
                _ => { let e = self.r.range(0, n.min(40)); if self.r.one_in(2) { e } else { n - e } }
            };
            cuts.push(c);
        }
        cuts.sort_unstable();
        let mut s = String::new();
        for w in cuts.windows(2) {
            let st = self.r.below(6);
            let fixed = self.r.below(top);
            for _ in w[0]..w[1] {
                let d = match st { 0 | 1 => 0, 2 => top - 1, 3 => fixed, _ => self.r.below(top) };
                s.push(std::char::from_digit(d as u32, 16).unwrap());
            }
        }
        if s.is_empty() { s.push('0'); }
        if self.r.one_in(8) && hex { s = s.to_uppercase(); }
        if hex { s.insert_str(0, "0x"); }
        s
    }
    fn numeral(&mut self) -> String {
        if self.r.one_in(12) {
            let n = match self.r.below(40) { 0..=9 => 60, 10..=29 => 300, 30..=37 => 1200, _ => 4500 };
            let n = self.r.range(1, n);
            let hex = self.r.one_in(3);
            return self.run_string(n, hex);
        }
        let far = self.r.one_in(6000);
        let n = match self.r.below(400) { _ if far => self.far_len(5000, 24_000), 0..=99 => 3, 100..=199 => 12, 200..=299 => 45, 300..=389 => 150, 390..=397 => 600, _ => 5000 };
        let mut s = if self.r.one_in(2) { self.dec_string(n) } else { self.hex_string(n) };
        if self.r.one_in(4) {
            let k = if self.r.one_in(200) { self.far_len(40, 4000) } else { self.r.range(1, 40) };
            let at = if s.starts_with("0x") { 2 } else { 0 };
            s.insert_str(at, &"0".repeat(k));
        }
        s
    }
    fn c_parse(&mut self) -> Case {
        let t = self.r.below(8) as u8;
        let mut s = self.numeral();
        let mut tag = 16;
        if self.r.one_in(2) {
            tag = 17;
            match self.r.below(8) {
                0 => { s = self.r.pick(&["", "0x", "0X", "x", "0x0x1", "+", "-", "0x+1", "00x1", "0X1", " ", "1 ", " 1", "\n", "1\n", "0x ", "0xg", "_", "1_0", "1.0", "1e3", "-1", "-0", "+1", "+0", "++1", "0x-1", "\u{e9}", "\u{663}", "1\u{663}", "\u{ff11}"]).to_string(); }
                _ => for _ in 0..self.r.range(1, 2) {
                    let c = self.r.pick(&['+', '+', '+', '-', '-', '_', ' ', '.', ',', 'x', 'X', '/', ':', '@', '`', 'g', 'G', 'a', 'A', 'f', '\0', '\t', '\n', '\u{e9}', '\u{663}', '\u{b2}']);
                    let pos: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
                    let i = self.r.pick(&pos);
                    if self.r.one_in(2) || i >= s.len() { s.insert(i, c); } else { let e = i + s[i..].chars().next().unwrap().len_utf8(); s.replace_range(i..e, &c.to_string()); }
                }
            }
        }
        let hex = s.starts_with("0x") as usize;
        let key = self.key(t, tag + 32 * hex, s.len());
        Case { calls: vec![Call { d: 1, t, s, ..Call::new(Op::Parse) }], key }
    }
    /// A number whose conversion between bases is delicate, as 64-bit words
    fn words(&mut self, maxbits: usize) -> Dv {
        let r = 1u128 << 64;
        let mut v: Dv = vec![];
        match self.r.below(4) {
            0 | 1 => {
                let n = self.r.range(0, maxbits / 64 + 1);
                v = self.digits(r, n);
                if n > 0 { let s = self.r.below(64); v = shr_bin(&v, s as u64); }
            }
            2 => {
                // hi * 10^k + lo, short lo
                let k = self.r.range(1, maxbits * 3 / 20 + 2);
                v = vec![1 + self.r.below(1000) as u64];
                for _ in 0..self.r.below(3) { v.push(self.r.u64()); }
                for _ in 0..k { v = mul(r, &v, &[10]); }
                let lo = match self.r.below(4) { 0 => vec![], 1 => vec![1], 2 => vec![self.r.u64()], _ => { let n = self.r.range(0, 3); self.digits(r, n) } };
                v = add(r, &v, &lo);
                if self.r.one_in(4) && !v.is_empty() { v = sub(r, &v, &[1]); }
            }
            _ => {
                let s = self.dec_string(maxbits * 3 / 10 + 1);
                for c in s.bytes() { v = add(r, &mul(r, &v, &[10]), &[(c - b'0') as u64]); norm(&mut v); }
            }
        }
        norm(&mut v);
        v
    }
    fn bits(&mut self) -> usize {
        match self.r.below(500) { 0..=49 => 10, 50..=99 => 64, 100..=149 => 130, 150..=349 => 300, 350..=399 => 700, 400..=449 => 1500, 450..=489 => 3000, 490..=497 => 8000, _ => 30_000 }
    }
    fn far_bits(&mut self, t: u8) -> usize { self.far_len(30_000, if BYTES[t as usize] < 4 { 60_000 } else { 250_000 }) }
    /// A number of type t of up to so many bits, as digits
    fn delicate(&mut self, t: u8, bits: usize) -> Dv {
        if t >= 4 { let n = bits / (8 * BYTES[t as usize]) + 1; let l = self.r.range(0, n); return self.digits(RADIX[t as usize], l); }
        // around the size where conversions change method
        let bits = match self.r.below(4) { 0 => 8 * BYTES[t as usize] * self.r.range(14, 40), _ => bits };
        let w = self.words(bits);
        let mut d = of_raw(t, &to_raw(3, &w));
        norm(&mut d);
        d
    }
    fn fmt(&mut self) -> Fmt {
        if self.r.one_in(3) { return Fmt::default(); }
        let w = match self.r.below(5) { 0 => -1, 1 => 0, 2 => self.r.below(8) as i32, 3 => self.r.below(40) as i32, _ => self.r.below(200) as i32 };
        let pr = if self.r.one_in(6) { self.r.below(12) as i32 } else { -1 };
        Fmt { w, z: self.r.one_in(3), p: self.r.one_in(3), h: self.r.one_in(2), al: self.r.below(4) as u8, fc: self.r.below(4) as u8, pr }
    }
    fn c_show(&mut self) -> Case {
        let t = self.r.below(8) as u8;
        let b = if self.r.one_in(6000) { self.far_bits(t) } else { self.bits() };
        let a = self.delicate(t, b);
        let k = if t < 4 { self.r.below(3) as u8 } else { 0 };
        let mut fl = self.fmt();
        if fl.w > 0 && self.r.one_in(2) {
            // a width close to the length of the text
            let bits = a.len() as f64 * (RADIX[t as usize] as f64).log2();
            let n = if k == 0 { bits * 0.30103 } else { bits / 4.0 };
            fl.w = (n as i32 + self.r.below(9) as i32 - 3).clamp(0, 65_535); // the standard library takes no wider
        }
        Case { calls: vec![newc(1, t, &a), Call { k, fl, ..mk(Op::Show, 0, 1, 0) }], key: self.key(t, 18 + 32 * k as usize, a.len()) }
    }
    fn c_todec(&mut self) -> Case {
        let t = self.r.below(4) as u8;
        let b = match self.r.below(4) { 0 => self.bits(), _ => 8 * BYTES[t as usize] * self.r.pick(&[4, 15, 16, 17, 30, 60, 120]) };
        let b = if self.r.one_in(5000) { self.far_bits(t) } else if self.r.one_in(500) { 8 * BYTES[t as usize] * self.r.range(200, 1200) } else { b };
        let a = self.delicate(t, b);
        Case { calls: vec![newc(1, t, &a), mk(Op::ToDec, 2, 1, 0)], key: self.key(t, 20, a.len()) }
    }
    fn c_make(&mut self) -> Case {
        let t = self.r.below(8) as u8;
        let r = RADIX[t as usize];
        let mut v = vec![];
        let kind = self.r.below(5);
        let mut n = 0;
        match kind {
            0 | 1 => {
                let mut a = self.num(t);
                n = a.len();
                for _ in 0..self.r.below(4) { a.push(0); }
                v.push(newc(1, t, &a));
            }
            2 | 3 => { let n = self.scalar(t, false); v.push(Call { d: 1, t, n, ..Call::new(Op::From) }); }
            _ if t >= 4 && self.r.one_in(2) => {
                let n = self.scalar(t, false);
                return Case { calls: vec![Call { t, n, ..Call::new(Op::Split) }], key: self.key(t, 20, 0) };
            }
            _ => {
                let op = self.r.pick(&[Op::Zero, Op::One, Op::SetZero, Op::SetOne]);
                if op == Op::SetZero || op == Op::SetOne { let a = self.num(t); v.push(newc(1, t, &a)); v.push(mk(op, 1, 1, 0)); }
                else { v.push(Call { d: 1, t, ..Call::new(op) }); }
            }
        }
        v.push(mk(Op::Insp, 0, 1, 0));
        if self.r.one_in(2) { let b = self.num(t); v.push(newc(2, t, &b)); }
        v.push(mk(Op::Clone, 2, 1, 0));
        v.push(mk(Op::Insp, 0, 2, 0));
        v.push(mk(Op::Cmp, 0, 1, 2));
        if self.r.one_in(2) {
            let s = self.r.digit(r);
            v.push(Call { f: 2, n: s, dig: true, ..mk(Op::Short(ADD), 2, 2, 0) });
            v.push(mk(Op::Insp, 0, 1, 0));
            v.push(mk(Op::Cmp, 0, 1, 2));
        }
        Case { calls: v, key: self.key(t, 21 + kind, n) }
    }
    fn c_trip(&mut self) -> Case {
        let t = self.r.below(8) as u8;
        let b = self.bits();
        let a = self.delicate(t, b);
        let k = if t < 4 { self.r.below(3) as u8 } else { 0 };
        let u = self.r.below(8) as u8;
        let mut v = vec![newc(1, t, &a), Call { t: u, k, ..mk(Op::Trip, 2, 1, 0) }];
        if self.r.one_in(3) {
            let k2 = if u < 4 { self.r.below(3) as u8 } else { 0 };
            v.push(Call { t, k: k2, ..mk(Op::Trip, 3, 2, 0) });
        }
        Case { calls: v, key: self.key(t, 26 + 32 * k as usize, a.len()) + ((u as u32) << 16) }
    }
    fn mixed(&mut self) -> Case {
        let p = self.r.pick(&[1, 2, 2, 2, 3, 4, 5, 5, 5, 6, 6, 6, 7, 8, 8, 9, 11]);
        self.case(p)
    }
    fn c_canon(&mut self) -> Case {
        let mut c = self.mixed();
        let last = c.calls.last().unwrap().clone();
        match last.op {
            Op::DivRem => { c.calls.push(mk(Op::Insp, 0, last.d, 0)); c.calls.push(mk(Op::Insp, 0, last.e, 0)); }
            Op::Show | Op::Cmp | Op::Insp => {}
            _ => { c.calls.push(mk(Op::Insp, 0, last.d, 0)); }
        }
        c
    }
    fn c_order(&mut self) -> Case {
        let t = self.ty();
        let r = RADIX[t as usize];
        let a = self.num(t);
        let mut tag = 27;
        let mut v;
        match self.r.below(6) {
            0 => { let b = self.num(t); v = self.two(t, &a, &b); }
            1 => {
                let mut b = a.clone();
                if !b.is_empty() { let i = self.r.below(b.len()); b[i] = match self.r.below(3) { 0 => b[i].wrapping_add(1) % (r - 1) as u64, 1 => b[i].saturating_sub(1), _ => self.extreme(r) }; norm(&mut b); }
                v = self.two(t, &a, &b);
            }
            2 => { let b = self.small(t); v = self.two(t, &a, &b); v.push(Call { f: 4, ..mk(Op::Big(ADD), 2, 2, 1) }); }
            k => {
                // equal or nearly equal values computed differently
                tag = 28;
                self.far = k < 5;
                let (x, y) = if k == 3 { self.sub_pair(t) } else { self.add_pair(t) };
                v = vec![newc(3, t, &x), newc(4, t, &y)];
                if k == 3 {
                    let c = self.big(SUB, 1, 3, 4);
                    v.push(c);
                    if cmp(&x, &y).is_ge() { v.push(newc(2, t, &sub(r, &x, &y))); } else { v.push(newc(1, t, &x)); v.push(newc(2, t, &y)); }
                } else if k == 4 {
                    let c = self.big(ADD, 5, 3, 4);
                    v.push(c);
                    let c = self.big(SUB, 1, 5, 4);
                    v.push(c);
                    v.push(mk(Op::Clone, 2, 3, 0));
                } else {
                    v.push(newc(5, t, &mul(r, &x, &y)));
                    v.push(newc(2, t, &y));
                    v.push(newc(1, t, &y));
                    if !x.is_empty() { let c = self.big(DIV, 1, 5, 3); v.push(c); }
                }
            }
        }
        v.push(mk(Op::Cmp, 0, 1, 2));
        v.push(mk(Op::Cmp, 0, 2, 1));
        if self.r.one_in(2) { v.push(mk(Op::Max, 6, 1, 2)); v.push(mk(Op::Min, 7, 1, 2)); }
        Case { calls: v, key: self.key(t, tag, a.len()) }
    }
    fn c_fail(&mut self) -> Case {
        if !self.r.one_in(3) { let p = self.r.pick(&[1, 2, 3, 3, 4, 5, 5, 5, 6, 6, 7, 8, 8, 9, 10, 11, 13, 17, 18]); return self.case(p); }
        let t = self.r.below(8) as u8;
        let a = if self.r.one_in(4) { vec![] } else { self.num(t) };
        let mut v = self.two(t, &a, &vec![]);
        let f = self.r.below(3) as u8;
        let dig = self.r.one_in(2);
        match self.r.below(7) {
            0 => { v.push(Call { e: 4, ..mk(Op::DivRem, 3, 1, 2) }); v.push(mk(Op::Insp, 0, 3, 0)); }
            1 => { v.push(mk(Op::RemAs, 3, 1, 2)); v.push(mk(Op::Cmp, 0, 3, 1)); }
            2 => { let c = self.big(DIV, 3, 1, 2); v.push(c); }
            3 => { let c = self.big(REM, 3, 1, 2); v.push(c); }
            4 => v.push(Call { f, n: 0, dig, ..mk(Op::Short(DIV), 3, 1, 0) }),
            5 => v.push(Call { f, n: 0, dig, ..mk(Op::Short(REM), 3, 1, 0) }),
            _ => { let b = add(RADIX[t as usize], &a, &self.small(t)); v.push(newc(2, t, &b)); let c = self.big(SUB, 3, 1, 2); v.push(c); }
        }
        v.push(mk(Op::Insp, 0, 1, 0));
        Case { calls: v, key: self.key(t, 29, a.len()) }
    }
    fn c_forms(&mut self) -> Case {
        let t = self.r.below(8) as u8;
        let kind = self.r.below(14);
        let mut v = vec![];
        let n;
        self.far = matches!(kind, 0 | 1 | 5..=9);
        match kind {
            0..=4 => {
                let (a, b) = match kind { 0 => self.add_pair(t), 1 => self.sub_pair(t), 2 => self.mul_pair(t), _ => self.div_pair(t) };
                n = a.len();
                v.extend(self.two(t, &a, &b));
                for f in 0..6 { v.push(Call { f, g: 1, ..mk(Op::Big(kind as u8), 3, 1, 2) }); }
                // in place on the register itself
                v.push(mk(Op::Clone, 4, 1, 0));
                v.push(Call { f: 4, g: 1, ..mk(Op::Big(kind as u8), 4, 4, 2) });
                if kind == 4 && !b.is_empty() { v.push(Call { g: 1, ..mk(Op::RemAs, 3, 1, 2) }); }
                if kind == 3 && !b.is_empty() { v.push(Call { e: 5, ..mk(Op::DivRem, 3, 1, 2) }); }
                // the same object as both operands
                v.push(Call { f: 0, g: 2, ..mk(Op::Big(kind as u8), 3, 1, 1) });
                v.push(Call { f: 4, g: 2, ..mk(Op::Big(kind as u8), 3, 1, 1) });
                if kind == 2 { v.push(Call { g: 2, ..mk(Op::Square, 3, 1, 0) }); }
            }
            5..=9 => {
                let op = kind as u8 - 5;
                let both = self.r.one_in(2);
                let (a, s) = self.short_pair(t, op, both);
                n = a.len();
                v.push(newc(1, t, &a));
                let digit = (s as u128) < RADIX[t as usize];
                for f in 0..3 {
                    v.push(Call { f, n: s, dig: false, g: 1, ..mk(Op::Short(op), 3, 1, 0) });
                    if digit { v.push(Call { f, n: s, dig: true, g: 1, ..mk(Op::Short(op), 3, 1, 0) }); }
                }
                // and as a big number
                v.push(Call { d: 2, t, n: s, ..Call::new(Op::From) });
                v.push(Call { f: 0, g: 1, ..mk(Op::Big(op), 3, 1, 2) });
            }
            10 | 11 => {
                let a = self.num(t);
                n = a.len();
                let s = self.shift(t, n);
                v.push(newc(1, t, &a));
                let op = if kind == 10 { Op::Shl } else { Op::Shr };
                for f in 0..3 { v.push(Call { f, n: s, g: 1, ..mk(op, 3, 1, 0) }); }
                v.push(mk(Op::Clone, 4, 1, 0));
                v.push(Call { f: 2, n: s, g: 1, ..mk(op, 4, 4, 0) });
            }
            12 => {
                let a = self.snum(t);
                n = a.len();
                let e = self.r.below(12) as u64;
                v.push(newc(1, t, &a));
                for f in 0..2 { v.push(Call { f, n: e, g: 1, ..mk(Op::Pow, 3, 1, 0) }); }
            }
            _ => {
                let b = self.bits();
                let a = self.delicate(t, b.min(700));
                n = a.len();
                v.push(newc(1, t, &a));
                if t < 4 { v.push(mk(Op::ToDec, 3, 1, 0)); v.push(Call { g: 1, ..mk(Op::Show, 0, 3, 0) }); v.push(Call { g: 1, ..mk(Op::Show, 0, 1, 0) }); }
                v.push(mk(Op::Insp, 0, 1, 0));
                v.push(mk(Op::Square, 3, 1, 0));
                v.push(mk(Op::Cmp, 0, 1, 3));
            }
        }
        Case { calls: v, key: self.key(t, 30 + 32 * kind, n) }
    }

    // ---- histories -----------------------------------------------------------------------
    fn c_history(&mut self) -> Case {
        let t = self.ty();
        let r = RADIX[t as usize];
        let w = 8.0 * BYTES[t as usize] as f64;
        let per = (r as f64).log2();
        let _ = w;
        let big = self.r.one_in(if self.thorough { 6 } else { 12 });
        let cap = if big { if self.r.one_in(10) { 1600.0 } else { 300.0 } } else { 40.0 };
        let steps = self.r.range(8, if self.thorough { 60 } else { 30 });
        let mut v: Vec<Call> = vec![];
        let mut sz = [0f64; 7];
        for d in 1..=5u8 {
            let a = if big && self.r.one_in(2) { let n = self.r.range(15, cap as usize / 2); self.digits(r, n) } else { self.num(t) };
            sz[d as usize] = a.len() as f64;
            v.push(newc(d, t, &a));
        }
        for _ in 0..steps {
            let (a, b, mut d) = (self.r.range(1, 5) as u8, self.r.range(1, 5) as u8, self.r.range(1, 5) as u8);
            let (sa, sb) = (sz[a as usize], sz[b as usize]);
            if self.r.one_in(3) { d = a; }
            let f = self.r.below(6) as u8;
            let f3 = self.r.below(3) as u8;
            let mut size = sa;
            match self.r.below(25) {
                24 => v.push(mk(Op::Clone, d, a, 0)),
                0 | 1 => { size = sa.max(sb) + 1.0; if size > cap { continue; } v.push(Call { f, ..mk(Op::Big(ADD), d, a, b) }); }
                2 | 3 => v.push(Call { f, ..mk(Op::Big(SUB), d, a, b) }),
                4 => {
                    // difference of neighbours: s = a + small; s - a
                    v.push(Call { n: self.r.digit(r), dig: true, f: f3, ..mk(Op::Short(ADD), 6, a, 0) });
                    v.push(Call { f, ..mk(Op::Big(SUB), d, 6, a) });
                    size = 1.0;
                }
                5 | 6 | 7 => { size = sa + sb; if size > cap { continue; } v.push(Call { f, ..mk(Op::Big(MUL), d, a, b) }); }
                8 | 9 => v.push(Call { f, ..mk(Op::Big(DIV), d, a, b) }),
                10 => { v.push(Call { f, ..mk(Op::Big(REM), d, a, b) }); size = sa.min(sb); }
                11 => {
                    let e = 1 + d % 5;
                    v.push(Call { e, ..mk(Op::DivRem, d, a, b) });
                    sz[e as usize] = sa.max(sz[e as usize]).min(cap);
                }
                12 => { v.push(mk(Op::RemAs, d, a, b)); size = sa.min(sb); }
                13 | 14 => {
                    let op = self.r.below(5) as u8;
                    let dig = self.r.one_in(2);
                    let n = self.scalar(t, dig);
                    v.push(Call { f: f3, n, dig, ..mk(Op::Short(op), d, a, 0) });
                    size = sa + 2.0;
                }
                15 => { let n = self.shift(t, 3); size = sa + n as f64 / per + 1.0; if size > cap { continue; } v.push(Call { f: f3, n, ..mk(Op::Shl, d, a, 0) }); }
                16 => { let n = self.shift(t, sa as usize); v.push(Call { f: f3, n, ..mk(Op::Shr, d, a, 0) }); }
                17 => { size = 2.0 * sa; if size > cap { continue; } v.push(mk(Op::Square, d, a, 0)); }
                18 => { let n = self.r.below(6) as u64; size = n as f64 * sa + 1.0; if size > cap { continue; } v.push(Call { f: f & 1, n, ..mk(Op::Pow, d, a, 0) }); }
                19 => { v.push(mk(Op::Cmp, 0, a, b)); continue; }
                20 => { v.push(mk(Op::Insp, 0, a, 0)); continue; }
                21 => { let k = if t < 4 { self.r.below(3) as u8 } else { 0 }; v.push(Call { t, k, ..mk(Op::Trip, d, a, 0) }); }
                22 => { let op = self.r.pick(&[Op::Max, Op::Min]); v.push(mk(op, d, a, b)); size = sa.max(sb); }
                _ => {
                    if t < 4 { v.push(mk(Op::ToDec, 7, a, 0)); v.push(mk(Op::Square, 8, 7, 0)); v.push(Call { t, k: 0, ..mk(Op::Trip, d, 7, 0) }); }
                    else { v.push(mk(Op::Clone, d, a, 0)); }
                }
            }
            sz[d as usize] = size;
        }
        Case { calls: v, key: self.key(t, 31 + 32 * big as usize, steps) }
    }

    // ---- the same computation in all types -----------------------------------------------
    fn c_types(&mut self) -> Case {
        let m = match self.r.below(5) { 0 => 3, 1 => 12, 2 => 40, 3 => 80, _ => match self.r.below(100) { 0 => 6000, 1..=4 => 1500, 5..=25 => 400, _ => 120 } };
        let (a, mut b) = (self.type_string(m), self.type_string(m));
        match self.r.below(6) { 0 => b = a.clone(), 1 => { b = self.dec_string(6) } _ => {} }
        let kind = self.r.below(16);
        if kind >= 12 { return self.c_program(m); }
        let op = self.r.below(5) as u8;
        // a machine integer, in the types that have it
        let n = if self.r.one_in(2) { self.r.below(256) as u64 } else { let t = self.r.below(8) as u8; self.scalar(t, false) };
        let sh = self.r.below(200) as u64;
        let ex = if m > 1000 { 2 } else { self.r.below(6) as u64 };
        let mut v = vec![];
        for t in 0..8u8 {
            if kind == 5 && n as u128 >> (8 * BYTES[t as usize]) > 0 { continue; }
            v.push(Call { d: 1, t, s: a.clone(), ..Call::new(Op::Parse) });
            v.push(Call { d: 2, t, s: b.clone(), ..Call::new(Op::Parse) });
            let c = match kind {
                0 => mk(Op::Big(ADD), 3, 1, 2),
                1 => mk(Op::Big(SUB), 3, 1, 2),
                2 => mk(Op::Big(MUL), 3, 1, 2),
                3 => Call { e: 4, ..mk(Op::DivRem, 3, 1, 2) },
                4 => mk(Op::Big(REM), 3, 1, 2),
                5 => Call { n, ..mk(Op::Short(op), 3, 1, 0) },
                6 => Call { n: sh, ..mk(Op::Shl, 3, 1, 0) },
                7 => Call { n: sh, ..mk(Op::Shr, 3, 1, 0) },
                8 => Call { n: ex, ..mk(Op::Pow, 3, 2, 0) },
                9 => mk(Op::Square, 3, 1, 0),
                10 => mk(Op::Cmp, 0, 1, 2),
                _ => mk(Op::Show, 0, 1, 0),
            };
            v.push(Call { g: 1, ..c.clone() });
            if kind < 10 { v.push(Call { g: 2, ..mk(Op::Show, 0, 3, 0) }); v.push(Call { g: 3, ..mk(Op::Cmp, 0, 3, 1) }); }
        }
        Case { calls: v, key: self.key(0, 32 * kind, m) }
    }

    /// A numeral, or the number of some type's digits
    fn type_string(&mut self, m: usize) -> String {
        if self.r.one_in(2) { return self.dec_string(m); }
        let t = self.r.below(8) as u8;
        let top = ((m * 10 / 3) as u128 / RADIX[t as usize].ilog2() as u128).min(60) as usize;
        let n = self.r.range(1, top.max(2));
        let d = if self.r.one_in(4) { (0..n).map(|_| self.r.pick(powers(t))).collect() } else { self.digits(RADIX[t as usize], n) };
        let mut d: Dv = d;
        norm(&mut d);
        crate::screen::numeral(t, &d)
    }

    /// A few steps, each on results of earlier ones, in every type
    fn c_program(&mut self, m: usize) -> Case {
        let m = m.min(400);
        let (a, b) = (self.type_string(m), self.type_string(m));
        let n = self.r.range(2, 8);
        let mut steps: Vec<Call> = vec![];
        let mut sz = [0, m, m, m, m];
        for _ in 0..n {
            let (x, y, d) = (self.r.range(1, 4), self.r.range(1, 4), self.r.range(1, 4));
            let (cx, cy, cd) = (x as u8, y as u8, d as u8);
            let f = self.r.below(6) as u8;
            let f3 = self.r.below(3) as u8;
            let mut size = sz[x];
            let c = match self.r.below(13) {
                0 => { size = sz[x].max(sz[y]) + 1; self.big(ADD, cd, cx, cy) }
                1 => self.big(SUB, cd, cx, cy),
                2 => { size = sz[x] + sz[y]; self.big(MUL, cd, cx, cy) }
                3 => self.big(DIV, cd, cx, cy),
                4 => self.big(REM, cd, cx, cy),
                5 => Call { e: 1 + cd % 4, ..mk(Op::DivRem, cd, cx, cy) },
                6 => { size += 3; Call { f: f3, n: self.r.below(256) as u64, ..mk(Op::Short(self.r.below(5) as u8), cd, cx, 0) } }
                7 => { let n = self.r.below(300) as u64; size += n as usize / 3 + 1; Call { f: f3, n, ..mk(Op::Shl, cd, cx, 0) } }
                8 => Call { f: f3, n: self.r.below(300) as u64, ..mk(Op::Shr, cd, cx, 0) },
                9 => { let n = self.r.below(5) as u64; size *= n.max(1) as usize; Call { f: f & 1, n, ..mk(Op::Pow, cd, cx, 0) } }
                10 => { size *= 2; mk(Op::Square, cd, cx, 0) }
                11 => { size = sz[x].max(sz[y]); mk(if f3 == 0 { Op::Max } else { Op::Min }, cd, cx, cy) }
                _ => mk(Op::RemAs, cd, cx, cy),
            };
            if size > 3000 { continue; }
            // where the step fails the destination keeps what it has
            sz[d] = sz[d].max(size);
            if c.op == Op::DivRem { let e = c.e as usize; sz[e] = sz[e].max(sz[x]); }
            steps.push(c);
            if self.r.one_in(3) { steps.push(mk(Op::Show, 0, cd, 0)); }
            if self.r.one_in(3) { steps.push(mk(Op::Cmp, 0, cd, cx)); }
        }
        let mut v = vec![];
        for t in 0..8u8 {
            v.push(Call { d: 1, t, s: a.clone(), ..Call::new(Op::Parse) });
            v.push(Call { d: 2, t, s: b.clone(), ..Call::new(Op::Parse) });
            v.push(mk(Op::Clone, 3, 1, 0));
            v.push(mk(Op::Clone, 4, 2, 0));
            for (i, c) in steps.iter().enumerate() { v.push(Call { g: 10 + i as u32, ..c.clone() }); }
        }
        Case { calls: v, key: self.key(0, 640 + n, m) }
    }

    fn c_laws(&mut self) -> Case {
        let t = self.ty();
        let r = RADIX[t as usize];
        let mut v;
        let kind = self.r.below(11);
        let same = |v: &mut Vec<Call>, a: u8, b: u8| v.push(mk(Op::Law, 0, a, b));
        let n;
        match kind {
            0 => {
                let (a, b) = self.add_pair(t);
                n = a.len();
                v = self.two(t, &a, &b);
                v.push(self.big(ADD, 3, 1, 2));
                v.push(self.big(SUB, 4, 3, 2));
                v.push(self.big(SUB, 5, 3, 1));
                same(&mut v, 4, 1);
                same(&mut v, 5, 2);
            }
            1 | 2 => {
                let (a, b) = self.mul_pair(t);
                n = a.len().min(b.len());
                v = self.two(t, &a, &b);
                v.push(self.big(MUL, 3, 1, 2));
                v.push(self.big(MUL, 4, 2, 1));
                same(&mut v, 3, 4);
                if !b.is_empty() && b.len() < 200 { v.push(self.big(DIV, 5, 3, 2)); same(&mut v, 5, 1); v.push(self.big(REM, 6, 3, 2)); v.push(Call { d: 7, t, ..Call::new(Op::Zero) }); same(&mut v, 6, 7); }
            }
            3 | 4 => {
                let (a, b) = self.div_pair(t);
                n = b.len();
                v = self.two(t, &a, &b);
                if b.is_empty() { v.push(newc(2, t, &[1])); }
                v.push(self.big(DIV, 3, 1, 2));
                v.push(self.big(REM, 4, 1, 2));
                v.push(self.big(MUL, 5, 3, 2));
                v.push(self.big(ADD, 5, 5, 4));
                same(&mut v, 5, 1);
            }
            5 => {
                // (a+b)^2 = a^2 + 2ab + b^2
                let (n0, m0) = self.mul_lens();
                n = n0.min(300);
                let (a, b) = (self.digits(r, n), self.digits(r, m0.min(300)));
                v = self.two(t, &a, &b);
                v.push(self.big(ADD, 3, 1, 2));
                v.push(mk(Op::Square, 4, 3, 0));
                v.push(mk(Op::Square, 5, 1, 0));
                v.push(self.big(MUL, 6, 1, 2));
                v.push(Call { f: 1, n: 1, ..mk(Op::Shl, 6, 6, 0) });
                v.push(mk(Op::Square, 7, 2, 0));
                v.push(self.big(ADD, 5, 5, 6));
                v.push(self.big(ADD, 5, 5, 7));
                same(&mut v, 4, 5);
            }
            6 => {
                // a*(b+c) = a*b + a*c, the parts of quite different lengths
                let (a, b) = self.mul_pair(t);
                n = a.len().min(b.len());
                let c = self.num(t);
                v = self.two(t, &a, &b);
                v.push(newc(3, t, &c));
                v.push(self.big(ADD, 4, 2, 3));
                v.push(self.big(MUL, 4, 1, 4));
                v.push(self.big(MUL, 5, 1, 2));
                v.push(self.big(MUL, 6, 1, 3));
                v.push(self.big(ADD, 5, 5, 6));
                same(&mut v, 4, 5);
            }
            7 => {
                let a = self.num(t);
                n = a.len();
                let s = self.shift(t, n).min(2000);
                v = vec![newc(1, t, &a), Call { f: 0, n: s, ..mk(Op::Shl, 2, 1, 0) }, newc(3, t, &[2])];
                v.push(Call { f: 0, n: s, ..mk(Op::Pow, 4, 3, 0) });
                v.push(self.big(MUL, 5, 1, 4));
                same(&mut v, 5, 2);
                v.push(Call { f: 2, n: s, ..mk(Op::Shr, 6, 2, 0) });
                same(&mut v, 6, 1);
                v.push(Call { f: 0, n: s, ..mk(Op::Shr, 7, 1, 0) });
                v.push(self.big(DIV, 8, 1, 4));
                same(&mut v, 7, 8);
            }
            8 => {
                // associativity
                let (a, b, c) = (self.num(t), self.num(t), self.num(t));
                n = a.len();
                v = self.two(t, &a, &b);
                v.push(newc(3, t, &c));
                let op = self.r.pick(&[ADD, MUL]);
                v.push(self.big(op, 4, 1, 2));
                v.push(self.big(op, 4, 4, 3));
                v.push(self.big(op, 5, 2, 3));
                v.push(self.big(op, 5, 1, 5));
                same(&mut v, 4, 5);
            }
            9 => {
                // a^(m+n) = a^m * a^n
                let a = self.snum(t);
                n = a.len();
                let (p, q) = (self.r.below(7) as u64, self.r.below(7) as u64);
                v = vec![newc(1, t, &a)];
                for (d, e) in [(2, p), (3, q), (4, p + q)] { v.push(Call { f: 0, n: e, ..mk(Op::Pow, d, 1, 0) }); }
                v.push(self.big(MUL, 5, 2, 3));
                same(&mut v, 4, 5);
            }
            _ => {
                let a = self.num(t);
                n = a.len();
                v = vec![newc(1, t, &a)];
                v.push(Call { f: 0, ..mk(Op::Big(MUL), 2, 1, 1) });
                v.push(mk(Op::Square, 3, 1, 0));
                same(&mut v, 2, 3);
                v.push(Call { f: 0, n: 2, ..mk(Op::Pow, 4, 1, 0) });
                same(&mut v, 2, 4);
                v.push(Call { f: 0, n: 3, ..mk(Op::Pow, 4, 1, 0) });
                v.push(self.big(MUL, 5, 2, 1));
                same(&mut v, 4, 5);
            }
        }
        Case { calls: v, key: self.key(t, 32 * kind, n) }
    }
}
