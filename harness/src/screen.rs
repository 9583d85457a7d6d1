//! A quick look at what was observed.  It decides nothing: it selects the histories that are
//! certainly worth showing to the specification, by necessary conditions (residues modulo 2^61-1,
//! canonical digits, exact comparison of digits).  The specification decides.
use crate::api::*;
use crate::exec::*;
use crate::nat::*;
use std::cmp::Ordering;

#[derive(Clone)]
struct V { t: u8, d: Dv, r: u64 }

/// The text of a number under Rust's rules for integers
/// The decimal numeral of a number
pub fn numeral(t: u8, d: &Dv) -> String { expected_text(&V { t, d: d.clone(), r: 0 }, 0, &Fmt::default()) }
fn expected_text(v: &V, k: u8, f: &Fmt) -> String {
    use std::fmt::Write;
    let own = if k == 0 { v.t >= 4 } else { v.t < 4 };
    let mut w = if own { v.d.clone() } else { to_bin(v.t, &v.d) };
    norm(&mut w);
    let mut s = String::new();
    if own {
        // digit by digit
        let places = if k > 0 { 2 * BYTES[v.t as usize] } else { [2, 4, 9, 19][v.t as usize - 4] };
        if w.is_empty() { w.push(0); }
        for (i, x) in w.iter().rev().enumerate() {
            let n = if i == 0 { 1 } else { places };
            let _ = if k == 0 { write!(s, "{:0n$}", x) } else { write!(s, "{:0n$x}", x) };
        }
        if k == 2 { s = s.to_uppercase(); }
    } else if k == 0 {
        const B: u128 = 10_000_000_000_000_000_000;
        let mut parts = vec![];
        while !w.is_empty() {
            let mut rem = 0u128;
            for x in w.iter_mut().rev() {
                let n = rem << 64 | *x as u128;
                *x = (n / B) as u64;
                rem = n % B;
            }
            norm(&mut w);
            parts.push(rem as u64);
        }
        let _ = write!(s, "{}", parts.pop().unwrap_or(0));
        for x in parts.iter().rev() { let _ = write!(s, "{:019}", x); }
    } else {
        let _ = write!(s, "{:x}", w.pop().unwrap_or(0));
        for x in w.iter().rev() { let _ = write!(s, "{:016x}", x); }
        if k == 2 { s = s.to_uppercase(); }
    }
    let pre = format!("{}{}", if f.p { "+" } else { "" }, if f.h && k > 0 { "0x" } else { "" });
    let n = (f.w.max(0) as usize).saturating_sub(pre.len() + s.len());
    if f.z { return pre + &"0".repeat(n) + &s; }
    let left = match f.al { 1 => 0, 2 => n / 2, _ => n };
    let fc = if f.al == 0 { " " } else { FILL[f.fc as usize] };
    fc.repeat(left) + &pre + &s + &fc.repeat(n - left)
}

fn shr_dec(rx: u128, d: &Dv, mut n: u64) -> Dv {
    let mut d = d.clone();
    norm(&mut d);
    while n > 0 && !d.is_empty() {
        let k = n.min(32);
        let mut rem = 0u128;
        for x in d.iter_mut().rev() {
            let c = rem * rx + *x as u128;
            *x = (c >> k) as u64;
            rem = c & ((1 << k) - 1);
        }
        norm(&mut d);
        n -= k;
    }
    d
}

fn numeral_res(s: &str, base: u32) -> Option<u64> {
    let mut v = 0u64;
    if s.is_empty() { return None; }
    for c in s.chars() {
        let d = c.to_digit(base)?;
        v = red(v as u128 * base as u128 + d as u128);
    }
    Some(v)
}

pub struct Screen {
    reg: Vec<Option<V>>,
    seen: Vec<(u32, Obs)>,
    exact_groups: bool,
}

impl Screen {
    pub fn new(exact_groups: bool) -> Screen { Screen { reg: vec![None; NREGS + 1], seen: vec![], exact_groups } }

    /// Whether the event looks wrong
    pub fn look(&mut self, c: &Call, o: &Obs) -> bool {
        let w: Vec<V> = o.w.iter().map(|(_, t, x)| { let d = of_raw(*t, x); let r = res_digits(*t, &d); V { t: *t, d, r } }).collect();
        let mut bad = !o.fr.is_empty();
        for v in &w {
            if v.d.last() == Some(&0) { bad = true; }
            let rx = RADIX[v.t as usize];
            if v.t >= 4 && v.d.iter().any(|d| *d as u128 >= rx) { bad = true; }
        }
        bad |= self.wrong(c, o, &w);
        if c.g != 0 {
            match self.seen.iter().find(|x| x.0 == c.g) {
                None => self.seen.push((c.g, o.clone())),
                Some((_, p)) => {
                    let same_w = if self.exact_groups { p.w.iter().map(|x| (&x.1, &x.2)).eq(o.w.iter().map(|x| (&x.1, &x.2))) } else {
                        p.w.len() == o.w.len() && p.w.iter().zip(&o.w).all(|(x, y)| res_digits(x.1, &of_raw(x.1, &x.2)) == res_digits(y.1, &of_raw(y.1, &y.2)))
                    };
                    if p.o != o.o || p.r != o.r || !same_w { bad = true; }
                }
            }
        }
        for ((d, _, _), v) in o.w.iter().zip(w) { self.reg[*d as usize] = Some(v); }
        bad
    }

    fn wrong(&self, c: &Call, o: &Obs, w: &[V]) -> bool {
        let r = |i: u8| self.reg[i as usize].as_ref().unwrap();
        let ok = o.o == "ok";
        let lt = |x: &Dv, y: &Dv| {
            let (mut x, mut y) = (x.clone(), y.clone());
            norm(&mut x);
            norm(&mut y);
            cmp(&x, &y)
        };
        match c.op {
            Op::New => !ok || w[0].r != res_digits(c.t, &of_raw(c.t, &c.x)),
            Op::From => !ok || w[0].r != red(c.n as u128),
            Op::Zero => !ok || w[0].r != 0,
            Op::One => !ok || w[0].r != 1,
            Op::SetZero => !ok || w[0].r != 0,
            Op::SetOne => !ok || w[0].r != 1,
            Op::Split => {
                let r = RADIX[c.t as usize];
                !ok || o.r != Reply::Text(format!("{},{},{}", ((c.n as u128) < r) as u8, c.n as u128 / r, c.n as u128 % r))
            }
            Op::Clone => !ok || w[0].r != r(c.a).r || w[0].d != r(c.a).d,
            Op::Parse => {
                let (s, base) = match c.s.strip_prefix("0x") { Some(s) => (s, 16), None => (&c.s[..], 10) };
                if s.is_empty() { return false; }
                match numeral_res(s, base) {
                    Some(v) => !ok || w[0].r != v,
                    None => o.o != "InvalidNumber",
                }
            }
            Op::Big(op) => {
                let (a, b) = (r(c.a), r(c.b));
                self.arith(op, a, b.r, &b.d, ok, &o.o, w)
            }
            Op::Short(op) => {
                let a = r(c.a);
                let rx = RADIX[a.t as usize];
                let mut bd = vec![];
                let mut n = c.n as u128;
                while n > 0 { bd.push((n % rx) as u64); n /= rx; }
                self.arith(op, a, red(c.n as u128), &bd, ok, &o.o, w)
            }
            Op::Shl => {
                if !ok { return true; }
                w[0].r != mulp(r(c.a).r, powp(2, c.n % 61))
            }
            Op::Shr => {
                if !ok { return true; }
                if r(c.a).t >= 4 {
                    let mut q = w[0].d.clone();
                    norm(&mut q);
                    return shr_dec(RADIX[r(c.a).t as usize], &r(c.a).d, c.n) != q;
                }
                let a = to_bin(r(c.a).t, &r(c.a).d);
                let mut q = to_bin(w[0].t, &w[0].d);
                norm(&mut q);
                shr_bin(&a, c.n) != q
            }
            Op::Pow => !ok || w[0].r != powp(r(c.a).r, c.n),
            Op::Square => !ok || w[0].r != mulp(r(c.a).r, r(c.a).r),
            Op::Max | Op::Min => {
                if !ok { return true; }
                let x = lt(&r(c.a).d, &r(c.b).d);
                let want = if (c.op == Op::Max) == (x == Ordering::Greater) { r(c.a) } else { r(c.b) };
                want.r != w[0].r
            }
            Op::DivRem => {
                let (a, b) = (r(c.a), r(c.b));
                let zero = lt(&b.d, &vec![]) == Ordering::Equal;
                if zero { return o.o != "DivisionByZero" || w.len() != 1 || w[0].r != a.r; }
                !ok || addp(mulp(w[0].r, b.r), w[1].r) != a.r || lt(&w[1].d, &b.d) != Ordering::Less
                    || lt(&w[0].d, &a.d) == Ordering::Greater
            }
            Op::RemAs => {
                let b = r(c.b);
                let zero = lt(&b.d, &vec![]) == Ordering::Equal;
                if zero { return o.o != "DivisionByZero" || w.len() != 1 || w[0].r != r(c.a).r; }
                self.arith(REM, r(c.a), b.r, &b.d, ok, &o.o, w)
            }
            Op::ToDec | Op::Trip => !ok || w[0].r != r(c.a).r,
            Op::Cmp => {
                if !ok { return true; }
                let n = match lt(&r(c.a).d, &r(c.b).d) { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 };
                let b = |x: bool| x as i64;
                o.r != Reply::Ints(vec![n, n, b(n == 0), b(n != 0), b(n < 0), b(n <= 0), b(n > 0), b(n >= 0)])
            }
            Op::Insp => {
                if !ok { return true; }
                let mut d = r(c.a).d.clone();
                norm(&mut d);
                o.r != Reply::Ints(vec![d.len() as i64, d.is_empty() as i64, (d == [1]) as i64])
            }
            Op::Show => {
                if !ok { return true; }
                let s = match &o.r { Reply::Text(s) => s, _ => return true };
                *s != expected_text(r(c.a), c.k, &c.fl)
            }
            Op::Law => !ok || o.r != Reply::Ints(vec![1]) || r(c.a).r != r(c.b).r,
        }
    }

    fn arith(&self, op: u8, a: &V, br: u64, bd: &[u64], ok: bool, o: &str, w: &[V]) -> bool {
        let mut x = a.d.clone();
        norm(&mut x);
        let mut y = bd.to_vec();
        norm(&mut y);
        match op {
            ADD => !ok || w[0].r != addp(a.r, br),
            SUB => if cmp(&x, &y) == Ordering::Less { o != "panic" } else { !ok || w[0].r != subp(a.r, br) },
            MUL => !ok || w[0].r != mulp(a.r, br),
            _ => {
                if y.is_empty() { return o != "panic"; }
                if !ok { return true; }
                let rx = RADIX[a.t as usize];
                let mut z = w[0].d.clone();
                norm(&mut z);
                let (q, m) = divrem(rx, &x, &y);
                z != if op == DIV { q } else { m }
            }
        }
    }
}
