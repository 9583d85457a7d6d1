//! Calls, their execution against the library, and what was observed.
use crate::api::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[allow(dead_code)]
pub enum Op {
    New, From, Zero, One, Clone, Parse, Big(u8), Short(u8), Shl, Shr, Pow, Square, Max, Min,
    DivRem, RemAs, ToDec, Cmp, Insp, Show, Trip, Law, SetZero, SetOne, Split,
}
const BIG: [&str; 5] = ["add", "sub", "mul", "div", "rem"];
const SHORT: [&str; 5] = ["sadd", "ssub", "smul", "sdiv", "srem"];
pub fn op_name(o: Op) -> &'static str {
    match o {
        Op::New => "new", Op::From => "from", Op::Zero => "zero", Op::One => "one", Op::Clone => "clone",
        Op::Parse => "parse", Op::Big(i) => BIG[i as usize], Op::Short(i) => SHORT[i as usize],
        Op::Shl => "shl", Op::Shr => "shr", Op::Pow => "pow", Op::Square => "square", Op::Max => "max",
        Op::Min => "min", Op::DivRem => "divrem", Op::RemAs => "remas", Op::ToDec => "todec",
        Op::Cmp => "cmp", Op::Insp => "insp", Op::Show => "show", Op::Trip => "trip", Op::Law => "law",
        Op::SetZero => "setzero", Op::SetOne => "setone", Op::Split => "split",
    }
}
pub fn op_of(s: &str) -> Option<Op> {
    if let Some(i) = BIG.iter().position(|x| *x == s) { return Some(Op::Big(i as u8)); }
    if let Some(i) = SHORT.iter().position(|x| *x == s) { return Some(Op::Short(i as u8)); }
    [Op::New, Op::From, Op::Zero, Op::One, Op::Clone, Op::Parse, Op::Shl, Op::Shr, Op::Pow, Op::Square, Op::Max, Op::Min,
     Op::DivRem, Op::RemAs, Op::ToDec, Op::Cmp, Op::Insp, Op::Show, Op::Trip, Op::Law, Op::SetZero, Op::SetOne, Op::Split]
        .into_iter().find(|o| op_name(*o) == s)
}

/// A call.  Registers are numbered from 1.
#[derive(Clone, Debug)]
pub struct Call {
    pub op: Op,
    pub d: u8, pub e: u8, pub a: u8, pub b: u8,
    pub t: u8,
    /// operator form
    pub f: u8,
    /// small operand is a digit / kind of text 0 d, 1 x, 2 X
    pub dig: bool, pub k: u8,
    pub n: u64,
    pub s: String,
    pub x: Vec<u8>,
    pub fl: Fmt,
    /// agreement group, 0 for none
    pub g: u32,
}
impl Call {
    pub fn new(op: Op) -> Call {
        Call { op, d: 0, e: 0, a: 0, b: 0, t: 0, f: 0, dig: false, k: 0, n: 0, s: String::new(), x: vec![],
               fl: Fmt::default(), g: 0 }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Reply { None, Ints(Vec<i64>), Text(String) }
#[derive(Clone, Debug)]
pub struct Obs {
    pub o: String,
    pub w: Vec<(u8, u8, Vec<u8>)>,
    pub r: Reply,
    pub fr: Vec<u8>,
    /// text printed on the way (round trips), for information
    #[allow(dead_code)]
    pub via: Option<String>,
}

pub const NREGS: usize = 12;
pub struct Machine { pub reg: Vec<Option<Any>> }

enum Out { Num(Vec<(u8, Any)>), Err(String, Vec<(u8, Any)>), Reply(Reply) }

impl Machine {
    pub fn new() -> Machine { Machine { reg: vec![None; NREGS + 1] } }

    /// Whether the registers the call reads are there and of the right types
    pub fn callable(&self, c: &Call) -> bool {
        let r = |i: u8| self.reg[i as usize].as_ref();
        match c.op {
            Op::New | Op::From | Op::Zero | Op::One | Op::Parse => true,
            Op::Split => c.t >= 4,
            Op::Clone | Op::SetZero | Op::SetOne | Op::Insp | Op::Shl | Op::Shr | Op::Pow | Op::Square | Op::Trip => r(c.a).is_some(),
            Op::Short(_) => r(c.a).map_or(false, |a| !c.dig || (c.n as u128) < RADIX[a.ty() as usize]),
            Op::ToDec => r(c.a).map_or(false, |a| is_bin(a.ty())),
            Op::Show => r(c.a).map_or(false, |a| c.k == 0 || is_bin(a.ty())),
            Op::Law => r(c.a).is_some() && r(c.b).is_some(),
            Op::Big(_) | Op::Max | Op::Min | Op::DivRem | Op::RemAs | Op::Cmp =>
                match (r(c.a), r(c.b)) { (Some(a), Some(b)) => a.ty() == b.ty(), _ => false },
        }
    }

    /// The registers the call reads
    fn reads(c: &Call) -> Vec<u8> {
        match c.op {
            Op::New | Op::From | Op::Zero | Op::One | Op::Parse | Op::Split => vec![],
            Op::Big(_) | Op::Max | Op::Min | Op::DivRem | Op::RemAs | Op::Cmp | Op::Law =>
                if c.a == c.b { vec![c.a] } else { vec![c.a, c.b] },
            _ => vec![c.a],
        }
    }

    pub fn exec(&mut self, c: &Call) -> Obs {
        let reads = Self::reads(c);
        let backup: Vec<(u8, Any)> = reads.iter().map(|r| (*r, self.reg[*r as usize].clone().unwrap())).collect();
        // The owned and in-place forms consume the register itself if it is overwritten anyway
        let takes = match c.op {
            Op::Big(_) => c.f >= 2 && c.d == c.a && c.a != c.b,
            Op::Short(_) | Op::Shl | Op::Shr | Op::Pow => c.f >= 1 && c.d == c.a,
            Op::DivRem | Op::RemAs | Op::Max | Op::Min => c.d == c.a && c.a != c.b,
            Op::SetZero | Op::SetOne => c.d == c.a,
            _ => false,
        };
        let takes_b = match c.op {
            Op::Big(_) => c.f % 2 == 1 && c.d == c.b && c.a != c.b,
            Op::Max | Op::Min => c.d == c.b && c.a != c.b,
            _ => false,
        };
        let own = if takes { self.reg[c.a as usize].take() } else { None };
        let ownb = if takes_b { self.reg[c.b as usize].take() } else { None };
        // what a copy overwrites
        let over = match c.op {
            Op::Clone if c.f == 1 && c.d != c.a => self.reg[c.d as usize].clone().filter(|x| x.ty() == backup[0].1.ty()),
            _ => None,
        };
        let mut via = None;
        let res = {
            let this = &*self;
            let via = &mut via;
            let bk = &backup;
            catch_unwind(AssertUnwindSafe(move || {
                // a taken operand is also needed by reference only to select the type
                let a = || this.reg[c.a as usize].as_ref().unwrap_or_else(|| &bk[0].1);
                let b = || this.reg[c.b as usize].as_ref().unwrap_or_else(|| &bk[bk.len() - 1].1);
                let one = |x: Any| Out::Num(vec![(c.d, x)]);
                match c.op {
                    Op::New => one(Any::from_raw(c.t, &c.x, c.f as usize)),
                    Op::From => one(Any::from_int(c.t, c.n)),
                    Op::Zero => one(Any::zero(c.t)),
                    Op::One => one(Any::one(c.t)),
                    Op::Clone => match over { Some(mut x) => { x.copy_from(a()); one(x) } None => one(a().clone()) },
                    Op::SetZero => { let mut x = own.unwrap_or_else(|| a().clone()); x.set_const(0); one(x) }
                    Op::SetOne => { let mut x = own.unwrap_or_else(|| a().clone()); x.set_const(1); one(x) }
                    Op::Split => Out::Reply(Reply::Text(split(c.t, c.n))),
                    Op::Parse => match Any::parse(c.t, &c.s) { Ok(x) => one(x), Err(e) => Out::Err(e, vec![]) },
                    Op::Big(op) => one(Any::big(op, c.f, a(), own, b(), ownb)),
                    Op::Short(op) => one(Any::short(op, c.f, c.dig, a(), own, c.n)),
                    Op::Shl => one(Any::shl(c.f, a(), own, c.n as usize)),
                    Op::Shr => one(Any::shr(c.f, a(), own, c.n as usize)),
                    Op::Pow => one(Any::power(c.f, a(), own, c.n as usize)),
                    Op::Square => one(a().sq()),
                    Op::Max => one(Any::max_min(0, a(), own, b(), ownb)),
                    Op::Min => one(Any::max_min(1, a(), own, b(), ownb)),
                    Op::DivRem => {
                        let mut x = own.unwrap_or_else(|| a().clone());
                        match x.divrem(b()) {
                            Ok(r) => Out::Num(vec![(c.d, x), (c.e, r)]),
                            Err(e) => Out::Err(e, vec![(c.d, x)]),
                        }
                    }
                    Op::RemAs => {
                        let mut x = own.unwrap_or_else(|| a().clone());
                        match x.remas(b()) { Ok(()) => one(x), Err(e) => Out::Err(e, vec![(c.d, x)]) }
                    }
                    Op::ToDec => one(a().to_decimal()),
                    Op::Cmp => Out::Reply(Reply::Ints(a().order(b()))),
                    Op::Insp => Out::Reply(Reply::Ints(a().inspect().to_vec())),
                    Op::Show => Out::Reply(Reply::Text(a().show(c.k, &c.fl))),
                    Op::Trip => {
                        let s = a().show(c.k, &Fmt { h: c.k != 0, ..Fmt::default() });
                        *via = Some(s.clone());
                        match Any::parse(c.t, &s) { Ok(x) => one(x), Err(e) => Out::Err(e, vec![]) }
                    }
                    // equal as the library sees it, if it can compare them
                    Op::Law => Out::Reply(Reply::Ints(vec![(a().ty() != b().ty() || a() == b()) as i64])),
                }
            }))
        };
        let mut fr = vec![];
        for (r, old) in &backup {
            match &self.reg[*r as usize] {
                Some(x) => if x.raw() != old.raw() { fr.push(*r); },
                None => {}
            }
        }
        // A failed in-place operation may have consumed its operand
        for (r, old) in backup { if self.reg[r as usize].is_none() { self.reg[r as usize] = Some(old); } }
        let (o, ws, r) = match res {
            Ok(Out::Num(ws)) => ("ok".to_string(), ws, Reply::None),
            Ok(Out::Err(e, ws)) => (e, ws, Reply::None),
            Ok(Out::Reply(r)) => ("ok".to_string(), vec![], r),
            Err(_) => ("panic".to_string(), vec![], Reply::None),
        };
        let mut w = vec![];
        for (d, x) in ws {
            w.push((d, x.ty(), x.raw()));
            self.reg[d as usize] = Some(x);
        }
        Obs { o, w, r, fr, via }
    }
}

fn hex(x: &[u8], s: &mut String) {
    const H: &[u8; 16] = b"0123456789abcdef";
    for b in x { s.push(H[(b >> 4) as usize] as char); s.push(H[(b & 15) as usize] as char); }
}
fn jstr(x: &str, s: &mut String) {
    s.push('"');
    for ch in x.chars() {
        match ch {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 32 => { let _ = write!(s, "\\u{:04x}", c as u32); }
            c => s.push(c),
        }
    }
    s.push('"');
}

/// The event as JSON
pub fn event_json(c: &Call, o: &Obs, s: &mut String) {
    let _ = write!(s, "{{\"op\":\"{}\"", op_name(c.op));
    let num = |s: &mut String, k: &str, v: u64| { let _ = write!(s, ",\"{}\":{}", k, v); };
    match c.op {
        Op::Cmp | Op::Insp | Op::Show | Op::Law | Op::Split => {}
        _ => num(s, "d", c.d as u64),
    }
    if let Op::DivRem = c.op { num(s, "e", c.e as u64); }
    match c.op {
        Op::New | Op::From | Op::Zero | Op::One | Op::Parse | Op::Split => {}
        Op::Big(_) | Op::Max | Op::Min | Op::DivRem | Op::RemAs | Op::Cmp | Op::Law => {
            num(s, "a", c.a as u64);
            num(s, "b", c.b as u64);
        }
        _ => num(s, "a", c.a as u64),
    }
    match c.op {
        Op::New | Op::From | Op::Zero | Op::One | Op::Parse | Op::Trip | Op::Split => {
            let _ = write!(s, ",\"t\":\"{}\"", TYPES[c.t as usize]);
        }
        _ => {}
    }
    match c.op {
        Op::Big(_) | Op::Short(_) | Op::Shl | Op::Shr | Op::Pow => num(s, "f", c.f as u64),
        _ => {}
    }
    match c.op {
        Op::Short(_) => { let _ = write!(s, ",\"k\":\"{}\"", if c.dig { "dig" } else { "int" }); }
        Op::Show | Op::Trip => { let _ = write!(s, ",\"k\":\"{}\"", ["d", "x", "X"][c.k as usize]); }
        _ => {}
    }
    match c.op {
        Op::From | Op::Short(_) | Op::Shl | Op::Shr | Op::Pow | Op::Split => {
            s.push_str(",\"n\":\"");
            hex(&c.n.to_le_bytes(), s);
            s.push('"');
        }
        Op::Parse => { s.push_str(",\"s\":"); jstr(&c.s, s); }
        Op::New => { s.push_str(",\"x\":\""); hex(&c.x, s); s.push('"'); }
        Op::Show => {
            let f = &c.fl;
            let _ = write!(s, ",\"fl\":{{\"w\":{},\"z\":{},\"p\":{},\"h\":{},\"al\":\"{}\",\"fc\":\"{}\",\"pr\":{}}}",
                f.w, f.z as u8, f.p as u8, f.h as u8, ALIGN[f.al as usize],
                if f.al == 0 { " " } else { FILL[f.fc as usize] }, f.pr);
        }
        _ => {}
    }
    if c.g != 0 { let _ = write!(s, ",\"g\":{}", c.g); }
    let _ = write!(s, ",\"o\":\"{}\",\"w\":[", o.o);
    for (i, (d, t, x)) in o.w.iter().enumerate() {
        if i > 0 { s.push(','); }
        let _ = write!(s, "[{},\"{}\",\"", d, TYPES[*t as usize]);
        hex(x, s);
        s.push_str("\"]");
    }
    s.push_str("],\"r\":");
    match &o.r {
        Reply::None => s.push_str("[]"),
        Reply::Ints(v) => { let _ = write!(s, "{:?}", v); }
        Reply::Text(t) => jstr(t, s),
    }
    let _ = write!(s, ",\"fr\":{:?}}}", o.fr);
}

/// Calls as text, one per line, for replay files
pub fn call_text(c: &Call) -> String {
    let mut s = format!("{} d={} e={} a={} b={} t={} f={} dig={} k={} n={} g={}", op_name(c.op), c.d, c.e, c.a, c.b,
        c.t, c.f, c.dig as u8, c.k, c.n, c.g);
    if !c.x.is_empty() { s.push_str(" x="); hex(&c.x, &mut s); }
    if !c.s.is_empty() { s.push_str(" s="); hex(c.s.as_bytes(), &mut s); }
    if c.op == Op::Show {
        let f = &c.fl;
        let _ = write!(s, " w={} z={} p={} h={} al={} fc={} pr={}", f.w, f.z as u8, f.p as u8, f.h as u8, f.al, f.fc, f.pr);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn parse_call(line: &str) -> Option<Call> {
    let mut it = line.split_whitespace();
    let mut c = Call::new(op_of(it.next()?)?);
    for kv in it {
        let (k, v) = kv.split_once('=')?;
        let n = || v.parse::<u64>().unwrap_or(0);
        match k {
            "d" => c.d = n() as u8, "e" => c.e = n() as u8, "a" => c.a = n() as u8, "b" => c.b = n() as u8,
            "t" => c.t = TYPES.iter().position(|x| *x == v).map_or_else(|| n() as u8, |i| i as u8),
            "f" => c.f = n() as u8, "dig" => c.dig = n() != 0, "k" => c.k = n() as u8, "n" => c.n = n(),
            "g" => c.g = n() as u32, "x" => c.x = unhex(v), "s" => c.s = String::from_utf8(unhex(v)).ok()?,
            "w" => c.fl.w = v.parse().unwrap_or(-1), "pr" => c.fl.pr = v.parse().unwrap_or(-1), "z" => c.fl.z = n() != 0, "p" => c.fl.p = n() != 0, "h" => c.fl.h = n() != 0,
            "al" => c.fl.al = n() as u8, "fc" => c.fl.fc = n() as u8,
            _ => return None,
        }
    }
    Some(c)
}
