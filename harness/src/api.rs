//! The public interface of the library, uniformly over its eight number types.
use babs::*;
use num_traits::{One, Pow, Zero};
use std::str::FromStr;

pub const TYPES: [&str; 8] = ["b8", "b16", "b32", "b64", "d8", "d16", "d32", "d64"];
pub const BYTES: [usize; 8] = [1, 2, 4, 8, 1, 2, 4, 8];
pub const RADIX: [u128; 8] = [
    1 << 8, 1 << 16, 1 << 32, 1 << 64, 100, 10_000, 1_000_000_000, 10_000_000_000_000_000_000,
];
pub fn is_bin(t: u8) -> bool { t < 4 }

/// Formatting flags, as in the specification; width and precision -1: none given
#[derive(Clone, Debug)]
pub struct Fmt { pub w: i32, pub z: bool, pub p: bool, pub h: bool, pub al: u8, pub fc: u8, pub pr: i32 }
impl Default for Fmt {
    fn default() -> Fmt { Fmt { w: -1, z: false, p: false, h: false, al: 0, fc: 0, pr: -1 } }
}
/// Alignment and fill as written in a format string
pub const ALIGN: [&str; 4] = ["", "<", "^", ">"];
pub const FILL: [&str; 4] = [" ", "*", "0", "\u{e9}"];

macro_rules! fmt_tail {
    ($v:expr, $f:expr, $al:literal, $pre:literal, $kind:literal) => {
        match ($f.w >= 0, $f.pr >= 0) {
            (false, false) => format!(concat!("{:", $al, $pre, $kind, "}"), $v),
            (true, false) => format!(concat!("{:", $al, $pre, "w$", $kind, "}"), $v, w = $f.w as usize),
            (false, true) => format!(concat!("{:", $al, $pre, ".q$", $kind, "}"), $v, q = $f.pr as usize),
            (true, true) => format!(concat!("{:", $al, $pre, "w$.q$", $kind, "}"), $v, w = $f.w as usize, q = $f.pr as usize),
        }
    };
}
macro_rules! fmt_flags {
    ($v:expr, $f:expr, $al:literal, $kind:literal) => {
        match ($f.p, $f.h, $f.z) {
            (false, false, false) => fmt_tail!($v, $f, $al, "", $kind),
            (true, false, false) => fmt_tail!($v, $f, $al, "+", $kind),
            (false, true, false) => fmt_tail!($v, $f, $al, "#", $kind),
            (true, true, false) => fmt_tail!($v, $f, $al, "+#", $kind),
            (false, false, true) => fmt_tail!($v, $f, $al, "0", $kind),
            (true, false, true) => fmt_tail!($v, $f, $al, "+0", $kind),
            (false, true, true) => fmt_tail!($v, $f, $al, "#0", $kind),
            (true, true, true) => fmt_tail!($v, $f, $al, "+#0", $kind),
        }
    };
}
macro_rules! fmt_all {
    ($v:expr, $f:expr, $kind:literal) => {
        match ($f.al, $f.fc) {
            (0, _) => fmt_flags!($v, $f, "", $kind),
            (1, 0) => fmt_flags!($v, $f, "<", $kind),
            (2, 0) => fmt_flags!($v, $f, "^", $kind),
            (3, 0) => fmt_flags!($v, $f, ">", $kind),
            (1, 1) => fmt_flags!($v, $f, "*<", $kind),
            (2, 1) => fmt_flags!($v, $f, "*^", $kind),
            (3, 1) => fmt_flags!($v, $f, "*>", $kind),
            (1, 2) => fmt_flags!($v, $f, "0<", $kind),
            (2, 2) => fmt_flags!($v, $f, "0^", $kind),
            (3, 2) => fmt_flags!($v, $f, "0>", $kind),
            (1, _) => fmt_flags!($v, $f, "\u{e9}<", $kind),
            (2, _) => fmt_flags!($v, $f, "\u{e9}^", $kind),
            _ => fmt_flags!($v, $f, "\u{e9}>", $kind),
        }
    };
}
pub fn show_dec(v: &dyn std::fmt::Display, f: &Fmt) -> String { fmt_all!(v, f, "") }
pub fn show_hex(v: &dyn std::fmt::LowerHex, f: &Fmt) -> String { fmt_all!(v, f, "x") }
pub fn show_uhex(v: &dyn std::fmt::UpperHex, f: &Fmt) -> String { fmt_all!(v, f, "X") }

pub const ADD: u8 = 0;
pub const SUB: u8 = 1;
pub const MUL: u8 = 2;
pub const DIV: u8 = 3;
pub const REM: u8 = 4;

pub trait Num: Clone + PartialEq + Ord {
    /// room: how many more digits the storage has room for
    fn from_raw(x: &[u8], room: usize) -> Self;
    fn raw(&self) -> Vec<u8>;
    /// Number of digits reported, zero and one tests
    fn inspect(&self) -> [i64; 3];
    fn from_int(n: u64) -> Self;
    fn nzero() -> Self;
    fn none() -> Self;
    fn set_const(&mut self, n: u8);
    fn parse(s: &str) -> Result<Self, String>;
    /// 0 &a op &b, 1 &a op b, 2 a op &b, 3 a op b, 4 a op= &b, 5 a op= b
    fn big(op: u8, f: u8, a: &Self, own: Option<Self>, b: &Self, ownb: Option<Self>) -> Self;
    fn max_of(a: Self, b: Self) -> Self { Ord::max(a, b) }
    fn min_of(a: Self, b: Self) -> Self { Ord::min(a, b) }
    /// 0 &a op n, 1 a op n, 2 a op= n; with a digit or an integer
    fn short(op: u8, f: u8, dig: bool, a: &Self, own: Option<Self>, n: u64) -> Self;
    fn shl(f: u8, a: &Self, own: Option<Self>, n: usize) -> Self;
    fn shr(f: u8, a: &Self, own: Option<Self>, n: usize) -> Self;
    fn power(f: u8, a: &Self, own: Option<Self>, n: usize) -> Self;
    fn sq(&self) -> Self;
    fn divrem(&mut self, b: &Self) -> Result<Self, String>;
    fn remas(&mut self, b: &Self) -> Result<(), String>;
    fn show(&self, k: u8, f: &Fmt) -> String;
}

macro_rules! op_forms {
    ($f:expr, $a:expr, $own:expr, $b:expr, $ownb:expr, $op:tt, $asg:tt) => {
        match $f {
            0 => $a $op $b,
            1 => $a $op $ownb.unwrap_or_else(|| $b.clone()),
            2 => $own.unwrap_or_else(|| $a.clone()) $op $b,
            3 => $own.unwrap_or_else(|| $a.clone()) $op $ownb.unwrap_or_else(|| $b.clone()),
            4 => { let mut x = $own.unwrap_or_else(|| $a.clone()); x $asg $b; x }
            _ => { let mut x = $own.unwrap_or_else(|| $a.clone()); x $asg $ownb.unwrap_or_else(|| $b.clone()); x }
        }
    };
}
macro_rules! op_short {
    ($f:expr, $a:expr, $own:expr, $n:expr, $op:tt, $asg:tt) => {
        match $f {
            0 => $a $op $n,
            1 => $own.unwrap_or_else(|| $a.clone()) $op $n,
            _ => { let mut x = $own.unwrap_or_else(|| $a.clone()); x $asg $n; x }
        }
    };
}

macro_rules! imp {
    ($U:ty, $D:ident, $S:ty, $hex:tt) => {
        impl Num for $U {
            fn from_raw(x: &[u8], room: usize) -> Self {
                const K: usize = std::mem::size_of::<$S>();
                let mut v: Vec<$D<$S>> = Vec::with_capacity(x.len() / K + room);
                for c in x.chunks_exact(K) {
                    let mut b = [0u8; K];
                    b.copy_from_slice(c);
                    v.push($D(<$S>::from_le_bytes(b)));
                }
                UBig::new(v)
            }
            fn raw(&self) -> Vec<u8> {
                let mut r = Vec::with_capacity(self.digits().len() * std::mem::size_of::<$S>());
                for d in self.digits() { r.extend_from_slice(&d.0.to_le_bytes()); }
                r
            }
            fn inspect(&self) -> [i64; 3] {
                [self.nr_digits() as i64, self.is_zero() as i64, self.is_one() as i64]
            }
            fn from_int(n: u64) -> Self { <$U>::from(n as $S) }
            fn nzero() -> Self { <$U as Zero>::zero() }
            fn none() -> Self { <$U as One>::one() }
            fn set_const(&mut self, n: u8) { if n == 0 { Zero::set_zero(self) } else { One::set_one(self) } }
            fn parse(s: &str) -> Result<Self, String> { <$U>::from_str(s).map_err(|e| format!("{:?}", e)) }
            fn big(op: u8, f: u8, a: &Self, own: Option<Self>, b: &Self, ownb: Option<Self>) -> Self {
                match op {
                    ADD => op_forms!(f, a, own, b, ownb, +, +=),
                    SUB => op_forms!(f, a, own, b, ownb, -, -=),
                    MUL => op_forms!(f, a, own, b, ownb, *, *=),
                    DIV => op_forms!(f, a, own, b, ownb, /, /=),
                    _ => op_forms!(f, a, own, b, ownb, %, %=),
                }
            }
            fn short(op: u8, f: u8, dig: bool, a: &Self, own: Option<Self>, n: u64) -> Self {
                let s = n as $S;
                if dig {
                    let s = $D(s);
                    match op {
                        ADD => op_short!(f, a, own, s, +, +=),
                        SUB => op_short!(f, a, own, s, -, -=),
                        MUL => op_short!(f, a, own, s, *, *=),
                        DIV => op_short!(f, a, own, s, /, /=),
                        _ => op_short!(f, a, own, s, %, %=),
                    }
                } else {
                    match op {
                        ADD => op_short!(f, a, own, s, +, +=),
                        SUB => op_short!(f, a, own, s, -, -=),
                        MUL => op_short!(f, a, own, s, *, *=),
                        DIV => op_short!(f, a, own, s, /, /=),
                        _ => op_short!(f, a, own, s, %, %=),
                    }
                }
            }
            fn shl(f: u8, a: &Self, own: Option<Self>, n: usize) -> Self { op_short!(f, a, own, n, <<, <<=) }
            fn shr(f: u8, a: &Self, own: Option<Self>, n: usize) -> Self { op_short!(f, a, own, n, >>, >>=) }
            fn power(f: u8, a: &Self, own: Option<Self>, n: usize) -> Self {
                if f == 0 { Pow::pow(a, n) } else { Pow::pow(own.unwrap_or_else(|| a.clone()), n) }
            }
            fn sq(&self) -> Self { self.square() }
            fn divrem(&mut self, b: &Self) -> Result<Self, String> {
                self.div_assign_big(b).map_err(|e| format!("{:?}", e))
            }
            fn remas(&mut self, b: &Self) -> Result<(), String> {
                self.rem_assign_big(b).map_err(|e| format!("{:?}", e))
            }
            fn show(&self, k: u8, f: &Fmt) -> String { imp!(@show $hex, self, k, f) }
        }
    };
    (@show hex, $s:expr, $k:expr, $f:expr) => {
        match $k {
            0 => show_dec($s, $f),
            1 => show_hex($s, $f),
            _ => show_uhex($s, $f),
        }
    };
    (@show dec, $s:expr, $k:expr, $f:expr) => {{ let _ = $k; show_dec($s, $f) }};
}

imp!(UBigBin8, BinaryDigit, u8, hex);
imp!(UBigBin16, BinaryDigit, u16, hex);
imp!(UBigBin32, BinaryDigit, u32, hex);
imp!(UBigBin64, BinaryDigit, u64, hex);
imp!(UBigDec8, DecimalDigit, u8, dec);
imp!(UBigDec16, DecimalDigit, u16, dec);
imp!(UBigDec32, DecimalDigit, u32, dec);
imp!(UBigDec64, DecimalDigit, u64, dec);

/// A number of any of the types
#[derive(Clone, PartialEq)]
pub enum Any {
    B8(UBigBin8), B16(UBigBin16), B32(UBigBin32), B64(UBigBin64),
    D8(UBigDec8), D16(UBigDec16), D32(UBigDec32), D64(UBigDec64),
}
use Any::*;

/// Evaluate $e with $x bound to the number inside
#[macro_export]
macro_rules! each {
    ($any:expr, $x:ident => $e:expr) => {
        match $any {
            Any::B8($x) => $e, Any::B16($x) => $e, Any::B32($x) => $e, Any::B64($x) => $e,
            Any::D8($x) => $e, Any::D16($x) => $e, Any::D32($x) => $e, Any::D64($x) => $e,
        }
    };
}
/// The same, wrapping the result in the same variant
macro_rules! map {
    ($any:expr, $x:ident : $U:ident => $e:expr) => {
        match $any {
            B8($x) => { type $U = UBigBin8; B8($e) }
            B16($x) => { type $U = UBigBin16; B16($e) }
            B32($x) => { type $U = UBigBin32; B32($e) }
            B64($x) => { type $U = UBigBin64; B64($e) }
            D8($x) => { type $U = UBigDec8; D8($e) }
            D16($x) => { type $U = UBigDec16; D16($e) }
            D32($x) => { type $U = UBigDec32; D32($e) }
            D64($x) => { type $U = UBigDec64; D64($e) }
        }
    };
}
macro_rules! make {
    ($t:expr, $U:ident => $e:expr) => {
        match $t {
            0 => { type $U = UBigBin8; B8($e) }
            1 => { type $U = UBigBin16; B16($e) }
            2 => { type $U = UBigBin32; B32($e) }
            3 => { type $U = UBigBin64; B64($e) }
            4 => { type $U = UBigDec8; D8($e) }
            5 => { type $U = UBigDec16; D16($e) }
            6 => { type $U = UBigDec32; D32($e) }
            _ => { type $U = UBigDec64; D64($e) }
        }
    };
}
macro_rules! pair {
    ($a:expr, $b:expr, $x:ident, $y:ident => $e:expr) => {
        match ($a, $b) {
            (B8($x), B8($y)) => $e, (B16($x), B16($y)) => $e, (B32($x), B32($y)) => $e, (B64($x), B64($y)) => $e,
            (D8($x), D8($y)) => $e, (D16($x), D16($y)) => $e, (D32($x), D32($y)) => $e, (D64($x), D64($y)) => $e,
            _ => unreachable!("types differ"),
        }
    };
}
/// Two numbers of a type, and either of them as an owned value where there is one
macro_rules! pair_map {
    ($a:expr, $b:expr, $own:expr, $ownb:expr, $x:ident, $y:ident, $o:ident, $p:ident : $U:ident => $e:expr) => {
        match ($a, $b) {
            (B8($x), B8($y)) => { type $U = UBigBin8; let $o = match $own { Some(B8(o)) => Some(o), _ => None }; let $p = match $ownb { Some(B8(o)) => Some(o), _ => None }; B8($e) }
            (B16($x), B16($y)) => { type $U = UBigBin16; let $o = match $own { Some(B16(o)) => Some(o), _ => None }; let $p = match $ownb { Some(B16(o)) => Some(o), _ => None }; B16($e) }
            (B32($x), B32($y)) => { type $U = UBigBin32; let $o = match $own { Some(B32(o)) => Some(o), _ => None }; let $p = match $ownb { Some(B32(o)) => Some(o), _ => None }; B32($e) }
            (B64($x), B64($y)) => { type $U = UBigBin64; let $o = match $own { Some(B64(o)) => Some(o), _ => None }; let $p = match $ownb { Some(B64(o)) => Some(o), _ => None }; B64($e) }
            (D8($x), D8($y)) => { type $U = UBigDec8; let $o = match $own { Some(D8(o)) => Some(o), _ => None }; let $p = match $ownb { Some(D8(o)) => Some(o), _ => None }; D8($e) }
            (D16($x), D16($y)) => { type $U = UBigDec16; let $o = match $own { Some(D16(o)) => Some(o), _ => None }; let $p = match $ownb { Some(D16(o)) => Some(o), _ => None }; D16($e) }
            (D32($x), D32($y)) => { type $U = UBigDec32; let $o = match $own { Some(D32(o)) => Some(o), _ => None }; let $p = match $ownb { Some(D32(o)) => Some(o), _ => None }; D32($e) }
            (D64($x), D64($y)) => { type $U = UBigDec64; let $o = match $own { Some(D64(o)) => Some(o), _ => None }; let $p = match $ownb { Some(D64(o)) => Some(o), _ => None }; D64($e) }
            _ => unreachable!("types differ"),
        }
    };
}

impl Any {
    pub fn ty(&self) -> u8 {
        match self { B8(_) => 0, B16(_) => 1, B32(_) => 2, B64(_) => 3, D8(_) => 4, D16(_) => 5, D32(_) => 6, D64(_) => 7 }
    }
    pub fn from_raw(t: u8, x: &[u8], room: usize) -> Any { make!(t, U => U::from_raw(x, room)) }
    pub fn from_int(t: u8, n: u64) -> Any { make!(t, U => U::from_int(n)) }
    pub fn zero(t: u8) -> Any { make!(t, U => U::nzero()) }
    pub fn one(t: u8) -> Any { make!(t, U => U::none()) }
    pub fn parse(t: u8, s: &str) -> Result<Any, String> { Ok(make!(t, U => U::parse(s)?)) }
    pub fn set_const(&mut self, n: u8) { each!(self, x => x.set_const(n)) }
    pub fn raw(&self) -> Vec<u8> { each!(self, x => x.raw()) }
    pub fn inspect(&self) -> [i64; 3] { each!(self, x => x.inspect()) }
    pub fn big(op: u8, f: u8, a: &Any, own: Option<Any>, b: &Any, ownb: Option<Any>) -> Any {
        pair_map!(a, b, own, ownb, x, y, o, p : U => <U as Num>::big(op, f, x, o, y, p))
    }
    pub fn short(op: u8, f: u8, dig: bool, a: &Any, own: Option<Any>, n: u64) -> Any {
        pair_map!(a, a, own, None::<Any>, x, _y, o, _p : U => <U as Num>::short(op, f, dig, x, o, n))
    }
    pub fn shl(f: u8, a: &Any, own: Option<Any>, n: usize) -> Any { pair_map!(a, a, own, None::<Any>, x, _y, o, _p : U => <U as Num>::shl(f, x, o, n)) }
    pub fn shr(f: u8, a: &Any, own: Option<Any>, n: usize) -> Any { pair_map!(a, a, own, None::<Any>, x, _y, o, _p : U => <U as Num>::shr(f, x, o, n)) }
    pub fn power(f: u8, a: &Any, own: Option<Any>, n: usize) -> Any { pair_map!(a, a, own, None::<Any>, x, _y, o, _p : U => <U as Num>::power(f, x, o, n)) }
    pub fn sq(&self) -> Any { map!(self, x : U => U::sq(x)) }
    pub fn divrem(&mut self, b: &Any) -> Result<Any, String> {
        Ok(match (self, b) {
            (B8(x), B8(y)) => B8(x.divrem(y)?), (B16(x), B16(y)) => B16(x.divrem(y)?),
            (B32(x), B32(y)) => B32(x.divrem(y)?), (B64(x), B64(y)) => B64(x.divrem(y)?),
            (D8(x), D8(y)) => D8(x.divrem(y)?), (D16(x), D16(y)) => D16(x.divrem(y)?),
            (D32(x), D32(y)) => D32(x.divrem(y)?), (D64(x), D64(y)) => D64(x.divrem(y)?),
            _ => unreachable!("types differ"),
        })
    }
    pub fn remas(&mut self, b: &Any) -> Result<(), String> { pair!(self, b, x, y => x.remas(y)) }
    pub fn to_decimal(&self) -> Any {
        match self {
            B8(x) => D8(x.to_decimal()), B16(x) => D16(x.to_decimal()),
            B32(x) => D32(x.to_decimal()), B64(x) => D64(x.to_decimal()),
            _ => unreachable!("already decimal"),
        }
    }
    pub fn order(&self, b: &Any) -> Vec<i64> {
        use std::cmp::Ordering as O;
        let n = |o: O| match o { O::Less => -1, O::Equal => 0, O::Greater => 1 };
        #[allow(clippy::nonminimal_bool)]
        { pair!(self, b, x, y => vec![n(x.cmp(y)), x.partial_cmp(y).map_or(9, n), (x == y) as i64, (x != y) as i64,
            (x < y) as i64, (x <= y) as i64, (x > y) as i64, (x >= y) as i64]) }
    }
    /// Of two numbers the larger (which 0) or the smaller one, passed by value
    pub fn max_min(which: u8, a: &Any, own: Option<Any>, b: &Any, ownb: Option<Any>) -> Any {
        pair_map!(a, b, own, ownb, x, y, o, p : U => {
            let (x, y) = (o.unwrap_or_else(|| x.clone()), p.unwrap_or_else(|| y.clone()));
            if which == 0 { <U as Num>::max_of(x, y) } else { <U as Num>::min_of(x, y) }
        })
    }
    /// self = other, by clone_from; the types must be the same
    pub fn copy_from(&mut self, other: &Any) { pair!(self, other, x, y => Clone::clone_from(x, y)) }
    pub fn show(&self, k: u8, f: &Fmt) -> String { each!(self, x => x.show(k, f)) }
}

/// How a machine integer divides over decimal digits
pub fn split(t: u8, n: u64) -> String {
    macro_rules! go { ($S:ty) => {{
        let s = n as $S;
        let (h, l) = DecimalDigit::<$S>::split(s);
        format!("{},{},{}", DecimalDigit::<$S>::fits_single(s) as u8, h.0, l.0)
    }} }
    match t { 4 => go!(u8), 5 => go!(u16), 6 => go!(u32), _ => go!(u64) }
}
