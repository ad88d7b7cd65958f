//! Run-time library of the symbolic execution engine.
//!
//! This crate is *not* instrumented.  Every other crate of the harness binary (the harness
//! itself, numopt and numopt's dependencies) is compiled to LLVM IR, and `engine/symlink.py`
//! replaces each floating-point instruction by a call to one of the `__sym_*` functions below.
//! A symbolic double is NaN-boxed: its upper 16 bits are `TAG`, its lower 32 bits name a term.
//! Terms, branch conditions, assumptions and assertions are streamed to the Python driver, which
//! owns the SMT solver and answers branch questions.
//!
//! The same crate, linked into an uninstrumented build of the harness, replays a concrete model.

use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::fmt;
use std::fmt::Write as _;

pub const TAG: u64 = 0xFFFD;

#[inline(never)]
pub fn sym_id(x: f64) -> Option<u32> {
    let b = x.to_bits();
    if b >> 48 == TAG { Some(b as u32) } else { None }
}
#[inline(always)]
fn boxed(id: u32) -> f64 { f64::from_bits((TAG << 48) | id as u64) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Native, Sym }

struct St {
    mode: Mode,
    fp: bool,
    out: String,
    next: u32,
    dedup: Vec<(u64, u32)>,          // open addressing: hash key -> id
    consts: Vec<(u64, u32)>,         // bits -> term id
    prefix: Vec<i64>,
    pos: usize,
    inbuf: Vec<u8>,
    // native
    inputs: Vec<(String, f64)>,
    choices: Vec<usize>,
    cpos: usize,
    names: Vec<(String, u32)>,
    violated: Vec<String>,
    checks: usize,
    quiet: bool,
    alarm: u32,
    fmts: u32,
    sharp: Option<f64>,
}

struct Global(UnsafeCell<Option<Box<St>>>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(None));
fn st() -> &'static mut St { unsafe { (*G.0.get()).as_mut().expect("symrt not initialised") } }
pub fn active() -> bool { unsafe { (*G.0.get()).is_some() } }

const WFD: i32 = 198;
const RFD: i32 = 199;
const DEDUP: usize = 1 << 18;

// ---------------------------------------------------------------- I/O

fn flush() {
    let s = st();
    let b = s.out.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(WFD, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 { unsafe { libc::_exit(97) } }
        o += n as usize;
    }
    s.out.clear();
}

fn read_line() -> String {
    let s = st();
    loop {
        if let Some(p) = s.inbuf.iter().position(|c| *c == b'\n') {
            let l = String::from_utf8_lossy(&s.inbuf[..p]).to_string();
            s.inbuf.drain(..=p);
            return l;
        }
        let mut buf = [0u8; 4096];
        let n = unsafe { libc::read(RFD, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 { unsafe { libc::_exit(0) } }
        s.inbuf.extend_from_slice(&buf[..n as usize]);
    }
}

macro_rules! ev { ($($a:tt)*) => {{ let _ = write!(st().out, $($a)*); st().out.push('\n'); }} }

/// Ends the path.
pub fn end(status: &str, msg: &str) -> ! {
    if mode() == Mode::Sym {
        let s = st();
        s.out.push('X');
        for k in unsafe { (*std::ptr::addr_of!(COV)).iter() } {
            if *k != 0 { let _ = write!(s.out, " {}", k); }
        }
        s.out.push('\n');
        ev!("E {} {}", status, msg.replace('\n', " "));
        flush();
        unsafe { libc::_exit(0) }
    }
    finish_native(status, msg)
}

pub fn mode() -> Mode { if active() { st().mode } else { Mode::Native } }
pub fn is_sym() -> bool { mode() == Mode::Sym }
pub fn is_fp() -> bool { st().fp }

fn decide_raw() -> Option<i64> {
    let s = st();
    if s.pos < s.prefix.len() {
        s.pos += 1;
        return Some(s.prefix[s.pos - 1]);
    }
    None
}
fn ask() -> i64 {
    flush();
    // the solver's time does not count
    unsafe { libc::alarm(0); }
    let l = read_line();
    unsafe { libc::alarm(st().alarm); }
    if l == "stop" {
        unsafe { libc::_exit(0) }
    }
    if l == "ok" { return 1; }
    l.trim().parse().unwrap_or_else(|_| unsafe { libc::_exit(98) })
}

// ---------------------------------------------------------------- terms

fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut h = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F) ^ c.wrapping_mul(0x165667B19E3779F9);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    h ^ (h >> 32)
}

fn intern(op: u64, a: u64, b: u64) -> (u32, bool) {
    let s = st();
    // exact key kept by packing: ops < 64, ids < 2^29
    let key = (op << 58) | (a << 29) | b;
    let mut i = (mix(op, a, b) as usize) & (DEDUP - 1);
    loop {
        if s.dedup[i].1 == 0 {
            s.next += 1;
            s.dedup[i] = (key, s.next);
            return (s.next, true);
        }
        if s.dedup[i].0 == key { return (s.dedup[i].1, false); }
        i = (i + 1) & (DEDUP - 1);
    }
}

fn term_of(x: f64) -> u32 {
    if let Some(i) = sym_id(x) { return i; }
    let bits = x.to_bits();
    let s = st();
    for (b, i) in s.consts.iter() { if *b == bits { return *i; } }
    s.next += 1;
    let id = s.next;
    s.consts.push((bits, id));
    ev!("k {} {:x}", id, bits);
    id
}

const OPS: [&str; 17] = ["add", "sub", "mul", "div", "neg", "sin", "cos", "abs", "max", "min", "sqrt", "f32", "floor", "ceil", "trunc", "round", "rint"];
const ADD: u64 = 0; const SUB: u64 = 1; const MUL: u64 = 2; const DIV: u64 = 3; const NEG: u64 = 4; const SIN: u64 = 5;
const COS: u64 = 6; const ABS: u64 = 7; const MAX: u64 = 8; const MIN: u64 = 9; const SQRT: u64 = 10; const F32: u64 = 11;
const FLOOR: u64 = 12; const CEIL: u64 = 13; const TRUNC: u64 = 14; const ROUND: u64 = 15; const RINT: u64 = 16;

fn mk(op: u64, a: f64, b: f64) -> f64 {
    let ta = term_of(a);
    let tb = term_of(b);
    let (id, new) = intern(op, ta as u64, tb as u64);
    if new { ev!("t {} {} {} {}", id, OPS[op as usize], ta, tb); }
    boxed(id)
}
fn mk1(op: u64, a: f64) -> f64 {
    let ta = term_of(a);
    let (id, new) = intern(op, ta as u64, 0);
    if new { ev!("t {} {} {}", id, OPS[op as usize], ta); }
    boxed(id)
}

fn unsupported(what: &str) -> ! { end("unsupported", what) }

#[inline(always)]
fn both_conc(a: f64, b: f64) -> bool { sym_id(a).is_none() && sym_id(b).is_none() }

#[no_mangle] pub extern "C" fn __sym_fadd(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a + b; }
    if !is_fp() {
        if sym_id(a).is_none() && !a.is_finite() { return a; }
        if sym_id(b).is_none() && !b.is_finite() { return b; }
        if sym_id(a).is_none() && a == 0. { return b; }
        if sym_id(b).is_none() && b == 0. { return a; }
    }
    mk(ADD, a, b)
}
#[no_mangle] pub extern "C" fn __sym_fsub(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a - b; }
    if !is_fp() {
        if sym_id(a).is_none() && !a.is_finite() { return a; }
        if sym_id(b).is_none() && !b.is_finite() { return -b; }
    }
    mk(SUB, a, b)
}
fn sign_of(x: f64) -> i32 {
    // real mode: sign of a (possibly symbolic) finite value, by branching
    if __sym_fcmp(1, x, 0.) { 0 } else if __sym_fcmp(4, x, 0.) { -1 } else { 1 }
}
#[no_mangle] pub extern "C" fn __sym_fmul(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a * b; }
    if !is_fp() {
        for (c, s) in [(a, b), (b, a)] {
            if sym_id(c).is_none() {
                if c.is_nan() { return c; }
                if c.is_infinite() { return match sign_of(s) { 0 => f64::NAN, 1 => c, _ => -c }; }
                if c == 0. { return 0.; }
            }
        }
    }
    mk(MUL, a, b)
}
#[no_mangle] pub extern "C" fn __sym_fdiv(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a / b; }
    if !is_fp() {
        if sym_id(b).is_none() {
            if b.is_nan() { return b; }
            if b.is_infinite() { return 0.; }
            if b == 0. { return match sign_of(a) { 0 => f64::NAN, s => (s as f64) / b }; }
        } else {
            if sym_id(a).is_none() && a.is_nan() { return a; }
            if __sym_fcmp(1, b, 0.) {
                // zero denominator (the sign of the zero is not tracked: taken as +0)
                return match sign_of(a) { 0 => f64::NAN, s => (s as f64) / 0. };
            }
            if sym_id(a).is_none() && a.is_infinite() { return if sign_of(b) < 0 { -a } else { a }; }
            if sym_id(a).is_none() && a == 0. { return 0.; }
        }
    }
    mk(DIV, a, b)
}
#[no_mangle] pub extern "C" fn __sym_frem(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a % b; }
    unsupported("frem")
}
#[no_mangle] pub extern "C" fn __sym_fneg(a: f64) -> f64 {
    if sym_id(a).is_none() { return -a; }
    mk1(NEG, a)
}
#[no_mangle] pub extern "C" fn __sym_sin(a: f64) -> f64 {
    if sym_id(a).is_none() { return a.sin(); }
    mk1(SIN, a)
}
#[no_mangle] pub extern "C" fn __sym_cos(a: f64) -> f64 {
    if sym_id(a).is_none() { return a.cos(); }
    mk1(COS, a)
}
#[no_mangle] pub extern "C" fn __sym_fabs(a: f64) -> f64 {
    if sym_id(a).is_none() { return a.abs(); }
    if is_fp() { return mk1(ABS, a); }
    if __sym_fcmp(4, a, 0.) { mk1(NEG, a) } else { a }
}
#[no_mangle] pub extern "C" fn __sym_max(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a.max(b); }
    if is_fp() { return mk(MAX, a, b); }
    if sym_id(a).is_none() && a.is_nan() { return b; }
    if sym_id(b).is_none() && b.is_nan() { return a; }
    if __sym_fcmp(4, a, b) { b } else { a }
}
#[no_mangle] pub extern "C" fn __sym_min(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a.min(b); }
    if is_fp() { return mk(MIN, a, b); }
    if sym_id(a).is_none() && a.is_nan() { return b; }
    if sym_id(b).is_none() && b.is_nan() { return a; }
    if __sym_fcmp(4, b, a) { b } else { a }
}
/// NaN-propagating maximum/minimum (llvm.maximum / llvm.minimum).
#[no_mangle] pub extern "C" fn __sym_maximum(a: f64, b: f64) -> f64 {
    if __sym_fcmp(8, a, b) { return f64::NAN; }
    __sym_max(a, b)
}
#[no_mangle] pub extern "C" fn __sym_minimum(a: f64, b: f64) -> f64 {
    if __sym_fcmp(8, a, b) { return f64::NAN; }
    __sym_min(a, b)
}
#[no_mangle] pub extern "C" fn __sym_fma(a: f64, b: f64, c: f64) -> f64 {
    if both_conc(a, b) && sym_id(c).is_none() { return a.mul_add(b, c); }
    if is_fp() { unsupported("fma") }
    __sym_fadd(__sym_fmul(a, b), c)
}
#[no_mangle] pub extern "C" fn __sym_powi(a: f64, n: i32) -> f64 {
    if sym_id(a).is_none() { return a.powi(n); }
    if n.abs() > 8 { unsupported("powi") }
    let mut r = 1.0;
    for _ in 0..n.abs() { r = __sym_fmul(r, a); }
    if n < 0 { __sym_fdiv(1.0, r) } else { r }
}
#[no_mangle] pub extern "C" fn __sym_sqrt(a: f64) -> f64 {
    if sym_id(a).is_none() { return a.sqrt(); }
    if !is_fp() && __sym_fcmp(4, a, 0.) { return f64::NAN; }
    mk1(SQRT, a)
}
#[no_mangle] pub extern "C" fn __sym_floor(a: f64) -> f64 { if sym_id(a).is_none() { a.floor() } else { mk1(FLOOR, a) } }
#[no_mangle] pub extern "C" fn __sym_ceil(a: f64) -> f64 { if sym_id(a).is_none() { a.ceil() } else { mk1(CEIL, a) } }
#[no_mangle] pub extern "C" fn __sym_trunc(a: f64) -> f64 { if sym_id(a).is_none() { a.trunc() } else { mk1(TRUNC, a) } }
#[no_mangle] pub extern "C" fn __sym_round(a: f64) -> f64 { if sym_id(a).is_none() { a.round() } else { mk1(ROUND, a) } }
#[no_mangle] pub extern "C" fn __sym_rint(a: f64) -> f64 { if sym_id(a).is_none() { a.round_ties_even() } else { mk1(RINT, a) } }

/// A symbolic single: a NaN that carries the number of its (already rounded) term.
#[no_mangle] pub extern "C" fn __sym_fptrunc(a: f64) -> f32 {
    if sym_id(a).is_none() { return a as f32; }
    let r = mk1(F32, a);
    let id = sym_id(r).unwrap();
    if id >= 1 << 22 { unsupported("too many terms for a single") }
    f32::from_bits(0x7FC0_0000 | id)
}
#[no_mangle] pub extern "C" fn __sym_fpext(a: f32) -> f64 {
    let b = a.to_bits();
    if b >> 22 == 0x1FF && b & 0x3F_FFFF != 0 { return boxed(b & 0x3F_FFFF); }
    a as f64
}
#[no_mangle] pub extern "C" fn __sym_concretef(a: f32) {
    let b = a.to_bits();
    if b >> 22 == 0x1FF && b & 0x3F_FFFF != 0 { unsupported("symbolic single in an operation that is not modelled") }
}

/// The driver picks a concrete value: exactly the operand's, or its integer part.
fn pick(a: f64, kind: char) -> f64 {
    let t = sym_id(a).unwrap();
    ev!("V {} {}", t, kind);
    let d = match decide_raw() { Some(d) => d, None => ask() };
    f64::from_bits(d as u64)
}
/// A concrete number with the operand's integer part, for conversions to integers.
#[no_mangle] pub extern "C" fn __sym_int(a: f64) -> f64 {
    if sym_id(a).is_none() { return a; }
    if st().quiet { unsupported("conversion inside a specification formula") }
    let r = pick(a, 't');
    if r.is_nan() { assume(&isnan(a)); return r; }
    if r.is_infinite() || r + 1. == r || r - 1. == r { assume(&eq(a, r)); }
    else if r == 0. { assume(&and(&lt(-1., a), &lt(a, 1.))); }
    else if r > 0. { assume(&and(&le(r, a), &lt(a, r + 1.))); }
    else { assume(&and(&lt(r - 1., a), &le(a, r))); }
    r
}
#[no_mangle] pub extern "C" fn __sym_copysign(a: f64, b: f64) -> f64 {
    if both_conc(a, b) { return a.copysign(b); }
    let m = __sym_fabs(a);
    let neg = __sym_signbit(b);
    if neg { __sym_fneg(m) } else { m }
}
/// Sign bit of a value (the sign of a zero is taken as positive when symbolic).
#[no_mangle] pub extern "C" fn __sym_signbit(a: f64) -> bool {
    if sym_id(a).is_none() { return a.is_sign_negative(); }
    __sym_fcmp(4, a, 0.)
}
#[no_mangle] pub extern "C" fn __sym_signpos(a: f64) -> bool { !__sym_signbit(a) }
#[no_mangle] pub extern "C" fn __sym_signum(a: f64) -> f64 {
    if sym_id(a).is_none() { return a.signum(); }
    if __sym_fcmp(8, a, a) { return f64::NAN; }
    if __sym_signbit(a) { -1. } else { 1. }
}
#[no_mangle] pub extern "C" fn __sym_bits(a: f64) -> u64 {
    if sym_id(a).is_none() { return a.to_bits(); }
    let r = pick(a, 'x');
    if r.is_nan() { assume(&isnan(a)); } else { assume(&eq(a, r)); }
    r.to_bits()
}
#[no_mangle] pub extern "C" fn __sym_concrete(a: f64) {
    if sym_id(a).is_some() { unsupported("symbolic value in an operation that is not modelled") }
}
#[no_mangle] pub extern "C" fn __sym_trap() { if active() && is_sym() { unsupported("vector floating-point instruction") } }
#[no_mangle] pub extern "C" fn __sym_total_cmp(a: &f64, b: &f64) -> i8 {
    let (a, b) = (*a, *b);
    if both_conc(a, b) { return a.total_cmp(&b) as i8; }
    if is_fp() { unsupported("total_cmp") }
    if __sym_fcmp(4, a, b) { -1 } else if __sym_fcmp(1, a, b) { 0 } else { 1 }
}

static mut COV: [u32; 2048] = [0; 2048];
/// Marks a numopt function as executed (for the evidence).
#[no_mangle] pub extern "C" fn __sym_cov(i: i32) {
    let mut k = i as usize & 2047;
    unsafe {
        for _ in 0..2048 {
            if COV[k] == i as u32 { return; }
            if COV[k] == 0 { COV[k] = i as u32; return; }
            k = (k + 1) & 2047;
        }
    }
}

// LLVM fcmp predicate numbers
fn fcmp_conc(p: i32, a: f64, b: f64) -> bool {
    let un = a.is_nan() || b.is_nan();
    let (eq, gt, lt) = (a == b, a > b, a < b);
    (p & 1 != 0 && eq) || (p & 2 != 0 && gt) || (p & 4 != 0 && lt) || (p & 8 != 0 && un)
}

/// fcmp: predicate bits are 1 = equal, 2 = greater, 4 = less, 8 = unordered.
#[no_mangle] pub extern "C" fn __sym_fcmp(p: i32, a: f64, b: f64) -> bool {
    if both_conc(a, b) { return fcmp_conc(p, a, b); }
    if p == 0 { return false; }
    if p == 15 { return true; }
    let mut p = p;
    if !is_fp() {
        for (c, flip) in [(a, false), (b, true)] {
            if sym_id(c).is_none() && !c.is_finite() {
                if c.is_nan() { return p & 8 != 0; }
                let gt = (c > 0.) != flip;
                return if gt { p & 2 != 0 } else { p & 4 != 0 };
            }
        }
        p &= 7;
        if p == 7 { return true; }
        if p == 0 { return false; }
        if a.to_bits() == b.to_bits() { return p & 1 != 0; }
    }
    let ta = term_of(a);
    let tb = term_of(b);
    if st().quiet { unsupported("branch inside a specification formula") }
    ev!("B {} {} {}", p, ta, tb);
    let d = match decide_raw() { Some(d) => d, None => ask() };
    d != 0
}

// ---------------------------------------------------------------- formatting and parsing

fn placeholder(x: f64, kind: char, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let id = sym_id(x).unwrap();
    // a width only pads: taken as not wider than the number
    let plus = if f.sign_plus() { "+" } else { "" };
    match f.precision() {
        Some(p) => write!(f, "{}@{}{}p{}@", plus, kind, id, p),
        None => write!(f, "{}@{}{}@", plus, kind, id),
    }
}

#[no_mangle] pub fn __sym_fmt_display(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if sym_id(*x).is_some() { placeholder(*x, 'd', f) } else { fmt::Display::fmt(x, f) }
}
#[no_mangle] pub fn __sym_fmt_debug(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if sym_id(*x).is_some() { placeholder(*x, 'd', f) } else { fmt::Debug::fmt(x, f) }
}
#[no_mangle] pub fn __sym_fmt_lowerexp(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if sym_id(*x).is_some() { placeholder(*x, 'e', f) } else { fmt::LowerExp::fmt(x, f) }
}
#[no_mangle] pub fn __sym_fmt_upperexp(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if sym_id(*x).is_some() { placeholder(*x, 'e', f) } else { fmt::UpperExp::fmt(x, f) }
}

/// Parses a number; placeholders give back the symbolic value.  With a precision, the value read
/// is the formatted one up to the rounding that precision allows (a fresh symbolic value).
#[no_mangle] pub fn __sym_parse(s: &str) -> Result<f64, std::num::ParseFloatError> {
    match parse_token(s) { Some(v) => Ok(v), None => s.parse::<f64>() }
}

pub fn parse_token(s: &str) -> Option<f64> {
    if !is_sym() { return None; }
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    let t = t.strip_prefix('@')?.strip_suffix('@')?;
    let kind = t.chars().next()?;
    let t = &t[1..];
    let (id, prec) = match t.find('p') { Some(i) => (&t[..i], Some(t[i+1..].parse::<i32>().ok()?)), None => (t, None) };
    let v = boxed(id.parse().ok()?);
    let v = match prec {
        None => v,
        Some(p) => rounded(v, kind, p),
    };
    Some(if neg { __sym_fneg(v) } else { v })
}

fn rounded(v: f64, kind: char, p: i32) -> f64 {
    st().fmts += 1;
    let name = format!("round{}", st().fmts);
    let e = real(&name);
    let h = 0.5 * 10f64.powi(-p);
    assume(&and(&le(-h, e), &le(e, h)));
    if kind == 'e' { __sym_fadd(v, __sym_fmul(v, e)) } else { __sym_fadd(v, e) }
}

/// Text of a (possibly symbolic) value, exact when read back.
pub fn text(x: f64) -> String {
    match sym_id(x) { Some(id) => format!("@d{}@", id), None => format!("{:?}", x) }
}

// ---------------------------------------------------------------- formulas

/// A formula.  Concretely it is three-valued: `loose` may hold within tolerance, `strict` holds
/// with certainty, `exact` is the plain truth value.
#[derive(Clone, Copy, Debug)]
pub struct B { id: u32, exact: bool, loose: bool, strict: bool }

fn bnat(exact: bool) -> B { B { id: 0, exact, loose: exact, strict: exact } }
pub fn truth(b: bool) -> B {
    if !is_sym() { return bnat(b); }
    let (id, new) = intern(40, b as u64, 0);
    if new { ev!("f {} {}", id, if b { "true" } else { "false" }); }
    B { id, exact: b, loose: b, strict: b }
}
fn tol(a: f64, b: f64) -> f64 {
    // sharp: for models on which the two sides are known to differ as real numbers
    if st().fp { 0. } else if let Some(t) = st().sharp { t * a.abs().max(b.abs()) } else { 1e-7 * (1. + a.abs().max(b.abs())) }
}
fn cmpf(p: i32, a: f64, b: f64) -> B {
    if !is_sym() {
        let exact = fcmp_conc(p, a, b);
        if !(a.is_finite() && b.is_finite()) { return bnat(exact); }
        let t = tol(a, b);
        let close = (a - b).abs() <= t;
        let has_eq = p & 1 != 0;
        // loose: true if some perturbation within t makes it true
        let loose = exact || close;
        let strict = exact && (!close || (has_eq && a == b && p == 7));
        let strict = if t == 0. { exact } else { strict };
        let loose = if t == 0. { exact } else { loose };
        return B { id: 0, exact, loose, strict };
    }
    if both_conc(a, b) { return truth(fcmp_conc(p, a, b)); }
    if !is_fp() {
        for (c, flip) in [(a, false), (b, true)] {
            if sym_id(c).is_none() && !c.is_finite() {
                if c.is_nan() { return truth(p & 8 != 0); }
                let gt = (c > 0.) != flip;
                return truth(if gt { p & 2 != 0 } else { p & 4 != 0 });
            }
        }
    }
    let (ta, tb) = (term_of(a), term_of(b));
    let (id, new) = intern(41 + p as u64, ta as u64, tb as u64);
    if new { ev!("f {} cmp {} {} {}", id, p, ta, tb); }
    B { id, exact: false, loose: false, strict: false }
}
pub fn eq(a: f64, b: f64) -> B { cmpf(1, a, b) }
pub fn ne(a: f64, b: f64) -> B { not(&eq(a, b)) }
/// Nonzero, as a domain restriction: concretely, clearly nonzero.
pub fn nonzero(a: f64) -> B {
    if is_sym() { return ne(a, 0.); }
    let b = a != 0. && (st().fp || (a.is_finite() && (st().sharp.is_some() || a.abs() > 1e-6)));
    bnat(b)
}
pub fn lt(a: f64, b: f64) -> B { cmpf(4, a, b) }
pub fn le(a: f64, b: f64) -> B { cmpf(5, a, b) }
pub fn isnan(a: f64) -> B { cmpf(8, a, a) }
/// Same value: equal, or both NaN, or the same infinity.
pub fn same(a: f64, b: f64) -> B {
    if !is_sym() {
        if a.is_nan() || b.is_nan() { return bnat(a.is_nan() && b.is_nan()); }
        return eq(a, b);
    }
    if is_fp() { or(&eq(a, b), &and(&isnan(a), &isnan(b))) }
    else {
        if sym_id(a).is_none() && sym_id(b).is_none() { return truth(a == b || (a.is_nan() && b.is_nan())); }
        eq(a, b)
    }
}
pub fn not(a: &B) -> B {
    let mut r = B { id: 0, exact: !a.exact, loose: !a.strict, strict: !a.loose };
    if is_sym() {
        let (id, new) = intern(60, a.id as u64, 0);
        if new { ev!("f {} not {}", id, a.id); }
        r.id = id;
    }
    r
}
pub fn and(a: &B, b: &B) -> B {
    let mut r = B { id: 0, exact: a.exact && b.exact, loose: a.loose && b.loose, strict: a.strict && b.strict };
    if is_sym() {
        let (id, new) = intern(61, a.id as u64, b.id as u64);
        if new { ev!("f {} and {} {}", id, a.id, b.id); }
        r.id = id;
    }
    r
}
pub fn or(a: &B, b: &B) -> B {
    let mut r = B { id: 0, exact: a.exact || b.exact, loose: a.loose || b.loose, strict: a.strict || b.strict };
    if is_sym() {
        let (id, new) = intern(62, a.id as u64, b.id as u64);
        if new { ev!("f {} or {} {}", id, a.id, b.id); }
        r.id = id;
    }
    r
}
pub fn implies(a: &B, b: &B) -> B { or(&not(a), b) }
pub fn iff(a: &B, b: &B) -> B { and(&implies(a, b), &implies(b, a)) }
pub fn all(v: &[B]) -> B { v.iter().fold(truth(true), |a, b| and(&a, b)) }
pub fn any_of(v: &[B]) -> B { v.iter().fold(truth(false), |a, b| or(&a, b)) }

// ---------------------------------------------------------------- harness interface

fn unique(name: &str) -> String {
    let s = st();
    for (n, k) in s.names.iter_mut() {
        if n == name { *k += 1; return format!("{}#{}", name, k); }
    }
    s.names.push((name.to_string(), 1));
    name.to_string()
}

fn input(name: &str, kind: &str) -> f64 {
    let n = unique(name);
    let s = st();
    if s.mode == Mode::Sym {
        s.next += 1;
        let id = s.next;
        ev!("i {} {} {}", id, n, kind);
        boxed(id)
    } else {
        for (k, v) in s.inputs.iter() { if *k == n { return *v; } }
        0.0
    }
}
/// A finite value (a real number in real mode, a finite double in fp mode).
pub fn real(name: &str) -> f64 { input(name, "real") }
/// Any double, including infinities and NaN (fp mode only).
pub fn any(name: &str) -> f64 { input(name, "any") }

/// Nondeterministic choice among 0..n.
pub fn choose(name: &str, n: usize) -> usize {
    assert!(n > 0);
    let s = st();
    if n == 1 { return 0; }
    if s.mode == Mode::Sym {
        ev!("C {} {}", n, name);
        match decide_raw() { Some(d) => d as usize, None => ask() as usize }
    } else {
        let r = if s.cpos < s.choices.len() { s.choices[s.cpos] } else { 0 };
        s.cpos += 1;
        if r >= n { finish_native("diverged", "choice out of range") }
        r
    }
}
pub fn flag(name: &str) -> bool { choose(name, 2) == 1 }

pub fn assume(b: &B) {
    if is_sym() {
        ev!("A {}", b.id);
        // assumptions inside the replayed prefix are known to be satisfiable
        if st().pos >= st().prefix.len() { ask(); }
    } else if !b.loose {
        finish_native("assume", "assumption does not hold")
    }
}
/// Cuts the path (it is outside the property's domain).
pub fn discard(why: &str) -> ! { end("discard", why) }

pub fn prove(label: &str, b: &B) {
    let s = st();
    s.checks += 1;
    if s.mode == Mode::Sym {
        ev!("P {} {}", b.id, label.replace(' ', "_"));
        // assertions inside the prefix were discharged when the prefix was first run
        if s.pos >= s.prefix.len() { ask(); }
    } else if !b.loose {
        s.violated.push(label.replace(' ', "_"));
    }
}
pub fn check(label: &str, b: bool) {
    let s = st();
    if s.mode == Mode::Sym && b { s.checks += 1; return; }
    prove(label, &truth(b))
}
/// Proves that two values are the same, and records them as an observation.
pub fn prove_same(label: &str, a: f64, b: f64) {
    observe(label, a);
    // over the reals the specified value is finite: an overflow is outside the modelled arithmetic
    if !is_sym() && !st().fp && b.is_infinite() { finish_native("assume", "overflow") }
    prove(label, &same(a, b))
}
pub fn observe(label: &str, a: f64) {
    if is_sym() {
        match sym_id(a) {
            Some(i) => ev!("O {} {}", label.replace(' ', "_"), i),
            None => ev!("O {} c{:x}", label.replace(' ', "_"), a.to_bits()),
        }
    } else {
        println!("O {} {:x}", label.replace(' ', "_"), a.to_bits());
    }
}
/// Reachability marker: the driver reports which markers were reached on a satisfiable path.
pub fn reached(label: &str) { if is_sym() { ev!("M {}", label.replace(' ', "_")); } }
/// A concrete description of the case being explored, for the evidence samples.
pub fn note(s: &str) {
    if is_sym() { ev!("N {}", s.replace('\n', " ")); } else { println!("N {}", s.replace('\n', " ")); }
}

/// Runs `f`, turning a panic into Err(message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(panic_msg(&e)),
    }
}
fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
}

fn finish_native(status: &str, msg: &str) -> ! {
    use std::io::Write;
    let s = st();
    for v in s.violated.iter() { println!("V {}", v); }
    println!("E {} checks={} {}", status, s.checks, msg.replace('\n', " "));
    std::io::stdout().flush().ok();
    unsafe { libc::_exit(0) }
}

fn run_body(body: &dyn Fn()) -> ! {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body()));
    match r {
        Ok(()) => end("ok", ""),
        Err(e) => {
            let m = panic_msg(&e);
            if mode() == Mode::Native { st().violated.push("panic".into()); }
            end("panic", &m)
        }
    }
}

/// Entry point of the harness binary.
pub fn main(dispatch: &dyn Fn(&str, &[usize])) {
    let args: Vec<String> = std::env::args().collect();
    let name = args[1].clone();
    let fp = args[2] == "fp";
    let native = std::env::var("SYM_MODEL").ok();
    let mut inputs = Vec::new();
    let mut choices = Vec::new();
    let mut sharp = None;
    if let Some(p) = &native {
        for l in std::fs::read_to_string(p).expect("model file").lines() {
            let v: Vec<&str> = l.split_whitespace().collect();
            match v.first() {
                Some(&"i") => inputs.push((v[1].to_string(), f64::from_bits(u64::from_str_radix(v[2], 16).unwrap()))),
                Some(&"S") => sharp = v[1].parse().ok(),
                Some(&"C") => choices.extend(v[1..].iter().map(|s| s.parse::<usize>().unwrap())),
                _ => (),
            }
        }
    }
    let params: Vec<usize> = args[3..].iter().map(|s| s.parse().expect("parameter")).collect();
    unsafe {
        *G.0.get() = Some(Box::new(St {
            mode: if native.is_some() { Mode::Native } else { Mode::Sym },
            fp,
            out: String::with_capacity(1 << 22),
            next: 0,
            dedup: if native.is_some() { Vec::new() } else { vec![(0, 0); DEDUP] },
            consts: Vec::with_capacity(1 << 12),
            prefix: Vec::with_capacity(1 << 16),
            pos: 0,
            inbuf: Vec::with_capacity(1 << 20),
            inputs, choices, cpos: 0,
            names: Vec::with_capacity(256),
            violated: Vec::new(),
            checks: 0,
            quiet: false,
            alarm: std::env::var("SYM_ALARM").ok().and_then(|s| s.parse().ok()).unwrap_or(30),
            fmts: 0,
            sharp,
        }));
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SYM_TRACE").is_some() { eprintln!("{}", i); }
    }));
    let body = || dispatch(&name, &params);
    if native.is_some() {
        unsafe { libc::alarm(st().alarm); }
        run_body(&body);
    }
    // forkserver
    loop {
        let l = read_line();
        let mut it = l.split_ascii_whitespace();
        match it.next() {
            Some("R") => {
                st().prefix.clear();
                st().prefix.extend(it.map(|s| s.parse::<i64>().unwrap()));
            }
            _ => unsafe { libc::_exit(0) },
        }
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::alarm(st().alarm); }
            run_body(&body);
        }
        let mut status: i32 = 0;
        unsafe { libc::waitpid(pid, &mut status, 0); }
        let m = format!("W {}\n", status);
        unsafe { libc::write(WFD, m.as_ptr() as *const _, m.len()); }
    }
}

// ---------------------------------------------------------------- determinism

/// Hash-map seeds: std obtains them through getrandom, which is interposed here so that
/// re-executed paths see the same iteration orders.
static mut SEED: u64 = 0x5eed;
pub fn hash_seed(s: u64) { unsafe { SEED = s } }
#[no_mangle] pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = unsafe { SEED }.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for i in 0..len {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 24) as u8; }
    }
    len as isize
}

/// Deterministic allocator at a fixed address, so that pointer-keyed maps iterate alike in every
/// re-execution.
pub struct Alloc;
const BASE: usize = 0x10_0000_0000;
const SIZE: usize = 1 << 34;
static mut CUR: usize = 0;
static mut FREE: [usize; 64] = [0; 64];
fn class(size: usize) -> usize { (size.max(16).next_power_of_two().trailing_zeros()) as usize }
/// Harnesses with a second thread run the two in turns; only their start and end overlap.
static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Held;
fn hold() -> Held {
    while BUSY.swap(true, std::sync::atomic::Ordering::Acquire) { unsafe { libc::sched_yield(); } }
    Held
}
impl Drop for Held { fn drop(&mut self) { BUSY.store(false, std::sync::atomic::Ordering::Release) } }
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _held = hold();
        let c = class(l.size().max(l.align()));
        if FREE[c] != 0 {
            let p = FREE[c];
            FREE[c] = *(p as *const usize);
            return p as *mut u8;
        }
        if CUR == 0 {
            let p = libc::mmap(BASE as *mut _, SIZE, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
            if p as usize != BASE { libc::_exit(96) }
            CUR = BASE;
        }
        let sz = 1usize << c;
        let p = (CUR + sz.min(4096) - 1) & !(sz.min(4096) - 1);
        CUR = p + sz;
        if CUR > BASE + SIZE { libc::_exit(95) }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _held = hold();
        let c = class(l.size().max(l.align()));
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}
