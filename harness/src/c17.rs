//! C17: Debug and Display.
use crate::{fam::*, nd::*, Entry};
use core::fmt::{self, Debug, Display, Write};
use enumset::EnumSet;

const CAP: usize = 64;
/// A writer into a fixed buffer that fails once `room` bytes have been written.
struct Sink { buf: [u8; CAP], n: usize, room: usize, failed: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if self.n + b.len() > self.room { self.failed = true; return Err(fmt::Error); }
        let mut i = 0;
        while i < b.len() { self.buf[self.n] = b[i]; self.n += 1; i += 1; }
        Ok(())
    }
}
fn expected<T: Fam<W> + Debug + Display, const W: usize>(w: &[u64; W], debug: bool) -> String {
    let mut s: Vec<(u32, T)> = T::D.iter().copied().zip((0..T::D.len()).map(T::nth)).filter(|x| has(w, x.0)).collect();
    s.sort_by_key(|x| x.0);
    let t: Vec<String> = s.iter().map(|x| if debug { format!("{:?}", x.1) } else { format!("{}", x.1) }).collect();
    if debug { format!("EnumSet({})", t.join(" | ")) } else { t.join(" | ") }
}
pub fn text<T: Fam<W> + Debug + Display, const W: usize>() {
    let (a, w) = any_set::<T, W>();
    ensures!(format!("{}", a) == expected::<T, W>(&w, false), "Display lists the members in order");
    ensures!(format!("{:?}", a) == expected::<T, W>(&w, true), "Debug lists the members in order");
    ensures!(a.to_string() == expected::<T, W>(&w, false), "to_string");
    ensures!(same(&raw(a), &w), "formatting leaves the set alone");
}
struct Limited { s: String, room: usize, failed: bool }
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.s.len() + s.len() > self.room { self.failed = true; return Err(fmt::Error); }
        self.s.push_str(s);
        Ok(())
    }
}
pub fn errors<T: Fam<W> + Debug + Display, const W: usize>() {
    let (a, w) = any_set::<T, W>();
    for debug in [false, true] {
        let want = expected::<T, W>(&w, debug);
        let room = u8_() as usize % (want.len() + 2);
        let mut l = Limited { s: String::new(), room, failed: false };
        let r = if debug { write!(l, "{:?}", a) } else { write!(l, "{}", a) };
        ensures!(r.is_err() == l.failed, "a writer error is returned, and none is invented");
        ensures!(l.failed || l.s == want, "without an error everything is written");
        ensures!(want.starts_with(&l.s), "what was written before an error is a prefix");
    }
}
fn put<T: Fam<W> + Debug + Display, const W: usize>(a: EnumSet<T>, debug: bool, room: usize) -> (Sink, fmt::Result) {
    let mut s = Sink { buf: [0; CAP], n: 0, room, failed: false };
    let r = if debug { write!(s, "{:?}", a) } else { write!(s, "{}", a) };
    (s, r)
}
fn listed<T: Fam<W> + Debug + Display, const W: usize>(debug: bool) {
    let (a, w) = any_set::<T, W>();
    let (s, r) = put::<T, W>(a, debug, CAP);
    reach!(card(&w) == 2);
    ensures!(r.is_ok(), "formatting succeeds when the writer does");
    let mut at = 0;
    if debug {
        let open = b"EnumSet(";
        while at < 8 { ensures!(s.buf[at] == open[at], "opening"); at += 1; }
    }
    let mut first = true;
    let mut m = w;
    let mut k = 0;
    while k < T::D.len() {
        if let Some(b) = lowest(&m) {
            m = sub(&m, &single(b));
            if !first {
                ensures!(s.buf[at] == b' ' && s.buf[at + 1] == b'|' && s.buf[at + 2] == b' ', "separator");
                at += 3;
            }
            first = false;
            ensures!(s.buf[at] == if debug { b'V' } else { b'd' }, "member text");
            if b >= 10 {
                ensures!(s.buf[at + 1] == b'0' + (b / 10) as u8 && s.buf[at + 2] == b'0' + (b % 10) as u8, "member text");
                at += 3;
            } else {
                ensures!(s.buf[at + 1] == b'0' + b as u8, "member text");
                at += 2;
            }
        }
        k += 1;
    }
    if debug { ensures!(s.buf[at] == b')', "closing"); at += 1; }
    ensures!(s.n == at, "nothing else is written");
    ensures!(same(&raw(a), &w), "formatting leaves the set alone");
}
/// The text, byte by byte, of every set of variants `V<n>` shown as `d<n>`.
pub fn display<T: Fam<W> + Debug + Display, const W: usize>() { listed::<T, W>(false) }
pub fn debug<T: Fam<W> + Debug + Display, const W: usize>() { listed::<T, W>(true) }
/// A writer that fails once `room` bytes are written: its error is returned, what was written is a prefix.
pub fn failing<T: Fam<W> + Debug + Display, const W: usize>() {
    let (a, w) = any_set::<T, W>();
    let debug = bool_();
    let room = u8_() as usize % CAP;
    let i = u8_() as usize % CAP;
    let (full, ok) = put::<T, W>(a, debug, CAP);
    let (s, r) = put::<T, W>(a, debug, room);
    reach!(s.failed && s.n > 9);
    ensures!(ok.is_ok(), "no error is invented");
    ensures!(r.is_err() == s.failed, "a writer error is returned");
    ensures!(s.failed == (full.n > room), "everything is written");
    ensures!(s.failed || s.n == full.n, "everything is written");
    ensures!(i >= s.n || s.buf[i] == full.buf[i], "what is written does not depend on the room");
}
on!(native, text, total, 1);
on!(native, errors, total, 1);
on!(text, display, total, 12);
on!(text, debug, total, 12);
on!(fail, failing, total, 12);
/// Members whose text shows the options of the formatter they are given.
macro_rules! shows {
    ($e:ident $(($a:meta))* $($v:ident = $d:literal),*) => {
        #[derive(enumset::EnumSetType)]
        $(#[$a])*
        pub enum $e { $($v = $d),* }
        impl $e { const LIST: &'static [(u32, $e)] = &[$(($d, $e::$v)),*]; }
        impl Display for $e {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("d")?;
                show(f, *self as u32)
            }
        }
        impl Debug for $e {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                show(f, *self as u32)?;
                f.pad("D")
            }
        }
    };
}
fn show(f: &mut fmt::Formatter<'_>, n: u32) -> fmt::Result {
    write!(f, "{}{:?}{:?}{}{}{}{}", n, f.width(), f.precision(), f.alternate(), f.sign_plus(), f.sign_minus(), f.sign_aware_zero_pad())
}
shows!(Shows A = 3, B = 0, C = 7);
shows!(ShowsWide (enumset(repr = "array")) A = 130, B = 2, C = 64, D = 63, E = 65);
macro_rules! option_texts {
    ($e:ident $s:ident $m:ident $($f:literal)*) => { $(
        let d: Vec<String> = $m.iter().map(|x| format!(concat!("{:", $f, "}"), x)).collect();
        ensures!(format!(concat!("{:", $f, "}"), $s) == d.join(" | "), concat!("Display with ", $f));
        let d: Vec<String> = $m.iter().map(|x| format!(concat!("{:", $f, "?}"), x)).collect();
        ensures!(format!(concat!("{:", $f, "?}"), $s) == format!("EnumSet({})", d.join(" | ")), concat!("Debug with ", $f));
    )* };
}
macro_rules! options {
    ($f:ident $e:ident) => {
        pub fn $f() {
            let mut l = $e::LIST.to_vec();
            l.sort_by_key(|x| x.0);
            let k = u8_();
            let m: Vec<$e> = l.iter().enumerate().filter(|x| k >> x.0 & 1 != 0).map(|x| x.1.1).collect();
            let s: EnumSet<$e> = m.iter().copied().collect();
            option_texts!($e s m "" "#" "5" "<7" ">9" "^40" "*^6" "+" "-" "06" ".0" ".3" "#12.2" "+#05");
        }
    };
}
options!(options_small Shows);
options!(options_wide ShowsWide);
const OPTIONS: &[Entry] = &[
    Entry { name: "esv::c17::options::small", f: options_small, must_panic: false, kani: false },
    Entry { name: "esv::c17::options::wide", f: options_wide, must_panic: false, kani: false },
];
pub const ALL: &[&[Entry]] = &[OPTIONS, text::REG, errors::REG, display::REG, debug::REG, failing::REG];
