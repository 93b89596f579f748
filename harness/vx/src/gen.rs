//! Builders of symbolic documents.
use crate::*;

/// Piece of a document template
pub enum P<'a> {
    /// literal text
    L(&'a str),
    /// exactly n bytes of arbitrary valid UTF-8
    U(usize),
    /// 0..=n bytes of arbitrary valid UTF-8
    U0(usize),
    /// exactly n bytes, each any element of the (ASCII) set
    A(usize, &'a str),
    /// 0..=n bytes of the set
    A0(usize, &'a str),
    /// one of the alternatives
    C(&'a [&'a str]),
    /// literal text repeated n times
    N(usize, &'a str),
}

pub fn put(ps: &[P], out: &mut Vec<u8>) {
    for p in ps {
        match p {
            P::L(s) => out.extend_from_slice(s.as_bytes()),
            P::U(n) => utf8(*n, out),
            P::U0(n) => {
                let k = choose(*n as u32 + 1) as usize;
                utf8(k, out)
            }
            P::A(n, set) => {
                for _ in 0..*n {
                    one_of(set.as_bytes(), out)
                }
            }
            P::A0(n, set) => {
                let k = choose(*n as u32 + 1) as usize;
                for _ in 0..k {
                    one_of(set.as_bytes(), out)
                }
            }
            P::C(a) => {
                let k = choose(a.len() as u32) as usize;
                out.extend_from_slice(a[k].as_bytes())
            }
            P::N(n, s) => {
                for _ in 0..*n {
                    out.extend_from_slice(s.as_bytes())
                }
            }
        }
    }
}

pub fn st(v: Vec<u8>) -> String {
    // the builders only produce valid UTF-8
    let s = unsafe { String::from_utf8_unchecked(v) };
    note(|| format!("input {s:?}"));
    s
}

pub fn doc(ps: &[P]) -> String {
    let mut v = Vec::with_capacity(128);
    put(ps, &mut v);
    st(v)
}

/// all valid UTF-8 strings of exactly n bytes
pub fn free(n: usize) -> String {
    doc(&[P::U(n)])
}

/// `base` with up to `del` characters removed and `ins` symbolic pieces inserted at any one
/// character position
pub fn mutate(base: &str, del: usize, ins: &[P]) -> String {
    let mut v = Vec::with_capacity(base.len() + 32);
    let n = base.chars().count();
    let at = choose(n as u32 + 1) as usize;
    let d = if del == 0 { 0 } else { choose(del as u32 + 1) as usize };
    for (i, c) in base.chars().enumerate() {
        if i == at {
            put(ins, &mut v);
        }
        if i < at || i >= at + d {
            let mut b = [0u8; 4];
            v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        }
    }
    if at == n {
        put(ins, &mut v);
    }
    st(v)
}
