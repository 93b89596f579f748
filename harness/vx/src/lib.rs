//! Interface between harnesses and the symbolic executor.
//!
//! Without the `native` feature the primitives are external functions interpreted by the engine.
//! With it they read recorded values, so that the very same harness replays one concrete input
//! against the natively compiled code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vx_byte() -> u8;
        fn vx_u64() -> u64;
        fn vx_choose(n: u32) -> u32;
        fn vx_assume(c: bool);
        fn vx_fail(p: *const u8, n: usize) -> !;
        fn vx_known(p: *const u8, n: usize) -> !;
        fn vx_observe(x: u64);
        fn vx_cover(k: u32);
        fn vx_concrete(x: u64) -> u64;
    }
    #[inline(always)]
    pub fn byte() -> u8 {
        unsafe { vx_byte() }
    }
    #[inline(always)]
    pub fn u64() -> u64 {
        unsafe { vx_u64() }
    }
    #[inline(always)]
    pub fn choose(n: u32) -> u32 {
        unsafe { vx_choose(n) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vx_assume(c) }
    }
    #[inline(always)]
    pub fn fail(m: &'static str) -> ! {
        unsafe { vx_fail(m.as_ptr(), m.len()) }
    }
    /// the path shows a recorded, unrepaired defect (see known_findings.txt); ends it
    #[inline(always)]
    pub fn known(m: &'static str) -> ! {
        unsafe { vx_known(m.as_ptr(), m.len()) }
    }
    #[inline(always)]
    pub fn observe(x: u64) {
        unsafe { vx_observe(x) }
    }
    #[inline(always)]
    pub fn cover(k: u32) {
        unsafe { vx_cover(k) }
    }
    #[inline(always)]
    pub fn concrete(x: u64) -> u64 {
        unsafe { vx_concrete(x) }
    }
    /// only does something in native replays
    #[inline(always)]
    pub fn note(_f: impl FnOnce() -> String) {}
}

#[cfg(feature = "native")]
mod imp {
    //! Replays run with `panic = "abort"` like the analysed build, so every abnormal end is
    //! reported from the panic hook and finishes the process.
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rec {
        pub vals: Vec<u64>,
        pub pos: usize,
        pub digest: u64,
        pub batch: bool,
    }
    thread_local!(pub static REC: RefCell<Rec> = RefCell::new(Rec::default()));
    fn next() -> u64 {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let v = r.vals.get(r.pos).copied();
            r.pos += 1;
            v.unwrap_or(0)
        })
    }
    fn end(outcome: &str) -> ! {
        use std::io::Write;
        let (d, batch) = REC.try_with(|r| r.try_borrow().map(|r| (r.digest, r.batch)).unwrap_or((0, false))).unwrap_or((0, false));
        let outcome = outcome.replace('\n', " ");
        if batch {
            println!("{d:016x} {outcome}");
        } else {
            println!("OUTCOME {outcome}\nDIGEST {d:016x}");
        }
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }
    pub fn byte() -> u8 {
        next() as u8
    }
    pub fn u64() -> u64 {
        let mut x = 0;
        for i in 0..8 {
            x |= (next() & 0xff) << (8 * i);
        }
        x
    }
    pub fn choose(_n: u32) -> u32 {
        next() as u32
    }
    pub fn assume(c: bool) {
        if !c {
            end("assumed")
        }
    }
    pub fn fail(m: &'static str) -> ! {
        end(&format!("fail {m}"))
    }
    pub fn known(m: &'static str) -> ! {
        end(&format!("known {m}"))
    }
    pub fn observe(x: u64) {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            for b in x.to_le_bytes() {
                r.digest = (r.digest ^ b as u64).wrapping_mul(0x100000001b3);
            }
        })
    }
    pub fn cover(_k: u32) {}
    pub fn concrete(x: u64) -> u64 {
        x
    }
    /// explain a replayed input to the reader of the report
    pub fn note(f: impl FnOnce() -> String) {
        let batch = REC.with(|r| r.borrow().batch);
        if !batch {
            println!("NOTE {}", f());
        }
    }

    /// command line of the replay binaries:
    ///   replay one HARNESS v1,v2,...
    ///   replay batch HARNESS FILE   -> "digest outcome" per line; ends early on an abnormal end
    pub fn main(table: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let f = match table.iter().find(|t| t.0 == a[2]) {
            Some(t) => t.1,
            None => {
                eprintln!("no harness {}", a[2]);
                std::process::exit(3)
            }
        };
        std::panic::set_hook(Box::new(|i| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            end(&format!("panic {} at {}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()))
        }));
        let parse = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect() };
        let batch = a[1] == "batch";
        let lines: Vec<Vec<u64>> = if batch {
            std::fs::read_to_string(&a[3]).unwrap().lines().map(parse).collect()
        } else {
            vec![parse(a.get(3).map(|s| s.as_str()).unwrap_or(""))]
        };
        // a generous stack: depth limits are a matter of the engine, not of the replay
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                for vals in lines {
                    REC.with(|r| *r.borrow_mut() = Rec { vals, pos: 0, digest: 0xcbf29ce484222325, batch });
                    f();
                    let d = REC.with(|r| r.borrow().digest);
                    if batch {
                        println!("{d:016x} ok");
                    } else {
                        println!("OUTCOME ok\nDIGEST {d:016x}");
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap();
    }
}

pub use imp::*;

#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    if !c {
        fail(m)
    }
}

pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}

/// A string of exactly `n` bytes over all valid UTF-8 byte sequences of that length.
/// The shape (which positions start a 1/2/3/4-byte character) is a forked choice; the bytes are
/// symbolic, so every valid UTF-8 string of `n` bytes is covered exactly once.
pub fn utf8(n: usize, out: &mut Vec<u8>) {
    let mut left = n;
    while left > 0 {
        let k = if left >= 4 { 4 } else { left } as u32;
        let c = if k == 1 { 0 } else { choose(k) };
        char_shape(c, out);
        left -= c as usize + 1;
    }
}
/// one symbolic character with an encoding of `extra`+1 bytes
pub fn char_shape(extra: u32, out: &mut Vec<u8>) {
    match extra {
        0 => {
            let b = byte();
            assume(b < 0x80);
            out.push(b);
        }
        1 => {
            let b = byte();
            assume(b >= 0xc2 && b <= 0xdf);
            out.push(b);
            cont(out, 0x80, 0xbf);
        }
        2 => {
            let f = choose(3);
            let b = byte();
            match f {
                0 => {
                    assume(b == 0xe0);
                    out.push(b);
                    cont(out, 0xa0, 0xbf);
                }
                1 => {
                    assume(b == 0xed);
                    out.push(b);
                    cont(out, 0x80, 0x9f);
                }
                _ => {
                    assume(b >= 0xe1 && b <= 0xef && b != 0xed);
                    out.push(b);
                    cont(out, 0x80, 0xbf);
                }
            }
            cont(out, 0x80, 0xbf);
        }
        _ => {
            let f = choose(3);
            let b = byte();
            match f {
                0 => {
                    assume(b == 0xf0);
                    out.push(b);
                    cont(out, 0x90, 0xbf);
                }
                1 => {
                    assume(b == 0xf4);
                    out.push(b);
                    cont(out, 0x80, 0x8f);
                }
                _ => {
                    assume(b >= 0xf1 && b <= 0xf3);
                    out.push(b);
                    cont(out, 0x80, 0xbf);
                }
            }
            cont(out, 0x80, 0xbf);
            cont(out, 0x80, 0xbf);
        }
    }
}
fn cont(out: &mut Vec<u8>, lo: u8, hi: u8) {
    let b = byte();
    assume(b >= lo && b <= hi);
    out.push(b);
}
/// symbolic ASCII byte
pub fn ascii(out: &mut Vec<u8>) {
    let b = byte();
    assume(b < 0x80);
    out.push(b);
}
/// symbolic byte out of a set
pub fn one_of(set: &[u8], out: &mut Vec<u8>) {
    let b = byte();
    let mut t = [false; 256];
    for s in set {
        assert!(*s < 0x80, "harness: alphabets are ASCII");
        t[*s as usize] = true;
    }
    assume(t[b as usize]);
    out.push(b);
}

pub mod gen;

/// harness table: an exported entry for the engine and a name -> function table for replays
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $( #[unsafe(no_mangle)] pub extern "C" fn $name() { let f: fn() = $body; f() } )*
        pub static HARNESSES: &[(&str, fn())] = &[ $( (stringify!($name), $body) ),* ];
    };
}
