//! Symbolic interpreter: states, memory, forking, decision procedure front-end.
use crate::expr::*;
use crate::ir::{self, *};
use crate::z3::{Res, Z3};
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty when fully concrete
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    ip: u32,
    block: u32,
    stk: u32,
    regs: Vec<V>,
}

#[derive(Clone, Debug)]
pub enum Inp {
    Var(u16),
    Const(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<Option<Rc<Obj>>>,
    free: VecDeque<u32>,
    stk: Vec<Rc<Obj>>,
    glb: Vec<Option<Rc<Obj>>>,
    pub dom: Vec<[u64; 4]>,
    pub resid: Vec<E>,
    pub inputs: Vec<Inp>,
    pending: Option<u64>,
    pub decisions: Vec<u32>,
    replay: VecDeque<u32>,
    pub obs: Vec<V>,
    pub steps: u64,
    pub covers: u64,
    mass: f64, // weight of choices only (domains are weighed at the end)
    uniq: u64,
    relational: bool,
}

#[derive(Debug, Clone)]
pub enum Halt {
    Done,
    Assume,
    Fail { kind: String, msg: String, loc: String },
    Unsupported(String),
    Budget,
    Known(String),
}
type R<T> = Result<T, Halt>;

pub enum Cs {
    Dom(u16, [u64; 4]),
    Cond(E),
    Choice(u64, f64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, Free, ReallocC, PosixMemalign, NoShim,
    Memcpy, Memset, Memcmp, Bcmp, Strlen,
    Panic, HashOne, SipOne, Memchr, GetRandom, Ret0, FxUniq,
    VxByte, VxU64, VxChoose, VxAssume, VxFail, VxKnown, VxObserve, VxCover, VxConcrete, VxIsSym,
    Unwind, Errno,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ik {
    Memcpy, Memset, Trap, Expect, IsConst, TlAddr,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    UAddS, USubS, SAddS, SSubS, UMin, UMax, SMin, SMax, Abs,
    Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr, UCmp, SCmp,
    Fabs, Floor, Ceil, Trunc, Round, Sqrt, Copysign, Fma, FMin, FMax, Rint, Pow,
    RedOr, RedAnd, RedAdd, RedUMax, RedUMin, RedXor, FpToUiSat, FpToSiSat, PtrMask, Nop, Ret0, Unknown,
}

pub struct Prog {
    pub m: Module,
    pub gobj: Vec<Obj>,
    builtin: Vec<Option<B>>,
    ik: Vec<Ik>,
    kpool: Vec<KV>,
}

#[derive(Default, Clone, Debug)]
pub struct Failure {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<u64>,
    pub count: u64,
    pub stack: Vec<String>,
}
#[derive(Default)]
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: u64,
    pub assume: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assume: u64,
    pub relational: u64,
    pub steps: u64,
    pub forks: u64,
    pub dq: u64,
    pub iq: u64,
    pub zq: u64,
    pub zns: u64,
    pub zunk: u64,
    pub mass: f64,
    pub mass_rel: f64,
    pub covers: Vec<u64>,
    pub maxsteps: u64,
    pub unsupported: Vec<(String, u64)>,
    pub budget: Vec<Vec<u64>>,
    pub failures: Vec<Failure>,
    pub samples: Vec<Sample>,
    pub funcs: Vec<bool>,
    pub maxdec: usize,
    pub nvars: usize,
    pub known: Vec<(String, u64, Vec<u64>)>,
}

pub struct Cfg {
    pub max_steps: u64,
    pub threads: usize,
    pub deadline: std::time::Instant,
    pub sample_every: u64,
    pub max_samples: usize,
    pub trace: bool,
    pub max_failures: usize,
}

pub struct Shared {
    pub q: Mutex<Vec<Vec<u32>>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    pub paths: AtomicU64,
}

impl Prog {
    pub fn new(m: Module) -> Self {
        let gobj = m.globals.iter().map(|g| Obj { data: g.data.clone(), sym: vec![] }).collect();
        let builtin = m.funcs.iter().map(|f| builtin_of(f)).collect();
        let ik = m.intrinsics.iter().map(|s| ik_of(s)).collect();
        let kpool = m.kpool.clone();
        Prog { m, gobj, builtin, ik, kpool }
    }
}

fn builtin_of(f: &Func) -> Option<B> {
    let n = f.name.as_str();
    let p = ir::pretty(n);
    let b = match n {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "free" => B::Free,
        "realloc" => B::ReallocC,
        "posix_memalign" => B::PosixMemalign,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "memcmp" => B::Memcmp,
        "bcmp" => B::Bcmp,
        "strlen" => B::Strlen,
        "getrandom" => B::GetRandom,
        "abort" => B::Panic,
        "__errno_location" => B::Errno,
        "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_key_delete" => B::Ret0,
        "getenv" => B::Ret0,
        "vx_byte" => B::VxByte,
        "vx_u64" => B::VxU64,
        "vx_choose" => B::VxChoose,
        "vx_assume" => B::VxAssume,
        "vx_fail" => B::VxFail,
        "vx_known" => B::VxKnown,
        "vx_observe" => B::VxObserve,
        "vx_cover" => B::VxCover,
        "vx_concrete" => B::VxConcrete,
        "vx_is_symbolic" => B::VxIsSym,
        _ => {
            if n.contains("___rustc") {
                if n.ends_with("___rust_alloc") { return Some(B::Alloc); }
                if n.ends_with("___rust_alloc_zeroed") { return Some(B::AllocZ); }
                if n.ends_with("___rust_dealloc") { return Some(B::Dealloc); }
                if n.ends_with("___rust_realloc") { return Some(B::Realloc); }
                if n.contains("no_alloc_shim") { return Some(B::NoShim); }
                if n.ends_with("rust_begin_unwind") || n.contains("rust_panic") || n.contains("rust_start_panic") { return Some(B::Panic); }
            }
            if p.starts_with("core::panicking::") || p.contains("core::option::unwrap_failed") || p.contains("core::option::expect_failed")
                || p.contains("core::result::unwrap_failed") || p.contains("slice_index_fail") || p.contains("core::str::slice_error_fail")
                || p.contains("handle_alloc_error") || p.contains("raw_vec::handle_error") || p.contains("capacity_overflow")
                || p.contains("core::cell::panic_already") || p.contains("std::process::abort") || p.contains("std::panicking::")
                || p.contains("slice_start_index_len_fail") || p.contains("slice_end_index_len_fail") || p.contains("slice_index_order_fail")
                || p.contains("copy_from_slice_impl::len_mismatch_fail") || p.contains("panic_access_error") || p.contains("std::rt::abort")
                || p.contains("assert_failed") && p.contains("panicking")
            {
                return Some(B::Panic);
            }
            // the hash of everything is that of the empty text, a legal hash function; the same where hashing is inlined
            if n.contains("4core4hash3sip") && n.contains("6Hasher5write") && f.nargs == 3 {
                return Some(B::Ret0);
            }
            if p.contains("hash_one") && p.contains("BuildHasher") {
                return Some(if p.contains("RandomState") { B::SipOne } else { B::HashOne });
            }
            if p.contains("memchr_aligned") && f.nargs == 3 {
                return Some(B::Memchr);
            }
            if p.contains("hashmap_random_keys") && false {
                return Some(B::Ret0);
            }
            let _ = B::FxUniq;
            if !f.defined && n.starts_with("_Unwind") {
                return Some(B::Unwind);
            }
            return None;
        }
    };
    Some(b)
}

fn sip13_empty(k0: u64, k1: u64) -> u64 {
    let mut v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573];
    let round = |v: &mut [u64; 4]| {
        v[0] = v[0].wrapping_add(v[1]);
        v[2] = v[2].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[1]);
        v[0] = v[0].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].rotate_left(32);
    };
    round(&mut v);
    v[2] ^= 0xff;
    for _ in 0..3 {
        round(&mut v);
    }
    v[0] ^ v[1] ^ v[2] ^ v[3]
}

fn ik_of(s: &str) -> Ik {
    let t: Vec<&str> = s.split('.').collect();
    let a = t.get(1).copied().unwrap_or("");
    let b = t.get(2).copied().unwrap_or("");
    match (a, b) {
        ("memcpy", _) | ("memmove", _) => Ik::Memcpy,
        ("memset", _) => Ik::Memset,
        ("trap", _) | ("ubsantrap", _) | ("debugtrap", _) => Ik::Trap,
        ("expect", _) | ("launder", _) | ("strip", _) | ("ssa", _) | ("arithmetic", _) => Ik::Expect,
        ("is", "constant") => Ik::IsConst,
        ("threadlocal", _) => Ik::TlAddr,
        ("uadd", "with") => Ik::UAddO,
        ("usub", "with") => Ik::USubO,
        ("umul", "with") => Ik::UMulO,
        ("sadd", "with") => Ik::SAddO,
        ("ssub", "with") => Ik::SSubO,
        ("smul", "with") => Ik::SMulO,
        ("uadd", _) => Ik::UAddS,
        ("usub", _) => Ik::USubS,
        ("sadd", _) => Ik::SAddS,
        ("ssub", _) => Ik::SSubS,
        ("umin", _) => Ik::UMin,
        ("umax", _) => Ik::UMax,
        ("smin", _) => Ik::SMin,
        ("smax", _) => Ik::SMax,
        ("abs", _) => Ik::Abs,
        ("ctpop", _) => Ik::Ctpop,
        ("ctlz", _) => Ik::Ctlz,
        ("cttz", _) => Ik::Cttz,
        ("bswap", _) => Ik::Bswap,
        ("bitreverse", _) => Ik::Bitrev,
        ("fshl", _) => Ik::Fshl,
        ("fshr", _) => Ik::Fshr,
        ("ucmp", _) => Ik::UCmp,
        ("scmp", _) => Ik::SCmp,
        ("fabs", _) => Ik::Fabs,
        ("floor", _) => Ik::Floor,
        ("ceil", _) => Ik::Ceil,
        ("trunc", _) => Ik::Trunc,
        ("round", _) => Ik::Round,
        ("rint", _) | ("nearbyint", _) | ("roundeven", _) => Ik::Rint,
        ("sqrt", _) => Ik::Sqrt,
        ("copysign", _) => Ik::Copysign,
        ("fma", _) | ("fmuladd", _) => Ik::Fma,
        ("minnum", _) | ("minimumnum", _) => Ik::FMin,
        ("maxnum", _) | ("maximumnum", _) => Ik::FMax,
        ("pow", _) => Ik::Pow,
        ("fptoui", "sat") => Ik::FpToUiSat,
        ("fptosi", "sat") => Ik::FpToSiSat,
        ("ptrmask", _) => Ik::PtrMask,
        ("vector", "reduce") => match t.get(3).copied().unwrap_or("") {
            "or" => Ik::RedOr,
            "and" => Ik::RedAnd,
            "add" => Ik::RedAdd,
            "xor" => Ik::RedXor,
            "umax" => Ik::RedUMax,
            "umin" => Ik::RedUMin,
            _ => Ik::Unknown,
        },
        ("objectsize", _) => Ik::Unknown,
        ("sideeffect", _) | ("donothing", _) | ("va_start", _) | ("va_end", _) => Ik::Nop,
        ("stacksave", _) | ("stackrestore", _) => Ik::Ret0,
        _ => Ik::Unknown,
    }
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}

pub struct Worker<'p> {
    pub p: &'p Prog,
    pub cx: Ctx,
    pub z: Z3,
    pub st: State,
    pub stack: Vec<State>,
    pub stats: Stats,
    pub cfg: &'p Cfg,
    pub sh: &'p Shared,
    cache: FxMap<(Vec<E>, Vec<(u16, [u64; 4])>), bool>,
    sampctr: u64,
}

impl State {
    fn new(p: &Prog) -> Self {
        State {
            frames: vec![],
            heap: vec![],
            free: VecDeque::new(),
            stk: vec![],
            glb: vec![None; p.m.nmut as usize],
            dom: vec![],
            resid: vec![],
            inputs: vec![],
            pending: None,
            decisions: vec![],
            replay: VecDeque::new(),
            obs: vec![],
            steps: 0,
            covers: 0,
            mass: 1.0,
            uniq: 1,
            relational: false,
        }
    }
}

fn popc(d: &[u64; 4]) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}

fn oob(what: &str, addr: u64, n: u64) -> Halt {
    Halt::Fail { kind: "memory".into(), msg: format!("{what} of {n} bytes at invalid address {addr:#x}"), loc: String::new() }
}

impl<'p> Worker<'p> {
    pub fn new(p: &'p Prog, cfg: &'p Cfg, sh: &'p Shared) -> Self {
        let mut stats = Stats::default();
        stats.funcs = vec![false; p.m.funcs.len()];
        stats.covers = vec![0; 64];
        Worker { p, cx: Ctx::new(), z: Z3::new(), st: State::new(p), stack: vec![], stats, cfg, sh, cache: Default::default(), sampctr: 0 }
    }

    // ------------------------------------------------------------ values
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.cx.cst(*c as u128, w as u8),
            V::S(e) => *e,
            V::W(c) => self.cx.cst(**c, w as u8),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V {
        if let Some(c) = self.cx.as_const(e) {
            if self.cx.w[e as usize] > 64 { V::W(Rc::new(c)) } else { V::C(c as u64) }
        } else {
            V::S(e)
        }
    }
    fn kv(k: &KV) -> V {
        match k {
            KV::C(c) => V::C(*c),
            KV::W(c) => V::W(Rc::new(*c)),
            KV::A(a) => V::A(Rc::new(a.iter().map(Self::kv).collect())),
        }
    }
    #[inline]
    fn op(&self, o: &Opd) -> V {
        match o {
            Opd::R(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::K(k) => Self::kv(&self.p.kpool[*k as usize]),
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: V) {
        if d != NOREG {
            self.st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    // ------------------------------------------------------------ decision procedure
    fn touched(&self, v: u16) -> bool {
        self.st.resid.iter().any(|e| {
            let s = self.cx.sup[*e as usize];
            if s & 1 == 1 { (s >> 1) as u16 == v } else { self.cx.sup_vec(s).contains(&v) }
        })
    }
    /// residual constraints transitively connected to `vs`, plus all variables involved
    fn component(&self, vs: &[u16]) -> (Vec<E>, Vec<u16>) {
        let mut vars: Vec<u16> = vs.to_vec();
        let mut used = vec![false; self.st.resid.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, e) in self.st.resid.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.cx.support(*e);
                if s.iter().any(|x| vars.contains(x)) {
                    used[i] = true;
                    ch = true;
                    out.push(*e);
                    for x in s {
                        if !vars.contains(&x) {
                            vars.push(x);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort();
        vars.sort();
        (out, vars)
    }
    /// is the path condition together with `extra` (1-bit exprs) and domain overrides satisfiable?
    fn sat(&mut self, extra: &[E], over: Option<(u16, [u64; 4])>) -> R<bool> {
        let mut vs: Vec<u16> = vec![];
        for e in extra {
            for x in self.cx.support(*e) {
                if !vs.contains(&x) {
                    vs.push(x);
                }
            }
        }
        if let Some((v, _)) = over {
            if !vs.contains(&v) {
                vs.push(v);
            }
        }
        let (mut cs, vars) = self.component(&vs);
        for e in extra {
            if !cs.contains(e) {
                cs.push(*e);
            }
        }
        let doms: Vec<(u16, [u64; 4])> = vars
            .iter()
            .map(|v| {
                let mut d = self.st.dom[*v as usize];
                if let Some((ov, od)) = over {
                    if ov == *v {
                        d = od;
                    }
                }
                (*v, d)
            })
            .collect();
        // cache
        cs.sort();
        let key = (cs.clone(), doms.clone());
        if let Some(r) = self.cache.get(&key) {
            return Ok(*r);
        }
        let r = match self.z.check(&self.cx, &cs, &doms, false) {
            Res::Sat(_) => true,
            Res::Unsat => false,
            Res::Unknown => return Err(Halt::Unsupported("solver returned unknown".into())),
        };
        self.cache.insert(key, r);
        Ok(r)
    }
    fn interval(&self, e: E) -> (u128, u128) {
        let mut memo = FxMap::default();
        self.cx.interval(e, &|v| self.st.dom[v as usize], &mut memo)
    }
    /// cheap truth value of a boolean expression (domains + intervals, no forking)
    fn known(&mut self, e: E) -> Option<bool> {
        match &self.cx.nodes[e as usize] {
            Node::Const(c) => Some(*c == 1),
            Node::Tab { v, t } => {
                let d = &self.st.dom[*v as usize];
                if let TabV::B(b) = &**t {
                    let t = [d[0] & b[0], d[1] & b[1], d[2] & b[2], d[3] & b[3]];
                    if t == [0; 4] {
                        Some(false)
                    } else if t == *d {
                        Some(true)
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Node::N { op, a, b, c, .. } => {
                let (op, a, b, c) = (*op, *a, *b, *c);
                match op {
                    Op::And => {
                        let x = self.known(a);
                        if x == Some(false) {
                            return x;
                        }
                        let y = self.known(b);
                        if y == Some(false) {
                            return y;
                        }
                        if x == Some(true) { y } else { None }
                    }
                    Op::Or => {
                        let x = self.known(a);
                        if x == Some(true) {
                            return x;
                        }
                        let y = self.known(b);
                        if y == Some(true) {
                            return y;
                        }
                        if x == Some(false) { y } else { None }
                    }
                    Op::Xor => match (self.known(a), self.known(b)) {
                        (Some(x), Some(y)) => Some(x ^ y),
                        _ => None,
                    },
                    Op::Ite => match self.known(a) {
                        Some(true) => self.known(b),
                        Some(false) => self.known(c),
                        None => None,
                    },
                    _ => {
                        let (l, h) = self.interval(e);
                        if l == h { Some(l == 1) } else { None }
                    }
                }
            }
            Node::None => None,
        }
    }

    fn branch(&mut self, e: E) -> R<bool> {
        match self.cx.nodes[e as usize].clone() {
            Node::Const(c) => Ok(c == 1),
            Node::Tab { v, t } => {
                self.stats.dq += 1;
                let d = self.st.dom[v as usize];
                let b = match *t {
                    TabV::B(b) => b,
                    _ => return Err(Halt::Unsupported("non-boolean branch".into())),
                };
                let mut td = d;
                let mut fd = d;
                for i in 0..4 {
                    td[i] &= b[i];
                    fd[i] &= !b[i];
                }
                let mut tf = td != [0; 4];
                let mut ff = fd != [0; 4];
                if !tf {
                    return Ok(false);
                }
                if !ff {
                    return Ok(true);
                }
                if self.touched(v) {
                    tf = self.sat(&[], Some((v, td)))?;
                    ff = if tf { self.sat(&[], Some((v, fd)))? } else { true };
                }
                match (tf, ff) {
                    (true, false) => {
                        self.apply(&Cs::Dom(v, td))?;
                        Ok(true)
                    }
                    (false, _) => {
                        self.apply(&Cs::Dom(v, fd))?;
                        Ok(false)
                    }
                    _ => Ok(self.fork(vec![Cs::Dom(v, td), Cs::Dom(v, fd)])? == 0),
                }
            }
            Node::N { op, a, b, c, .. } => {
                if let Some(k) = self.known(e) {
                    self.stats.iq += 1;
                    return Ok(k);
                }
                match op {
                    Op::And => Ok(self.branch(a)? && self.branch(b)?),
                    Op::Or => Ok(self.branch(a)? || self.branch(b)?),
                    Op::Ite => {
                        if self.branch(a)? { self.branch(b) } else { self.branch(c) }
                    }
                    Op::Xor => {
                        let x = self.branch(a)?;
                        let y = self.branch(b)?;
                        Ok(x ^ y)
                    }
                    _ => {
                        let ne = self.cx.not(e);
                        if self.st.resid.contains(&e) {
                            return Ok(true);
                        }
                        if self.st.resid.contains(&ne) {
                            return Ok(false);
                        }
                        let t = self.sat(&[e], None)?;
                        if !t {
                            return Ok(false);
                        }
                        let f = self.sat(&[ne], None)?;
                        if !f {
                            return Ok(true);
                        }
                        Ok(self.fork(vec![Cs::Cond(e), Cs::Cond(ne)])? == 0)
                    }
                }
            }
            Node::None => Err(Halt::Unsupported("branch on none".into())),
        }
    }

    fn apply(&mut self, c: &Cs) -> R<()> {
        match c {
            Cs::Dom(v, d) => {
                self.st.dom[*v as usize] = *d;
                if popc(d) == 1 && !self.st.resid.is_empty() {
                    self.propagate()?;
                }
                Ok(())
            }
            Cs::Cond(e) => {
                self.add_cond(*e)?;
                Ok(())
            }
            Cs::Choice(k, m) => {
                self.st.pending = Some(*k);
                self.st.mass *= m;
                Ok(())
            }
        }
    }
    fn add_cond(&mut self, e: E) -> R<()> {
        match self.cx.nodes[e as usize].clone() {
            Node::Const(1) => Ok(()),
            Node::Const(_) => Err(Halt::Assume),
            Node::Tab { v, t } => {
                let mut d = self.st.dom[v as usize];
                if let TabV::B(b) = *t {
                    for i in 0..4 {
                        d[i] &= b[i];
                    }
                }
                if d == [0; 4] {
                    return Err(Halt::Assume);
                }
                self.apply(&Cs::Dom(v, d))
            }
            Node::N { op: Op::And, a, b, .. } => {
                self.add_cond(a)?;
                self.add_cond(b)
            }
            _ => {
                self.st.relational = true;
                if !self.st.resid.contains(&e) {
                    self.st.resid.push(e);
                }
                self.propagate()
            }
        }
    }
    /// substitute decided variables in residual constraints
    fn propagate(&mut self) -> R<()> {
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < self.st.resid.len() {
                let e = self.st.resid[i];
                let sup = self.cx.support(e);
                let dom = &self.st.dom;
                let single = |v: u16| -> Option<u8> {
                    let d = &dom[v as usize];
                    if popc(d) == 1 {
                        for k in 0..4 {
                            if d[k] != 0 {
                                return Some((k * 64 + d[k].trailing_zeros() as usize) as u8);
                            }
                        }
                    }
                    None
                };
                if sup.iter().any(|v| single(*v).is_some()) {
                    let mut memo = FxMap::default();
                    let n = self.cx.subst(e, &single, &mut memo);
                    if n != e {
                        self.st.resid.remove(i);
                        changed = true;
                        match self.cx.nodes[n as usize].clone() {
                            Node::Const(1) => {}
                            Node::Const(_) => return Err(Halt::Assume),
                            Node::Tab { v, t } => {
                                if let TabV::B(b) = *t {
                                    for k in 0..4 {
                                        self.st.dom[v as usize][k] &= b[k];
                                    }
                                    if self.st.dom[v as usize] == [0; 4] {
                                        return Err(Halt::Assume);
                                    }
                                }
                            }
                            _ => self.st.resid.push(n),
                        }
                        continue;
                    }
                }
                i += 1;
            }
            if !changed {
                return Ok(());
            }
        }
    }

    fn fork(&mut self, opts: Vec<Cs>) -> R<usize> {
        if opts.len() == 1 {
            self.apply(&opts[0])?;
            return Ok(0);
        }
        if let Some(i) = self.st.replay.pop_front() {
            self.st.decisions.push(i);
            if i as usize >= opts.len() {
                return Err(Halt::Unsupported("replay divergence".into()));
            }
            self.apply(&opts[i as usize])?;
            return Ok(i as usize);
        }
        self.stats.forks += 1;
        for i in (1..opts.len()).rev() {
            let mut s = self.st.clone();
            s.decisions.push(i as u32);
            std::mem::swap(&mut s, &mut self.st);
            let r = self.apply(&opts[i]);
            std::mem::swap(&mut s, &mut self.st);
            match r {
                Ok(()) => self.stack.push(s),
                Err(Halt::Assume) => {}
                Err(h) => return Err(h),
            }
        }
        self.st.decisions.push(0);
        self.apply(&opts[0])?;
        Ok(0)
    }

    /// pin a symbolic value to a concrete one, forking over every feasible value
    fn concretize(&mut self, e: E) -> R<u64> {
        match self.cx.nodes[e as usize].clone() {
            Node::Const(c) => Ok(c as u64),
            Node::Tab { v, t } => {
                let d = self.st.dom[v as usize];
                let mut groups: Vec<(u64, [u64; 4])> = vec![];
                for i in 0..256 {
                    if d[i >> 6] >> (i & 63) & 1 == 1 {
                        let x = t.get(i);
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == x) {
                            g.1[i >> 6] |= 1 << (i & 63);
                        } else {
                            let mut n = [0; 4];
                            n[i >> 6] |= 1 << (i & 63);
                            groups.push((x, n));
                        }
                    }
                }
                if groups.len() > 1 && self.touched(v) {
                    let mut g2 = vec![];
                    for g in groups {
                        if self.sat(&[], Some((v, g.1)))? {
                            g2.push(g);
                        }
                    }
                    groups = g2;
                }
                self.stats.dq += 1;
                if groups.is_empty() {
                    return Err(Halt::Assume);
                }
                let opts: Vec<Cs> = groups.iter().map(|g| Cs::Dom(v, g.1)).collect();
                let i = self.fork(opts)?;
                Ok(groups[i].0)
            }
            Node::N { op: Op::Ite, a, b, c, .. } => {
                if self.branch(a)? { self.concretize(b) } else { self.concretize(c) }
            }
            Node::N { op: Op::Concat, a, b, .. } => {
                let hi = self.concretize(a)?;
                let lo = self.concretize(b)?;
                let bw = self.cx.w[b as usize];
                if bw >= 64 { Ok(lo) } else { Ok((hi << bw) | lo) }
            }
            Node::N { op, a, b, .. } => {
                // force operands when the expression splits over variables
                if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) || self.cx.w[e as usize] == 1 {
                    return Ok(self.branch(e)? as u64);
                }
                let (mut lo, mut hi) = self.interval(e);
                if lo == hi {
                    return Ok(lo as u64);
                }
                let w = self.cx.w[e as usize];
                let _ = (a, b);
                // minimal feasible value by bisection
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let k = self.cx.cst(mid, w);
                    let c = self.cx.mk(Op::Ule, 1, e, k, 0, 0);
                    if self.sat(&[c], None)? {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                let k = self.cx.cst(lo, w);
                let c = self.cx.mk(Op::Eq, 1, e, k, 0, 0);
                if self.branch(c)? {
                    Ok(lo as u64)
                } else {
                    self.concretize(e)
                }
            }
            Node::None => Ok(0),
        }
    }
    fn cv(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => self.concretize(*e),
            V::W(c) => Ok(**c as u64),
            V::A(_) => Err(Halt::Unsupported("concretize aggregate".into())),
        }
    }

    // ------------------------------------------------------------ memory
    #[inline]
    fn obj(&self, id: u64) -> Option<&Obj> {
        if id >= SBASE {
            self.st.stk.get((id - SBASE) as usize).map(|r| &**r)
        } else if id >= HBASE {
            self.st.heap.get((id - HBASE) as usize).and_then(|o| o.as_deref())
        } else if id >= GBASE && id < FBASE {
            let gi = (id - GBASE) as usize;
            let g = self.p.m.globals.get(gi)?;
            if !g.constant {
                if let Some(o) = &self.st.glb[g.slot as usize] {
                    return Some(o);
                }
            }
            self.p.gobj.get(gi)
        } else {
            None
        }
    }
    #[inline]
    fn obj_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= SBASE {
            self.st.stk.get_mut((id - SBASE) as usize).map(Rc::make_mut)
        } else if id >= HBASE {
            self.st.heap.get_mut((id - HBASE) as usize).and_then(|o| o.as_mut()).map(Rc::make_mut)
        } else if id >= GBASE && id < FBASE {
            let gi = (id - GBASE) as usize;
            let g = self.p.m.globals.get(gi)?;
            if g.constant {
                return None;
            }
            let s = g.slot as usize;
            if self.st.glb[s].is_none() {
                self.st.glb[s] = Some(Rc::new(self.p.gobj[gi].clone()));
            }
            self.st.glb[s].as_mut().map(Rc::make_mut)
        } else {
            None
        }
    }
    fn alloc(&mut self, n: u64) -> R<u64> {
        if n > 1 << 28 {
            return Err(Halt::Fail { kind: "memory".into(), msg: format!("allocation of {n} bytes"), loc: String::new() });
        }
        let o = Some(Rc::new(Obj { data: vec![0; n as usize], sym: vec![] }));
        let id = if self.st.free.len() > 256 {
            let i = self.st.free.pop_front().unwrap();
            self.st.heap[i as usize] = o;
            i as u64
        } else {
            self.st.heap.push(o);
            self.st.heap.len() as u64 - 1
        };
        Ok((HBASE + id) << 32)
    }
    fn dealloc(&mut self, a: u64) -> R<()> {
        let id = a >> 32;
        if id < HBASE || id >= SBASE || a & 0xffff_ffff != 0 || self.st.heap.get((id - HBASE) as usize).map(|x| x.is_none()).unwrap_or(true) {
            return Err(oob("free", a, 0));
        }
        self.st.heap[(id - HBASE) as usize] = None;
        self.st.free.push_back((id - HBASE) as u32);
        Ok(())
    }
    fn load(&mut self, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let o = match self.obj(addr >> 32) {
            Some(o) if off + n <= o.data.len() => o,
            _ => return Err(oob("read", addr, n as u64)),
        };
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == 0) {
            let d = &o.data[off..off + n];
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(d);
                return Ok(V::C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(d);
            return Ok(V::W(Rc::new(u128::from_le_bytes(b))));
        }
        let bytes: Vec<(u8, E)> = (0..n).map(|i| (o.data[off + i], o.sym[off + i])).collect();
        let mut e = 0;
        for (i, (b, s)) in bytes.iter().enumerate() {
            let x = if *s != 0 { *s } else { self.cx.cst(*b as u128, 8) };
            e = if i == 0 { x } else { self.cx.mk(Op::Concat, (8 * (i + 1)) as u8, x, e, 0, 0) };
        }
        if (8 * n as u32) > w {
            e = self.cx.mk(Op::Extract, w as u8, e, 0, 0, 0);
        }
        Ok(self.v(e))
    }
    fn store(&mut self, addr: u64, v: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            V::C(_) | V::W(_) => {
                let bytes = match v {
                    V::C(c) => (*c as u128).to_le_bytes(),
                    V::W(c) => c.to_le_bytes(),
                    _ => unreachable!(),
                };
                match self.obj_mut(addr >> 32) {
                    Some(o) if off + n <= o.data.len() => {
                        o.data[off..off + n].copy_from_slice(&bytes[..n]);
                        if !o.sym.is_empty() {
                            for x in &mut o.sym[off..off + n] {
                                *x = 0;
                            }
                        }
                        Ok(())
                    }
                    _ => Err(oob("write", addr, n as u64)),
                }
            }
            V::S(e) => {
                let mut e = *e;
                let ew = self.cx.w[e as usize] as u32;
                if ew < 8 * n as u32 {
                    e = self.cx.mk(Op::Zext, (8 * n) as u8, e, 0, 0, 0);
                }
                let mut bs: Vec<(u8, E)> = Vec::with_capacity(n);
                for i in 0..n {
                    let b = if n == 1 { e } else { self.cx.mk(Op::Extract, 8, e, 0, 0, 8 * i as u32) };
                    match self.cx.as_const(b) {
                        Some(c) => bs.push((c as u8, 0)),
                        None => bs.push((0, b)),
                    }
                }
                match self.obj_mut(addr >> 32) {
                    Some(o) if off + n <= o.data.len() => {
                        if o.sym.is_empty() {
                            o.sym = vec![0; o.data.len()];
                        }
                        for (i, (c, s)) in bs.into_iter().enumerate() {
                            o.data[off + i] = c;
                            o.sym[off + i] = s;
                        }
                        Ok(())
                    }
                    _ => Err(oob("write", addr, n as u64)),
                }
            }
            V::A(_) => Err(Halt::Unsupported("store aggregate as scalar".into())),
        }
    }
    fn load_ty(&mut self, addr: u64, t: &Ty) -> R<V> {
        let w = t.width();
        if w > 0 {
            return self.load(addr, w);
        }
        if let Ty::Vec(n, e) = t {
            if e.width() < 8 {
                let bits = self.load(addr, (*n as u32) * e.width())?;
                return self.bits_to(bits, t);
            }
        }
        let mut o = vec![];
        for i in 0..t.nelem() {
            o.push(self.load_ty(addr + t.field_offset(i), t.elem(i))?);
        }
        Ok(V::A(Rc::new(o)))
    }
    fn store_ty(&mut self, addr: u64, t: &Ty, v: &V) -> R<()> {
        let w = t.width();
        if w > 0 {
            return self.store(addr, v, w);
        }
        if let Ty::Vec(n, e) = t {
            if e.width() < 8 {
                let b = self.to_bits(v, t)?;
                return self.store(addr, &b, (*n as u32) * e.width());
            }
        }
        if let V::A(a) = v {
            for i in 0..t.nelem() {
                self.store_ty(addr + t.field_offset(i), t.elem(i), &a[i])?;
            }
        }
        Ok(())
    }
    fn lane(t: &Ty) -> u32 {
        match t {
            Ty::Vec(_, e) => e.width(),
            t => t.width(),
        }
    }
    fn to_bits(&mut self, v: &V, t: &Ty) -> R<V> {
        match v {
            V::A(a) => {
                let w = Self::lane(t);
                let n = a.len() as u32;
                if n * w > 128 {
                    return Err(Halt::Unsupported("vector >128 bits".into()));
                }
                if a.iter().all(|x| matches!(x, V::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in a.iter().enumerate() {
                        if let V::C(c) = x {
                            r |= ((*c & m64(w)) as u128) << (i as u32 * w);
                        }
                    }
                    return Ok(if n * w > 64 { V::W(Rc::new(r)) } else { V::C(r as u64) });
                }
                let mut e = 0;
                for (i, x) in a.iter().enumerate() {
                    let xe = self.e(x, w);
                    e = if i == 0 { xe } else { self.cx.mk(Op::Concat, ((i as u32 + 1) * w) as u8, xe, e, 0, 0) };
                }
                Ok(self.v(e))
            }
            v => Ok(v.clone()),
        }
    }
    fn bits_to(&mut self, v: V, t: &Ty) -> R<V> {
        match t {
            Ty::Vec(n, el) => {
                let w = el.width();
                let mut o = vec![];
                for i in 0..*n as u32 {
                    o.push(match &v {
                        V::C(c) => V::C((c >> (i * w)) & m64(w)),
                        V::W(c) => V::C(((**c >> (i * w)) as u64) & m64(w)),
                        V::S(e) => {
                            let x = self.cx.mk(Op::Extract, w as u8, *e, 0, 0, i * w);
                            self.v(x)
                        }
                        V::A(_) => return Err(Halt::Unsupported("bits_to".into())),
                    });
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Ok(v),
        }
    }
    /// load through a possibly symbolic address
    fn load_v(&mut self, p: &V, w: u32) -> R<V> {
        match p {
            V::C(a) => self.load(*a, w),
            V::S(e) => {
                let e = *e;
                let n = ((w + 7) / 8) as usize;
                if w <= 64 {
                    if let Node::Tab { v, t } = self.cx.nodes[e as usize].clone() {
                        let d = self.st.dom[v as usize];
                        let mut arr = [0u64; 256];
                        let mut ok = true;
                        let mut last: Option<(u64, u64)> = None;
                        for i in 0..256 {
                            if d[i >> 6] >> (i & 63) & 1 == 0 {
                                continue;
                            }
                            let a = t.get(i);
                            if let Some((la, lv)) = last {
                                if la == a {
                                    arr[i] = lv;
                                    continue;
                                }
                            }
                            let off = (a & 0xffff_ffff) as usize;
                            match self.obj(a >> 32) {
                                Some(o) if off + n <= o.data.len() && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0)) => {
                                    let mut b = [0u8; 8];
                                    b[..n].copy_from_slice(&o.data[off..off + n]);
                                    arr[i] = u64::from_le_bytes(b) & m64(w);
                                    last = Some((a, arr[i]));
                                }
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            let r = self.cx.tab(v, w as u8, &|i| arr[i]);
                            return Ok(self.v(r));
                        }
                    } else {
                        let (lo, hi) = self.interval(e);
                        let (lo, hi) = (lo as u64, hi as u64);
                        if lo >> 32 == hi >> 32 && hi - lo <= 8192 {
                            let o1 = (lo & 0xffff_ffff) as usize;
                            let o2 = (hi & 0xffff_ffff) as usize;
                            let tb: Option<Vec<u64>> = match self.obj(lo >> 32) {
                                Some(o) if o2 + n <= o.data.len() && (o.sym.is_empty() || o.sym[o1..o2 + n].iter().all(|x| *x == 0)) => Some(
                                    (o1..=o2)
                                        .map(|k| {
                                            let mut b = [0u8; 8];
                                            b[..n].copy_from_slice(&o.data[k..k + n]);
                                            u64::from_le_bytes(b) & m64(w)
                                        })
                                        .collect(),
                                ),
                                _ => None,
                            };
                            if let Some(tb) = tb {
                                let t = self.cx.table(tb);
                                let k = self.cx.cst(lo as u128, 64);
                                let ix = self.cx.mk(Op::Sub, 64, e, k, 0, 0);
                                let r = self.cx.mk(Op::Lookup, w as u8, ix, 0, 0, t);
                                return Ok(self.v(r));
                            }
                        }
                    }
                }
                let a = self.concretize(e)?;
                self.load(a, w)
            }
            _ => Err(Halt::Unsupported("load address".into())),
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let so = (s & 0xffff_ffff) as usize;
        let (data, sym) = match self.obj(s >> 32) {
            Some(o) if so + n <= o.data.len() => {
                let sym = if o.sym.is_empty() || o.sym[so..so + n].iter().all(|e| *e == 0) { None } else { Some(o.sym[so..so + n].to_vec()) };
                (o.data[so..so + n].to_vec(), sym)
            }
            _ => return Err(oob("memcpy read", s, n as u64)),
        };
        let dof = (d & 0xffff_ffff) as usize;
        match self.obj_mut(d >> 32) {
            Some(o) if dof + n <= o.data.len() => {
                o.data[dof..dof + n].copy_from_slice(&data);
                match sym {
                    Some(sv) => {
                        if o.sym.is_empty() {
                            o.sym = vec![0; o.data.len()];
                        }
                        o.sym[dof..dof + n].copy_from_slice(&sv);
                    }
                    None => {
                        if !o.sym.is_empty() {
                            for x in &mut o.sym[dof..dof + n] {
                                *x = 0;
                            }
                        }
                    }
                }
                Ok(())
            }
            _ => Err(oob("memcpy write", d, n as u64)),
        }
    }
    fn memset(&mut self, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let dof = (d & 0xffff_ffff) as usize;
        match self.obj_mut(d >> 32) {
            Some(o) if dof + n <= o.data.len() => {
                let (c, s) = match v {
                    V::C(c) => (*c as u8, 0),
                    V::S(e) => (0, *e),
                    _ => (0, 0),
                };
                for x in &mut o.data[dof..dof + n] {
                    *x = c;
                }
                if s != 0 && o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                if !o.sym.is_empty() {
                    for x in &mut o.sym[dof..dof + n] {
                        *x = s;
                    }
                }
                Ok(())
            }
            _ => Err(oob("memset", d, n as u64)),
        }
    }
    fn cmp_mem(&mut self, a: u64, b: u64, n: u64) -> R<i32> {
        for i in 0..n {
            let x = self.load(a + i, 8)?;
            let y = self.load(b + i, 8)?;
            match (&x, &y) {
                (V::C(p), V::C(q)) => {
                    if p != q {
                        return Ok(if p < q { -1 } else { 1 });
                    }
                }
                _ => {
                    let xe = self.e(&x, 8);
                    let ye = self.e(&y, 8);
                    let eq = self.cx.mk(Op::Eq, 1, xe, ye, 0, 0);
                    if !self.branch(eq)? {
                        let lt = self.cx.mk(Op::Ult, 1, xe, ye, 0, 0);
                        return Ok(if self.branch(lt)? { -1 } else { 1 });
                    }
                }
            }
        }
        Ok(0)
    }
    fn bcmp(&mut self, a: u64, b: u64, n: u64) -> R<i32> {
        // decide definite mismatches first to avoid pointless forks
        let mut pend = vec![];
        for i in 0..n {
            let x = self.load(a + i, 8)?;
            let y = self.load(b + i, 8)?;
            match (&x, &y) {
                (V::C(p), V::C(q)) => {
                    if p != q {
                        return Ok(1);
                    }
                }
                _ => {
                    let xe = self.e(&x, 8);
                    let ye = self.e(&y, 8);
                    let eq = self.cx.mk(Op::Eq, 1, xe, ye, 0, 0);
                    match self.known(eq) {
                        Some(false) => return Ok(1),
                        Some(true) => {}
                        None => pend.push(eq),
                    }
                }
            }
        }
        for eq in pend {
            if !self.branch(eq)? {
                return Ok(1);
            }
        }
        Ok(0)
    }

    // ------------------------------------------------------------ scalar operations
    fn huge(&self, v: &V) -> R<(u128, u128)> {
        match v {
            V::C(c) => Ok((*c as u128, 0)),
            V::W(c) => Ok((**c, 0)),
            V::A(x) if x.len() == 2 => Ok((self.wide(&x[0])?, self.wide(&x[1])?)),
            _ => Err(Halt::Unsupported("symbolic integer wider than 128 bits".into())),
        }
    }
    fn mk_huge(l: u128, h: u128) -> V {
        V::A(Rc::new(vec![V::W(Rc::new(l)), V::W(Rc::new(h))]))
    }
    /// 256-bit arithmetic on concrete values (the standard library's u128 formatting)
    fn bin_huge(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if w != 256 {
            return Err(Halt::Unsupported(format!("i{w} arithmetic")));
        }
        let ((al, ah), (bl, bh)) = (self.huge(a)?, self.huge(b)?);
        let (l, h) = match op {
            BinOp::Add => {
                let (l, c) = al.overflowing_add(bl);
                (l, ah.wrapping_add(bh).wrapping_add(c as u128))
            }
            BinOp::Sub => {
                let (l, c) = al.overflowing_sub(bl);
                (l, ah.wrapping_sub(bh).wrapping_sub(c as u128))
            }
            BinOp::Mul => {
                let m = u64::MAX as u128;
                let (a0, a1, b0, b1) = (al & m, al >> 64, bl & m, bl >> 64);
                let mid = (a0 * b0 >> 64) + (a1 * b0 & m) + (a0 * b1 & m);
                let l = (a0 * b0 & m) | mid << 64;
                let h = a1 * b1 + (a1 * b0 >> 64) + (a0 * b1 >> 64) + (mid >> 64);
                (l, h.wrapping_add(al.wrapping_mul(bh)).wrapping_add(ah.wrapping_mul(bl)))
            }
            BinOp::LShr => match bl {
                0 => (al, ah),
                1..=127 => (al >> bl | ah << (128 - bl), ah >> bl),
                128..=255 => (ah >> (bl - 128), 0),
                _ => (0, 0),
            },
            BinOp::Shl => match bl {
                0 => (al, ah),
                1..=127 => (al << bl, ah << bl | al >> (128 - bl)),
                128..=255 => (0, al << (bl - 128)),
                _ => (0, 0),
            },
            BinOp::And => (al & bl, ah & bh),
            BinOp::Or => (al | bl, ah | bh),
            BinOp::Xor => (al ^ bl, ah ^ bh),
            _ => return Err(Halt::Unsupported("i256 division".into())),
        };
        Ok(Self::mk_huge(l, h))
    }
    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        use BinOp::*;
        if w > 128 {
            return self.bin_huge(op, w, a, b);
        }
        if let (V::C(x), V::C(y), true) = (a, b, w <= 64) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Add => x.wrapping_add(y) & m,
                Sub => x.wrapping_sub(y) & m,
                Mul => x.wrapping_mul(y) & m,
                UDiv => { if y == 0 { return Err(self.ub("division by zero")); } x / y }
                URem => { if y == 0 { return Err(self.ub("division by zero")); } x % y }
                SDiv => {
                    if y == 0 { return Err(self.ub("division by zero")); }
                    (sext64(x, w).wrapping_div(sext64(y, w)) as u64) & m
                }
                SRem => {
                    if y == 0 { return Err(self.ub("division by zero")); }
                    (sext64(x, w).wrapping_rem(sext64(y, w)) as u64) & m
                }
                Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                LShr => if y >= w as u64 { 0 } else { x >> y },
                AShr => ((sext64(x, w) >> y.min(w as u64 - 1)) as u64) & m,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                FAdd | FSub | FMul | FDiv | FRem => {
                    if w == 64 {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        (match op { FAdd => p + q, FSub => p - q, FMul => p * q, FDiv => p / q, _ => p % q }).to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op { FAdd => p + q, FSub => p - q, FMul => p * q, FDiv => p / q, _ => p % q }).to_bits() as u64
                    }
                }
            };
            return Ok(V::C(r));
        }
        if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
            let x = self.cv(a)?;
            let y = self.cv(b)?;
            return self.bin(op, w, &V::C(x), &V::C(y));
        }
        if op == Mul && w == 64 {
            // rustc-hash (FxHasher) multiplications of symbolic data feed interning tables only; a
            // fresh value models a table that never hits, which those tables permit.
            if let (V::S(_), V::C(0x517cc1b727220a95)) | (V::C(0x517cc1b727220a95), V::S(_)) = (a, b) {
                self.st.uniq += 1;
                let u = self.st.uniq;
                return Ok(V::C((u << 57) ^ (u << 3) ^ 0x0123_4567_0000_0000));
            }
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let o = match op {
            Add => Op::Add,
            Sub => Op::Sub,
            Mul => Op::Mul,
            UDiv => Op::UDiv,
            URem => Op::URem,
            SDiv => Op::SDiv,
            SRem => Op::SRem,
            Shl => Op::Shl,
            LShr => Op::LShr,
            AShr => Op::AShr,
            And => Op::And,
            Or => Op::Or,
            _ => Op::Xor,
        };
        let r = self.cx.mk(o, w as u8, x, y, 0, 0);
        Ok(self.v(r))
    }
    fn ub(&self, s: &str) -> Halt {
        Halt::Fail { kind: "ub".into(), msg: s.into(), loc: String::new() }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y), true) = (a, b, w <= 64) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext64(x, w) > sext64(y, w),
                Pred::Sge => sext64(x, w) >= sext64(y, w),
                Pred::Slt => sext64(x, w) < sext64(y, w),
                Pred::Sle => sext64(x, w) <= sext64(y, w),
            };
            return Ok(V::C(r as u64));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.cx.mk(Op::Eq, 1, x, y, 0, 0),
            Pred::Ne => {
                let e = self.cx.mk(Op::Eq, 1, x, y, 0, 0);
                self.cx.not(e)
            }
            Pred::Ugt => self.cx.mk(Op::Ult, 1, y, x, 0, 0),
            Pred::Uge => self.cx.mk(Op::Ule, 1, y, x, 0, 0),
            Pred::Ult => self.cx.mk(Op::Ult, 1, x, y, 0, 0),
            Pred::Ule => self.cx.mk(Op::Ule, 1, x, y, 0, 0),
            Pred::Sgt => self.cx.mk(Op::Slt, 1, y, x, 0, 0),
            Pred::Sge => self.cx.mk(Op::Sle, 1, y, x, 0, 0),
            Pred::Slt => self.cx.mk(Op::Slt, 1, x, y, 0, 0),
            Pred::Sle => self.cx.mk(Op::Sle, 1, x, y, 0, 0),
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, op: CastOp, from: u32, to: u32, a: &V) -> R<V> {
        match op {
            CastOp::BitcastSame => Ok(a.clone()),
            CastOp::Zext | CastOp::Sext | CastOp::Trunc if from > 128 || to > 128 => {
                let (l, h) = self.huge(a)?;
                match op {
                    CastOp::Zext => Ok(Self::mk_huge(l, h)),
                    CastOp::Trunc if to <= 64 => Ok(V::C(l as u64 & m64(to))),
                    CastOp::Trunc if to <= 128 => Ok(V::W(Rc::new(l & mask(to as u8)))),
                    _ => Err(Halt::Unsupported(format!("{op:?} of i{from} to i{to}"))),
                }
            }
            CastOp::Zext | CastOp::Sext | CastOp::Trunc => {
                if let V::C(c) = a {
                    if to <= 64 {
                        return Ok(V::C(match op {
                            CastOp::Sext => sext64(*c, from) as u64 & m64(to),
                            _ => *c & m64(to),
                        }));
                    }
                    let r = match op {
                        CastOp::Sext => (sext64(*c, from) as i128 as u128) & mask(to as u8),
                        _ => *c as u128,
                    };
                    return Ok(V::W(Rc::new(r)));
                }
                let e = self.e(a, from);
                let o = match op {
                    CastOp::Zext => Op::Zext,
                    CastOp::Sext => Op::Sext,
                    _ => Op::Extract,
                };
                let r = self.cx.mk(o, to as u8, e, 0, 0, 0);
                Ok(self.v(r))
            }
            _ => {
                let wide = match a { V::W(x) => Some(**x), _ => None };
                let c = self.cv(a)?;
                let f = if from == 64 { f64::from_bits(c) } else { f32::from_bits(c as u32) as f64 };
                Ok(V::C(match op {
                    CastOp::FpToUi => {
                        if to > 64 { return Ok(V::W(Rc::new(f as u128))); }
                        (f as u64) & m64(to)
                    }
                    CastOp::FpToSi => {
                        if to > 64 { return Ok(V::W(Rc::new(f as i128 as u128))); }
                        (f as i64 as u64) & m64(to)
                    }
                    CastOp::UiToFp => match (to, wide) {
                        (64, None) => (c as f64).to_bits(),
                        (64, Some(w)) => (w as f64).to_bits(),
                        (_, None) => (c as f32).to_bits() as u64,
                        (_, Some(w)) => (w as f32).to_bits() as u64,
                    },
                    CastOp::SiToFp => match (to, wide) {
                        (64, None) => (sext64(c, from) as f64).to_bits(),
                        (64, Some(w)) => (w as i128 as f64).to_bits(),
                        (_, None) => (sext64(c, from) as f32).to_bits() as u64,
                        (_, Some(w)) => (w as i128 as f32).to_bits() as u64,
                    },
                    CastOp::FpExt => f.to_bits(),
                    _ => (f as f32).to_bits() as u64,
                }))
            }
        }
    }
    fn fcmp(&mut self, p: u32, w: u32, a: &V, b: &V) -> R<V> {
        let x = self.cv(a)?;
        let y = self.cv(b)?;
        let (x, y) = if w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
        let un = x.is_nan() || y.is_nan();
        let r = match p {
            0 => false,
            1 => !un && x == y,
            2 => !un && x > y,
            3 => !un && x >= y,
            4 => !un && x < y,
            5 => !un && x <= y,
            6 => !un && x != y,
            7 => !un,
            8 => un || x == y,
            9 => un || x > y,
            10 => un || x >= y,
            11 => un || x < y,
            12 => un || x <= y,
            13 => un || x != y,
            14 => un,
            _ => true,
        };
        Ok(V::C(r as u64))
    }
    fn select(&mut self, c: &V, a: V, b: V, w: u32) -> R<V> {
        match c {
            V::C(x) => Ok(if *x & 1 == 1 { a } else { b }),
            V::S(e) => {
                if let Some(k) = self.known(*e) {
                    return Ok(if k { a } else { b });
                }
                if w == 0 || matches!(a, V::A(_)) || matches!(b, V::A(_)) {
                    return Ok(if self.branch(*e)? { a } else { b });
                }
                let x = self.e(&a, w);
                let y = self.e(&b, w);
                let r = self.cx.mk(Op::Ite, w as u8, *e, x, y, 0);
                Ok(self.v(r))
            }
            _ => Err(Halt::Unsupported("select".into())),
        }
    }

    // ------------------------------------------------------------ control
    pub fn start(&mut self, entry: u32, replay: Vec<u32>) {
        self.st = State::new(self.p);
        self.st.replay = replay.into();
        let f = &self.p.m.funcs[entry as usize];
        self.st.stk.push(Rc::new(Obj { data: vec![0; f.frame as usize], sym: vec![] }));
        self.st.frames.push(Frame { func: entry, ip: f.blocks[0].start, block: 0, stk: 0, regs: vec![V::C(0); f.nregs as usize] });
        self.stats.funcs[entry as usize] = true;
    }

    fn goto(&mut self, t: u32) {
        let p = self.p;
        let (func, cur) = {
            let f = self.st.frames.last().unwrap();
            (f.func, f.block)
        };
        let b = &p.m.funcs[func as usize].blocks[t as usize];
        if !b.phis.is_empty() {
            if let Some((_, mv)) = b.phis.iter().find(|x| x.0 == cur) {
                if mv.len() == 1 {
                    let v = self.op(&mv[0].1);
                    self.set(mv[0].0, v);
                } else {
                    let vals: Vec<V> = mv.iter().map(|(_, o)| self.op(o)).collect();
                    for ((d, _), v) in mv.iter().zip(vals) {
                        self.set(*d, v);
                    }
                }
            }
        }
        let f = self.st.frames.last_mut().unwrap();
        f.block = t;
        f.ip = b.start;
    }

    fn enter(&mut self, f: u32, args: Vec<V>) -> R<()> {
        let fun = &self.p.m.funcs[f as usize];
        if !fun.defined {
            return Err(Halt::Unsupported(format!("extern {}", fun.name)));
        }
        if self.st.frames.len() > 3000 {
            return Err(Halt::Fail { kind: "stack".into(), msg: "call depth above 3000 frames".into(), loc: String::new() });
        }
        self.stats.funcs[f as usize] = true;
        let mut regs = args;
        regs.resize(fun.nregs as usize, V::C(0));
        let stk = self.st.stk.len() as u32;
        self.st.stk.push(Rc::new(Obj { data: vec![0; fun.frame as usize], sym: vec![] }));
        self.st.frames.push(Frame { func: f, ip: fun.blocks[0].start, block: 0, stk, regs });
        Ok(())
    }

    fn str_at(&self, p: u64, n: u64) -> String {
        let off = (p & 0xffff_ffff) as usize;
        match self.obj(p >> 32) {
            Some(o) if off + n as usize <= o.data.len() => String::from_utf8_lossy(&o.data[off..off + n as usize]).to_string(),
            _ => String::new(),
        }
    }
    fn location(&self, v: &V) -> String {
        if let V::C(a) = v {
            let off = (a & 0xffff_ffff) as usize;
            if (a >> 32) < FBASE {
                if let Some(o) = self.obj(a >> 32) {
                    if off + 24 <= o.data.len() {
                        let g = |i: usize| u64::from_le_bytes(o.data[off + i..off + i + 8].try_into().unwrap());
                        let (p, n, lc) = (g(0), g(8), g(16));
                        if n < 400 && p >> 32 >= GBASE && p >> 32 < FBASE {
                            let f = self.str_at(p, n);
                            let f = f.trim_end_matches('\0').to_string();
                            return format!("{}:{}", f, lc as u32);
                        }
                    }
                }
            }
        }
        String::new()
    }

    pub fn backtrace(&self) -> Vec<String> {
        self.st.frames.iter().rev().take(12).map(|f| ir::pretty(&self.p.m.funcs[f.func as usize].name)).collect()
    }

    fn call_builtin(&mut self, b: B, fid: u32, args: &[Opd], argw: &[u32], retw: u32) -> R<V> {
        let a: Vec<V> = args.iter().map(|o| self.op(o)).collect();
        let _ = retw;
        Ok(match b {
            B::Alloc => {
                let n = self.cv(&a[0])?;
                V::C(self.alloc(n)?)
            }
            B::AllocZ => {
                let n = self.cv(&a[0])?;
                V::C(self.alloc(n)?)
            }
            B::Malloc => {
                let n = self.cv(&a[0])?;
                V::C(self.alloc(n)?)
            }
            B::Calloc => {
                let n = self.cv(&a[0])?;
                let k = self.cv(&a[1])?;
                V::C(self.alloc(n * k)?)
            }
            B::PosixMemalign => {
                let n = self.cv(&a[2])?;
                let p = self.cv(&a[0])?;
                let r = self.alloc(n)?;
                self.store(p, &V::C(r), 64)?;
                V::C(0)
            }
            B::Dealloc | B::Free => {
                let p = self.cv(&a[0])?;
                if p != 0 {
                    self.dealloc(p)?;
                }
                V::C(0)
            }
            B::Realloc | B::ReallocC => {
                let p = self.cv(&a[0])?;
                let n = if b == B::Realloc { self.cv(&a[3])? } else { self.cv(&a[1])? };
                let old = match self.obj(p >> 32) {
                    Some(o) => o.data.len() as u64,
                    None => return Err(oob("realloc", p, n)),
                };
                let r = self.alloc(n)?;
                self.memcpy(r, p, old.min(n))?;
                self.dealloc(p)?;
                V::C(r)
            }
            B::NoShim | B::Ret0 | B::Unwind => V::C(0),
            B::Memcpy => {
                let n = self.cv(&a[2])?;
                let s = self.cv(&a[1])?;
                let d = self.cv(&a[0])?;
                self.memcpy(d, s, n)?;
                V::C(d)
            }
            B::Memset => {
                let n = self.cv(&a[2])?;
                let d = self.cv(&a[0])?;
                let v = self.cast(CastOp::Trunc, argw[1], 8, &a[1])?;
                self.memset(d, &v, n)?;
                V::C(d)
            }
            B::Memcmp => {
                let n = self.cv(&a[2])?;
                let x = self.cv(&a[0])?;
                let y = self.cv(&a[1])?;
                V::C(self.cmp_mem(x, y, n)? as u32 as u64)
            }
            B::Bcmp => {
                let n = self.cv(&a[2])?;
                let x = self.cv(&a[0])?;
                let y = self.cv(&a[1])?;
                V::C(self.bcmp(x, y, n)? as u32 as u64)
            }
            B::Strlen => {
                let x = self.cv(&a[0])?;
                let mut n = 0;
                loop {
                    let c = self.load(x + n, 8)?;
                    let z = match &c {
                        V::C(c) => *c == 0,
                        c => {
                            let e = self.e(c, 8);
                            let k = self.cx.cst(0, 8);
                            let q = self.cx.mk(Op::Eq, 1, e, k, 0, 0);
                            self.branch(q)?
                        }
                    };
                    if z {
                        break;
                    }
                    n += 1;
                }
                V::C(n)
            }
            B::Memchr => {
                let p = self.cv(&a[1])?;
                let n = self.cv(&a[2])?;
                let mut r = V::A(Rc::new(vec![V::C(0), V::C(0)]));
                for i in 0..n {
                    let c = self.load(p + i, 8)?;
                    let q = self.icmp(Pred::Eq, 8, &c, &a[0])?;
                    let hit = match q {
                        V::C(x) => x == 1,
                        V::S(e) => self.branch(e)?,
                        _ => false,
                    };
                    if hit {
                        r = V::A(Rc::new(vec![V::C(1), V::C(i)]));
                        break;
                    }
                }
                r
            }
            B::Panic => {
                let loc = a.iter().rev().map(|v| self.location(v)).find(|s| !s.is_empty()).unwrap_or_default();
                let name = ir::pretty(&self.p.m.funcs[fid as usize].name);
                let mut msg = name.clone();
                if name == "core::panicking::panic" && a.len() >= 2 {
                    if let (V::C(p), V::C(n)) = (&a[0], &a[1]) {
                        if *n < 4096 {
                            msg = self.str_at(*p, *n);
                        }
                    }
                }
                return Err(Halt::Fail { kind: "panic".into(), msg, loc });
            }
            B::HashOne => V::C(0x1234_5678_9abc_def0),
            B::SipOne => {
                // the keys are passed in memory or, after argument promotion, as values
                let keys = if self.p.m.funcs[fid as usize].ptr0 {
                    let p = self.cv(&a[0])?;
                    (self.load(p, 64)?, self.load(p + 8, 64)?)
                } else {
                    (a[0].clone(), a.get(1).cloned().unwrap_or(V::C(0)))
                };
                match keys {
                    (V::C(k0), V::C(k1)) => V::C(sip13_empty(k0, k1)),
                    _ => V::C(0x1234_5678_9abc_def0),
                }
            }
            B::FxUniq => V::C(0),
            B::GetRandom => {
                let n = self.cv(&a[1])?;
                V::C(n)
            }
            B::Errno => {
                return Err(Halt::Unsupported("errno".into()));
            }
            B::VxByte => {
                let v = self.st.dom.len() as u16;
                self.st.dom.push([u64::MAX; 4]);
                self.st.inputs.push(Inp::Var(v));
                V::S(self.cx.var(v))
            }
            B::VxU64 => {
                let mut e = 0;
                for i in 0..8 {
                    let v = self.st.dom.len() as u16;
                    self.st.dom.push([u64::MAX; 4]);
                    self.st.inputs.push(Inp::Var(v));
                    let x = self.cx.var(v);
                    e = if i == 0 { x } else { self.cx.mk(Op::Concat, 8 * (i + 1), x, e, 0, 0) };
                }
                V::S(e)
            }
            B::VxChoose => {
                let n = self.cv(&a[0])?;
                if self.st.pending.is_none() {
                    if n == 0 {
                        return Err(Halt::Assume);
                    }
                    let m = 1.0 / n as f64;
                    let opts: Vec<Cs> = (0..n).map(|k| Cs::Choice(k, m)).collect();
                    self.fork(opts)?;
                }
                let k = self.st.pending.take().unwrap();
                self.st.inputs.push(Inp::Const(k));
                V::C(k)
            }
            B::VxAssume => {
                let c = match &a[0] {
                    V::C(c) => *c & 1 == 1,
                    V::S(e) => {
                        let mut e = *e;
                        if self.cx.w[e as usize] > 1 {
                            e = self.cx.mk(Op::Extract, 1, e, 0, 0, 0);
                        }
                        match self.known(e) {
                            Some(k) => k,
                            None => {
                                if let Node::Tab { .. } = self.cx.nodes[e as usize] {
                                    // narrow without forking: account for the excluded weight
                                    let before = self.mass();
                                    self.add_cond(e)?;
                                    let after = self.mass();
                                    if !self.st.relational && self.st.replay.is_empty() {
                                        self.stats.mass += before - after;
                                    }
                                    true
                                } else {
                                    self.branch(e)?
                                }
                            }
                        }
                    }
                    _ => true,
                };
                if !c {
                    return Err(Halt::Assume);
                }
                V::C(0)
            }
            B::VxFail => {
                let p = self.cv(&a[0])?;
                let n = self.cv(&a[1])?;
                return Err(Halt::Fail { kind: "assert".into(), msg: self.str_at(p, n), loc: String::new() });
            }
            B::VxKnown => {
                let p = self.cv(&a[0])?;
                let n = self.cv(&a[1])?;
                return Err(Halt::Known(self.str_at(p, n)));
            }
            B::VxObserve => {
                self.st.obs.push(a[0].clone());
                V::C(0)
            }
            B::VxCover => {
                let k = self.cv(&a[0])?;
                self.st.covers |= 1 << (k & 63);
                V::C(0)
            }
            B::VxConcrete => V::C(self.cv(&a[0])?),
            B::VxIsSym => V::C(matches!(a[0], V::S(_)) as u64),
        })
    }

    fn mass(&self) -> f64 {
        let mut m = self.st.mass;
        for d in &self.st.dom {
            m *= popc(d) as f64 / 256.0;
        }
        m
    }

    fn tabmap(&mut self, e: E, w: u8, f: &dyn Fn(u64) -> u64) -> Option<E> {
        if let Node::Tab { v, t } = self.cx.nodes[e as usize].clone() {
            Some(self.cx.tab(v, w, &|i| f(t.get(i))))
        } else {
            None
        }
    }

    fn intrinsic(&mut self, id: u32, args: &[Opd], argw: &[u32], retw: u32) -> R<V> {
        let k = self.p.ik[id as usize];
        let a: Vec<V> = args.iter().map(|o| self.op(o)).collect();
        let w = argw.first().copied().unwrap_or(0);
        // lane-wise vector intrinsics
        if let Some(V::A(l)) = a.first() {
            if !matches!(k, Ik::RedOr | Ik::RedAnd | Ik::RedAdd | Ik::RedXor | Ik::RedUMax | Ik::RedUMin) {
                let n = l.len();
                let mut out = vec![];
                for i in 0..n {
                    let la: Vec<V> = a.iter().map(|x| if let V::A(x) = x { x[i].clone() } else { x.clone() }).collect();
                    out.push(self.intr1(k, id, &la, w, retw)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        self.intr1(k, id, &a, w, retw)
    }

    fn intr1(&mut self, k: Ik, id: u32, a: &[V], w: u32, retw: u32) -> R<V> {
        let conc = a.iter().all(|x| matches!(x, V::C(_)));
        let pair = |x: V, y: V| V::A(Rc::new(vec![x, y]));
        Ok(match k {
            Ik::Memcpy => {
                let n = self.cv(&a[2])?;
                let s = self.cv(&a[1])?;
                let d = self.cv(&a[0])?;
                self.memcpy(d, s, n)?;
                V::C(0)
            }
            Ik::Memset => {
                let n = self.cv(&a[2])?;
                let d = self.cv(&a[0])?;
                self.memset(d, &a[1], n)?;
                V::C(0)
            }
            Ik::Trap => return Err(Halt::Fail { kind: "trap".into(), msg: "trap".into(), loc: String::new() }),
            Ik::Expect | Ik::TlAddr | Ik::Nop => a.first().cloned().unwrap_or(V::C(0)),
            Ik::IsConst | Ik::Ret0 => V::C(0),
            Ik::PtrMask => self.bin(BinOp::And, 64, &a[0], &a[1])?,
            Ik::UAddO => {
                let s = self.bin(BinOp::Add, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &s, &a[0])?;
                pair(s, o)
            }
            Ik::USubO => {
                let s = self.bin(BinOp::Sub, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &a[0], &a[1])?;
                pair(s, o)
            }
            Ik::UMulO => {
                if w > 64 {
                    return self.mulo(w, false, &a[0], &a[1]);
                }
                let x = self.cast(CastOp::Zext, w, 2 * w, &a[0])?;
                let y = self.cast(CastOp::Zext, w, 2 * w, &a[1])?;
                let s = self.wbin(BinOp::Mul, 2 * w, &x, &y)?;
                let lo = self.cast_any(CastOp::Trunc, 2 * w, w, &s)?;
                let hi = self.wshr(&s, 2 * w, w)?;
                let o = self.icmp(Pred::Ne, w, &hi, &V::C(0))?;
                pair(lo, o)
            }
            Ik::SMulO => {
                if w > 64 {
                    return self.mulo(w, true, &a[0], &a[1]);
                }
                let x = self.cast(CastOp::Sext, w, 2 * w, &a[0])?;
                let y = self.cast(CastOp::Sext, w, 2 * w, &a[1])?;
                let s = self.wbin(BinOp::Mul, 2 * w, &x, &y)?;
                let lo = self.cast_any(CastOp::Trunc, 2 * w, w, &s)?;
                let back = self.cast(CastOp::Sext, w, 2 * w, &lo)?;
                let (e1, e2) = (self.e(&s, 2 * w), self.e(&back, 2 * w));
                let q = self.cx.mk(Op::Eq, 1, e1, e2, 0, 0);
                let o = self.cx.not(q);
                let o = self.v(o);
                pair(lo, o)
            }
            Ik::SAddO | Ik::SSubO => {
                let add = k == Ik::SAddO;
                let s = self.bin(if add { BinOp::Add } else { BinOp::Sub }, w, &a[0], &a[1])?;
                // add: overflow iff (a^s)&(b^s) <0 ; sub: (a^b)&(a^s) < 0
                let x = self.bin(BinOp::Xor, w, &a[0], &s)?;
                let y = if add { self.bin(BinOp::Xor, w, &a[1], &s)? } else { self.bin(BinOp::Xor, w, &a[0], &a[1])? };
                let z = self.bin(BinOp::And, w, &x, &y)?;
                let zero = if w > 64 { V::W(Rc::new(0)) } else { V::C(0) };
                let o = self.icmp(Pred::Slt, w, &z, &zero)?;
                pair(s, o)
            }
            Ik::UAddS => {
                let s = self.bin(BinOp::Add, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &s, &a[0])?;
                self.select(&o, V::C(m64(w)), s, w)?
            }
            Ik::USubS => {
                let s = self.bin(BinOp::Sub, w, &a[0], &a[1])?;
                let o = self.icmp(Pred::Ult, w, &a[0], &a[1])?;
                self.select(&o, V::C(0), s, w)?
            }
            Ik::SAddS | Ik::SSubS => {
                let x = self.cv(&a[0])?;
                let y = self.cv(&a[1])?;
                let (x, y) = (sext64(x, w) as i128, sext64(y, w) as i128);
                let r = if k == Ik::SAddS { x + y } else { x - y };
                let mx = (m64(w) >> 1) as i128;
                V::C((r.clamp(-mx - 1, mx) as u64) & m64(w))
            }
            Ik::UMin | Ik::UMax | Ik::SMin | Ik::SMax => {
                let p = match k {
                    Ik::UMin => Pred::Ult,
                    Ik::UMax => Pred::Ugt,
                    Ik::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1])?;
                self.select(&c, a[0].clone(), a[1].clone(), w)?
            }
            Ik::Abs => {
                let zero = V::C(0);
                let c = self.icmp(Pred::Slt, w, &a[0], &zero)?;
                let n = self.bin(BinOp::Sub, w, &zero, &a[0])?;
                self.select(&c, n, a[0].clone(), w)?
            }
            Ik::UCmp | Ik::SCmp => {
                let (p1, p2) = if k == Ik::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(p1, w, &a[0], &a[1])?;
                let g = self.icmp(p2, w, &a[0], &a[1])?;
                let x = self.select(&g, V::C(1), V::C(0), retw)?;
                self.select(&l, V::C(m64(retw)), x, retw)?
            }
            Ik::Ctpop | Ik::Ctlz | Ik::Cttz | Ik::Bswap | Ik::Bitrev => {
                let f = move |x: u64| -> u64 {
                    match k {
                        Ik::Ctpop => x.count_ones() as u64,
                        Ik::Ctlz => (x.leading_zeros() as u64) - (64 - w as u64),
                        Ik::Cttz => (x.trailing_zeros() as u64).min(w as u64),
                        Ik::Bswap => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    }
                };
                match &a[0] {
                    V::C(x) => V::C(f(*x)),
                    V::W(x) => {
                        let x = **x;
                        match k {
                            Ik::Ctpop => V::W(Rc::new(x.count_ones() as u128)),
                            Ik::Ctlz => V::W(Rc::new(x.leading_zeros() as u128)),
                            Ik::Cttz => V::W(Rc::new(x.trailing_zeros() as u128)),
                            Ik::Bswap => V::W(Rc::new(x.swap_bytes())),
                            _ => V::W(Rc::new(x.reverse_bits())),
                        }
                    }
                    V::S(e) => {
                        let e = *e;
                        if w <= 64 {
                            if let Some(r) = self.tabmap(e, w as u8, &f) {
                                return Ok(self.v(r));
                            }
                        }
                        match k {
                            Ik::Ctlz | Ik::Cttz => {
                                let mut r = self.cx.cst(w as u128, w as u8);
                                for i in 0..w {
                                    let bit = if k == Ik::Cttz { w - 1 - i } else { i };
                                    let b = self.cx.mk(Op::Extract, 1, e, 0, 0, bit);
                                    let kk = self.cx.cst(if k == Ik::Cttz { bit } else { w - 1 - bit } as u128, w as u8);
                                    r = self.cx.mk(Op::Ite, w as u8, b, kk, r, 0);
                                }
                                self.v(r)
                            }
                            Ik::Bswap => {
                                let mut r = 0;
                                for i in 0..w / 8 {
                                    let b = self.cx.mk(Op::Extract, 8, e, 0, 0, w - 8 - 8 * i);
                                    r = if i == 0 { b } else { self.cx.mk(Op::Concat, (8 * (i + 1)) as u8, b, r, 0, 0) };
                                }
                                self.v(r)
                            }
                            Ik::Ctpop => {
                                let mut r = self.cx.cst(0, w as u8);
                                for i in 0..w {
                                    let b = self.cx.mk(Op::Extract, 1, e, 0, 0, i);
                                    let z = self.cx.mk(Op::Zext, w as u8, b, 0, 0, 0);
                                    r = self.cx.mk(Op::Add, w as u8, r, z, 0, 0);
                                }
                                self.v(r)
                            }
                            _ => {
                                let c = self.concretize(e)?;
                                V::C(f(c))
                            }
                        }
                    }
                    _ => return Err(Halt::Unsupported("bit intrinsic".into())),
                }
            }
            Ik::Fshl | Ik::Fshr => {
                let s = self.cv(&a[2])? % w as u64;
                if w > 64 {
                    return Err(Halt::Unsupported("wide funnel shift".into()));
                }
                if s == 0 {
                    return Ok(if k == Ik::Fshl { a[0].clone() } else { a[1].clone() });
                }
                let l = if k == Ik::Fshl { s } else { w as u64 - s };
                let x = self.bin(BinOp::Shl, w, &a[0], &V::C(l))?;
                let y = self.bin(BinOp::LShr, w, &a[1], &V::C(w as u64 - l))?;
                self.bin(BinOp::Or, w, &x, &y)?
            }
            Ik::RedOr | Ik::RedAnd | Ik::RedAdd | Ik::RedXor | Ik::RedUMax | Ik::RedUMin => {
                let l = match &a[0] {
                    V::A(l) => l.clone(),
                    _ => return Err(Halt::Unsupported("reduce".into())),
                };
                let mut r = l[0].clone();
                for x in l.iter().skip(1) {
                    r = match k {
                        Ik::RedOr => self.bin(BinOp::Or, w, &r, x)?,
                        Ik::RedAnd => self.bin(BinOp::And, w, &r, x)?,
                        Ik::RedAdd => self.bin(BinOp::Add, w, &r, x)?,
                        Ik::RedXor => self.bin(BinOp::Xor, w, &r, x)?,
                        _ => {
                            let c = self.icmp(if k == Ik::RedUMax { Pred::Ugt } else { Pred::Ult }, w, &r, x)?;
                            self.select(&c, r.clone(), x.clone(), w)?
                        }
                    };
                }
                r
            }
            Ik::Fabs | Ik::Floor | Ik::Ceil | Ik::Trunc | Ik::Round | Ik::Rint | Ik::Sqrt | Ik::Copysign | Ik::Fma | Ik::FMin | Ik::FMax | Ik::Pow => {
                let mut f = vec![];
                for x in a {
                    let c = self.cv(x)?;
                    f.push(if w == 64 { f64::from_bits(c) } else { f32::from_bits(c as u32) as f64 });
                }
                let r = match k {
                    Ik::Fabs => f[0].abs(),
                    Ik::Floor => f[0].floor(),
                    Ik::Ceil => f[0].ceil(),
                    Ik::Trunc => f[0].trunc(),
                    Ik::Round => f[0].round(),
                    Ik::Rint => f[0].round_ties_even(),
                    Ik::Sqrt => f[0].sqrt(),
                    Ik::Copysign => f[0].copysign(f[1]),
                    Ik::Fma => f[0].mul_add(f[1], f[2]),
                    Ik::FMin => f[0].min(f[1]),
                    Ik::FMax => f[0].max(f[1]),
                    _ => f[0].powf(f[1]),
                };
                V::C(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 })
            }
            Ik::FpToUiSat | Ik::FpToSiSat => {
                let c = self.cv(&a[0])?;
                let f = if w == 64 { f64::from_bits(c) } else { f32::from_bits(c as u32) as f64 };
                if k == Ik::FpToUiSat {
                    if retw > 64 { return Ok(V::W(Rc::new(f as u128))); }
                    V::C((f as u64).min(m64(retw)))
                } else {
                    if retw > 64 { return Ok(V::W(Rc::new(f as i128 as u128))); }
                    let mx = (m64(retw) >> 1) as i64;
                    V::C(((f as i64).clamp(-mx - 1, mx) as u64) & m64(retw))
                }
            }
            Ik::Unknown => {
                let _ = conc;
                return Err(Halt::Unsupported(format!("intrinsic {}", self.p.m.intrinsics[id as usize])));
            }
        })
    }
    fn wide(&self, v: &V) -> R<u128> {
        match v {
            V::C(c) => Ok(*c as u128),
            V::W(c) => Ok(**c),
            _ => Err(Halt::Unsupported("symbolic integer of more than 64 bits".into())),
        }
    }
    /// 128-bit multiplication with overflow flag; one factor has to be concrete
    fn mulo(&mut self, w: u32, signed: bool, a: &V, b: &V) -> R<V> {
        if w != 128 {
            return Err(Halt::Unsupported(format!("i{w} multiplication with overflow")));
        }
        let pair = |x: V, o: V| V::A(Rc::new(vec![x, o]));
        let (x, c) = match (a, b) {
            (V::S(_), V::S(_)) => return Err(Halt::Unsupported("symbolic 128-bit multiplication with overflow".into())),
            (V::S(_), _) => (a, self.wide(b)?),
            (_, V::S(_)) => (b, self.wide(a)?),
            _ => {
                let (x, y) = (self.wide(a)?, self.wide(b)?);
                let (r, o) = if signed {
                    let (r, o) = (x as i128).overflowing_mul(y as i128);
                    (r as u128, o)
                } else {
                    x.overflowing_mul(y)
                };
                return Ok(pair(V::W(Rc::new(r)), V::C(o as u64)));
            }
        };
        let r = self.bin(BinOp::Mul, w, x, &V::W(Rc::new(c)))?;
        let k = |v: u128| V::W(Rc::new(v));
        let o = if c == 0 {
            V::C(0)
        } else if !signed {
            self.icmp(Pred::Ugt, w, x, &k(u128::MAX / c))?
        } else if c as i128 > 0 {
            let lo = self.icmp(Pred::Slt, w, x, &k((i128::MIN / c as i128) as u128))?;
            let hi = self.icmp(Pred::Sgt, w, x, &k((i128::MAX / c as i128) as u128))?;
            self.bin(BinOp::Or, 1, &lo, &hi)?
        } else if c as i128 == -1 {
            self.icmp(Pred::Eq, w, x, &k(i128::MIN as u128))?
        } else {
            return Err(Halt::Unsupported("128-bit multiplication by a negative constant".into()));
        };
        Ok(pair(r, o))
    }
    fn wbin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if w <= 64 {
            return self.bin(op, w, a, b);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let o = match op {
            BinOp::Mul => Op::Mul,
            _ => Op::Add,
        };
        let r = self.cx.mk(o, w as u8, x, y, 0, 0);
        Ok(self.v(r))
    }
    fn cast_any(&mut self, op: CastOp, from: u32, to: u32, a: &V) -> R<V> {
        self.cast(op, from, to, a)
    }
    fn wshr(&mut self, v: &V, w: u32, s: u32) -> R<V> {
        let e = self.e(v, w);
        let r = self.cx.mk(Op::Extract, (w - s) as u8, e, 0, 0, s);
        Ok(self.v(r))
    }

    /// run the current state until it halts
    pub fn run(&mut self) -> Halt {
        loop {
            match self.step() {
                Ok(()) => {}
                Err(h) => return h,
            }
        }
    }

    #[inline]
    fn step(&mut self) -> R<()> {
        let p = self.p;
        let (func, ip) = {
            let f = self.st.frames.last().unwrap();
            (f.func as usize, f.ip as usize)
        };
        self.st.steps += 1;
        if self.st.steps > self.cfg.max_steps {
            return Err(Halt::Budget);
        }
        let ins = &p.m.funcs[func].code[ip];
        match ins {
            Ins::Bin { op, w, dst, a, b } => {
                let x = self.op(a);
                let y = self.op(b);
                let r = self.bin(*op, *w, &x, &y)?;
                self.set(*dst, r);
            }
            Ins::Icmp { p, w, dst, a, b } => {
                let x = self.op(a);
                let y = self.op(b);
                let r = self.icmp(*p, *w, &x, &y)?;
                self.set(*dst, r);
            }
            Ins::Load { dst, w, p } => {
                let a = self.op(p);
                let r = self.load_v(&a, *w)?;
                self.set(*dst, r);
            }
            Ins::Store { w, v, p } => {
                let a = self.op(p);
                let a = self.cv(&a)?;
                let v = self.op(v);
                self.store(a, &v, *w)?;
            }
            Ins::Gep { dst, base, off, idx } => {
                let mut v = self.op(base);
                for (o, w, sc) in idx.iter() {
                    let x = self.op(o);
                    let x = if *w < 64 { self.cast(CastOp::Sext, *w, 64, &x)? } else { x };
                    let y = if *sc == 1 { x } else { self.bin(BinOp::Mul, 64, &x, &V::C(*sc))? };
                    v = self.bin(BinOp::Add, 64, &v, &y)?;
                }
                if *off != 0 {
                    v = self.bin(BinOp::Add, 64, &v, &V::C(*off))?;
                }
                self.set(*dst, v);
            }
            Ins::Cast { op, from, to, dst, a } => {
                let x = self.op(a);
                let r = self.cast(*op, *from, *to, &x)?;
                self.set(*dst, r);
            }
            Ins::Br { t } => {
                self.goto(*t);
                return Ok(());
            }
            Ins::CondBr { c, t, f } => {
                let v = self.op(c);
                let b = match v {
                    V::C(x) => x & 1 == 1,
                    V::S(e) => self.branch(e)?,
                    _ => return Err(Halt::Unsupported("condbr".into())),
                };
                self.goto(if b { *t } else { *f });
                return Ok(());
            }
            Ins::Call { dst, callee, args, argw, retw } => {
                match callee {
                    Callee::Intrinsic(i) => {
                        let r = self.intrinsic(*i, args, argw, *retw)?;
                        self.set(*dst, r);
                    }
                    c => {
                        let fid = match c {
                            Callee::Func(f) => *f,
                            Callee::Indirect(o) => {
                                let v = self.op(o);
                                let a = self.cv(&v)?;
                                let id = a >> 32;
                                if id < FBASE || id >= FBASE + p.m.funcs.len() as u64 || a & 0xffff_ffff != 0 {
                                    return Err(oob("call", a, 0));
                                }
                                (id - FBASE) as u32
                            }
                            _ => unreachable!(),
                        };
                        if let Some(b) = p.builtin[fid as usize] {
                            let r = self.call_builtin(b, fid, args, argw, *retw)?;
                            self.set(*dst, r);
                        } else {
                            let av: Vec<V> = args.iter().map(|o| self.op(o)).collect();
                            return self.enter(fid, av);
                        }
                    }
                }
            }
            Ins::Ret { v } => {
                let r = v.as_ref().map(|o| self.op(o));
                let f = self.st.frames.pop().unwrap();
                self.st.stk.truncate(f.stk as usize);
                if self.st.frames.is_empty() {
                    return Err(Halt::Done);
                }
                let (cf, cip) = {
                    let f = self.st.frames.last().unwrap();
                    (f.func as usize, f.ip as usize)
                };
                if let Ins::Call { dst, .. } = &p.m.funcs[cf].code[cip] {
                    if let Some(r) = r {
                        self.set(*dst, r);
                    }
                }
            }
            Ins::Select { dst, c, a, b, w } => {
                let c = self.op(c);
                let x = self.op(a);
                let y = self.op(b);
                let r = self.select(&c, x, y, *w)?;
                self.set(*dst, r);
            }
            Ins::Switch { w, v, def, cases } => {
                let x = self.op(v);
                let t = match x {
                    V::C(c) => cases.iter().find(|k| k.0 == c as u128).map(|k| k.1).unwrap_or(*def),
                    V::S(e) => {
                        if let Node::Tab { v, t } = self.cx.nodes[e as usize].clone() {
                            let d = self.st.dom[v as usize];
                            let mut groups: Vec<(u32, [u64; 4])> = vec![];
                            for i in 0..256 {
                                if d[i >> 6] >> (i & 63) & 1 == 1 {
                                    let val = t.get(i);
                                    let tg = cases.iter().find(|k| k.0 == val as u128).map(|k| k.1).unwrap_or(*def);
                                    match groups.iter_mut().find(|g| g.0 == tg) {
                                        Some(g) => g.1[i >> 6] |= 1 << (i & 63),
                                        None => {
                                            let mut n = [0; 4];
                                            n[i >> 6] |= 1 << (i & 63);
                                            groups.push((tg, n));
                                        }
                                    }
                                }
                            }
                            self.stats.dq += 1;
                            if groups.len() > 1 && self.touched(v) {
                                let mut g2 = vec![];
                                for g in groups {
                                    if self.sat(&[], Some((v, g.1)))? {
                                        g2.push(g);
                                    }
                                }
                                groups = g2;
                            }
                            if groups.is_empty() {
                                return Err(Halt::Assume);
                            }
                            let opts: Vec<Cs> = groups.iter().map(|g| Cs::Dom(v, g.1)).collect();
                            let i = self.fork(opts)?;
                            groups[i].0
                        } else {
                            let mut tgt = *def;
                            for (c, b) in cases.iter() {
                                let k = self.cx.cst(*c, *w as u8);
                                let q = self.cx.mk(Op::Eq, 1, e, k, 0, 0);
                                if self.branch(q)? {
                                    tgt = *b;
                                    break;
                                }
                            }
                            tgt
                        }
                    }
                    V::W(c) => {
                        cases.iter().find(|k| k.0 == *c).map(|k| k.1).unwrap_or(*def)
                    }
                    _ => return Err(Halt::Unsupported("switch".into())),
                };
                self.goto(t);
                return Ok(());
            }
            Ins::Alloca { dst, off } => {
                let s = self.st.frames.last().unwrap().stk as u64;
                self.set(*dst, V::C(((SBASE + s) << 32) + off));
            }
            Ins::LoadAgg { dst, ty, p } => {
                let a = self.op(p);
                let a = self.cv(&a)?;
                let r = self.load_ty(a, ty)?;
                self.set(*dst, r);
            }
            Ins::StoreAgg { ty, v, p } => {
                let a = self.op(p);
                let a = self.cv(&a)?;
                let v = self.op(v);
                self.store_ty(a, ty, &v)?;
            }
            Ins::Extract { dst, a, idx } => {
                let mut v = self.op(a);
                for i in idx.iter() {
                    v = match v {
                        V::A(l) => l[*i as usize].clone(),
                        _ => V::C(0),
                    };
                }
                self.set(*dst, v);
            }
            Ins::Insert { dst, a, v, idx, ty } => {
                let base = self.op(a);
                let nv = self.op(v);
                let r = insert(base, &nv, idx, ty);
                self.set(*dst, r);
            }
            Ins::ExtractEl { dst, a, i } => {
                let v = self.op(a);
                let i = self.op(i);
                let i = self.cv(&i)?;
                let r = match v {
                    V::A(l) => l.get(i as usize).cloned().unwrap_or(V::C(0)),
                    _ => V::C(0),
                };
                self.set(*dst, r);
            }
            Ins::InsertEl { dst, a, v, i, n } => {
                let base = self.op(a);
                let nv = self.op(v);
                let i = self.op(i);
                let i = self.cv(&i)? as usize;
                let mut l = match base {
                    V::A(l) => (*l).clone(),
                    _ => vec![V::C(0); *n as usize],
                };
                l[i] = nv;
                self.set(*dst, V::A(Rc::new(l)));
            }
            Ins::Shuffle { dst, a, b, n, mask } => {
                let x = self.op(a);
                let y = self.op(b);
                let get = |i: u32| -> V {
                    let (v, k) = if i < *n { (&x, i) } else { (&y, i - *n) };
                    match v {
                        V::A(l) => l.get(k as usize).cloned().unwrap_or(V::C(0)),
                        _ => V::C(0),
                    }
                };
                let l: Vec<V> = mask.iter().map(|i| get(*i)).collect();
                self.set(*dst, V::A(Rc::new(l)));
            }
            Ins::VBin { op, w, n, dst, a, b } => {
                let x = lanes(self.op(a), *n);
                let y = lanes(self.op(b), *n);
                let mut l = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    l.push(self.bin(*op, *w, &x[i], &y[i])?);
                }
                self.set(*dst, V::A(Rc::new(l)));
            }
            Ins::VIcmp { p, w, n, dst, a, b } => {
                let x = lanes(self.op(a), *n);
                let y = lanes(self.op(b), *n);
                let mut l = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    l.push(self.icmp(*p, *w, &x[i], &y[i])?);
                }
                self.set(*dst, V::A(Rc::new(l)));
            }
            Ins::VCast { op, from, to, n, dst, a } => {
                let x = lanes(self.op(a), *n);
                let mut l = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    l.push(self.cast(*op, *from, *to, &x[i])?);
                }
                self.set(*dst, V::A(Rc::new(l)));
            }
            Ins::VSelect { dst, c, a, b, w, n } => {
                let c = lanes(self.op(c), *n);
                let x = lanes(self.op(a), *n);
                let y = lanes(self.op(b), *n);
                let mut l = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    l.push(self.select(&c[i], x[i].clone(), y[i].clone(), *w)?);
                }
                self.set(*dst, V::A(Rc::new(l)));
            }
            Ins::Bitcast { from, to, dst, a } => {
                let x = self.op(a);
                let b = self.to_bits(&x, from)?;
                let r = self.bits_to(b, to)?;
                self.set(*dst, r);
            }
            Ins::Copy { dst, a } => {
                let x = self.op(a);
                self.set(*dst, x);
            }
            Ins::Fcmp { p, w, dst, a, b } => {
                let x = self.op(a);
                let y = self.op(b);
                let r = self.fcmp(*p, *w, &x, &y)?;
                self.set(*dst, r);
            }
            Ins::Fneg { w, dst, a } => {
                let x = self.op(a);
                let r = self.bin(BinOp::Xor, *w, &x, &V::C(1u64 << (w - 1)))?;
                self.set(*dst, r);
            }
            Ins::AtomicRmw { op, w, dst, p, v } => {
                let a = self.op(p);
                let a = self.cv(&a)?;
                let old = self.load(a, *w)?;
                let v = self.op(v);
                let new = match op {
                    0 => v,
                    1 => self.bin(BinOp::Add, *w, &old, &v)?,
                    2 => self.bin(BinOp::Sub, *w, &old, &v)?,
                    3 => self.bin(BinOp::And, *w, &old, &v)?,
                    5 => self.bin(BinOp::Or, *w, &old, &v)?,
                    6 => self.bin(BinOp::Xor, *w, &old, &v)?,
                    _ => return Err(Halt::Unsupported("atomicrmw".into())),
                };
                self.store(a, &new, *w)?;
                self.set(*dst, old);
            }
            Ins::CmpXchg { w, dst, p, c, n } => {
                let a = self.op(p);
                let a = self.cv(&a)?;
                let old = self.load(a, *w)?;
                let c = self.op(c);
                let q = self.icmp(Pred::Eq, *w, &old, &c)?;
                let b = match q {
                    V::C(x) => x == 1,
                    V::S(e) => self.branch(e)?,
                    _ => false,
                };
                if b {
                    let n = self.op(n);
                    self.store(a, &n, *w)?;
                }
                self.set(*dst, V::A(Rc::new(vec![old, V::C(b as u64)])));
            }
            Ins::Unreachable => {
                return Err(Halt::Fail { kind: "unreachable".into(), msg: "unreachable executed".into(), loc: String::new() });
            }
            Ins::Nop => {}
            Ins::Unsupported(s) => return Err(Halt::Unsupported(s.clone())),
        }
        self.st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    /// concrete values for every input of the current path
    fn model(&mut self) -> R<Vec<u64>> {
        let mut val: Vec<Option<u8>> = vec![None; self.st.dom.len()];
        if !self.st.resid.is_empty() {
            let mut vs: Vec<u16> = vec![];
            for e in &self.st.resid {
                for v in self.cx.support(*e) {
                    if !vs.contains(&v) {
                        vs.push(v);
                    }
                }
            }
            let doms: Vec<(u16, [u64; 4])> = vs.iter().map(|v| (*v, self.st.dom[*v as usize])).collect();
            let cs = self.st.resid.clone();
            match self.z.check(&self.cx, &cs, &doms, true) {
                Res::Sat(m) => {
                    for (v, x) in m {
                        val[v as usize] = Some(x);
                    }
                }
                Res::Unsat => return Err(Halt::Assume),
                Res::Unknown => return Err(Halt::Unsupported("solver returned unknown".into())),
            }
        }
        for i in 0..val.len() {
            if val[i].is_none() {
                let d = &self.st.dom[i];
                let has = |c: usize| d[c >> 6] >> (c & 63) & 1 == 1;
                // prefer readable characters
                let pick = (b'a'..=b'z').chain(b'0'..=b'9').chain(b'A'..=b'Z').chain(32..127).chain(0..=255u8).find(|c| has(*c as usize));
                val[i] = Some(pick.unwrap_or(0));
            }
        }
        let st = &self.st;
        Ok(st
            .inputs
            .iter()
            .map(|i| match i {
                Inp::Var(v) => val[*v as usize].unwrap() as u64,
                Inp::Const(k) => *k,
            })
            .collect())
    }

    fn obs_digest(&mut self, inputs: &[u64]) -> u64 {
        let mut vals = vec![0u8; self.st.dom.len()];
        for (i, x) in self.st.inputs.iter().zip(inputs) {
            if let Inp::Var(v) = i {
                vals[*v as usize] = *x as u8;
            }
        }
        let mut h: u64 = 0xcbf29ce484222325;
        let mut memo = FxMap::default();
        for o in &self.st.obs {
            let x = match o {
                V::C(c) => *c,
                V::S(e) => self.cx.eval(*e, &|v| vals[v as usize], &mut memo) as u64,
                _ => 0,
            };
            for b in x.to_le_bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        h
    }

    pub fn finish(&mut self, h: Halt) {
        self.stats.steps += self.st.steps;
        self.stats.maxsteps = self.stats.maxsteps.max(self.st.steps);
        self.stats.maxdec = self.stats.maxdec.max(self.st.decisions.len());
        self.stats.nvars = self.stats.nvars.max(self.st.dom.len());
        self.sh.paths.fetch_add(1, Ordering::Relaxed);
        if self.st.relational {
            self.stats.relational += 1;
            self.stats.mass_rel += self.mass();
        } else {
            self.stats.mass += self.mass();
        }
        for i in 0..64 {
            if self.st.covers >> i & 1 == 1 {
                self.stats.covers[i] += 1;
            }
        }
        match h {
            Halt::Done => {
                self.stats.paths += 1;
                self.sampctr += 1;
                let early = self.sampctr < 8;
                if (early || self.sampctr % self.cfg.sample_every == 0) && self.stats.samples.len() < self.cfg.max_samples {
                    if let Ok(m) = self.model() {
                        let obs = self.obs_digest(&m);
                        self.stats.samples.push(Sample { inputs: m, obs, assume: false });
                    }
                }
            }
            Halt::Assume => self.stats.assume += 1,
            Halt::Known(id) => {
                self.stats.paths += 1;
                match self.stats.known.iter().position(|k| k.0 == id) {
                    Some(i) => self.stats.known[i].1 += 1,
                    None => match self.model() {
                        Ok(m) => self.stats.known.push((id, 1, m)),
                        Err(Halt::Assume) => {}
                        Err(_) => self.unsup("no model for a known-finding path".into()),
                    },
                }
            }
            Halt::Fail { kind, msg, loc } => {
                self.stats.paths += 1;
                let bt = self.backtrace();
                if let Some(f) = self.stats.failures.iter_mut().find(|f| f.kind == kind && f.msg == msg && f.loc == loc && f.count >= 3) {
                    f.count += 1;
                    return;
                }
                if self.stats.failures.len() > 400 {
                    return;
                }
                match self.model() {
                    Ok(m) => {
                        let n = self.stats.failures.iter().filter(|f| f.kind == kind && f.msg == msg && f.loc == loc).count() as u64;
                        self.stats.failures.push(Failure { kind, msg, loc, inputs: m, count: n + 1, stack: bt });
                    }
                    Err(Halt::Assume) => {}
                    Err(_) => self.unsup("no model for failing path".into()),
                }
                let nf = self.stats.failures.len();
                if nf >= self.cfg.max_failures {
                    self.sh.stop.store(true, Ordering::SeqCst);
                }
            }
            Halt::Unsupported(s) => {
                let bt = self.backtrace();
                let s = format!("{s} @ {}", bt.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                self.unsup(s)
            }
            Halt::Budget => {
                if let Ok(m) = self.model() {
                    if self.stats.budget.len() < 8 {
                        self.stats.budget.push(m);
                    }
                }
            }
        }
    }
    fn unsup(&mut self, s: String) {
        if let Some(u) = self.stats.unsupported.iter_mut().find(|u| u.0 == s) {
            u.1 += 1;
        } else {
            self.stats.unsupported.push((s, 1));
        }
    }

    pub fn work(&mut self, entry: u32) {
        loop {
            // obtain a task
            let task = {
                let mut q = self.sh.q.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::SeqCst) {
                        break None;
                    }
                    if let Some(t) = q.pop() {
                        break Some(t);
                    }
                    let n = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if n == self.cfg.threads {
                        self.sh.stop.store(true, Ordering::SeqCst);
                        self.sh.cv.notify_all();
                        break None;
                    }
                    q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                    if self.sh.stop.load(Ordering::SeqCst) {
                        break None;
                    }
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            let task = match task {
                Some(t) => t,
                None => break,
            };
            self.start(entry, task);
            loop {
                let h = self.run();
                self.finish(h);
                if self.sh.stop.load(Ordering::Relaxed) {
                    break;
                }
                if std::time::Instant::now() > self.cfg.deadline {
                    self.sh.timed_out.store(true, Ordering::SeqCst);
                    self.sh.stop.store(true, Ordering::SeqCst);
                    self.sh.cv.notify_all();
                    break;
                }
                if self.sh.idle.load(Ordering::Relaxed) > 0 && self.stack.len() > 1 {
                    // hand over the oldest (shallowest) pending states
                    let give = (self.stack.len() / 2).min(8).max(1);
                    let mut q = self.sh.q.lock().unwrap();
                    if q.len() < 64 {
                        for s in self.stack.drain(..give) {
                            q.push(s.decisions);
                        }
                        self.sh.cv.notify_all();
                    }
                }
                // memory hygiene
                match self.stack.pop() {
                    Some(s) => self.st = s,
                    None => break,
                }
            }
            if self.sh.stop.load(Ordering::Relaxed) {
                break;
            }
            if self.cx.nodes.len() > 3_000_000 {
                self.cx = Ctx::new();
                self.st = State::new(self.p);
                let (q, n, u) = (self.z.queries, self.z.nanos, self.z.unknowns);
                self.z = Z3::new();
                self.z.queries = q;
                self.z.nanos = n;
                self.z.unknowns = u;
                self.cache.clear();
            }
        }
        self.stats.zq = self.z.queries;
        self.stats.zns = self.z.nanos;
        self.stats.zunk = self.z.unknowns;
    }
}

fn lanes(v: V, n: u32) -> Rc<Vec<V>> {
    match v {
        V::A(l) => l,
        _ => Rc::new(vec![V::C(0); n as usize]),
    }
}

fn zero(t: &Ty) -> V {
    if t.nelem() > 0 {
        V::A(Rc::new((0..t.nelem()).map(|i| zero(t.elem(i))).collect()))
    } else if t.width() > 64 {
        V::W(Rc::new(0))
    } else {
        V::C(0)
    }
}

fn insert(base: V, v: &V, idx: &[u32], ty: &Ty) -> V {
    if idx.is_empty() {
        return v.clone();
    }
    let mut l = match base {
        V::A(l) => (*l).clone(),
        _ => match zero(ty) {
            V::A(l) => (*l).clone(),
            x => return x,
        },
    };
    let i = idx[0] as usize;
    let old = l[i].clone();
    l[i] = insert(old, v, &idx[1..], ty.elem(i));
    V::A(Rc::new(l))
}
