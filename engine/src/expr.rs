//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! Every input is an 8-bit variable.  An expression whose value depends on one variable only (and
//! is at most 64 bits wide) is kept as its full truth table (`Tab`), which makes satisfiability of
//! single-variable constraints exact set algebra over the variable's remaining domain.  All other
//! expressions are DAG nodes, decided by interval analysis or by Z3.
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Zext, Sext,
    Extract, // k = offset
    Concat,  // a = hi, b = lo
    Ite,
    Lookup, // k = table id, a = index (value)
}

#[derive(Clone)]
pub enum Node {
    None,
    Const(u128),
    Tab { v: u16, t: Box<TabV> },
    N { op: Op, a: E, b: E, c: E, k: u32 },
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum TabV {
    B([u64; 4]),
    U8([u8; 256]),
    U64(Box<[u64; 256]>),
}

impl TabV {
    #[inline]
    pub fn get(&self, i: usize) -> u64 {
        match self {
            TabV::B(b) => (b[i >> 6] >> (i & 63)) & 1,
            TabV::U8(t) => t[i] as u64,
            TabV::U64(t) => t[i],
        }
    }
}

pub struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i + 8 <= b.len() {
            self.write_u64(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()));
            i += 8;
        }
        while i < b.len() {
            self.write_u64(b[i] as u64);
            i += 1;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
#[derive(Clone, Default)]
pub struct BH;
impl std::hash::BuildHasher for BH {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0x9e3779b97f4a7c15)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BH>;

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub w: Vec<u8>,
    pub sup: Vec<Sup>, // support
    nmap: FxMap<(Op, E, E, E, u32, u8), E>,
    cmap: FxMap<(u128, u8), E>,
    tmap: HashMap<u64, Vec<E>>,
    opcache: FxMap<(Op, E, E, E, u32, u8), E>,
    pub tables: Vec<Vec<u64>>,
    tblmap: HashMap<Vec<u64>, u32>,
    supsets: Vec<Vec<u16>>,
    supmap: HashMap<Vec<u16>, u32>,
}

/// support: 0 = none; odd encodings: single var (v<<1|1); even: index into supsets
pub type Sup = u32;

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) }
}

pub fn ev(op: Op, w: u8, aw: u8, bw: u8, a: u128, b: u128, c: u128, k: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { 0 } else { a / b },
        Op::URem => if b == 0 { 0 } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { 0 } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { 0 } else { (x.wrapping_rem(y) as u128) & m } }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = b.min(w as u128 - 1); ((sx(a, w) >> s) as u128) & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Zext => a,
        Op::Sext => (sx(a, aw) as u128) & m,
        Op::Extract => (a >> k) & m,
        Op::Concat => (a << bw) | b,
        Op::Ite => if a & 1 == 1 { b } else { c },
        Op::Lookup => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![Node::None],
            w: vec![0],
            sup: vec![0],
            nmap: Default::default(),
            cmap: Default::default(),
            tmap: Default::default(),
            opcache: Default::default(),
            tables: vec![],
            tblmap: Default::default(),
            supsets: vec![vec![]],
            supmap: Default::default(),
        };
        c.supmap.insert(vec![], 0);
        c
    }
    fn push(&mut self, n: Node, w: u8, sup: Sup) -> E {
        self.nodes.push(n);
        self.w.push(w);
        self.sup.push(sup);
        (self.nodes.len() - 1) as E
    }
    pub fn support(&self, e: E) -> Vec<u16> {
        self.sup_vec(self.sup[e as usize])
    }
    pub fn sup_vec(&self, s: Sup) -> Vec<u16> {
        if s & 1 == 1 { vec![(s >> 1) as u16] } else { self.supsets[(s >> 1) as usize].clone() }
    }
    fn sup_union(&mut self, a: Sup, b: Sup) -> Sup {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let mut v = self.sup_vec(a);
        v.extend(self.sup_vec(b));
        v.sort();
        v.dedup();
        if v.len() == 1 {
            return ((v[0] as u32) << 1) | 1;
        }
        if let Some(i) = self.supmap.get(&v) {
            return i << 1;
        }
        let i = self.supsets.len() as u32;
        self.supsets.push(v.clone());
        self.supmap.insert(v, i);
        i << 1
    }
    pub fn cst(&mut self, v: u128, w: u8) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(v, w)) {
            return *e;
        }
        let e = self.push(Node::Const(v), w, 0);
        self.cmap.insert((v, w), e);
        e
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize] { Some(c) } else { None }
    }
    pub fn tab(&mut self, v: u16, w: u8, f: &dyn Fn(usize) -> u64) -> E {
        let first = f(0);
        let mut same = true;
        let mut mx = 0;
        let mut arr = [0u64; 256];
        for i in 0..256 {
            let x = f(i);
            arr[i] = x;
            same &= x == first;
            mx = mx.max(x);
        }
        if same {
            return self.cst(first as u128, w);
        }
        let t = if mx <= 1 {
            let mut b = [0u64; 4];
            for i in 0..256 {
                b[i >> 6] |= arr[i] << (i & 63);
            }
            TabV::B(b)
        } else if mx <= 255 {
            let mut b = [0u8; 256];
            for i in 0..256 {
                b[i] = arr[i] as u8;
            }
            TabV::U8(b)
        } else {
            TabV::U64(Box::new(arr))
        };
        let mut h = H(0x1234);
        (v, w).hash(&mut h);
        match &t {
            TabV::B(b) => b.hash(&mut h),
            TabV::U8(b) => b.hash(&mut h),
            TabV::U64(b) => b.hash(&mut h),
        }
        let hv = h.finish();
        if let Some(l) = self.tmap.get(&hv) {
            for &e in l {
                if self.w[e as usize] == w {
                    if let Node::Tab { v: v2, t: t2 } = &self.nodes[e as usize] {
                        if *v2 == v && **t2 == t {
                            return e;
                        }
                    }
                }
            }
        }
        let e = self.push(Node::Tab { v, t: Box::new(t) }, w, ((v as u32) << 1) | 1);
        self.tmap.entry(hv).or_default().push(e);
        e
    }
    pub fn var(&mut self, v: u16) -> E {
        self.tab(v, 8, &|i| i as u64)
    }
    pub fn as_tab(&self, e: E) -> Option<(u16, &TabV)> {
        if let Node::Tab { v, t } = &self.nodes[e as usize] { Some((*v, t)) } else { None }
    }

    /// value of `e` when its single support variable is `x`
    fn tval(&self, e: E, x: usize) -> u128 {
        match &self.nodes[e as usize] {
            Node::Const(c) => *c,
            Node::Tab { t, .. } => t.get(x) as u128,
            Node::N { op: Op::Lookup, a, k, .. } => {
                let i = self.tval(*a, x) as usize;
                self.tables[*k as usize].get(i).copied().unwrap_or(0) as u128
            }
            Node::N { op, a, b, c, k } => {
                let av = self.tval(*a, x);
                let bv = if *b != 0 { self.tval(*b, x) } else { 0 };
                let cv = if *c != 0 { self.tval(*c, x) } else { 0 };
                ev(*op, self.w[e as usize], self.w[*a as usize], self.w[*b as usize], av, bv, cv, *k)
            }
            Node::None => 0,
        }
    }

    pub fn eval(&self, e: E, env: &dyn Fn(u16) -> u8, memo: &mut FxMap<E, u128>) -> u128 {
        match &self.nodes[e as usize] {
            Node::Const(c) => return *c,
            Node::Tab { v, t } => return t.get(env(*v) as usize) as u128,
            _ => {}
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let r = match &self.nodes[e as usize] {
            Node::N { op: Op::Lookup, a, k, .. } => {
                let i = self.eval(*a, env, memo) as usize;
                self.tables[*k as usize].get(i).copied().unwrap_or(0) as u128
            }
            Node::N { op, a, b, c, k } => {
                let av = self.eval(*a, env, memo);
                let bv = if *b != 0 { self.eval(*b, env, memo) } else { 0 };
                let cv = if *c != 0 { self.eval(*c, env, memo) } else { 0 };
                ev(*op, self.w[e as usize], self.w[*a as usize], self.w[*b as usize], av, bv, cv, *k)
            }
            _ => 0,
        };
        memo.insert(e, r);
        r
    }

    fn raw(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u32) -> E {
        let key = (op, a, b, c, k, w);
        if let Some(e) = self.nmap.get(&key) {
            return *e;
        }
        let s = self.sup_union(self.sup[a as usize], self.sup[b as usize]);
        let s = self.sup_union(s, self.sup[c as usize]);
        let e = self.push(Node::N { op, a, b, c, k }, w, s);
        self.nmap.insert(key, e);
        e
    }

    pub fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u32) -> E {
        let key = (op, a, b, c, k, w);
        if let Some(e) = self.opcache.get(&key) {
            return *e;
        }
        let e = self.mk_(op, w, a, b, c, k);
        debug_assert_eq!(self.w[e as usize], w);
        self.opcache.insert(key, e);
        e
    }

    fn mk_(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u32) -> E {
        let (sa, sb, sc) = (self.sup[a as usize], self.sup[b as usize], self.sup[c as usize]);
        // constants
        if sa == 0 && sb == 0 && sc == 0 {
            if op == Op::Lookup {
                let i = self.as_const(a).unwrap() as usize;
                let v = self.tables[k as usize].get(i).copied().unwrap_or(0);
                return self.cst(v as u128, w);
            }
            let av = self.as_const(a).unwrap();
            let bv = self.as_const(b).unwrap_or(0);
            let cv = self.as_const(c).unwrap_or(0);
            let r = ev(op, w, self.w[a as usize], self.w[b as usize], av, bv, cv, k);
            return self.cst(r, w);
        }
        // single variable: tabulate
        let s = if sa != 0 { sa } else if sb != 0 { sb } else { sc };
        if s & 1 == 1 && (sa == 0 || sa == s) && (sb == 0 || sb == s) && (sc == 0 || sc == s) && w <= 64 {
            let v = (s >> 1) as u16;
            let (aw, bw) = (self.w[a as usize], self.w[b as usize]);
            let mut arr = [0u64; 256];
            for x in 0..256 {
                arr[x] = if op == Op::Lookup {
                    let i = self.tval(a, x) as usize;
                    self.tables[k as usize].get(i).copied().unwrap_or(0)
                } else {
                    let av = self.tval(a, x);
                    let bv = if b != 0 { self.tval(b, x) } else { 0 };
                    let cv = if c != 0 { self.tval(c, x) } else { 0 };
                    ev(op, w, aw, bw, av, bv, cv, k) as u64
                };
            }
            return self.tab(v, w, &|i| arr[i]);
        }
        let ac = self.as_const(a);
        let bc = if b != 0 { self.as_const(b) } else { None };
        let m = mask(w);
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ac.is_some() => {
                return self.mk(op, w, b, a, 0, 0);
            }
            _ => {}
        }
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if bc == Some(0) => return a,
            Op::Mul if bc == Some(0) => return self.cst(0, w),
            Op::Mul | Op::UDiv if bc == Some(1) => return a,
            Op::And if bc == Some(0) => return self.cst(0, w),
            Op::And if bc == Some(m) => return a,
            Op::Or if bc == Some(m) => return self.cst(m, w),
            Op::And | Op::Or if a == b => return a,
            Op::Xor | Op::Sub if a == b => return self.cst(0, w),
            Op::Eq | Op::Ule | Op::Sle if a == b => return self.cst(1, 1),
            Op::Ult | Op::Slt if a == b => return self.cst(0, 1),
            _ => {}
        }
        let aw = self.w[a as usize];
        match op {
            Op::Zext if aw == w => return a,
            Op::Zext => {
                let z = self.cst(0, w - aw);
                return self.mk(Op::Concat, w, z, a, 0, 0);
            }
            Op::Sext if aw == w => return a,
            Op::Shl => {
                if let Some(s) = bc {
                    if s >= w as u128 {
                        return self.cst(0, w);
                    }
                    let s = s as u8;
                    let hi = self.mk(Op::Extract, w - s, a, 0, 0, 0);
                    let lo = self.cst(0, s);
                    return self.mk(Op::Concat, w, hi, lo, 0, 0);
                }
            }
            Op::LShr => {
                if let Some(s) = bc {
                    if s >= w as u128 {
                        return self.cst(0, w);
                    }
                    let s = s as u8;
                    let lo = self.mk(Op::Extract, w - s, a, 0, 0, s as u32);
                    let hi = self.cst(0, s);
                    return self.mk(Op::Concat, w, hi, lo, 0, 0);
                }
            }
            Op::Extract => {
                if w == aw {
                    return a;
                }
                match self.nodes[a as usize].clone() {
                    Node::N { op: Op::Extract, a: x, k: k2, .. } => return self.mk(Op::Extract, w, x, 0, 0, k + k2),
                    Node::N { op: Op::Concat, a: hi, b: lo, .. } => {
                        let lw = self.w[lo as usize] as u32;
                        if k >= lw {
                            return self.mk(Op::Extract, w, hi, 0, 0, k - lw);
                        }
                        if k + w as u32 <= lw {
                            return self.mk(Op::Extract, w, lo, 0, 0, k);
                        }
                        let nl = (lw - k) as u8;
                        let l = self.mk(Op::Extract, nl, lo, 0, 0, k);
                        let h = self.mk(Op::Extract, w - nl, hi, 0, 0, 0);
                        return self.mk(Op::Concat, w, h, l, 0, 0);
                    }
                    Node::N { op: o2 @ (Op::And | Op::Or | Op::Xor), a: x, b: y, .. } => {
                        let x2 = self.mk(Op::Extract, w, x, 0, 0, k);
                        let y2 = self.mk(Op::Extract, w, y, 0, 0, k);
                        return self.mk(o2, w, x2, y2, 0, 0);
                    }
                    Node::N { op: o2 @ (Op::Add | Op::Sub | Op::Mul), a: x, b: y, .. } if k == 0 => {
                        let x2 = self.mk(Op::Extract, w, x, 0, 0, 0);
                        let y2 = self.mk(Op::Extract, w, y, 0, 0, 0);
                        return self.mk(o2, w, x2, y2, 0, 0);
                    }
                    Node::N { op: Op::Ite, a: x, b: y, c: z, .. } => {
                        let y2 = self.mk(Op::Extract, w, y, 0, 0, k);
                        let z2 = self.mk(Op::Extract, w, z, 0, 0, k);
                        return self.mk(Op::Ite, w, x, y2, z2, 0);
                    }
                    Node::N { op: Op::Sext, a: x, .. } if (k + w as u32) <= self.w[x as usize] as u32 => {
                        return self.mk(Op::Extract, w, x, 0, 0, k);
                    }
                    _ => {}
                }
            }
            Op::Concat => {
                // merge constants / extracts / right-nest
                if let (Some(x), Some(y)) = (ac, bc) {
                    return self.cst((x << self.w[b as usize]) | y, w);
                }
                if let (Node::N { op: Op::Extract, a: x, k: k1, .. }, Node::N { op: Op::Extract, a: y, k: k2, .. }) =
                    (self.nodes[a as usize].clone(), self.nodes[b as usize].clone())
                {
                    if x == y && k1 == k2 + self.w[b as usize] as u32 {
                        return self.mk(Op::Extract, w, x, 0, 0, k2);
                    }
                }
                // (hi ++ (mid ++ lo)): try to merge hi with mid
                if let Node::N { op: Op::Concat, a: mid, b: lo, .. } = self.nodes[b as usize].clone() {
                    let mw = aw + self.w[mid as usize];
                    let merge = match (self.nodes[a as usize].clone(), self.nodes[mid as usize].clone()) {
                        (Node::Const(_), Node::Const(_)) => true,
                        (Node::N { op: Op::Extract, a: x, k: k1, .. }, Node::N { op: Op::Extract, a: y, k: k2, .. }) => {
                            x == y && k1 == k2 + self.w[mid as usize] as u32
                        }
                        _ => {
                            let (s1, s2) = (self.sup[a as usize], self.sup[mid as usize]);
                            s1 == s2 && s1 & 1 == 1 && mw <= 64
                        }
                    };
                    if merge {
                        let h = self.mk(Op::Concat, mw, a, mid, 0, 0);
                        return self.mk(Op::Concat, w, h, lo, 0, 0);
                    }
                }
                if let Node::N { op: Op::Concat, a: h1, b: l1, .. } = self.nodes[a as usize].clone() {
                    let lw = self.w[l1 as usize] + self.w[b as usize];
                    let lo = self.mk(Op::Concat, lw, l1, b, 0, 0);
                    return self.mk(Op::Concat, w, h1, lo, 0, 0);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let isc = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::N { op: Op::Concat, .. });
                if w > 1 && (isc(self, a) || isc(self, b)) && (bc.is_some() || (isc(self, a) && isc(self, b)) || self.concat_has_const(a) || self.concat_has_const(b)) {
                    // split at the first boundary
                    let ba = if let Node::N { op: Op::Concat, b: lo, .. } = self.nodes[a as usize] { self.w[lo as usize] } else { 0 };
                    let bb = if let Node::N { op: Op::Concat, b: lo, .. } = self.nodes[b as usize] { self.w[lo as usize] } else { 0 };
                    let s = if ba == 0 { bb } else if bb == 0 { ba } else { ba.min(bb) };
                    let al = self.mk(Op::Extract, s, a, 0, 0, 0);
                    let bl = self.mk(Op::Extract, s, b, 0, 0, 0);
                    let ah = self.mk(Op::Extract, w - s, a, 0, 0, s as u32);
                    let bh = self.mk(Op::Extract, w - s, b, 0, 0, s as u32);
                    let l = self.mk(op, s, al, bl, 0, 0);
                    let h = self.mk(op, w - s, ah, bh, 0, 0);
                    return self.mk(Op::Concat, w, h, l, 0, 0);
                }
                if w == 1 {
                    // complement laws
                    let na = self.not(a);
                    if na == b {
                        return match op {
                            Op::And => self.cst(0, 1),
                            _ => self.cst(1, 1),
                        };
                    }
                }
                if op == Op::Xor && bc.is_some() {
                    if let Node::N { op: Op::Xor, a: x, b: y, .. } = self.nodes[a as usize].clone() {
                        if let Some(yc) = self.as_const(y) {
                            let k = self.cst(yc ^ bc.unwrap(), w);
                            return self.mk(Op::Xor, w, x, k, 0, 0);
                        }
                    }
                }
            }
            Op::Add => {
                // (x + c1) + c2
                if let Some(y) = bc {
                    if let Node::N { op: Op::Add, a: x, b: z, .. } = self.nodes[a as usize].clone() {
                        if let Some(zc) = self.as_const(z) {
                            let k = self.cst(zc.wrapping_add(y), w);
                            return self.mk(Op::Add, w, x, k, 0, 0);
                        }
                    }
                }
            }
            Op::Sub => {
                if let Some(y) = bc {
                    let k = self.cst((y.wrapping_neg()) & m, w);
                    return self.mk(Op::Add, w, a, k, 0, 0);
                }
            }
            Op::Eq => {
                if aw == 1 {
                    // boolean equality
                    if let Some(y) = bc {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    let x = self.mk(Op::Xor, 1, a, b, 0, 0);
                    return self.not(x);
                }
                let isc = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::N { op: Op::Concat, .. });
                if isc(self, a) || isc(self, b) {
                    let ba = if let Node::N { op: Op::Concat, b: lo, .. } = self.nodes[a as usize] { self.w[lo as usize] } else { 0 };
                    let bb = if let Node::N { op: Op::Concat, b: lo, .. } = self.nodes[b as usize] { self.w[lo as usize] } else { 0 };
                    let s = if ba == 0 { bb } else if bb == 0 { ba } else { ba.min(bb) };
                    let al = self.mk(Op::Extract, s, a, 0, 0, 0);
                    let bl = self.mk(Op::Extract, s, b, 0, 0, 0);
                    let ah = self.mk(Op::Extract, aw - s, a, 0, 0, s as u32);
                    let bh = self.mk(Op::Extract, aw - s, b, 0, 0, s as u32);
                    let l = self.mk(Op::Eq, 1, al, bl, 0, 0);
                    let h = self.mk(Op::Eq, 1, ah, bh, 0, 0);
                    return self.mk(Op::And, 1, l, h, 0, 0);
                }
                if let Some(y) = bc {
                    match self.nodes[a as usize].clone() {
                        Node::N { op: Op::Add, a: x, b: z, .. } => {
                            if let Some(zc) = self.as_const(z) {
                                let k = self.cst(y.wrapping_sub(zc), aw);
                                return self.mk(Op::Eq, 1, x, k, 0, 0);
                            }
                        }
                        Node::N { op: Op::Xor, a: x, b: z, .. } => {
                            if let Some(zc) = self.as_const(z) {
                                let k = self.cst(y ^ zc, aw);
                                return self.mk(Op::Eq, 1, x, k, 0, 0);
                            }
                            if y == 0 {
                                return self.mk(Op::Eq, 1, x, z, 0, 0);
                            }
                        }
                        Node::N { op: Op::Or, a: x, b: z, .. } if y == 0 => {
                            let z0 = self.cst(0, aw);
                            let l = self.mk(Op::Eq, 1, x, z0, 0, 0);
                            let h = self.mk(Op::Eq, 1, z, z0, 0, 0);
                            return self.mk(Op::And, 1, l, h, 0, 0);
                        }
                        Node::N { op: Op::Ite, a: x, b: t, c: f, .. } => {
                            if self.as_const(t).is_some() || self.as_const(f).is_some() {
                                let l = self.mk(Op::Eq, 1, t, b, 0, 0);
                                let h = self.mk(Op::Eq, 1, f, b, 0, 0);
                                return self.mk(Op::Ite, 1, x, l, h, 0);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult | Op::Ule => {
                // drop common zero high part
                if let (Some((h1, l1)), Some((h2, l2))) = (self.split_hi(a, b), self.split_hi(b, a)) {
                    if h1 == 0 && h2 == 0 {
                        return self.mk(op, 1, l1, l2, 0, 0);
                    }
                }
            }
            Op::Ite => {
                if let Some(x) = ac {
                    return if x == 1 { b } else { c };
                }
                if b == c {
                    return b;
                }
                if w == 1 {
                    // ite(c, x, y) = (c & x) | (!c & y)
                    let n = self.not(a);
                    if let Some(x) = self.as_const(b) {
                        return if x == 1 { self.mk(Op::Or, 1, a, c, 0, 0) } else { self.mk(Op::And, 1, n, c, 0, 0) };
                    }
                    if let Some(x) = self.as_const(c) {
                        return if x == 1 { self.mk(Op::Or, 1, n, b, 0, 0) } else { self.mk(Op::And, 1, a, b, 0, 0) };
                    }
                }
            }
            _ => {}
        }
        self.raw(op, w, a, b, c, k)
    }

    fn concat_has_const(&self, e: E) -> bool {
        let mut e = e;
        loop {
            match self.nodes[e as usize] {
                Node::N { op: Op::Concat, a, b, .. } => {
                    if matches!(self.nodes[a as usize], Node::Const(_)) {
                        return true;
                    }
                    e = b;
                }
                Node::Const(_) => return true,
                _ => return false,
            }
        }
    }

    /// if e = 0-const hi ++ lo (or const) aligned with o's split, give (hi, lo)
    fn split_hi(&mut self, e: E, o: E) -> Option<(u128, E)> {
        let sp = |s: &Self, e: E| -> Option<u8> {
            if let Node::N { op: Op::Concat, a, b, .. } = s.nodes[e as usize] {
                if s.as_const(a) == Some(0) {
                    return Some(s.w[b as usize]);
                }
            }
            None
        };
        let s1 = sp(self, e);
        let s2 = sp(self, o);
        let s = match (s1, s2) {
            (Some(x), Some(y)) => x.max(y),
            (Some(x), None) => x,
            (None, Some(y)) => y,
            _ => return None,
        };
        let w = self.w[e as usize];
        let hi = self.mk(Op::Extract, w - s, e, 0, 0, s as u32);
        let lo = self.mk(Op::Extract, s, e, 0, 0, 0);
        self.as_const(hi).map(|h| (h, lo))
    }

    pub fn not(&mut self, a: E) -> E {
        let one = self.cst(1, 1);
        if let Node::N { op: Op::Xor, a: x, b, .. } = self.nodes[a as usize] {
            if b == one {
                return x;
            }
        }
        if self.sup[a as usize] == 0 {
            let v = self.as_const(a).unwrap();
            return self.cst(v ^ 1, 1);
        }
        if let Node::Tab { v, t } = &self.nodes[a as usize] {
            if let TabV::B(b) = **t {
                let v = *v;
                return self.tab(v, 1, &|i| 1 ^ ((b[i >> 6] >> (i & 63)) & 1));
            }
        }
        self.raw(Op::Xor, 1, a, one, 0, 0)
    }
    pub fn table(&mut self, t: Vec<u64>) -> u32 {
        if let Some(i) = self.tblmap.get(&t) {
            return *i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(t.clone());
        self.tblmap.insert(t, i);
        i
    }

    /// rebuild `e` with variables fixed by `env` replaced by constants
    pub fn subst(&mut self, e: E, env: &dyn Fn(u16) -> Option<u8>, memo: &mut FxMap<E, E>) -> E {
        match &self.nodes[e as usize] {
            Node::None | Node::Const(_) => return e,
            Node::Tab { v, t } => {
                if let Some(x) = env(*v) {
                    let val = t.get(x as usize);
                    let w = self.w[e as usize];
                    return self.cst(val as u128, w);
                }
                return e;
            }
            _ => {}
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let r = if let Node::N { op, a, b, c, k } = self.nodes[e as usize].clone() {
            let w = self.w[e as usize];
            let a2 = self.subst(a, env, memo);
            let b2 = self.subst(b, env, memo);
            let c2 = self.subst(c, env, memo);
            if a2 == a && b2 == b && c2 == c { e } else { self.mk(op, w, a2, b2, c2, k) }
        } else {
            e
        };
        memo.insert(e, r);
        r
    }

    /// unsigned interval of `e` under the given domains
    pub fn interval(&self, e: E, dom: &dyn Fn(u16) -> [u64; 4], memo: &mut FxMap<E, (u128, u128)>) -> (u128, u128) {
        match &self.nodes[e as usize] {
            Node::Const(c) => return (*c, *c),
            Node::None => return (0, 0),
            _ => {}
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let w = self.w[e as usize];
        let full = (0u128, mask(w));
        let r = match &self.nodes[e as usize] {
            Node::Tab { v, t } => {
                let d = dom(*v);
                let mut lo = u64::MAX;
                let mut hi = 0;
                for i in 0..256 {
                    if d[i >> 6] >> (i & 63) & 1 == 1 {
                        let x = t.get(i);
                        lo = lo.min(x);
                        hi = hi.max(x);
                    }
                }
                if lo > hi { full } else { (lo as u128, hi as u128) }
            }
            Node::N { op, a, b, c, k } => {
                let (al, ah) = self.interval(*a, dom, memo);
                let (bl, bh) = if *b != 0 { self.interval(*b, dom, memo) } else { (0, 0) };
                let aw = self.w[*a as usize];
                let bw = self.w[*b as usize];
                match op {
                    Op::Add => match (al.checked_add(bl), ah.checked_add(bh)) {
                        (Some(l), Some(h)) if h <= mask(w) => (l, h),
                        (Some(l), Some(h)) if w < 127 && l > mask(w) && h <= 2 * mask(w) + 1 => (l & mask(w), h & mask(w)),
                        _ => full,
                    },
                    Op::Sub => if al >= bh { (al - bh, ah - bl) } else { full },
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= mask(w) => (al * bl, h),
                        _ => full,
                    },
                    Op::UDiv => if bl > 0 { (al / bh, ah / bl) } else { full },
                    Op::URem => if bl > 0 { if ah < bl { (al, ah) } else { (0, ah.min(bh - 1)) } } else { full },
                    Op::And => (0, ah.min(bh)),
                    Op::Or => {
                        // disjoint bits behave like addition
                        let bits = |h: u128| if h == 0 { 0 } else { 128 - h.leading_zeros() };
                        let hb = bits(ah).max(bits(bh));
                        let top = if hb >= 128 { u128::MAX } else { (1u128 << hb) - 1 };
                        let h = ah.checked_add(bh).map(|x| x.min(top)).unwrap_or(top);
                        (al.max(bl), h.min(mask(w)))
                    }
                    Op::Xor => {
                        let bits = |h: u128| if h == 0 { 0 } else { 128 - h.leading_zeros() };
                        let hb = bits(ah).max(bits(bh));
                        (0, if hb >= 128 { u128::MAX } else { ((1u128 << hb) - 1).min(mask(w)) })
                    }
                    Op::Concat => ((al << bw) | bl, (ah << bw) | bh),
                    Op::Extract => {
                        if *k == 0 && ah <= mask(w) {
                            (al, ah)
                        } else if *k as u8 + w == aw {
                            (al >> k, ah >> k)
                        } else {
                            full
                        }
                    }
                    Op::Eq => if ah < bl || bh < al { (0, 0) } else if al == ah && bl == bh && al == bl { (1, 1) } else { (0, 1) },
                    Op::Ult => if ah < bl { (1, 1) } else if al >= bh { (0, 0) } else { (0, 1) },
                    Op::Ule => if ah <= bl { (1, 1) } else if al > bh { (0, 0) } else { (0, 1) },
                    Op::Slt | Op::Sle => {
                        let half = 1u128 << (aw - 1);
                        if ah < half && bh < half {
                            if *op == Op::Slt {
                                if ah < bl { (1, 1) } else if al >= bh { (0, 0) } else { (0, 1) }
                            } else if ah <= bl { (1, 1) } else if al > bh { (0, 0) } else { (0, 1) }
                        } else if ah < half && bl >= half {
                            (0, 0)
                        } else if al >= half && bh < half {
                            (1, 1)
                        } else {
                            (0, 1)
                        }
                    }
                    Op::Ite => {
                        let (cl, ch) = self.interval(*c, dom, memo);
                        if al == 1 { (bl, bh) } else if ah == 0 { (cl, ch) } else { (bl.min(cl), bh.max(ch)) }
                    }
                    Op::Lookup => {
                        let t = &self.tables[*k as usize];
                        if (ah as usize) < t.len() {
                            let s = &t[al as usize..=ah as usize];
                            (*s.iter().min().unwrap() as u128, *s.iter().max().unwrap() as u128)
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
            _ => full,
        };
        memo.insert(e, r);
        r
    }
}
