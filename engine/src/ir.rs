//! Parser for textual LLVM IR (as emitted by rustc / clang) into a compact decoded form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    Void,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

fn int_size(w: u32) -> u64 {
    (((w + 7) / 8) as u64).next_power_of_two()
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => int_size(*w).min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => int_size(*w),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) if w < 8 => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            t => t,
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Zero,
    Undef,
    Str(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Splat(Box<(Ty, Cst)>),
    Global(String),
    Gep(Ty, Box<(Ty, Cst)>, Vec<(Ty, Cst)>),
    Cast(String, Ty, Box<(Ty, Cst)>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp { Zext, Sext, Trunc, BitcastSame, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Indirect(Opd),
    Intrinsic(u32),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, dst: u32, a: Opd, b: Opd },
    VBin { op: BinOp, w: u32, n: u32, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    VIcmp { p: Pred, w: u32, n: u32, dst: u32, a: Opd, b: Opd },
    Fcmp { p: u32, w: u32, dst: u32, a: Opd, b: Opd },
    Fneg { w: u32, dst: u32, a: Opd },
    Cast { op: CastOp, from: u32, to: u32, dst: u32, a: Opd },
    VCast { op: CastOp, from: u32, to: u32, n: u32, dst: u32, a: Opd },
    Bitcast { from: Box<Ty>, to: Box<Ty>, dst: u32, a: Opd },
    Alloca { dst: u32, off: u64 },
    Load { dst: u32, w: u32, p: Opd },
    LoadAgg { dst: u32, ty: Box<Ty>, p: Opd },
    Store { w: u32, v: Opd, p: Opd },
    StoreAgg { ty: Box<Ty>, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: u64, idx: Box<[(Opd, u32, u64)]> },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, w: u32 },
    VSelect { dst: u32, c: Opd, a: Opd, b: Opd, w: u32, n: u32 },
    Extract { dst: u32, a: Opd, idx: Box<[u32]> },
    Insert { dst: u32, a: Opd, v: Opd, idx: Box<[u32]>, ty: Box<Ty> },
    ExtractEl { dst: u32, a: Opd, i: Opd },
    InsertEl { dst: u32, a: Opd, v: Opd, i: Opd, n: u32 },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, mask: Box<[u32]> },
    Copy { dst: u32, a: Opd },
    AtomicRmw { op: u32, w: u32, dst: u32, p: Opd, v: Opd },
    CmpXchg { w: u32, dst: u32, p: Opd, c: Opd, n: Opd },
    Call { dst: u32, callee: Callee, args: Box<[Opd]>, argw: Box<[u32]>, retw: u32 },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Box<[(u128, u32)]> },
    Ret { v: Option<Opd> },
    Unreachable,
    Nop,
    Unsupported(String),
}

pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block {
    /// per predecessor: list of (dst, operand)
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub start: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nargs: u32,
    /// the first argument is a pointer
    pub ptr0: bool,
    pub frame: u64,
    pub blocks: Vec<Block>,
    pub code: Vec<Ins>,
    pub defined: bool,
    pub varargs: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Global {
    pub name: String,
    pub constant: bool,
    pub external: bool,
    pub data: Vec<u8>,
    pub slot: u32,
}

#[derive(Clone, Debug)]
pub enum KV {
    C(u64),
    W(u128),
    A(Vec<KV>),
}

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub kpool: Vec<KV>,
    pub intrinsics: Vec<String>,
    pub nmut: u32,
}

pub const GBASE: u64 = 1; // first global id
pub const FBASE: u64 = 1 << 20;
pub const HBASE: u64 = 1 << 22;
pub const SBASE: u64 = 1 << 26;

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),          // bare words, ints
    Loc(String),          // %x
    Glob(String),         // @x
    Str(Vec<u8>),         // c"..." or "..."
    Meta,                 // !...
    P(char),
    Ell,
}

struct Lx<'a> {
    toks: Vec<T<'a>>,
    p: usize,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(line: &str) -> Vec<T<'_>> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut o = Vec::with_capacity(32);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let s = i + 2;
                    let mut j = s;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[s..j])).to_string();
                    i = j + 1;
                } else {
                    let s = i + 1;
                    let mut j = s;
                    while j < b.len() && is_idc(b[j]) {
                        j += 1;
                    }
                    name = line[s..j].to_string();
                    i = j;
                }
                o.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (is_idc(b[i])) {
                    i += 1;
                }
                // metadata strings / nodes
                if i < b.len() && b[i] == b'{' {
                    while b[i] != b'}' {
                        i += 1;
                    }
                    i += 1;
                }
                o.push(T::Meta);
            }
            b'"' => {
                let s = i + 1;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(T::Str(unescape(&b[s..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let s = i + 2;
                let mut j = s;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(T::Str(unescape(&b[s..j])));
                i = j + 1;
            }
            b'.' if line[i..].starts_with("...") => {
                o.push(T::Ell);
                i += 3;
            }
            _ if is_idc(c) || (c == b'+' && i + 1 < b.len() && b[i + 1].is_ascii_alphabetic()) => {
                let s = i;
                i += 1;
                while i < b.len() && is_idc(b[i]) {
                    i += 1;
                }
                // floating-point literals: 1.000000e+00
                if b[i - 1] == b'e' && i < b.len() && b[i] == b'+' && (b[s].is_ascii_digit() || b[s] == b'-') {
                    i += 1;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                }
                o.push(T::Id(&line[s..i]));
            }
            _ => {
                o.push(T::P(c as char));
                i += 1;
            }
        }
    }
    o
}

impl<'a> Lx<'a> {
    fn new(line: &'a str) -> Self {
        Lx { toks: lex(line), p: 0 }
    }
    fn peek(&self) -> Option<&T<'a>> {
        self.toks.get(self.p)
    }
    fn next(&mut self) -> Option<T<'a>> {
        let t = self.toks.get(self.p).cloned();
        self.p += 1;
        t
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&T::P(c)) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected '{}' at {:?} in {:?}", c, self.toks.get(self.p), self.toks);
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if let Some(T::Id(x)) = self.peek() {
            if *x == s {
                self.p += 1;
                return true;
            }
        }
        false
    }
    fn id(&mut self) -> &'a str {
        match self.next() {
            Some(T::Id(s)) => s,
            t => panic!("expected id, got {:?} in {:?}", t, self.toks),
        }
    }
    fn int(&mut self) -> i128 {
        parse_int(self.id())
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Some(T::P('(')) => d += 1,
                Some(T::P(')')) => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                None => return,
                _ => {}
            }
        }
    }
}

fn parse_int(s: &str) -> i128 {
    s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int {s}")))
}

fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

// ---------------------------------------------------------------- parser

struct P<'t> {
    named: &'t HashMap<String, Ty>,
}

fn is_type_start(t: Option<&T>) -> bool {
    match t {
        Some(T::Id(s)) => {
            matches!(*s, "ptr" | "float" | "double" | "void" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "bfloat")
                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit()))
        }
        Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
        Some(T::Loc(_)) => true,
        _ => false,
    }
}

impl<'t> P<'t> {
    fn ty(&self, l: &mut Lx) -> Ty {
        let t = match l.next() {
            Some(T::Id(s)) => match s {
                "ptr" => {
                    if l.eat_id("addrspace") {
                        l.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "void" => Ty::Void,
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" | "bfloat" => Ty::Other,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s} in {:?}", l.toks))),
                _ => panic!("type {s} in {:?}", l.toks),
            },
            Some(T::P('[')) => {
                let n = l.int() as u64;
                assert!(l.eat_id("x"));
                let e = self.ty(l);
                l.expect(']');
                Ty::Arr(n, Box::new(e))
            }
            Some(T::P('<')) => {
                if l.eat('{') {
                    let mut f = vec![];
                    while !l.eat('}') {
                        f.push(self.ty(l));
                        l.eat(',');
                    }
                    l.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = l.int() as u64;
                    assert!(l.eat_id("x"));
                    let e = self.ty(l);
                    l.expect('>');
                    Ty::Vec(n, Box::new(e))
                }
            }
            Some(T::P('{')) => {
                let mut f = vec![];
                while !l.eat('}') {
                    f.push(self.ty(l));
                    l.eat(',');
                }
                Ty::Struct(f, false)
            }
            Some(T::Loc(n)) => self.named.get(&n).cloned().unwrap_or(Ty::Other),
            t => panic!("type? {:?} in {:?}", t, l.toks),
        };
        // function type "ret (args)" only in calls; handled there
        t
    }

    fn tycst(&self, l: &mut Lx) -> (Ty, Cst) {
        let t = self.ty(l);
        let c = self.cst(l, &t);
        (t, c)
    }

    fn cst(&self, l: &mut Lx, t: &Ty) -> Cst {
        match l.next() {
            Some(T::Glob(g)) => Cst::Global(g),
            Some(T::Str(s)) => Cst::Str(s),
            Some(T::Id(s)) => match s {
                "null" | "zeroinitializer" | "false" | "none" => Cst::Zero,
                "true" => Cst::Int(1),
                "undef" | "poison" => Cst::Undef,
                "splat" => {
                    l.expect('(');
                    let e = self.tycst(l);
                    l.expect(')');
                    Cst::Splat(Box::new(e))
                }
                "getelementptr" => {
                    while let Some(T::Id(x)) = l.peek() {
                        if matches!(*x, "inbounds" | "nuw" | "nusw") {
                            l.p += 1;
                        } else if *x == "inrange" {
                            l.p += 1;
                            l.skip_paren();
                        } else {
                            break;
                        }
                    }
                    l.expect('(');
                    let et = self.ty(l);
                    l.expect(',');
                    let base = self.tycst(l);
                    let mut idx = vec![];
                    while l.eat(',') {
                        idx.push(self.tycst(l));
                    }
                    l.expect(')');
                    Cst::Gep(et, Box::new(base), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                    l.expect('(');
                    let a = self.tycst(l);
                    assert!(l.eat_id("to"));
                    let to = self.ty(l);
                    l.expect(')');
                    Cst::Cast(s.to_string(), a.0.clone(), Box::new(a), to)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while let Some(T::Id(_)) = l.peek() {
                        l.p += 1;
                    }
                    l.expect('(');
                    let a = self.tycst(l);
                    l.expect(',');
                    let b = self.tycst(l);
                    l.expect(')');
                    Cst::Bin(s.to_string(), a.0.clone(), Box::new(a.1), Box::new(b.1))
                }
                _ => match t {
                    Ty::F32 | Ty::F64 => Cst::Int(parse_fp(s, t) as u128),
                    Ty::Int(w) => {
                        Cst::Int((parse_int(s) as u128) & mask(*w))
                    }
                    Ty::Ptr => Cst::Int(parse_int(s) as u128),
                    _ => panic!("const {s} of {t:?} in {:?}", l.toks),
                },
            },
            Some(T::P('{')) => {
                let mut f = vec![];
                while !l.eat('}') {
                    f.push(self.tycst(l));
                    l.eat(',');
                }
                Cst::Agg(f)
            }
            Some(T::P('[')) => {
                let mut f = vec![];
                while !l.eat(']') {
                    f.push(self.tycst(l));
                    l.eat(',');
                }
                Cst::Agg(f)
            }
            Some(T::P('<')) => {
                if l.eat('{') {
                    let mut f = vec![];
                    while !l.eat('}') {
                        f.push(self.tycst(l));
                        l.eat(',');
                    }
                    l.expect('>');
                    Cst::Agg(f)
                } else {
                    let mut f = vec![];
                    while !l.eat('>') {
                        f.push(self.tycst(l));
                        l.eat(',');
                    }
                    Cst::Agg(f)
                }
            }
            x => panic!("const? {:?} in {:?}", x, l.toks),
        }
    }

    /// skip parameter attributes until an operand start
    fn skip_attrs(&self, l: &mut Lx) {
        loop {
            match l.peek() {
                Some(T::Id(s)) => {
                    let s = *s;
                    if matches!(
                        s,
                        "null" | "zeroinitializer" | "true" | "false" | "undef" | "poison" | "splat" | "getelementptr" | "ptrtoint"
                            | "inttoptr" | "bitcast" | "addrspacecast" | "none" | "asm" | "trunc" | "ptrtoaddr"
                    ) {
                        return;
                    }
                    if s.as_bytes()[0].is_ascii_digit() || matches!(s.as_bytes()[0], b'-' | b'+') || s.starts_with("f0x") {
                        return;
                    }
                    if matches!(s, "add" | "sub" | "mul" | "xor" | "and" | "or") {
                        return;
                    }
                    l.p += 1;
                    if s == "align" {
                        if let Some(T::P('(')) = l.peek() {
                            l.skip_paren();
                        } else {
                            l.p += 1;
                        }
                    } else if let Some(T::P('(')) = l.peek() {
                        l.skip_paren();
                    }
                }
                _ => return,
            }
        }
    }
}

fn parse_fp(s: &str, t: &Ty) -> u64 {
    let sp = match s {
        "+inf" => Some(f64::INFINITY),
        "-inf" => Some(f64::NEG_INFINITY),
        "+qnan" => Some(f64::from_bits(0x7ff8000000000000)),
        "-qnan" => Some(f64::from_bits(0xfff8000000000000)),
        _ => None,
    };
    if let Some(v) = sp {
        return match t {
            Ty::F32 => ((v.to_bits() >> 32) & 0x80000000) | if v.is_nan() { 0x7fc00000 } else { 0x7f800000 },
            _ => v.to_bits(),
        };
    }
    if let Some(h) = s.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).unwrap();
    }
    if let Some(h) = s.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).unwrap();
        match t {
            Ty::F32 => (f64::from_bits(bits) as f32).to_bits() as u64,
            _ => bits,
        }
    } else {
        let v: f64 = s.parse().unwrap_or_else(|_| panic!("fp {s}"));
        match t {
            Ty::F32 => (v as f32).to_bits() as u64,
            _ => v.to_bits(),
        }
    }
}

pub struct Addrs<'m> {
    pub gmap: &'m HashMap<String, u32>,
    pub fmap: &'m HashMap<String, u32>,
}

impl<'m> Addrs<'m> {
    fn addr(&self, n: &str) -> u64 {
        if let Some(i) = self.gmap.get(n) {
            (GBASE + *i as u64) << 32
        } else if let Some(i) = self.fmap.get(n) {
            (FBASE + *i as u64) << 32
        } else {
            panic!("unknown global {n}")
        }
    }
    fn scalar(&self, t: &Ty, c: &Cst) -> u128 {
        match c {
            Cst::Int(v) => *v,
            Cst::Zero | Cst::Undef => 0,
            Cst::Global(g) => self.addr(g) as u128,
            Cst::Gep(et, base, idx) => {
                let mut a = self.scalar(&base.0, &base.1) as u64;
                let mut cur = et.clone();
                for (k, (it, ic)) in idx.iter().enumerate() {
                    let v = self.scalar(it, ic) as u64;
                    let v = sext64(v, it.width());
                    if k == 0 {
                        a = a.wrapping_add((v as u64).wrapping_mul(cur.size()));
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                a = a.wrapping_add(cur.field_offset(v as usize));
                                cur = cur.elem(v as usize).clone();
                            }
                            _ => {
                                cur = cur.elem(0).clone();
                                a = a.wrapping_add((v as u64).wrapping_mul(cur.size()));
                            }
                        }
                    }
                }
                a as u128
            }
            Cst::Cast(op, ft, a, to) => {
                let v = self.scalar(&a.0, &a.1);
                if op == "sext" {
                    (sext64(v as u64, ft.width()) as i128 as u128) & mask(to.width())
                } else {
                    v & mask(to.width())
                }
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = (self.scalar(t, a), self.scalar(t, b));
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "shl" => x << y,
                    _ => x >> y,
                };
                r & mask(t.width())
            }
            _ => panic!("scalar const {c:?} of {t:?}"),
        }
    }
    fn bytes(&self, t: &Ty, c: &Cst, out: &mut [u8]) {
        match (t, c) {
            (_, Cst::Zero) | (_, Cst::Undef) => {}
            (_, Cst::Str(s)) => out[..s.len()].copy_from_slice(s),
            (_, Cst::Agg(f)) => {
                for (i, (et, ec)) in f.iter().enumerate() {
                    let o = t.field_offset(i) as usize;
                    let n = et.size() as usize;
                    self.bytes(et, ec, &mut out[o..o + n]);
                }
            }
            (_, Cst::Splat(e)) => {
                for i in 0..t.nelem() {
                    let o = t.field_offset(i) as usize;
                    let n = e.0.size() as usize;
                    self.bytes(&e.0, &e.1, &mut out[o..o + n]);
                }
            }
            _ => {
                let v = self.scalar(t, c);
                let n = t.size() as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    fn kv(&self, t: &Ty, c: &Cst) -> KV {
        match t {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let mut o = vec![];
                for i in 0..t.nelem() {
                    let et = t.elem(i);
                    o.push(match c {
                        Cst::Zero | Cst::Undef => self.kv(et, &Cst::Zero),
                        Cst::Agg(f) => self.kv(et, &f[i].1),
                        Cst::Splat(e) => self.kv(et, &e.1),
                        Cst::Str(s) => KV::C(s[i] as u64),
                        _ => panic!("kv {c:?}"),
                    });
                }
                KV::A(o)
            }
            _ => {
                let v = self.scalar(t, c);
                if t.width() > 64 {
                    KV::W(v)
                } else {
                    KV::C(v as u64)
                }
            }
        }
    }
}

pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 || w == 0 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn skip_linkage(l: &mut Lx) -> (bool, bool) {
    // returns (constant, external)
    let mut ext = false;
    loop {
        match l.peek() {
            Some(T::Id(s)) => {
                let s = *s;
                match s {
                    "global" => {
                        l.p += 1;
                        return (false, ext);
                    }
                    "constant" => {
                        l.p += 1;
                        return (true, ext);
                    }
                    "external" | "extern_weak" => {
                        ext = true;
                        l.p += 1;
                    }
                    _ => {
                        l.p += 1;
                        if let Some(T::P('(')) = l.peek() {
                            l.skip_paren();
                        }
                    }
                }
            }
            t => panic!("linkage {:?}", t),
        }
    }
}

pub fn parse(text: &str) -> Module {
    let mut m = Module::default();
    let mut named: HashMap<String, Ty> = HashMap::new();
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: names and types
    let mut gl: Vec<usize> = vec![];
    let mut fl: Vec<(usize, usize)> = vec![];
    let mut aliases: Vec<usize> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let ln = lines[i];
        if ln.starts_with('%') && ln.contains(" = type ") {
            let mut l = Lx::new(ln);
            let n = match l.next() {
                Some(T::Loc(n)) => n,
                _ => panic!(),
            };
            l.expect('=');
            l.id();
            if !l.eat_id("opaque") {
                let p = P { named: &named };
                let t = p.ty(&mut l);
                named.insert(n, t);
            }
        } else if ln.starts_with('@') {
            let l = Lx::new(ln);
            let n = match &l.toks[0] {
                T::Glob(n) => n.clone(),
                _ => panic!(),
            };
            if l.toks.iter().any(|t| *t == T::Id("alias")) {
                aliases.push(i);
            } else {
                m.gmap.insert(n.clone(), m.globals.len() as u32);
                m.globals.push(Global { name: n, ..Default::default() });
                gl.push(i);
            }
        } else if ln.starts_with("define") || ln.starts_with("declare") {
            let at = ln.find('@').unwrap();
            let l = Lx::new(&ln[at..]);
            let n = match &l.toks[0] {
                T::Glob(n) => n.clone(),
                _ => panic!(),
            };
            let id = m.funcs.len() as u32;
            m.fmap.insert(n.clone(), id);
            m.funcs.push(Func { name: n, defined: ln.starts_with("define"), ..Default::default() });
            let start = i;
            if ln.starts_with("define") {
                while lines[i] != "}" {
                    i += 1;
                }
                fl.push((start, i));
            } else {
                fl.push((start, start));
            }
        }
        i += 1;
    }
    // aliases to functions
    for &ai in &aliases {
        let l = Lx::new(lines[ai]);
        let n = match &l.toks[0] {
            T::Glob(n) => n.clone(),
            _ => panic!(),
        };
        let tgt = l.toks.iter().skip(1).find_map(|t| if let T::Glob(g) = t { Some(g.clone()) } else { None }).unwrap();
        if let Some(&f) = m.fmap.get(&tgt) {
            m.fmap.insert(n, f);
        } else if let Some(&g) = m.gmap.get(&tgt) {
            m.gmap.insert(n, g);
        }
    }
    let p = P { named: &named };
    // pass 2: global initialisers
    let mut slot = 0;
    let fmap = m.fmap.clone();
    let gmap = m.gmap.clone();
    let ad = Addrs { gmap: &gmap, fmap: &fmap };
    for (gi, &li) in gl.iter().enumerate() {
        let mut l = Lx::new(lines[li]);
        l.next();
        l.expect('=');
        let (constant, external) = skip_linkage(&mut l);
        let t = p.ty(&mut l);
        let mut data = vec![0u8; t.size() as usize];
        if !external {
            let c = p.cst(&mut l, &t);
            ad.bytes(&t, &c, &mut data);
        }
        let g = &mut m.globals[gi];
        g.constant = constant;
        g.external = external;
        g.data = data;
        if !constant {
            g.slot = slot;
            slot += 1;
        }
    }
    m.nmut = slot;
    // pass 3: functions
    for (fi, &(s, e)) in fl.iter().enumerate() {
        if s == e {
            m.funcs[fi].varargs = lines[s].contains("...");
            continue;
        }
        let f = {
            let mut fp = FnParser { p: &p, ad: &ad, m: &mut m, regs: HashMap::new(), blocks: HashMap::new(), f: Func::default(), unnamed: 0 };
            fp.func(&lines[s..=e])
        };
        let name = m.funcs[fi].name.clone();
        m.funcs[fi] = f;
        m.funcs[fi].name = name;
        m.funcs[fi].defined = true;
    }
    m
}

struct FnParser<'a, 'b> {
    p: &'a P<'b>,
    ad: &'a Addrs<'b>,
    m: &'a mut Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    f: Func,
    unnamed: u32,
}

impl<'a, 'b> FnParser<'a, 'b> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {n}"))
    }
    fn opd(&mut self, l: &mut Lx, t: &Ty) -> Opd {
        self.p.skip_attrs(l);
        if let Some(T::Loc(n)) = l.peek() {
            let n = n.clone();
            l.p += 1;
            return Opd::R(self.reg(&n));
        }
        if let Some(T::Meta) = l.peek() {
            l.p += 1;
            return Opd::C(0);
        }
        if *t == Ty::Other {
            l.p += 1;
            return Opd::C(0);
        }
        let c = self.p.cst(l, t);
        match self.ad.kv(t, &c) {
            KV::C(v) => Opd::C(v),
            k => {
                self.m.kpool.push(k);
                Opd::K(self.m.kpool.len() as u32 - 1)
            }
        }
    }
    fn tyopd(&mut self, l: &mut Lx) -> (Ty, Opd) {
        let t = self.p.ty(l);
        let o = self.opd(l, &t);
        (t, o)
    }
    fn label(&mut self, l: &mut Lx) -> u32 {
        assert!(l.eat_id("label"), "label in {:?}", l.toks);
        match l.next() {
            Some(T::Loc(n)) => self.blk(&n),
            _ => panic!(),
        }
    }

    fn func(&mut self, lines: &[&str]) -> Func {
        // header
        {
            let at = lines[0].find('@').unwrap();
            let mut l = Lx::new(&lines[0][at..]);
            l.next();
            l.expect('(');
            let mut k = 0;
            let mut unnamed = 0;
            while !l.eat(')') {
                if l.peek() == Some(&T::Ell) {
                    l.p += 1;
                    self.f.varargs = true;
                    continue;
                }
                let t = self.p.ty(&mut l);
                if k == 0 {
                    self.f.ptr0 = matches!(t, Ty::Ptr);
                }
                self.p.skip_attrs(&mut l);
                if let Some(T::Loc(n)) = l.peek() {
                    let n = n.clone();
                    l.p += 1;
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    let r = self.reg(&n);
                    assert_eq!(r, k);
                } else {
                    unnamed += 1;
                    let r = self.reg(&k.to_string());
                    assert_eq!(r, k);
                }
                k += 1;
                l.eat(',');
            }
            self.f.nargs = k;
            self.unnamed = unnamed;
        }
        // join multi-line instructions (switch tables)
        let mut ins: Vec<String> = vec![];
        let mut i = 1;
        let n = lines.len() - 1;
        let mut nb = 0u32;
        let mut cur_labels: Vec<(usize, String)> = vec![];
        let first_label;
        // implicit first block label = number of args if unnamed numbering; find out lazily
        {
            let mut j = 1;
            while j < n && (lines[j].trim().is_empty() || lines[j].starts_with(';')) {
                j += 1;
            }
            if is_label(lines[j]) {
                first_label = None;
            } else {
                first_label = Some(self.unnamed.to_string());
            }
        }
        if let Some(fl) = first_label {
            self.blocks.insert(fl.clone(), nb);
            nb += 1;
            cur_labels.push((0, fl));
        }
        while i < n {
            let ln = lines[i];
            let t = ln.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
                i += 1;
                continue;
            }
            if is_label(ln) {
                let name = label_name(ln);
                self.blocks.insert(name.clone(), nb);
                nb += 1;
                cur_labels.push((ins.len(), name));
                i += 1;
                continue;
            }
            if t.starts_with("switch ") {
                let mut s = ln.to_string();
                while !lines[i].trim_start().starts_with(']') && !s.contains(']') {
                    i += 1;
                    s.push(' ');
                    s.push_str(lines[i]);
                }
                ins.push(s);
                i += 1;
                continue;
            }
            if t.contains(" landingpad ") {
                ins.push(ln.to_string());
                i += 1;
                while i < n && (lines[i].trim_start().starts_with("cleanup") || lines[i].trim_start().starts_with("catch") || lines[i].trim_start().starts_with("filter")) {
                    i += 1;
                }
                continue;
            }
            if t.contains("invoke ") {
                let mut s = ln.to_string();
                i += 1;
                s.push(' ');
                s.push_str(lines[i]);
                ins.push(s);
                i += 1;
                continue;
            }
            ins.push(ln.to_string());
            i += 1;
        }
        self.f.blocks = vec![Block::default(); nb as usize];
        let mut bi = 0usize;
        let mut phis: Vec<Vec<(u32, Vec<(u32, Opd)>)>> = vec![vec![]; nb as usize]; // block -> [(dst, [(pred, op)])]
        let mut cur = 0usize;
        for (k, s) in ins.iter().enumerate() {
            while bi < cur_labels.len() && cur_labels[bi].0 == k {
                cur = self.blk(&cur_labels[bi].1) as usize;
                self.f.blocks[cur].start = self.f.code.len() as u32;
                bi += 1;
            }
            let mut l = Lx::new(s);
            let mut dst = NOREG;
            if let Some(T::Loc(nm)) = l.peek() {
                if l.toks.get(1) == Some(&T::P('=')) {
                    let nm = nm.clone();
                    dst = self.reg(&nm);
                    l.p += 2;
                }
            }
            if let Some(T::Id("phi")) = l.peek() {
                l.p += 1;
                while let Some(T::Id(x)) = l.peek() {
                    if matches!(*x, "nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "arcp" | "afn") {
                        l.p += 1;
                    } else {
                        break;
                    }
                }
                let t = self.p.ty(&mut l);
                let mut inc = vec![];
                loop {
                    if !l.eat('[') {
                        break;
                    }
                    let o = self.opd(&mut l, &t);
                    l.expect(',');
                    let b = match l.next() {
                        Some(T::Loc(n)) => self.blk(&n),
                        _ => panic!(),
                    };
                    l.expect(']');
                    inc.push((b, o));
                    if !l.eat(',') {
                        break;
                    }
                }
                phis[cur].push((dst, inc));
                continue;
            }
            let ins = self.ins(&mut l, dst);
            self.f.code.push(ins);
        }
        for (b, ph) in phis.into_iter().enumerate() {
            let mut per: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
            for (dst, inc) in ph {
                let mut seen = vec![];
                for (pred, o) in inc {
                    if seen.contains(&pred) {
                        continue;
                    }
                    seen.push(pred);
                    if let Some(x) = per.iter_mut().find(|x| x.0 == pred) {
                        x.1.push((dst, o));
                    } else {
                        per.push((pred, vec![(dst, o)]));
                    }
                }
            }
            self.f.blocks[b].phis = per;
        }
        self.f.nregs = self.regs.len() as u32;
        std::mem::take(&mut self.f)
    }

    fn ins(&mut self, l: &mut Lx, dst: u32) -> Ins {
        let mut op = l.id();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = l.id();
        }
        let flags = |l: &mut Lx| {
            while let Some(T::Id(x)) = l.peek() {
                if matches!(*x, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "nnan" | "ninf"
                    | "nsz" | "fast" | "contract" | "reassoc" | "arcp" | "afn" | "atomic" | "weak")
                {
                    l.p += 1;
                } else {
                    break;
                }
            }
        };
        let bop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "urem" => Some(BinOp::URem),
            "sdiv" => Some(BinOp::SDiv),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = bop {
            flags(l);
            let t = self.p.ty(l);
            let a = self.opd(l, &t);
            l.expect(',');
            let c = self.opd(l, &t);
            return match &t {
                Ty::Vec(n, e) => Ins::VBin { op: b, w: e.width(), n: *n as u32, dst, a, b: c },
                _ => Ins::Bin { op: b, w: t.width(), dst, a, b: c },
            };
        }
        match op {
            "icmp" => {
                flags(l);
                let p = match l.id() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {x}"),
                };
                let t = self.p.ty(l);
                let a = self.opd(l, &t);
                l.expect(',');
                let b = self.opd(l, &t);
                match &t {
                    Ty::Vec(n, e) => Ins::VIcmp { p, w: e.width(), n: *n as u32, dst, a, b },
                    _ => Ins::Icmp { p, w: t.width(), dst, a, b },
                }
            }
            "fcmp" => {
                flags(l);
                let ps = l.id();
                let p = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"]
                    .iter()
                    .position(|x| *x == ps)
                    .unwrap() as u32;
                let t = self.p.ty(l);
                let a = self.opd(l, &t);
                l.expect(',');
                let b = self.opd(l, &t);
                Ins::Fcmp { p, w: t.width(), dst, a, b }
            }
            "fneg" => {
                flags(l);
                let (t, a) = self.tyopd(l);
                Ins::Fneg { w: t.width(), dst, a }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "fpext" | "fptrunc" => {
                flags(l);
                let (ft, a) = self.tyopd(l);
                assert!(l.eat_id("to"));
                let tt = self.p.ty(l);
                if op == "bitcast" {
                    return Ins::Bitcast { from: Box::new(ft), to: Box::new(tt), dst, a };
                }
                let (fw, tw, n) = match (&ft, &tt) {
                    (Ty::Vec(n, e), Ty::Vec(_, f)) => (e.width(), f.width(), *n as u32),
                    _ => (ft.width(), tt.width(), 0),
                };
                let cop = match op {
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "trunc" => CastOp::Trunc,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => {
                        if tw < fw {
                            CastOp::Trunc
                        } else if tw > fw {
                            CastOp::Zext
                        } else {
                            CastOp::BitcastSame
                        }
                    }
                };
                if n > 0 {
                    Ins::VCast { op: cop, from: fw, to: tw, n, dst, a }
                } else {
                    Ins::Cast { op: cop, from: fw, to: tw, dst, a }
                }
            }
            "freeze" => {
                let (_, a) = self.tyopd(l);
                Ins::Copy { dst, a }
            }
            "alloca" => {
                l.eat_id("inalloca");
                let t = self.p.ty(l);
                let mut n = 1;
                let mut al = 16;
                while l.eat(',') {
                    if l.eat_id("align") {
                        al = l.int() as u64;
                    } else if is_type_start(l.peek()) {
                        let (_, o) = self.tyopd(l);
                        n = match o {
                            Opd::C(c) => c,
                            _ => return Ins::Unsupported("dynamic alloca".into()),
                        };
                    }
                }
                let sz = t.size() * n;
                let a = al.max(16);
                let off = (self.f.frame + a - 1) / a * a;
                self.f.frame = off + sz;
                Ins::Alloca { dst, off }
            }
            "load" => {
                flags(l);
                let t = self.p.ty(l);
                l.expect(',');
                let (_, p) = self.tyopd(l);
                if t.width() > 0 {
                    Ins::Load { dst, w: t.width(), p }
                } else {
                    Ins::LoadAgg { dst, ty: Box::new(t), p }
                }
            }
            "store" => {
                flags(l);
                let (t, v) = self.tyopd(l);
                l.expect(',');
                let (_, p) = self.tyopd(l);
                if t.width() > 0 {
                    Ins::Store { w: t.width(), v, p }
                } else {
                    Ins::StoreAgg { ty: Box::new(t), v, p }
                }
            }
            "getelementptr" => {
                flags(l);
                let et = self.p.ty(l);
                l.expect(',');
                let (bt, base) = self.tyopd(l);
                if matches!(bt, Ty::Vec(..)) {
                    return Ins::Unsupported("vector gep".into());
                }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut k = 0;
                while l.eat(',') {
                    if !is_type_start(l.peek()) {
                        break;
                    }
                    let (it, o) = self.tyopd(l);
                    let w = it.width();
                    if k > 0 {
                        if let Ty::Struct(..) = cur {
                            let v = match o {
                                Opd::C(c) => c as usize,
                                _ => panic!(),
                            };
                            off = off.wrapping_add(cur.field_offset(v));
                            cur = cur.elem(v).clone();
                            k += 1;
                            continue;
                        }
                        cur = cur.elem(0).clone();
                    }
                    let sc = cur.size();
                    match o {
                        Opd::C(c) => off = off.wrapping_add((sext64(c, w) as u64).wrapping_mul(sc)),
                        o => idx.push((o, w, sc)),
                    }
                    k += 1;
                }
                Ins::Gep { dst, base, off, idx: idx.into_boxed_slice() }
            }
            "select" => {
                flags(l);
                let (ct, c) = self.tyopd(l);
                l.expect(',');
                let (t, a) = self.tyopd(l);
                l.expect(',');
                let (_, b) = self.tyopd(l);
                match (&ct, &t) {
                    (Ty::Vec(n, _), Ty::Vec(_, e)) => Ins::VSelect { dst, c, a, b, w: e.width(), n: *n as u32 },
                    _ => Ins::Select { dst, c, a, b, w: t.width() },
                }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(l);
                let mut idx = vec![];
                while l.eat(',') {
                    if let Some(T::Id(_)) = l.peek() {
                        idx.push(l.int() as u32);
                    } else {
                        break;
                    }
                }
                Ins::Extract { dst, a, idx: idx.into_boxed_slice() }
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(l);
                l.expect(',');
                let (_, v) = self.tyopd(l);
                let mut idx = vec![];
                while l.eat(',') {
                    if let Some(T::Id(_)) = l.peek() {
                        idx.push(l.int() as u32);
                    } else {
                        break;
                    }
                }
                Ins::Insert { dst, a, v, idx: idx.into_boxed_slice(), ty: Box::new(t) }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(l);
                l.expect(',');
                let (_, i) = self.tyopd(l);
                Ins::ExtractEl { dst, a, i }
            }
            "insertelement" => {
                let (t, a) = self.tyopd(l);
                l.expect(',');
                let (_, v) = self.tyopd(l);
                l.expect(',');
                let (_, i) = self.tyopd(l);
                Ins::InsertEl { dst, a, v, i, n: t.nelem() as u32 }
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(l);
                l.expect(',');
                let (_, b) = self.tyopd(l);
                l.expect(',');
                let mt = self.p.ty(l);
                let c = self.p.cst(l, &mt);
                let mask = match self.ad.kv(&mt, &c) {
                    KV::A(v) => v.iter().map(|k| if let KV::C(x) = k { *x as u32 } else { 0 }).collect::<Vec<_>>(),
                    _ => panic!(),
                };
                Ins::Shuffle { dst, a, b, n: t.nelem() as u32, mask: mask.into_boxed_slice() }
            }
            "atomicrmw" => {
                flags(l);
                let o = l.id();
                let opn = ["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin"].iter().position(|x| *x == o).unwrap_or(99) as u32;
                let (_, p) = self.tyopd(l);
                l.expect(',');
                let (t, v) = self.tyopd(l);
                Ins::AtomicRmw { op: opn, w: t.width(), dst, p, v }
            }
            "cmpxchg" => {
                flags(l);
                let (_, p) = self.tyopd(l);
                l.expect(',');
                let (t, c) = self.tyopd(l);
                l.expect(',');
                let (_, n) = self.tyopd(l);
                Ins::CmpXchg { w: t.width(), dst, p, c, n }
            }
            "fence" => Ins::Nop,
            "br" => {
                if let Some(T::Id("label")) = l.peek() {
                    let t = self.label(l);
                    Ins::Br { t }
                } else {
                    let (_, c) = self.tyopd(l);
                    l.expect(',');
                    let t = self.label(l);
                    l.expect(',');
                    let f = self.label(l);
                    Ins::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(l);
                l.expect(',');
                let def = self.label(l);
                l.expect('[');
                let mut cases = vec![];
                while !l.eat(']') {
                    let ct = self.p.ty(l);
                    let c = match self.opd(l, &ct) {
                        Opd::C(c) => c as u128,
                        Opd::K(k) => match &self.m.kpool[k as usize] {
                            KV::W(x) => *x,
                            KV::C(x) => *x as u128,
                            _ => return Ins::Unsupported("wide switch".into()),
                        },
                        _ => return Ins::Unsupported("wide switch".into()),
                    };
                    l.expect(',');
                    let b = self.label(l);
                    cases.push((c, b));
                }
                Ins::Switch { w: t.width(), v, def, cases: cases.into_boxed_slice() }
            }
            "ret" => {
                let t = self.p.ty(l);
                if t == Ty::Void {
                    Ins::Ret { v: None }
                } else {
                    let o = self.opd(l, &t);
                    Ins::Ret { v: Some(o) }
                }
            }
            "unreachable" => Ins::Unreachable,
            "call" | "invoke" => {
                let invoke = op == "invoke";
                // skip flags, cc, ret attrs
                loop {
                    flags(l);
                    if is_type_start(l.peek()) {
                        break;
                    }
                    match l.peek() {
                        Some(T::Id(s)) => {
                            let s = *s;
                            l.p += 1;
                            if s == "align" {
                                l.p += 1;
                            } else if let Some(T::P('(')) = l.peek() {
                                l.skip_paren();
                            }
                        }
                        t => panic!("call {:?} {:?}", t, l.toks),
                    }
                }
                let rt = self.p.ty(l);
                if let Some(T::P('(')) = l.peek() {
                    // function type
                    l.skip_paren();
                }
                if let Some(T::Id("asm")) = l.peek() {
                    let desc = format!("inline asm {:?}", l.toks);
                    if rt == Ty::Void {
                        return Ins::Nop;
                    }
                    // an optimisation barrier: no instruction, the one output is the one input
                    let strs: Vec<&Vec<u8>> = l.toks[l.p..].iter().filter_map(|t| if let T::Str(s) = t { Some(s) } else { None }).collect();
                    let barrier = if let [text, cons, ..] = &strs[..] {
                        text.starts_with(b"/*")
                        && text.iter().filter(|c| **c == b'*').count() == 2
                        && text.ends_with(b"*/")
                        && cons.starts_with(b"=&r,0,~")
                        && !cons[6..].split(|c| *c == b',').any(|c| !c.starts_with(b"~"))
                    } else {
                        false
                    };
                    if barrier {
                        while !matches!(l.peek(), Some(T::P('('))) {
                            l.p += 1;
                        }
                        l.p += 1;
                        let (_, a) = self.tyopd(l);
                        return Ins::Copy { dst, a };
                    }
                    return Ins::Unsupported(desc);
                }
                enum Cal {
                    G(String),
                    L(u32),
                    C(u64),
                }
                let cal = match l.next() {
                    Some(T::Glob(g)) => Cal::G(g),
                    Some(T::Loc(n)) => Cal::L(self.reg(&n)),
                    Some(T::Id("inttoptr")) => {
                        l.p -= 1;
                        let o = self.opd(l, &Ty::Ptr);
                        match o {
                            Opd::C(c) => Cal::C(c),
                            _ => panic!(),
                        }
                    }
                    Some(T::Id("poison")) | Some(T::Id("undef")) | Some(T::Id("null")) => Cal::C(0),
                    t => panic!("callee {:?} in {:?}", t, l.toks),
                };
                l.expect('(');
                let is_dbg = matches!(&cal, Cal::G(g) if g.starts_with("llvm.dbg") || g.starts_with("llvm.lifetime") || g.starts_with("llvm.experimental.noalias") || g == "llvm.assume" || g.starts_with("llvm.prefetch") || g.starts_with("llvm.x86.sse2.pause") || g.starts_with("llvm.invariant"));
                if is_dbg {
                    return Ins::Nop;
                }
                let mut args = vec![];
                let mut argw = vec![];
                while !l.eat(')') {
                    let (t, o) = self.tyopd(l);
                    argw.push(match &t { Ty::Vec(_, e) => e.width(), t => t.width() });
                    args.push(o);
                    l.eat(',');
                }
                let callee = match cal {
                    Cal::L(r) => Callee::Indirect(Opd::R(r)),
                    Cal::C(c) => Callee::Indirect(Opd::C(c)),
                    Cal::G(g) => {
                        if g.starts_with("llvm.") {
                            let id = match self.m.intrinsics.iter().position(|x| *x == g) {
                                Some(i) => i,
                                None => {
                                    self.m.intrinsics.push(g.clone());
                                    self.m.intrinsics.len() - 1
                                }
                            };
                            Callee::Intrinsic(id as u32)
                        } else {
                            Callee::Func(self.ad.fmap[&g])
                        }
                    }
                };
                let retw = match &rt { Ty::Vec(_, e) => e.width(), t => t.width() };
                let c = Ins::Call { dst: if rt == Ty::Void { NOREG } else { dst }, callee, args: args.into_boxed_slice(), argw: argw.into_boxed_slice(), retw };
                if invoke {
                    // normal dest follows: emit call then br
                    loop {
                        match l.next() {
                            Some(T::Id("to")) => break,
                            None => panic!("invoke"),
                            _ => {}
                        }
                    }
                    let t = self.label(l);
                    self.f.code.push(c);
                    return Ins::Br { t };
                }
                c
            }
            x => Ins::Unsupported(x.to_string()),
        }
    }
}

fn is_label(s: &str) -> bool {
    let b = s.as_bytes();
    if b.is_empty() || b[0] == b' ' || b[0] == b'\t' || b[0] == b';' {
        return false;
    }
    if b[0] == b'"' {
        return true;
    }
    let mut i = 0;
    while i < b.len() && is_idc(b[i]) {
        i += 1;
    }
    i > 0 && i < b.len() && b[i] == b':'
}

fn label_name(s: &str) -> String {
    if let Some(r) = s.strip_prefix('"') {
        let e = r.find('"').unwrap();
        return String::from_utf8_lossy(&unescape(r[..e].as_bytes())).to_string();
    }
    s[..s.find(':').unwrap()].to_string()
}

/// crude demangling of rustc v0 / legacy names: list of path identifiers joined by "::"
pub fn pretty(name: &str) -> String {
    let b = name.as_bytes();
    if !name.starts_with("_R") && !name.starts_with("_ZN") {
        return name.to_string();
    }
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 && i > 0 && b[i - 1] == b'C' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && j - i < 4 {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() && b[j..j + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(&name[j..j + n]);
                i = j + n;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
