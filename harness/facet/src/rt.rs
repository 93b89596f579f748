//! values written with facet-styx and read back
use facet::Facet;
use std::collections::BTreeMap;
use vx::gen::P;

#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Strs {
    pub s: String,
    pub o: Option<String>,
    pub t: String,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Colls {
    pub v: Vec<String>,
    pub m: BTreeMap<String, String>,
    pub w: Vec<Vec<String>>,
    pub z: bool,
}
#[derive(Facet, PartialEq, Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[repr(u8)]
#[facet(rename_all = "kebab-case")]
#[cfg_attr(feature = "serde", serde(rename_all = "kebab-case"))]
pub enum En {
    Err(String),
    Unit,
    New(String),
    Opt(Option<String>),
    Pair(String, u8),
    St { a: String, b_b: bool },
    Seq(Vec<String>),
    Nest(In),
}
#[derive(Facet, PartialEq, Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct In {
    pub x: String,
    pub y: Option<u8>,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Ens {
    pub e: En,
    pub f: Vec<En>,
    pub g: Option<En>,
    pub h: BTreeMap<String, En>,
    pub z: String,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Deep {
    pub a: In,
    pub l: Vec<In>,
    pub o: Option<In>,
    pub m: BTreeMap<String, In>,
    pub t: (String, u8),
    pub b: Box<In>,
    pub z: u8,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Nums {
    pub a: u8,
    pub b: i8,
    pub c: i32,
    pub d: u64,
    pub e: i64,
    pub f: f64,
    pub g: Vec<i64>,
    pub h: u128,
    pub i: i128,
    pub k: f32,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Chars {
    pub c: char,
    pub d: Option<char>,
    pub s: String,
}

#[cfg(not(feature = "serde"))]
pub trait Ty: for<'a> Facet<'a> + PartialEq + std::fmt::Debug {}
#[cfg(not(feature = "serde"))]
impl<T: for<'a> Facet<'a> + PartialEq + std::fmt::Debug> Ty for T {}
#[cfg(feature = "serde")]
pub trait Ty: for<'a> Facet<'a> + PartialEq + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned {}
#[cfg(feature = "serde")]
impl<T: for<'a> Facet<'a> + PartialEq + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned> Ty for T {}

/// set for values with newtype or unit structs, which serde's and facet's data models write differently
pub static OWN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn own<T>(t: T) -> T {
    OWN.store(true, std::sync::atomic::Ordering::Relaxed);
    t
}
/// what is done with a value
pub trait Do {
    /// are floats that are not finite among the values?
    const INF: bool;
    fn go<T: Ty>(v: &T);
}
pub struct Back;
impl Do for Back {
    const INF: bool = true;
    fn go<T: Ty>(v: &T) {
        back(v)
    }
}
/// the schema generated for the type describes the value
pub struct Conf;
impl Do for Conf {
    /// schemas have no infinity (floats are JSON numbers)
    const INF: bool = false;
    fn go<T: Ty>(v: &T) {
        let out = match facet_styx::to_string(v) {
            Ok(o) => o,
            Err(_) => vx::fail("a value cannot be written"),
        };
        let doc = match styx_tree::parse(&out) {
            Ok(d) => d,
            Err(_) => vx::fail("a written value is not a document"),
        };
        let s = facet_styx::schema_from_type::<T>();
        vx::note(|| format!("{v:?}\nwritten {out:?}\nschema {s}"));
        vx::observe(s.len() as u64);
        let f = match facet_styx::from_str::<facet_styx::SchemaFile>(&s) {
            Ok(f) => f,
            Err(_) => vx::fail("a generated schema cannot be read"),
        };
        let r = facet_styx::validate(&doc, &f);
        vx::note(|| format!("errors {:?}", r.errors));
        vx::check(r.is_valid(), "a value does not conform to the schema generated for its type");
        // the schema as generated, without being written and read
        let g = facet_styx::schema_file_from_type::<T>();
        vx::check(facet_styx::validate(&doc, &g).is_valid(), "a value does not conform to the generated schema before it is written");
        vx::cover(0);
    }
}

/// write, read back, compare
pub fn back<T: Ty>(v: &T) {
    let k = vx::choose(4);
    let o = facet_styx::SerializeOptions::default();
    let out = match k {
        0 => facet_styx::to_string(v),
        1 => facet_styx::to_string_compact(v),
        2 => facet_styx::to_string_with_options(v, &o.inline()),
        _ => facet_styx::to_string_with_options(v, &o.multiline()),
    };
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            vx::note(|| format!("{v:?}: {e}"));
            vx::fail("a value cannot be written")
        }
    };
    vx::note(|| format!("{v:?}\nwritten {out:?}"));
    vx::observe_bytes(out.as_bytes());
    same(v, facet_styx::from_str::<T>(&out), &out);
    if k == 1 {
        same(v, facet_styx::from_str_expr::<T>(&out), &out);
    }
    vx::cover(0);
}
fn same<T: PartialEq + std::fmt::Debug>(v: &T, r: Result<T, facet_styx::DeserializeError>, _out: &str) {
    match r {
        Ok(w) => {
            if w != *v {
                vx::note(|| format!("read {w:?}"));
                vx::fail("a written value reads back as a different value")
            }
        }
        Err(e) => {
            vx::note(|| format!("error {e}"));
            // recorded finding: `@` is not read as the absent value of an optional field
            if unit_value(_out) {
                vx::known("option-none")
            }
            vx::fail("a written value cannot be read back")
        }
    }
}
fn unit_value(out: &str) -> bool {
    ["@\n", "@,", "@}", "@)", "@ "].iter().any(|w| out.contains(w)) || out.ends_with('@')
}
fn sym(ps: &[P]) -> String {
    let mut v = vec![];
    vx::gen::put(ps, &mut v);
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn text() -> String {
    sym(&[P::U0(2)])
}
pub fn strs<D: Do>(s: String) {
    let o = match vx::choose(2) {
        0 => Some(s.clone()),
        _ => Some("b c".to_string()),
    };
    D::go(&Strs { o, t: s.clone(), s })
}
pub fn colls<D: Do>(s: String) {
    let v = match vx::choose(4) {
        0 => vec![],
        1 => vec![s.clone()],
        2 => vec!["a".into(), s.clone()],
        _ => vec![s.clone(), "".into(), "b\nc\nd\n".into()],
    };
    let mut m = BTreeMap::new();
    let w = match vx::choose(3) {
        0 => vec![],
        1 => vec![vec![]],
        _ => vec![vec![s.clone()], vec!["1".into(), "2".into()]],
    };
    match vx::choose(3) {
        0 => {}
        1 => {
            m.insert(s, "x".into());
        }
        _ => {
            m.insert("k.l".into(), s);
            m.insert("@".into(), "y".into());
        }
    }
    D::go(&Colls { v, m, w, z: vx::choose(2) == 1 })
}
pub fn en(s: String) -> En {
    match vx::choose(11) {
        0 => En::Unit,
        9 => En::Err(s),
        1 => En::New(s),
        2 => En::Opt(None),
        3 => En::Opt(Some(s)),
        4 => En::Pair(s, 7),
        5 => En::St { a: s, b_b: true },
        6 => En::Seq(vec![]),
        7 => En::Seq(vec![s, "q".into()]),
        8 => En::Nest(In { x: s, y: Some(0) }),
        _ => En::Nest(In { x: s, y: Some(3) }),
    }
}
pub fn ens<D: Do>(n: usize) {
    let s = sym(&[P::U0(n)]);
    let e = en(s.clone());
    let x = en("p q".into());
    let mut h = BTreeMap::new();
    let (f, g) = match vx::choose(4) {
        0 => (vec![], x.clone()),
        1 => (vec![e.clone(), x], En::Unit),
        2 => (vec![En::Unit], e.clone()),
        _ => {
            h.insert("k".into(), e.clone());
            h.insert("l".into(), x);
            (vec![], En::Opt(None))
        }
    };
    D::go(&Ens { e, f, g: Some(g), h, z: s })
}
pub fn inn(s: &str) -> In {
    In { x: s.into(), y: Some(9) }
}
pub fn deep<D: Do>() {
    let s = text();
    let a = inn(&s);
    let mut m = BTreeMap::new();
    let (l, o) = match vx::choose(4) {
        0 => (vec![], inn("")),
        1 => (vec![inn(&s), inn("é\nf")], inn("x")),
        2 => (vec![inn("1")], inn(&s)),
        _ => {
            m.insert("k".into(), inn(&s));
            m.insert(s.clone(), inn("v"));
            (vec![], inn("@"))
        }
    };
    D::go(&Deep { a, l, o: Some(o), m, t: (s.clone(), 3), b: Box::new(In { x: s, y: Some(0) }), z: 1 })
}
pub fn nums<D: Do>() {
    let a = vx::byte();
    let k = vx::choose(8);
    let e: i64 = [0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, 4294967296, -129][k as usize];
    let d: u64 = [0, 1, u64::MAX, i64::MAX as u64 + 1, u64::MAX - 1, 4294967296, 65535, 255][k as usize];
    let f: f64 = [0.0, 1.0, -1.5, 1e300, 5e-324, f64::MAX, 0.1, -0.0][k as usize];
    let a = vx::concrete(a as u64) as u8;
    D::go(&Nums { a, b: a as i8, c: [0, i32::MAX, i32::MIN, -7][(k % 4) as usize], d, e, f, g: vec![e, 5], h: d as u128 * if k == 2 { 1 << 60 } else { 1 }, i: e as i128 * if k == 4 { 1 << 60 } else { 1 }, k: if D::INF || (f as f32).is_finite() { f as f32 } else { 2.5 } })
}
/// fields that may be left out
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Defs {
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub l: Vec<In>,
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub v: Vec<Vec<u8>>,
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub m: BTreeMap<char, In>,
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub k: BTreeMap<i64, En>,
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub o: Option<Vec<En>>,
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub t: (u8, String),
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub b: bool,
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub c: char,
    pub z: u8,
}
pub fn defs<D: Do>() {
    let s = sym(&[P::U0(2)]);
    let c = s.chars().next().unwrap_or('x');
    let n = vx::choose(3);
    let (mut l, mut v, mut m, mut k) = (vec![], vec![], BTreeMap::new(), BTreeMap::new());
    for i in 0..n {
        l.push(inn(&s));
        v.push(vec![1; i as usize]);
        m.insert(if i == 0 { c } else { '1' }, inn("q"));
        k.insert(if i == 0 { -5 } else { 0 }, En::Pair(s.clone(), 1));
    }
    let o = if n == 1 { vec![] } else { vec![En::New(s.clone()), En::Unit] };
    D::go(&Defs { l, v, m, k, o: Some(o), t: (7, s), b: n == 1, c, z: 9 })
}
/// absent optional values, as fields, elements, map values and tag payloads
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Nones {
    pub a: Option<String>,
    pub v: Vec<Option<u8>>,
    pub m: BTreeMap<String, Option<bool>>,
    pub e: En,
    pub z: String,
}
pub fn nones<D: Do>() {
    let s = sym(&[P::U0(1)]);
    let k = vx::choose(16);
    let mut m = BTreeMap::new();
    m.insert("k".into(), if k & 1 == 0 { Some(true) } else { None });
    D::go(&Nones { a: if k & 2 == 0 { Some(s.clone()) } else { None }, v: vec![Some(1), if k & 4 == 0 { Some(2) } else { None }], m, e: if k & 8 == 0 { En::Opt(Some(s.clone())) } else { En::Opt(None) }, z: s })
}
pub fn chars<D: Do>() {
    let n = vx::choose(4);
    let mut v = vec![];
    vx::char_shape(n, &mut v);
    let s = unsafe { String::from_utf8_unchecked(v) };
    let c = match s.chars().next() {
        Some(c) => c,
        None => return,
    };
    D::go(&Chars { c, d: Some(c), s })
}

// ---- the other shapes of types ----
#[derive(Facet, PartialEq, Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Nt(pub u8);
#[derive(Facet, PartialEq, Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Un;
#[derive(Facet, PartialEq, Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Tp(pub String, pub bool);
#[derive(Facet, PartialEq, Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[facet(transparent)]
#[cfg_attr(feature = "serde", serde(transparent))]
pub struct Tr(pub String);
#[derive(Facet, PartialEq, Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[repr(u8)]
pub enum Pay {
    Num(u8),
    Neg(i64),
    Big(u128),
    Flag(bool),
    Fl(f64),
    Ch(char),
    New(Nt),
    Tup(Tp),
    Tra(Tr),
    Uni(Un),
    Opt(Option<u8>),
    Lis(Vec<u8>),
    Boxed(Box<u8>),
    Map(BTreeMap<String, u8>),
    Arr([u8; 2]),
    Pair((String, u8)),
    One((u8,)),
    Nothing,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Pays {
    pub a: Pay,
    pub b: Vec<Pay>,
    pub c: BTreeMap<String, Pay>,
}
pub fn pays<D: Do>() {
    let mut v = vec![];
    vx::gen::put(&[P::U0(1)], &mut v);
    let s = unsafe { String::from_utf8_unchecked(v) };
    let mut m = BTreeMap::new();
    let p = match vx::choose(19) {
        0 => Pay::Num(200),
        1 => Pay::Neg(-5),
        2 => Pay::Big(u128::MAX),
        3 => Pay::Flag(vx::choose(2) == 1),
        4 => Pay::Fl([-1.5, 0.0, 3e20][vx::choose(3) as usize]),
        5 => Pay::Ch('"'),
        6 => Pay::New(own(Nt(7))),
        7 => Pay::Tup(Tp(s, true)),
        8 => Pay::Tra(Tr(s)),
        9 => Pay::Uni(own(Un)),
        10 => Pay::Opt(Some(3)),
        11 => Pay::Opt(None),
        12 => Pay::Lis(vec![1, 2]),
        13 => Pay::Boxed(Box::new(4)),
        14 => {
            m.insert(s, 1);
            Pay::Map(m.clone())
        }
        15 => Pay::Arr([1, 2]),
        16 => Pay::Pair((s, 2)),
        17 => Pay::One((1,)),
        _ => Pay::Nothing,
    };
    let mut c = BTreeMap::new();
    let (a, b) = match vx::choose(3) {
        0 => (p, vec![]),
        1 => (Pay::Nothing, vec![p, Pay::Num(1)]),
        _ => {
            c.insert("k".into(), p);
            c.insert("l".into(), Pay::Flag(true));
            (Pay::Fl(1.0), vec![Pay::Nothing])
        }
    };
    D::go(&Pays { a, b, c })
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Common {
    pub name: String,
    pub id: u64,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Flat {
    #[facet(flatten)]
    #[cfg_attr(feature = "serde", serde(flatten))]
    pub common: Common,
    pub x: Nt,
    pub y: (String, u8),
    pub z: Un,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct FlatMap {
    #[facet(flatten)]
    #[cfg_attr(feature = "serde", serde(flatten))]
    pub rest: BTreeMap<String, u8>,
    pub extra: String,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Gen<T> {
    pub v: T,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Gens {
    pub a: Gen<u8>,
    pub b: Gen<String>,
    pub c: Gen<Vec<Gen<bool>>>,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Tree {
    pub v: String,
    pub k: Vec<Tree>,
    pub m: BTreeMap<String, Tree>,
}
#[derive(Facet, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[facet(rename_all = "kebab-case")]
#[cfg_attr(feature = "serde", serde(rename_all = "kebab-case"))]
pub struct Names {
    pub foo_bar: u8,
    #[facet(rename = "x.y")]
    #[cfg_attr(feature = "serde", serde(rename = "x.y"))]
    pub x: u8,
    #[facet(rename = "a b")]
    #[cfg_attr(feature = "serde", serde(rename = "a b"))]
    pub ab: String,
    #[facet(default = 5)]
    pub d: u8,
    #[facet(default)]
    #[cfg_attr(feature = "serde", serde(default))]
    pub e: Vec<String>,
    pub r: Result<u8, String>,
    pub f: [u8; 2],
    pub b: BTreeMap<bool, u8>,
    pub n: BTreeMap<u8, String>,
    pub t: Tr,
    pub s: std::collections::BTreeSet<String>,
}
pub fn shapes<D: Do>() {
    let s = text();
    let shape = vx::choose(5);
    // serde buffers flattened fields without knowing their types, so a bare number is no string there
    vx::assume(!cfg!(feature = "serde") || shape != 0 || !s.bytes().any(|b| b.is_ascii_digit()));
    match shape {
        0 => D::go(&Flat { common: Common { name: s.clone(), id: 1 }, x: own(Nt(3)), y: (s, 2), z: Un }),
        1 => {
            let mut rest = BTreeMap::new();
            if vx::choose(2) == 1 {
                vx::assume(s != "extra");
                rest.insert(s.clone(), 7);
            }
            D::go(&FlatMap { rest, extra: s })
        }
        2 => D::go(&Gens { a: Gen { v: 1 }, b: Gen { v: s }, c: Gen { v: vec![Gen { v: true }] } }),
        3 => {
            let leaf = |s: &str| Tree { v: s.into(), k: vec![], m: BTreeMap::new() };
            let mut m = BTreeMap::new();
            m.insert(s.clone(), leaf("x"));
            D::go(&Tree { v: "r".into(), k: vec![leaf(&s), Tree { v: "".into(), k: vec![leaf("y")], m: BTreeMap::new() }], m })
        }
        _ => {
            let mut b = BTreeMap::new();
            let mut n = BTreeMap::new();
            let mut set = std::collections::BTreeSet::new();
            let r = match vx::choose(2) {
                0 => Ok(4),
                _ => Err(s.clone()),
            };
            b.insert(true, 1);
            n.insert(9, s.clone());
            set.insert(s.clone());
            set.insert("q".into());
            own(());
            D::go(&Names { foo_bar: 1, x: 2, ab: s.clone(), d: 6, e: vec![s.clone()], r, f: [1, 2], b, n, t: Tr(s), s: set })
        }
    }
}
