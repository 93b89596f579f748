//! typed reading of documents, by facet-styx and serde_styx, against the meaning of the document
use facet::Facet;
use serde::{de::DeserializeOwned, Deserialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use vx::gen;
use styx_tree::{Payload, Value};

/// what a value means for a type; Err is no claim
pub enum No {
    /// the value is not one of the type
    Bad,
    /// the specification does not say
    Open,
}
use No::*;
pub trait Rd: Sized + Debug + PartialEq {
    fn of(v: &Value) -> Result<Self, No>;
    /// the value of a missing field
    fn absent() -> Result<Self, No> {
        Err(Bad)
    }
}
/// recorded findings that facet-styx has: unit is the default value of any scalar type, and () an empty map
static LENIENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn lenient() -> bool {
    LENIENT.load(std::sync::atomic::Ordering::Relaxed)
}
fn scalar(v: &Value) -> Result<&str, No> {
    match (&v.tag, &v.payload) {
        (None, Some(Payload::Scalar(s))) => Ok(&s.text),
        _ => Err(Bad),
    }
}
macro_rules! parsed {
    ($($t:ty)*) => {$(impl Rd for $t {
        fn of(v: &Value) -> Result<Self, No> {
            if unit(v) && lenient() {
                return Ok(Default::default());
            }
            scalar(v)?.parse().map_err(|_| Bad)
        }
    })*};
}
parsed!(u8 i8 u16 i64 bool char String f64);
impl<T: Rd> Rd for Option<T> {
    fn of(v: &Value) -> Result<Self, No> {
        if unit(v) {
            return Ok(None);
        }
        T::of(v).map(Some)
    }
    fn absent() -> Result<Self, No> {
        Ok(None)
    }
}
fn unit(v: &Value) -> bool {
    v.tag.is_none() && v.payload.is_none()
}
impl Rd for () {
    fn of(v: &Value) -> Result<Self, No> {
        if unit(v) || lenient() && entries(v).is_ok_and(|e| e.is_empty()) { Ok(()) } else { Err(Bad) }
    }
}
impl<T: Rd> Rd for Box<T> {
    fn of(v: &Value) -> Result<Self, No> {
        T::of(v).map(Box::new)
    }
}
fn items(v: &Value) -> Result<&[Value], No> {
    match (&v.tag, &v.payload) {
        (None, Some(Payload::Sequence(s))) => Ok(&s.items),
        _ => Err(Bad),
    }
}
impl<T: Rd> Rd for Vec<T> {
    fn of(v: &Value) -> Result<Self, No> {
        items(v)?.iter().map(T::of).collect()
    }
}
impl<A: Rd, B: Rd> Rd for (A, B) {
    fn of(v: &Value) -> Result<Self, No> {
        match items(v)? {
            [a, b] => Ok((A::of(a)?, B::of(b)?)),
            _ => Err(Bad),
        }
    }
}
/// the entries of an object by the text of their keys
fn entries(v: &Value) -> Result<Vec<(&str, &Value)>, No> {
    if lenient() && items(v).is_ok_and(|i| i.is_empty()) {
        return Ok(vec![]);
    }
    let Some(Payload::Object(o)) = &v.payload else { return Err(Bad) };
    if v.tag.is_some() {
        return Err(Bad);
    }
    let mut r: Vec<(&str, &Value)> = vec![];
    for e in &o.entries {
        // typed maps and structs have no unit or tagged keys
        let k = scalar(&e.key).map_err(|_| Open)?;
        // sibling paths: a recorded finding
        if r.iter().any(|(q, _)| *q == k) {
            return Err(Open);
        }
        r.push((k, &e.value));
    }
    Ok(r)
}
impl<T: Rd> Rd for BTreeMap<String, T> {
    fn of(v: &Value) -> Result<Self, No> {
        entries(v)?.into_iter().map(|(k, v)| Ok((k.to_string(), T::of(v)?))).collect()
    }
}
/// all fields must be what they should, but an open one leaves the whole open
fn field<T: Rd>(es: &[(&str, &Value)], name: &str) -> Result<Option<T>, No> {
    match es.iter().find(|(k, _)| *k == name) {
        Some((_, v)) => T::of(v).map(Some),
        None => Ok(None),
    }
}
#[derive(Facet, Deserialize, Debug, PartialEq)]
pub struct One<T> {
    pub a: T,
}
impl<T: Rd> Rd for One<T> {
    fn of(v: &Value) -> Result<Self, No> {
        let es = entries(v)?;
        Ok(One { a: field(&es, "a")?.map_or_else(T::absent, Ok)? })
    }
}
#[derive(Facet, Deserialize, Debug, PartialEq)]
pub struct In {
    pub x: u8,
    #[facet(default)]
    #[serde(default)]
    pub y: String,
    pub z: Option<bool>,
}
impl Rd for In {
    fn of(v: &Value) -> Result<Self, No> {
        let es = entries(v)?;
        let (x, y, z) = (field(&es, "x"), field(&es, "y"), field(&es, "z"));
        if matches!(x, Err(Open)) || matches!(y, Err(Open)) || matches!(z, Err(Open)) {
            return Err(Open);
        }
        Ok(In { x: x?.ok_or(Bad)?, y: y?.unwrap_or_default(), z: z?.flatten() })
    }
}
#[derive(Facet, Deserialize, Debug, PartialEq)]
#[repr(u8)]
#[facet(rename_all = "kebab-case")]
#[serde(rename_all = "kebab-case")]
pub enum En {
    Un,
    Nt(u8),
    Op(Option<String>),
    Tu(u8, String),
    St { x: u8, s: String },
    Sq(Vec<u8>),
    In(In),
}
impl Rd for En {
    fn of(v: &Value) -> Result<Self, No> {
        let Some(t) = &v.tag else {
            // whether a bare scalar names a variant is up to the reader
            return Err(if scalar(v).is_ok() { Open } else { Bad });
        };
        let p = Value { tag: None, payload: v.payload.clone(), span: None };
        Ok(match t.name.as_str() {
            "un" => {
                <()>::of(&p)?;
                En::Un
            }
            "nt" => En::Nt(u8::of(&p)?),
            "op" => En::Op(Option::of(&p)?),
            "tu" => {
                let (a, b) = <(u8, String)>::of(&p)?;
                En::Tu(a, b)
            }
            "st" => {
                let es = entries(&p)?;
                let (x, s) = (field(&es, "x"), field(&es, "s"));
                if matches!(x, Err(Open)) || matches!(s, Err(Open)) {
                    return Err(Open);
                }
                En::St { x: x?.ok_or(Bad)?, s: s?.ok_or(Bad)? }
            }
            "sq" => En::Sq(Vec::of(&p)?),
            "in" => En::In(In::of(&p)?),
            _ => return Err(Bad),
        })
    }
}
pub fn read<T: Rd + DeserializeOwned + for<'a> Facet<'a>>(doc: &str, which: u32) {
    let v = styx_tree::parse(doc);
    // tag chains: a recorded finding, the tree has one tag per value
    let (mut tag, mut at) = (false, false);
    for e in styx_parse::Parser::new(doc).parse_to_vec() {
        let t = matches!(e.kind, styx_parse::EventKind::TagStart { .. });
        if tag && t {
            return;
        }
        at |= !tag && e.kind == styx_parse::EventKind::Unit && doc[e.span.start as usize..].starts_with('@');
        tag = t;
    }
    let want = match &v {
        Ok(v) => T::of(v),
        Err(_) => Err(Bad),
    };
    if matches!(want, Err(Open)) {
        return;
    }
    vx::note(|| format!("want {:?}", want.as_ref().ok()));
    if which & 1 != 0 {
        let got = serde_styx::from_str::<T>(doc);
        vx::note(|| format!("serde {got:?}"));
        same(&want, got.ok(), "serde_styx reads a document as a different value", "serde_styx rejects a document of the type", "serde_styx accepts a document that is not of the type");
    }
    if which & 2 != 0 {
        let got = facet_styx::from_str::<T>(doc);
        vx::note(|| format!("facet {:?}", got.as_ref().map_err(|e| e.to_string())));
        let got = got.ok();
        if !matches(&want, &got) {
            LENIENT.store(true, std::sync::atomic::Ordering::Relaxed);
            let lax = v.as_ref().map_or(Err(Bad), |v| T::of(v));
            LENIENT.store(false, std::sync::atomic::Ordering::Relaxed);
            if matches(&lax, &got) {
                vx::known("facet-unit-default")
            }
            if at && want.is_ok() && got.is_none() {
                vx::known("option-none")
            }
        }
        same(&want, got, "facet-styx reads a document as a different value", "facet-styx rejects a document of the type", "facet-styx accepts a document that is not of the type");
    }
}
fn matches<T: PartialEq>(want: &Result<T, No>, got: &Option<T>) -> bool {
    match (want, got) {
        (Ok(w), Some(g)) => w == g,
        (Err(_), None) => true,
        _ => false,
    }
}
fn same<T: PartialEq>(want: &Result<T, No>, got: Option<T>, other: &'static str, rej: &'static str, acc: &'static str) {
    match (want, got) {
        (Ok(w), Some(g)) => {
            vx::check(*w == g, other);
            vx::cover(0);
        }
        (Ok(_), None) => vx::fail(rej),
        (Err(_), Some(_)) => vx::fail(acc),
        _ => vx::cover(1),
    }
}
pub fn typed(doc: &str, t: u32, which: u32) {
    match t {
        0 => read::<One<u8>>(doc, which),
        1 => read::<One<bool>>(doc, which),
        2 => read::<One<String>>(doc, which),
        3 => read::<One<Option<i8>>>(doc, which),
        4 => read::<One<Vec<u8>>>(doc, which),
        5 => read::<One<(u8, String)>>(doc, which),
        6 => read::<One<BTreeMap<String, String>>>(doc, which),
        7 => read::<One<In>>(doc, which),
        8 => read::<One<En>>(doc, which),
        9 => read::<BTreeMap<String, Option<String>>>(doc, which),
        10 => read::<One<char>>(doc, which),
        11 => read::<One<f64>>(doc, which),
        _ => read::<One<Vec<En>>>(doc, which),
    }
}
pub fn any(ps: &[gen::P], which: u32) {
    let doc = gen::doc(ps);
    typed(&doc, vx::choose(13), which)
}
/// documents of the types, with up to two characters inserted anywhere and one removed
pub fn near(n: usize, which: u32) {
    const D: &[(&str, u32)] = &[
        ("a 12", 3),
        ("a -1.5e3", 11),
        ("a true\nb 1", 1),
        ("a \"x\\ny\"", 2),
        ("{a (1 2)}", 4),
        ("a (1 \"b\")", 5),
        ("a {x 1, y b, z @}", 7),
        ("a x>1 y>b", 7),
        ("a x>1 y>b", 6),
        ("a.x 1\n\"a\".z true", 7),
        ("a @st{x 1, s b}", 8),
        ("a @tu(1 b)", 8),
        ("a (@un @nt\"1\" @op)", 12),
        ("// c\n/// d\na @in{x 1}", 8),
        ("a <<E\n x\n E\nb c", 9),
        ("a @op@\nb @", 8),
        ("a @\nb c", 9),
    ];
    let (d, t) = D[vx::choose(D.len() as u32) as usize];
    typed(&gen::mutate(d, 1, &[gen::P::A0(n, "01a@xs\"\\(){}>,. \n/")]), t, which)
}
