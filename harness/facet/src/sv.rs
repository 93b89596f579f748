//! schema validation against a reference reading of the schema language
use facet_styx::{validate, validate_as, IntConstraints, Schema, SchemaFile, ValidationErrorKind as K, Validator};
use vx::choose;
use vx::gen::P;

/// a schema, as the specification describes it
#[derive(Clone, Debug)]
pub enum S {
    Str(Option<usize>, Option<usize>),
    Int(Option<i32>, Option<i32>),
    Flt(Option<i32>, Option<i32>),
    Bool,
    Unit,
    Any,
    Obj(Vec<(&'static str, S)>),
    Seq(Box<S>),
    Tup(Vec<S>),
    Map(Option<Box<S>>, Box<S>),
    Uni(Vec<S>),
    Opt(Box<S>),
    En(Vec<(&'static str, S)>),
    One(Box<S>, Vec<&'static str>),
    Def(&'static str, Box<S>),
    Dep(Box<S>),
    Flat(&'static str),
    Ref(&'static str),
}
/// a value
#[derive(Clone, Debug)]
pub enum V {
    Unit,
    Sc(String),
    Seq(Vec<V>),
    /// key "@" is the unit key
    Obj(Vec<(String, V)>),
    Tag(&'static str, Option<Box<V>>),
}
use S::*;
pub type Env<'a> = &'a [(&'static str, S)];

fn num(o: &mut String, name: &str, v: Option<String>) {
    if let Some(v) = v {
        if !o.ends_with('{') {
            o.push_str(", ");
        }
        o.push_str(name);
        o.push(' ');
        o.push_str(&v);
    }
}
/// decimal text without the formatting machinery
fn dec(n: i64) -> String {
    let mut d = vec![];
    let mut m = n.unsigned_abs();
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if n < 0 {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}
pub fn show(s: &S, o: &mut String) {
    let list = |o: &mut String, name: &str, l: &[&S]| {
        o.push_str(name);
        o.push('(');
        for (i, x) in l.iter().enumerate() {
            if i > 0 {
                o.push(' ');
            }
            show(x, o);
        }
        o.push(')');
    };
    let fields = |o: &mut String, name: &str, l: &[(&'static str, S)]| {
        o.push_str(name);
        o.push('{');
        for (i, (k, x)) in l.iter().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            o.push_str(k);
            o.push(' ');
            show(x, o);
        }
        o.push('}');
    };
    match s {
        Str(a, b) => {
            o.push_str("@string");
            if a.is_some() || b.is_some() {
                o.push('{');
                num(o, "minLen", a.map(|x| dec(x as i64)));
                num(o, "maxLen", b.map(|x| dec(x as i64)));
                o.push('}');
            }
        }
        Int(a, b) | Flt(a, b) => {
            o.push_str(if matches!(s, Int(..)) { "@int" } else { "@float" });
            if a.is_some() || b.is_some() {
                o.push('{');
                num(o, "min", a.map(|x| dec(x as i64)));
                num(o, "max", b.map(|x| dec(x as i64)));
                o.push('}');
            }
        }
        Bool => o.push_str("@bool"),
        Unit => o.push_str("@unit"),
        Any => o.push_str("@any"),
        Obj(l) => fields(o, "@object", l),
        En(l) => fields(o, "@enum", l),
        Seq(x) => list(o, "@seq", &[x]),
        Tup(l) => list(o, "@tuple", &l.iter().collect::<Vec<_>>()),
        Map(None, v) => list(o, "@map", &[v]),
        Map(Some(k), v) => list(o, "@map", &[k, v]),
        Uni(l) => list(o, "@union", &l.iter().collect::<Vec<_>>()),
        Opt(x) => list(o, "@optional", &[x]),
        One(b, l) => {
            o.push_str("@one-of(");
            show(b, o);
            o.push_str(" (");
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                if x.contains(' ') || x.is_empty() {
                    o.push('"');
                    o.push_str(x);
                    o.push('"');
                } else {
                    o.push_str(x);
                }
            }
            o.push_str("))");
        }
        Def(v, x) => {
            o.push_str("@default(");
            o.push_str(v);
            o.push(' ');
            show(x, o);
            o.push(')');
        }
        Dep(x) => {
            o.push_str("@deprecated(\"old one\" ");
            show(x, o);
            o.push(')');
        }
        Flat(n) => {
            o.push_str("@flatten(@");
            o.push_str(n);
            o.push(')');
        }
        Ref(n) => {
            o.push('@');
            o.push_str(n);
        }
    }
}
fn text(v: &V, o: &mut String) {
    match v {
        V::Unit => o.push('@'),
        V::Sc(t) => {
            o.push('"');
            o.push_str(t);
            o.push('"');
        }
        V::Seq(l) => {
            o.push('(');
            for x in l {
                o.push(' ');
                text(x, o);
            }
            o.push(')');
        }
        V::Obj(l) => {
            o.push('{');
            entries(l, o);
            o.push('}');
        }
        V::Tag(t, p) => {
            o.push('@');
            o.push_str(t);
            if let Some(p) = p {
                text(p, o)
            }
        }
    }
}
fn entries(l: &[(String, V)], o: &mut String) {
    for (i, (k, x)) in l.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(k);
        o.push(' ');
        text(x, o);
    }
}

// ---- reference ----

/// what is wrong at a path
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum W {
    Missing,
    Unknown,
    Wrong,
    Schema,
}
pub struct R<'a> {
    pub env: Env<'a>,
    pub errs: Vec<(String, W)>,
    pub warn: Vec<String>,
    /// the specification does not say
    pub open: bool,
    depth: usize,
}
fn sub(p: &str, k: &str) -> String {
    let mut s = p.to_string();
    if !p.is_empty() {
        s.push('.');
    }
    s.push_str(k);
    s
}
fn idx(p: &str, i: usize) -> String {
    let mut s = p.to_string();
    s.push('[');
    s.push_str(&dec(i as i64));
    s.push(']');
    s
}
pub enum N {
    No,
    Yes(i128),
    Open,
}
pub fn int(t: &str) -> N {
    let b = t.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => return if b[1..].iter().all(|c| c.is_ascii_digit()) { N::Open } else { N::No },
        _ => (false, b),
    };
    if d.is_empty() {
        return N::No;
    }
    let mut n = 0i128;
    for c in d {
        if !c.is_ascii_digit() {
            return N::No;
        }
        // beyond 128 bits nothing is claimed
        n = match n.checked_mul(10).and_then(|n| n.checked_add((*c - b'0') as i128)) {
            Some(n) => n,
            None => return N::Open,
        };
    }
    N::Yes(if neg { -n } else { n })
}
/// JSON number syntax; None where the specification is of two minds (`1.`, `1e`)
pub fn flt(t: &str) -> Option<bool> {
    let b = t.as_bytes();
    let mut i = 0;
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let dig = |i: usize| at(i).is_ascii_digit();
    let mut two = false;
    if at(i) == b'-' {
        i += 1;
    }
    if at(i) == b'0' {
        i += 1;
    } else if dig(i) {
        while dig(i) {
            i += 1;
        }
    } else {
        return Some(false);
    }
    if at(i) == b'.' {
        i += 1;
        two |= !dig(i);
        while dig(i) {
            i += 1;
        }
    }
    if at(i) == b'e' || at(i) == b'E' {
        i += 1;
        if at(i) == b'+' || at(i) == b'-' {
            i += 1;
        }
        two |= !dig(i);
        while dig(i) {
            i += 1;
        }
    }
    if i != b.len() {
        Some(false)
    } else if two {
        None
    } else {
        Some(true)
    }
}
impl<'a> R<'a> {
    pub fn new(env: Env<'a>) -> Self {
        R { env, errs: vec![], warn: vec![], open: false, depth: 0 }
    }
    fn e(&mut self, p: &str, w: W) {
        self.errs.push((p.to_string(), w))
    }
    fn named(&self, n: &str) -> Option<&'a S> {
        self.env.iter().find(|x| x.0 == n).map(|x| &x.1)
    }
    fn absent(&self, s: &S, fuel: usize) -> bool {
        match s {
            Opt(_) | Def(..) => true,
            Dep(x) => self.absent(x, fuel),
            Ref(n) if fuel > 0 => self.named(n).is_some_and(|x| self.absent(x, fuel - 1)),
            _ => false,
        }
    }
    /// a separate try
    fn ok(&mut self, v: &V, s: &S, p: &str) -> bool {
        let mut r = R { env: self.env, errs: vec![], warn: vec![], open: false, depth: self.depth };
        r.val(v, s, p);
        self.open |= r.open;
        if r.errs.is_empty() {
            self.warn.append(&mut r.warn)
        }
        r.errs.is_empty()
    }
    fn fields(&mut self, l: &[(&'static str, S)], f: &mut Vec<(&'static str, S)>, any: &mut Option<S>, fuel: usize) -> bool {
        for (k, s) in l {
            match s {
                Flat(n) => {
                    let mut s = self.named(n);
                    for _ in 0..4 {
                        if let Some(Ref(n)) = s {
                            s = self.named(n)
                        }
                    }
                    match s {
                        Some(Obj(m)) if fuel > 0 => {
                            if !self.fields(m, f, any, fuel - 1) {
                                return false;
                            }
                        }
                        _ => return false,
                    }
                }
                _ if k.starts_with('@') => *any = Some(s.clone()),
                _ => {
                    if f.iter().any(|x| x.0 == *k) {
                        return false;
                    }
                    f.push((k, s.clone()))
                }
            }
        }
        true
    }
    pub fn val(&mut self, v: &V, s: &S, p: &str) {
        // tagged values are only described for enums
        if matches!(v, V::Tag(..)) && matches!(s, Str(..) | Int(..) | Flt(..) | Bool | Obj(_) | Seq(_) | Tup(_) | Map(..)) {
            if matches!(v, V::Tag(_, Some(_))) {
                self.open = true;
            }
            return self.e(p, W::Wrong);
        }
        match (s, v) {
            (Any, _) => {}
            (Unit, V::Unit) => {}
            (Str(a, b), V::Sc(t)) => {
                if a.is_some_and(|a| t.len() < a) || b.is_some_and(|b| t.len() > b) {
                    self.e(p, W::Wrong)
                }
            }
            (Int(a, b), V::Sc(t)) => match int(t) {
                N::No => self.e(p, W::Wrong),
                N::Open => self.open = true,
                N::Yes(n) => {
                    if a.is_some_and(|a| n < a as i128) || b.is_some_and(|b| n > b as i128) {
                        self.e(p, W::Wrong)
                    }
                }
            },
            (Flt(a, b), V::Sc(t)) => match flt(t) {
                None => self.open = true,
                Some(false) => self.e(p, W::Wrong),
                Some(true) => {
                    let x: f64 = t.parse().unwrap();
                    if a.is_some_and(|a| x < a as f64) || b.is_some_and(|b| x > b as f64) {
                        self.e(p, W::Wrong)
                    }
                }
            },
            (Bool, V::Sc(t)) => {
                if t != "true" && t != "false" {
                    self.e(p, W::Wrong)
                }
            }
            (Seq(x), V::Seq(l)) => {
                for (i, v) in l.iter().enumerate() {
                    self.val(v, x, &idx(p, i));
                }
            }
            (Tup(x), V::Seq(l)) => {
                if x.len() != l.len() {
                    self.e(p, W::Wrong);
                }
                for (i, (v, x)) in l.iter().zip(x).enumerate() {
                    self.val(v, x, &idx(p, i));
                }
            }
            (Map(k, x), V::Obj(l)) => {
                for (key, v) in l {
                    let unit = key == "@";
                    let kv = if unit { V::Unit } else { V::Sc(key.clone()) };
                    let ks = match k {
                        Some(k) => (**k).clone(),
                        None => Str(None, None),
                    };
                    let ok = self.ok(&kv, &ks, p);
                    if !ok {
                        self.e(p, W::Wrong);
                    }
                    if k.is_some() || ok {
                        self.val(v, x, &sub(p, key));
                    }
                }
            }
            (Obj(l), V::Obj(es)) => {
                let mut f = vec![];
                let mut any = None;
                if !self.fields(l, &mut f, &mut any, 4) {
                    return self.e(p, W::Schema);
                }
                for (k, v) in es {
                    let q = sub(p, k);
                    match f.iter().find(|x| x.0 == k && k != "@") {
                        Some((_, s)) => {
                            let s = s.clone();
                            self.val(v, &s, &q)
                        }
                        None => match &any {
                            Some(s) => self.val(v, s, &q),
                            None => self.e(&q, W::Unknown),
                        },
                    }
                }
                for (k, s) in &f {
                    if !es.iter().any(|x| x.0 == *k) && !self.absent(s, 4) {
                        self.e(&sub(p, k), W::Missing)
                    }
                }
            }
            (Uni(l), _) => {
                for s in l {
                    if self.ok(v, s, p) {
                        return;
                    }
                }
                self.e(p, W::Wrong)
            }
            (Opt(_), V::Unit) => {}
            (Opt(x), _) => self.val(v, x, p),
            (En(l), V::Tag(t, pay)) => match l.iter().find(|x| x.0 == *t) {
                None => self.e(p, W::Wrong),
                Some((_, s)) => match pay {
                    None => {
                        if !self.ok(&V::Unit, s, p) {
                            self.e(p, W::Wrong)
                        }
                    }
                    Some(x) => self.val(x, s, &sub(p, t)),
                },
            },
            (En(l), V::Sc(_)) => {
                // an untagged scalar may fall back to a scalar variant
                for (_, s) in l {
                    if matches!(s, Str(..) | Int(..) | Flt(..) | Bool) && self.ok(v, s, p) {
                        return;
                    }
                }
                self.e(p, W::Wrong)
            }
            (One(..), V::Tag(_, Some(_))) => self.open = true,
            (One(b, l), _) => {
                let n = self.errs.len();
                self.val(v, b, p);
                if n == self.errs.len() {
                    match v {
                        V::Sc(t) if l.iter().any(|x| x == t) => {}
                        _ => self.e(p, W::Wrong),
                    }
                }
            }
            (Def(_, x), _) => self.val(v, x, p),
            (Dep(x), _) => {
                self.val(v, x, p);
                self.warn.push(p.to_string());
            }
            (Ref(n), _) => match self.named(n) {
                None => self.e(p, W::Schema),
                Some(s) => {
                    if self.depth > 8 {
                        return self.e(p, W::Schema);
                    }
                    self.depth += 1;
                    self.val(v, s, p);
                    self.depth -= 1;
                }
            },
            _ => self.e(p, W::Wrong),
        }
    }
}

// ---- comparison ----

pub fn file(env: Env, o: &mut String) {
    o.push_str("meta {id x}\nschema {\n");
    for (n, s) in env {
        o.push_str(n);
        o.push(' ');
        show(s, o);
        o.push('\n');
    }
    o.push_str("}\n");
}
pub fn load(env: Env) -> SchemaFile {
    let mut t = String::new();
    file(env, &mut t);
    match facet_styx::from_str::<SchemaFile>(&t) {
        Ok(f) => f,
        Err(e) => {
            vx::note(|| format!("schema {t}: {e}"));
            vx::fail("a well-formed schema cannot be read")
        }
    }
}
fn class(k: &K) -> W {
    match k {
        K::MissingField { .. } => W::Missing,
        K::UnknownField { .. } => W::Unknown,
        K::SchemaError { .. } | K::UnknownType { .. } => W::Schema,
        _ => W::Wrong,
    }
}
/// document `v <value>` or the object itself against the root schema
pub fn judge(f: &SchemaFile, env: Env, root: Vec<(String, V)>, as_type: Option<&'static str>) {
    let mut d = String::new();
    entries(&root, &mut d);
    let doc = match styx_tree::parse(&d) {
        Ok(d) => d,
        Err(_) => {
            // not a document (a key given twice)
            vx::assume(false);
            return;
        }
    };
    let res = match as_type {
        None => validate(&doc, f),
        Some(t) => validate_as(&doc, f, t),
    };
    let mut r = R::new(env);
    let name = as_type.unwrap_or("@");
    match r.named(name) {
        Some(s) => r.val(&V::Obj(root), s, ""),
        None => r.e("", W::Schema),
    }
    vx::note(|| {
        let mut t = String::new();
        file(env, &mut t);
        format!(
            "schema {t}document {d:?}\nreported {:?} warnings {:?}\nexpected {:?} warnings {:?} (unspecified: {})",
            res.errors.iter().map(|e| (e.path.clone(), e.message.clone())).collect::<Vec<_>>(),
            res.warnings.iter().map(|e| e.path.clone()).collect::<Vec<_>>(),
            r.errs,
            r.warn,
            r.open
        )
    });
    vx::observe(res.errors.len() as u64);
    for e in &res.errors {
        vx::check(!e.message.is_empty(), "a validation error without a message");
    }
    if r.open {
        return vx::cover(2);
    }
    if res.is_valid() != r.errs.is_empty() {
        vx::fail(if res.is_valid() { "a document that breaks its schema is reported valid" } else { "a document that conforms to its schema is rejected" })
    }
    let mut got: Vec<(String, W)> = res.errors.iter().map(|e| (e.path.clone(), class(&e.kind))).collect();
    got.sort();
    got.dedup();
    r.errs.sort();
    r.errs.dedup();
    vx::check(got.iter().map(|x| &x.0).eq(r.errs.iter().map(|x| &x.0)), "validation reports errors at other paths than the offending ones");
    vx::check(got.iter().map(|x| x.1).eq(r.errs.iter().map(|x| x.1)), "validation reports another kind of error");
    if r.errs.is_empty() {
        let mut w: Vec<String> = res.warnings.iter().map(|w| w.path.clone()).collect();
        w.sort();
        r.warn.sort();
        vx::check(w == r.warn, "deprecation warnings differ from the deprecated fields present");
        vx::cover(0);
    } else {
        vx::cover(1);
    }
}
// ---- generators ----

fn sc(ps: &[P]) -> V {
    let mut v = vec![];
    vx::gen::put(ps, &mut v);
    V::Sc(unsafe { String::from_utf8_unchecked(v) })
}
pub fn leaf(n: u32) -> S {
    match choose(n) {
        0 => Int(Some(-1), Some(5)),
        1 => Str(Some(1), Some(2)),
        2 => Unit,
        3 => Any,
        4 => Bool,
        5 => Str(None, None),
        6 => Int(None, None),
        _ => Flt(Some(1), None),
    }
}
/// one constructor around `x`
pub fn wrap(x: S) -> S {
    let b = Box::new;
    match choose(15) {
        0 => Seq(b(x)),
        1 => Tup(vec![x, Int(None, None)]),
        2 => Map(None, b(x)),
        3 => Map(Some(b(Int(None, Some(5)))), b(x)),
        4 => Uni(vec![x, Bool]),
        5 => Uni(vec![Seq(b(Int(None, None))), x]),
        6 => Opt(b(x)),
        7 => En(vec![("a", x), ("b", Unit), ("cr", Seq(b(Bool)))]),
        8 => Def("1", b(x)),
        9 => Dep(b(x)),
        10 => Obj(vec![("a", x), ("b", Opt(b(Int(None, None))))]),
        11 => Obj(vec![("a", Bool), ("@", x)]),
        12 => Obj(vec![("@string", x), ("b", Dep(b(Opt(b(Int(None, None))))))]),
        13 => Map(Some(b(Uni(vec![Int(None, None), Unit]))), b(x)),
        _ => One(b(x), vec!["1", "a b", "true"]),
    }
}
fn near(s: &S) -> V {
    match choose(if matches!(s, Any) { 2 } else { 4 }) {
        0 => match s {
            Bool => V::Sc(["true", "false", "True", "truee", "t"][choose(5) as usize].to_string()),
            Str(..) => sc(&[P::A0(3, "a1")]),
            Any => sc(&[P::L("x")]),
            Flt(..) => sc(&[P::A0(2, "-01."), P::C(&["", "5", "e2"])]),
            _ => sc(&[P::A0(2, "-159x")]),
        },
        1 => V::Unit,
        2 => V::Seq(vec![]),
        _ => V::Tag("t", None),
    }
}
fn off() -> V {
    match choose(5) {
        0 => V::Unit,
        1 => sc(&[P::A(1, "1x")]),
        2 => V::Seq(vec![V::Unit]),
        3 => V::Obj(vec![("a".into(), V::Unit)]),
        _ => V::Tag("a", Some(Box::new(V::Seq(vec![])))),
    }
}
/// values shaped like the schema, with something amiss at any one place or nothing
fn gen(s: &S, env: Env, fuel: usize) -> V {
    let one = || V::Sc("1".to_string());
    let g = |s: &S| gen(s, env, fuel);
    match s {
        Seq(x) => match choose(4) {
            0 => V::Seq(vec![]),
            1 => V::Seq(vec![g(x)]),
            2 => V::Seq(vec![one(), g(x), one()]),
            _ => off(),
        },
        Tup(l) => match choose(4) {
            0 => V::Seq(l.iter().map(g).collect()),
            1 => V::Seq(l[1..].iter().map(g).collect()),
            2 => V::Seq(vec![one(), one(), g(&l[0])]),
            _ => off(),
        },
        Map(_, x) => {
            let k = choose(6);
            if k == 5 {
                return off();
            }
            if k == 0 {
                return V::Obj(vec![]);
            }
            let key = ["", "1", "x", "@", "9"][k as usize];
            let mut l = vec![(key.to_string(), g(x))];
            if choose(2) == 1 {
                l.insert(0, ("2".to_string(), one()));
            }
            V::Obj(l)
        }
        Uni(l) => {
            let k = choose(l.len() as u32 + 1) as usize;
            if k == l.len() {
                off()
            } else {
                g(&l[k])
            }
        }
        Opt(x) => match choose(2) {
            0 => V::Unit,
            _ => g(x),
        },
        En(l) => {
            let k = choose(l.len() as u32 + 2) as usize;
            if k == l.len() {
                return off();
            }
            let (t, x) = if k > l.len() { ("zz", &Any) } else { (l[k].0, &l[k].1) };
            if choose(2) == 0 {
                return V::Tag(t, None);
            }
            match g(x) {
                V::Unit | V::Tag(..) => V::Tag(t, None),
                v => V::Tag(t, Some(Box::new(v))),
            }
        }
        One(b, l) => match choose(3) {
            0 => V::Sc(l[choose(l.len() as u32) as usize].to_string()),
            1 => V::Sc("a".to_string()),
            _ => g(b),
        },
        Def(_, x) | Dep(x) => g(x),
        Obj(l) => {
            if choose(5) == 4 {
                return off();
            }
            let mut o = vec![];
            fill(l, env, fuel, &mut o);
            V::Obj(o)
        }
        Ref(n) => match env.iter().find(|x| x.0 == *n) {
            Some((_, x)) if fuel > 0 => gen(x, env, fuel - 1),
            _ => off(),
        },
        Flat(_) => V::Unit,
        _ => near(s),
    }
}
fn fill(l: &[(&'static str, S)], env: Env, fuel: usize, o: &mut Vec<(String, V)>) {
    for (k, x) in l {
        match x {
            Flat(n) => {
                if let Some((_, Obj(m))) = env.iter().find(|x| x.0 == *n) {
                    if fuel > 0 {
                        fill(m, env, fuel - 1, o)
                    }
                }
            }
            _ if k.starts_with('@') => {}
            _ => {
                if choose(2) == 1 {
                    o.push((k.to_string(), gen(x, env, fuel)))
                }
            }
        }
    }
    let any = l.iter().find(|x| x.0.starts_with('@'));
    let k = choose(3);
    if k > 0 {
        let v = match any {
            Some((_, x)) => gen(x, env, fuel),
            None => V::Sc("1".to_string()),
        };
        o.push((if k == 1 { "zz" } else { "@" }.to_string(), v));
    }
}
fn root(env: Env, s: &S, fuel: usize) {
    let f = load(env);
    let mut l = vec![];
    if choose(4) > 0 {
        l.push(("v".to_string(), gen(s, env, fuel)))
    }
    judge(&f, env, l, None)
}
fn nested(s: S) {
    let env = [("@", Obj(vec![("v", s.clone())]))];
    root(&env, &s, 3)
}
pub fn leaves() {
    nested(leaf(8))
}
pub fn wrap1() {
    nested(wrap(leaf(8)))
}
/// a constructor around something deprecated or optional
pub fn wrap2b() {
    let b = Box::new;
    let x = match choose(6) {
        0 => Dep(b(Bool)),
        1 => Opt(b(Dep(b(Bool)))),
        2 => Uni(vec![Int(None, None), Dep(b(Bool))]),
        3 => En(vec![("a", Dep(b(Bool)))]),
        4 => Seq(b(Dep(b(Unit)))),
        _ => Opt(b(Bool)),
    };
    nested(wrap(x))
}
pub fn wrap2() {
    nested(wrap(wrap(leaf(3))))
}
pub fn named() {
    let b = Box::new;
    let t = leaf(2);
    let k = choose(9);
    let (s, t) = match k {
        0 => (Ref("T"), t),
        1 => (Ref("T"), Opt(b(t))),
        2 => (Dep(b(Ref("T"))), Def("1", b(t))),
        3 => (Ref("U"), t),
        // recursive types
        4 => (Ref("T"), Obj(vec![("a", t), ("b", Opt(b(Ref("T"))))])),
        5 => (Ref("T"), Uni(vec![t, Seq(b(Ref("T")))])),
        6 => (Ref("T"), Uni(vec![Ref("T"), t])),
        7 => (Ref("T"), Ref("T")),
        _ => (En(vec![("a", Ref("T")), ("n", Any)]), Opt(b(t))),
    };
    let env = [("@", Obj(vec![("v", s.clone())])), ("T", t)];
    root(&env, &s, if k == 4 || k == 5 { 1 } else { 2 })
}
pub fn named2() {
    let b = Box::new;
    let t = leaf(1);
    let t = match choose(2) {
        0 => Obj(vec![("a", t), ("b", Opt(b(Ref("T"))))]),
        _ => Uni(vec![t, Seq(b(Ref("T")))]),
    };
    let env = [("@", Obj(vec![("v", Ref("T"))])), ("T", t)];
    root(&env, &Ref("T"), 3)
}
pub fn flatten() {
    let b = Box::new;
    let t = Obj(vec![("a", leaf(2)), ("b", Opt(b(Int(None, None))))]);
    let l = match choose(8) {
        0 => vec![("u", Flat("T")), ("c", Bool)],
        1 => vec![("c", Bool), ("u", Flat("T")), ("w", Flat("U"))],
        2 => vec![("u", Flat("A")), ("c", Bool)],
        3 => vec![("u", Flat("T")), ("a", Bool)],
        4 => vec![("u", Flat("T")), ("w", Flat("T"))],
        5 => vec![("u", Flat("I")), ("c", Bool)],
        6 => vec![("u", Flat("N")), ("@", Bool)],
        _ => vec![("u", Flat("T")), ("@", Bool)],
    };
    let env = [
        ("@", Obj(l.clone())),
        ("T", t),
        ("U", Obj(vec![("d", Dep(b(Int(None, None))))])),
        ("A", Ref("T")),
        ("I", Int(None, None)),
        ("N", Obj(vec![("x", Flat("U")), ("e", Opt(b(Bool)))])),
    ];
    let f = load(&env);
    let mut o = vec![];
    for k in ["a", "b", "c", "d", "u"] {
        match choose(3) {
            0 => {}
            1 => o.push((k.to_string(), V::Sc("1".to_string()))),
            _ => o.push((k.to_string(), V::Sc("true".to_string()))),
        }
    }
    judge(&f, &env, o, None)
}
pub fn roots() {
    let b = Box::new;
    let env: Vec<(&'static str, S)> = match choose(4) {
        0 => vec![("T", Obj(vec![("v", leaf(2))]))],
        1 => vec![("@", Map(None, b(leaf(2)))), ("T", Any)],
        2 => vec![("@", Seq(b(Any))), ("T", Obj(vec![("v", leaf(2)), ("@", Any)]))],
        _ => vec![("@", Ref("T")), ("T", Obj(vec![("w", leaf(2))]))],
    };
    let f = load(&env);
    let mut l = vec![];
    match choose(3) {
        0 => {}
        1 => l.push(("v".to_string(), near(&Int(None, None)))),
        _ => l.push(("w".to_string(), near(&Str(None, None)))),
    }
    judge(&f, &env, l, [None, Some("T"), Some("X")][choose(3) as usize])
}
/// every constraint against every integer text
pub fn ints() {
    let at = [i128::MIN, -100, -1, 0, 9, 123, i128::MAX];
    let lo = at[choose(7) as usize];
    let hi = at[choose(7) as usize];
    let (a, z) = match choose(4) {
        0 => (None, None),
        1 => (Some(lo), None),
        2 => (None, Some(hi)),
        _ => (Some(lo), Some(hi)),
    };
    let mut t = vec![];
    vx::gen::put(&[P::C(&["", "-", "1", "-10", "12"]), P::A0(1, "0123456789-+x_ ")], &mut t);
    let t = unsafe { String::from_utf8_unchecked(t) };
    let mut env = load(&[("@", Any)]);
    env.schema.insert(None, Schema::Int(Some(IntConstraints { min: a, max: z })));
    let v = styx_tree::Value::scalar(t.clone());
    let r = Validator::new(&env).validate_document(&v);
    vx::note(|| format!("{t:?} min {a:?} max {z:?}: {:?}", r.errors));
    let want = match int(&t) {
        N::Open => return,
        N::No => false,
        N::Yes(n) => a.is_none_or(|a| n >= a) && z.is_none_or(|z| n <= z),
    };
    vx::observe(r.is_valid() as u64);
    vx::check(r.is_valid() == want, "an integer is judged wrongly");
    vx::cover(want as u32);
}
/// integers at the limits of the machine types
pub fn wide() {
    let k = choose(8) as usize;
    let base = ["127", "32767", "2147483647", "9223372036854775807", "18446744073709551615", "99999999999999999999", "17014118346046923173168730371588410572", "0000000000000000000000000000000000000001"][k];
    let mut t = vec![];
    vx::gen::put(&[P::C(&["", "-"]), P::L(base), P::C(&["", "0", "5", "9", "x"])], &mut t);
    let t = unsafe { String::from_utf8_unchecked(t) };
    let env = [("@", Obj(vec![("v", Int(None, None)), ("w", Int(Some(i32::MIN), Some(i32::MAX))), ("x", En(vec![("i", Int(None, None))]))]))];
    let f = load(&env);
    let l = ["v", "w", "x"].iter().map(|k| (k.to_string(), V::Sc(t.clone()))).collect();
    judge(&f, &env, l, None)
}
pub fn floats() {
    let mut t = vec![];
    vx::gen::put(&[P::C(&["", "-", "1", "0", "1.", "-0.", "1.5e", "1E-", "in", "Na"]), P::A0(2, "01.eE-+fN_x")], &mut t);
    let t = unsafe { String::from_utf8_unchecked(t) };
    let env = [("@", Obj(vec![("v", Flt(None, None)), ("w", En(vec![("f", Flt(Some(-3), Some(10)))]))]))];
    let f = load(&env);
    let l = vec![("v".to_string(), V::Sc(t.clone())), ("w".to_string(), V::Sc(t))];
    judge(&f, &env, l, None)
}
/// numbers around limits
pub fn near_limits() {
    let l = [None, Some(2), Some(0), Some(-3), Some(10)];
    let lo = l[choose(5) as usize];
    let hi = l[choose(5) as usize];
    let mut t = vec![];
    vx::gen::put(&[P::C(&["", "-", "1"]), P::A(1, "0123"), P::C(&["", ".", ".0", "e"]), P::A0(1, "0159")], &mut t);
    let t = unsafe { String::from_utf8_unchecked(t) };
    let env = [("@", Obj(vec![("v", Flt(lo, hi)), ("w", Int(lo, hi))]))];
    let f = load(&env);
    judge(&f, &env, vec![("v".to_string(), V::Sc(t.clone())), ("w".to_string(), V::Sc(t))], None)
}
/// length limits
pub fn lens() {
    let at = [0, 1, 2, 4, usize::MAX];
    let lo = at[choose(5) as usize];
    let hi = at[choose(5) as usize];
    let (a, z) = match choose(4) {
        0 => (None, None),
        1 => (Some(lo), None),
        2 => (None, Some(hi)),
        _ => (Some(lo), Some(hi)),
    };
    let n = choose(5) as usize;
    let mut t = vec![];
    for _ in 0..n {
        vx::ascii(&mut t)
    }
    let t = unsafe { String::from_utf8_unchecked(t) };
    let mut env = load(&[("@", Any)]);
    env.schema.insert(None, Schema::String(Some(facet_styx::StringConstraints { min_len: a, max_len: z, pattern: None })));
    let r = validate(&styx_tree::Value::scalar(t), &env);
    vx::observe(r.is_valid() as u64);
    vx::check(r.is_valid() == (a.is_none_or(|a| n >= a) && z.is_none_or(|z| n <= z)), "a string's length is judged wrongly");
    vx::cover(0);
}
/// the pattern of a string
pub fn pattern() {
    let f = match facet_styx::from_str::<SchemaFile>("meta {id x}\nschema {@ @object{v @string{pattern \"[a-c]+\"}}}\n") {
        Ok(f) => f,
        Err(_) => vx::fail("a well-formed schema cannot be read"),
    };
    let mut t = vec![];
    vx::gen::put(&[P::A(2, "abcdx1")], &mut t);
    let want = t.iter().all(|c| matches!(c, b'a'..=b'c'));
    let mut d = b"v ".to_vec();
    d.extend(&t);
    let d = unsafe { String::from_utf8_unchecked(d) };
    vx::note(|| format!("document {d:?} against @string{{pattern \"[a-c]+\"}}"));
    let r = validate(&styx_tree::parse(&d).unwrap(), &f);
    if r.is_valid() && !want {
        vx::known("pattern-ignored")
    }
    vx::check(r.is_valid() == want, "a matching string is rejected");
    vx::cover(0);
}
/// literal constraints
pub fn literal() {
    let lit = ["1", "x", "\"a b\""][choose(3) as usize];
    let mut t = String::from("meta {id x}\nschema {@ @object{v ");
    t.push_str(lit);
    t.push_str("}}\n");
    vx::note(|| format!("schema {t:?}"));
    if facet_styx::from_str::<SchemaFile>(&t).is_err() {
        vx::known("literal-schema")
    }
    vx::cover(0);
}
