//! a schema file, read and written back
use crate::sv::{leaf, show, wrap, S};
use facet_styx::{Documented, ObjectKey, RawStyx, Schema, SchemaFile, SerializeOptions};
use vx::choose;
use vx::gen::{self, P};

type Doc = Option<Vec<String>>;
/// no documentation and an empty list of lines are the same
fn docs(a: &Doc, b: &Doc) -> bool {
    a.as_deref().unwrap_or(&[]) == b.as_deref().unwrap_or(&[])
}
fn fl(a: Option<f64>, b: Option<f64>) -> bool {
    a.map(f64::to_bits) == b.map(f64::to_bits)
}
/// the value the text denotes
fn raw(a: &RawStyx, b: &RawStyx) -> bool {
    if a.0 == b.0 {
        return true;
    }
    let tree = |r: &RawStyx| {
        let mut t = String::from("x (");
        t.push_str(&r.0);
        t.push_str("\n)");
        styx_tree::parse(&t).ok()
    };
    match (tree(a), tree(b)) {
        (Some(a), Some(b)) => alike(&a, &b),
        _ => false,
    }
}
fn alike(a: &styx_tree::Value, b: &styx_tree::Value) -> bool {
    use styx_tree::Payload as Y;
    if a.tag.as_ref().map(|t| &t.name) != b.tag.as_ref().map(|t| &t.name) {
        return false;
    }
    match (&a.payload, &b.payload) {
        (None, None) => true,
        (Some(Y::Scalar(a)), Some(Y::Scalar(b))) => a.text == b.text,
        (Some(Y::Sequence(a)), Some(Y::Sequence(b))) => a.items.len() == b.items.len() && a.items.iter().zip(&b.items).all(|(a, b)| alike(a, b)),
        (Some(Y::Object(a)), Some(Y::Object(b))) => {
            a.entries.len() == b.entries.len() && a.entries.iter().zip(&b.entries).all(|(a, b)| alike(&a.key, &b.key) && alike(&a.value, &b.value) && a.doc_comment == b.doc_comment)
        }
        _ => false,
    }
}
fn one(a: &Documented<Box<Schema>>, b: &Documented<Box<Schema>>) -> bool {
    docs(&a.doc, &b.doc) && same(&a.value, &b.value)
}
fn list(a: &[Documented<Schema>], b: &[Documented<Schema>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| docs(&a.doc, &b.doc) && same(&a.value, &b.value))
}
fn key(a: &Documented<ObjectKey>, b: &Documented<ObjectKey>) -> bool {
    docs(&a.doc, &b.doc) && a.value.value == b.value.value && a.value.tag == b.value.tag
}
/// equality of schemas; the order of named things means nothing
pub fn same(a: &Schema, b: &Schema) -> bool {
    use Schema as T;
    match (a, b) {
        (T::String(a), T::String(b)) => {
            let f = |c: &Option<facet_styx::StringConstraints>| c.as_ref().map_or((None, None, None), |c| (c.min_len, c.max_len, c.pattern.clone()));
            f(a) == f(b)
        }
        (T::Int(a), T::Int(b)) => {
            let f = |c: &Option<facet_styx::IntConstraints>| c.as_ref().map_or((None, None), |c| (c.min, c.max));
            f(a) == f(b)
        }
        (T::Float(a), T::Float(b)) => {
            let f = |c: &Option<facet_styx::FloatConstraints>| c.as_ref().map_or((None, None), |c| (c.min, c.max));
            let (a, b) = (f(a), f(b));
            fl(a.0, b.0) && fl(a.1, b.1)
        }
        (T::Bool, T::Bool) | (T::Unit, T::Unit) | (T::Any, T::Any) => true,
        (T::Object(a), T::Object(b)) => a.0.len() == b.0.len() && a.0.iter().all(|(k, v)| b.0.iter().any(|x| key(k, x.0) && same(v, x.1))),
        (T::Enum(a), T::Enum(b)) => a.0.len() == b.0.len() && a.0.iter().all(|(k, v)| b.0.iter().any(|x| x.0.value == k.value && docs(&x.0.doc, &k.doc) && same(v, x.1))),
        (T::Seq(a), T::Seq(b)) => one(&a.0 .0, &b.0 .0),
        (T::Optional(a), T::Optional(b)) => one(&a.0 .0, &b.0 .0),
        (T::Flatten(a), T::Flatten(b)) => one(&a.0 .0, &b.0 .0),
        (T::Tuple(a), T::Tuple(b)) => list(&a.0, &b.0),
        (T::Map(a), T::Map(b)) => list(&a.0, &b.0),
        (T::Union(a), T::Union(b)) => list(&a.0, &b.0),
        (T::OneOf(a), T::OneOf(b)) => one(&a.0 .0, &b.0 .0) && a.0 .1.len() == b.0 .1.len() && a.0 .1.iter().zip(&b.0 .1).all(|(a, b)| raw(a, b)),
        (T::Default(a), T::Default(b)) => raw(&a.0 .0, &b.0 .0) && one(&a.0 .1, &b.0 .1),
        (T::Deprecated(a), T::Deprecated(b)) => a.0 .0 == b.0 .0 && one(&a.0 .1, &b.0 .1),
        (T::Literal(a), T::Literal(b)) => a == b,
        (T::Type { name: a }, T::Type { name: b }) => a.as_deref().unwrap_or("") == b.as_deref().unwrap_or(""),
        _ => false,
    }
}
pub fn same_file(a: &SchemaFile, b: &SchemaFile) -> bool {
    let (m, n) = (&a.meta, &b.meta);
    let lsp = match (&m.lsp, &n.lsp) {
        (None, None) => true,
        (Some(a), Some(b)) => a.launch == b.launch && a.capabilities == b.capabilities,
        _ => false,
    };
    let imp = match (&a.imports, &b.imports) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|x| x.0 == k && x.1 == v)),
        _ => false,
    };
    m.id == n.id
        && m.version == n.version
        && m.cli == n.cli
        && m.description == n.description
        && lsp
        && imp
        && a.schema.len() == b.schema.len()
        && a.schema.iter().all(|(k, v)| b.schema.iter().any(|x| x.0 == k && same(v, x.1)))
}
/// `must`: the text is a schema file by construction
fn back(t: &str, must: bool) {
    let a = match facet_styx::from_str::<SchemaFile>(t) {
        Ok(a) => a,
        Err(e) => {
            if must {
                vx::note(|| format!("{e}"));
                vx::fail("a well-formed schema cannot be read")
            }
            return vx::cover(1);
        }
    };
    let o = SerializeOptions::default();
    let w = match choose(4) {
        0 => facet_styx::to_string(&a),
        1 => facet_styx::to_string_compact(&a),
        2 => facet_styx::to_string_with_options(&a, &o.inline()),
        _ => facet_styx::to_string_with_options(&a, &o.multiline()),
    };
    let w = match w {
        Ok(w) => w,
        Err(e) => {
            vx::note(|| format!("{e}"));
            vx::fail("a schema file that was read cannot be written")
        }
    };
    vx::note(|| format!("written {w}"));
    let b = match facet_styx::from_str::<SchemaFile>(&w) {
        Ok(b) => b,
        Err(e) => {
            vx::note(|| format!("{e}"));
            vx::fail("a schema file that was written cannot be read")
        }
    };
    vx::observe(b.schema.len() as u64);
    vx::check(same_file(&a, &b), "a schema file changes when it is read and written");
    vx::cover(0);
}
fn of(f: impl FnOnce(&mut String)) -> String {
    let mut t = String::from("meta {id x}\nschema {@ ");
    f(&mut t);
    t.push_str("\n}\n");
    vx::note(|| format!("schema {t}"));
    t
}
/// schemas of two constructors
pub fn wraps() {
    let s: S = wrap(wrap(leaf(8)));
    back(&of(|t| show(&s, t)), true)
}
/// text anywhere a schema has any
pub fn texts() {
    let (a, z) = [
        ("@object{\"", "\" @int, b @bool}"),
        ("@object{b @object{\"", "\" @seq(@int)}}"),
        ("@enum{\"", "\" @int, b @unit}"),
        ("@string{pattern \"", "\"}"),
        ("@deprecated(\"", "\" @int)"),
        ("@default(\"", "\" @string)"),
        ("@default({k (\"", "\")} @any)"),
        ("@one-of(@string (a \"", "\"))"),
        ("@object{@t\"", "\" @int}"),
        ("@int\n\"", "\" @bool"),
        ("\"", "\""),
    ][choose(11) as usize];
    let mut v = vec![];
    gen::put(&[P::L(a), P::U0(2), P::L(z)], &mut v);
    let m = unsafe { String::from_utf8_unchecked(v) };
    back(&of(|t| t.push_str(&m)), false)
}
/// the head of the file
pub fn metas() {
    let t = gen::doc(&[
        P::L("meta {id \""),
        P::U0(1),
        P::C(&["\"", "\", version \"", "\", cli \"", "\", description \"", "\", lsp {launch (x)}, description \"", "\", lsp {launch (x \"y z\"), capabilities (a)}, cli \""]),
        P::U0(1),
        P::C(&["\"}\n", "\"}\nimports {a b, \"c d\" \"e f\"}\n", "}\n", "\"}\nimports {}\n"]),
        P::C(&["schema {@ @int}", "schema {}", "schema {A @int, B @A, @ @B}"]),
    ]);
    back(&t, false)
}
/// documentation on everything that can have it
pub fn doced() {
    let d = |o: &mut String, ind: &str| {
        let k = choose(3);
        for i in 0..k {
            o.push_str(ind);
            o.push_str(["/// first", "///", "/// \"x\" {"][((i + choose(2)) % 3) as usize]);
            o.push('\n');
        }
    };
    let t = of(|t| match choose(5) {
        0 => {
            t.push_str("@object{\n");
            d(t, "  ");
            t.push_str("  a @int\n");
            d(t, "  ");
            t.push_str("  b @object{\n");
            d(t, "    ");
            t.push_str("    c @int\n  }\n}")
        }
        1 => {
            t.push_str("@enum{\n");
            d(t, "  ");
            t.push_str("  a @int\n");
            d(t, "  ");
            t.push_str("  b @object{\n");
            d(t, "    ");
            t.push_str("    c @int\n  }\n}")
        }
        2 => {
            t.push_str("@object{\n");
            d(t, "  ");
            t.push_str("  @ @int\n");
            d(t, "  ");
            t.push_str("  @string @int\n}")
        }
        3 => {
            t.push_str("@object{\n");
            d(t, "  ");
            t.push_str("  \"a b\" @seq(@object{\n");
            d(t, "    ");
            t.push_str("    c @optional(@int)\n  })\n}")
        }
        _ => {
            t.push_str("@any\n");
            d(t, "");
            t.push_str("A @map(@object{\n");
            d(t, "  ");
            t.push_str("  c @int\n})")
        }
    });
    back(&t, true)
}
/// documentation of any text
pub fn doc_text() {
    let t = gen::doc(&[P::L("meta {id x}\nschema {@ @object{\n/// a\n///"), P::U0(2), P::C(&["\n", "\n///\n", "\n/// z\n"]), P::C(&["a @int", "\"b c\" @enum{\n/// v\nx\n}", "@ @int"]), P::L("\n}}\n")]);
    back(&t, false)
}
/// numbers as constraints
pub fn bounds() {
    let (a, n): (&str, &[&str]) = match choose(4) {
        0 => ("int{min ", &["170141183460469231731687303715884105727", "-170141183460469231731687303715884105728", "-0", "+1", "1e3", ""]),
        1 => ("int{min 1, max ", &["9223372036854775808", "-9223372036854775809", "@", "\"5\""]),
        2 => ("float{max ", &["1.5", "-0", "0.1", "1e308", "1e400", "5e-324", "123456789.123456789", "-1e-7", "1E21", "inf", "nan", "@", "16777217", "0.30000000000000004"]),
        _ => ("string{minLen ", &["18446744073709551615", "18446744073709551616", "-1", "0, maxLen 0", "1, pattern x", "@, maxLen @"]),
    };
    let n = n[choose(n.len() as u32) as usize];
    back(&of(|t| { t.push('@'); t.push_str(a); t.push_str(n); t.push('}') }), false)
}
const BASE: &str = "meta {id x}\nschema {\n@ @object{\n/// d\na @optional(@int{min 1})\n\"b c\" @default(\"1 2\" @string)\n@string @one-of(@string (x \"y\"))\n}\nA @enum{u, v @map(@int)}\n}\n";
/// a schema file, one character removed or not and a piece inserted anywhere
pub fn mutated() {
    let t = gen::mutate(BASE, 1, &[P::A0(1, " \n@\"{}(),/>=.\\a1<#r")]);
    back(&t, false)
}
/// the same with a larger piece
pub fn pieces() {
    let t = gen::mutate(BASE, 0, &[P::C(&["@int ", "@", "\n/// e\n", "k @unit\n", ", ", "{q @any}", "(@int @bool)", "@z", "\"\\n\"", "@tuple(@int) ", "@seq(@a) ", "@x\"y\" @int,", "<<T\n t\n T\n", "r#\"q\"#"])]);
    back(&t, false)
}
pub fn mutated2() {
    let t = gen::mutate(BASE, 1, &[P::A(2, " \n@\"{}(),/>=.\\a1<#r")]);
    back(&t, false)
}
