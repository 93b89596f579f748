//! writing values as text
use crate::fmt::same_value;
use styx_format::{format_object_braced, format_value, FormatOptions, StyxWriter};
use styx_tree::{Entry, Object, Payload, Value};
use vx::gen::P;

pub fn obj(v: &Value) -> &Object {
    match &v.payload {
        Some(Payload::Object(o)) if v.tag.is_none() => o,
        _ => vx::fail("not an object"),
    }
}
pub fn reparse(out: &str) -> Value {
    vx::note(|| format!("output {out:?}"));
    vx::observe_bytes(out.as_bytes());
    match styx_tree::parse(out) {
        Ok(v) => v,
        Err(e) => {
            vx::note(|| format!("error {e:?}"));
            vx::fail("written text does not parse")
        }
    }
}
pub fn entry(key: Value, value: Value) -> Entry {
    Entry { key, value, doc_comment: None }
}
fn text(v: &Value) -> &str {
    match v.scalar_text() {
        Some(t) if v.tag.is_none() => t,
        _ => vx::fail("a scalar was not read back as a scalar"),
    }
}
pub fn opts() -> FormatOptions {
    match vx::choose(3) {
        0 => FormatOptions::default(),
        1 => FormatOptions::default().multiline(),
        _ => FormatOptions::default().inline(),
    }
}
/// any text written as a value of each position reads back
pub fn scalar_value(s: &str, o: FormatOptions, ctx: u32) {
    let mut w = StyxWriter::with_options(o);
    w.begin_struct(true);
    w.field_key("k").ok();
    match ctx {
        0 => w.write_string(s),
        1 => {
            w.begin_seq();
            w.write_string(s);
            w.write_string("x");
            w.write_string(s);
            w.end_seq().ok();
        }
        2 => {
            w.write_tag("t");
            w.write_scalar(s)
        }
        3 => {
            w.begin_struct(false);
            w.field_key("a").ok();
            w.write_string(s);
            w.field_key("b").ok();
            w.write_string(s);
            w.end_struct().ok();
        }
        _ => {
            w.begin_seq();
            w.write_tag("t");
            w.write_string(s);
            w.write_tag("u");
            w.write_string(s);
            w.end_seq().ok();
        }
    }
    w.field_key("z").ok();
    w.write_string("1");
    w.end_struct().ok();
    let out = match String::from_utf8(w.finish_document()) {
        Ok(o) => o,
        Err(_) => vx::fail("the writer produced invalid UTF-8"),
    };
    let v = reparse(&out);
    let o = obj(&v);
    vx::check(o.entries.len() == 2 && text(&o.entries[0].key) == "k" && text(&o.entries[1].key) == "z" && text(&o.entries[1].value) == "1", "the entries around a value changed");
    let k = &o.entries[0].value;
    let ok = match ctx {
        0 => text(k) == s,
        1 => k.as_sequence().is_some_and(|q| q.items.len() == 3 && text(&q.items[0]) == s && text(&q.items[1]) == "x" && text(&q.items[2]) == s),
        2 => k.tag_name() == Some("t") && k.scalar_text() == Some(s),
        3 => {
            let o = obj(k);
            o.entries.len() == 2 && text(&o.entries[0].value) == s && text(&o.entries[1].value) == s && text(&o.entries[1].key) == "b"
        }
        _ => k.as_sequence().is_some_and(|q| {
            q.items.len() == 2 && q.items[0].tag_name() == Some("t") && q.items[0].scalar_text() == Some(s) && q.items[1].tag_name() == Some("u") && q.items[1].scalar_text() == Some(s)
        }),
    };
    if !ok {
        vx::note(|| format!("read back {k:?}"));
        vx::fail("a written scalar reads back as something else");
    }
    vx::cover(0);
}
/// any text written as a key, of the root or of a nested object
pub fn scalar_key(s: &str, nested: bool, doc: bool) {
    let mut w = StyxWriter::new();
    w.begin_struct(true);
    if nested {
        w.field_key("k").ok();
        w.begin_struct(false);
    }
    w.field_key("x").ok();
    w.write_i64(1);
    if doc {
        w.write_doc_comment_and_key("d", s)
    } else {
        w.field_key(s).ok();
    }
    w.write_i64(2);
    if nested {
        w.end_struct().ok();
    }
    w.end_struct().ok();
    let out = w.finish_string();
    if s == "x" {
        return;
    }
    let v = reparse(&out);
    let mut o = obj(&v);
    if nested {
        vx::check(o.entries.len() == 1, "the entries around a key changed");
        o = obj(&o.entries[0].value);
    }
    let ok = o.entries.len() == 2 && text(&o.entries[0].key) == "x" && text(&o.entries[1].key) == s && text(&o.entries[1].value) == "2";
    if !ok {
        vx::note(|| format!("read back {o:?}"));
        vx::fail("a written key reads back as something else");
    }
    vx::check(o.entries[1].doc_comment.as_deref() == if doc { Some("d") } else { None }, "a doc comment is lost");
    vx::cover(0);
}
/// a value read from text, written and read again
pub fn reread(src: &str, o: FormatOptions) {
    let v = match styx_tree::parse(src) {
        Ok(v) => v,
        Err(_) => return,
    };
    if siblings(&v) {
        // recorded finding: `a.b 1\na.c 2` stays two entries `a`, which cannot be written as two entries
        vx::known("sibling-paths")
    }
    vx::cover(0);
    value(&v, o)
}
fn siblings(v: &Value) -> bool {
    match &v.payload {
        Some(Payload::Object(o)) => {
            let n = o.entries.len();
            (1..n).any(|i| {
                let (a, b) = (&o.entries[i - 1], &o.entries[i]);
                a.value.as_object().is_some() && b.value.as_object().is_some() && a.key.tag.is_none() && a.key.scalar_text().is_some() && a.key.scalar_text() == b.key.scalar_text()
            }) || o.entries.iter().any(|e| siblings(&e.value))
        }
        Some(Payload::Sequence(s)) => s.items.iter().any(siblings),
        _ => false,
    }
}
pub fn value(v: &Value, o: FormatOptions) {
    let out = format_value(v, o.clone());
    let w = reparse(&out);
    if !same_value(v, &w, false) {
        // recorded finding: `@t"x"` is written as `@t(x)`
        if same_value(&parens(v), &w, false) {
            vx::known("tagged-scalar-parens")
        }
        vx::note(|| format!("value {v:?}\nread back {w:?}"));
        vx::fail("a written value reads back as something else");
    }
    // the same object with braces
    if let Some(Payload::Object(ob)) = &v.payload {
        let b = format_object_braced(ob, o);
        let w = match styx_tree::parse(&b) {
            Ok(w) => w,
            Err(e) => {
                vx::note(|| format!("braced {b:?} {e:?}"));
                vx::fail("a written braced object does not parse")
            }
        };
        if !same_value(v, &w, false) {
            if same_value(&parens(v), &w, false) {
                vx::known("tagged-scalar-parens")
            }
            vx::note(|| format!("value {v:?}\nbraced {b:?}\nread back {w:?}"));
            vx::fail("a written braced object reads back as something else");
        }
    }
}
/// tagged scalars wrapped in a sequence, as `format_value` writes them
fn parens(v: &Value) -> Value {
    let mut v = v.clone();
    let tagged = v.tag.is_some();
    if let (true, Some(Payload::Scalar(s))) = (tagged, &v.payload) {
        let x = Value::scalar(s.text.clone());
        v.payload = Value::seq(vec![x]).payload;
        return v;
    }
    match &mut v.payload {
        Some(Payload::Sequence(s)) => s.items.iter_mut().for_each(|x| *x = parens(x)),
        Some(Payload::Object(o)) => o.entries.iter_mut().for_each(|e| e.value = parens(&e.value)),
        _ => {}
    }
    v
}
fn sym(ps: &[P]) -> String {
    vx::gen::doc(ps)
}
/// values built by a program: any text anywhere
pub fn built(n: usize, o: FormatOptions) {
    let s = sym(&[P::U0(n)]);
    let s2 = sym(&[P::C(&["a", "\n\n\n", "é.", ""])]);
    let leaf = |k: u32, s: &str| match k {
        0 => Value::scalar(s),
        1 => Value::unit(),
        2 => Value::tag("t"),
        3 => Value::tagged("t", Value::scalar(s)),
        4 => Value::seq(vec![Value::scalar(s), Value::unit(), Value::tag("u"), Value::seq(vec![])]),
        _ => Value::tagged("t", Value::seq(vec![Value::scalar(s)])),
    };
    let mut inner = Value::object();
    let k = vx::choose(4);
    if let Some(Payload::Object(io)) = &mut inner.payload {
        let key = match k {
            0 => Value::scalar(&*s),
            1 => Value::unit(),
            2 => Value::tag("k"),
            _ => Value::tagged("k", Value::scalar(&*s)),
        };
        io.entries.push(entry(key, leaf(vx::choose(6), &s2)));
        io.entries.push(entry(Value::scalar("end"), leaf(vx::choose(3), &s)));
    }
    let v = match vx::choose(3) {
        0 => inner,
        1 => {
            let mut root = Value::object();
            if let Some(Payload::Object(r)) = &mut root.payload {
                r.entries.push(entry(Value::scalar("r"), Value::tagged("o", inner)));
                r.entries.push(entry(Value::scalar("q"), Value::unit()));
            }
            root
        }
        _ => {
            let mut root = Value::object();
            if let Some(Payload::Object(r)) = &mut root.payload {
                r.entries.push(entry(Value::scalar("r"), Value::seq(vec![inner.clone(), Value::scalar("m"), inner])));
            }
            root
        }
    };
    if s == "end" || (k == 0 && s == "end") {
        return;
    }
    vx::cover(0);
    value(&v, o)
}

/// documented entries of several kinds and places
pub fn documented(o: FormatOptions) {
    let mut d = sym(&[P::C(&["", "d", " e "]), P::A0(2, "\nx "), P::C(&["", "\n", "é"])]);
    if vx::choose(2) == 0 {
        d = d.replace('\n', "\n\n");
    }
    let doc = |v: Value, k: Value| Entry { key: k, value: v, doc_comment: Some(d.clone()) };
    let key = match vx::choose(4) {
        0 => Value::scalar("k"),
        1 => Value::scalar("a b"),
        2 => Value::unit(),
        _ => Value::tagged("t", Value::scalar("\"")),
    };
    let v = match vx::choose(4) {
        0 => Value::scalar("v"),
        1 => Value::unit(),
        2 => Value::tag("u"),
        _ => Value::seq(vec![Value::scalar("x"), Value::scalar("l\nm")]),
    };
    let at = vx::choose(3);
    let mut inner = Value::object();
    if let Some(Payload::Object(io)) = &mut inner.payload {
        if at > 0 {
            io.entries.push(entry(Value::scalar("first"), v.clone()));
        }
        io.entries.push(doc(v, key));
        if at < 2 {
            io.entries.push(entry(Value::scalar("last"), Value::unit()));
        }
    }
    let v = match vx::choose(4) {
        0 => inner,
        1 => {
            let mut root = Value::object();
            if let Some(Payload::Object(r)) = &mut root.payload {
                for k in ["p", "o"] {
                    if at > 0 {
                        r.entries.push(entry(Value::scalar(k), Value::scalar("1")));
                    }
                }
                r.entries.push(entry(Value::scalar("r"), inner));
                r.entries.push(entry(Value::scalar("q"), Value::unit()));
            }
            root
        }
        2 => {
            let mut root = Value::object();
            if let Some(Payload::Object(r)) = &mut root.payload {
                r.entries.push(doc(inner, Value::scalar("r")));
            }
            root
        }
        _ => {
            let mut root = Value::object();
            if let Some(Payload::Object(r)) = &mut root.payload {
                r.entries.push(entry(Value::scalar("r"), Value::seq(vec![Value::scalar("m"), inner, Value::scalar("n")])));
            }
            root
        }
    };
    vx::cover(0);
    value(&v, o)
}
