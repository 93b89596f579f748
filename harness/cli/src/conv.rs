//! a document leaving through the command line and the browser bindings
use crate::cli::hooks as cli;
use serde_json::Value as Json;
use styx_tree::{Entry, Object, Payload, Value};
use styx_wasm::hooks as wasm;
use vx::{check, fail};

/// the members an object's JSON has: sibling paths are one object
fn members(entries: &[Entry]) -> Vec<(Value, Vec<&Value>)> {
    let mut out: Vec<(Value, Vec<&Value>)> = Vec::new();
    for e in entries {
        match out.iter_mut().find(|(k, _)| same_key(k, &e.key)) {
            Some((_, v)) => v.push(&e.value),
            None => out.push((e.key.clone(), vec![&e.value])),
        }
    }
    out
}
fn text(v: &Value) -> Option<&str> {
    match &v.payload {
        Some(Payload::Scalar(s)) => Some(&s.text),
        _ => None,
    }
}
fn same_key(a: &Value, b: &Value) -> bool {
    a.tag.as_ref().map(|t| &t.name) == b.tag.as_ref().map(|t| &t.name) && text(a) == text(b)
}
fn find<'a>(m: &'a serde_json::Map<String, Json>, k: &str) -> Option<&'a Json> {
    m.iter().find(|(n, _)| *n == k).map(|(_, v)| v)
}
/// how a key is spelled in JSON
fn name(k: &Value) -> String {
    match (&k.tag, text(k)) {
        (None, None) => "@".to_string(),
        (None, Some(t)) => t.to_string(),
        (Some(t), None) => format!("@{}", t.name),
        (Some(t), Some(p)) => {
            let mut s = format!("@{}\"", t.name);
            for c in p.chars() {
                match c {
                    '"' => s.push_str("\\\""),
                    '\\' => s.push_str("\\\\"),
                    '\n' => s.push_str("\\n"),
                    '\r' => s.push_str("\\r"),
                    '\t' => s.push_str("\\t"),
                    c => s.push(c),
                }
            }
            s.push('"');
            s
        }
    }
}
struct Rules {
    payload: &'static str,
    scalar: fn(&str, &Json) -> bool,
}
const CLI: Rules = Rules { payload: "$payload", scalar: |t, j| j.as_str() == Some(t) };
const WASM: Rules = Rules { payload: "$value", scalar: inferred };

/// a text is itself, or the number, flag or null it spells
fn inferred(t: &str, j: &Json) -> bool {
    match j {
        Json::String(s) => s == t,
        Json::Bool(b) => t == if *b { "true" } else { "false" },
        Json::Null => t == "null",
        Json::Number(n) => {
            if let Some(i) = n.as_i64() {
                t.parse::<i64>() == Ok(i)
            } else if let Some(u) = n.as_u64() {
                t.parse::<u64>() == Ok(u)
            } else {
                // no whole number may be rounded
                let whole = t.strip_prefix(['+', '-']).unwrap_or(t);
                n.as_f64().is_some_and(|f| f.is_finite() && t.parse::<f64>() == Ok(f)) && !whole.bytes().all(|b| b.is_ascii_digit())
            }
        }
        _ => false,
    }
}
fn collide(o: &[Entry]) -> bool {
    let m = members(o);
    (0..m.len()).any(|i| (0..i).any(|j| name(&m[i].0) == name(&m[j].0)))
}
fn shown(r: &Rules, v: &Value, j: &Json) {
    let mut j = j;
    if let Some(t) = &v.tag {
        let Json::Object(m) = j else { fail("a tagged value is no JSON object") };
        check(m.len() == 1 + v.payload.is_some() as usize, "a tagged value's JSON has other members");
        check(find(m, "$tag").and_then(|x| x.as_str()) == Some(&*t.name), "the tag's name");
        if v.payload.is_none() {
            vx::cover(0);
            return;
        }
        vx::cover(1);
        let Some(p) = find(m, r.payload) else { fail("the payload is missing") };
        j = p;
    }
    match &v.payload {
        None => check(j.is_null(), "a unit is not null"),
        Some(Payload::Scalar(s)) => check((r.scalar)(&s.text, j), "a scalar became something else"),
        Some(Payload::Sequence(q)) => {
            let Json::Array(a) = j else { fail("a sequence is no array") };
            check(a.len() == q.items.len(), "a sequence lost or gained items");
            for (x, y) in q.items.iter().zip(a) {
                shown(r, x, y);
            }
        }
        Some(Payload::Object(o)) => object(r, &o.entries.iter().collect::<Vec<_>>(), j),
    }
}
fn object(r: &Rules, entries: &[&Entry], j: &Json) {
    let entries: Vec<Entry> = entries.iter().map(|e| (*e).clone()).collect();
    let Json::Object(m) = j else { fail("an object is no JSON object") };
    if collide(&entries) {
        vx::known("key-collision");
    }
    let ms = members(&entries);
    check(m.len() == ms.len(), "an object's JSON lost or gained members");
    for (k, vs) in ms {
        let Some(x) = find(m, &name(&k)) else { fail("an entry is missing or has another name") };
        if vs.len() == 1 {
            shown(r, vs[0], x);
        } else {
            // sibling paths
            vx::cover(2);
            let mut all = Vec::new();
            for v in vs {
                let Some(Payload::Object(o)) = &v.payload else { fail("repeated key") };
                all.extend(&o.entries);
            }
            object(r, &all, x);
        }
    }
}
pub fn json(src: String) {
    let Ok(v) = styx_tree::parse(&src) else { return };
    shown(&CLI, &v, &cli::json_output(&v));
    vx::cover(3);
}
pub fn browser(src: String) {
    let Ok(v) = styx_tree::parse(&src) else { return };
    shown(&WASM, &v, &wasm::to_json(&v));
    vx::cover(3);
}
/// any text as a scalar
pub fn scalar(t: String) {
    let v = Value::scalar(&t);
    shown(&WASM, &v, &wasm::to_json(&v));
    shown(&CLI, &v, &cli::json_output(&v));
}
/// JSON, converted to a document, read and converted back
pub fn back(j: Json) {
    let v = wasm::from_json(&j);
    // a document is an object without a tag
    if v.tag.is_some() || !j.is_object() {
        return;
    }
    let out = styx_format::format_value(&v, styx_format::FormatOptions::default());
    let Ok(w) = styx_tree::parse(&out) else { fail("JSON became an invalid document") };
    check(alike(&j, &wasm::to_json(&w)), "JSON came back as something else");
    vx::cover(0);
}
/// the writer puts the bare text a tag carries in a sequence
fn parens(k: &str, v: &Json, w: &Json) -> bool {
    if let Json::Array(a) = w
        && k == "$value"
        && !v.is_array()
        && a.len() == 1
        && alike(v, &a[0])
    {
        vx::known("tagged-scalar-parens");
    }
    false
}
/// texts that spell numbers and flags come back as these
fn alike(a: &Json, b: &Json) -> bool {
    match (a, b) {
        (Json::Array(x), Json::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        (Json::Object(x), Json::Object(y)) => (x.len() == y.len() || x.len() == y.len() + 1 && find(x, "$tag").is_some() && find(x, "$value") == Some(&Json::Null) && find(y, "$value").is_none()) && x.iter().all(|(k, v)| find(y, k).map_or(k == "$value" && v.is_null(), |w| alike(v, w) || parens(k, v, w))),
        (Json::String(t), j) => inferred(t, j),
        (Json::Number(x), Json::Number(y)) => x.as_f64() == y.as_f64() && x.as_i64() == y.as_i64(),
        (a, b) => a == b,
    }
}
/// terminal output is the text with colours
pub fn colours(src: String) {
    let out = cli::highlighted(&src);
    let (s, o) = (src.as_bytes(), out.as_bytes());
    let (mut i, mut k, mut on) = (0, 0, false);
    while k < o.len() {
        if o[k] == 0x1b {
            let mut e = k + 1;
            while e < o.len() && o[e] != b'm' {
                e += 1;
            }
            check(e < o.len(), "an unfinished colour");
            on = &o[k..e] != b"\x1b[0";
            vx::cover(0);
            k = e + 1;
        } else {
            check(i < s.len() && s[i] == o[k], "coloured output is another text");
            i += 1;
            k += 1;
        }
    }
    check(i == s.len(), "coloured output lost text");
    check(!on, "a colour is left on");
}
/// the declaration of the schema, and the document without it
pub fn declared(src: String) {
    let Ok(v) = styx_tree::parse(&src) else { return };
    let Some(Payload::Object(Object { entries, .. })) = &v.payload else { fail("root") };
    let is = |e: &&Entry| e.key.tag.as_ref().is_some_and(|t| t.name == "schema");
    let rest: Vec<&Entry> = entries.iter().filter(|e| !is(e)).collect();
    let w = cli::without_schema_declaration(&v);
    let Some(Payload::Object(o)) = &w.payload else { fail("the document without its declaration is no object") };
    check(o.entries.len() == rest.len() && o.entries.iter().zip(&rest).all(|(a, b)| a == *b), "removing the schema declaration changed something else");
    let want = entries.iter().find(is).and_then(|e| match &e.value.payload {
        Some(Payload::Scalar(s)) if e.value.tag.is_none() => Some(Ok(s.text.clone())),
        Some(Payload::Object(o)) if e.value.tag.is_none() => {
            let f = |k: &str| o.entries.iter().find(|e| e.key.tag.is_none() && text(&e.key) == Some(k)).filter(|e| e.value.tag.is_none()).and_then(|e| text(&e.value)).map(String::from);
            f("cli").map(|c| Err((f("id"), c)))
        }
        _ => None,
    });
    if want.is_some() {
        vx::cover(0);
    }
    // what is tagged is no declaration the documentation describes
    if entries.iter().find(is).is_some_and(|e| e.value.tag.is_some()) {
        return;
    }
    check(cli::declared_schema(&v) == want, "another schema than the declared one is used");
}

fn pick<T: Copy>(of: &[T]) -> T {
    of[vx::choose(of.len() as u32) as usize]
}
fn leaf(texts: &[String]) -> Json {
    match vx::choose(4) {
        0 => Json::Null,
        1 => Json::Bool(vx::choose(2) == 1),
        2 => match vx::choose(4) {
            0 => Json::from(u64::MAX),
            1 => Json::from(-1i64),
            2 => Json::from(2.5f64),
            _ => Json::from(1e300f64),
        },
        _ => Json::String(texts[vx::choose(texts.len() as u32) as usize].clone()),
    }
}
fn obj(m: Vec<(String, Json)>) -> Json {
    let mut o = serde_json::Map::new();
    for (k, v) in m {
        o.insert(k, v);
    }
    Json::Object(o)
}
pub fn node(depth: u32, texts: &[String]) -> Json {
    let n = if depth == 0 { 1 } else { 7 };
    let inner = |t: &[String]| node(depth - 1, t);
    let s = |t: &str| t.to_string();
    match vx::choose(n) {
        0 => leaf(texts),
        1 => Json::Array(vec![]),
        2 => Json::Array(vec![inner(texts), leaf(&texts[..1])]),
        3 => obj(vec![(texts[vx::choose(texts.len() as u32) as usize].clone(), inner(texts)), (s("z"), Json::Null)]),
        4 => obj(vec![(s("$tag"), Json::String(s(pick(&["t", "a-b", "T_1", "", "1", "a b", "a/@b", "é"]))))]),
        5 => obj(vec![(s("$tag"), Json::String(s(pick(&["t", "-"])))), (s("$value"), inner(texts))]),
        _ => obj(vec![(s("$tag"), pick(&[Json::Null, Json::Bool(true)].each_ref()).clone()), (s(pick(&["$value", "x", "$tag2"])), leaf(texts)), (s("y"), Json::Null)]),
    }
}
/// the words a document's texts have to keep apart
pub fn words() -> Vec<String> {
    ["", "a", "@", "@t", "a.b", "//x", "<<H", "r#", "true", "1e5", "inf", "a\nb", "\"", "$tag", "é", "@schema", "{", "-0", "+1", "null", "NaN"].iter().map(|s| s.to_string()).collect()
}
pub fn obj2(k: String, v: String) -> Json {
    obj(vec![(k, Json::String(v.clone())), ("z".to_string(), Json::Array(vec![Json::String(v)]))])
}
