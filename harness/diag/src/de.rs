//! errors of validation and of typed reading: their place, and how they are shown
use crate::err::{range, shows};
use facet::Facet;
use facet_styx::{RenderError, SchemaFile, ValidationErrorKind as K, Validator};
use styx_parse::Span;
use styx_tree::{Payload, Value};
use vx::{check, fail};

const SCHEMA: &str = r#"meta {id x}
schema {
    @ @object{
        n @int{max 9}
        s @optional(@string{minLen 2})
        b @optional(@bool)
        q @optional(@seq(@int))
        m @optional(@map(@string @int))
        o @optional(@object{k @int})
        e @optional(@enum{u @unit, v @int, w @object{z @int}})
        x @optional(@union(@int @bool))
        d @optional(@deprecated("old" @string))
        t @optional(@tuple(@int @string))
        l @optional(@one-of(@string ("p" "q")))
    }
}
"#;
fn spans(v: &Value, out: &mut Vec<Span>) {
    out.extend(v.span);
    match &v.payload {
        Some(Payload::Sequence(s)) => s.items.iter().for_each(|v| spans(v, out)),
        Some(Payload::Object(o)) => {
            for e in &o.entries {
                out.extend(e.key.span);
                spans(&e.value, out);
            }
        }
        _ => {}
    }
}
/// the key of an entry at a path
fn key_span<'a>(root: &'a Value, path: &str, field: &str) -> Option<&'a Value> {
    let parent = path.strip_suffix(field)?;
    let parent = match parent.strip_suffix('.') {
        Some(p) => root.get(p)?,
        None => root,
    };
    parent.as_object()?.entries.iter().map(|e| &e.key).find(|k| k.as_str() == Some(field))
}
fn place(src: &str, span: Option<Span>, all: &[Span]) -> Option<(usize, usize)> {
    let s = span?;
    check(all.contains(&s), "a validation error's place is no value and no key");
    Some(range(src, s))
}
pub fn validation(make: impl Fn() -> String, show: bool) {
    let Ok(file) = facet_styx::from_str::<SchemaFile>(SCHEMA) else { fail("schema") };
    let src = &make()[..];
    let Ok(doc) = styx_tree::parse(src) else { return };
    let mut all = vec![];
    spans(&doc, &mut all);
    let res = Validator::new(&file).validate_document(&doc);
    for e in &res.errors {
        vx::note(|| format!("{e:?}"));
        let p = place(src, e.span, &all);
        match &e.kind {
            K::UnknownField { field, .. } => {
                if field != "@" {
                    match key_span(&doc, &e.path, field) {
                        Some(k) => check(k.span == e.span, "an unknown field's place is not its key"),
                        // (a path through a variant names its tag)
                        None => check(e.path.starts_with("e.w."), "an unknown field does not exist"),
                    }
                    vx::cover(0)
                }
            }
            K::MissingField { .. } => {
                check(p.is_some() || e.path == "n", "a missing field's object has no place");
                vx::cover(1)
            }
            _ => {
                if let Some(v) = doc.get(&e.path) {
                    // an error about a key stands at the key
                    let key = v.as_object().is_some_and(|o| o.entries.iter().any(|x| x.key.span == e.span));
                    check(v.span == e.span || key, "a validation error's place is not the value at its path");
                }
                check(p.is_some(), "a validation error has no place");
                vx::cover(2)
            }
        }
        if show {
            let rep = e.render("F.styx", src);
            let (a, z) = p.unwrap_or((0, src.chars().next().map_or(0, |c| c.len_utf8())));
            shows(&rep, src, a, z, "31");
        }
    }
    for w in &res.warnings {
        let p = place(src, w.span, &all);
        check(p.is_some() && doc.get(&w.path).is_some_and(|v| v.span == w.span), "a warning's place is not the value at its path");
        if show {
            let mut out = Vec::new();
            w.write_report("F.styx", src, &mut out);
            let (a, z) = p.unwrap();
            match String::from_utf8(out) {
                Ok(rep) => shows(&rep, src, a, z, "33"),
                Err(_) => fail("a report is not UTF-8"),
            }
        }
        vx::cover(3)
    }
    vx::observe(res.errors.len() as u64);
}
#[derive(Facet)]
#[facet(deny_unknown_fields)]
struct Inner {
    #[allow(dead_code)]
    z: u8,
}
#[derive(Facet)]
#[facet(deny_unknown_fields)]
struct Cfg {
    #[allow(dead_code)]
    n: u8,
    #[allow(dead_code)]
    s: Option<String>,
    #[allow(dead_code)]
    q: Option<Vec<bool>>,
    #[allow(dead_code)]
    o: Option<Inner>,
}
/// a text that cannot be read as the type: where, and how that is shown
pub fn reading(src: &str) {
    match facet_styx::from_str::<Cfg>(src) {
        Ok(_) => vx::cover(4),
        Err(e) => {
            vx::note(|| format!("{e:?}"));
            let p = e.span.as_ref().map(|s| range(src, Span { start: s.offset as u32, end: (s.offset + s.len) as u32 }));
            let rep = e.render("F.styx", src);
            if let Some((a, z)) = p {
                shows(&rep, src, a, z, "31");
                vx::cover(5)
            }
            vx::observe(rep.len() as u64);
        }
    }
}
