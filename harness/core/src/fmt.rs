//! formatting of source text
use styx_format::{format_source, FormatOptions};
use styx_tokenizer::{TokenKind as T, Tokenizer};
use styx_tree::{Payload, Value};

/// equal values: tags, payloads, scalar text and kind, entries in order, doc comments
pub fn same_value(a: &Value, b: &Value, kinds: bool) -> bool {
    a.tag.as_ref().map(|t| &t.name) == b.tag.as_ref().map(|t| &t.name)
        && match (&a.payload, &b.payload) {
            (None, None) => true,
            (Some(Payload::Scalar(x)), Some(Payload::Scalar(y))) => x.text == y.text && (!kinds || x.kind == y.kind),
            (Some(Payload::Sequence(x)), Some(Payload::Sequence(y))) => {
                x.items.len() == y.items.len() && x.items.iter().zip(&y.items).all(|(a, b)| same_value(a, b, kinds))
            }
            (Some(Payload::Object(x)), Some(Payload::Object(y))) => {
                x.entries.len() == y.entries.len()
                    && x.entries.iter().zip(&y.entries).all(|(a, b)| {
                        a.doc_comment == b.doc_comment && same_value(&a.key, &b.key, kinds) && same_value(&a.value, &b.value, kinds)
                    })
            }
            _ => false,
        }
}
/// the tokens that are not layout
fn words(src: &str) -> Vec<(T, &str)> {
    let mut v = vec![];
    for t in Tokenizer::new(src) {
        match t.kind {
            T::Whitespace | T::Newline | T::Comma | T::Eof => {}
            _ => v.push((t.kind, t.text)),
        }
    }
    v
}
pub fn format(src: &str) {
    format_with(src, FormatOptions::default())
}
pub fn format_with(src: &str, o: FormatOptions) {
    let p = styx_cst::parse(src);
    let out = format_source(src, o.clone());
    vx::note(|| format!("output {out:?}"));
    if !p.is_ok() {
        vx::check(out == src, "text with syntax errors was changed");
        vx::cover(1);
        return;
    }
    vx::observe_bytes(out.as_bytes());
    let (a, b) = (words(src), words(&out));
    if a != b {
        // recorded finding: of an entry with several values (which the parser rejects) only the
        // first is written
        let several = |n: &styx_cst::SyntaxNode| n.children().filter(|c| c.kind() == styx_cst::SyntaxKind::VALUE).count() > 1;
        if b.len() < a.len() && p.syntax().descendants().any(|n| several(&n)) && styx_tree::parse(src).is_err() {
            vx::known("format-drops-values")
        }
        vx::note(|| format!("before {a:?}\nafter {b:?}"));
        vx::fail("formatting changed more than layout");
    }
    if let Ok(v) = styx_tree::parse(src) {
        vx::cover(0);
        match styx_tree::parse(&out) {
            Err(_) => vx::fail("formatting made a valid document invalid"),
            Ok(w) => {
                if !same_value(&v, &w, true) {
                    vx::note(|| format!("before {v:?}\nafter {w:?}"));
                    vx::fail("formatting changed the meaning of a document");
                }
            }
        }
    }
    let again = format_source(&out, o);
    if again != out {
        vx::note(|| format!("again {again:?}"));
        vx::fail("formatting is not idempotent");
    }
}
