//! the event stream
use crate::docm::kind;
use styx_parse::{Event, EventKind as E, Lexeme, Lexer, ParseErrorKind, Parser, ScalarKind};

#[derive(Clone, Copy, PartialEq)]
enum F {
    Obj,
    Seq,
    Tag { full: bool },
    /// keys and values seen
    Entry { k: u8, v: u8 },
}
fn value(st: &mut Vec<F>, strict: bool, top: &mut u32) {
    match st.last_mut() {
        Some(F::Seq) => {}
        Some(F::Tag { full }) => {
            vx::check(!*full, "a tag has two payloads");
            *full = true
        }
        Some(F::Entry { k, v }) => {
            if strict {
                vx::check(*k == 1 && *v == 0, "an entry is not one key and one value");
            }
            *v += 1
        }
        Some(F::Obj) => vx::fail("a value stands directly in an object"),
        None => *top += 1,
    }
}
/// the lexeme at a span reads as this scalar again
fn rereads(src: &str, a: usize, z: usize, text: &str, k: ScalarKind) -> bool {
    let t = &src[a..z];
    match Lexer::new(t).next_lexeme() {
        Lexeme::Scalar { span, value, kind: k2 } => span.start == 0 && span.end as usize == t.len() && value == text && kind(k2) == kind(k),
        _ => false,
    }
}
pub fn stream(src: &str, expr: bool) {
    let n = src.len();
    let evs: Vec<Event> = {
        let mut p = if expr { Parser::new_expr(src) } else { Parser::new(src) };
        let mut v = vec![];
        while let Some(e) = p.next_event() {
            v.push(e);
            vx::check(v.len() <= 16 * n + 16, "more events than the source can account for");
        }
        vx::check(p.next_event().is_none(), "an event after the end");
        v
    };
    let strict = !evs.iter().any(|e| matches!(e.kind, E::Error { .. }));
    vx::observe(evs.len() as u64);
    let mut st: Vec<F> = vec![];
    let mut top = 0;
    let (mut starts, mut ends) = (0, 0);
    let mut last = 0usize; // start of the latest positioned event
    for (i, e) in evs.iter().enumerate() {
        let (a, z) = (e.span.start as usize, e.span.end as usize);
        if !(a <= z && z <= n && src.is_char_boundary(a) && src.is_char_boundary(z)) {
            vx::note(|| format!("event {e:?}"));
            vx::fail("a span is not a range of the source");
        }
        if ends > 0 {
            vx::check(matches!(&e.kind, E::Error { kind: ParseErrorKind::TrailingContent }), "an event after DocumentEnd");
        }
        if starts == 0 && !expr {
            vx::check(i == 0 && matches!(e.kind, E::DocumentStart), "the first event is not DocumentStart");
        }
        // without errors, whatever carries text appears in source order
        if strict && matches!(e.kind, E::EntryStart | E::Key { .. } | E::Scalar { .. } | E::TagStart { .. } | E::SequenceStart | E::Comment { .. } | E::DocComment { .. }) {
            if a < last {
                vx::note(|| format!("event {e:?}"));
                vx::fail("events out of source order");
            }
            last = a;
        }
        match &e.kind {
            E::DocumentStart => starts += 1,
            E::DocumentEnd => {
                vx::check(st.is_empty(), "DocumentEnd inside a structure");
                ends += 1
            }
            E::ObjectStart => {
                if !(st.is_empty() && !expr) {
                    value(&mut st, strict, &mut top);
                } else {
                    top += 1;
                }
                st.push(F::Obj)
            }
            E::ObjectEnd => vx::check(st.pop() == Some(F::Obj), "ObjectEnd without ObjectStart"),
            E::SequenceStart => {
                value(&mut st, strict, &mut top);
                st.push(F::Seq)
            }
            E::SequenceEnd => vx::check(st.pop() == Some(F::Seq), "SequenceEnd without SequenceStart"),
            E::TagStart { name } => {
                value(&mut st, strict, &mut top);
                if strict {
                    vx::check(src[a..z].starts_with('@') && src[a + 1..z].starts_with(name), "a tag's span does not start with the tag");
                }
                st.push(F::Tag { full: false })
            }
            E::TagEnd => vx::check(matches!(st.pop(), Some(F::Tag { .. })), "TagEnd without TagStart"),
            E::EntryStart => {
                vx::check(matches!(st.last(), Some(F::Obj)), "an entry outside an object");
                st.push(F::Entry { k: 0, v: 0 })
            }
            E::EntryEnd => match st.pop() {
                Some(F::Entry { k, v }) => {
                    if strict {
                        vx::check(k == 1 && v == 1, "an entry is not one key and one value");
                    }
                }
                _ => vx::fail("EntryEnd without EntryStart"),
            },
            E::Key { tag, payload, kind } => {
                match st.last_mut() {
                    Some(F::Entry { k, .. }) => *k += 1,
                    _ => vx::fail("a key outside an entry"),
                }
                if strict {
                    match (tag, payload) {
                        (None, Some(p)) => {
                            // a dotted key is emitted piecewise, each piece at its own span
                            if !(*kind == ScalarKind::Bare && src[a..z] == **p) && !rereads(src, a, z, p, *kind) {
                                vx::note(|| format!("event {e:?}"));
                                vx::fail("a key's span does not hold the key");
                            }
                        }
                        (None, None) => vx::check(&src[a..z] == "@", "a unit key's span is not `@`"),
                        (Some(t), _) => vx::check(src[a..z].starts_with('@') && src[a + 1..z].starts_with(t), "a tagged key's span does not hold the tag"),
                    }
                }
            }
            E::Scalar { value: t, kind } => {
                value(&mut st, strict, &mut top);
                if strict && !rereads(src, a, z, t, *kind) {
                    vx::note(|| format!("event {e:?}"));
                    vx::fail("a scalar's span does not hold the scalar");
                }
            }
            E::Unit => value(&mut st, strict, &mut top),
            E::Comment { text } => vx::check(&src[a..z] == *text && text.starts_with("//"), "a comment's span does not hold the comment"),
            E::DocComment { lines } => {
                vx::check(!lines.is_empty() && src[a..z].starts_with("///") && src[a..z].ends_with(lines[lines.len() - 1]), "a doc comment's span does not hold it")
            }
            E::Error { .. } => {}
        }
        vx::observe((a * 64 + z) as u64);
    }
    vx::check(st.is_empty(), "an unclosed structure at the end of the stream");
    if expr {
        vx::check(top <= 1, "an expression yields two values");
    } else {
        vx::check(starts == 1 && ends == 1 && top <= 1, "not exactly one document with one root object");
    }
    vx::cover(strict as u32);
}
