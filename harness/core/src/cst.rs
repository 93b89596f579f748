//! the concrete syntax tree
use styx_cst::{AstNode, Document};
/// lossless for every text, errors or not
pub fn lossless(src: &str) {
    let p = styx_cst::parse(src);
    let n = p.syntax();
    vx::check(u32::from(n.text_range().end()) as usize == src.len() && n.to_string() == src, "the syntax tree does not spell the source");
    for e in p.errors() {
        vx::check(e.offset as usize <= src.len() && src.is_char_boundary(e.offset as usize), "an error offset is not a position of the source");
    }
    let d = styx_cst::validate(&n);
    for x in &d {
        vx::check(usize::from(x.range.end()) <= src.len(), "a diagnostic lies outside the source");
    }
    // no accessor may panic
    if let Some(d) = Document::cast(n) {
        for e in d.entries() {
            let _ = e.key_text();
            if let Some(v) = e.value() {
                let _ = v.kind();
            }
            vx::observe(e.doc_comments().count() as u64);
        }
    }
    if styx_tree::parse(src).is_ok() {
        vx::cover(0);
        if !p.is_ok() {
            // recorded finding: doc comments between the elements of a sequence
            if p.errors().iter().all(|e| e.message == "unexpected token: DocComment" && in_sequence(src, e.offset)) {
                vx::known("sequence-doc-comment")
            }
            vx::note(|| format!("{:?}", p.errors()));
            vx::fail("the syntax tree parser rejects a valid document");
        }
    }
    vx::cover(1);
}

fn bare(k: styx_parse::ScalarKind) -> bool {
    matches!(k, styx_parse::ScalarKind::Bare)
}
/// for a valid document the syntax tree's accessors give the texts the event parser gives, in
/// order (the dots of bare keys, which the parser may split at, left out)
pub fn view(src: &str) {
    use styx_cst::{ScalarKind, SyntaxKind as S};
    use styx_parse::{EventKind as E, Parser};
    let mut want = String::new();
    let mut p = Parser::new(src);
    while let Some(e) = p.next_event() {
        match e.kind {
            E::Error { .. } => return,
            E::Key { tag, payload, kind } => {
                if let Some(t) = tag {
                    want.push('@');
                    want.push_str(t);
                    want.push('\n');
                }
                if let Some(t) = payload {
                    if bare(kind) {
                        want.extend(t.chars().filter(|c| *c != '.'));
                    } else {
                        want.push('"');
                        want.push_str(&t);
                    }
                }
            }
            E::Scalar { value, kind } => match kind {
                styx_parse::ScalarKind::Heredoc => want.push_str("<<"),
                _ => {
                    if bare(kind) {
                        want.extend(value.chars().filter(|c| *c != '.'));
                    } else {
                        want.push('"');
                        want.push_str(&value);
                    }
                }
            },
            E::TagStart { name } => {
                want.push('@');
                want.push_str(name);
                want.push('\n');
            }
            _ => {}
        }
    }
    let n = styx_cst::parse(src).syntax();
    let mut got = String::new();
    for d in n.descendants() {
        match d.kind() {
            S::SCALAR => {
                let s = match styx_cst::Scalar::cast(d) {
                    Some(s) => s,
                    None => vx::fail("a scalar node does not cast"),
                };
                let t = s.text_content();
                if s.kind() == ScalarKind::Bare {
                    got.extend(t.chars().filter(|c| *c != '.'));
                } else {
                    got.push('"');
                    got.push_str(&t);
                }
            }
            // an attribute's key is a token of its own
            S::ATTRIBUTE => {
                if let Some(t) = d.first_token() {
                    got.extend(t.text().chars().filter(|c| *c != '.'));
                }
            }
            S::TAG => {
                if let Some(name) = styx_cst::Tag::cast(d).and_then(|t| t.name()) {
                    got.push('@');
                    got.push_str(&name);
                    got.push('\n');
                }
            }
            S::HEREDOC => got.push_str("<<"),
            _ => {}
        }
    }
    vx::cover(0);
    vx::observe_bytes(got.as_bytes());
    if got != want {
        vx::note(|| format!("syntax tree {got:?}\nevents {want:?}"));
        vx::fail("the syntax tree reads differently from the parser");
    }
}

/// the innermost bracket open at `at` is a parenthesis
fn in_sequence(src: &str, at: u32) -> bool {
    use styx_tokenizer::{TokenKind as T, Tokenizer};
    let mut open = vec![];
    for t in Tokenizer::new(src) {
        if t.span.start >= at {
            break;
        }
        match t.kind {
            T::LParen | T::LBrace => open.push(t.kind),
            T::RParen | T::RBrace => {
                open.pop();
            }
            _ => {}
        }
    }
    open.last() == Some(&T::LParen)
}
