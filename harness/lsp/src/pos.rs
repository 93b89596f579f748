//! positions the language server hands to the editor and takes from it
use styx_cst::{NodeOrToken, SyntaxElement, SyntaxKind, SyntaxToken};
use styx_lsp::hooks::{self, DocumentSymbol, Position, Range};
use styx_lsp::TokenType;
use styx_tree::{Payload, Value};
use vx::{check, choose, fail};

/// where the text of line `n` starts, and where it ends (its line end left out)
fn line(text: &str, n: u32) -> Option<(usize, usize)> {
    let b = text.as_bytes();
    let mut start = 0;
    for _ in 0..n {
        while start < b.len() && b[start] != b'\n' {
            start += 1;
        }
        if start == b.len() {
            return None;
        }
        start += 1;
    }
    let mut end = start;
    while end < b.len() && b[end] != b'\n' {
        end += 1;
    }
    if end < b.len() && end > start && b[end - 1] == b'\r' {
        end -= 1;
    }
    Some((start, end))
}
fn units(s: &str) -> u32 {
    s.chars().map(|c| if c as u32 > 0xffff { 2 } else { 1 }).sum()
}
/// the position of a character boundary
fn pos(text: &str, off: usize) -> (u32, u32) {
    let b = text.as_bytes();
    let mut l = 0;
    let mut start = 0;
    for i in 0..off {
        if b[i] == b'\n' {
            l += 1;
            start = i + 1;
        }
    }
    (l, units(&text[start..off]))
}
/// the character boundary at a position; None if there is none
fn at(text: &str, l: u32, col: u32) -> Option<usize> {
    let (s, e) = line(text, l)?;
    let mut k = 0;
    let mut off = s;
    for c in text[s..e].chars() {
        if k >= col {
            break;
        }
        k += if c as u32 > 0xffff { 2 } else { 1 };
        off += c.len_utf8();
    }
    if k == col {
        Some(off)
    } else {
        None
    }
}
pub fn off(text: &str, p: Position) -> usize {
    match at(text, p.line, p.character) {
        Some(o) => o,
        None => fail("a position handed to the editor is outside the text"),
    }
}
pub fn span(text: &str, r: Range) -> (usize, usize) {
    let (a, b) = (off(text, r.start), off(text, r.end));
    check(a <= b, "a range handed to the editor ends before it starts");
    (a, b)
}
fn between_cr_lf(text: &str, o: usize) -> bool {
    let b = text.as_bytes();
    o > 0 && o < b.len() && b[o] == b'\n' && b[o - 1] == b'\r'
}
fn boundary(text: &str) -> usize {
    let o = choose(text.len() as u32 + 1) as usize;
    vx::assume(text.is_char_boundary(o));
    o
}

/// offsets to positions
pub fn to_position(text: String) {
    let o = boundary(&text);
    vx::assume(!between_cr_lf(&text, o));
    let want = pos(&text, o);
    let p = hooks::offset_to_position(&text, o);
    check((p.line, p.character) == want, "an offset is given a wrong editor position");
    check(hooks::position_to_offset(&text, p) == o, "a position does not lead back to its offset");
    let q = styx_lsp_ext::Position::from_offset(&text, o as u32);
    check((q.line, q.character) == want, "an offset is given a wrong position for extensions");
}
/// positions to offsets, also those no character is at
pub fn to_offset(text: String) {
    let (l, col) = (choose(4), choose(7));
    let o = hooks::position_to_offset(&text, Position::new(l, col));
    check(o <= text.len() && text.is_char_boundary(o), "a position leads to no character boundary");
    match line(&text, l) {
        None => check(o == text.len(), "a line after the last one is not its end"),
        Some((s, e)) => match at(&text, l, col) {
            Some(w) => check(o == w, "a position leads to a wrong offset"),
            None if col > units(&text[s..e]) => {
                check(o == e, "a column after the end of its line is not the line's end")
            }
            None => check(
                o >= s && o <= e && (at(&text, l, col - 1) == Some(o) || at(&text, l, col + 1) == Some(o)),
                "a position within a character is not at one of its ends",
            ),
        },
    }
}
/// any offset an extension may send has a position
pub fn any_offset(text: String) {
    let o = choose(text.len() as u32 + 3) as usize;
    let q = styx_lsp_ext::Position::from_offset(&text, o as u32);
    let p = hooks::offset_to_position(&text, o);
    let mut w = o.min(text.len());
    if o <= text.len() {
        vx::assume(!between_cr_lf(&text, o));
    }
    while !text.is_char_boundary(w) {
        w -= 1;
    }
    let lo = pos(&text, w);
    let mut w2 = o.min(text.len());
    while !text.is_char_boundary(w2) {
        w2 += 1;
    }
    let hi = pos(&text, w2);
    check((q.line, q.character) == lo || (q.line, q.character) == hi, "an offset within a character is given a position elsewhere");
    check((p.line, p.character) == lo || (p.line, p.character) == hi, "an offset within a character is given a position elsewhere");
}

/// the word before the cursor
pub fn word(text: String) {
    let o = boundary(&text);
    vx::assume(!between_cr_lf(&text, o));
    let (l, c) = pos(&text, o);
    let p = Position::new(l, c);
    let mut start = o;
    for ch in text[..o].chars().rev() {
        if ch.is_whitespace() || ch == '{' || ch == '}' {
            break;
        }
        start -= ch.len_utf8();
    }
    match hooks::get_word_range_at_position(&text, p) {
        None => check(start == o, "the word before the cursor is not found"),
        Some((w, r)) => {
            check(w == text[start..o] && start < o, "the word before the cursor is another one");
            check(span(&text, r) == (start, o), "the word before the cursor is given a wrong range");
        }
    }
}

fn leaves(e: SyntaxElement, out: &mut Vec<SyntaxToken>) {
    match e {
        NodeOrToken::Token(t) => out.push(t),
        NodeOrToken::Node(n) => {
            for c in n.children_with_tokens() {
                leaves(c, out)
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Class {
    Is(TokenType),
    Either(TokenType, TokenType),
    Nothing,
}
/// what a lexical element of a well-formed document is shown as
fn class(t: &SyntaxToken) -> Class {
    use SyntaxKind::*;
    match t.kind() {
        LINE_COMMENT | DOC_COMMENT => Class::Is(TokenType::Comment),
        HEREDOC_START | HEREDOC_END | GT => Class::Is(TokenType::Operator),
        HEREDOC_CONTENT => Class::Is(TokenType::String),
        BARE_SCALAR | QUOTED_SCALAR | RAW_SCALAR | TAG_TOKEN | AT => {
            let scalar = !matches!(t.kind(), TAG_TOKEN | AT);
            if t.parent().map(|p| p.kind()) == Some(ATTRIBUTE) {
                return Class::Is(TokenType::Property);
            }
            let mut n = t.parent();
            let mut payload = false;
            while let Some(p) = n {
                match p.kind() {
                    // a key is a property, unless it stands for an item of a sequence
                    KEY => {
                        let item = p.parent().and_then(|e| e.parent()).map(|s| s.kind()) == Some(SEQUENCE);
                        return match (item, scalar) {
                            (true, true) => Class::Is(TokenType::String),
                            (true, false) => Class::Is(TokenType::Type),
                            (false, true) if payload => Class::Either(TokenType::String, TokenType::Property),
                            (false, true) => Class::Is(TokenType::Property),
                            (false, false) => Class::Either(TokenType::Type, TokenType::Property),
                        };
                    }
                    ENTRY | OBJECT | SEQUENCE | VALUE => break,
                    TAG_PAYLOAD => payload = true,
                    _ => {}
                }
                n = p.parent();
            }
            if scalar {
                Class::Is(TokenType::String)
            } else {
                Class::Is(TokenType::Type)
            }
        }
        _ => Class::Nothing,
    }
}
fn of_class(c: Class, t: u32) -> bool {
    match c {
        Class::Is(a) => a as u32 == t,
        Class::Either(a, b) => a as u32 == t || b as u32 == t,
        Class::Nothing => false,
    }
}

/// semantic tokens and highlight spans
pub fn highlight(text: String) {
    let parse = styx_cst::parse(&text);
    let good = parse.errors().is_empty();
    let spans = styx_lsp::compute_highlight_spans(&parse);
    let mut last = 0;
    for s in &spans {
        check(last <= s.start && s.start <= s.end && s.end <= text.len(), "highlight spans overlap or are out of order");
        check(text.is_char_boundary(s.start) && text.is_char_boundary(s.end), "a highlight span cuts a character");
        last = s.end;
    }
    // semantic tokens, decoded as an editor decodes them
    let mut toks: Vec<(usize, usize, u32, u32)> = Vec::new();
    let (mut l, mut c) = (0u32, 0u32);
    let mut last = 0;
    for t in styx_lsp::semantic_tokens::compute_semantic_tokens(&parse) {
        l += t.delta_line;
        c = if t.delta_line == 0 { c + t.delta_start } else { t.delta_start };
        let (Some(a), Some(b)) = (at(&text, l, c), at(&text, l, c + t.length)) else {
            fail("a semantic token is not within one line of the text")
        };
        check(a < b && a >= last, "semantic tokens are empty, overlap or are out of order");
        last = b;
        toks.push((a, b, t.token_type, t.token_modifiers_bitset));
    }
    if !good {
        return;
    }
    vx::cover(0);
    let mut all = Vec::new();
    leaves(NodeOrToken::Node(parse.syntax()), &mut all);
    let (mut si, mut ti) = (0, 0);
    let mut o = 0;
    for t in &all {
        let len = t.text().len();
        let (a, b) = (o, o + len);
        o = b;
        let k = class(t);
        if k == Class::Nothing || len == 0 {
            while si < spans.len() && spans[si].start == spans[si].end && spans[si].start <= a {
                si += 1;
            }
            continue;
        }
        let doc = t.kind() == SyntaxKind::DOC_COMMENT;
        if si >= spans.len() || (spans[si].start, spans[si].end) != (a, b) {
            fail("a scalar, tag or comment is not highlighted")
        }
        check(of_class(k, spans[si].token_type as u32), "an element is highlighted as something else");
        check(spans[si].is_doc_comment == doc, "a comment is highlighted as the wrong kind of comment");
        si += 1;
        // the editor highlights what heredocs hold in their own language
        if t.kind() == SyntaxKind::HEREDOC_CONTENT {
            continue;
        }
        let mut i = a;
        while i < b {
            let e = text.as_bytes()[i..b].iter().position(|x| *x == b'\n').map_or(b, |n| i + n);
            let mut z = e;
            if z > i && z < text.len() && text.as_bytes()[z] == b'\n' && text.as_bytes()[z - 1] == b'\r' {
                z -= 1;
            }
            if z > i {
                if ti >= toks.len() || (toks[ti].0, toks[ti].1) != (i, z) {
                    fail("a scalar, tag or comment has no semantic token")
                }
                check(of_class(k, toks[ti].2), "an element has a semantic token of another kind");
                check((toks[ti].3 & 1 == 1) == doc, "a comment has a semantic token of the wrong kind of comment");
                ti += 1;
            }
            i = e + 1;
        }
    }
    check(si == spans.len(), "something that is no element is highlighted");
    check(ti == toks.len(), "something that is no element has a semantic token");
}

fn symbols(text: &str, v: &Value, got: &[DocumentSymbol], parent: Option<(usize, usize)>) {
    let Some(Payload::Object(o)) = &v.payload else {
        return check(got.is_empty(), "an entry that is no object has symbols in it");
    };
    let mut i = 0;
    for e in &o.entries {
        let (None, Some(Payload::Scalar(k))) = (&e.key.tag, &e.key.payload) else {
            continue;
        };
        if i >= got.len() {
            fail("an entry is missing from the symbols")
        }
        let s = &got[i];
        i += 1;
        check(s.name == k.text, "a symbol is named otherwise than its entry");
        let (a, b) = span(text, s.range);
        let (c, d) = span(text, s.selection_range);
        check(a <= c && d <= b, "a symbol's selection is outside its range");
        if let Some((p, q)) = parent {
            check(p <= a && b <= q, "a symbol reaches out of the one it is in");
        }
        if let (Some(ks), Some(vs)) = (e.key.span, e.value.span) {
            check((c, d) == (ks.start as usize, ks.end as usize), "a symbol's selection is not its key");
            let mut end = vs.end as usize;
            for c in s.children.iter().flatten() {
                end = end.max(span(text, c.range).1);
            }
            check(b == end, "a symbol does not end with its value");
        }
        let none = Vec::new();
        symbols(text, &e.value, s.children.as_ref().unwrap_or(&none), Some((a, b)));
    }
    check(i == got.len(), "there is a symbol without an entry");
}
/// the outline, and the ranges of keys and of the schema declaration
pub fn outline(text: String) {
    let Ok(tree) = styx_tree::parse(&text) else { return };
    vx::cover(1);
    symbols(&text, &tree, &hooks::collect_document_symbols(&tree, &text), None);
    let Some(Payload::Object(o)) = &tree.payload else { return };
    for e in &o.entries {
        let (None, Some(Payload::Scalar(k))) = (&e.key.tag, &e.key.payload) else {
            continue;
        };
        let Some(r) = hooks::find_field_in_doc(&tree, &k.text, &text) else {
            fail("a field of the document is not found")
        };
        let (a, b) = span(&text, r);
        let first = o.entries.iter().find(|x| x.key.tag.is_none() && matches!(&x.key.payload, Some(Payload::Scalar(t)) if t.text == k.text)).unwrap();
        let s = first.key.span.unwrap();
        check((a, b) == (s.start as usize, s.end as usize), "a field is found elsewhere than at its key");
    }
    let decl = o.entries.iter().find(|e| matches!(&e.key.tag, Some(t) if t.name == "schema"));
    if let Some(e) = decl.filter(|e| e.key.payload.is_none()) {
        let Some(r) = hooks::find_schema_declaration_range(&tree, &text) else {
            fail("the schema declaration is not found")
        };
        let s = e.value.span.unwrap();
        check(span(&text, r) == (s.start as usize, s.end as usize), "the schema declaration is found elsewhere");
    }
}

/// what the editor gets for formatting turns the document into the formatted one
pub fn format(text: String) {
    let o = styx_format::FormatOptions::default();
    let want = styx_format::format_source(&text, styx_format::FormatOptions::default());
    let got = match hooks::format_edit(&text, o) {
        None => text.clone(),
        Some(e) => {
            let (a, b) = span(&text, e.range);
            let mut s = String::from(&text[..a]);
            s.push_str(&e.new_text);
            s.push_str(&text[b..]);
            s
        }
    };
    check(got == want, "the editor's document is not the formatted one after formatting");
}
