//! the parser's errors: their place, and how they are shown
use styx_parse::{EventKind as E, ParseErrorKind as K, Parser, Span};
use styx_tree::ParseError;
use vx::{check, fail};

pub fn range(src: &str, s: Span) -> (usize, usize) {
    let (a, z) = (s.start as usize, s.end as usize);
    check(a <= z && z <= src.len() && src.is_char_boundary(a) && src.is_char_boundary(z), "an error's span is not a range of the source");
    (a, z)
}
/// what a key spelled like this is
fn key(t: &str) -> Option<(Option<String>, Option<String>)> {
    let t = format!("{t} 1");
    let mut p = Parser::new(&t);
    while let Some(e) = p.next_event() {
        if let E::Key { tag, payload, .. } = e.kind {
            return Some((tag.map(|t| t.to_string()), payload.map(|p| p.to_string())));
        }
    }
    None
}
fn same_key(a: &str, b: &str) -> bool {
    if a == b {
        return !a.is_empty();
    }
    match (key(a), key(b)) {
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}
/// every error's place is what its kind names
pub fn places(src: &str) {
    let mut p = Parser::new(src);
    let mut first: Option<(K, Span)> = None;
    let mut n = 0;
    while let Some(e) = p.next_event() {
        let E::Error { kind } = e.kind else { continue };
        n += 1;
        let (a, z) = range(src, e.span);
        let t = &src[a..z];
        let ok = match &kind {
            K::DuplicateKey { original } => {
                let (b, y) = range(src, *original);
                y <= a && same_key(t, &src[b..y])
            }
            K::UnclosedObject => t == "{",
            K::UnclosedSequence => t == "(",
            K::InvalidEscape(s) => t == s.as_str() && t.starts_with('\\'),
            K::CommaInSequence => t == ",",
            K::MissingWhitespaceBeforeBlock => (t == "{" || t == "(") && src[..a].chars().next_back().is_some_and(|c| !c.is_whitespace()),
            K::InvalidTagName => t.starts_with('@') && t.len() > 1,
            K::DanglingDocComment => t.starts_with("///") && !t.contains('\n'),
            K::ReopenedPath { closed_path: q } | K::NestIntoTerminal { terminal_path: q } => {
                // the path's beginning spells the keys named
                let mut r = t;
                let mut ok = !q.is_empty();
                if t.starts_with('"') || t.starts_with("r#") || t.starts_with("r\"") || t.starts_with('@') {
                    true
                } else {
                    for (i, s) in q.iter().enumerate() {
                        match r.strip_prefix(s.as_str()) {
                            Some(x) => r = x,
                            None => ok = false,
                        }
                        if i + 1 < q.len() {
                            match r.strip_prefix('.') {
                                Some(x) => r = x,
                                None => ok = false,
                            }
                        }
                    }
                    ok && (r.is_empty() || r.starts_with('.'))
                }
            }
            K::TooManyAtoms | K::TrailingContent | K::InvalidKey | K::ExpectedKey | K::ExpectedValue => (!t.is_empty() || z == src.len()) && !t.starts_with([' ', '\n', '\t']),
            K::UnexpectedToken | K::UnexpectedEof => true,
        };
        if !ok {
            vx::note(|| format!("{kind:?} at {a}..{z} {t:?}"));
            fail("an error does not point at what it names");
        }
        vx::observe((a * 64 + z) as u64);
        if first.is_none() {
            first = Some((kind, e.span));
        }
    }
    match (styx_tree::parse(src), &first) {
        (Ok(_), None) => {}
        (Err(e), Some((k, s))) => match e.as_parse_error() {
            Some(p) => {
                check(p.span == *s && p.kind == *k, "the error reported is not the first of the document");
                vx::cover(0)
            }
            None => fail("a document's error has no place"),
        },
        (Err(e), None) => {
            vx::note(|| format!("{e:?}"));
            fail("an error without an error event")
        }
        (Ok(_), Some(_)) => fail("an error event in an accepted document"),
    }
    if n > 1 {
        vx::cover(1)
    }
}
fn breaks(c: char) -> bool {
    matches!(c, '\r' | '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')
}
/// line and column of an offset, from 1, counted in characters
fn at(src: &str, o: usize) -> (usize, usize) {
    let (mut l, mut c) = (1, 1);
    let mut it = src.char_indices().peekable();
    while let Some((i, ch)) = it.next() {
        if i >= o {
            break;
        }
        c += 1;
        if breaks(ch) && !(ch == '\r' && matches!(it.peek(), Some((_, '\n')))) {
            // a line begins with its first character
            if i + ch.len_utf8() < src.len() {
                l += 1;
                c = 1;
            }
        }
    }
    (l, c)
}
fn number(mut n: usize, o: &mut Vec<u8>) {
    let mut d = [0u8; 8];
    let mut k = 0;
    loop {
        d[k] = b'0' + (n % 10) as u8;
        n /= 10;
        k += 1;
        if n == 0 {
            break;
        }
    }
    while k > 0 {
        k -= 1;
        o.push(d[k]);
    }
}
/// what a report shows in this colour, on the lines that quote the source, white space aside
fn coloured(rep: &str, colour: &str) -> String {
    let mut out = String::new();
    for row in rep.split('\n').skip(2) {
        // a row quoting the source: `<grey>  n │<reset> ...`
        let Some(r) = row.trim_start_matches(' ').strip_prefix("\u{1b}[38;5;246m") else { continue };
        let digits = r.bytes().take_while(|b| *b == b' ' || b.is_ascii_digit()).count();
        if !r[..digits].bytes().any(|b| b.is_ascii_digit()) {
            continue;
        }
        let mut on = false;
        let mut it = r.chars();
        while let Some(c) = it.next() {
            if c == '\u{1b}' {
                let mut code = String::new();
                for c in it.by_ref() {
                    if c == 'm' {
                        break;
                    }
                    code.push(c);
                }
                on = code.strip_prefix('[') == Some(colour);
            } else if on && !c.is_whitespace() {
                out.push(c);
            }
        }
    }
    out
}
fn solid(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}
/// a report names the place of `a` and marks the text `a..z`
pub fn shows(rep: &str, src: &str, a: usize, z: usize, colour: &str) {
    let (l, c) = at(src, a);
    let mut want = b" F.styx:".to_vec();
    number(l, &mut want);
    want.push(b':');
    number(c, &mut want);
    want.push(b' ');
    let head = rep.split('\n').find(|r| r.contains(" F.styx:"));
    match head {
        None => fail("a report names no place"),
        Some(h) => {
            if !h.as_bytes().windows(want.len()).any(|w| w == &want[..]) {
                vx::note(|| format!("expected {l}:{c} in {h:?}"));
                fail("a report names another place");
            }
        }
    }
    let t = &src[a..z];
    // (a last line end belongs to its line; a marker over several lines is drawn beside them)
    if !t.is_empty() && !t.contains(breaks) && !t.contains('\u{1b}') {
        let s = coloured(rep, colour);
        if s != solid(t) {
            vx::note(|| format!("marked {s:?}, not {t:?}"));
            fail("a report marks other text");
        }
        vx::cover(2)
    }
}
/// the document's errors shown
pub fn rendering(src: &str) {
    let mut p = Parser::new(src);
    while let Some(e) = p.next_event() {
        let E::Error { kind } = e.kind else { continue };
        let (a, z) = range(src, e.span);
        let orig = if let K::DuplicateKey { original } = &kind { Some(range(src, *original)) } else { None };
        let rep = ParseError::new(kind, e.span).render("F.styx", src);
        shows(&rep, src, a, z, "31");
        if let Some((b, y)) = orig {
            let t = &src[b..y];
            if !t.contains(breaks) {
                check(coloured(&rep, "34") == solid(t), "a report marks another first key");
                vx::cover(3)
            }
        }
        vx::observe(rep.len() as u64);
    }
}
