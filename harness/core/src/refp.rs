//! Reference reading of a Styx document, written from docs/content/reference/spec/{parser,grammar}.md.
//! Scannerless recursive descent; any deviation from the grammar is `Err`.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Bare,
    Quoted,
    Raw,
    Heredoc,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Pay {
    Unit,
    Scalar(K, String),
    Seq(Vec<Node>),
    Obj(Vec<Ent>),
}
/// a value: zero or more tags (outermost first) around a payload
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Node {
    pub tags: Vec<String>,
    pub pay: Pay,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ent {
    pub key: Node,
    pub val: Node,
    pub doc: Vec<String>,
}
pub struct Bad;
type R<T> = Result<T, Bad>;

pub struct Ref<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
    /// doc comments waiting for their entry
    docs: Vec<String>,
    /// does the document contain a dotted bare key inside a nested object?
    pub nested_dotted: bool,
    /// ... a value with two or more tags
    pub chained: bool,
}

fn alpha(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn tagc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'-'
}
fn space_char(c: char) -> bool {
    c.is_whitespace()
}
fn bare_stop(c: char) -> bool {
    matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '>') || space_char(c)
}

enum Path {
    Val,
    /// a container known only through dotted keys
    Sub(Level),
    /// explicit object given for this key; dotted keys may extend it while it is last
    Open(Level),
}
/// keys of one object, in order; only the last may still be extended by dotted keys
struct Level {
    keys: Vec<(Node, Path)>,
}
impl Level {
    fn new() -> Level {
        Level { keys: Vec::new() }
    }
    fn add(&mut self, path: &[Node], is_obj: bool) -> R<()> {
        let n = self.keys.len();
        for (j, (k, p)) in self.keys.iter_mut().enumerate() {
            if *k == path[0] {
                // the same key again: only a longer path into the still open last key is fine
                if path.len() == 1 || j + 1 != n {
                    return Err(Bad);
                }
                return match p {
                    Path::Val => Err(Bad),
                    Path::Sub(l) | Path::Open(l) => l.add(&path[1..], is_obj),
                };
            }
        }
        let p = if path.len() > 1 {
            let mut l = Level::new();
            l.add(&path[1..], is_obj)?;
            Path::Sub(l)
        } else if is_obj {
            Path::Open(Level::new())
        } else {
            Path::Val
        };
        self.keys.push((path[0].clone(), p));
        Ok(())
    }
}

pub fn unit() -> Node {
    Node { tags: vec![], pay: Pay::Unit }
}
pub fn bare(s: &str) -> Node {
    Node { tags: vec![], pay: Pay::Scalar(K::Bare, s.to_string()) }
}
/// key identity: kind of quoting does not matter
fn key_id(n: &Node) -> Node {
    let mut m = n.clone();
    if let Pay::Scalar(k, _) = &mut m.pay {
        *k = K::Bare;
    }
    m
}

impl<'a> Ref<'a> {
    pub fn new(s: &'a str) -> Self {
        Ref { b: s.as_bytes(), s, i: 0, docs: vec![], nested_dotted: false, chained: false }
    }
    fn at(&self, k: usize) -> u8 {
        *self.b.get(self.i + k).unwrap_or(&0)
    }
    fn eof(&self) -> bool {
        self.i >= self.b.len()
    }
    fn ch(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn blanks(&mut self) {
        while !self.eof() && (self.b[self.i] == b' ' || self.b[self.i] == b'\t') {
            self.i += 1;
        }
    }
    /// at a line break: its length
    fn nl(&self) -> usize {
        if self.eof() {
            0
        } else if self.b[self.i] == b'\n' {
            1
        } else if self.b[self.i] == b'\r' && self.at(1) == b'\n' {
            2
        } else {
            0
        }
    }
    fn comment(&self) -> bool {
        !self.eof() && self.b[self.i] == b'/' && self.at(1) == b'/'
    }
    /// skip a comment; a doc comment's text is returned
    fn take_comment(&mut self) -> Option<String> {
        let doc = self.at(2) == b'/';
        let st = self.i;
        while !self.eof() && self.b[self.i] != b'\n' && self.b[self.i] != b'\r' {
            self.i += 1;
        }
        if !doc {
            return None;
        }
        let t = &self.s[st + 3..self.i];
        Some(t.strip_prefix(' ').unwrap_or(t).to_string())
    }

    pub fn document(&mut self) -> R<Vec<Ent>> {
        let mut lvl = Level::new();
        let mut out = vec![];
        let mut first = true;
        loop {
            self.blanks();
            if self.eof() {
                break;
            }
            let n = self.nl();
            if n > 0 || self.b[self.i] == b',' {
                self.i += n.max(1);
                continue;
            }
            if self.comment() {
                if let Some(d) = self.take_comment() {
                    self.docs.push(d);
                    first = false;
                }
                continue;
            }
            if self.b[self.i] == b'{' && first {
                self.i += 1;
                self.entries(&mut out, Some(&mut lvl), true)?;
                // nothing but blanks and comments may follow
                loop {
                    self.blanks();
                    let n = self.nl();
                    if self.eof() {
                        return Ok(out);
                    } else if n > 0 {
                        self.i += n;
                    } else if self.comment() && self.at(2) != b'/' {
                        self.take_comment();
                    } else {
                        return Err(Bad);
                    }
                }
            }
            first = false;
            self.entry(&mut out, Some(&mut lvl))?;
        }
        if self.docs.is_empty() {
            Ok(out)
        } else {
            Err(Bad)
        }
    }

    /// entries up to and including `}`
    fn entries(&mut self, out: &mut Vec<Ent>, mut lvl: Option<&mut Level>, _root: bool) -> R<()> {
        let outer = std::mem::take(&mut self.docs);
        loop {
            self.blanks();
            if self.eof() {
                return Err(Bad);
            }
            let n = self.nl();
            if n > 0 || self.b[self.i] == b',' {
                self.i += n.max(1);
            } else if self.comment() {
                if let Some(d) = self.take_comment() {
                    self.docs.push(d);
                }
            } else if self.b[self.i] == b'}' {
                self.i += 1;
                break;
            } else {
                self.entry(out, lvl.as_deref_mut())?;
            }
        }
        if !self.docs.is_empty() {
            return Err(Bad);
        }
        self.docs = outer;
        Ok(())
    }

    fn entry(&mut self, out: &mut Vec<Ent>, lvl: Option<&mut Level>) -> R<()> {
        let doc = std::mem::take(&mut self.docs);
        let start = self.i;
        let key = self.atom()?;
        let key_end = self.i;
        let bare_key = key.tags.is_empty() && matches!(key.pay, Pay::Scalar(K::Bare, _));
        let mut val = None;
        loop {
            self.blanks();
            if self.eof() || self.nl() > 0 || matches!(self.b[self.i], b',' | b'}' | b')') {
                break;
            }
            if self.comment() {
                if let Some(d) = self.take_comment() {
                    self.docs.push(d);
                }
                break;
            }
            if val.is_some() {
                return Err(Bad);
            }
            if bare_key && self.i == key_end && matches!(self.b[self.i], b'{' | b'(') {
                return Err(Bad);
            }
            val = Some(self.atom()?);
        }
        let _ = start;
        let val = val.unwrap_or_else(unit);
        // what may be a key
        if key.tags.len() > 1 {
            return Err(Bad);
        }
        match &key.pay {
            Pay::Unit | Pay::Scalar(K::Bare | K::Quoted | K::Raw, _) => {}
            _ => return Err(Bad),
        }
        let is_obj = val.tags.is_empty() && matches!(val.pay, Pay::Obj(_));
        let mut segs: Vec<Node> = vec![key_id(&key)];
        if bare_key {
            if let Pay::Scalar(_, t) = &key.pay {
                if t.contains('.') {
                    if lvl.is_some() {
                        segs = t.split('.').map(bare).collect();
                        for x in t.split('.') {
                            if x.is_empty() {
                                return Err(Bad);
                            }
                        }
                    } else {
                        self.nested_dotted = true;
                    }
                }
            }
        }
        match lvl {
            Some(l) => l.add(&segs, is_obj)?,
            None => {
                for e in out.iter() {
                    if key_id(&e.key) == segs[0] {
                        return Err(Bad);
                    }
                }
            }
        }
        if segs.len() == 1 {
            out.push(Ent { key, val, doc });
        } else {
            let last = segs.pop().unwrap();
            let mut v = Node { tags: vec![], pay: Pay::Obj(vec![Ent { key: last, val, doc: vec![] }]) };
            while segs.len() > 1 {
                let k = segs.pop().unwrap();
                v = Node { tags: vec![], pay: Pay::Obj(vec![Ent { key: k, val: v, doc: vec![] }]) };
            }
            let k = segs.pop().unwrap();
            out.push(Ent { key: k, val: v, doc });
        }
        Ok(())
    }

    fn atom(&mut self) -> R<Node> {
        if self.eof() {
            return Err(Bad);
        }
        let c = self.b[self.i];
        match c {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.entries(&mut v, None, false)?;
                Ok(Node { tags: vec![], pay: Pay::Obj(v) })
            }
            b'(' => {
                self.i += 1;
                self.sequence()
            }
            b'@' => self.tag_or_unit(),
            b'"' | b'r' if c == b'"' || matches!(self.at(1), b'#' | b'"') => self.delimited(),
            b'<' if self.at(1) == b'<' => self.delimited(),
            _ => self.bare_or_attr(),
        }
    }

    fn sequence(&mut self) -> R<Node> {
        let mut v = vec![];
        loop {
            self.blanks();
            if self.eof() {
                return Err(Bad);
            }
            let n = self.nl();
            if n > 0 {
                self.i += n;
            } else if self.b[self.i] == b',' {
                return Err(Bad);
            } else if self.b[self.i] == b')' {
                self.i += 1;
                return Ok(Node { tags: vec![], pay: Pay::Seq(v) });
            } else if self.comment() {
                self.take_comment();
            } else {
                v.push(self.atom()?);
            }
        }
    }

    fn bare_text(&mut self) -> R<&'a str> {
        let st = self.i;
        match self.ch() {
            Some(c) if !bare_stop(c) && !matches!(c, '=' | '@') => {}
            _ => return Err(Bad),
        }
        while let Some(c) = self.ch() {
            if bare_stop(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(&self.s[st..self.i])
    }

    fn bare_or_attr(&mut self) -> R<Node> {
        let t = self.bare_text()?;
        if self.eof() || self.b[self.i] != b'>' {
            return Ok(bare(t));
        }
        let mut v: Vec<Ent> = vec![];
        let mut key = t;
        loop {
            self.i += 1; // '>'
            if self.eof() || matches!(self.b[self.i], b' ' | b'\t') || self.nl() > 0 || self.comment() {
                return Err(Bad);
            }
            let val = self.atom()?;
            for e in &v {
                if e.key == bare(key) {
                    return Err(Bad);
                }
            }
            v.push(Ent { key: bare(key), val, doc: vec![] });
            // another attribute?
            let save = self.i;
            self.blanks();
            let c = self.at(0);
            let special = self.comment() || c == b'<' && self.at(1) == b'<' || c == b'r' && matches!(self.at(1), b'#' | b'"');
            if !special && !self.eof() {
                if let Ok(t) = self.bare_text() {
                    if !self.eof() && self.b[self.i] == b'>' {
                        key = t;
                        continue;
                    }
                }
            }
            self.i = save;
            return Ok(Node { tags: vec![], pay: Pay::Obj(v) });
        }
    }

    fn tag_or_unit(&mut self) -> R<Node> {
        self.i += 1;
        if !alpha(self.at(0)) {
            // nothing that could be taken for a tag name may follow
            return match self.ch() {
                Some(c) if !bare_stop(c) && !matches!(c, '=' | '@') && !self.comment() && !self.special() => Err(Bad),
                _ => Ok(unit()),
            };
        }
        let mut tags = vec![];
        loop {
            let st = self.i;
            self.i += 1;
            while tagc(self.at(0)) && !(self.at(0) == b'r' && self.at(1) == b'#') {
                self.i += 1;
            }
            tags.push(self.s[st..self.i].to_string());
            if self.at(0) == b'/' && self.at(1) == b'@' && alpha(self.at(2)) {
                self.i += 2;
                continue;
            }
            break;
        }
        let c = self.at(0);
        let pay = if self.eof() {
            Pay::Unit
        } else if matches!(c, b'{' | b'(' | b'"' | b'@') || self.special() {
            let n = self.atom()?;
            tags.extend(n.tags);
            n.pay
        } else if let Some(ch) = self.ch().filter(|ch| !bare_stop(*ch) && *ch != '=' && !self.comment()) {
            let _ = ch;
            return Err(Bad);
        } else {
            Pay::Unit
        };
        if tags.len() > 1 {
            self.chained = true;
        }
        Ok(Node { tags, pay })
    }

    /// at a raw string or heredoc?
    fn special(&self) -> bool {
        let c = self.at(0);
        c == b'r' && matches!(self.at(1), b'#' | b'"') || c == b'<' && self.at(1) == b'<'
    }

    fn delimited(&mut self) -> R<Node> {
        let sc = |k, t| Ok(Node { tags: vec![], pay: Pay::Scalar(k, t) });
        match self.b[self.i] {
            b'"' => sc(K::Quoted, self.quoted()?),
            b'r' => {
                self.i += 1;
                let mut h = 0;
                while self.at(0) == b'#' {
                    h += 1;
                    self.i += 1;
                }
                if self.at(0) != b'"' {
                    return Err(Bad);
                }
                self.i += 1;
                let st = self.i;
                'scan: loop {
                    if self.eof() {
                        return Err(Bad);
                    }
                    if self.b[self.i] == b'"' {
                        for k in 0..h {
                            if self.at(1 + k) != b'#' {
                                self.i += 1;
                                continue 'scan;
                            }
                        }
                        let t = self.s[st..self.i].to_string();
                        self.i += 1 + h;
                        return sc(K::Raw, t);
                    }
                    self.i += 1;
                }
            }
            _ => sc(K::Heredoc, self.heredoc()?),
        }
    }

    fn quoted(&mut self) -> R<String> {
        self.i += 1;
        let mut o = String::new();
        loop {
            let c = match self.ch() {
                None => return Err(Bad),
                Some(c) => c,
            };
            self.i += c.len_utf8();
            if c == '"' {
                return Ok(o);
            }
            if c != '\\' {
                o.push(c);
                continue;
            }
            let e = match self.ch() {
                None => return Err(Bad),
                Some(e) => e,
            };
            self.i += e.len_utf8();
            match e {
                '\\' | '"' => o.push(e),
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let braces = self.at(0) == b'{';
                    if braces {
                        self.i += 1;
                    }
                    let mut v: u32 = 0;
                    let mut digits = 0;
                    while digits < 4 || braces {
                        match (self.at(0) as char).to_digit(16) {
                            Some(d) => {
                                if v > 0x10ffff {
                                    return Err(Bad);
                                }
                                v = v * 16 + d
                            }
                            None => break,
                        }
                        digits += 1;
                        self.i += 1;
                    }
                    if braces {
                        if digits == 0 || self.at(0) != b'}' {
                            return Err(Bad);
                        }
                        self.i += 1;
                    } else if digits != 4 {
                        return Err(Bad);
                    }
                    o.push(char::from_u32(v).ok_or(Bad)?);
                }
                _ => return Err(Bad),
            }
        }
    }

    fn heredoc(&mut self) -> R<String> {
        self.i += 2;
        let st = self.i;
        if !self.at(0).is_ascii_uppercase() {
            return Err(Bad);
        }
        while self.at(0).is_ascii_uppercase() || self.at(0).is_ascii_digit() || self.at(0) == b'_' {
            self.i += 1;
        }
        let delim = &self.b[st..self.i];
        if delim.len() > 16 {
            return Err(Bad);
        }
        if self.at(0) == b',' {
            self.i += 1;
            if self.at(0).is_ascii_lowercase() {
                while self.at(0).is_ascii_lowercase() || self.at(0).is_ascii_digit() || matches!(self.at(0), b'_' | b'.' | b'-') {
                    self.i += 1;
                }
            }
        }
        if self.at(0) == b'\r' {
            self.i += 1;
        }
        if self.at(0) == b'\n' {
            self.i += 1;
        }
        // lines up to the one that consists of the delimiter
        let mut lines: Vec<&str> = vec![];
        loop {
            let mut j = self.i;
            while j < self.b.len() && (self.b[j] == b' ' || self.b[j] == b'\t') {
                j += 1;
            }
            if self.b[j..].starts_with(delim) {
                let r = &self.b[j + delim.len()..];
                if r.is_empty() || r[0] == b'\n' || r.starts_with(b"\r\n") {
                    let indent = j - self.i;
                    self.i = j + delim.len();
                    let mut o = String::new();
                    for l in lines {
                        let mut k = 0;
                        while k < indent && k < l.len() && matches!(l.as_bytes()[k], b' ' | b'\t') {
                            k += 1;
                        }
                        o.push_str(&l[k..]);
                    }
                    return Ok(o);
                }
            }
            let st = self.i;
            while !self.eof() && self.b[self.i] != b'\n' {
                self.i += 1;
            }
            if self.eof() {
                return Err(Bad);
            }
            self.i += 1;
            lines.push(&self.s[st..self.i]);
        }
    }
}
