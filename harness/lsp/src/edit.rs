//! edits the language server makes to documents
use crate::pos::{off, span};
use styx_cst::{NodeOrToken, SyntaxElement, SyntaxKind};
use styx_lsp::hooks::{self, Position, TextEdit};
use styx_tree::{Entry, Object, Payload, Value};
use vx::{check, choose, fail};

fn apply(text: &str, e: &TextEdit) -> String {
    let (a, b) = span(text, e.range);
    let mut s = String::from(&text[..a]);
    s.push_str(&e.new_text);
    s.push_str(&text[b..]);
    s
}
fn same(a: &Value, b: &Value) -> bool {
    let tags = match (&a.tag, &b.tag) {
        (None, None) => true,
        (Some(x), Some(y)) => x.name == y.name,
        _ => false,
    };
    tags && match (&a.payload, &b.payload) {
        (None, None) => true,
        (Some(Payload::Scalar(x)), Some(Payload::Scalar(y))) => x.text == y.text && x.kind == y.kind,
        (Some(Payload::Sequence(x)), Some(Payload::Sequence(y))) => {
            x.items.len() == y.items.len() && x.items.iter().zip(&y.items).all(|(a, b)| same(a, b))
        }
        (Some(Payload::Object(x)), Some(Payload::Object(y))) => {
            x.entries.len() == y.entries.len() && x.entries.iter().zip(&y.entries).all(|(a, b)| same_entry(a, b))
        }
        _ => false,
    }
}
fn same_entry(a: &Entry, b: &Entry) -> bool {
    a.doc_comment == b.doc_comment && same(&a.key, &b.key) && same(&a.value, &b.value)
}
/// comments, in order
fn comments(e: SyntaxElement, out: &mut Vec<String>) {
    match e {
        NodeOrToken::Token(t) => {
            if t.kind() == SyntaxKind::LINE_COMMENT {
                out.push(t.text().to_string())
            }
        }
        NodeOrToken::Node(n) => {
            for c in n.children_with_tokens() {
                comments(c, out)
            }
        }
    }
}
fn comments_of(p: &styx_cst::Parse) -> Vec<String> {
    let mut v = Vec::new();
    comments(NodeOrToken::Node(p.syntax()), &mut v);
    v
}
/// the innermost object at the offset that is reached through entries only
fn object_at(v: &mut Value, o: usize) -> &mut Object {
    let Some(Payload::Object(obj)) = &mut v.payload else { fail("no object") };
    let n = obj.entries.iter().position(|e| {
        matches!(e.value.payload, Some(Payload::Object(_)))
            && e.value.span.map_or(false, |s| s.start as usize <= o && o <= s.end as usize)
    });
    match n {
        None => obj,
        Some(n) => object_at(&mut obj.entries[n].value, o),
    }
}
const NEW: &[(&str, &str, &str)] = &[("n", "0", "0"), ("n 2", "\"x y\"", "x y"), ("p.q", "r#\"\"z\"#", "\"z")];

/// filling fields in adds them to the object and changes nothing else
pub fn fill(text: String, all: bool) {
    let Ok(mut tree) = styx_tree::parse(&text) else { return };
    let parse = styx_cst::parse(&text);
    if !parse.errors().is_empty() {
        return;
    }
    vx::cover(0);
    let (o, n) = if all {
        (choose(text.len() as u32 + 1) as usize, 1 + choose(NEW.len() as u32) as usize)
    } else {
        // at the beginning, or just within one of the objects
        let mut at = vec![0];
        for n in parse.syntax().descendants() {
            if n.kind() == SyntaxKind::OBJECT {
                at.push(usize::from(n.text_range().start()) + 1)
            }
        }
        (at[choose(at.len() as u32) as usize], NEW.len())
    };
    vx::assume(text.is_char_boundary(o));
    let fields: Vec<(String, String)> = NEW[..n].iter().map(|f| (f.0.to_string(), f.1.to_string())).collect();
    let edit = hooks::insert_fields_edit(&text, &parse, &tree, o, &fields);
    let obj = object_at(&mut tree, o);
    let Some(edit) = edit else {
        let braced = match obj.span {
            None => true,
            Some(s) => text[s.start as usize..].starts_with('{'),
        };
        check(!braced, "fields cannot be filled into an object that takes more entries");
        return;
    };
    vx::cover(1);
    let out = apply(&text, &edit);
    vx::note(|| format!("gives {out:?}"));
    let parse2 = styx_cst::parse(&out);
    check(parse2.errors().is_empty(), "the document has syntax errors after filling fields in");
    check(
        styx_cst::validate(&parse2.syntax()).len() <= styx_cst::validate(&parse.syntax()).len(),
        "the document has new problems after filling fields in",
    );
    check(comments_of(&parse) == comments_of(&parse2), "filling fields in changes comments");
    let Ok(mut got) = styx_tree::parse(&out) else {
        fail("the document is no longer read after filling fields in")
    };
    // the same path leads to the object in both trees
    let mut path = Vec::new();
    path_to(&tree, o, &mut path);
    let g = follow(&mut got, &path);
    check(g.entries.len() >= n, "the fields are not in the object");
    let at = g.entries.len() - n;
    for (e, f) in g.entries[at..].iter().zip(NEW) {
        check(
            e.key.tag.is_none() && matches!(&e.key.payload, Some(Payload::Scalar(t)) if t.text == f.0),
            "a field is filled in under another name, or into another object",
        );
        check(
            e.value.tag.is_none() && matches!(&e.value.payload, Some(Payload::Scalar(t)) if t.text == f.2),
            "a field is filled in with another value",
        );
        check(e.doc_comment.is_none(), "a field that is filled in takes the documentation of another");
    }
    g.entries.truncate(at);
    check(same(&tree, &got), "filling fields in changes what was there");
}
fn path_to(v: &Value, o: usize, out: &mut Vec<usize>) {
    let Some(Payload::Object(obj)) = &v.payload else { return };
    let n = obj.entries.iter().position(|e| {
        matches!(e.value.payload, Some(Payload::Object(_)))
            && e.value.span.map_or(false, |s| s.start as usize <= o && o <= s.end as usize)
    });
    if let Some(n) = n {
        out.push(n);
        path_to(&obj.entries[n].value, o, out);
    }
}
fn follow<'a>(v: &'a mut Value, path: &[usize]) -> &'a mut Object {
    let Some(Payload::Object(obj)) = &mut v.payload else { fail("filling fields in changes what was there") };
    match path.split_first() {
        None => obj,
        Some((n, rest)) => {
            if *n >= obj.entries.len() {
                fail("filling fields in changes what was there")
            }
            follow(&mut obj.entries[*n].value, rest)
        }
    }
}

/// indenting a line that was begun changes no value
pub fn newline(text: String) {
    let parse = styx_cst::parse(&text);
    let l = choose(5);
    let c = choose(2);
    let p = Position::new(l, c);
    let Some(edit) = hooks::newline_edit(&text, &parse, p, "  ") else { return };
    vx::assume(text.bytes().filter(|b| *b == b'\n').count() >= l as usize);
    check(edit.new_text.bytes().all(|b| b == b' '), "a line is indented with something else");
    let at = off(&text, edit.range.start);
    check(edit.range.start == edit.range.end && (at == 0 || text.as_bytes()[at - 1] == b'\n'), "a line is indented elsewhere than at its start");
    let Ok(tree) = styx_tree::parse(&text) else { return };
    vx::cover(2);
    let out = apply(&text, &edit);
    vx::note(|| format!("gives {out:?}"));
    let Ok(got) = styx_tree::parse(&out) else {
        fail("the document is no longer read after indenting a line")
    };
    check(same(&tree, &got), "indenting a line changes a value");
}
fn depth(n: &styx_cst::SyntaxNode, o: usize) -> usize {
    let r = n.text_range();
    let (a, b) = (usize::from(r.start()), usize::from(r.end()));
    let here = matches!(n.kind(), SyntaxKind::OBJECT | SyntaxKind::SEQUENCE) && a < o && o < b;
    here as usize + n.children().map(|c| depth(&c, o)).sum::<usize>()
}
/// a line is indented by the number of objects and sequences it is in
pub fn nesting(text: String) {
    let parse = styx_cst::parse(&text);
    if !parse.errors().is_empty() {
        return;
    }
    vx::cover(3);
    let o = choose(text.len() as u32 + 1) as usize;
    check(hooks::find_nesting_depth_cst(&parse, o) == depth(&parse.syntax(), o), "the nesting depth is wrong");
}

/// how field names are spelled
pub fn key(name: String) {
    let s = format!("{} 1\n", hooks::key_text(&name));
    let Ok(t) = styx_tree::parse(&s) else { fail("a field name is spelled so that it cannot be read") };
    match &t.payload {
        Some(Payload::Object(o)) if o.entries.len() == 1 => {
            let e = &o.entries[0];
            check(
                e.key.tag.is_none() && matches!(&e.key.payload, Some(Payload::Scalar(k)) if k.text == name),
                "a field name is spelled as another one",
            );
            check(matches!(&e.value.payload, Some(Payload::Scalar(v)) if v.text == "1"), "a field name takes the value in");
        }
        _ => fail("a field name is spelled as something else"),
    }
}
fn placeholder(s: &facet_styx::Schema) -> Value {
    let t = format!("v {}\n", hooks::generate_placeholder(s));
    vx::note(|| t.clone());
    let Ok(mut t) = styx_tree::parse(&t) else { fail("a placeholder cannot be read") };
    match &mut t.payload {
        Some(Payload::Object(o)) if o.entries.len() == 1 => o.entries.pop().unwrap().value,
        _ => fail("a placeholder is more than one value"),
    }
}
pub fn literal(lit: String) {
    let v = placeholder(&facet_styx::Schema::Literal(lit.clone()));
    check(v.tag.is_none() && matches!(&v.payload, Some(Payload::Scalar(k)) if k.text == lit), "the placeholder of a literal is another value");
}
/// placeholders are of their type
pub fn conforms(ty: String) {
    let s = format!("meta {{id x}}\nschema {{@ @object{{v {ty}}}}}\n");
    vx::note(|| s.clone());
    let f = match facet_styx::from_str::<facet_styx::SchemaFile>(&s) {
        Ok(f) => f,
        Err(_) => fail("the schema cannot be read"),
    };
    let Some(facet_styx::Schema::Object(o)) = f.schema.get(&None) else { fail("no root") };
    let Some(s) = o.0.values().next() else { fail("no field") };
    placeholder(s);
    let doc = styx_tree::parse(&format!("v {}\n", hooks::generate_placeholder(s))).unwrap();
    check(facet_styx::validate(&doc, &f).errors.is_empty(), "a placeholder is not of its type");
}
