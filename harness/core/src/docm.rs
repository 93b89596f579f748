//! documents: the parser's tree against the reference reading
use crate::refp::{Ent, Node, Pay, Ref, K};
use styx_parse::ScalarKind;
use styx_tree::{Payload, Value};

pub fn kind(k: ScalarKind) -> K {
    match k {
        ScalarKind::Bare => K::Bare,
        ScalarKind::Quoted => K::Quoted,
        ScalarKind::Raw => K::Raw,
        ScalarKind::Heredoc => K::Heredoc,
    }
}
/// `styx_tree::Value` holds one tag: of a chain it keeps the outermost (recorded finding, see
/// `chain`), so that is what the comparison expects
pub fn same(v: &Value, n: &Node) -> bool {
    match (&v.tag, n.tags.first()) {
        (None, None) => {}
        (Some(a), Some(b)) if a.name == *b => {}
        _ => return false,
    }
    match (&v.payload, &n.pay) {
        (None, Pay::Unit) => true,
        (Some(Payload::Scalar(s)), Pay::Scalar(k, t)) => kind(s.kind) == *k && s.text == *t,
        (Some(Payload::Sequence(s)), Pay::Seq(x)) => s.items.len() == x.len() && s.items.iter().zip(x).all(|(a, b)| same(a, b)),
        (Some(Payload::Object(o)), Pay::Obj(x)) => same_ents(&o.entries, x),
        _ => false,
    }
}
pub fn same_ents(a: &[styx_tree::Entry], b: &[Ent]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(e, r)| same(&e.key, &r.key) && same(&e.value, &r.val))
}
fn docs_same(a: &[styx_tree::Entry], b: &[Ent]) -> bool {
    a.iter().zip(b).all(|(e, r)| {
        let want = if r.doc.is_empty() { None } else { Some(r.doc.join("\n")) };
        e.doc_comment == want && docs_in(&e.value, &r.val)
    })
}
fn docs_in(v: &Value, n: &Node) -> bool {
    match (&v.payload, &n.pay) {
        (Some(Payload::Sequence(s)), Pay::Seq(x)) => s.items.iter().zip(x).all(|(a, b)| docs_in(a, b)),
        (Some(Payload::Object(o)), Pay::Obj(x)) => docs_same(&o.entries, x),
        _ => true,
    }
}

/// accepted iff the grammar accepts it, with the tree the grammar gives
pub fn meaning(src: &str) {
    let mut r = Ref::new(src);
    let want = r.document();
    let got = styx_tree::parse(src);
    match (&got, &want) {
        (Ok(v), Ok(ents)) => {
            vx::cover(0);
            let o = match &v.payload {
                Some(Payload::Object(o)) if v.tag.is_none() => o,
                _ => vx::fail("the document is not an untagged object"),
            };
            if !same_ents(&o.entries, ents) {
                vx::note(|| format!("tree {o:?}\nreference {ents:?}"));
                vx::fail("the tree is not what the document says");
            }
            if !docs_same(&o.entries, ents) {
                vx::note(|| format!("tree {o:?}\nreference {ents:?}"));
                vx::fail("doc comments are not on the entries they precede");
            }
            vx::observe(ents.len() as u64);
        }
        (Err(_), Err(_)) => vx::cover(1),
        (Ok(v), Err(_)) => {
            vx::note(|| format!("tree {v:?}"));
            vx::fail("a document outside the grammar is accepted")
        }
        (Err(e), Ok(ents)) => {
            vx::note(|| format!("error {e:?}, reference {ents:?}"));
            vx::fail("a document of the grammar is rejected")
        }
    }
}

/// dotted bare keys of nested objects: the specification splits them like those of the root, the
/// parser keeps them as one key (recorded finding); anything else is a violation
pub fn nested_dotted() {
    let src = vx::gen::doc(&[vx::gen::P::L("x {"), vx::gen::P::A(3, "ab."), vx::gen::P::L(" 1}")]);
    let key = &src[3..6];
    let dotted = key.contains('.');
    let proper = dotted && !key.starts_with('.') && !key.ends_with('.') && !key.contains("..");
    let got = styx_tree::parse(&src);
    match got {
        Err(_) => vx::check(dotted && !proper, "a well-formed key of a nested object is rejected"),
        Ok(v) => {
            let x = match v.get("x").and_then(|x| x.as_object()) {
                Some(o) => o,
                None => vx::fail("the nested object is lost"),
            };
            vx::check(x.entries.len() == 1, "one entry of a nested object became several");
            let e = &x.entries[0];
            let k = match e.key.scalar_text() {
                Some(k) => k,
                None => vx::fail("a bare key is not a scalar"),
            };
            if !dotted {
                vx::check(k == key && e.value.scalar_text() == Some("1"), "wrong key or value");
                vx::cover(0);
                return;
            }
            if k == key {
                vx::known("nested-dotted")
            }
            vx::check(proper && k == &key[..1] && e.value.as_object().map(|o| o.entries.len()) == Some(1), "a dotted key is neither split nor kept");
        }
    }
}
/// a tag whose payload is a tag: the tree keeps one of the two (recorded finding)
pub fn chain() {
    use vx::gen::P;
    let src = vx::gen::doc(&[P::L("k @"), P::A(1, "ab"), P::L("/@"), P::A(1, "ab"), P::C(&["", "@", "\"x\"", "(1)", "{x 1}"])]);
    let v = match styx_tree::parse(&src) {
        Ok(v) => v,
        Err(_) => vx::fail("a document of the grammar is rejected"),
    };
    let k = match v.get("k") {
        Some(k) => k,
        None => vx::fail("the entry is lost"),
    };
    vx::check(k.tag_name() == Some(&src[3..4]), "the outer tag is lost");
    vx::cover(0);
    vx::known("tag-chain")
}
