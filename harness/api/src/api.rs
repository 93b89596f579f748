//! looking things up in a tree and editing it, from Rust and from C
use crate::ffi::*;
use std::ffi::CString;
use std::os::raw::c_char;
use std::ptr;
use styx_tree::{Document, Entry, Object, Payload, Value};
use vx::{check, fail};

pub enum Seg {
    Key(String),
    Index(Option<usize>),
}
/// key(.key|[n])* or [n](.key|[n])*; None if the path is not of that form
pub fn segments(p: &str) -> Option<Vec<Seg>> {
    let b = p.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'[' {
            let mut j = i + 1;
            let mut n: Option<usize> = Some(0);
            while j < b.len() && b[j].is_ascii_digit() {
                n = n.and_then(|n| n.checked_mul(10)?.checked_add((b[j] - b'0') as usize));
                j += 1;
            }
            if j == i + 1 || j >= b.len() || b[j] != b']' {
                return None;
            }
            out.push(Seg::Index(n));
            i = j + 1;
        } else {
            if !out.is_empty() {
                if b[i] != b'.' {
                    return None;
                }
                i += 1;
            }
            let mut j = i;
            while j < b.len() && b[j] != b'.' && b[j] != b'[' {
                if b[j] == b']' {
                    return None;
                }
                j += 1;
            }
            if j == i {
                return None;
            }
            out.push(Seg::Key(String::from_utf8(b[i..j].to_vec()).unwrap()));
            i = j;
        }
    }
    Some(out)
}
fn key_is(k: &Value, s: &str) -> bool {
    k.tag.is_none() && matches!(&k.payload, Some(Payload::Scalar(t)) if t.text == s)
}
fn field<'a>(o: &'a Object, s: &str) -> Option<&'a Value> {
    o.entries.iter().find(|e| key_is(&e.key, s)).map(|e| &e.value)
}
fn follow<'a>(mut v: &'a Value, segs: &[Seg]) -> Option<&'a Value> {
    for s in segs {
        v = match (s, &v.payload) {
            (Seg::Key(k), Some(Payload::Object(o))) => field(o, k)?,
            (Seg::Index(Some(n)), Some(Payload::Sequence(q))) => q.items.get(*n)?,
            _ => return None,
        };
    }
    Some(v)
}
fn addr(v: Option<&Value>) -> *const Value {
    v.map_or(ptr::null(), |v| v as *const Value)
}
const TREE: &str = "a {b (x y {a 1}), a \"q\", b0 @t{b (0)}}\nb (1 (2 {a b}))\nx.y {z @}\n@t z\n@ u\n\"a.b\" d\n0 {1 (@b{a 0})}\n";

pub fn paths(p: String) {
    let mut root = styx_tree::parse(TREE).unwrap();
    let got = addr(root.get(&p));
    let got_mut = root.get_mut(&p).map_or(ptr::null(), |v| v as *const Value);
    check(ptr::eq(got, got_mut), "get and get_mut answer differently");
    if let Some(segs) = segments(&p) {
        check(ptr::eq(got, addr(follow(&root, &segs))), "a path leads to another value than it names");
        if !got.is_null() {
            vx::cover(0);
        }
    }
    let doc = Document::parse(TREE).unwrap();
    let got = addr(doc.get(&p));
    if let Some(segs) = segments(&p) {
        let want = match segs.split_first() {
            Some((Seg::Key(k), rest)) => field(&doc.root, k).and_then(|v| follow(v, rest)),
            _ => None,
        };
        check(ptr::eq(got, addr(want)), "a document's path leads to another value than it names");
    }
}

/// every value of a document is reached by the path that spells its position
pub fn walk(src: String) {
    let Ok(root) = styx_tree::parse(&src) else { return };
    let Ok(doc) = Document::parse(&src) else { fail("Document::parse rejects a document parse accepts") };
    let Some(Payload::Object(o)) = &root.payload else { fail("a document's root is no object") };
    check(doc.root.entries == o.entries, "Document::parse reads another tree than parse");
    down(&root, &doc, &root, String::new());
}
fn down(root: &Value, doc: &Document, v: &Value, path: String) {
    if !path.is_empty() {
        check(ptr::eq(addr(root.get(&path)), v), "the path of a value does not lead to it");
        check(matches!(doc.get(&path), Some(w) if w == v), "the path of a value does not lead to it in Document");
    }
    match &v.payload {
        Some(Payload::Object(o)) => {
            check(o.len() == o.entries.len() && o.is_empty() == o.entries.is_empty() && o.iter().count() == o.len(), "object length");
            for e in &o.entries {
                if e.key.is_unit() {
                    check(o.contains_unit_key() && ptr::eq(addr(o.get_unit()), addr(o.entries.iter().find(|e| e.key.tag.is_none() && e.key.payload.is_none()).map(|e| &e.value))), "the unit entry is not found");
                }
                if let Some(k) = e.key.as_str() {
                    check(o.contains_key(k), "a key is not found");
                    // a quoted key can spell anything, a path segment cannot
                    if k.is_empty() || k.contains(|c| matches!(c, '.' | '[' | ']')) || !field(o, k).is_some_and(|x| ptr::eq(x, &e.value)) {
                        continue;
                    }
                    vx::cover(0);
                    down(root, doc, &e.value, if path.is_empty() { k.to_string() } else { format!("{path}.{k}") });
                }
            }
        }
        Some(Payload::Sequence(q)) => {
            check(q.len() == q.items.len() && q.iter().count() == q.len() && q.get(q.len()).is_none(), "sequence length");
            for (i, x) in q.items.iter().enumerate() {
                check(q.get(i).is_some_and(|y| ptr::eq(x, y)), "an item is not at its index");
                down(root, doc, x, format!("{path}[{i}]"));
            }
        }
        _ => {}
    }
}

/// a history of insertions, overwritings and lookups against a plain list of pairs
pub fn ops() {
    let start = ["", "a 1\n@ 2\n@t 3\nb 4", "@t\"a\" 1\n\"\" 2\n@a 3"][vx::choose(3) as usize];
    let Ok(mut v) = styx_tree::parse(start) else { fail("start") };
    let Some(o) = v.as_object_mut() else { fail("start") };
    let mut m: Vec<(Value, String)> = o.entries.iter().map(|e| (e.key.clone(), e.value.scalar_text().unwrap().to_string())).collect();
    let n = vx::choose(4);
    for step in 0..n {
        let k = if vx::choose(2) == 0 {
            String::new()
        } else {
            let mut b = Vec::new();
            vx::one_of(b"abt@", &mut b);
            gen_st(b)
        };
        let new = ["n0", "n1", "n2"][step as usize].to_string();
        match vx::choose(4) {
            0 => {
                o.insert(k.clone(), Value::scalar(new.clone()));
                match m.iter_mut().find(|e| key_is(&e.0, &k)) {
                    Some(e) => e.1 = new,
                    None => m.push((Value::scalar(k.clone()), new)),
                }
            }
            1 => {
                o.insert_unit(Value::scalar(new.clone()));
                match m.iter_mut().find(|e| e.0.is_unit()) {
                    Some(e) => e.1 = new,
                    None => m.push((Value::unit(), new)),
                }
            }
            2 => {
                let a = o.get_mut(&k).map(|v| *v = Value::scalar(new.clone())).is_some();
                let b = m.iter_mut().find(|e| key_is(&e.0, &k)).map(|e| e.1 = new).is_some();
                check(a == b, "get_mut finds another entry");
            }
            _ => {
                let a = o.get_unit_mut().map(|v| *v = Value::scalar(new.clone())).is_some();
                let b = m.iter_mut().find(|e| e.0.is_unit()).map(|e| e.1 = new).is_some();
                check(a == b, "get_unit_mut finds another entry");
            }
        }
        vx::cover(0);
        check(o.len() == m.len() && o.entries.iter().zip(&m).all(|(e, w)| key_same(&e.key, &w.0) && e.value.as_str() == Some(&w.1)), "an insertion leaves other entries than the ones before and the new one");
        check(o.get(&k).and_then(|v| v.as_str()) == m.iter().find(|e| key_is(&e.0, &k)).map(|e| e.1.as_str()), "get after insertion");
        check(o.contains_key(&k) == m.iter().any(|e| key_is(&e.0, &k)) && o.contains_unit_key() == m.iter().any(|e| e.0.is_unit()), "contains_key after insertion");
    }
}
fn gen_st(b: Vec<u8>) -> String {
    String::from_utf8(b).unwrap()
}
fn key_same(a: &Value, b: &Value) -> bool {
    a.tag_name() == b.tag_name() && a.scalar_text() == b.scalar_text()
}

/// takes ownership of a string the library returned
unsafe fn owned(p: *mut c_char) -> Option<Vec<u8>> {
    if p.is_null() {
        return None;
    }
    let s = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes().to_vec();
    unsafe { styx_free_string(p) };
    Some(s)
}
fn c(b: &[u8]) -> CString {
    CString::new(b).unwrap()
}
/// what C sees of a document is what Rust sees
pub fn mirror(src: Vec<u8>) {
    vx::note(|| format!("bytes {src:?}"));
    for b in &src {
        vx::assume(*b != 0);
    }
    let s = c(&src);
    unsafe {
        let r = styx_parse(s.as_ptr());
        let want = std::str::from_utf8(&src).ok().and_then(|s| Document::parse(s).ok());
        check(r.document.is_null() == want.is_none(), "styx_parse accepts other documents than Document::parse");
        check(r.document.is_null() != r.error.is_null(), "styx_parse must set exactly one of document and error");
        if let Some(d) = &want {
            vx::cover(0);
            let o = styx_document_root(r.document);
            check(!o.is_null(), "no root");
            obj(o, &d.root);
        }
        styx_free_document(r.document);
        check(owned(r.error).is_none_or(|e| !e.is_empty()), "an error without a message");
    }
}
unsafe fn obj(o: *const StyxObject, want: &Object) {
    unsafe {
        let n = want.entries.len();
        check(styx_object_len(o) == n, "styx_object_len");
        check(styx_object_key_at(o, n).is_null() && styx_object_value_at(o, n).is_null() && styx_object_key_at(o, usize::MAX).is_null() && styx_object_value_at(o, usize::MAX).is_null(), "an index past the end");
        for (i, Entry { key, value, .. }) in want.entries.iter().enumerate() {
            let (k, v) = (styx_object_key_at(o, i), styx_object_value_at(o, i));
            check(!k.is_null() && !v.is_null(), "an entry is null");
            val(k, key);
            val(v, value);
            if let Some(t) = key.as_str() {
                if !t.contains('\0') {
                    let first = want.entries.iter().position(|e| key_is(&e.key, t)).unwrap();
                    let t = c(t.as_bytes());
                    check(styx_object_get(o, t.as_ptr()) == styx_object_value_at(o, first), "styx_object_get finds another value");
                }
            }
        }
    }
}
unsafe fn val(v: *const StyxValue, want: &Value) {
    unsafe {
        check(styx_value_is_unit(v) == (want.tag.is_none() && want.payload.is_none()), "styx_value_is_unit");
        check(owned(styx_value_tag(v)).as_deref() == want.tag_name().map(|s| s.as_bytes()), "styx_value_tag");
        let text = owned(styx_value_scalar(v));
        let (ob, sq) = (styx_value_as_object(v), styx_value_as_sequence(v));
        let k = styx_value_payload_kind(v);
        match &want.payload {
            None => check(matches!(k, StyxPayloadKind::None) && text.is_none() && ob.is_null() && sq.is_null(), "no payload"),
            Some(Payload::Scalar(s)) => {
                check(matches!(k, StyxPayloadKind::Scalar) && ob.is_null() && sq.is_null(), "a scalar's kind");
                if s.text.contains('\0') {
                    if text.is_none() {
                        vx::known("nul-scalar")
                    }
                } else {
                    check(text.as_deref() == Some(s.text.as_bytes()), "styx_value_scalar");
                }
            }
            Some(Payload::Object(o)) => {
                check(matches!(k, StyxPayloadKind::Object) && text.is_none() && !ob.is_null() && sq.is_null(), "an object's kind");
                obj(ob, o)
            }
            Some(Payload::Sequence(s)) => {
                check(matches!(k, StyxPayloadKind::Sequence) && text.is_none() && ob.is_null() && !sq.is_null(), "a sequence's kind");
                check(styx_sequence_len(sq) == s.items.len(), "styx_sequence_len");
                check(styx_sequence_get(sq, s.items.len()).is_null() && styx_sequence_get(sq, usize::MAX).is_null(), "an index past the end");
                for (i, x) in s.items.iter().enumerate() {
                    let p = styx_sequence_get(sq, i);
                    check(!p.is_null(), "an item is null");
                    val(p, x)
                }
            }
        }
    }
}
/// paths from C, null arguments
pub fn ffi_path(p: String) {
    let cp = c(p.as_bytes());
    unsafe {
        let r = styx_parse(c(TREE.as_bytes()).as_ptr());
        let doc = Document::parse(TREE).unwrap();
        let got = styx_document_get(r.document, cp.as_ptr());
        match doc.get(&p) {
            None => check(got.is_null(), "styx_document_get finds what is not there"),
            Some(w) => {
                check(!got.is_null(), "styx_document_get does not find");
                val(got, w);
                vx::cover(0);
            }
        }
        for (k, e) in doc.root.entries.iter().enumerate() {
            let v = styx_object_value_at(styx_document_root(r.document), k);
            let got = styx_value_get(v, cp.as_ptr());
            match e.value.get(&p) {
                None => check(got.is_null(), "styx_value_get finds what is not there"),
                Some(w) => {
                    check(!got.is_null(), "styx_value_get does not find");
                    val(got, w)
                }
            }
        }
        let n = ptr::null();
        let e = styx_parse(n as *const c_char);
        check(e.document.is_null() && owned(e.error).is_some(), "parsing null");
        check(styx_document_root(ptr::null()).is_null() && styx_document_get(ptr::null(), cp.as_ptr()).is_null() && styx_document_get(r.document, n).is_null(), "null document or path");
        check(styx_value_get(ptr::null(), cp.as_ptr()).is_null() && !styx_value_is_unit(ptr::null()) && styx_value_tag(ptr::null()).is_null() && styx_value_scalar(ptr::null()).is_null(), "null value");
        check(styx_value_as_object(ptr::null()).is_null() && styx_value_as_sequence(ptr::null()).is_null() && matches!(styx_value_payload_kind(ptr::null()), StyxPayloadKind::None), "null value");
        check(styx_object_len(ptr::null()) == 0 && styx_object_get(ptr::null(), cp.as_ptr()).is_null() && styx_object_key_at(ptr::null(), 0).is_null() && styx_object_value_at(ptr::null(), 0).is_null(), "null object");
        check(styx_sequence_len(ptr::null()) == 0 && styx_sequence_get(ptr::null(), 0).is_null() && styx_object_get(styx_document_root(r.document), n).is_null(), "null sequence or key");
        styx_free_document(r.document);
        styx_free_document(ptr::null_mut());
        styx_free_string(ptr::null_mut());
    }
}
