//! what a comparison of two schemas says against what they accept
use crate::cli::hooks as cli;
use facet_styx::SchemaFile;
use vx::{check, fail};

fn read(body: &str) -> Option<(styx_tree::Value, SchemaFile)> {
    let text = format!("meta {{id x, version 1}}\nschema {{\n{body}\n}}\n");
    let Ok(tree) = styx_tree::parse(&text) else { fail("harness: schema") };
    let file: SchemaFile = facet_styx::from_str(&text).ok()?;
    Some((tree, file))
}
/// `docs`: what the two schemas are asked about
pub fn compare(base: String, local: String, docs: &[String]) {
    let (Some((bt, bf)), Some((lt, lf))) = (read(&base), read(&local)) else { fail("harness: schema") };
    let (breaking, additive, patch) = cli::schema_changes(&bt, &lt);
    let next = cli::next_version("3.4.5", &bt, &lt);
    let next0 = cli::next_version("0.4.5", &bt, &lt);
    let (want, want0) = if !breaking.is_empty() {
        ("4.0.0", "0.5.0")
    } else if !additive.is_empty() {
        ("3.5.0", "0.5.0")
    } else {
        ("3.4.6", "0.4.6")
    };
    check(next.as_deref() == Some(want) && next0.as_deref() == Some(want0), "the next version does not follow from the changes");
    if base == local {
        check(breaking.is_empty() && additive.is_empty() && patch.is_empty(), "changes are reported between equal schemas");
        vx::cover(0);
    }
    for d in docs {
        let Ok(v) = styx_tree::parse(d) else { fail("harness: document") };
        let old = facet_styx::validate(&v, &bf).is_valid();
        let new = facet_styx::validate(&v, &lf).is_valid();
        if old && !new {
            check(!breaking.is_empty(), "a schema that rejects what its predecessor accepts is called compatible");
            vx::cover(1);
        }
        if new && !old {
            check(!breaking.is_empty() || !additive.is_empty(), "a schema that accepts more is called unchanged");
            vx::cover(2);
        }
    }
}
/// documentation and layout are no changes
pub fn layout(body: &str, sep: &str, doc: &str) {
    let text = body.replace(", ", sep).replace("@object{", &format!("@object{{{doc}"));
    let (Some((bt, _)), Some((lt, _))) = (read(body), read(&text)) else { fail("harness: schema") };
    let (breaking, additive, patch) = cli::schema_changes(&bt, &lt);
    check(breaking.is_empty() && additive.is_empty() && patch.is_empty(), "layout is reported as a change");
    vx::cover(0);
}
/// a version is incremented as its changes demand, or refused
pub fn version(v: String) {
    let Ok(a) = styx_tree::parse("schema {@ @object{a @int}}") else { fail("harness") };
    let Ok(b) = styx_tree::parse("schema {@ @object{a @int, b @optional(@int)}}") else { fail("harness") };
    let Ok(c) = styx_tree::parse("schema {@ @object{}}") else { fail("harness") };
    let parts: Vec<Option<u64>> = v.split('.').map(|p| p.parse().ok()).collect();
    let want = |k: usize| -> Option<String> {
        let [Some(x), Some(y), Some(z)] = parts[..] else { return None };
        Some(match (k, x) {
            (0, _) => format!("{x}.{y}.{}", z.checked_add(1)?),
            (1, _) | (2, 0) => format!("{x}.{}.0", y.checked_add(1)?),
            _ => format!("{}.0.0", x.checked_add(1)?),
        })
    };
    for (k, l) in [&a, &b, &c].into_iter().enumerate() {
        let got = cli::next_version(&v, &a, l);
        if got.is_some() {
            vx::cover(k as u32);
        }
        check(got == want(k), "the next version");
    }
}
