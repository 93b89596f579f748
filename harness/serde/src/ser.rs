//! serde_styx against facet-styx
use crate::rt::{Do, Ty, OWN};

/// both crates write a value in the same way, and what they write reads back with serde_styx
pub struct Cross;
impl Do for Cross {
    const INF: bool = true;
    fn go<T: Ty>(v: &T) {
        let k = vx::choose(4);
        let o = facet_styx::SerializeOptions::default();
        let (f, s) = match k {
            0 => (facet_styx::to_string(v).ok(), serde_styx::to_string(v).ok()),
            1 => (facet_styx::to_string_compact(v).ok(), serde_styx::to_string_compact(v).ok()),
            2 => (facet_styx::to_string_with_options(v, &o.clone().inline()).ok(), serde_styx::to_string_with_options(v, &o.inline()).ok()),
            _ => (facet_styx::to_string_with_options(v, &o.clone().multiline()).ok(), serde_styx::to_string_with_options(v, &o.multiline()).ok()),
        };
        let (Some(f), Some(s)) = (f, s) else { vx::fail("a value cannot be written") };
        vx::note(|| format!("{v:?}\nfacet {f:?}\nserde {s:?}"));
        vx::observe_bytes(s.as_bytes());
        match serde_styx::from_str::<T>(&s) {
            Ok(w) => vx::check(w == *v, "what serde_styx writes reads back as a different value"),
            Err(e) => {
                vx::note(|| format!("error {e}"));
                vx::fail("what serde_styx writes cannot be read back")
            }
        }
        let own = OWN.swap(false, std::sync::atomic::Ordering::Relaxed);
        vx::check(own || f.trim_end() == s.trim_end(), "facet-styx and serde_styx write a value differently");
        if !own && f != s {
            match serde_styx::from_str::<T>(&f) {
                Ok(w) => vx::check(w == *v, "serde_styx reads what facet-styx writes as a different value"),
                Err(_) => vx::fail("serde_styx cannot read what facet-styx writes"),
            }
        }
        vx::cover(0);
    }
}
