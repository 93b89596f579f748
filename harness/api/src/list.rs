const SA: &str = "a@{}()\",=> \n/\\.<#r";
const DOC: &str = "a {b (x y {a 1}), \"c d\" q}\nb (1 (2 3))\nx.y.z @t{a @}\n@t z\n@ (@u @)\nb>1 r#\"r\"#\n";
vx::harnesses! {
    h_api_path5 => || api::paths(gen::doc(&[P::A0(5, "ab.[]01")]));
    h_api_path6 => || api::paths(gen::doc(&[P::A(6, "ab.[]01")]));
    h_api_pathx => || api::paths(gen::doc(&[P::C(&["a.b", "b[1]", "a.b[2]", "x.y", "", "[1]"]), P::A0(2, "abxyz.[]0129+-"), P::C(&["", "[0]", ".a", "]"])]));
    h_api_pathu => || api::paths(gen::doc(&[P::C(&["", "a.", "b[", "a.b[2"]), P::U0(2), P::C(&["", "]", ".a"])]));
    h_api_walk_s4 => || api::walk(gen::doc(&[P::A0(4, SA)]));
    h_api_walk_m => || api::walk(gen::mutate(DOC, 1, &[P::A0(1, SA)]));
    h_api_ops => api::ops;
    h_ffi_s4 => || api::mirror(gen::doc(&[P::A0(4, SA)]).into_bytes());
    h_ffi_u => || api::mirror(gen::doc(&[P::C(&["a ", "a (", "a \"", "\"", "a @t"]), P::U0(2), P::C(&["", "\"", ")"])]).into_bytes());
    h_ffi_raw => || { let mut v = Vec::new(); for _ in 0..vx::choose(4) { v.push(vx::byte()) } api::mirror(v) };
    h_ffi_m => || api::mirror(gen::mutate(DOC, 1, &[P::A0(1, SA)]).into_bytes());
    h_ffi_path => || api::ffi_path(gen::doc(&[P::A0(4, "ab.[]01")]));
    h_ffi_nul => || api::mirror(gen::doc(&[P::C(&["a ", "a (", "a @t"]), P::L("\""), P::U0(1), P::L("\\u{0}"), P::U0(1), P::C(&["\"", "\")"])]).into_bytes());
    h_emb_round => || emb::round(&[P::U0(4)], &[P::U0(3)]);
    h_emb_long => emb::long;
    h_emb_corrupt => emb::corrupt;
    h_emb_trunc => emb::trunc;
    h_emb_any => emb::any;
    h_emb_elf => emb::elf;
    h_emb_macho => emb::macho;
    h_emb_pe => emb::pe;
    h_emb_heads => || emb::heads(2);
    h_emb_heads3 => || emb::heads(3);
    h_emb_many => emb::many;
}
