const VALS: &[&str] = &["(1)", "{b 1}", "1", "@t(x)", "\"s\"", "@", "()", "{p q>r}", "r\"w\"", "@u"];
/// structural alphabet
pub const SA: &str = "a@{}()\",=> \n/\\.<#r";
vx::harnesses! {
    h_tok_u4 => || tok::tiling(&gen::doc(&[P::U0(4)]));
    h_tok_u5 => || tok::tiling(&gen::doc(&[P::U(5)]));
    h_tok_u6 => || tok::tiling(&gen::doc(&[P::U(6)]));
    h_tok_s7 => || tok::tiling(&gen::doc(&[P::A(7, "a@/.\">r#<A\n ")]));
    h_tok_raw => || tok::tiling(&gen::doc(&[P::C(&["r", "ra", " r"]), P::A0(5, "#\"r\\"), P::U0(2)]));
    h_tok_heredoc => || tok::tiling(&gen::doc(&[P::C(&["<<A", "<<AB", "k <<A1", "<<_", "<<A,", "<<A,rs"]), P::A0(1, "\n\r, aA"), P::C(&["\n", "\r\n", ""]), P::A0(3, " \t\nAxB\r"), P::U0(1), P::C(&["", "\nA", "\n  A\n", "\r\n A\r\nb", "\nA b", "\nAB", "\n\tAB\n{}"])]));
    h_tok_heredoc_u => || tok::tiling(&gen::doc(&[P::L("<<A\n"), P::U0(4), P::C(&["\nA", "\n A", ""]), P::U0(1)]));
    h_doc_u3 => || docm::meaning(&gen::doc(&[P::U0(3)]));
    h_doc_u4 => || docm::meaning(&gen::doc(&[P::U(4)]));
    h_doc_s5 => || docm::meaning(&gen::doc(&[P::A(5, SA)]));
    h_doc_s6 => || docm::meaning(&gen::doc(&[P::A(6, SA)]));
    h_doc_esc => || docm::meaning(&gen::doc(&[P::L("k \""), P::A0(5, "\\u{}0dF\"nq"), P::C(&["", "é", "\u{1F600}"]), P::A0(2, "\\u}\"8"), P::C(&["\"", "\" 1"])]));
    h_doc_uni => || docm::meaning(&gen::doc(&[P::L("k \"\\u"), P::C(&["", "{", "{0", "{10"]), P::A0(4, "0123456789abcdefABCDEF}Ggx-"), P::C(&["\"", "}\"", "}x\""])]));
    h_doc_raw => || docm::meaning(&gen::doc(&[P::C(&["k r", "k @tr", "r", "@er"]), P::A0(6, "#\"a\\\n"), P::C(&["", "\"#", "\"## b"])]));
    h_doc_rawlong => || docm::meaning(&gen::doc(&[P::L("k r"), P::N(250, "#"), P::A0(8, "#"), P::L("\""), P::A(1, "a\""), P::L("\""), P::N(250, "#"), P::A0(8, "#")]));
    h_doc_heredoc => || docm::meaning(&gen::doc(&[P::C(&["k <<A", "k @t<<A", "k (<<A", "k <<AB_1,rs.x"]), P::C(&["\n", "\r\n", "", " "]), P::A0(5, " \tAx\n\r"), P::C(&["\nA", "\n  A\nb 1", "\r\n\t A\r\n", "\nA b", " A", "\nA\r"]), P::C(&["", ")", "\n)"])]));
    h_doc_hdelim => || docm::meaning(&gen::doc(&[P::L("k <<ABCDEFGHIJKLMN"), P::A0(4, "A0_a,\n"), P::L("\nx\nABCDEFGHIJKLMN"), P::A0(3, "A0_")]));
    h_doc_tag => || docm::meaning(&gen::doc(&[P::C(&["k ", "", "k (", "k {x "]), P::L("@"), P::A(4, "a_-/@.1\"({ r#"), P::C(&["", "\"", "}", ")", ")}"])]));
    h_doc_chain => || docm::meaning(&gen::doc(&[P::L("k "), P::C(&["@a/@b", "@a/@b/@c", "@a-1/@_b"]), P::A0(3, "\"(){}@/a> ")]));
    h_doc_attr => || docm::meaning(&gen::doc(&[P::C(&["k a>", "k (a>", "k {x a>"]), P::A(4, "ab> \n,\"@(){}/.<\t\r"), P::C(&["", "\"", ")", "}"])]));
    h_doc_keys => || docm::meaning(&gen::doc(&[P::A(3, "ab.@"), P::C(&[" 1\n", " {x 1}\n"]), P::A(3, "ab.@\""), P::C(&[" 1\nb", " {x 1}\na.b"]), P::L(" 1")]));
    h_doc_paths => || docm::meaning(&gen::doc(&[P::C(&["", "{"]), path(), val(), path(), val(), path(), P::L(" 1"), P::C(&["", "}"])]));
    h_doc_paths4 => || docm::meaning(&gen::doc(&[P::C(&["", "{"]), path4(), val(), path4(), val(), path4(), val(), path4(), P::L(" 1"), P::C(&["", "}"])]));
    h_doc_obj => || docm::meaning(&gen::doc(&[P::L("k {"), P::A(5, "ab \n,{}\"@.\t\r")  , P::C(&["}", " 1}", "\n}", ""])]));
    h_doc_seq => || docm::meaning(&gen::doc(&[P::L("k ("), P::A(4, "a \n,(){}\"@/>\t\r"), P::C(&[")", "))", "})", ""])]));
    h_doc_comment => || docm::meaning(&gen::doc(&[P::C(&["", "a 1 ", "a ", "k {a 1 ", "k {", "k (", "k a>1 "]), P::C(&["//", "///", "/// "]), P::A(2, "/ x"), P::C(&["\n", "\r\n", "\r", ""]), P::A0(2, "/\n b"), P::C(&["", "\n", "}", "\n}", ")", "\nb 1\n", "\n/// d\nb 1}"])]));
    h_doc_mut1 => || docm::meaning(&gen::mutate(DOC1, 1, &[P::A0(2, SA)]));
    h_doc_mut2 => || docm::meaning(&gen::mutate(DOC2, 1, &[P::A0(2, SA)]));
    h_doc_mutu => || docm::meaning(&gen::mutate(DOC1, 0, &[P::U(2)]));
    h_ev_u3 => || ev::stream(&gen::doc(&[P::U0(3)]), false);
    h_ev_u4 => || ev::stream(&gen::doc(&[P::U(4)]), false);
    h_ev_s5 => || ev::stream(&gen::doc(&[P::A(5, SA)]), false);
    h_ev_x4 => || ev::stream(&gen::doc(&[P::A0(4, SA)]), true);
    h_ev_esc => || ev::stream(&gen::doc(&[P::L("k \"\\"), P::C(&["u{", "u", ""]), P::A0(3, "0dFx}\"\\"), P::U0(2), P::A0(2, "0}\""), P::C(&["", "\"", "89}x\""])]), false);
    h_ev_heredoc => || ev::stream(&gen::doc(&[P::C(&["k <<A", "k (@t<<A", "<<A"]), P::A0(3, " ,\rAx\n"), P::C(&["\n", ""]), P::U0(1), P::C(&["", "\nA", "\n  A", "\r\nA\n"]), P::A0(1, ")} ")]), false);
    h_ev_mut1 => || ev::stream(&gen::mutate(DOC1, 1, &[P::A0(2, SA)]), false);
    h_ev_mut2 => || ev::stream(&gen::mutate(DOC2, 1, &[P::A0(2, SA)]), false);
    h_ev_mutu => || ev::stream(&gen::mutate(DOC2, 0, &[P::U(2)]), false);
    h_ev_x2 => || ev::stream(&gen::mutate("@a/@b{x (1 y>\"2\") z r#\"\"#}", 1, &[P::A0(2, SA)]), true);
    h_cst_u4 => || cst::lossless(&gen::doc(&[P::U0(4)]));
    h_cst_s5 => || cst::lossless(&gen::doc(&[P::A(5, SA)]));
    h_cst_mut1 => || cst::lossless(&gen::mutate(DOC1, 1, &[P::A0(2, SA)]));
    h_cst_mut2 => || cst::lossless(&gen::mutate(DOC2, 1, &[P::A0(2, SA)]));
    h_cst_docs => || cst::lossless(&gen::doc(&[P::C(&["", "k {", "k ({", "{", "a b\n"]), P::C(&["/// d\n", "///d\n/// e\n", "/// d\n\n", "// c\n/// d\n", "a 1 /// d\n", ""]), P::C(&["a x", "@", "b.c 2", "\"q\" {/// in\n x 1}", "a2 /// z", ""]), P::C(&["\n", "\r\n", " // c\n", ", "]), P::C(&["/// f\n", "/// f\n// c\n/// g\n", ""]), P::C(&["z 1", "z (/// s\n)", ""]), P::C(&["", "}", "\n}", "})"])]));
    h_view_docs => || cst::view(&gen::doc(&[P::C(&["", "k {", "k ({", "{", "a b\n"]), P::C(&["/// d\n", "///d\n/// e\n", "/// d\n\n", "// c\n/// d\n", "a 1 /// d\n", ""]), P::C(&["a x", "@", "b.c 2", "\"q\" {/// in\n x 1}", "a2 /// z", ""]), P::C(&["\n", "\r\n", " // c\n", ", "]), P::C(&["/// f\n", "/// f\n// c\n/// g\n", ""]), P::C(&["z 1", "z (/// s\n)", ""]), P::C(&["", "}", "\n}", "})"])]));
    h_cst_tag => || cst::lossless(&gen::doc(&[P::C(&["k ", "", "k (", "k {x "]), P::L("@"), P::A(4, "a_-/@.1\"({ r#"), P::C(&["", "\"", "}", ")", ")}"])]));
    h_view_tag => || cst::view(&gen::doc(&[P::C(&["k ", "", "k (", "k {x "]), P::L("@"), P::A(4, "a_-/@.1\"({ r#"), P::C(&["", "\"", "}", ")", ")}"])]));
    h_cst_attr => || cst::lossless(&gen::doc(&[P::C(&["k a>", "k (a>", "k {x a>"]), P::A(4, "ab> \n,\"@(){}/.<\t\r"), P::C(&["", "\"", ")", "}"])]));
    h_view_attr => || cst::view(&gen::doc(&[P::C(&["k a>", "k (a>", "k {x a>"]), P::A(4, "ab> \n,\"@(){}/.<\t\r"), P::C(&["", "\"", ")", "}"])]));
    h_cst_obj => || cst::lossless(&gen::doc(&[P::L("k {"), P::A(5, "ab \n,{}\"@.\t\r")  , P::C(&["}", " 1}", "\n}", ""])]));
    h_view_obj => || cst::view(&gen::doc(&[P::L("k {"), P::A(5, "ab \n,{}\"@.\t\r")  , P::C(&["}", " 1}", "\n}", ""])]));
    h_cst_seq => || cst::lossless(&gen::doc(&[P::L("k ("), P::A(4, "a \n,(){}\"@/>\t\r"), P::C(&[")", "))", "})", ""])]));
    h_view_seq => || cst::view(&gen::doc(&[P::L("k ("), P::A(4, "a \n,(){}\"@/>\t\r"), P::C(&[")", "))", "})", ""])]));
    h_cst_heredoc => || cst::lossless(&gen::doc(&[P::C(&["k <<A", "k @t<<A", "k (<<A", "k <<AB_1,rs.x"]), P::C(&["\n", "\r\n", "", " "]), P::A0(5, " \tAx\n\r"), P::C(&["\nA", "\n  A\nb 1", "\r\n\t A\r\n", "\nA b", " A", "\nA\r"]), P::C(&["", ")", "\n)"])]));
    h_view_heredoc => || cst::view(&gen::doc(&[P::C(&["k <<A", "k @t<<A", "k (<<A", "k <<AB_1,rs.x"]), P::C(&["\n", "\r\n", "", " "]), P::A0(5, " \tAx\n\r"), P::C(&["\nA", "\n  A\nb 1", "\r\n\t A\r\n", "\nA b", " A", "\nA\r"]), P::C(&["", ")", "\n)"])]));
    h_cst_chain => || cst::lossless(&gen::doc(&[P::L("k "), P::C(&["@a/@b", "@a/@b/@c", "@a-1/@_b"]), P::A0(3, "\"(){}@/a> ")]));
    h_view_chain => || cst::view(&gen::doc(&[P::L("k "), P::C(&["@a/@b", "@a/@b/@c", "@a-1/@_b"]), P::A0(3, "\"(){}@/a> ")]));
    h_cst_comment => || cst::lossless(&gen::doc(&[P::C(&["", "a 1 ", "a ", "k {a 1 ", "k {", "k (", "k a>1 "]), P::C(&["//", "///", "/// "]), P::A(2, "/ x"), P::C(&["\n", "\r\n", "\r", ""]), P::A0(2, "/\n b"), P::C(&["", "\n", "}", "\n}", ")", "\nb 1\n", "\n/// d\nb 1}"])]));
    h_view_comment => || cst::view(&gen::doc(&[P::C(&["", "a 1 ", "a ", "k {a 1 ", "k {", "k (", "k a>1 "]), P::C(&["//", "///", "/// "]), P::A(2, "/ x"), P::C(&["\n", "\r\n", "\r", ""]), P::A0(2, "/\n b"), P::C(&["", "\n", "}", "\n}", ")", "\nb 1\n", "\n/// d\nb 1}"])]));
    h_view_s5 => || cst::view(&gen::doc(&[P::A0(5, SA)]));
    h_view_u => || cst::view(&gen::doc(&[P::C(&["k ", "", "k (", "k @t"]), P::U0(3), P::C(&["", " 1", ")"])]));
    h_view_esc => || cst::view(&gen::doc(&[P::C(&["k \"", "\"", "k @t\""]), P::A0(3, "\\u{}0dF\"n"), P::C(&["", "\\u{e9}é", "\\u00e9"]), P::A0(2, "\\u}\"8"), P::C(&["\"", "\" 1"])]));
    h_view_raw => || cst::view(&gen::doc(&[P::C(&["k r", "k @tr", "r"]), P::A0(6, "#\"a\\")]));
    h_view_mut1 => || cst::view(&gen::mutate(DOC1, 1, &[P::A0(2, SA)]));
    h_view_mut2 => || cst::view(&gen::mutate(DOC2, 1, &[P::A0(2, SA)]));
    h_wr_val3 => || wr::scalar_value(&gen::doc(&[P::U0(3)]), wr::opts(), vx::choose(5));
    h_wr_vals => || wr::scalar_value(&gen::doc(&[P::A0(5, "a\"#\n\\\r <TEX/.")]), wr::opts(), vx::choose(5));
    h_wr_key3 => || wr::scalar_key(&gen::doc(&[P::U0(3)]), vx::choose(2) == 1, vx::choose(2) == 1);
    h_wr_re_s4 => || wr::reread(&gen::doc(&[P::A0(4, SA)]), wr::opts());
    h_wr_re_mut1 => || wr::reread(&gen::mutate(DOC1, 1, &[P::A0(2, SA)]), wr::opts());
    h_wr_re_mut2 => || wr::reread(&gen::mutate(DOC2, 1, &[P::A0(2, SA)]), wr::opts());
    h_wr_docs => || wr::documented(wr::opts());
    h_wr_built1 => || wr::built(1, wr::opts());
    h_wr_built => || wr::built(2, wr::opts());
    h_fmt_docs => || fmt::format(&gen::doc(&[P::C(&["", "k {", "k ({", "{", "a b\n"]), P::C(&["/// d\n", "///d\n/// e\n", "/// d\n\n", "// c\n/// d\n", "a 1 /// d\n", ""]), P::C(&["a x", "@", "b.c 2", "\"q\" {/// in\n x 1}", "a2 /// z", ""]), P::C(&["\n", "\r\n", " // c\n", ", "]), P::C(&["/// f\n", "/// f\n// c\n/// g\n", ""]), P::C(&["z 1", "z (/// s\n)", ""]), P::C(&["", "}", "\n}", "})"])]));
    h_fmt_attrs => || fmt::format(&gen::doc(&[P::C(&["k ", "k (", "k {x ", "", "k @t("]), P::L("a>"), P::C(VALS), P::C(&[" ", "", "\n", "  \t", ","]), P::L("b>"), P::C(VALS), P::A0(1, " \n,>/"), P::C(&["", ")", "}", "\n)", " c>1", " e\n}"])]));
    h_fmt_attr => || fmt::format(&gen::doc(&[P::C(&["k a>", "k (a>", "k {x a>"]), P::A(4, "ab> \n,\"@(){}/.<\t\r"), P::C(&["", "\"", ")", "}"])]));
    h_fmt_tag => || fmt::format(&gen::doc(&[P::C(&["k ", "", "k (", "k {x "]), P::L("@"), P::A(4, "a_-/@.1\"({ r#"), P::C(&["", "\"", "}", ")", ")}"])]));
    h_fmt_u3 => || fmt::format(&gen::doc(&[P::U0(3)]));
    h_fmt_s4 => || fmt::format(&gen::doc(&[P::A0(4, SA)]));
    h_fmt_s5 => || fmt::format(&gen::doc(&[P::A(5, SA)]));
    h_fmt_mut1 => || fmt::format(&gen::mutate(DOC1, 1, &[P::A0(2, SA)]));
    h_fmt_mut2 => || fmt::format(&gen::mutate(DOC2, 1, &[P::A0(2, SA)]));
    h_fmt_obj => || fmt::format(&gen::doc(&[P::C(&["k {", "k ({", "k @o(@t{"]), P::C(&["", "\n"]), item(), sep(), item(), sep(), P::A(1, "b}\n,"), P::C(&["}", "})", "}))"])]));
    h_fmt_m1 => || fmt::format(&gen::mutate(DOC1, 1, &[P::A0(1, SA)]));
    h_fmt_m2 => || fmt::format(&gen::mutate(DOC2, 1, &[P::A0(1, SA)]));
    h_cst_m1 => || cst::lossless(&gen::mutate(DOC1, 1, &[P::A0(1, SA)]));
    h_cst_m2 => || cst::lossless(&gen::mutate(DOC2, 1, &[P::A0(1, SA)]));
    h_fmt_seq => || fmt::format(&gen::doc(&[P::C(&["k (", "k @t(", "k {a ("]), P::C(&["", "\n"]), elem(), ssep(), elem(), P::C(&["", "\n", " // c\n"]), P::C(&[")", "))", ")}"])]));
    h_fmt_seq2 => || fmt::format(&gen::doc(&[P::C(&["k (", "k @t(", "k {a ("]), P::C(&["", "\n"]), elem(), ssep(), elem(), ssep(), P::A(1, "b)\n@"), P::C(&[")", "))", ")}"])]));
    h_fmt_root => || fmt::format(&gen::doc(&[P::C(&["a 1", "@schema s", "@schema {a @}", "b {\n}", "/// d\nc 1"]), sep(), item(), sep(), P::A(1, "b>@\n,/"), P::C(&["", "z {a 1}", "/// e\nz {\n}"])]));
    h_fmt_nest => || fmt::format(&gen::doc(&[P::C(&["a {b {", "a ({b (", "a @t{b @u{"]), P::A(1, "\n a"), item(), P::C(&["}", ")", "\n}"]), sep(), P::C(&["c {d 1}", "c 2", ""]), P::C(&["}", "})", "\n// x\n}"]), P::A0(3, "\n,z")]));
    h_fmt_comm => || fmt::format(&gen::doc(&[P::C(&["a {", "a (", ""]), P::A0(2, " \n,"), P::C(&["// x", "/// x", "//x \t"]), P::A(1, "\n\r"), P::A0(2, " \n,\r"), P::C(&["b", "b {} // z", ""]), P::C(&["\n", " // w\n"]), P::C(&["}", ")", ""])]));
    h_fmt_u => || fmt::format(&gen::doc(&[P::C(&["k \"", "k r\"", "// ", "k <<A\n", "@"]), P::U0(2), P::C(&["\"", "\nA", ""])]));
    h_fmt_opt => || fmt::format_with(&gen::mutate("a {b 1\nc (1\n 2 {x 1, y {z 1}})\n// q\n}\nd e", 1, &[P::A0(1, SA)]), styx_format::FormatOptions { indent: ["\t", "", " "][vx::choose(3) as usize], ..Default::default() });
    h_doc_ws => || docm::meaning(&gen::doc(&[P::A0(1, " \t\r\n,\x0b\0"), P::C(&["a", "{", "k (", "k {a", "k @t(", "k @t", "k a>1", "k a>(", "@t", "/// d", "\"q\""]), P::A(2, " \t\r\n,\x0b\0"), P::C(&["b", "{", "(", "\"q\"", "@u", "b>1", "// c"]), P::A(1, " \t\r\n,"), P::C(&["", "}", ")", "c"])]));
    h_doc_nested_dotted => docm::nested_dotted;
    h_doc_chains => docm::chain;
    h_doc_qu => || docm::meaning(&gen::doc(&[P::C(&["k \"", "\"", "k @t\"", "@t\"", "k (\""]), P::U0(3), P::C(&["\"", "\")"])]));
    h_doc_qpos => || docm::meaning(&gen::doc(&[P::C(&["k \"a", "k {\"", "k a>\"", "k @t\"", "@t\""]), P::C(&["\\", ""]), P::A(1, "\\\"nrtu0ax"), P::C(&["\\u00e9", "\\u{e9}", "\\\"", "\\u{10ffff}", "\\ud800", "é"]), P::A0(1, "\\\"n"), P::C(&["\"", "\" 1", "\" 1}"])]));
    h_doc_hd2 => || docm::meaning(&gen::doc(&[P::L("k <<E"), P::C(&["\n", "\r\n"]), P::A0(2, " \t"), P::C(&["E", "x", "E x", "EE", "é", "E\rx"]), P::C(&["\n", "\r\n", "\n\n", "\r\n\r\n"]), P::A0(3, " \t"), P::C(&["y\n", "E\n", "E", "\n"]), P::A0(2, " \t"), P::C(&["E", "E\nb 1", "E\r\nb 1", "Ex", "E\rx\nE"])]));
    h_doc_hdlang => || docm::meaning(&gen::doc(&[P::L("k <<E,"), P::A0(3, "a9_.-A \n,"), P::C(&["\n", "\r\n"]), P::C(&["x\n", "", "  x\n"]), P::C(&["E", "  E\n", " E"])]));
    h_doc_dup => || docm::meaning(&gen::doc(&[P::C(&["k {", "k ({", "{", "k @t{"]), key(), P::C(&[" 1, ", "\n"]), key(), P::C(&[" {}\n", ","]), key(), P::C(&["}", "})"])]));
    h_doc_dupattr => || docm::meaning(&gen::doc(&[P::C(&["k ", "k ("]), P::A(1, "ab."), P::L(">1 "), P::A(1, "ab."), P::C(&[">(2) ", ">\"2\" c>1 ", ">{a 1} "]), P::A(1, "ab."), P::C(&[">3", ">3)"])]));
    h_doc_docs => || docm::meaning(&gen::doc(&[P::C(&["", "k {", "k ({", "{", "a b\n"]), P::C(&["/// d\n", "///d\n/// e\n", "/// d\n\n", "// c\n/// d\n", "a 1 /// d\n", ""]), P::C(&["a x", "@", "b.c 2", "\"q\" {/// in\n x 1}", "a2 /// z", ""]), P::C(&["\n", "\r\n", " // c\n", ", "]), P::C(&["/// f\n", "/// f\n// c\n/// g\n", ""]), P::C(&["z 1", "z (/// s\n)", ""]), P::C(&["", "}", "\n}", "})"])]));
}
/// realistic documents that use every construct
pub const DOC1: &str = "/// doc\nserver {\n  host \"a b\" // c\n  port>80\n}\nx.y.z (1 @t{u 1} r#\"\"\"#)\nx.y.w @\n@e\"P\" v\ntext <<T\n  l\n  T\n";
pub const DOC2: &str = "{a {b {c @x/@y\"z\", d (a b>1 c>\"2\")}\r\n \"\\u{41}\\n\" é}, e @, /// d\n f.g 1\n f.h ((x) {})}\n// end\n";
const fn path() -> P<'static> {
    P::C(&["a", "b", "a.a", "a.b", "b.a", "a.a.b", "a.b.a", "\"a\"", "\"a.b\"", "@a", "@a@", "@", "@a\"b\"", "\"@a\""])
}
const fn key() -> P<'static> {
    P::C(&["a", "b", "\"a\"", "r#\"a\"#", "@a", "@b", "@", "@a@", "@a\"b\"", "@a\"c\"", "\"@a\"", "\"@\"", "\"\\u{61}\"", "a.b"])
}
const fn val() -> P<'static> {
    P::C(&[" 1\n", " {}\n", " {b 1}\n"])
}
const fn path4() -> P<'static> {
    P::C(&["a", "b", "a.a", "a.b", "a.a.b"])
}
const fn sep() -> P<'static> {
    P::C(&["\n", ", ", "\n\n\n", " // c\n"])
}
const fn item() -> P<'static> {
    P::C(&["", "a 1", "b x>1 y>(2)", "/// d\nc {}", "d {e 1, f {g 1\n}}", "h <<A\n  x\n  A"])
}
const fn ssep() -> P<'static> {
    P::C(&["", " ", "\n", " // c\n", "\n\n\n"])
}
const fn elem() -> P<'static> {
    P::C(&["", "a", "@t{b 1}", "{b 1\n}", "@u(@t{b 1\n})", "()", "{}", "{\n}", "b>1", "b>{c 1\n}", "<<A\nx\nA", "(c\n)", "/// d\ne"])
}
