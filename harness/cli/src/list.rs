const IN: &[&str] = &["a", "é", "1", "\"𝄞\"", "@t", "@", "r#\"x\ny\"#", "// é\n", "/// d\n", "{", "}", "(", ")", " ", "\n", "a>b", "<<H\nx\n\ny\n H\n", ",", ".", "@t(a)", "@t{a b}", "@t\"\\n\\\"\" 1\n", "@schema x\n"];
const B1: &str = "é (a // ü\n \"𝄞\" @b{c (d)}\n (e))\nx.y r#\"𝄞\nz\"# // b\nx.z.v 2\nw a>b c>(d)\n@ 1\n";
const B2: &str = "/// ü\n@schema \"𝄞\"\ns {\n  t <<H,x\n  𝄞\n  ü\n  H\n  u @v\"w\"\n  @ @\n @t x}\n@t\"y\" {a 1}\n";
const B3: &str = "@schema {id a, cli b}\nx 1\n@schema z\n";
fn two(base: &str) -> String {
    gn::mutate(base, 1, &[P::C(IN), P::C(IN)])
}
fn one(base: &str) -> String {
    gn::mutate(base, 2, &[P::C(IN)])
}
const TYPES: &[&str] = &[
    "@string", "@int", "@any", "@unit", "@string{maxLen 1}", "@int{max 2}", "@optional(@string)", "@optional(@int)", "@default(x @string)", "@deprecated(\"r\" @string)",
    "@seq(@string)", "@seq(@int)", "@object{b @int}", "@object{b @int, c @optional(@int)}", "@object{b @string}", "@object{@string @int}", "@object{b @int, @string @int}",
    "@enum{x @unit}", "@enum{x @unit, y @unit}", "@enum{x @int}", "@map(@int)", "@union(@int @unit)", "@tuple(@int @int)", "@T", "@U", "@one-of(@string (a xx))",
];
fn ty() -> &'static str {
    TYPES[vx::choose(TYPES.len() as u32) as usize]
}
fn fields() -> Vec<String> {
    // one text of two characters is any
    let mut s = vec![b'a', b' '];
    vx::one_of(b"x1-3", &mut s);
    vx::one_of(b"x1 2", &mut s);
    let mut v: Vec<String> = ["", "a @", "a @x", "a @y", "a @x(1)", "a ()", "a (1)", "a (x)", "a (1 2)", "a {}", "a {b 1}", "a {b x}", "a {b 1, c 1}", "a {b 1, c x}", "z 1", "a 1, z x"].iter().map(|s| s.to_string()).collect();
    v.push(gn::st(s));
    v
}
vx::harnesses! {
    h_json_s5 => || conv::json(gn::doc(&[P::A0(5, "a@{}()\",\n .>")]));
    h_json_one1 => || conv::json(one(B1));
    h_json_one2 => || conv::json(one(B2));
    h_json_two1 => || conv::json(two(B1));
    h_json_two2 => || conv::json(two(B2));
    h_wasm_s5 => || conv::browser(gn::doc(&[P::A0(5, "a@{}()\"1\n .-")]));
    h_wasm_one1 => || conv::browser(one(B1));
    h_wasm_one2 => || conv::browser(one(B2));
    h_scalar => || conv::scalar(gn::doc(&[P::C(&["", "-", "+", "1", "nu", "tru", "fals", "in", "Na", "0."]), P::A0(2, "059+-.eEfN_xl")]));
    h_scalar_big => || conv::scalar(gn::doc(&[P::C(&["", "-", "+", "0"]), P::C(&["922337203685477580", "1844674407370955161", "99999999999999999999", "1e30"]), P::A0(2, "0156789.")]));
    h_back_tree => || conv::back({ let w = conv::words(); serde_json::json!({ "k": conv::node(2, &w[3..6]), "l": 1 }) });
    h_back_word => || conv::back({ let w = conv::words(); serde_json::json!({ "k": conv::node(1, &w) }) });
    h_back_root => || conv::back(conv::node(2, &conv::words()[1..4]));
    h_back_text => || conv::back({ let w = [gn::doc(&[P::U0(2)])]; let x = gn::doc(&[P::U0(2)]); vx::assume(w[0] != "z"); conv::obj2(w[0].clone(), x) });
    h_col_s5 => || conv::colours(gn::doc(&[P::A0(5, "a@{}()\"/\n \t<>.,")]));
    h_col_free => || { let s = gn::doc(&[P::U0(3)]); vx::assume(!s.as_bytes().contains(&0x1b)); conv::colours(s) };
    h_col_one1 => || conv::colours(one(B1));
    h_col_one2 => || conv::colours(one(B2));
    h_col_two1 => || conv::colours(two(B1));
    h_decl_one2 => || conv::declared(one(B2));
    h_decl_one3 => || conv::declared(one(B3));
    h_decl_two3 => || conv::declared(two(B3));
    h_diff_field => || { let (a, b) = (ty(), ty()); diff::compare(format!("@ @object{{a {a}}}, T @int, U @string"), format!("@ @object{{a {b}}}, T @int, U @string"), &fields()) };
    h_diff_wrap => || { let (a, b) = (wty(), wty()); diff::compare(format!("@ @object{{a {a}}}, T @int, U @string"), format!("@ @object{{a {b}}}, T @int, U @string"), &docs(&["", "a @", "a 1", "a x", "a (1)", "a (x)", "a (@)", "a ((1))", "a {b 1}", "a {b x}", "a {b @}", "a {}", "a @x", "a @x(1)", "a @x@", "a {b 1, c 1}", "a {b (1)}"])) };
    h_diff_named => || { let (a, b, r, q) = (sty(), sty(), root(), root()); diff::compare(format!("@ {r}, T {a}, U @string"), format!("@ {q}, T {b}, U @string"), &docs(&["", "a @", "a 1", "a x", "a {b 1}", "a {b x}", "a {a 1}", "a {}", "b 1", "a 1, b 1", "a 1, b x", "b @", "a @x", "b x, c 1"])) };
    h_diff_two => || { let (a, b, c, d) = (entry2(), entry2(), entry2(), entry2()); let dup = |x: &str, y: &str| !x.is_empty() && x.bytes().next() == y.bytes().next(); vx::assume(!(dup(a, b) || dup(c, d)) && (a != "" || b == "") && (c != "" || d == "")); diff::compare(format!("@ @object{{{}}}, T @int", [a, b].join(",").trim_matches(',')), format!("@ @object{{{}}}, T @int", [c, d].join(",").trim_matches(',')), &docs(&["", "a 1", "a x", "b 1", "b x", "a 1, b 1", "a 1, b x", "a x, b 1", "a x, b x", "c 1", "a 1, c 1", "a 1, c x", "a 1, b 1, c 1", "b 1, c 1", "a @", "a @, b 1"])) };
    h_wasm_two1 => || conv::browser(two(B1));
    h_wasm_two2 => || conv::browser(two(B2));
    h_diff_wrap2 => || { let o = || WO[vx::choose(WO.len() as u32) as usize]; let p = o(); let q = p; let (a, b) = (wty(), wty()); diff::compare(format!("@ @object{{a {}{a}{}}}, T @int, U @string", p.0, p.1), format!("@ @object{{a {}{b}{}}}, T @int, U @string", q.0, q.1), &docs(&["", "a @", "a 1", "a x", "a (1)", "a (@)", "a ((1))", "a {b 1}", "a {b @}", "a {}", "a @x", "a @x@", "a @x{b 1}", "a @x(1)", "a {b 1, c 1}", "a {b (1)}", "a {b {b 1}}", "a ({b 1})", "a (@x)", "a {b @x}"])) };
    h_ver8 => || diff::version(gn::doc(&[P::A0(8, "019.-+")]));
    h_ver => || diff::version(gn::doc(&[P::A0(6, "0129.-+")]));
}

const WI: &[&str] = &["@string", "@int", "@unit", "@int{max 1}", "@optional(@int)", "@enum{x @unit}", "@enum{x @int}", "@object{b @int}"];
const WO: &[(&str, &str)] = &[("", ""), ("@optional(", ")"), ("@default(1 ", ")"), ("@deprecated(\"r\" ", ")"), ("@seq(", ")"), ("@object{b ", "}"), ("@enum{x ", "}"), ("@map(", ")"), ("@optional(@deprecated(\"r\" ", "))")];
fn wty() -> String {
    let (a, b) = WO[vx::choose(WO.len() as u32) as usize];
    format!("{a}{}{b}", WI[vx::choose(WI.len() as u32) as usize])
}
fn sty() -> &'static str {
    ["@int", "@string", "@object{b @int}", "@object{b @optional(@int)}", "@object{b @U}", "@U", "@object{a @T}"][vx::choose(7) as usize]
}
fn root() -> &'static str {
    ["@object{a @T}", "@object{a @optional(@T)}", "@object{a @optional(@T), b @optional(@T)}", "@object{a @T, b @U}", "@object{@string @T}", "@map(@T)", "@T"][vx::choose(7) as usize]
}
fn entry2() -> &'static str {
    ["", "a @int", "a @string", "a @optional(@int)", "b @int", "b @optional(@string)", "b @default(x @any)", "c @deprecated(\"r\" @int)", "@string @int", "@string @string", "@T @int"][vx::choose(11) as usize]
}
fn docs(d: &[&str]) -> Vec<String> {
    d.iter().map(|s| s.to_string()).collect()
}
