const UNI: &[&str] = &["", "a", "é", "€", "𝄞", " ", "\n", "\r\n", "\u{3000}"];
fn uni(n: usize) -> String {
    let v: Vec<P> = (0..n).map(|_| P::C(UNI)).collect();
    gen::doc(&v)
}
fn nolone(s: String) -> String {
    let b = s.as_bytes();
    for i in 0..b.len() {
        vx::assume(b[i] != b'\r' || (i + 1 < b.len() && b[i + 1] == b'\n'));
    }
    s
}
const ST: &str = "a@{}()\"/\n \t<>.,";
const IN: &[&str] = &["a", "é", "𝄞", "\"𝄞\"", "@t", "@", "r#\"x\ny\"#", "// é\n", "/// d\r\n", "{", "}", "(", ")", " ", "\n", "\r\n", "a>b", "<<H\nx\n\ny\n H", ",", ".", "@t(a)", "@t{a b}"];
const B1: &str = "é (a // ü\n \"𝄞\" @b{c (d)} /// 𝄞\n (e))\nx.y r#\"𝄞\nz\"# // b\r\nw a>b c>(d)\n";
const B2: &str = "/// ü\r\n@schema \"𝄞\"\r\ns {\r\n  t <<H,x\n  𝄞\n  ü\n  H\r\n  u @v\"w\"\r\n}\r\n";
const B3: &str = "a {\n  // x\n  b {}\n  c {d 1, e 2} // y\n}\nf.g.h @t{i 1}\nf.g.j {\n}\n/// z\n@ {k 1}\n";
const B4: &str = "{\n a {b 1}, c @t{}}\n// x";
const B5: &str = "𝄞 {ü @t{b 1\nc (2)}}\n@schema x\n@schema {id y}\na.b.c 1\na.b.𝄞 2\n";
/// up to one character removed, up to two of the pieces inserted
fn two(base: &str) -> String {
    nolone(gen::mutate(base, 1, &[P::C(IN), P::C(IN)]))
}
/// up to two characters removed, a piece inserted
fn one(base: &str) -> String {
    nolone(gen::mutate(base, 2, &[P::C(IN)]))
}
/// a piece inserted
fn ins(base: &str) -> String {
    nolone(gen::mutate(base, 0, &[P::C(IN)]))
}
/// any characters inserted
fn any(base: &str) -> String {
    nolone(gen::mutate(base, 1, &[P::U0(2)]))
}
const TYPES: &[&str] = &["@string", "@int", "@float", "@bool", "@unit", "@seq(@int)", "@map(@string @int)", "@object{a @optional(@int)}", "@enum{a @unit}", "@union(@int @string)", "@tuple(@int @seq(@string))", "@optional(@float)", "@default(\"x y\" @string)", "@default((1) @seq(@int))", "@one-of(@string (\"a b\" c))", "@any", "@deprecated(\"why\" @bool)"];
const SE: &str = "a@{}()\",/\n .>";
/// types within types
fn nested(fuel: u32) -> String {
    let mut o = String::new();
    if fuel == 0 || vx::choose(2) == 0 {
        o.push_str(TYPES[vx::choose(TYPES.len() as u32) as usize]);
        return o;
    }
    let (a, z) = [
        ("@seq(", ")"), ("@tuple(@int ", ")"), ("@tuple(", " @int @bool)"), ("@tuple(", ")"), ("@optional(", ")"), ("@map(@string ", ")"), ("@union(", " @int)"), ("@union(@bool ", ")"),
        ("@object{a @optional(", ")}"), ("@object{\"x y\" @default(1 ", "), b @optional(@int)}"), ("@object{b @optional(@bool), @string ", "}"), ("@default((1 2 3) @union(@seq(@int) ", "))"), ("@default(\"\" @union(@string ", "))"), ("@deprecated(\"é\" ", ")"), ("@one-of(@union(@string ", ") (a b))"), ("@one-of(@union(@string ", ") (\"\" 1))"),
    ][vx::choose(16) as usize];
    o.push_str(a);
    o.push_str(&nested(fuel - 1));
    o.push_str(z);
    o
}
vx::harnesses! {
    h_pos_free => || pos::to_position(nolone(gen::doc(&[P::U0(4)])));
    h_pos_free6 => || pos::to_position(nolone(gen::doc(&[P::U0(6)])));
    h_pos_uni => || pos::to_position(uni(3));
    h_pos_uni5 => || pos::to_position(uni(5));
    h_off_free => || pos::to_offset(nolone(gen::doc(&[P::U0(4)])));
    h_off_uni => || pos::to_offset(uni(4));
    h_pos_any => || pos::any_offset(nolone(gen::doc(&[P::U0(4)])));
    h_word_free => || pos::word(nolone(gen::doc(&[P::U0(4)])));
    h_word_uni => || pos::word(uni(4));
    h_hl_free => || pos::highlight(nolone(gen::doc(&[P::U0(3)])));
    h_hl_s4 => || pos::highlight(gen::doc(&[P::A0(4, ST)]));
    h_hl_s5 => || pos::highlight(gen::doc(&[P::A0(5, ST)]));
    h_hl_one1 => || pos::highlight(one(B1));
    h_hl_one2 => || pos::highlight(one(B2));
    h_hl_any1 => || pos::highlight(any(B1));
    h_hl_any2 => || pos::highlight(any(B2));
    h_hl_two1 => || pos::highlight(two(B1));
    h_hl_two2 => || pos::highlight(two(B2));
    h_out_s5 => || pos::outline(gen::doc(&[P::A0(5, "a.1@{}(\"\n ")]));
    h_out_decl => || pos::outline(gen::doc(&[
        P::C(&["", "k ", "@schema", "@t ", "schema ", "\"@schema\" ", "k.l ", "s {@schema q}\n", "/// @schema z\n"]),
        P::C(&["", "@schema", "v", "@schema\"x\"", "@s@schema", "(@schema q)", "{@schema q}", "@schema{a 1}"]),
        P::A(1, "\n ,>"),
        P::C(&["@schema a.styx", "@schema", "@schema {id y}", "@schema\"a\"", "@schema@", "@schema (é)"]),
        P::C(&["", "\nk @schema\n", "\n@schema2 x", ", j @"]),
    ]));
    h_out_one1 => || pos::outline(one(B1));
    h_out_one2 => || pos::outline(one(B2));
    h_out_one5 => || pos::outline(one(B5));
    h_out_any5 => || pos::outline(any(B5));
    h_fmte_s4 => || pos::format(gen::doc(&[P::A0(4, ST)]));
    h_fmte_one1 => || pos::format(one(B1));
    h_fmte_one2 => || pos::format(one(B2));
    h_fill_s4 => || edit::fill(gen::doc(&[P::A0(4, SE)]), true);
    h_fill_s5 => || edit::fill(gen::doc(&[P::A0(5, SE)]), true);
    h_fill_ins1 => || edit::fill(ins(B1), false);
    h_fill_ins2 => || edit::fill(ins(B2), false);
    h_fill_any3 => || edit::fill(any(B3), false);
    h_fill_ins3 => || edit::fill(ins(B3), false);
    h_fill_ins4 => || edit::fill(ins(B4), false);
    h_fill_one3 => || edit::fill(one(B3), false);
    h_fill_one4 => || edit::fill(one(B4), false);
    h_line_s5 => || edit::newline(gen::doc(&[P::A0(5, "a{(\"r#\n,")]));
    h_line_ins1 => || edit::newline(ins(B1));
    h_line_ins2 => || edit::newline(ins(B2));
    h_line_ins3 => || edit::newline(ins(B3));
    h_line_one1 => || edit::newline(one(B1));
    h_line_one2 => || edit::newline(one(B2));
    h_nest_s5 => || edit::nesting(gen::doc(&[P::A0(5, "a{}() \n")]));
    h_nest_s7 => || edit::nesting(gen::doc(&[P::A0(7, "a{}() \n")]));
    h_nest_ins3 => || edit::nesting(ins(B3));
    h_spell_key => || edit::key(gen::doc(&[P::U0(3)]));
    h_spell_key4 => || edit::key(gen::doc(&[P::U0(4)]));
    h_spell_lit => || edit::literal(gen::doc(&[P::U0(3)]));
    h_spell_type => || edit::conforms(nested(2));
}
