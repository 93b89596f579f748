const SA: &str = "a@{}()\",=> \n/\\.<#r";
const DOC: &str = "é {a (x \"ü\" @t{k 1}), b>1}\r\nb.c 2\nb.d <<E\n  l\n  E\n/// d\n@t z\n\"a\\n\" r#\"r\"#\n";
const BAD: &str = "é {a (x ü) a 1}\r\né \"\\q\"\nb.c 2\nc 3\nb.d 4\nc.e (1,2) z\n";
const VAL: &str = "n 1\ns \"éé\"\nq (1 2)\nm {a 1, ü 2}\no {k 3}\ne @w{z 4}\nx 5\nd é\nt (6 b)\nl p\n";
vx::harnesses! {
    h_err_u3 => || err::places(&gen::doc(&[P::U0(3)]));
    h_err_s5 => || err::places(&gen::doc(&[P::A0(5, SA)]));
    h_err_mut1 => || err::places(&gen::mutate(DOC, 1, &[P::A0(2, SA)]));
    h_err_mut2 => || err::places(&gen::mutate(BAD, 1, &[P::A0(1, SA)]));
    h_ren_u2 => || err::rendering(&gen::doc(&[P::U0(2)]));
    h_ren_s3 => || err::rendering(&gen::doc(&[P::A0(3, SA)]));
    h_ren_m1 => || err::rendering(&gen::mutate(DOC, 1, &[P::A0(1, "a@{\",\\/\n")]));
    h_ren_m2 => || err::rendering(&gen::mutate(BAD, 0, &[P::C(&["", "\n", "é", "\u{1F600}", "\t", "\"", "// "])]));
    h_ren_u => || err::rendering(&gen::doc(&[P::C(&["é é ", "\u{1F600} \"\\", "a (ü,", "é 1\r\né 2 ", "// é\n{a.b 1}\u{2028}"]), P::U0(2), P::C(&["", " z", "\n@1"])]));
    h_val_m => || de::validation(|| gen::mutate(VAL, 1, &[P::A0(1, SA)]), false);
    h_val_r => || de::validation(|| gen::mutate(VAL, 1, &[P::C(&["", "é", "1", " ", "@"])]), true);
    h_de_s4 => || de::reading(&gen::doc(&[P::L("n "), P::A0(3, SA)]));
    h_de_m => || de::reading(&gen::mutate("// é\ns é\nn 1\nq (true false)\no {z 3}\n", 1, &[P::C(&["", "é", "1", " ", "@", "\n", "{", "x 1\n"])]));
}
