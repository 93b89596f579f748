const AL: &str = "01a@xy\"\\(){}>,. \n-t";
vx::harnesses! {
    h_rd_s4 => || rd::any(&[P::L("a "), P::A0(4, AL)], 1);
    h_rf_s3 => || rd::any(&[P::L("a "), P::A0(3, AL)], 2);
    h_rd_empty => || rd::any(&[P::C(&["", "{", "// a"]), P::A0(2, " \n/}")], 3);
    h_rd_mut => || rd::near(1, 1);
    h_rd_mut2 => || rd::near(2, 1);
    h_rf_s4 => || rd::any(&[P::L("a "), P::A0(4, AL)], 2);
    h_rf_mut2 => || rd::near(2, 2);
    h_rf_mut => || rd::near(1, 2);
    h_sd_strs => || rt::strs::<ser::Cross>(gen::doc(&[P::U0(3)]));
    h_sd_colls => || rt::colls::<ser::Cross>(gen::doc(&[P::U0(2)]));
    h_sd_ens => || rt::ens::<ser::Cross>(1);
    h_sd_nones => rt::nones::<ser::Cross>;
    h_sd_deep => rt::deep::<ser::Cross>;
    h_sd_nums => rt::nums::<ser::Cross>;
    h_sd_chars => rt::chars::<ser::Cross>;
    h_sd_pays => rt::pays::<ser::Cross>;
    h_sd_defs => rt::defs::<ser::Cross>;
    h_sd_shapes => rt::shapes::<ser::Cross>;
}
