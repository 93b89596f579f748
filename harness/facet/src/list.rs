vx::harnesses! {
    h_rt_strs => || rt::strs::<rt::Back>(gen::doc(&[P::U0(3)]));
    h_rt_colls => || rt::colls::<rt::Back>(gen::doc(&[P::U0(2)]));
    h_rt_ens => || rt::ens::<rt::Back>(1);
    h_rt_ens2 => || rt::ens::<rt::Back>(2);
    h_rt_none => rt::nones::<rt::Back>;
    h_rt_deep => rt::deep::<rt::Back>;
    h_rt_nums => rt::nums::<rt::Back>;
    h_rt_chars => rt::chars::<rt::Back>;
    h_rt_pays => rt::pays::<rt::Back>;
    h_rt_defs => rt::defs::<rt::Back>;
    h_rt_shapes => rt::shapes::<rt::Back>;
    h_sg_strs => || rt::strs::<rt::Conf>(gen::doc(&[P::U0(2)]));
    h_sg_colls => || rt::colls::<rt::Conf>(gen::doc(&[P::U0(1)]));
    h_sg_ens => || rt::ens::<rt::Conf>(0);
    h_sg_nones => rt::nones::<rt::Conf>;
    h_sg_deep => rt::deep::<rt::Conf>;
    h_sg_nums => rt::nums::<rt::Conf>;
    h_sg_chars => rt::chars::<rt::Conf>;
    h_sg_pays => rt::pays::<rt::Conf>;
    h_sg_defs => rt::defs::<rt::Conf>;
    h_sg_shapes => rt::shapes::<rt::Conf>;
    h_sv_leaves => sv::leaves;
    h_sv_wrap1 => sv::wrap1;
    h_sv_wrap2 => sv::wrap2;
    h_sv_wrap2b => sv::wrap2b;
    h_sv_named => sv::named;
    h_sv_named2 => sv::named2;
    h_sv_flatten => sv::flatten;
    h_sv_roots => sv::roots;
    h_sv_ints => sv::ints;
    h_sv_wide => sv::wide;
    h_sv_floats => sv::floats;
    h_sv_limits => sv::near_limits;
    h_sv_lens => sv::lens;
    h_sv_pattern => sv::pattern;
    h_sv_literal => sv::literal;
    h_sch_wraps => sch::wraps;
    h_sch_texts => sch::texts;
    h_sch_metas => sch::metas;
    h_sch_doced => sch::doced;
    h_sch_doc_text => sch::doc_text;
    h_sch_bounds => sch::bounds;
    h_sch_mutated => sch::mutated;
    h_sch_pieces => sch::pieces;
    h_sch_mutated2 => sch::mutated2;
}
