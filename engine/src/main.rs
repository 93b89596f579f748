mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::*;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut ll = String::new();
    let mut out = String::new();
    let mut entries: Vec<String> = vec![];
    let mut threads = 8usize;
    let mut max_steps = 30_000_000u64;
    let mut time = 600u64;
    let mut sample_every = 997u64;
    let mut max_samples = 60usize;
    let mut max_failures = 12usize;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--ll" => ll = it.next().unwrap(),
            "--out" => out = it.next().unwrap(),
            // NAME or NAME@SECONDS (a time cap of its own)
            "--entry" => entries.push(it.next().unwrap()),
            "--threads" => threads = it.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = it.next().unwrap().parse().unwrap(),
            "--time" => time = it.next().unwrap().parse().unwrap(),
            "--sample-every" => sample_every = it.next().unwrap().parse().unwrap(),
            "--max-samples" => max_samples = it.next().unwrap().parse().unwrap(),
            "--max-failures" => max_failures = it.next().unwrap().parse().unwrap(),
            x => panic!("arg {x}"),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = ir::parse(&text);
    drop(text);
    let prog = Prog::new(m);
    let parse_s = t0.elapsed().as_secs_f64();
    eprintln!("[vsx] parsed {} functions, {} globals in {:.1}s", prog.m.funcs.len(), prog.m.globals.len(), parse_s);
    let mut res = String::from("{\"results\":[");
    let deadline = Instant::now() + Duration::from_secs(time);
    for (ei, e) in entries.iter().enumerate() {
        let (e, cap) = match e.split_once('@') {
            Some((n, c)) => (n, Some(c.parse::<u64>().unwrap())),
            None => (e.as_str(), None),
        };
        let deadline = match cap {
            Some(c) => deadline.min(Instant::now() + Duration::from_secs(c)),
            None => deadline,
        };
        let fid = match prog.m.fmap.get(e) {
            Some(f) => *f,
            None => {
                eprintln!("[vsx] no entry {e}");
                std::process::exit(3);
            }
        };
        let cfg = Cfg { max_steps, threads, deadline, sample_every, max_samples, trace: false, max_failures };
        let sh = Shared {
            q: Mutex::new(vec![vec![]]),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            timed_out: AtomicBool::new(false),
            paths: AtomicU64::new(0),
        };
        let t1 = Instant::now();
        let mut all: Vec<Stats> = vec![];
        std::thread::scope(|s| {
            let mut hs = vec![];
            for _ in 0..threads {
                let (prog, cfg, sh) = (&prog, &cfg, &sh);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(s, move || {
                            let mut w = Worker::new(prog, cfg, sh);
                            w.work(fid);
                            std::mem::take(&mut w.stats)
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                match h.join() {
                    Ok(x) => all.push(x),
                    Err(_) => {
                        eprintln!("[vsx] worker panicked");
                        std::process::exit(4);
                    }
                }
            }
        });
        let wall = t1.elapsed().as_secs_f64();
        let mut t = Stats::default();
        t.funcs = vec![false; prog.m.funcs.len()];
        t.covers = vec![0; 64];
        let mut fails: Vec<Failure> = vec![];
        for s in all {
            t.paths += s.paths;
            t.assume += s.assume;
            t.relational += s.relational;
            t.steps += s.steps;
            t.forks += s.forks;
            t.dq += s.dq;
            t.iq += s.iq;
            t.zq += s.zq;
            t.zns += s.zns;
            t.zunk += s.zunk;
            t.mass += s.mass;
            t.mass_rel += s.mass_rel;
            t.maxsteps = t.maxsteps.max(s.maxsteps);
            t.maxdec = t.maxdec.max(s.maxdec);
            t.nvars = t.nvars.max(s.nvars);
            for i in 0..64 {
                t.covers[i] += s.covers.get(i).copied().unwrap_or(0);
            }
            for (u, n) in s.unsupported {
                if let Some(x) = t.unsupported.iter_mut().find(|x| x.0 == u) {
                    x.1 += n;
                } else {
                    t.unsupported.push((u, n));
                }
            }
            for k in s.known {
                match t.known.iter().position(|x| x.0 == k.0) {
                    Some(i) => t.known[i].1 += k.1,
                    None => t.known.push(k),
                }
            }
            t.budget.extend(s.budget);
            fails.extend(s.failures);
            t.samples.extend(s.samples);
            for (i, b) in s.funcs.iter().enumerate() {
                if *b {
                    t.funcs[i] = true;
                }
            }
        }
        fails.sort_by(|a, b| (&a.kind, &a.loc, &a.msg, &a.inputs).cmp(&(&b.kind, &b.loc, &b.msg, &b.inputs)));
        let timed = sh.timed_out.load(Ordering::SeqCst);
        eprintln!(
            "[vsx] {e}: {} paths, {} assumed away, {} relational, {} steps, z3 {} queries {:.2}s, wall {:.1}s, mass {:.9}+{:.9}r, fails {}, unsupported {}, budget {}{}",
            t.paths, t.assume, t.relational, t.steps, t.zq, t.zns as f64 / 1e9, wall, t.mass, t.mass_rel, fails.len(), t.unsupported.len(), t.budget.len(),
            if timed { " TIMED OUT" } else { "" }
        );
        for f in fails.iter().take(12) {
            eprintln!("[vsx]   FAIL {} {} {} x{} {:?} <- {}", f.kind, f.loc, f.msg, f.count, f.inputs, f.stack.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
        }
        for u in t.unsupported.iter().take(10) {
            eprintln!("[vsx]   UNSUPPORTED {} x{}", u.0, u.1);
        }
        let mut fnames: Vec<String> = prog
            .m
            .funcs
            .iter()
            .enumerate()
            .filter(|(i, _)| t.funcs[*i])
            .map(|(_, f)| ir::pretty(&f.name))
            .filter(|n| n.contains("styx"))
            .collect();
        fnames.sort();
        fnames.dedup();
        let nfun = t.funcs.iter().filter(|b| **b).count();
        if ei > 0 {
            res.push(',');
        }
        let _ = write!(
            res,
            "{{\"entry\":{},\"paths\":{},\"assume\":{},\"relational\":{},\"steps\":{},\"forks\":{},\"domain_queries\":{},\"interval_queries\":{},\"z3_queries\":{},\"z3_seconds\":{:.3},\"z3_unknown\":{},\"mass\":{:.12},\"mass_rel\":{:.12},\"max_steps\":{},\"max_decisions\":{},\"vars\":{},\"wall\":{:.3},\"timed_out\":{},\"functions_total\":{},\"covers\":{},\"functions\":[{}],\"unsupported\":[{}],\"budget\":[{}],\"known\":[{}],\"failures\":[{}],\"samples\":[{}]}}",
            js(e), t.paths, t.assume, t.relational, t.steps, t.forks, t.dq, t.iq, t.zq, t.zns as f64 / 1e9, t.zunk, t.mass, t.mass_rel, t.maxsteps, t.maxdec, t.nvars, wall, timed, nfun,
            nums(&t.covers),
            fnames.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
            t.unsupported.iter().map(|(s, n)| format!("[{},{}]", js(s), n)).collect::<Vec<_>>().join(","),
            t.budget.iter().map(|b| nums(b)).collect::<Vec<_>>().join(","),
            t.known.iter().map(|k| format!("{{\"id\":{},\"paths\":{},\"inputs\":{}}}", js(&k.0), k.1, nums(&k.2))).collect::<Vec<_>>().join(","),
            fails.iter().map(|f| format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"inputs\":{},\"stack\":[{}]}}", js(&f.kind), js(&f.msg), js(&f.loc), nums(&f.inputs), f.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","),
            t.samples.iter().map(|s| format!("{{\"inputs\":{},\"obs\":\"{:016x}\"}}", nums(&s.inputs), s.obs)).collect::<Vec<_>>().join(",")
        );
    }
    let _ = write!(res, "],\"parse_s\":{:.3}}}", parse_s);
    if !out.is_empty() {
        std::fs::write(out, res).unwrap();
    } else {
        println!("{res}");
    }
}
