mod exec;
mod expr;
mod files;
mod ir;
mod solver;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep expression recursion
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<ir::Unsupported>().is_none() {
            eprintln!("engine panic: {i}");
        }
    }));
    ir::load(&pos[0]);
    let entry = pos[1].clone();
    let num = |k: &str, d: f64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let shard = opt.get("shard").map(|s| {
        let (a, b) = s.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    });
    let mut ex = exec::Exec {
        solver: solver::Solver::new(),
        work: vec![],
        rep: exec::Report::default(),
        globals: HashMap::new(),
        gindex: BTreeMap::new(),
        start: std::time::Instant::now(),
        time_limit: num("time", 600.0),
        step_limit: num("steps", 20_000_000.0) as u64,
        enum_limit: num("enum", 300.0) as usize,
        shard,
        max_traces: num("traces", 8.0) as usize,
        max_candidates: num("candidates", 4.0) as usize,
        prec_timeout: num("fptime", 60_000.0) as u64,
        alloc_limit: num("alloc", 256e6) as u64,
        rng: num("seed", 1.0) as u64 * 2654435761 + 88172645463325252,
        stop: false,
        seen_sites: HashMap::new(),
        profile: opt.contains_key("profile"),
        fork_sites: HashMap::new(),
        query_sites: HashMap::new(),
        hang_is_violation: !opt.contains_key("no-hang"),
        wide: HashMap::new(),
    };
    ex.solver.timeout_ms = num("smt", 30_000.0) as u64;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run(&entry)));
    if r.is_err() {
        ex.rep.inconclusive.push("engine: could not start".into());
    }
    let rep = &ex.rep;
    if ex.profile {
        let mut v: Vec<_> = ex.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (s, n) in v.iter().take(30) {
            eprintln!("{n:8} {s}");
        }
        let mut v: Vec<_> = ex.query_sites.iter().collect();
        v.sort_by(|a, b| b.1 .1.total_cmp(&a.1 .1));
        for (s, n) in v.iter().take(30) {
            eprintln!("Q {:8} {:8.2}s {s}", n.0, n.1);
        }
    }
    // source functions executed
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    for f in ir::module().parsed_funcs() {
        let cov = f.covered.borrow();
        let mut scopes: BTreeSet<u32> = BTreeSet::new();
        for (b, blk) in f.blocks.iter().enumerate() {
            if cov[b] > 0 {
                scopes.extend(blk.insts.iter().map(|i| i.dbg));
            }
        }
        for d in scopes {
            for (file, _, func) in ir::locate(d) {
                if !file.contains("/rustlib/") && !file.contains("/rustc/") && !file.contains("/registry/") && !func.is_empty() {
                    let short = file.split("/@/").next().unwrap_or("").to_string();
                    let s = match short.find("/src/") {
                        Some(i) => short[i + 1..].to_string(),
                        None => short,
                    };
                    if !short_is_harness(&file) {
                        funcs.insert(format!("{s}: {func}"));
                    }
                }
            }
        }
    }
    let s = &ex.solver.stats;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"harness\":{},\"paths\":{},\"steps\":{},\"forks\":{},\"asserts_proved\":{},\"asserts_trivial\":{},\"assume_cut\":{},\"infeasible\":{},\"sweeps\":{},\"max_path_steps\":{},",
        js(&entry), rep.paths, rep.steps, rep.forks, rep.asserts_proved, rep.asserts_trivial, rep.assume_cut, rep.infeasible, rep.sweeps, rep.max_path_steps
    );
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"precise_fp\":{},\"cvc5\":{},\"solver_ms\":{:.1},\"max_query_ms\":{:.1},\"wall_s\":{:.2},",
        s.queries, s.sat, s.unsat, s.unknown, s.cached, s.precise_fp, s.cvc5, s.time_ms, s.max_ms, ex.start.elapsed().as_secs_f64()
    );
    let _ = write!(o, "\"reached\":{{{}}},", rep.reached.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"inconclusive\":[{}],",
        rep.inconclusive.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
    );
    let nums = |v: &[u64]| v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",");
    let _ = write!(
        o,
        "\"candidates\":[{}],",
        rep.candidates
            .iter()
            .map(|c| format!(
                "{{\"what\":{},\"loc\":{},\"status\":{},\"inputs\":[{}]}}",
                js(&c.what),
                js(&c.loc),
                js(&c.status),
                nums(&c.inputs)
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        o,
        "\"traces\":[{}],",
        rep.traces.iter().map(|(a, b)| format!("{{\"inputs\":[{}],\"observed\":[{}]}}", nums(a), nums(b))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(o, "\"functions\":[{}]}}", funcs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    println!("{o}");
}

fn short_is_harness(f: &str) -> bool {
    f.contains("/harness/") || f.contains("/h2/")
}
