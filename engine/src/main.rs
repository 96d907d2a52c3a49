//! Symbolic executor for the LLVM IR rustc produces from /repo plus a harness crate.
mod aig;
mod exec;
mod ir;
mod mem;
mod sat;
use exec::*;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()) };
    let num = |k: &str, d: f64| -> f64 { get(k).map(|v| v.parse().unwrap()).unwrap_or(d) };
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let outp = get("--out");
    let params: Vec<u64> = get("--params").map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let seed = num("--seed", 1.0) as u32;
    let shard = get("--shard").map(|s| { let mut i = s.split('/'); (i.next().unwrap().parse().unwrap(), i.next().unwrap().parse().unwrap()) }).unwrap_or((0, 1));
    let cfg = Cfg {
        params,
        time_limit: num("--time", 600.0),
        max_steps: num("--steps", 3e9) as u64,
        max_viol: num("--max-viol", 3.0) as usize,
        witness: num("--witness", 6.0) as usize,
        shard,
        shard_depth: num("--shard-depth", 3.0) as u32,
        max_enum: num("--enum", 4096.0) as usize,
        conc_rot: !args.iter().any(|a| a == "--no-conc-rot"),
        verbose: args.iter().any(|a| a == "-v"),
        hseed: num("--hash-seed", 1.0) as u64,
    };
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = ir::Module::load(&text);
    drop(text);
    let mut pr = sat::Prover::new(seed);
    pr.verbose = cfg.verbose;
    pr.kissat_limit = num("--kissat-limit", 400.0) as u64;
    if let Some(s) = get("--scratch") {
        pr.scratch = s;
    }
    let load = t0.elapsed().as_secs_f64();
    let mut e = Engine::new(&m, pr, cfg);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match e.start_state(&entry) {
        Ok(s) => e.run_all(s),
        Err(x) => e.out.errors.push(x),
    }));
    if let Err(p) = res {
        let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
        e.out.errors.push(format!("engine panic: {}", t));
    }
    let o = &e.out;
    let st = &e.pr.st;
    let mut j = String::from("{\n");
    let mut kv = |k: &str, v: String| {
        let _ = write!(j, "{}\"{}\": {}", if j.len() > 3 { ",\n" } else { "" }, k, v);
    };
    kv("entry", js(&entry));
    kv("params", arr(&e.cfg.params));
    kv("paths", o.paths.to_string());
    kv("dead_paths", o.dead.to_string());
    kv("allowed_panics", o.panics_ok.to_string());
    kv("undecided_paths", o.limited.to_string());
    kv("forks", o.forks.to_string());
    kv("instructions", o.steps.to_string());
    kv("asserts", o.asserts.to_string());
    kv("asserts_constant", o.asserts_trivial.to_string());
    kv("asserts_proved", o.asserts_proved.to_string());
    kv("symbolic_bits", o.max_inputs.to_string());
    kv("aig_nodes", e.aig.nodes.len().to_string());
    kv("queries", (st.z3_queries + st.kissat_queries).to_string());
    kv("sat", st.z3_sat.to_string());
    kv("unsat", st.z3_unsat.to_string());
    kv("unknown_intermediate", st.z3_unknown.to_string());
    kv("kissat_queries", st.kissat_queries.to_string());
    kv("sweeps", st.sweeps.to_string());
    kv("sweep_merges", st.sweep_merges.to_string());
    kv("local_merges", st.local_merges.to_string());
    kv("largest_cone", st.biggest_cone.to_string());
    kv("solver_seconds", format!("{:.3}", st.time));
    kv("longest_query_seconds", format!("{:.3}", st.max_query));
    kv("load_seconds", format!("{:.3}", load));
    kv("total_seconds", format!("{:.3}", t0.elapsed().as_secs_f64()));
    kv("covers", format!("{{{}}}", o.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    kv("labels", format!("{{{}}}", o.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    kv("known", format!("{{{}}}", o.known.iter().map(|(k, v)| format!("{}: {{\"count\": {}, \"events\": {}}}", js(k), v.0, arr(&v.1))).collect::<Vec<_>>().join(", ")));
    kv("violations", format!("[{}]", o.violations.iter().map(|v| format!("{{\"what\": {}, \"events\": {}}}", js(&v.what), arr(&v.events))).collect::<Vec<_>>().join(", ")));
    kv("witnesses", format!("[{}]", o.witnesses.iter().map(|(a, b, p)| format!("{{\"events\": {}, \"observed\": {}, \"panic\": {}}}", arr(a), arr(b), p)).collect::<Vec<_>>().join(", ")));
    kv("errors", format!("[{}]", o.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")));
    kv("incomplete", o.incomplete.as_ref().map(|x| js(x)).unwrap_or("null".into()));
    kv("functions", format!("[{}]", e.called.iter().enumerate().filter(|(_, c)| **c).map(|(f, _)| js(&m.funcs[f].pretty)).collect::<Vec<_>>().join(", ")));
    j.push_str("\n}\n");
    match outp {
        Some(p) => std::fs::write(p, j).expect("write result"),
        None => print!("{}", j),
    }
}
