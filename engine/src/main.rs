mod exec;
mod expr;
mod llvm;
mod prog;
mod smt;
use std::fmt::Write;

pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{x:02x}"); } s }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    std::thread::Builder::new().stack_size(4 << 30).spawn(real).unwrap().join().unwrap_or_else(|_| std::process::exit(3));
}
fn real() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let num = |n: &str, d: f64| opt(n).map(|s| s.parse::<f64>().expect("number")).unwrap_or(d);
    if args[0] == "selftest" {
        let n = expr::selftest(num("--seed", 1.0) as u64 + 1, num("--n", 3000.0) as usize);
        println!("{n}");
        return;
    }
    // scx run BITCODE ENTRY --out FILE
    let p = prog::Prog::load(&args[1]);
    let mut smt = smt::Smt::new(num("--query-ms", 60000.0) as u32);
    if let Some(d) = opt("--dump") { smt.dump = Some((d, num("--dump-every", 10.0) as u64)) }
    let lim = exec::Limits {
        paths: num("--paths", 1e6) as u64, steps: num("--steps", 5e6) as u64, seconds: num("--seconds", 600.0),
        depth: num("--depth", 400.0) as usize, samples: num("--samples", 200.0) as usize, max_violations: num("--max-violations", 20.0) as usize,
        param: opt("--param").map(|s| s.parse().expect("param")).unwrap_or(0),
        linger: num("--linger", 1e9), alloc: num("--alloc", 67108864.0) as u64, expected: args.windows(2).filter(|w| w[0] == "--expected").map(|w| w[1].clone()).collect(),
    };
    let t0 = std::time::Instant::now();
    let mut e = exec::Engine::new(p, smt, lim);
    if let Err(x) = e.run(&args[2]) { eprintln!("{x}"); std::process::exit(3) }
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"symbolic_branches\":{},", js(&args[2]), e.paths, e.pruned, e.forks, e.steps, e.cond_branches);
    let _ = write!(o, "\"queries\":{},\"query_cache_hits\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_ms\":{},\"wall_s\":{:.3},\"solver\":{},", e.smt.queries, e.cache_hits, e.smt.sat, e.smt.unsat, e.smt.time.as_secs_f64(), e.smt.max_ms, t0.elapsed().as_secs_f64(), js(&format!("Z3 {}", smt::Smt::version())));
    let _ = write!(o, "\"dumped\":{},\"input_bytes\":{},\"max_path_conditions\":{},\"expressions\":{},", e.smt.dumped, e.max_inputs, e.max_conds, e.ar.nodes.len());
    let _ = write!(o, "\"incomplete\":{},", e.incomplete.as_ref().map(|s| js(s)).unwrap_or("null".into()));
    let _ = write!(o, "\"violation_paths\":{},\"violations\":[{}],", e.vio_count, e.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"at\":{},\"trace\":[{}]}}", js(&v.kind), js(&v.msg), hex(&v.input), js(&v.at), v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"covers\":{{{}}},", e.covers.iter().map(|(k, v)| format!("{}:{{\"n\":{},\"input\":\"{}\"}}", js(k), v.0, hex(&v.1))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", e.samples.iter().map(|s| format!("{{\"input\":\"{}\",\"out\":\"{}\",\"steps\":{},\"conds\":{},\"end\":{}}}", hex(&s.input), hex(&s.out), s.steps, s.conds, js(s.end))).collect::<Vec<_>>().join(","));
    let fns: Vec<String> = e.fn_hit.iter().map(|&i| e.p.funcs[i].name.to_string()).collect();
    let _ = write!(o, "\"functions\":[{}],", fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let mut lines: std::collections::BTreeMap<String, std::collections::BTreeSet<u32>> = Default::default();
    for (i, h) in e.loc_hit.iter().enumerate() { if *h { let (f, l) = &e.p.locs[i]; lines.entry(f.to_string()).or_default().insert(*l); } }
    let _ = write!(o, "\"lines\":{{{}}}}}", lines.iter().map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    match opt("--out") { Some(f) => std::fs::write(f, o).unwrap(), None => println!("{o}") }
}
