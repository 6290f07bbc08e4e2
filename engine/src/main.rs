mod exec;
mod ir;
mod solver;
mod term;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn rec(p: &exec::PathRec) -> String {
    format!("{{\"outcome\":{},\"detail\":{},\"bytes\":\"{}\",\"obs\":[{}],\"reach\":{:?},\"steps\":{},\"uncertain\":{}}}", esc(&p.outcome), esc(&p.detail), hex(&p.bytes), p.obs.iter().map(|o| format!("\"{}\"", hex(o))).collect::<Vec<_>>().join(","), p.reach, p.steps, p.uncertain)
}

fn main() {
    // big stack: term traversals and tree building recurse
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let av: Vec<String> = std::env::args().collect();
    let get = |k: &str| av.iter().position(|x| x == k).and_then(|i| av.get(i + 1)).cloned();
    if av.get(1).map(|x| x.as_str()) == Some("selftest") {
        let n = term::selftest(get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1), 3000);
        println!("selftest ok: {} terms", n);
        return;
    }
    let irp = get("--ir").expect("--ir");
    let entry = get("--entry").expect("--entry");
    let args: Vec<u64> = get("--args").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let num = |k: &str, d: u64| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(num("--timeout", 300));
    let m = ir::Module::load(&irp);
    let sv = solver::Solver::new(num("--soft-ms", 1500), num("--hard-s", 120), deadline);
    let cfg = exec::Cfg { max_depth: num("--max-depth", 300) as usize, max_steps: num("--max-steps", 200_000_000), max_paths: num("--max-paths", 200_000) as usize, max_viol: num("--max-viol", 20) as usize, deadline, keep_paths: num("--keep", 200) as usize, trace: false };
    let mut e = exec::Exec::new(m, sv, cfg);
    e.run(&entry, &args);
    let st = &e.sv.stats;
    let mut sites: Vec<_> = e.fork_sites.iter().collect();
    sites.sort_by(|a, b| b.1.cmp(a.1));
    let mut o = String::from("{\n");
    o.push_str(&format!("\"entry\":{},\"args\":{:?},\n", esc(&entry), args));
    o.push_str(&format!("\"complete\":{},\"paths\":{},\"steps\":{},\"forks\":{},\"terms\":{},\"max_call_depth\":{},\n", e.incomplete.is_empty(), e.npaths, e.total_steps, e.total_forks, term::st().nodes.len(), e.maxdepth_seen));
    o.push_str(&format!("\"incomplete\":{{{}}},\n", e.incomplete.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"outcomes\":{{{}}},\n", e.outcomes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"checks\":{{{}}},\"checks_symbolic\":{},\n", e.checks.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), e.checks_symbolic));
    o.push_str(&format!("\"reached\":{{{}}},\n", e.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"solver\":{{\"queries\":{},\"cache_hits\":{},\"trivial\":{},\"rewritten\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"hard\":{},\"seconds\":{:.3},\"max_seconds\":{:.3},\"lemmas\":{},\"by\":{{{}}}}},\n", st.queries, st.cache_hits, st.trivial, st.rewritten, st.sat, st.unsat, st.unknown, st.hard, st.solver_s, st.max_s, st.lemmas, st.by.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"seconds\":{:.3},\n", t0.elapsed().as_secs_f64()));
    let fns: std::collections::BTreeSet<String> = e.funcs_seen.keys().filter(|k| k.contains("aseprite_loader")).map(|k| exec::short(k)).collect();
    o.push_str(&format!("\"functions\":[{}],\"functions_total\":{},\n", fns.iter().map(|k| esc(k)).collect::<Vec<_>>().join(","), e.funcs_seen.len()));
    o.push_str(&format!("\"fork_sites\":[{}],\n", sites.iter().take(12).map(|(k, v)| format!("[{},{}]", esc(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"violations\":[{}],\n", e.viol.iter().map(rec).collect::<Vec<_>>().join(",\n")));
    o.push_str(&format!("\"samples\":[{}]\n}}\n", e.paths.iter().map(rec).collect::<Vec<_>>().join(",\n")));
    match get("--out") { Some(p) => std::fs::write(p, o).unwrap(), None => print!("{}", o) }
}
