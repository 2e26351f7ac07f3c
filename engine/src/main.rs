//! symex: bounded symbolic execution of LLVM bitcode with Z3.
mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod sched;
mod z3;
use std::fmt::Write as _;
use std::sync::Arc;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn wit(w: &exec::Witness) -> String {
    let i: Vec<String> = w.inputs.iter().map(|x| x.to_string()).collect();
    let mut h = String::new();
    for b in &w.outs {
        write!(h, "{b:02x}").unwrap();
    }
    format!("{{\"inputs\":[{}],\"outs\":\"{h}\",\"what\":{}}}", i.join(","), js(&w.what))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: f64| -> f64 { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d) };
    if a.len() < 3 {
        eprintln!("usage: symex BITCODE ENTRY[,ENTRY..] [--time S] [--threads N] [--limit N] [--max-viol N] [--samples N] [--no-certify]");
        std::process::exit(2);
    }
    let p = match llvm::Loader::load(&a[1]) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("error: {e}");
            std::process::exit(2);
        }
    };
    let prog = Arc::new(exec::Prog::new(p));
    let mut all = vec![];
    let total = opt("--total", 1e9);
    let start = std::time::Instant::now();
    for entry in a[2].split(',') {
        let left = total - start.elapsed().as_secs_f64();
        let o = sched::Opts {
            threads: opt("--threads", 8.0) as usize,
            time: opt("--time", 60.0).min(left.max(1.0)),
            limit: opt("--limit", 30_000_000.0) as u64,
            max_viol: opt("--max-viol", 200.0) as usize,
            samples: opt("--samples", 12.0) as usize,
            certify: !a.iter().any(|x| x == "--no-certify"),
            timeout_ms: opt("--timeout-ms", 20000.0) as u32,
        };
        let r = sched::explore(prog.clone(), entry, &o);
        let s = &r.stats;
        let mut j = String::new();
        write!(
            j,
            "{{\"entry\":{},\"complete\":{},\"engine_error\":{},\"paths\":{},\"assume_ends\":{},\"given_up\":{},\"forks\":{},\"forced\":{},\"insts\":{},\"max_path_insts\":{},\"asserts\":{},\"symbolic_asserts\":{},\"replays\":{},\"cache_hits\":{},\"search_hits\":{},\"pointwise\":{},\"concretised\":{},\"rechecked_paths\":{},\"unknown\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"certified\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"setup_insts\":{},\"max_inputs\":{},\"edges_hit\":{},\"edges_all\":{}",
            js(entry),
            r.complete,
            r.engine_error.as_ref().map(|e| js(e)).unwrap_or("null".into()),
            s.paths, s.assume_ends, s.given_up, s.forks, s.forced, s.insts, s.max_path_insts, s.asserts, s.sym_asserts, s.replays, s.cache_hits, s.search_hits, s.pointwise, s.concretised, s.recheck, r.unknown,
            r.queries, r.sat, r.unsat, r.certified, r.solver_secs, r.wall, r.setup_insts, r.max_inputs, r.edges_hit, r.edges_all
        )
        .unwrap();
        let f: Vec<String> = r.funcs.iter().map(|x| js(x)).collect();
        let v: Vec<String> = r.violations.iter().map(wit).collect();
        let sm: Vec<String> = r.samples.iter().map(wit).collect();
        let wh: Vec<String> = r.what.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
        write!(j, ",\"viol_count\":{},\"what\":{{{}}},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}]}}", r.viol_count, wh.join(","), v.join(","), sm.join(","), f.join(",")).unwrap();
        println!("{j}");
        all.push(j);
    }
}
