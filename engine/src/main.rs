//! symx: symbolic execution of rustc's LLVM IR with z3 as the deciding step.
mod exec;
mod expr;
mod intr;
mod ir;
mod solver;
use exec::*;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn inputs(v: &[(u32, u128)]) -> String {
    let l: Vec<String> = v.iter().map(|(w, x)| format!("[{w},\"{x}\"]")).collect();
    format!("[{}]", l.join(","))
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut harness = None;
    let mut out = None;
    let mut lim = Limits { steps: 20_000_000, paths: 1_000_000, secs: 600, samples: 24 };
    let mut smt_ms = 60_000u32;
    let mut all = false;
    let (mut trace, mut forks) = (false, false);
    let mut focus: Vec<String> = vec![];
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--harness" => harness = Some(nx()),
            "--out" => out = Some(nx()),
            "--steps" => lim.steps = nx().parse().unwrap(),
            "--paths" => lim.paths = nx().parse().unwrap(),
            "--secs" => lim.secs = nx().parse().unwrap(),
            "--samples" => lim.samples = nx().parse().unwrap(),
            "--smt-ms" => smt_ms = nx().parse().unwrap(),
            "--focus" => focus = nx().split(',').map(|s| s.to_string()).collect(),
            "--all" => {
                all = true;
                i += 1;
                continue;
            }
            "--forks" => {
                forks = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            _ => {
                file = Some(args[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(file.expect("file")).expect("read");
    let m = ir::Module::load(text);
    let h = harness.expect("--harness");
    let Some(&f) = m.fmap.get(h.as_str()) else {
        eprintln!("no harness {h}");
        return 2;
    };
    let t_load = t0.elapsed();
    let mut ex = Exec::new(m, smt_ms, lim);
    ex.stop_first = !all;
    ex.trace = trace;
    ex.fork_log = forks;
    if std::env::var("SYMX_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run(f)))
        .unwrap_or_else(|_| Err("engine panic".into()));
    let mut at: Vec<_> = std::mem::take(&mut ex.forks).into_iter().collect();
    at.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (a, n) in at.iter().take(30) {
        eprintln!("{n} {a}");
    }
    let incomplete = r.err();
    let mut o = String::new();
    let _ = write!(o, "{{\"harness\":\"{h}\",");
    let _ = write!(
        o,
        "\"incomplete\":{},",
        incomplete.as_ref().map(|s| format!("\"{}\"", esc(s))).unwrap_or("null".into())
    );
    let p: Vec<String> = ex.st.paths.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let _ = write!(o, "\"paths\":{{{}}},", p.join(","));
    let _ = write!(
        o,
        "\"pending\":{},\"forks\":{},\"steps\":{},\"max_depth\":{},\"model_hits\":{},",
        ex.work.len(),
        ex.st.forks,
        ex.st.steps,
        ex.st.max_depth,
        ex.st.model_hits
    );
    let a: Vec<String> = ex.st.asserts.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let _ = write!(o, "\"asserts\":{{{}}},\"asserts_solver\":{},", a.join(","), ex.st.assert_solver);
    let c: Vec<String> = ex.st.covers.iter().map(|k| k.to_string()).collect();
    let _ = write!(o, "\"covers\":[{}],", c.join(","));
    let pk: Vec<String> =
        ex.st.panics_ok.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect();
    let _ = write!(o, "\"panics_ok\":{{{}}},", pk.join(","));
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"second_try\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},",
        ex.slv.queries,
        ex.slv.sat,
        ex.slv.unsat,
        ex.slv.unknown,
        ex.slv.cached,
        ex.slv.second,
        ex.slv.time.as_secs_f64(),
        ex.slv.max.as_secs_f64()
    );
    let _ = write!(
        o,
        "\"load_s\":{:.2},\"wall_s\":{:.2},\"nodes\":{},\"z3\":\"{}\",",
        t_load.as_secs_f64(),
        t0.elapsed().as_secs_f64(),
        expr::cx().nodes.len(),
        solver::version()
    );
    let mut fs: Vec<String> = ex
        .used
        .iter()
        .enumerate()
        .filter(|(_, u)| **u)
        .map(|(i, _)| short(&ex.m.funcs[i].name))
        .collect();
    fs.sort();
    fs.dedup();
    let nf = fs.len();
    let ff: Vec<String> = fs
        .iter()
        .filter(|n| focus.is_empty() || focus.iter().any(|x| n.contains(x.as_str())))
        .map(|n| format!("\"{}\"", esc(n)))
        .collect();
    let _ = write!(o, "\"functions_total\":{nf},\"functions\":[{}],", ff.join(","));
    let mut pr: Vec<(u32, u64)> = ex.prof.iter().map(|(a, b)| (*a, *b)).collect();
    pr.sort_by_key(|x| std::cmp::Reverse(x.1));
    let pr: Vec<String> = pr
        .iter()
        .take(12)
        .map(|(f, n)| format!("[\"{}\",{n}]", esc(&short(&ex.m.funcs[*f as usize].name))))
        .collect();
    let _ = write!(o, "\"branchy\":[{}],", pr.join(","));
    let vs: Vec<String> = ex
        .violations
        .iter()
        .map(|v| {
            let t: Vec<String> = v.trace.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            format!(
                "{{\"kind\":\"{}\",\"id\":{},\"msg\":\"{}\",\"inputs\":{},\"trace\":[{}]}}",
                v.kind,
                v.id,
                esc(&v.msg),
                inputs(&v.inputs),
                t.join(",")
            )
        })
        .collect();
    let _ = write!(o, "\"violations\":[{}],", vs.join(","));
    let ss: Vec<String> = ex
        .samples
        .iter()
        .map(|s| {
            let obs: Vec<String> = s.obs.iter().map(|x| format!("\"{x}\"")).collect();
            format!(
                "{{\"inputs\":{},\"obs\":[{}],\"end\":\"{}\"}}",
                inputs(&s.inputs),
                obs.join(","),
                s.end
            )
        })
        .collect();
    let _ = writeln!(o, "\"samples\":[{}]}}", ss.join(","));
    match out {
        Some(p) => std::fs::write(p, o).expect("write"),
        None => print!("{o}"),
    }
    if !ex.violations.is_empty() {
        1
    } else if incomplete.is_some() {
        2
    } else {
        0
    }
}

fn main() {
    // deep expression DAGs are walked recursively
    let r = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap().join();
    std::process::exit(r.unwrap_or(2));
}
