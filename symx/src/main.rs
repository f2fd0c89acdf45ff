mod exec;
mod expr;
mod ir;
mod lia;
mod mem;
mod solver;

use exec::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entries: Vec<String> = vec![];
    let mut out = None;
    let mut cfgd: BTreeMap<String, String> = BTreeMap::new();
    let mut known = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--entry" => {
                entries.push(args[i + 1].clone());
                i += 2
            }
            "--out" => {
                out = Some(args[i + 1].clone());
                i += 2
            }
            "--known" => {
                known.push(args[i + 1].clone());
                i += 2
            }
            a if a.starts_with("--") => {
                cfgd.insert(a[2..].to_string(), args[i + 1].clone());
                i += 2
            }
            a => {
                file = Some(a.to_string());
                i += 1
            }
        }
    }
    let geti = |k: &str, d: u64| cfgd.get(k).map(|s| s.parse().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(file.expect("module")).unwrap().into_boxed_str());
    let m = Module::load(text, &|n| builtin_id(n));
    let mut mem0 = mem::Mem::new();
    mem::Mem::check_base();
    // make sure the whole global region exists
    for g in &m.globals {
        if mem0.fill(g.addr, 0, g.size.max(1)).is_err() {
            panic!("globals too large");
        }
    }
    let _ = mem0.fill(GBASE, 0, 0x1000);
    m.init_globals(&mut |a, n, v| {
        let n = n as usize;
        let r = mem0.write_u64(a, n.min(8), v as u64);
        if n > 8 {
            let _ = mem0.write_u64(a + 8, n - 8, (v >> 64) as u64);
        }
        if r.is_err() {
            panic!("global init");
        }
    });
    let load_ms = t0.elapsed().as_millis();
    let threads = geti("threads", 8) as usize;
    let mut results = vec![];
    let mut worst = 0;
    for spec in &entries {
        // entry[:arg]
        let mut it = spec.splitn(2, ':');
        let ename: &'static str = Box::leak(it.next().unwrap().to_string().into_boxed_str());
        let eargs: Vec<u64> = it.next().map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
        let Some(Sym::F(fid)) = m.resolve(ename) else {
            eprintln!("symx: no function {ename}");
            std::process::exit(3);
        };
        for f in &m.funcs {
            f.hit.store(false, SeqCst);
        }
        let f = m.func(fid).expect("entry body");
        m.funcs[fid as usize].hit.store(true, SeqCst);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, a) in eargs.iter().enumerate() {
            regs[i] = Val::I(*a);
        }
        let st = State {
            mem: mem0.clone(),
            frames: vec![],
            cur: Frame { f, bb: 0, ip: 0, base: 0, sp: SBASE + 0x1000 },
            regs,
            sp: SBASE + 0x1000,
            pc: vec![],
            model: vec![],
            vars: vec![],
            names: vec![],
            log: vec![],
            steps: 0,
            covers: BTreeSet::new(),
            tls: BTreeMap::new(),
            depth: 0,
        };
        let g = exec::Global {
            m: &m,
            sh: solver::Shared::new(geti("solver-timeout", 20000) as u32),
            cfg: Cfg {
                max_steps: geti("max-steps", 150_000_000),
                max_paths: geti("max-paths", 5_000_000),
                time_ms: geti("time", 600) * 1000,
                known: known.clone(),
                samples: geti("samples", 8) as usize,
                trace: geti("trace", 0) != 0,
                stop_on_violation: geti("keep-going", 0) == 0,
                only: cfgd.get("only").cloned().unwrap_or_default(),
            },
            q: Mutex::new(vec![st]),
            cv: Condvar::new(),
            idle: Default::default(),
            active: 1.into(),
            stop: false.into(),
            incomplete: Mutex::new(None),
            tot: Totals::default(),
            viols: Default::default(),
            covers: Default::default(),
            samples: Default::default(),
            check_labels: Default::default(),
            t0: Instant::now(),
            live: Default::default(),
        };
        std::thread::scope(|s| {
            for _ in 0..threads {
                let g = &g;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = Worker { g, s: solver::Solver::new(&g.sh), local: vec![] };
                        w.run();
                    })
                    .unwrap();
            }
        });
        let wall = g.t0.elapsed().as_secs_f64();
        let viols = g.viols.lock().unwrap().clone();
        let inc = g.incomplete.lock().unwrap().clone();
        let t = &g.tot;
        let st = &g.sh.stats;
        let mut funcs: BTreeSet<String> = BTreeSet::new();
        for (i, f) in m.funcs.iter().enumerate() {
            if f.hit.load(SeqCst) {
                funcs.insert(m.dem(i as u32).to_string());
            }
        }
        let unknown_viol = viols.keys().any(|l| !known.iter().any(|k| l.starts_with(k.as_str())));
        let status = if unknown_viol {
            "violation"
        } else if inc.is_some() {
            "incomplete"
        } else {
            "complete"
        };
        worst = worst.max(match status {
            "complete" => 0,
            "violation" => 1,
            _ => 2,
        });
        let inp = |v: &[(String, u32, u128)]| -> String {
            let x: Vec<String> = v.iter().map(|(n, w, k)| format!("[{},{},\"{}\"]", js(n), w, k)).collect();
            format!("[{}]", x.join(","))
        };
        let lg = |v: &[(u64, u128)]| -> String {
            let x: Vec<String> = v.iter().map(|(n, k)| format!("[{n},\"{k}\"]")).collect();
            format!("[{}]", x.join(","))
        };
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"entry\":{},\"status\":\"{}\",\"incomplete\":{},\"paths\":{},\"paths_completed\":{},\"paths_assumed_away\":{},\"violations_hit\":{},\"forks\":{},\"steps\":{},\"blocks\":{},\"checks\":{},\"checks_by_solver\":{},\"max_depth\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"lia\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"wall_s\":{:.3}",
            js(spec),
            status,
            inc.as_deref().map(js).unwrap_or("null".into()),
            t.paths.load(SeqCst),
            t.done.load(SeqCst),
            t.assumed.load(SeqCst),
            t.viol.load(SeqCst),
            t.forks.load(SeqCst),
            t.steps.load(SeqCst),
            t.blocks.load(SeqCst),
            t.checks.load(SeqCst),
            t.checks_solver.load(SeqCst),
            t.maxdepth.load(SeqCst),
            st.queries.load(SeqCst),
            st.sat.load(SeqCst),
            st.unsat.load(SeqCst),
            st.unknown.load(SeqCst),
            st.cache_hits.load(SeqCst),
            st.lia.load(SeqCst),
            st.nanos.load(SeqCst) as f64 / 1e9,
            st.slowest.load(SeqCst) as f64 / 1e9,
            wall
        );
        let cov: Vec<String> = g.covers.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let _ = write!(o, ",\"covers\":{{{}}}", cov.join(","));
        let cl: Vec<String> = g.check_labels.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let _ = write!(o, ",\"check_labels\":{{{}}}", cl.join(","));
        let vs: Vec<String> = viols
            .values()
            .map(|v| {
                format!(
                    "{{\"label\":{},\"known\":{},\"detail\":{},\"steps\":{},\"stack\":[{}],\"inputs\":{},\"log\":{}}}",
                    js(&v.label),
                    known.iter().any(|k| v.label.starts_with(k.as_str())),
                    js(&v.detail),
                    v.steps,
                    v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                    inp(&v.inputs),
                    lg(&v.log)
                )
            })
            .collect();
        let _ = write!(o, ",\"violations\":[{}]", vs.join(","));
        let ss: Vec<String> =
            g.samples.lock().unwrap().iter().map(|s| format!("{{\"inputs\":{},\"log\":{}}}", inp(&s.inputs), lg(&s.log))).collect();
        let _ = write!(o, ",\"samples\":[{}]", ss.join(","));
        let fs: Vec<String> = funcs.iter().map(|s| js(s)).collect();
        let _ = write!(o, ",\"functions\":[{}]}}", fs.join(","));
        results.push(o);
        eprintln!(
            "symx: {spec}: {status} paths={} (assumed {}) steps={} queries={} (sat {} unsat {} cached {}) solver={:.2}s wall={:.2}s viol={:?} {}",
            t.paths.load(SeqCst),
            t.assumed.load(SeqCst),
            t.steps.load(SeqCst),
            st.queries.load(SeqCst),
            st.sat.load(SeqCst),
            st.unsat.load(SeqCst),
            st.cache_hits.load(SeqCst),
            st.nanos.load(SeqCst) as f64 / 1e9,
            wall,
            viols.keys().collect::<Vec<_>>(),
            inc.unwrap_or_default()
        );
    }
    let o = format!("{{\"z3\":{},\"load_ms\":{},\"results\":[{}]}}", js(&solver::z3_version()), load_ms, results.join(",\n"));
    if let Some(p) = out {
        std::fs::write(p, o).unwrap();
    } else {
        println!("{o}");
    }
    let _ = Arc::new(0);
    std::process::exit(worst);
}
