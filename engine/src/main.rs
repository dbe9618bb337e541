//! Symbolic execution of the LLVM IR of a program.
//! engine MODULE.ll OUT.json [options] HARNESS...
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ins(v: &[(VK, u8, u64)]) -> String {
    let f = |k: VK| v.iter().filter(|x| x.0 == k).map(|x| x.2.to_string()).collect::<Vec<_>>().join(",");
    format!("{{\"inputs\":[{}],\"rng\":[{}],\"order\":[{}]}}", f(VK::Input), f(VK::Rng), f(VK::Order))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let ll = args.next().expect("module");
    let outp = args.next().expect("output");
    let mut threads = 8usize;
    let mut names = vec![];
    let mut opt: HashMap<String, String> = HashMap::new();
    for a in args {
        if let Some(o) = a.strip_prefix("--") {
            let (k, v) = o.split_once('=').unwrap_or((o, "1"));
            opt.insert(k.into(), v.into());
        } else { names.push(a); }
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    threads = num("threads", threads as u64) as usize;
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ll).expect("read module");
    let m: &'static ir::Module = match ir::parse(&src) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => { eprintln!("engine: cannot parse: {}", e); std::process::exit(2); }
    };
    let parse_ms = t0.elapsed().as_millis();
    let mut base: Vec<Option<Arc<mem::Obj>>> = vec![None];
    for g in &m.globals {
        base.push(g.data.as_ref().map(|d| Arc::new(mem::Obj { data: d.clone(), sym: None, ro: g.constant })));
    }
    let ext: Vec<X> = m.ext.iter().map(|n| ext_kind(n)).collect();
    let hook: Vec<Option<X>> = m.funcs.iter().map(|f| hook_kind(&f.name)).collect();
    let total_secs = num("secs", 600);
    let repo = opt.get("repo").cloned().unwrap_or("/repo/".into());
    let mut out = String::from("{\"harnesses\":[");
    let mut first = true;
    let mut all_cover: Vec<u64> = vec![0; m.ninst as usize / 64 + 1];
    for spec in &names {
        // h:args, or h:args!N for paths of up to N million instructions
        let (h, steps) = spec.split_once('!').map(|(a, b)| (a, b.parse::<u64>().unwrap() * 1_000_000)).unwrap_or((spec.as_str(), num("max-steps", 40_000_000)));
        let t1 = Instant::now();
        let (hname, hopt) = h.split_once(':').map(|(a, b)| (a, b.to_string())).unwrap_or((h, String::new()));
        let harg: Vec<u64> = hopt.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let Some(fi) = m.fidx.get(hname) else { eprintln!("engine: no function {}", hname); std::process::exit(2); };
        let f = &m.funcs[*fi as usize];
        let mut harg = harg;
        while harg.len() < f.params.len() { harg.push(0); }
        let frame = State::new_frame(f, harg.iter().map(|v| Val::C(*v)).collect(), u32::MAX, None);
        if harg.len() != f.params.len() { eprintln!("engine: arguments of {}", hname); std::process::exit(2); }
        let st = State {
            frames: vec![frame], mem: mem::Mem::new(base.clone()), pc: vec![], model: vec![], vars: vec![], known: HashMap::new(), obs: vec![],
            steps: 0, order_mode: 0, draws: 0, draw_limit: 0, order_pol: None, depth: 0, marks: 0,
        };
        let sh = Arc::new(Shared {
            m, ext: ext.clone(), hook: hook.clone(), q: Mutex::new(vec![Box::new(st)]), cv: Condvar::new(), idle: AtomicUsize::new(0), nthreads: threads,
            stop: AtomicBool::new(false), st: Default::default(), tot: Default::default(), cache: Default::default(),
            cfg: Cfg {
                max_steps: steps, max_states: num("max-paths", 5_000_000), max_secs: total_secs, samples: num("samples", 24) as usize,
                max_viol: num("max-viol", 12) as usize, order: opt.get("order").map(|v| v.parse().unwrap()), solver_ms: num("solver-ms", 60_000), seed: num("seed", 1),
            },
            viol: Default::default(), errs: Default::default(), samples: Default::default(), cover: Mutex::new(vec![0; m.ninst as usize / 64 + 1]),
            marks: AtomicU64::new(0),
            deadline: Instant::now() + Duration::from_secs(num("hsecs", total_secs)).min(Duration::from_secs(total_secs).saturating_sub(t0.elapsed())),
            dump: opt.get("dump").map(|d| solver::Dump { dir: d.clone(), every: num("dump-every", 50), max: num("dump-max", 40), n: AtomicU64::new(0), seen: AtomicU64::new(0) }),
        });
        let _ = sh.cfg.max_secs;
        let hs: Vec<_> = (0..threads).map(|_| {
            let sh = sh.clone();
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let sh2 = sh.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let mut w = Worker::new(sh.clone()); w.work(); }));
                if r.is_err() {
                    *sh2.errs.lock().unwrap().entry("internal error of the engine".into()).or_insert(0) += 1;
                    sh2.stop.store(true, SeqCst);
                    sh2.cv.notify_all();
                }
            }).unwrap()
        }).collect();
        for t in hs { let _ = t.join(); }
        let ms = t1.elapsed().as_millis();
        let tot = &sh.tot;
        let s = &sh.st;
        if !first { out.push(','); }
        first = false;
        let _ = write!(out, "\n{{\"name\":{},\"ms\":{},\"paths\":{},\"assumed_away\":{},\"forks\":{},\"branches\":{},\"instructions\":{},\"checks\":{},\"checks_symbolic\":{},\"observations\":{},\"max_fork_depth\":{},\"marks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"by_model\":{},\"solver_ms\":{},\"max_query_ms\":{}",
            js(h), ms, tot.paths.load(Relaxed), tot.assumed.load(Relaxed), tot.states.load(Relaxed), tot.branches.load(Relaxed), tot.steps.load(Relaxed),
            tot.checks.load(Relaxed), tot.checks_sym.load(Relaxed), tot.observed.load(Relaxed), tot.maxdepth.load(Relaxed), sh.marks.load(Relaxed),
            s.queries.load(Relaxed), s.sat.load(Relaxed), s.unsat.load(Relaxed), s.cached.load(Relaxed), s.by_model.load(Relaxed), s.ns.load(Relaxed) / 1_000_000, s.max_ns.load(Relaxed) / 1_000_000);
        let e = sh.errs.lock().unwrap();
        let _ = write!(out, ",\"errors\":[{}]", e.iter().map(|(k, n)| js(&format!("{} ({}x)", k, n))).collect::<Vec<_>>().join(","));
        let v = sh.viol.lock().unwrap();
        let _ = write!(out, ",\"violations\":[{}]", v.iter().map(|v| format!("{{\"kind\":{},\"detail\":{},\"stack\":[{}],\"case\":{}}}", js(&v.kind), js(&v.detail), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), ins(&v.inputs))).collect::<Vec<_>>().join(","));
        let sm = sh.samples.lock().unwrap();
        let _ = write!(out, ",\"samples\":[{}]}}", sm.values().map(|x| format!("{{\"case\":{},\"observed\":[{}],\"end\":{}}}", ins(&x.inputs), x.obs.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(","), js(&x.end))).collect::<Vec<_>>().join(","));
        for (a, b) in all_cover.iter_mut().zip(sh.cover.lock().unwrap().iter()) { *a |= *b; }
        eprintln!("{}: {} ms, {} paths ({} assumed away), {} forks, {} instr, {} queries ({} ms), {} checks, {} violations, {} errors", h, ms, tot.paths.load(Relaxed), tot.assumed.load(Relaxed), tot.states.load(Relaxed),
            tot.steps.load(Relaxed), s.queries.load(Relaxed), s.ns.load(Relaxed) / 1_000_000, tot.checks.load(Relaxed), v.len(), e.len());
        for k in e.keys() { eprintln!("  error: {}", k); }
        for x in v.iter().take(3) { eprintln!("  {}: {} {} at {}", x.kind, x.detail, ins(&x.inputs), x.stack.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")); }
    }
    // Source functions and lines of the code under test that were executed.
    let mut funcs: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut memo: HashMap<u32, Vec<(String, String, u32)>> = HashMap::new();
    for f in &m.funcs {
        for b in &f.blocks {
            for i in &b.ins {
                if all_cover[i.gid as usize >> 6] >> (i.gid & 63) & 1 == 1 && i.dbg != 0 {
                    for (n, file, line) in memo.entry(i.dbg).or_insert_with(|| locs(m, i.dbg)).iter() {
                        if file.starts_with(&repo) { funcs.entry(format!("{} [{}]", n, &file[repo.len()..])).or_default().insert(*line); }
                    }
                }
            }
        }
    }
    let _ = write!(out, "],\n\"functions\":{{{}}},\"parse_ms\":{},\"module_functions\":{},\"module_instructions\":{}}}\n",
        funcs.iter().map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","), parse_ms, m.funcs.len(), m.ninst);
    std::fs::write(&outp, out).expect("write");
}
