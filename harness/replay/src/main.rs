//! Runs harnesses on the real code, with its real dependencies, for the input
//! values of recorded cases.
//!
//! replay HARNESS ARGS INPUTS ITERATIONS
//!
//! What the replay does not control (random draws, iteration order of the
//! maps) varies from an iteration to the next. The first iteration which breaks
//! a check, or panics, is reported. Prints one line:
//!   completed marks=M observed=... | assumed | check N | panic TEXT
use harness::api::{Case, Stop, CASE};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static MSG: Mutex<String> = Mutex::new(String::new());

fn list(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect() }

fn one(f: fn(u64, u64, u64, u64), a: &[u64], inputs: &[u64], iters: u64) -> String {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let mut last = String::from("completed");
    for i in 0..iters {
        CASE.with(|c| *c.borrow_mut() = Case { inputs: inputs.to_vec(), ..Case::default() });
        let r = catch_unwind(AssertUnwindSafe(|| f(g(0), g(1), g(2), g(3))));
        match r {
            Ok(()) => {
                let s = CASE.with(|c| {
                    let c = c.borrow();
                    format!("completed{} marks={} observed={}", if c.short { " short" } else { "" }, c.marks, c.observed.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
                });
                if i > 0 && s != last && last.starts_with("completed") { last = format!("{} unstable", s); } else { last = s; }
            }
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(Stop::Failed(id)) => return format!("check {} iteration={}", id, i),
                Some(Stop::Assumed) => last = "assumed".into(),
                None => return format!("panic {} iteration={}", MSG.lock().unwrap().replace('\n', " "), i),
            },
        }
    }
    last
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Stop>().is_none() { *MSG.lock().unwrap() = i.to_string(); }
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let name = a[0].clone();
    let f = harness::TABLE.iter().find(|x| x.0 == name).unwrap_or_else(|| { eprintln!("no harness {}", name); std::process::exit(2) }).1;
    let args = list(&a[1]);
    let iters: u64 = a[3].parse().expect("iterations");
    // several cases are separated by `;`
    let cases: Vec<Vec<u64>> = a[2].split(';').map(list).collect();
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        for c in &cases { println!("{}", one(f, &args, c, iters)); }
    }).unwrap();
    t.join().unwrap();
}
