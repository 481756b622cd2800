//! replay <property> [--secs S] [--iters N] [--seed K] [--threads T] [--one ITER]
//! Runs the real library on generated inputs against the property's reference; exit 1 with the failing case on stdout.
mod checks;
mod conf;
mod util;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

fn table(p: &str) -> Option<fn(&mut G) -> R> {
    Some(match p {
        "C01" => checks::c01,
        "C02" => checks::c02,
        "C03" => checks::c03,
        "C04" => checks::c04,
        "C05" => checks::c05,
        "C06" => checks::c06,
        "C07" => checks::c07,
        "C08" => checks::c08,
        "C09" => checks::c09,
        "C10" => checks::c10,
        "C11" => checks::c11,
        "C12" => checks::c12,
        "C13" => checks::c13,
        "C14" => checks::c14,
        "C15" => checks::c15,
        "C16" => checks::c16,
        "C17" => conf::c17,
        "C18" => checks::c18,
        "C19" => conf::c19,
        "C20" => conf::c20,
        "C21" => conf::c21,
        "C22" => checks::c22,
        "C23" => checks::c23,
        _ => return None,
    })
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn gen(seed: u64, p: &str, it: u64) -> G {
    let mut h = seed ^ 0xcbf29ce484222325;
    for b in p.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut g = G(h.wrapping_add(it.wrapping_mul(0xD1342543DE82EF95)));
    g.u();
    g
}
fn one(f: fn(&mut G) -> R, seed: u64, p: &str, it: u64) -> R {
    let mut g = gen(seed, p, it);
    match catch_unwind(AssertUnwindSafe(|| f(&mut g))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}
fn report(p: &str, seed: u64, it: u64, why: &str) -> ! {
    let f = table(p).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let ps = p.to_string();
    std::thread::spawn(move || {
        NOTES.with(|n| *n.borrow_mut() = Some(vec![]));
        let r = one(f, seed, &ps, it);
        let v = NOTES.with(|n| n.borrow_mut().take().unwrap_or_default());
        let _ = tx.send((v, r));
    });
    let (v, r) = rx.recv_timeout(Duration::from_secs(20)).unwrap_or((vec!["(the case does not return)".into()], Ok(())));
    println!("FAIL property={p} seed={seed} iteration={it}");
    println!("reason: {why}");
    if r.is_ok() {
        println!("note: the recorded re-run of the case did not finish or did not fail again");
    }
    for n in v {
        println!("  {n}");
    }
    std::process::exit(1)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = a.get(1).cloned().unwrap_or_default();
    let Some(f) = table(&p) else {
        eprintln!("unknown property {p}");
        std::process::exit(2)
    };
    let opt = |n: &str, d: f64| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let secs = opt("--secs", 5.0);
    let iters = opt("--iters", 1e12) as u64;
    let seed = opt("--seed", 1.0) as u64;
    let threads = opt("--threads", 4.0) as u64;
    let single = opt("--one", -1.0);
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    if single >= 0.0 {
        match one(f, seed, &p, single as u64) {
            Ok(()) => {
                println!("OK property={p} iteration={single}");
                return;
            }
            Err(e) => report(&p, seed, single as u64, &e),
        }
    }
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let done = Arc::new(AtomicU64::new(0));
    let cur: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (stop, found, done, cur, p) = (stop.clone(), found.clone(), done.clone(), cur.clone(), p.clone());
        hs.push(std::thread::spawn(move || {
            let mut it = t;
            while !stop.load(SeqCst) && it < iters {
                cur[t as usize].1.store(start.elapsed().as_millis() as u64, SeqCst);
                cur[t as usize].0.store(it, SeqCst);
                if let Err(e) = one(f, seed, &p, it) {
                    let mut x = found.lock().unwrap();
                    if x.as_ref().map_or(true, |y| y.0 > it) {
                        *x = Some((it, e));
                    }
                    stop.store(true, SeqCst);
                    break;
                }
                done.fetch_add(1, SeqCst);
                it += threads;
            }
            cur[t as usize].0.store(u64::MAX, SeqCst);
        }));
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed();
        if now.as_secs_f64() > secs {
            stop.store(true, SeqCst);
        }
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for c in cur.iter() {
            let it = c.0.load(SeqCst);
            if it != u64::MAX && now.as_millis() as u64 > c.1.load(SeqCst) + 60_000 && c.0.load(SeqCst) == it {
                report(&p, seed, it, "the call does not terminate (60 s)");
            }
        }
    }
    let x = found.lock().unwrap().clone();
    if let Some((it, e)) = x {
        report(&p, seed, it, &e);
    }
    println!("OK property={p} cases={} seconds={:.1}", done.load(SeqCst), start.elapsed().as_secs_f64());
}
