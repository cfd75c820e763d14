//! Runner: schedules the cases of a property over worker threads, turns
//! panics into verdicts, counts what was observed and writes the partial
//! result of this build flavour for check.py to merge.
use crate::ctx::*;
use std::{
    collections::{BTreeMap, HashSet},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub const REL: u8 = 1;
pub const DBG: u8 = 2;
/// built with the thread sanitizer
pub const TSAN: u8 = 4;

#[derive(Clone)]
pub struct Family {
    pub prop: &'static str,
    pub name: &'static str,
    /// build flavours this family runs in (bit mask)
    pub flavours: u8,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx) -> Res,
}
pub fn fam(
    prop: &'static str,
    name: &'static str,
    flavours: u8,
    quick: u64,
    thorough: u64,
    f: fn(&mut Ctx) -> Res,
) -> Family {
    Family { prop, name, flavours, quick, thorough, f }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
/// Message and place of the last panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs the code under test, turning a panic into Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found {
    family: String,
    idx: u64,
    seed: u64,
    v: Viol,
    desc: String,
}

const HANG: Duration = Duration::from_secs(200);
struct Acc {
    evals: u64,
    seen: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    per: BTreeMap<String, (u64, u64)>,
    samples: BTreeMap<String, Vec<String>>,
    found: Vec<Found>,
}
fn emit(a: &Acc, out: &str, start: Instant, capped: bool, mine: &[&Family]) {
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.3},\"capped\":{},",
        a.evals,
        a.seen.len(),
        start.elapsed().as_secs_f64(),
        capped
    ));
    o.push_str("\"events\":{");
    o.push_str(&a.counts.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"families\":{");
    o.push_str(
        &a.per
            .iter()
            .map(|(k, v)| format!("{}:{{\"executions\":{},\"distinct_nontrivial\":{}}}", json(k), v.0, v.1))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"expected_families\":[");
    o.push_str(&mine.iter().map(|f| json(f.name)).collect::<Vec<_>>().join(","));
    o.push_str("],\"samples\":[");
    o.push_str(
        &a.samples
            .iter()
            .flat_map(|(k, v)| v.iter().map(move |s| json(&format!("{}: {}", k, s))))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"found\":[");
    o.push_str(
        &a.found
            .iter()
            .map(|f| {
                format!(
                    "{{\"family\":{},\"idx\":{},\"seed\":{},\"sig\":{},\"msg\":{},\"desc\":{}}}",
                    json(&f.family),
                    f.idx,
                    f.seed,
                    json(&f.v.sig),
                    json(&f.v.msg),
                    json(&f.desc)
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}\n");
    std::fs::File::create(out).unwrap().write_all(o.as_bytes()).unwrap();
}

fn run_case(f: &Family, base: u64, idx: u64, thorough: bool, dbg: bool) -> (Ctx, Vec<Viol>) {
    let seed = hash64(&[f.prop.as_bytes(), f.name.as_bytes(), &base.to_le_bytes(), &idx.to_le_bytes()]);
    let mut c = Ctx::new(seed, idx, thorough, dbg);
    let r = catch_unwind(AssertUnwindSafe(|| (f.f)(&mut c)));
    let mut vs: Vec<Viol> = std::mem::take(&mut c.soft);
    match r {
        Ok(Ok(())) => {},
        Ok(Err(v)) => vs.push(v),
        Err(_) => vs.push(Viol { sig: "panic".into(), msg: format!("panic on a legitimate use: {}", last_panic()) }),
    }
    (c, vs)
}

pub fn main(families: Vec<Family>) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for f in &families {
            println!("{} {} {} {} {}", f.prop, f.name, f.flavours, f.quick, f.thorough);
        }
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("digest") {
        crate::p_sched::print_digest(args[2].parse().unwrap());
        return;
    }
    let flavour = match get("--flavour").as_deref() {
        Some("dbg") => DBG,
        Some("tsan") => TSAN,
        _ => REL,
    };
    let dbg = flavour == DBG;
    let thorough = get("--tier").as_deref() == Some("thorough");
    let base: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = get("--prop").expect("--prop");
    let only = get("--family");
    if let (Some(fam), Some(idx)) = (&only, get("--idx")) {
        // replay of one case
        let f = families.iter().find(|f| f.prop == prop && f.name == fam).expect("no such family");
        let (c, vs) = run_case(f, base, idx.parse().unwrap(), thorough, dbg);
        println!("case: {}", c.desc);
        for v in &vs {
            println!("refuted [{}]: {}", v.sig, v.msg);
        }
        std::process::exit(if vs.is_empty() { 0 } else { 1 });
    }
    let out = get("--out").expect("--out");
    let cap = Duration::from_secs(get("--cap").and_then(|s| s.parse().ok()).unwrap_or(120));
    let first = args.iter().any(|a| a == "--first");
    let workers: usize = get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let mine: Vec<&Family> = families
        .iter()
        .filter(|f| f.prop == prop && f.flavours & flavour != 0)
        .filter(|f| only.as_ref().map_or(true, |o| o == f.name))
        .collect();
    // interleave the families so a time cap cuts all of them alike
    let mut jobs: Vec<(usize, u64)> = vec![];
    let n_of = |f: &Family| {
        let n = if thorough { f.thorough } else { f.quick };
        if flavour == TSAN {
            n.div_ceil(8)
        } else {
            n
        }
    };
    let maxn = mine.iter().map(|f| n_of(f)).max().unwrap_or(0).max(1);
    let mut order: Vec<(u64, usize, u64)> = vec![];
    for (fi, f) in mine.iter().enumerate() {
        let n = n_of(f);
        for i in 0..n {
            order.push((i * maxn / n, fi, i));
        }
    }
    order.sort();
    jobs.extend(order.iter().map(|x| (x.1, x.2)));

    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let start = Instant::now();
    let acc = Mutex::new(Acc {
        evals: 0,
        seen: HashSet::new(),
        counts: BTreeMap::new(),
        per: BTreeMap::new(),
        samples: BTreeMap::new(),
        found: vec![],
    });
    let busy: Vec<Mutex<(Instant, u64, String)>> =
        (0..workers).map(|_| Mutex::new((Instant::now(), 0, String::new()))).collect();
    let live = AtomicUsize::new(workers);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (jobs, next, stop, acc, mine, busy, live) = (&jobs, &next, &stop, &acc, &mine, &busy, &live);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    // the code under test runs inside this worker's own rayon pool
                    let pool = rayon::ThreadPoolBuilder::new()
                        .num_threads(1 + w % 3)
                        .stack_size(64 << 20)
                        .build()
                        .unwrap();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let j = next.fetch_add(1, Ordering::Relaxed);
                        if j >= jobs.len() {
                            break;
                        }
                        let (fi, idx) = jobs[j];
                        let f = mine[fi];
                        *busy[w].lock().unwrap() = (Instant::now(), idx, f.name.to_string());
                        let (c, vs) = pool.install(|| run_case(f, base, idx, thorough, dbg));
                        *busy[w].lock().unwrap() = (Instant::now(), 0, String::new());
                        let mut a = acc.lock().unwrap();
                        a.evals += 1;
                        let e = a.per.entry(f.name.to_string()).or_insert((0, 0));
                        e.0 += 1;
                        if c.nontrivial {
                            let h = hash64(&[f.name.as_bytes(), c.desc.as_bytes()]);
                            if a.seen.insert(h) {
                                a.per.get_mut(f.name).unwrap().1 += 1;
                                let sm = a.samples.entry(f.name.to_string()).or_default();
                                if sm.len() < 2 {
                                    let mut d = c.desc.clone();
                                    if d.len() > 600 {
                                        let mut k = 600;
                                        while !d.is_char_boundary(k) {
                                            k -= 1;
                                        }
                                        d.truncate(k);
                                        d.push_str("...");
                                    }
                                    sm.push(d);
                                }
                            }
                        }
                        for (k, n) in &c.counts {
                            *a.counts.entry(k.clone()).or_insert(0) += n;
                        }
                        for v in vs {
                            if a.found.len() < 400 {
                                let seed = base;
                                a.found.push(Found { family: f.name.into(), idx, seed, v, desc: c.desc.clone() });
                            }
                        }
                        if first && !a.found.is_empty() {
                            stop.store(true, Ordering::Relaxed);
                        }
                        if start.elapsed() > cap {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // watchdog: a case that takes minutes where its like take milliseconds
        // hangs; report it with what was seen so far and leave
        let (busy, live, acc, mine, out) = (&busy, &live, &acc, &mine, &out);
        s.spawn(move || {
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(100));
                for b in busy.iter() {
                    let g = b.lock().unwrap().clone();
                    if !g.2.is_empty() && g.0.elapsed() > HANG {
                        let mut a = acc.lock().unwrap();
                        let v = Viol { sig: "hang".into(), msg: format!("no end after {} s", HANG.as_secs()) };
                        a.found.push(Found { family: g.2.clone(), idx: g.1, seed: base, v, desc: format!("case {} of {}", g.1, g.2) });
                        emit(&a, out, start, true, mine);
                        std::process::exit(0);
                    }
                }
            }
        });
    });
    let a = acc.into_inner().unwrap();
    emit(&a, &out, start, stop.load(Ordering::Relaxed), &mine);
}
