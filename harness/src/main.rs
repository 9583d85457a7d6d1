//! Drives the library and records what it did, for the specification to judge.
//!
//!   driver run PROP SEED TIER OUT PROGRESS SKIP CASES BYTES STREAM0 NSTREAMS
//!   driver one PROP SEED TIER STREAM INDEX       (one history, event by event, to stdout)
//!   driver replay CALLS OUT                      (histories given as calls)
mod api;
mod exec;
mod gen;
mod nat;
mod screen;
mod sweep;

use exec::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::time::{Duration, Instant};

extern "C" { fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32; }

fn limits() {
    // An allocation out of control ends this process only
    let lim = [12u64 << 30, 12u64 << 30];
    unsafe { setrlimit(9, &lim); }
    if std::env::var("SHOW_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
}

/// Histories from here on are enumerated, not drawn
const SWEEP: u64 = 1 << 40;

fn gen_case(prop: usize, seed: u64, thorough: bool, stream: u64, idx: u64, sw: &sweep::Sweep) -> gen::Case {
    let mut rng = nat::Rng::new(seed.wrapping_mul(1000) + prop as u64, stream, idx);
    let mut case = if idx >= SWEEP { sw.case(idx - SWEEP) } else { gen::G { r: &mut rng, thorough, far: false }.case(prop) };
    if idx % 13 < 2 && case.calls.len() <= 12 && case.calls.iter().all(|c| c.g == 0) {
        let copy = gen::twin(&mut rng, &case.calls);
        case.calls.extend(copy);
    }
    case
}

/// Run a history; events as JSON, the calls made, whether something looked suspicious
fn run_case(calls: &[Call], exact: bool, json: Option<&mut String>, each: &mut dyn FnMut(&Call, Option<&Obs>)) -> (bool, usize, usize) {
    let mut m = Machine::new();
    let mut s = screen::Screen::new(exact);
    let mut sus = false;
    let (mut n, mut bytes) = (0, 0);
    let mut json = json;
    for c in calls {
        if !m.callable(c) { break; }
        each(c, None);
        let o = m.exec(c);
        each(c, Some(&o));
        // digits out of range may upset the arithmetic of the screen itself
        sus = sus || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.look(c, &o))).unwrap_or(true);
        bytes += o.w.iter().map(|w| w.2.len()).sum::<usize>() + 40;
        if let Some(j) = json.as_deref_mut() {
            if n > 0 { j.push(','); }
            event_json(c, &o, j);
        }
        n += 1;
    }
    (sus, n, bytes)
}

fn case_json(id: &str, calls: &[Call], exact: bool) -> (String, usize) {
    let mut j = format!("{{\"id\":\"{}\",\"ev\":[", id);
    let (_, n, _) = run_case(calls, exact, Some(&mut j), &mut |_, _| {});
    j.push_str("]}");
    (j, n)
}

/// The event to record should this call never return
fn pending(c: &Call) -> String {
    let mut s = String::from("PEND ");
    event_json(c, &Obs { o: "UNFINISHED".into(), w: vec![], r: Reply::None, fr: vec![], via: None }, &mut s);
    s
}

fn exact(prop: usize) -> bool { prop == 15 }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    limits();
    match args[1].as_str() {
        "run" => run(&args),
        "one" => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let prop = n(2) as usize;
            let case = gen_case(prop, n(3), args[4] == "thorough", n(5), n(6), &sweep::sweep(prop, args[4] == "thorough"));
            let out = std::io::stdout();
            run_case(&case.calls, exact(prop), None, &mut |c, o| {
                let mut l = out.lock();
                match o {
                    None => { let _ = writeln!(l, "CALL {}\n{}", call_text(c), pending(c)); }
                    Some(o) => { let mut s = String::new(); event_json(c, o, &mut s); let _ = writeln!(l, "EVENT {}", s); }
                }
                let _ = l.flush();
            });
            println!("DONE");
        }
        "replay" => {
            let txt = std::fs::read_to_string(&args[2]).unwrap();
            let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
            let mut cases: Vec<(String, Vec<Call>)> = vec![];
            for l in txt.lines() {
                if let Some(id) = l.strip_prefix("CASE ") { cases.push((id.to_string(), vec![])); }
                else if l.trim().is_empty() || l.starts_with('#') { }
                else { cases.last_mut().unwrap().1.push(parse_call(l).unwrap_or_else(|| panic!("bad call {}", l))); }
            }
            let stream = args.get(4).map_or(false, |x| x == "trace");
            for (id, calls) in &cases {
                if stream {
                    // event by event, so that the last call before a crash is known
                    println!("CASE {}", id);
                    run_case(calls, true, None, &mut |c, o| {
                        match o {
                            None => println!("CALL {}\n{}", call_text(c), pending(c)),
                            Some(o) => { let mut s = String::new(); event_json(c, o, &mut s); println!("EVENT {}", s); }
                        }
                        let _ = std::io::stdout().flush();
                    });
                    println!("DONE");
                } else {
                    let (j, _) = case_json(id, calls, true);
                    let _ = writeln!(out, "{}", j);
                }
            }
            let _ = out.flush();
        }
        _ => std::process::exit(2),
    }
}

struct Kept { json: String, text: String, events: usize, sus: bool }

fn run(args: &[String]) {
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let (prop, seed) = (num(2) as usize, num(3));
    let thorough = args[4] == "thorough";
    let out = args[5].clone();
    let progress = Arc::new(std::fs::File::create(&args[6]).unwrap());
    let skip: HashSet<(u64, u64)> = args[7].split(',').filter(|x| !x.is_empty()).map(|x| {
        let (a, b) = x.split_once(':').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    }).collect();
    let (cases, bytes_cap) = (num(8), num(9));
    let (stream0, nstreams) = (num(10), num(11));
    let skip = Arc::new(skip);
    let sw = Arc::new(sweep::sweep(prop, thorough));
    let beat: Arc<Vec<AtomicU64>> = Arc::new((0..nstreams).map(|_| AtomicU64::new(0)).collect());
    let time_cap = Duration::from_secs(if thorough { 420 } else { 100 });
    let start = Instant::now();
    let handles: Vec<_> = (0..nstreams).map(|k| {
        let (progress, skip, beat, sw) = (progress.clone(), skip.clone(), beat.clone(), sw.clone());
        let stream = stream0 + k;
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let per = cases / nstreams;
            let cap = (bytes_cap / nstreams) as usize;
            let mut strata: HashMap<u32, u32> = HashMap::new();
            let mut kept: Vec<Kept> = vec![];
            let (mut used, mut nsus, mut done, mut events) = (0usize, 0, 0u64, 0u64);
            let mut digest: HashSet<u64> = HashSet::new();
            let mut opc: HashMap<&'static str, u64> = HashMap::new();
            let (mut swept, mut sus_bytes, mut slowest) = (0u64, 0usize, (0u64, 0u64));
            let swept_room = if thorough { 6000 } else { 300 };
            let mine = (sw.total + nstreams - 1 - k) / nstreams;
            for j in 0..mine + per {
                // first what is enumerated, then what is drawn
                let i = if j < mine { SWEEP + j * nstreams + k } else { j - mine };
                beat[k as usize].store(i + 1, Relaxed);
                if skip.contains(&(stream, i)) { continue; }
                if j % 256 == 0 && start.elapsed() > time_cap { break; }
                let _ = progress.write_at(&i.to_le_bytes(), 8 * k);
                let case = gen_case(prop, seed, thorough, stream, i, &sw);
                let began = Instant::now();
                let (sus, n, bytes) = run_case(&case.calls, exact(prop), None, &mut |c, o| if o.is_none() { *opc.entry(op_name(c.op)).or_insert(0) += 1; });
                done += 1;
                let ms = began.elapsed().as_millis() as u64;
                if ms > slowest.0 { slowest = (ms, i); }
                if i >= SWEEP { swept += 1; }
                events += n as u64;
                if digest.len() < 2_000_000 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    for c in &case.calls { (op_name(c.op), c.a, c.b, c.d, c.t, c.f, c.n, &c.x, &c.s).hash(&mut h); }
                    digest.insert(h.finish());
                }
                let st = strata.entry(case.key).or_insert(0);
                // Suspicious histories first; otherwise the first few of each stratum, then thinned out
                let take = if sus { nsus += 1; sus_bytes += bytes; nsus == 1 || nsus <= 40 && sus_bytes <= 4 << 20 } else if bytes > if i >= SWEEP { 60_000 } else { 300_000 } { false } else {
                    let room = used + bytes <= if i >= SWEEP { cap / 2 } else { cap } && (i < SWEEP || kept.len() < swept_room);
                    let r = *st < 1 || st.is_power_of_two();
                    *st += 1;
                    room && r && kept.len() < if thorough { 20_000 } else { 1200 }
                };
                if take {
                    used += bytes;
                    let id = format!("{}:{}", stream, i);
                    let (json, events) = case_json(&id, &case.calls, exact(prop));
                    let mut text = format!("CASE {}\n", id);
                    for c in &case.calls { let _ = writeln!(text, "{}", call_text(c)); }
                    kept.push(Kept { json, text, events, sus });
                }
            }
            beat[k as usize].store(u64::MAX, Relaxed);
            let _ = progress.write_at(&u64::MAX.to_le_bytes(), 8 * k);
            (kept, done, events, digest, strata.len(), nsus, opc, swept, slowest)
        }).unwrap()
    }).collect();
    // Watchdog: a history that makes no progress ends the process; the caller finds out which one
    {
        let beat = beat.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = beat.iter().map(|b| (b.load(Relaxed), Instant::now())).collect();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (i, b) in beat.iter().enumerate() {
                    let v = b.load(Relaxed);
                    if v != last[i].0 || v == u64::MAX { last[i] = (v, Instant::now()); }
                    else if last[i].1.elapsed() > Duration::from_secs(20) {
                        println!("{{\"hang\":\"{}:{}\"}}", stream0 + i as u64, v.wrapping_sub(1));
                        let _ = std::io::stdout().flush();
                        std::process::exit(77);
                    }
                }
            }
        });
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    let mut t = std::io::BufWriter::new(std::fs::File::create(format!("{}.calls", out)).unwrap());
    let (mut done, mut events, mut kept, mut kept_ev, mut sus, mut strata, mut swept) = (0, 0, 0, 0, 0, 0, 0);
    let mut slowest = (0u64, 0u64);
    let mut all: HashSet<u64> = HashSet::new();
    let mut opc: HashMap<&'static str, u64> = HashMap::new();
    for h in handles {
        let (k, d, e, dg, s, ns, oc, sw, sl) = h.join().unwrap();
        done += d;
        swept += sw;
        slowest = slowest.max(sl);
        events += e;
        strata = strata.max(s);
        sus += ns;
        all.extend(dg);
        for (o, n) in oc { *opc.entry(o).or_insert(0) += n; }
        for x in k {
            kept += 1;
            kept_ev += x.events;
            let _ = x.sus;
            let _ = writeln!(f, "{}", x.json);
            let _ = write!(t, "{}", x.text);
        }
    }
    f.flush().unwrap();
    t.flush().unwrap();
    let mut ops: Vec<_> = opc.into_iter().collect();
    ops.sort();
    let ops: Vec<String> = ops.iter().map(|(o, n)| format!("\"{}\":{}", o, n)).collect();
    println!("{{\"cases\":{},\"enumerated\":{},\"enumerable\":{},\"events\":{},\"distinct\":{},\"strata\":{},\"suspicious\":{},\"recorded\":{},\"recorded_events\":{},\"calls\":{{{}}},\"slowest_ms\":{},\"slowest\":{},\"ms\":{}}}",
        done, swept, sw.total, events, all.len(), strata, sus, kept, kept_ev, ops.join(","), slowest.0, slowest.1, start.elapsed().as_millis());
}
