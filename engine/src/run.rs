//! Parallel deterministic runner, shrinker, replay files, evidence.
use crate::src::{mix, Src, R};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Case i has the one-element tape [i] (a finite enumeration).
    pub enumerated: bool,
    pub f: fn(&mut Src) -> R,
}

impl Sub {
    /// Enumerations and checks that take one large sample gain nothing from
    /// coverage feedback.
    fn guided(&self) -> bool {
        !self.enumerated && self.quick >= 200
    }
}

pub fn sub(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src) -> R) -> Sub {
    Sub { name, quick, thorough, enumerated: false, f }
}
/// All of `0..n`, in both tiers.
pub fn grid(name: &'static str, n: u64, f: fn(&mut Src) -> R) -> Sub {
    Sub { name, quick: n, thorough: n, enumerated: true, f }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, at));
    }));
}

pub fn run_case(f: fn(&mut Src) -> R, s: &mut Src) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            if m.contains("engine/src/") || m.contains("ORACLE") {
                // A defect of the machinery itself, never a violation.
                println!("ERROR: harness failure: {}", m);
                let _ = std::io::stdout().flush();
                std::process::exit(4);
            }
            Err(m)
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h ^ b as u64))
}

pub fn case_src(p: &str, sub: &Sub, seed: u64, i: u64) -> Src {
    if sub.enumerated {
        Src::replay(vec![i])
    } else {
        Src::random(mix(seed) ^ mix(hash_str(p)) ^ mix(hash_str(sub.name)).rotate_left(17) ^ mix(i).rotate_left(31))
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<u64>,
}

struct Fail {
    index: u64,
    msg: String,
    tape: Vec<u64>,
}

fn write_replay(p: &str, sub: &str, harness: &str, seed: u64, case: u64, tape: &str, msg: &str, notes: &[String], verif: &str) -> String {
    write_replay_named(p, sub, sub, harness, seed, case, tape, msg, notes, verif)
}

fn write_replay_named(p: &str, sub: &str, file: &str, harness: &str, seed: u64, case: u64, tape: &str, msg: &str, notes: &[String], verif: &str) -> String {
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.txt", dir, p, file);
    let mut t = format!(
        "property: {}\nsub: {}\nharness: {}\nconfig: {}\nseed: {}\ncase: {}\ntape: {}\nmessage: {}\n",
        p, sub, harness, std::env::var("VERIF_CONFIG").unwrap_or("checked".into()), seed, case, tape, one_line(msg)
    );
    for n in notes {
        t.push_str(&format!("input: {}\n", one_line(n)));
    }
    std::fs::write(&path, t).expect("write replay");
    path
}

/// Whether a replay file fails in a fresh process.
fn fails_afresh(path: &str, seconds: u64) -> bool {
    let me = match std::env::current_exe() {
        Ok(m) => m,
        Err(_) => return false,
    };
    let c = std::process::Command::new(me).args(["replay", path]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn();
    let mut c = match c {
        Ok(c) => c,
        Err(_) => return false,
    };
    let t0 = Instant::now();
    while t0.elapsed().as_secs() < seconds {
        if let Ok(Some(st)) = c.try_wait() {
            return st.code() == Some(1);
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    let _ = c.kill();
    let _ = c.wait();
    false
}

/// Shrinks a failure and writes the smallest replay that fails in a fresh
/// process: the shrunk case, the case as found, either one many times over
/// (schedules), or the case after the cases before it (state left behind).
fn report(p: &Prop, s: &Sub, file: &str, harness: &str, seed: u64, case: u64, tape: Vec<u64>, msg: String, numbered: bool, verif: &str) -> (String, String, Vec<String>) {
    let join = |t: &[u64]| t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let (small, smsg) = if s.enumerated { (tape.clone(), msg.clone()) } else { shrink(s.f, tape.clone(), msg.clone()) };
    let (notes, _) = describe(s.f, Src::replay(small.clone()));
    let write = |t: String, m: &str, n: &[String]| write_replay_named(p.id, s.name, file, harness, seed, case, &t, m, n, verif);
    let path = write(join(&small), &smsg, &notes);
    if fails_afresh(&path, 60) {
        return (path, smsg, notes);
    }
    let (found, _) = describe(s.f, Src::replay(tape.clone()));
    write(join(&tape), &msg, &found);
    if fails_afresh(&path, 60) {
        return (path, msg, found);
    }
    if numbered {
        let mut back = 1;
        let t0 = Instant::now();
        while t0.elapsed().as_secs() < 90 {
            let from = case.saturating_sub(back);
            write(format!("@case\nhistory: {}", from), &msg, &found);
            if fails_afresh(&path, 60) {
                return (path, msg, found);
            }
            if from == 0 {
                break;
            }
            back *= 8;
        }
    }
    for (t, m, n) in [(&small, &smsg, &notes), (&tape, &msg, &found)] {
        write(format!("{}\nrepeat: 300", join(t)), m, n);
        if fails_afresh(&path, 30) {
            return (path, m.clone(), n.clone());
        }
    }
    (path, format!("{} (seen once; not seen again in a fresh process)", msg), found)
}

/// Where every worker notes the case it is about to run: what is found there
/// after a crash.
static NOW: OnceLock<std::fs::File> = OnceLock::new();
fn note_case(worker: usize, sub: usize, case: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = NOW.get() {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(sub as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&case.to_le_bytes());
        let _ = f.write_at(&b, 16 * worker as u64);
    }
}

fn hang(p: &Prop, sub: &Sub, seed: u64, case: u64, verif: &str, harness: &str) -> ! {
    let msg = "a case has run for over 100 s: an operation does not terminate";
    let path = write_replay(p.id, sub.name, harness, seed, case, "@case", msg, &[], verif);
    println!("{} {} case {}: {}", p.id, sub.name, case, msg);
    println!("VIOLATION property={} replay={}", p.id, path);
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

fn run_sub(p: &Prop, sub: &Sub, seed: u64, n: u64, until: Instant, verif: &str, harness: &str) -> (Stats, Option<Fail>) {
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let start: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let alive = AtomicU64::new(threads as u64);
    let at = p.subs.iter().position(|s| s.name == sub.name).unwrap_or(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, min_fail, fail, total, start, alive) = (&next, &min_fail, &fail, &total, &start, &alive);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || i > min_fail.load(SeqCst) || (i >= threads as u64 && Instant::now() > until) {
                            break;
                        }
                        start[t].store(i + 1, SeqCst);
                        note_case(t, at, i);
                        let mut s = case_src(p.id, sub, seed, i);
                        let r = run_case(sub.f, &mut s);
                        start[t].store(0, SeqCst);
                        st.evals += 1;
                        for c in &s.classes {
                            *st.classes.entry(c).or_insert(0) += 1;
                        }
                        if s.nontrivial {
                            st.distinct.insert(s.hash ^ hash_str(sub.name));
                            if st.samples.len() < 2 {
                                st.samples.push(i);
                            }
                        }
                        if let Err(msg) = r {
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map(|x| i < x.index).unwrap_or(true) {
                                *f = Some(Fail { index: i, msg, tape: s.used.clone() });
                            }
                            min_fail.fetch_min(i, SeqCst);
                        }
                    }
                    let mut tot = total.lock().unwrap();
                    tot.evals += st.evals;
                    tot.distinct.extend(st.distinct);
                    for (k, v) in st.classes {
                        *tot.classes.entry(k).or_insert(0) += v;
                    }
                    tot.samples.extend(st.samples);
                    alive.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // Watchdog: no call of the library takes more than a second, so a case
        // that is still running after 100 s does not terminate. Counted in
        // naps that ended in time, so that a paused or overloaded machine does not
        // count.
        let (start, alive) = (&start, &alive);
        sc.spawn(move || {
            let mut age = vec![(0u64, 0u64); start.len()];
            let mut ticks = 0u64;
            while alive.load(SeqCst) > 0 {
                let fast = ticks < 50;
                let nap = std::time::Duration::from_millis(if fast { 2 } else { 50 });
                let t0 = Instant::now();
                std::thread::sleep(nap);
                let late = t0.elapsed() > 3 * nap;
                ticks += 1;
                for (t, s) in start.iter().enumerate() {
                    let b = s.load(SeqCst);
                    if b == 0 || b != age[t].0 {
                        age[t] = (b, 0);
                    } else if !fast && !late {
                        age[t].1 += 1;
                        if age[t].1 > 2000 {
                            hang(p, sub, seed, b - 1, verif, harness);
                        }
                    }
                }
            }
        });
    });
    let mut st = total.into_inner().unwrap();
    st.samples.sort();
    st.samples.truncate(2);
    (st, fail.into_inner().unwrap())
}

/// Smaller tapes that still fail. Bounded by evaluations, and by time because
/// one evaluation can be slow; the bound only affects how small the replay is.
pub fn shrink(f: fn(&mut Src) -> R, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    // A smaller input may not terminate: the search runs on a thread that is
    // left behind when it takes too long.
    use std::sync::{mpsc, Arc};
    let best = Arc::new(Mutex::new((tape.clone(), msg.clone())));
    let (tx, rx) = mpsc::channel();
    let shared = best.clone();
    let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        shrink_here(f, tape, msg, &shared);
        let _ = tx.send(());
    });
    let _ = rx.recv_timeout(std::time::Duration::from_secs(60));
    let b = best.lock().unwrap().clone();
    b
}

fn shrink_here(f: fn(&mut Src) -> R, tape: Vec<u64>, msg: String, shared: &Mutex<(Vec<u64>, String)>) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut bmsg = msg;
    let mut evals = 0;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bmsg: &mut String| -> bool {
        if evals > 4000 || t0.elapsed().as_secs() > 25 {
            return false;
        }
        evals += 1;
        let mut s = Src::replay(cand);
        if let Err(m) = run_case(f, &mut s) {
            let mut u = s.used.clone();
            while u.last() == Some(&0) {
                u.pop();
            }
            if (u.len(), &u) < (best.len(), &*best) {
                *shared.lock().unwrap() = (u.clone(), m.clone());
                *best = u;
                *bmsg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        for chunk in [32usize, 16, 8, 4, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + chunk <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + chunk);
                    attempt(c, &mut best, &mut bmsg);
                    if i + chunk <= best.len() && best[i..i + chunk].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        for x in &mut c[i..i + chunk] {
                            *x = 0;
                        }
                        attempt(c, &mut best, &mut bmsg);
                    }
                }
            }
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut bmsg) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
        if best == before {
            return;
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}

/// What a thread has by default: rabe-bn has to be content with it.
const STACK: usize = 2 << 20;

fn describe(f: fn(&mut Src) -> R, mut s: Src) -> (Vec<String>, R) {
    s.want_notes = true;
    let r = run_case(f, &mut s);
    (s.notes, r)
}

/// Command line: run <id> --tier T --seed N --verif DIR --part FILE
///               replay FILE
pub fn main(props: Vec<Prop>, harness: &str) -> i32 {
    quiet_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str, d: &str| -> String {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    match args.first().map(|s| s.as_str()) {
        Some("literals") => {
            crate::dict::dump();
            0
        }
        Some("list") => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
                }
            }
            0
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[1]).expect("replay file");
            let get = |k: &str| {
                text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|s| s.to_string())).unwrap_or_default()
            };
            let (id, name) = (get("property"), get("sub"));
            let s = props
                .iter()
                .filter(|p| p.id == id)
                .flat_map(|p| p.subs.iter())
                .find(|s| s.name == name)
                .expect("unknown property or sub-check");
            let nums = |k: &str| -> Vec<u64> { get(k).split_whitespace().map(|x| x.parse().unwrap()).collect() };
            let trace = std::env::var("VERIF_TRACE").unwrap_or_default();
            let make = || {
                let mut s = if !get("then").is_empty() {
                    Src::tape_then(nums("tape"), nums("then")[0])
                } else if get("tape") == "@case" {
                    case_src(&id, s, get("seed").parse().unwrap(), get("case").parse().unwrap())
                } else {
                    Src::replay(nums("tape"))
                };
                if !trace.is_empty() {
                    s.trace_to(&trace);
                }
                s
            };
            let (mut notes, mut r) = (Vec::new(), Ok(()));
            // on a thread with the stack the search gave it
            let again = |src: Src| {
                std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || describe(s.f, src)).unwrap().join().unwrap())
            };
            if get("history").is_empty() {
                // More than once where the failure depends on the schedule.
                for _ in 0..get("repeat").parse().unwrap_or(1u64) {
                    (notes, r) = again(make());
                    if r.is_err() {
                        break;
                    }
                }
            } else {
                // The failure depends on the cases before it.
                let seed = get("seed").parse().unwrap();
                for i in nums("history")[0]..=nums("case")[0] {
                    (notes, r) = again(case_src(&id, s, seed, i));
                    if r.is_err() {
                        break;
                    }
                }
            }
            for n in notes {
                println!("  {}", n);
            }
            match r {
                Ok(()) => {
                    println!("replay: holds");
                    0
                }
                Err(m) => {
                    println!("replay: FAILS: {}", m);
                    println!("VIOLATION property={} replay={}", id, args[1]);
                    1
                }
            }
        }
        Some("run") | Some("guided") => {
            let id = args[1].clone();
            let tier = opt("--tier", "quick");
            let seed: u64 = opt("--seed", "1").parse().unwrap_or_else(|_| hash_str(&opt("--seed", "1")));
            let verif = opt("--verif", "/verif");
            let only = opt("--only", "");
            let scale: f64 = opt("--scale", "1").parse().unwrap();
            let p = match props.into_iter().find(|p| p.id == id) {
                Some(p) => p,
                None => {
                    println!("ERROR: no property {} in {}", id, harness);
                    return 2;
                }
            };
            let budget: u64 = opt("--budget", "100000").parse().unwrap();
            if args[0] == "guided" {
                let worker: u64 = opt("--worker", "0").parse().unwrap();
                let of: u64 = opt("--of", "1").parse().unwrap();
                return guided(&p, &tier, seed, &verif, &opt("--part", ""), &only, scale, budget, harness, worker, of);
            }
            let now = opt("--now", "");
            if !now.is_empty() {
                let _ = NOW.set(std::fs::File::create(now).expect("note file"));
            }
            run_prop(&p, &tier, seed, &verif, &opt("--part", ""), &only, scale, budget, harness)
        }
        _ => {
            println!("usage: run ID | replay FILE | list");
            2
        }
    }
}

fn run_prop(p: &Prop, tier: &str, seed: u64, verif: &str, part: &str, only: &str, scale: f64, budget: u64, harness: &str) -> i32 {
    crate::model::self_test();
    let t0 = Instant::now();
    let mut evals = 0;
    let mut distinct = 0;
    let mut samples: Vec<String> = Vec::new();
    let mut per: Vec<String> = Vec::new();
    let mut viol = 0;
    let todo: Vec<&Sub> = p.subs.iter().filter(|s| if only.is_empty() { s.quick > 0 || tier == "thorough" } else { only == s.name }).collect();
    for (at, s) in todo.iter().enumerate() {
        let s = *s;
        // What is left of the time, shared evenly among what is left to do.
        let left = std::time::Duration::from_secs(budget).saturating_sub(t0.elapsed());
        let until = Instant::now() + left / (todo.len() - at) as u32;
        let mut n = if tier == "thorough" { s.thorough } else { s.quick };
        if !s.enumerated {
            n = ((n as f64 * scale) as u64).max(1);
        }
        let ts = Instant::now();
        let (st, fail) = run_sub(p, s, seed, n, until, verif, harness);
        evals += st.evals;
        distinct += st.distinct.len();
        for i in &st.samples {
            let (mut notes, _) = describe(s.f, case_src(p.id, s, seed, *i));
            notes.truncate(12);
            let mut t = notes.join("; ");
            if t.len() > 900 {
                let mut k = 900;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            samples.push(format!("{{\"sub\":{},\"case\":{},\"input\":{}}}", esc(s.name), i, esc(&t)));
        }
        let classes: Vec<String> = st.classes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        per.push(format!(
            "{{\"sub\":{},\"enumerated\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"classes\":{{{}}}}}",
            esc(s.name), s.enumerated, st.evals, st.distinct.len(), ts.elapsed().as_secs_f64(), classes.join(",")
        ));
        println!(
            "{} {:<28} {:>8} cases {:>8} non-trivial {:>7.2} s",
            p.id, s.name, st.evals, st.distinct.len(), ts.elapsed().as_secs_f64()
        );
        if let Some(f) = fail {
            viol += 1;
            let (path, msg, notes) = report(p, s, s.name, harness, seed, f.index, f.tape, f.msg, true, verif);
            println!("  {}", msg);
            for n in notes.iter().take(20) {
                println!("  input: {}", n);
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            break;
        }
    }
    if !part.is_empty() {
        let asm: Vec<String> = p.assumptions.iter().map(|a| esc(a)).collect();
        let j = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"per_sub\":[{}],\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}",
            esc(p.id), esc(tier), seed, evals, distinct, esc(p.rule), samples.join(","), per.join(","), asm.join(","),
            t0.elapsed().as_secs_f64(), viol
        );
        std::fs::write(part, j).expect("write evidence part");
    }
    let _ = std::io::stdout().flush();
    if viol > 0 { 1 } else { 0 }
}

/// One worker of the coverage-guided search. The result file has a line
/// `sub executions corpus edges features` and then the keys of the distinct
/// non-trivial cases per sub-check.
fn guided(p: &Prop, tier: &str, seed: u64, verif: &str, part: &str, only: &str, scale: f64, budget: u64, harness: &str, worker: u64, of: u64) -> i32 {
    crate::model::self_test();
    if !crate::guided::available() {
        println!("ERROR: not an instrumented build");
        return 3;
    }
    let t0 = Instant::now();
    let mut out = String::new();
    let mut rc = 0;
    let todo: Vec<&Sub> = p.subs.iter().filter(|s| if only.is_empty() { s.guided() } else { only == s.name }).collect();
    for (at, s) in todo.iter().enumerate() {
        let s = *s;
        let left = std::time::Duration::from_secs(budget).saturating_sub(t0.elapsed());
        let until = Instant::now() + left / (todo.len() - at) as u32;
        let n = if tier == "thorough" { s.thorough } else { s.quick };
        let n = ((n as f64 * scale) as u64 / of).max(20);
        let name = format!("{}-guided{}", s.name, worker);
        // (tape, continuation) of the execution under way, and its number
        let now: Mutex<(u64, Option<(Vec<u64>, u64)>)> = Mutex::new((0, None));
        let over = AtomicU64::new(0);
        let o = std::thread::scope(|sc| {
            let (now, over, name) = (&now, &over, &name);
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let o = crate::guided::search(p, s, seed, worker, n, until, &|x| {
                        let mut g = now.lock().unwrap();
                        g.0 += 1;
                        g.1 = x.map(|(t, k)| (t.to_vec(), k));
                    });
                    over.store(1, SeqCst);
                    o
                })
                .unwrap();
            let (mut last, mut age, mut ticks) = (0, 0, 0u64);
            while over.load(SeqCst) == 0 {
                let fast = ticks < 50;
                let nap = std::time::Duration::from_millis(if fast { 2 } else { 50 });
                let t0 = Instant::now();
                std::thread::sleep(nap);
                let late = t0.elapsed() > 3 * nap;
                ticks += 1;
                let g = now.lock().unwrap();
                if g.0 != last || g.1.is_none() {
                    last = g.0;
                    age = 0;
                } else if !fast && !late {
                    age += 1;
                    if age > 2000 {
                        let (t, k) = g.1.clone().unwrap();
                        let tape = t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                        let msg = "a case has run for over 100 s: an operation does not terminate";
                        let path = write_replay_named(p.id, s.name, name, harness, seed, last, &format!("{}\nthen: {}", tape, k), msg, &[], verif);
                        println!("{} {}: {}\nVIOLATION property={} replay={}", p.id, name, msg, p.id, path);
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
            h.join().unwrap()
        });
        out.push_str(&format!("{} {} {} {} {}", s.name, o.evals, o.corpus, o.edges, o.features));
        for d in &o.distinct {
            out.push_str(&format!(" {:x}", d));
        }
        out.push('\n');
        if let Some((tape, msg)) = o.fail {
            let (path, msg, notes) = report(p, s, &name, harness, seed, o.evals, tape, msg, false, verif);
            println!("{} {} after {} executions:\n  {}", p.id, name, o.evals, msg);
            for n in notes.iter().take(20) {
                println!("  input: {}", n);
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            rc = 1;
            break;
        }
    }
    if !part.is_empty() {
        std::fs::write(part, out).expect("write evidence part");
    }
    let _ = std::io::stdout().flush();
    rc
}
