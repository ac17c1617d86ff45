//! Coverage-guided search over choice tapes.
//!
//! Only in the guided build (`--cfg guided`), where rabe-bn alone is compiled
//! with LLVM's coverage instrumentation. Feedback: edge counters, how close
//! the two sides of every comparison came (value profile), and the operands of
//! recent comparisons, which are written into tapes. An execution joins the
//! corpus when it reaches a new edge or repetition count, or brings some
//! comparison closer to equality than all before it. A worker is one
//! single-threaded process with a fixed number of executions: a function of
//! (property, sub-check, seed, worker number), up to addresses that end up in
//! compared values. What it finds is a tape, which replays anywhere.
use crate::run::{run_case, Prop, Sub};
use crate::src::{mix, Rng, Src};
use std::collections::HashSet;

#[cfg(all(guided, target_arch = "x86_64"))]
mod hooks {
    use std::arch::naked_asm;
    pub const PROFILE: usize = 1 << 14;
    pub static mut COUNTERS: [(usize, usize); 64] = [(0, 0); 64];
    pub static mut NCOUNTERS: usize = 0;
    pub static mut TEXT: (usize, usize) = (usize::MAX, 0);
    /// A comparison in the code: operands that differed in the last execution
    /// (the first and the last four pairs), their number, 1 + the largest number of
    /// equal bits and 1 + the largest number of leading zeros of the
    /// difference so far.
    #[derive(Copy, Clone)]
    pub struct Site {
        pub pairs: [(u64, u64); 8],
        pub count: u32,
        pub known: bool,
        pub best: [u8; 2],
    }
    pub const NONE: Site = Site { pairs: [(0, 0); 8], count: 0, known: false, best: [0; 2] };
    pub static mut SITES: [Site; PROFILE] = [NONE; PROFILE];
    pub static mut KNOWN: [u16; PROFILE] = [0; PROFILE];
    pub static mut NKNOWN: usize = 0;
    pub static mut FRESH: u64 = 0;
    pub static mut ACTIVE: bool = false;

    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        let (a, b) = (start as usize, stop as usize);
        let n = NCOUNTERS;
        if a < b && n < 64 && !(0..n).any(|i| COUNTERS[i].0 == a) {
            COUNTERS[n] = (a, b);
            NCOUNTERS = n + 1;
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
        let mut p = start;
        while p < stop {
            TEXT.0 = TEXT.0.min(*p);
            TEXT.1 = TEXT.1.max(*p + 65536);
            p = p.add(2);
        }
    }

    unsafe extern "C" fn seen_pair(a: u64, b: u64, pc: u64) {
        if !ACTIVE || a == b {
            return;
        }
        // addresses differ from run to run
        let address = |x: u64| x >> 40 >= 0x55 && x >> 40 <= 0x7f;
        if address(a) || address(b) {
            return;
        }
        // relative, as programs are loaded anywhere
        let at = (pc.wrapping_sub(TEXT.0 as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 50) as usize;
        let e = &mut SITES[at];
        if !e.known {
            e.known = true;
            KNOWN[NKNOWN] = at as u16;
            NKNOWN += 1;
        }
        // the first four of an execution and the latest four
        if e.count >= 4 {
            e.pairs[4 + (e.count & 3) as usize] = (a, b);
            e.count = e.count.wrapping_add(1) | 4;
        } else if !e.pairs[..4].contains(&(a, b)) {
            e.pairs[e.count as usize] = (a, b);
            e.count += 1;
        }
        let close = [1 + (a ^ b).count_zeros() as u8, 1 + (a.wrapping_sub(b).min(b.wrapping_sub(a))).leading_zeros() as u8];
        for i in 0..2 {
            if close[i] > e.best[i] {
                e.best[i] = close[i];
                FRESH += 1;
            }
        }
    }
    unsafe extern "C" fn seen_pair4(a: u64, b: u64, pc: u64) {
        seen_pair(a & 0xffff_ffff, b & 0xffff_ffff, pc)
    }
    unsafe extern "C" fn seen_pair2(a: u64, b: u64, pc: u64) {
        seen_pair(a & 0xffff, b & 0xffff, pc)
    }
    unsafe extern "C" fn seen_pair1(a: u64, b: u64, pc: u64) {
        seen_pair(a & 0xff, b & 0xff, pc)
    }
    unsafe extern "C" fn seen_switch(v: u64, cases: *const u64, pc: u64) {
        let n = *cases as usize;
        for i in 0..n.min(64) {
            seen_pair(v, *cases.add(2 + i), pc.wrapping_add(i as u64));
        }
    }
    macro_rules! hook {
        ($($name:ident => $to:ident),*) => { $(
            #[unsafe(naked)]
            #[no_mangle]
            pub unsafe extern "C" fn $name(_a: u64, _b: u64) {
                naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym $to)
            }
        )* };
    }
    hook!(__sanitizer_cov_trace_cmp8 => seen_pair, __sanitizer_cov_trace_const_cmp8 => seen_pair,
          __sanitizer_cov_trace_cmp4 => seen_pair4, __sanitizer_cov_trace_const_cmp4 => seen_pair4,
          __sanitizer_cov_trace_cmp2 => seen_pair2, __sanitizer_cov_trace_const_cmp2 => seen_pair2,
          __sanitizer_cov_trace_cmp1 => seen_pair1, __sanitizer_cov_trace_const_cmp1 => seen_pair1,
          __sanitizer_cov_trace_switch => seen_switch);

    /// Array comparisons become calls of these two.
    unsafe extern "C" fn compare(a: *const u8, b: *const u8, n: usize, pc: usize) -> i32 {
        if ACTIVE && n >= 8 && n <= 128 && n % 8 == 0 && pc >= TEXT.0 && pc < TEXT.1 {
            let mut same = true;
            for i in 0..n / 8 {
                let (x, y) = ((a as *const u64).add(i).read_unaligned(), (b as *const u64).add(i).read_unaligned());
                if same {
                    // further in than before: a comparison of its own
                    seen_pair(x, y, pc as u64 + ((i as u64) << 40));
                } else {
                    let b = FRESH;
                    seen_pair(x, y, pc as u64 + ((16 + i as u64) << 40));
                    FRESH = b;
                }
                same &= x == y;
            }
        }
        let mut i = 0;
        while i < n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            if x != y {
                return x as i32 - y as i32;
            }
            i += 1;
        }
        0
    }
    #[unsafe(naked)]
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(_a: *const u8, _b: *const u8, _n: usize) -> i32 {
        naked_asm!("mov rcx, [rsp]", "jmp {f}", f = sym compare)
    }
    #[unsafe(naked)]
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(_a: *const u8, _b: *const u8, _n: usize) -> i32 {
        naked_asm!("mov rcx, [rsp]", "jmp {f}", f = sym compare)
    }
}

/// What one execution showed that no earlier one did.
#[cfg(all(guided, target_arch = "x86_64"))]
mod feedback {
    use super::hooks::*;
    pub fn available() -> bool {
        unsafe { NCOUNTERS > 0 }
    }
    pub fn reset() {
        unsafe {
            for i in 0..NKNOWN {
                SITES[KNOWN[i] as usize] = NONE;
            }
            NKNOWN = 0;
        }
    }
    pub fn start() {
        unsafe {
            for i in 0..NCOUNTERS {
                let (a, b) = COUNTERS[i];
                std::ptr::write_bytes(a as *mut u8, 0, b - a);
            }
            for i in 0..NKNOWN {
                SITES[KNOWN[i] as usize].count = 0;
                SITES[KNOWN[i] as usize].pairs = [(0, 0); 8];
            }
            FRESH = 0;
            ACTIVE = true;
        }
    }
    /// (new edges or new repetition counts of edges, new comparison distances)
    pub fn stop(seen: &mut Vec<u8>) -> (u64, u64) {
        unsafe {
            ACTIVE = false;
            let mut new = 0;
            let mut at = 0;
            for i in 0..NCOUNTERS {
                let (a, b) = COUNTERS[i];
                if seen.len() < at + b - a {
                    seen.resize(at + b - a, 0);
                }
                let mut p = a;
                while p < b {
                    if p % 8 == 0 && p + 8 <= b && *(p as *const u64) == 0 {
                        p += 8;
                        at += 8;
                        continue;
                    }
                    let c = *(p as *const u8);
                    if c != 0 {
                        let bit = match c {
                            1 => 1,
                            2 => 2,
                            3 => 4,
                            4..=7 => 8,
                            8..=15 => 16,
                            16..=31 => 32,
                            32..=127 => 64,
                            _ => 128,
                        };
                        if seen[at] & bit == 0 {
                            seen[at] |= bit;
                            new += 1;
                        }
                    }
                    at += 1;
                    p += 1;
                }
            }
            (new, FRESH)
        }
    }
    pub fn pairs() -> Vec<(u64, u64)> {
        unsafe { (0..NKNOWN).map(|i| SITES[KNOWN[i] as usize]).filter(|s| s.count > 0).flat_map(|s| s.pairs).filter(|(a, b)| a != b).collect() }
    }
    /// Operands of some comparison, those made seldom preferred.
    pub fn recent(r: &mut crate::src::Rng) -> (u64, u64) {
        unsafe {
            let mut best: Option<Site> = None;
            for _ in 0..12.min(NKNOWN) {
                let s = SITES[KNOWN[(r.next() % NKNOWN as u64) as usize] as usize];
                if s.count > 0 && best.map(|b| s.count < b.count).unwrap_or(true) {
                    best = Some(s);
                }
            }
            best.map(|s| s.pairs[(r.next() % 8) as usize]).unwrap_or((0, 0))
        }
    }
}
#[cfg(not(all(guided, target_arch = "x86_64")))]
mod feedback {
    pub fn available() -> bool {
        false
    }
    pub fn reset() {}
    pub fn start() {}
    pub fn stop(_: &mut Vec<u8>) -> (u64, u64) {
        (0, 0)
    }
    pub fn pairs() -> Vec<(u64, u64)> {
        vec![]
    }
    pub fn recent(_: &mut crate::src::Rng) -> (u64, u64) {
        (0, 0)
    }
}

pub fn available() -> bool {
    feedback::available()
}

pub struct Outcome {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub corpus: usize,
    pub edges: u64,
    pub features: u64,
    pub fail: Option<(Vec<u64>, String)>,
}

/// Places of the tape that one side of a comparison came from, whole or in
/// part, with the word that would make the two sides equal.
fn candidates(t: &[u64], pairs: &[(u64, u64)]) -> Vec<(usize, u64)> {
    let mut out: Vec<(usize, u64)> = Vec::new();
    let len = |x: u64| 64 - x.leading_zeros();
    for (a, b) in pairs.iter().flat_map(|(a, b)| [(*a, *b), (*b, *a)]) {
        if a < 256 {
            continue;
        }
        let z = (a | b).trailing_zeros().min(63);
        for (j, w) in t.iter().enumerate() {
            let k = len(*w).saturating_sub(len(a));
            let x = if *w == a {
                b
            } else if z >= 8 && w >> z == a >> z {
                b | w & ((1 << z) - 1)
            } else if k > 0 && w >> k == a && b << k >> k == b {
                b << k | w & ((1 << k) - 1)
            } else if *w as u32 as u64 == a {
                w >> 32 << 32 | b as u32 as u64
            } else {
                continue;
            };
            if !out.contains(&(j, x)) {
                out.push((j, x));
            }
        }
        if out.len() > 96 {
            break;
        }
    }
    out
}

fn near(r: &mut Rng, x: u64) -> u64 {
    x.wrapping_add(if r.next() % 4 == 0 { (r.next() % 3).wrapping_sub(1) } else { 0 })
}

struct Entry {
    tape: Vec<u64>,
    steps: Vec<(usize, u64)>,
}

fn mutate(r: &mut Rng, corpus: &[Entry]) -> Vec<u64> {
    // recent finds first: they are what the search is climbing on
    let pick = |r: &mut Rng| -> usize {
        let n = corpus.len() as u64;
        (if r.next() % 2 == 0 { n - 1 - r.next() % (n / 8 + 1) } else { r.next() % n }) as usize
    };
    let from = &corpus[pick(r)];
    let mut t = from.tape.clone();
    let steps = &from.steps;
    for _ in 0..1 + r.next() % 4 {
        if t.is_empty() {
            break;
        }
        let i = (r.next() % t.len() as u64) as usize;
        match r.next() % 12 {
            0 => t[i] = r.next(),
            1 => t[i] = t[i].wrapping_add(1 + r.next() % 8),
            2 => t[i] = t[i].wrapping_sub(1 + r.next() % 8),
            3 => t[i] ^= 1 << (r.next() % 64),
            4 => t[i] = r.next() % 32,
            5 | 6 | 7 => {
                let (a, b) = feedback::recent(r);
                if r.next() % 2 == 0 && !steps.is_empty() {
                    let (j, x) = steps[(r.next() % steps.len() as u64) as usize];
                    if j < t.len() {
                        t[j] = near(r, x);
                    }
                } else {
                    let x = if r.next() % 2 == 0 { a } else { b };
                    t[i] = near(r, x);
                }
            }
            8 => {
                let o = &corpus[pick(r)].tape;
                if i < o.len() {
                    t.truncate(i);
                    t.extend_from_slice(&o[i..]);
                }
            }
            9 => {
                let o = &corpus[pick(r)].tape;
                if !o.is_empty() {
                    let j = (r.next() % o.len() as u64) as usize;
                    let n = (1 + r.next() % 8) as usize;
                    for k in 0..n.min(o.len() - j).min(t.len() - i) {
                        t[i + k] = o[j + k];
                    }
                }
            }
            10 => {
                let j = (r.next() % t.len() as u64) as usize;
                t[i] = t[j];
            }
            _ => t.truncate(i),
        }
    }
    t
}

pub fn search(p: &Prop, sub: &Sub, seed: u64, worker: u64, n: u64, until: std::time::Instant, watch: &dyn Fn(Option<(&[u64], u64)>)) -> Outcome {
    let key = |k: u64| mix(mix(seed) ^ crate::run::hash_str(p.id).rotate_left(9) ^ crate::run::hash_str(sub.name).rotate_left(27) ^ mix(worker ^ (k << 20)).rotate_left(41));
    let mut r = Rng::new(key(0));
    let mut o = Outcome { evals: 0, distinct: HashSet::new(), corpus: 0, edges: 0, features: 0, fail: None };
    let mut corpus: Vec<Entry> = Vec::new();
    let mut seen = Vec::new();
    let mut todo: Vec<(usize, usize, u64)> = Vec::new();
    feedback::reset();
    while o.evals < n && (o.evals < 20 || std::time::Instant::now() < until) {
        let tape = match todo.pop() {
            Some((e, j, x)) if r.next() % 4 != 0 => {
                let mut t = corpus[e].tape.clone();
                t[j] = near(&mut r, x);
                t
            }
            _ if corpus.len() < 4 || r.next() % 5 == 0 => vec![],
            _ => mutate(&mut r, &corpus),
        };
        let then = r.next();
        watch(Some((&tape, then)));
        let mut s = Src::tape_then(tape, then);
        feedback::start();
        let res = run_case(sub.f, &mut s);
        let (edges, cmp) = feedback::stop(&mut seen);
        watch(None);
        o.evals += 1;
        o.edges += edges;
        o.features += cmp;
        if s.nontrivial {
            o.distinct.insert(s.hash ^ crate::run::hash_str(sub.name));
        }
        if let Err(m) = res {
            o.fail = Some((s.used, m));
            break;
        }
        if edges + cmp > 0 && s.used.len() <= 20_000 {
            let steps = candidates(&s.used, &feedback::pairs());
            // every one is tried once, the latest first
            todo.extend(steps.iter().map(|(j, x)| (corpus.len(), *j, *x)));
            if todo.len() > 4096 {
                todo.drain(..2048);
            }
            corpus.push(Entry { tape: s.used, steps });
        }
    }
    o.corpus = corpus.len();
    o
}
