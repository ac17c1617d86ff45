//! A fuzzing dictionary: the integer and string literals of the source under
//! test. It only steers generation; no verdict depends on it. A drawn literal
//! goes onto the choice tape by value, so replays do not need the dictionary.
//!
//! Literals the pinned tree already has (its curve constants, mostly) are
//! listed in literals.txt; when the tree under test has others, those are
//! drawn most of the time, as it is changes that have to be explored.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// Integers, the new ones first.
    pub ints: Vec<u64>,
    pub new: usize,
    pub strings: Vec<String>,
    /// The 256-bit constants ([u64; 4] written out), as four words.
    pub quads: Vec<[u64; 4]>,
}

fn sources(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    es.sort();
    for p in es {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

/// The literals of one file: comments are skipped.
pub fn scan(t: &str, ints: &mut BTreeMap<u64, u32>, strings: &mut BTreeSet<String>, seq: &mut Vec<(usize, u64)>) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            i += 2;
            while i < b.len() && !b[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let from = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            if let Some(s) = t.get(from..i.min(b.len())) {
                if s.len() <= 24 && !s.is_empty() {
                    strings.insert(s.to_string());
                }
            }
            i += 1;
        } else if c == b'\'' && i + 2 < b.len() && (b[i + 2] == b'\'' || b[i + 1] == b'\\') {
            let from = i + 1;
            i += 2;
            while i < b.len() && b[i] != b'\'' {
                i += 1;
            }
            if let Some(s) = t.get(from..i.min(b.len())) {
                strings.insert(s.to_string());
                if let [x] = s.as_bytes() {
                    *ints.entry(*x as u64).or_insert(0) += 1;
                }
            }
            i += 1;
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let from = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let w: String = t[from..i].chars().filter(|c| *c != '_').collect::<String>().to_lowercase();
            let (radix, digits) = match w.get(..2) {
                Some("0x") => (16, &w[2..]),
                Some("0b") => (2, &w[2..]),
                Some("0o") => (8, &w[2..]),
                _ => (10, &w[..]),
            };
            let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
            if let Ok(v) = u128::from_str_radix(&digits[..end], radix) {
                for x in [v as u64, (v >> 64) as u64] {
                    if x != 0 || v == 0 {
                        *ints.entry(x).or_insert(0) += 1;
                        seq.push((from, x));
                    }
                }
            }
        } else {
            i += 1;
        }
    }
}

fn load() -> Dict {
    let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let mut files = Vec::new();
    sources(&std::path::Path::new(&root).join("src"), &mut files);
    let mut ints = BTreeMap::new();
    let mut strings = BTreeSet::new();
    let mut quads = BTreeSet::new();
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            let mut seq = Vec::new();
            scan(&t, &mut ints, &mut strings, &mut seq);
            for w in seq.windows(4) {
                // four words in a row with nothing but punctuation between
                let gap = &t[w[0].0..w[3].0];
                if w.iter().any(|x| x.1 > u32::MAX as u64) && gap.matches(',').count() == 3 && !gap.contains(|c| "(){};[]".contains(c)) {
                    quads.insert([w[0].1, w[1].1, w[2].1, w[3].1]);
                }
            }
        }
    }
    // how often each literal stands in the pinned tree
    let mut pinned: BTreeMap<u64, u32> = BTreeMap::new();
    let mut pinned_strings = BTreeSet::new();
    for l in include_str!("../literals.txt").lines() {
        if let Some(s) = l.strip_prefix("s ") {
            pinned_strings.insert(s.to_string());
        } else if let Some((v, n)) = l.split_once(' ') {
            pinned.insert(v.parse().unwrap(), n.parse().unwrap());
        }
    }
    let fresh = |v: &u64, n: &u32| pinned.get(v).copied().unwrap_or(0) < *n;
    let mut d = Dict::default();
    d.ints = ints.iter().filter(|(v, n)| fresh(v, n)).map(|(v, _)| *v).collect();
    d.new = d.ints.len();
    d.ints.extend(ints.iter().filter(|(v, n)| !fresh(v, n)).map(|(v, _)| *v));
    let (old, new): (Vec<_>, Vec<_>) = strings.into_iter().partition(|s| pinned_strings.contains(s));
    d.strings = if new.is_empty() { old } else { new };
    d.quads = quads.into_iter().collect();
    d
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(load)
}

/// What literals.txt holds for the tree at VERIF_REPO.
pub fn dump() {
    let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let mut files = Vec::new();
    sources(&std::path::Path::new(&root).join("src"), &mut files);
    let (mut ints, mut strings) = (BTreeMap::new(), BTreeSet::new());
    for f in files {
        scan(&std::fs::read_to_string(&f).unwrap(), &mut ints, &mut strings, &mut Vec::new());
    }
    for (v, n) in ints {
        println!("{} {}", v, n);
    }
    for s in strings {
        if !s.contains('\n') {
            println!("s {}", s);
        }
    }
}
