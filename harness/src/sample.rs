//! C16: random sampling.
use crate::adapt::*;
use crate::codec::enc;
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::src::mix;
use engine::{ensure, Src, R};
use rabe_bn::arith::{U256, U512};
use rabe_bn::{Fr, Group, Gt, G1, G2};
use rand::distributions::{Distribution, Standard};
use rand::{Error, Rng, RngCore};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A generator with a given output stream of bytes.
#[derive(Clone)]
struct Script {
    kind: usize,
    a: u64,
    b: u64,
    pos: u64,
    flip: u64,
}
impl Script {
    fn good(seed: u64) -> Script {
        Script { kind: 0, a: mix(seed), b: 0, pos: 0, flip: u64::MAX }
    }
    fn byte(&mut self) -> u8 {
        let (w, o) = (self.pos / 8, self.pos % 8);
        let x = match self.kind {
            0 => mix(self.a ^ mix(w)),
            1 => 0,
            2 => u64::MAX,
            3 => self.a,
            4 => if w % 2 == 0 { self.a } else { self.b },
            5 => w.wrapping_mul(self.b).wrapping_add(self.a),
            6 => if w < self.b % 40 { self.a } else { 0 },
            7 => if w < self.b % 40 { 0 } else { mix(self.a ^ w) },
            8 => self.a & 0x0101_0101_0101_0101,
            _ => if w % (1 + self.b % 9) == 0 { u64::MAX } else { 0 },
        };
        let mut v = x.to_le_bytes()[o as usize];
        if self.flip / 8 == self.pos {
            v ^= 1 << (self.flip % 8);
        }
        self.pos += 1;
        assert!(self.pos < 1 << 24, "sampling has not ended after 16 million bytes of the generator");
        v
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// The same stream from a generator that samples from another one, and uses
/// the library, while it produces its output.
struct Within {
    outer: Script,
    inner: Script,
    way: usize,
    every: u64,
    calls: u64,
}
impl Within {
    fn meanwhile(&mut self) {
        if self.calls % self.every == 0 && self.calls < 3 * self.every {
            take(self.way, &mut self.inner);
        }
        self.calls += 1;
    }
}
impl RngCore for Within {
    fn next_u32(&mut self) -> u32 {
        self.meanwhile();
        self.outer.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.meanwhile();
        self.outer.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.meanwhile();
        self.outer.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// A generator that breaks down with a panic after some bytes.
pub struct Failing {
    pub left: u64,
    pub a: u64,
}
impl Failing {
    fn give(&mut self, n: u64) -> u64 {
        if self.left < n {
            panic!("the generator breaks down");
        }
        self.left -= n;
        self.a = mix(self.a);
        self.a
    }
}
impl RngCore for Failing {
    fn next_u32(&mut self) -> u32 {
        self.give(4) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.give(8)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.give(1) as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn script(s: &mut Src) -> Script {
    let kind = s.below(10);
    s.class(["good", "all zero", "all one", "constant word", "two words", "counter", "then zeros", "zeros first", "sparse bytes", "mostly zero"][kind]);
    let a = s.pick(&[0u64, 1, 2, 0xff, 0x43e1f593f0000001, 0x3c208c16d87cfd47, 1 << 63, u64::MAX - 1, 7]);
    let a = match s.weighted(&[2, 1, 1]) {
        0 => s.draw(0),
        1 => s.literal(),
        _ => a,
    };
    let b = if s.flag() { s.draw(0) } else { s.draw(40) };
    s.absorb(&[kind as u64, a, b]);
    s.note(|| format!("generator kind {} with {:x}, {:x}", kind, a, b));
    Script { kind, a, b, pos: 0, flip: u64::MAX }
}

/// One kind of sample, by one of the offered ways, as its stored words.
const WAYS: [&str; 12] = [
    "rng.gen::<Fr>()", "Standard.sample -> Fr", "G1::random", "rng.gen::<G1>()", "G1::random(dyn)", "G2::random", "rng.gen::<G2>()",
    "G2::random(dyn)", "rng.gen::<Gt>()", "Standard.sample -> Gt", "Fr via sample_iter", "G1 via dyn sample",
];
pub fn take<T: RngCore>(way: usize, g: &mut T) -> Vec<u8> {
    match way {
        0 => enc(&g.gen::<Fr>()),
        1 => {
            let f: Fr = Standard.sample(g);
            enc(&f)
        }
        2 => enc(&G1::random(g)),
        3 => enc(&g.gen::<G1>()),
        4 => enc(&G1::random(g as &mut dyn RngCore)),
        5 => enc(&G2::random(g)),
        6 => enc(&g.gen::<G2>()),
        7 => enc(&G2::random(g as &mut dyn RngCore)),
        8 => enc(&g.gen::<Gt>()),
        9 => {
            let t: Gt = Standard.sample(g as &mut dyn RngCore);
            enc(&t)
        }
        10 => {
            let f: Fr = g.sample_iter(Standard).next().unwrap();
            enc(&f)
        }
        _ => {
            let p: G1 = Standard.sample(g as &mut dyn RngCore);
            enc(&p)
        }
    }
}
fn valid(way: usize, b: &[u8]) -> R {
    fn point<G: LibGroup>(b: &[u8]) -> R {
        let c = q_vals(&words(b))?;
        let n = G::F::N;
        let r = (G::F::from_coords(&c[..n]), G::F::from_coords(&c[n..2 * n]), G::F::from_coords(&c[2 * n..]));
        if r.2.is_zero() {
            return Ok(());
        }
        let i = r.2.inv().unwrap();
        let (x, y) = (r.0.mul(&i.sq()), r.1.mul(&i.sq()).mul(&i));
        ensure!(on_curve(&x, &y), "sampled {} point is off the curve", G::NAME);
        ensure!(n == 1 || pmul(&Some((x, y)), &fr().m).is_none(), "sampled {} point is outside the group", G::NAME);
        Ok(())
    }
    match way {
        0 | 1 | 10 => {
            let w: U = words(b)[..].try_into().map_err(|_| "scalar of the wrong size".to_string())?;
            ensure!(lt(&w, &fr().m), "sampled scalar is not canonical: {}", hex(&w));
            Ok(())
        }
        2..=4 | 11 => point::<G1>(b),
        5..=7 => point::<G2>(b),
        _ => {
            let v = F12::from_tower(&q_vals(&words(b))?);
            ensure!(v.pow(&fr().m) == F12::one(), "sampled Gt element is outside the group");
            Ok(())
        }
    }
}

/// The same stream gives the same sample: again, later, elsewhere, and
/// whatever was sampled before.
fn deterministic(s: &mut Src) -> R {
    let g0 = script(s);
    let way = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11][s.weighted(&[6, 6, 6, 6, 3, 3, 3, 1, 1, 1, 3, 3])];
    let skip = s.below(3);
    let other = s.below(6);
    s.absorb(&[way as u64, skip as u64]);
    s.note(|| format!("{}, after {} other samples", WAYS[way], skip));
    s.nontrivial();
    s.class(WAYS[way]);
    let mut g = g0.clone();
    for _ in 0..skip {
        take(other, &mut g);
    }
    let snap = g.clone();
    let first = take(way, &mut g);
    valid(way, &first).map_err(|e| format!("{}: {}", WAYS[way], e))?;
    let used = g.pos;
    for round in 0..5 {
        let mut h = snap.clone();
        match round {
            1 => {
                take(way, &mut Script::good(s.draw(0)));
            }
            3 => {
                // a generator that breaks down half-way leaves nothing behind
                let mut f = Failing { left: s.draw(if way < 8 { 100 } else { 200 }), a: s.draw(0) };
                let by = if s.one_in(3) { s.below(12) } else { way };
                s.note(|| format!("after {} from a generator that fails after {} bytes", WAYS[by], f.left));
                let _ = catch_unwind(AssertUnwindSafe(|| take(by, &mut f)));
            }
            _ => {}
        }
        if round == 4 {
            if !s.one_in(3) {
                continue;
            }
            let inner = Script::good(s.draw(0));
            let by = [0, 1, 10, 2, 3, 11, 5, 8][s.weighted(&[4, 2, 2, 4, 2, 2, 1, 1])];
            let want = take(by, &mut inner.clone());
            let mut w = Within { outer: h, inner: inner.clone(), way: by, every: 1 + s.draw(40), calls: 0 };
            s.class("nested sampling");
            s.note(|| format!("with {} inside the generator, each {} requests", WAYS[by], w.every));
            let again = take(way, &mut w);
            ensure!(again == first, "{}: the same stream gives another sample when the generator itself samples", WAYS[way]);
            ensure!(w.outer.pos == used, "{}: the same stream is consumed differently", WAYS[way]);
            ensure!(take(by, &mut inner.clone()) == want, "{}: sampling after a nested sampling differs", WAYS[by]);
            continue;
        }
        let again = if round == 2 {
            std::thread::scope(|sc| sc.spawn(|| take(way, &mut h)).join()).map_err(|_| "panic on another thread".to_string())?
        } else {
            take(way, &mut h)
        };
        ensure!(again == first, "{}: the same stream gives another sample (round {})", WAYS[way], round);
        ensure!(round == 2 || h.pos == used, "{}: the same stream is consumed differently", WAYS[way]);
    }
    Ok(())
}

/// Integers below a modulus.
fn integers(s: &mut Src) -> R {
    let mut g = script(s);
    let mut m = match s.below(4) {
        0 => fr().m,
        1 => fq().m,
        2 => {
            let mut m = u256(s);
            m[3] >>= 2;
            m
        }
        _ => u(1 + s.draw(1000)),
    };
    if is_zero(&m) {
        m = ONE;
    }
    s.absorb(&m);
    s.note(|| format!("modulus {}", hex(&m)));
    s.nontrivial();
    let mut h = g.clone();
    let x = U256::random(&mut g, &U256(m));
    ensure!(lt(&x.0, &m), "U256::random is {} for modulus {}", hex(&x.0), hex(&m));
    let y = U256::random(&mut h as &mut dyn RngCore, &U256(m));
    ensure!(x == y && g.pos == h.pos, "U256::random is not a function of the stream");
    let (mut g, mut h) = (g.clone(), g);
    ensure!(U512::random(&mut g) == U512::random(&mut h), "U512::random is not a function of the stream");
    Ok(())
}

/// Every way has to depend on enough bits of the stream to reach the whole
/// group: a function of fewer than 254 bits has fewer than r values.
fn entropy(s: &mut Src) -> R {
    let way = [0, 2, 3, 5, 6, 8][s.draw(6) as usize];
    s.note(|| WAYS[way].to_string());
    s.absorb(&[way as u64]);
    s.nontrivial();
    let mut hit = HashSet::new();
    for seed in 0..2u64 {
        let base = Script::good(seed.wrapping_add(977));
        let mut g = base.clone();
        let v = take(way, &mut g);
        let bits = g.pos * 8;
        for i in 0..bits {
            if hit.len() >= 254 {
                break;
            }
            let mut g = base.clone();
            // spread over the whole stream
            g.flip = (i * 7919 + 13) % bits;
            let f = g.flip;
            if take(way, &mut g) != v {
                hit.insert(f);
            }
        }
    }
    ensure!(hit.len() >= 254, "{}: the sample depends on only {} bits of the stream", WAYS[way], hit.len());
    Ok(())
}

/// Wilson-Hilferty: the chi-square statistic as a standard normal deviate.
fn deviate(counts: &[u64], n: u64) -> f64 {
    let k = counts.len() as f64;
    let e = n as f64 / k;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e) * (*c as f64 - e) / e).sum();
    let d = k - 1.0;
    let t = 2.0 / (9.0 * d);
    ((x / d).powf(1.0 / 3.0) - (1.0 - t)) / t.sqrt()
}
/// floor(v * 2^k / m): which of 2^k equal parts of [0, m) holds v.
fn part(v: &U, m: &U, k: u32) -> usize {
    let mut w = widen(v);
    for _ in 0..k {
        shl1(&mut w);
    }
    lo(&divrem(&w, m).0)[0] as usize
}
const LIMIT: f64 = 8.0;

fn spread(what: &str, vals: &[U], m: &Md, scales: &[(&str, U)]) -> R {
    let n = vals.len() as u64;
    for (dom, f) in scales {
        let v: Vec<U> = vals.iter().map(|x| m.mul(x, f)).collect();
        let mut tests: Vec<(String, Vec<u64>)> = Vec::new();
        let mut c = vec![0u64; 64];
        let mut pairs = vec![0u64; 64];
        let mut prev: Option<usize> = None;
        for x in &v {
            let p = part(x, &m.m, 6);
            c[p] += 1;
            if let Some(q) = prev {
                pairs[(q << 3) | (p >> 3)] += 1u64;
            }
            prev = Some(p >> 3);
        }
        tests.push(("sixty-fourths".into(), c));
        tests.push(("successive eighths".into(), pairs));
        for shift in [0usize, 4, 32, 60, 64, 124, 128, 188, 192, 228] {
            let mut c = vec![0u64; 16];
            for x in &v {
                c[(x[shift / 64] >> (shift % 64)) as usize & 15] += 1;
            }
            tests.push((format!("bits {}..{}", shift, shift + 4), c));
        }
        for p in [3u64, 5, 7, 11, 13] {
            let mut c = vec![0u64; p as usize];
            for x in &v {
                c[divrem(&widen(x), &u(p)).1[0] as usize] += 1;
            }
            tests.push((format!("remainder by {}", p), c));
        }
        for (t, c) in tests {
            let z = deviate(&c, if t == "successive eighths" { n - 1 } else { n });
            ensure!(z < LIMIT, "{}: {} of {} samples ({}) are not uniform, {:.1} standard deviations: {:?}", what, t, n, dom, z, c);
        }
    }
    Ok(())
}

const BIG: u64 = 30_000;
fn uniform_scalars(s: &mut Src) -> R {
    let i = s.draw(24);
    let way = [0, 1, 10][(i % 3) as usize];
    s.absorb(&[i]);
    s.nontrivial();
    s.note(|| format!("{} samples of {} from seed {}", BIG, WAYS[way], i));
    let mut g = Script::good(i + 1);
    let mut seen = HashSet::new();
    let mut vals = Vec::new();
    for _ in 0..BIG {
        let b = take(way, &mut g);
        let raw: U = words(&b)[..].try_into().unwrap();
        ensure!(seen.insert(raw), "{}: two samples are the same scalar", WAYS[way]);
        vals.push(fr().mul(&raw, &rmont().rinv));
    }
    let m = rmont();
    let scales = [("value", ONE), ("stored form", m.r), ("value / R", m.rinv), ("value * R^2", fr().mul(&m.r, &m.r))];
    spread(WAYS[way], &vals, fr(), &scales)
}
fn uniform_integers(s: &mut Src) -> R {
    let i = s.draw(16);
    s.absorb(&[i]);
    s.nontrivial();
    let md = if i % 2 == 0 { fr() } else { fq() };
    s.note(|| format!("{} integers below {} from seed {}", BIG, hex(&md.m), i));
    let mut g = Script::good(i + 100);
    let vals: Vec<U> = (0..BIG).map(|_| U256::random(&mut g, &U256(md.m)).0).collect();
    spread("U256::random", &vals, md, &[("value", ONE)])
}

/// Group elements: coordinates spread over the field, no repeats, not even up
/// to sign.
fn uniform_points(s: &mut Src) -> R {
    let i = s.draw(8);
    s.absorb(&[i]);
    s.nontrivial();
    s.note(|| format!("{} samples, way {}", PTS, i));
    let mut g = Script::good(i + 200);
    let way = [2, 3, 5, 6, 11, 4, 7, 8][i as usize];
    let n = match way {
        2 | 3 | 11 | 4 => PTS * 3,
        8 => PTS / 4,
        _ => PTS,
    };
    let mut xs = Vec::new();
    let mut ys = Vec::new();
    let mut seen = HashSet::new();
    fn xy<G: LibGroup>(b: &[u8]) -> Result<(Vec<U>, Vec<U>), String> {
        let p: G = crate::codec::dec(b).map_err(|e| format!("a sampled point is refused: {}", e))?;
        match affine(&p)? {
            None => Err(format!("sampled {} is the identity", G::NAME)),
            Some((x, y)) => Ok((x.coords(), y.coords())),
        }
    }
    for _ in 0..n {
        let b = take(way, &mut g);
        let (x, y) = match way {
            2 | 3 | 11 | 4 => xy::<G1>(&b)?,
            5..=7 => xy::<G2>(&b)?,
            _ => {
                // an element and its inverse share the even coordinates
                let v = q_vals(&words(&b))?;
                (v[..6].to_vec(), v[6..].to_vec())
            }
        };
        ensure!(seen.insert(x.clone()), "{}: two samples are equal or inverse to one another", WAYS[way]);
        xs.extend(x);
        ys.extend(y);
    }
    spread(&format!("{}, first coordinates", WAYS[way]), &xs, fq(), &[("value", ONE), ("stored form", qmont().r)])?;
    spread(&format!("{}, second coordinates", WAYS[way]), &ys, fq(), &[("value", ONE), ("stored form", qmont().r)])
}
const PTS: u64 = 2_000;

/// The scalars a sampler may have made from a window of its stream: of 64
/// bytes in a row, or of the low bytes of 64 words.
fn read_off(h: &mut Script, stride: u64) -> Vec<U> {
    let mut b = [0u8; 64];
    for x in b.iter_mut() {
        *x = h.byte();
        h.pos += stride - 1;
    }
    let le: W = words(&b)[..].try_into().unwrap();
    let be = from_be(&b);
    let mut out = Vec::new();
    for w in [le, be] {
        let v = fr().red(&w);
        for f in [ONE, rmont().r, rmont().rinv] {
            out.push(fr().mul(&v, &f));
        }
    }
    out
}
/// Exponents that are not uniform although the scalar v is.
fn skewed(v: &U) -> Vec<(&'static str, U)> {
    let m = fr();
    let mut out = vec![("its square", m.mul(v, v)), ("its cube", m.mul(v, &m.mul(v, v)))];
    for (n, k) in [("its low 64 bits", 64), ("its low 128 bits", 128), ("its low 192 bits", 192), ("its low 248 bits", 248)] {
        let mut a = *v;
        for b in k..256 {
            a[b / 64] &= !(1 << (b % 64));
        }
        out.push((n, a));
    }
    let mut a = *v;
    for i in 0..4 {
        a[i] = v[i] >> 1 | if i < 3 { v[i + 1] << 63 } else { 0 };
    }
    out.push(("its half, rounded", a));
    out
}

/// Where the discrete logarithm of a sample can be read off the stream, it
/// has to be so for all streams: a sampler that follows a uniform scalar on
/// some streams but not on others is not uniform. Nor is one whose logarithm
/// is a lopsided function of that scalar.
fn logs<G: LibGroup>(s: &mut Src) -> R {
    const N: u64 = 48;
    let i = s.draw(3);
    let way = if G::F::N == 1 { [2, 3, 11][i as usize] } else { [5, 6, 7][i as usize] };
    s.absorb(&[i, G::F::N as u64]);
    s.nontrivial();
    let mut hits = [0u64; 12];
    for k in 0..N {
        let mut g = Script::good(3000 + 100 * i + k);
        let h = g.clone();
        let p: G = crate::codec::dec(&take(way, &mut g)).map_err(|e| format!("a sampled point is refused: {}", e))?;
        let a = affine(&p)?;
        if g.pos < 64 {
            continue;
        }
        let mut vs = read_off(&mut h.clone(), 1);
        vs.extend(read_off(&mut h.clone(), 4));
        for (t, v) in vs.iter().enumerate() {
            if gmul::<G::F>(v) == a {
                hits[t] += 1;
            } else if k < 8 {
                for (n, e) in skewed(v) {
                    ensure!(gmul::<G::F>(&e) != a, "{}: the sample's logarithm is not a uniform scalar of its stream but {}", WAYS[way], n);
                }
            }
        }
    }
    s.note(|| format!("{}: streams explained by each of twelve readings: {:?}", WAYS[way], hits));
    for h in hits {
        if h == N {
            s.class("logarithm known");
        }
        ensure!(h == 0 || h == N, "{}: only {} of {} samples follow the uniform scalar of their stream", WAYS[way], h, N);
    }
    Ok(())
}
/// The same for Gt, whose samples may also follow the product of two scalars.
fn logs_gt(s: &mut Src) -> R {
    const N: u64 = 16;
    let way = 8 + s.draw(2) as usize;
    s.absorb(&[way as u64]);
    s.nontrivial();
    let mut hits = [0u64; 24];
    for k in 0..N {
        let mut g = Script::good(4000 + 100 * way as u64 + k);
        let (mut h, mut l) = (g.clone(), g.clone());
        let t: Gt = crate::codec::dec(&take(way, &mut g)).map_err(|e| format!("a sampled element is refused: {}", e))?;
        let a = gt_val(&t)?;
        if g.pos < 64 {
            continue;
        }
        let mut first = read_off(&mut h, 1);
        first.extend(read_off(&mut l, 4));
        let mut second = read_off(&mut h, 1);
        second.extend(read_off(&mut l, 4));
        let mut known = false;
        for (t, v) in first.iter().enumerate() {
            if gt_pow(v) == a {
                hits[t] += 1;
                known = true;
            }
            if let Some(w) = second.get(t) {
                if gt_pow(&fr().mul(v, w)) == a {
                    hits[12 + t] += 1;
                    known = true;
                }
            }
        }
        if !known && k < 4 {
            for v in first.iter().chain(&second) {
                for (n, e) in skewed(v) {
                    ensure!(gt_pow(&e) != a, "{}: the sample's logarithm is not a uniform scalar of its stream but {}", WAYS[way], n);
                }
            }
        }
    }
    s.note(|| format!("{}: streams explained by each of twelve scalars and products: {:?}", WAYS[way], hits));
    for h in hits {
        if h == N {
            s.class("logarithm known");
        }
        ensure!(h == 0 || h == N, "{}: only {} of {} samples follow the uniform scalars of their stream", WAYS[way], h, N);
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "Generators with a scripted output stream: good, all zero, all one, constant, periodic, counting, sparse; every way of sampling (gen, Standard.sample, sample_iter, Group::random, unsized generators). Determinism in the stream whatever came before, on another thread, with the same consumption; membership; dependence on at least 254 stream bits; chi-square tests (deviation limit 8 sigma, fixed generators) of scalars and coordinates in value and stored form, remainders, bit groups, successive samples; no repeats; discrete logarithms read off the stream (as scalars of it, products of two, squares and other lopsided functions) for all streams or none, and never lopsided. Non-trivial: every case.",
        assumptions: &["a good generator is one with a 64-bit-mixed counter stream; the statistical tests use fixed seeds, so they cannot fail by chance on a run"],
        subs: vec![
            grid("uniform-scalars", 24, uniform_scalars),
            grid("uniform-integers", 16, uniform_integers),
            grid("uniform-points", 8, uniform_points),
            grid("entropy", 6, entropy),
            grid("logs-g1", 3, logs::<G1>),
            grid("logs-g2", 3, logs::<G2>),
            grid("logs-gt", 2, logs_gt),
            sub("deterministic", 2_500, 120_000, deterministic),
            sub("integers", 20_000, 1_000_000, integers),
        ],
    }
}
