//! C18: transcripts of generated computations. Every build configuration runs
//! the same scripts; `check` compares what they write. What a script does
//! never depends on a result, so the configurations stay in step.
use crate::adapt::*;
use crate::codec::{dec, enc};
use crate::store::{bend, near_gt, twist_point};
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::src::mix;
use engine::Src;
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};
use rand::{Error, Rng, RngCore};
use std::panic::{catch_unwind, AssertUnwindSafe};

const N: usize = 3;

struct Stream(u64, u64);
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        assert!(self.1 < 1 << 20, "sampling does not end");
        match self.0 % 5 {
            0 => 0,
            1 => u64::MAX,
            _ => mix(self.0 ^ mix(self.1)),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn hexb(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn show_fr(f: &Fr) -> String {
    format!("{} {} {} {:?} zero={}", hexb(&enc(f)), hexb(&f.into_bytes()), f, f, f.is_zero())
}
fn show_pt<G: LibGroup>(g: &G) -> String {
    let mut n = *g;
    n.normalize();
    format!("{} {} {} {:?} zero={}", hexb(&enc(g)), hexb(&g.into_bytes()), hexb(&n.into_bytes()), n, g.is_zero())
}
fn show_gt(g: &Gt) -> String {
    format!("{} {} {} {:?} one={}", hexb(&enc(g)), hexb(&g.into_bytes()), g, g, *g == Gt::one())
}

struct Regs {
    f: Vec<Fr>,
    a: Vec<G1>,
    b: Vec<G2>,
    t: Vec<Gt>,
}

/// Run a step; a panic is an outcome like any other.
fn step<T: Copy>(slot: &mut T, show: fn(&T) -> String, f: impl FnOnce() -> Result<T, String>) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => {
            *slot = v;
            catch_unwind(AssertUnwindSafe(|| show(&v))).unwrap_or("panic while showing".into())
        }
        Ok(Err(e)) => e,
        Err(_) => "panic".into(),
    }
}
fn text(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or("panic".into())
}

fn points<G: LibGroup>(s: &mut Src, f: &[Fr], r: &mut Vec<G>) -> (String, String) {
    let (i, j, k, h, op) = (s.below(N), s.below(N), s.below(N), s.below(N), s.weighted(&[5, 4, 2, 3, 2, 1, 2, 1]));
    let (x, y, c) = (r[i], r[j], f[h]);
    let seed = s.draw(0);
    let kind = s.below(3);
    let name = format!("{} r{} = {} r{} r{}", G::NAME, k, ["+", "-", "neg", "* scalar", "normalize", "sample", "import", "compare"][op], i, j);
    let out = match op {
        6 => {
            // words that are sometimes no member
            let p = match kind {
                0 => G::F::member(s),
                1 => lift::<G::F>(s),
                _ => None,
            };
            let rp = repr(s, &p);
            let mut cs = rp.0.coords();
            cs.extend(rp.1.coords());
            cs.extend(rp.2.coords());
            let mut w = q_words(&cs);
            bend(s, &mut w, &fq().m);
            let b = cut(s, unwords(&w));
            step(&mut r[k], show_pt, || dec::<G>(&b).map_err(|_| "refused".into()))
        }
        7 => text(|| format!("{} {} {}", x == y, y == x, x != y)),
        _ => step(&mut r[k], show_pt, || {
            Ok(match op {
                0 => x + y,
                1 => x - y,
                2 => -x,
                3 => x * c,
                4 => {
                    let mut n = x;
                    n.normalize();
                    n
                }
                _ => G::random(&mut Stream(seed, 0)),
            })
        }),
    };
    (name, out)
}

/// Now and then too short, or too long (both readers leave the rest alone).
fn cut(s: &mut Src, mut b: Vec<u8>) -> Vec<u8> {
    match s.weighted(&[12, 1, 1, 1]) {
        0 => {}
        1 => b.truncate(s.below(b.len())),
        2 => b.truncate(s.below(b.len() / 8) * 8),
        _ => b.push(s.draw(256) as u8),
    }
    b
}

fn scalars(s: &mut Src, f: &mut Vec<Fr>) -> (String, String) {
    let (i, j, k, op) = (s.below(N), s.below(N), s.below(N), s.below(13));
    let (x, y) = (f[i], f[j]);
    let name = format!(
        "scalar r{} = {} r{} r{}",
        k, ["+", "-", "*", "neg", "inverse", "pow", "from_str", "from_slice", "interpret", "new_mul_factor", "stored", "sample", "compare"][op], i, j
    );
    let out = match op {
        6 => {
            let a = w512(s);
            let mut t = to_dec(&a);
            if s.one_in(3) {
                let at = s.below(t.len() + 1);
                t.insert(at, s.pick(&['-', '+', ' ', 'a', '.', 'x', '\u{663}', '0', '9']));
            }
            step(&mut f[k], show_fr, || Fr::from_str(&t).ok_or("refused".into()))
        }
        7 => {
            let a = u256(s);
            let mut b = to_be32(&a).to_vec();
            match s.below(4) {
                0 => b.truncate(s.below(32)),
                1 => b.push(s.draw(256) as u8),
                _ => {}
            }
            step(&mut f[k], show_fr, || Fr::from_slice(&b).map_err(|e| format!("refused {:?}", e)))
        }
        8 => {
            let w = w512(s);
            let mut b = [0u8; 64];
            for (n, l) in w.iter().rev().enumerate() {
                b[8 * n..8 * n + 8].copy_from_slice(&l.to_be_bytes());
            }
            step(&mut f[k], show_fr, || Ok(Fr::interpret(&b)))
        }
        9 => {
            let a = u256(s);
            step(&mut f[k], show_fr, || Ok(Fr::new_mul_factor(U256(a))))
        }
        10 => {
            let v = scalar(s);
            let mut w = fr().mul(&v, &rmont().r).to_vec();
            bend(s, &mut w, &fr().m);
            let b = cut(s, unwords(&w));
            step(&mut f[k], show_fr, || dec::<Fr>(&b).map_err(|_| "refused".into()))
        }
        11 => {
            let seed = s.draw(0);
            step(&mut f[k], show_fr, || Ok(Stream(seed, 0).gen::<Fr>()))
        }
        12 => text(|| format!("{} {}", x == y, x != y)),
        _ => step(&mut f[k], show_fr, || {
            Ok(match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => -x,
                4 => return x.inverse().ok_or("none".into()),
                _ => x.pow(y),
            })
        }),
    };
    (name, out)
}

fn gts(s: &mut Src, r: &mut Regs) -> (String, String) {
    let (i, j, k, h, op) = (s.below(N), s.below(N), s.below(N), s.below(N), s.weighted(&[4, 3, 3, 3, 1, 2, 1]));
    let (x, y, c, p, q) = (r.t[i], r.t[j], r.f[h], r.a[i], r.b[j]);
    let seed = s.draw(0);
    let name = format!("Gt r{} = {} r{} r{}", k, ["pairing", "*", "inverse", "pow", "sample", "import", "compare"][op], i, j);
    let out = match op {
        5 => {
            let v = near_gt(s);
            let mut w = q_words(&v.tower());
            bend(s, &mut w, &fq().m);
            let b = cut(s, unwords(&w));
            step(&mut r.t[k], show_gt, || dec::<Gt>(&b).map_err(|_| "refused".into()))
        }
        6 => text(|| format!("{} {}", x == y, x != y)),
        _ => step(&mut r.t[k], show_gt, || {
            Ok(match op {
                0 => pairing(p, q),
                1 => x * y,
                2 => x.inverse(),
                3 => x.pow(c),
                _ => Stream(seed, 0).gen::<Gt>(),
            })
        }),
    };
    (name, out)
}

/// The public big-integer module, within its preconditions.
fn ints(s: &mut Src) -> (String, String) {
    let op = s.below(12);
    let name = format!("big integers, operation {}", op);
    let md = if s.flag() { fr() } else { fq() };
    let inv = if md.m == fr().m { 0xc2e1f593efffffffu64 } else { 0x87d20782e4866389 };
    let (a, b, w, n) = (u256(s), u256(s), w512(s), s.below(600));
    let (x, y, m) = (U256(md.of(&a)), U256(md.of(&b)), U256(md.m));
    let out = text(|| match op {
        0 => {
            let mut z = x;
            z.add(&y, &m);
            format!("{:?}", z)
        }
        1 => {
            let mut z = x;
            z.sub(&y, &m);
            format!("{:?}", z)
        }
        2 => {
            let mut z = x;
            z.mul(&y, &m, inv);
            format!("{:?}", z)
        }
        3 => {
            let mut z = x;
            z.neg(&m);
            format!("{:?}", z)
        }
        4 => {
            let mut z = if x.is_zero() { U256::one() } else { x };
            z.invert(&m);
            format!("{:?}", z)
        }
        5 => format!("{:?}", U512(w).divrem(&m)),
        6 => format!("{:?}", U512::from(&x, &y, &m)),
        7 => {
            let mut z = U256(a);
            let r = z.set_bit(n, s.flag());
            format!("{} {:?} {:?} {:?}", r, z, z.get_bit(n), U512(w).get_bit(n))
        }
        8 => format!("{:?} {} {}", U256(a).cmp(&U256(b)), U256(a) < U256(b), U256(a) == U256(b)),
        9 => format!("{} {} {:?} {}", U256(a), U512(w), U256(a).bits().collect::<Vec<_>>(), U256(a).is_even()),
        10 => format!("{:?} {}", U256::from_slice(&a.iter().flat_map(|l| l.to_be_bytes()).take(n).collect::<Vec<_>>()).map_err(|_| "refused"), hexb(&U256(a).into_bytes())),
        _ => format!("{:?} {:?}", dec::<U256>(&unwords(&a)), dec::<U512>(&unwords(&w))),
    });
    (name, out)
}

pub fn case(seed: u64, i: u64, steps: usize) -> (Vec<(String, String)>, u64) {
    let mut src = Src::random(mix(seed ^ 0xC18) ^ mix(i).rotate_left(23));
    let s = &mut src;
    let mut log = Vec::new();
    let mut r = Regs { f: vec![], a: vec![], b: vec![], t: vec![] };
    for n in 0..N {
        let (k, p) = (scalar(s), scalar(s));
        let q = if n == 2 { None } else { F1::member(s) };
        let (rp, rq) = (repr(s, &q), repr(s, &gmul::<F2>(&p)));
        let t = gt_pow(&k);
        r.f.push(Fr::one());
        r.a.push(G1::one());
        r.b.push(G2::one());
        r.t.push(Gt::one());
        log.push(("scalar".into(), step(&mut r.f[n], show_fr, || Ok(fr_of(&k)))));
        log.push(("point".into(), step(&mut r.a[n], show_pt, || Ok(mk(&rp)))));
        log.push(("point".into(), step(&mut r.b[n], show_pt, || Ok(mk(&rq)))));
        log.push(("element".into(), step(&mut r.t[n], show_gt, || Ok(gt_of(&t)))));
    }
    if i % 8 == 3 {
        // members and non-members of the twist group
        let p = twist_point(s);
        let rp = repr(s, &p);
        let mut c = rp.0.coords();
        c.extend(rp.1.coords());
        c.extend(rp.2.coords());
        let w = q_words(&c);
        let o = step(&mut r.b[0], show_pt, || dec::<G2>(&unwords(&w)).map_err(|_| "refused".into()));
        log.push(("twist point".to_string(), o));
    }
    let n = (6 + s.below(20)).min(steps);
    for _ in 0..n {
        let e = match s.weighted(&[5, 5, 3, 3, 4]) {
            0 => scalars(s, &mut r.f),
            1 => points::<G1>(s, &r.f, &mut r.a),
            2 => points::<G2>(s, &r.f, &mut r.b),
            3 => gts(s, &mut r),
            _ => ints(s),
        };
        log.push(e);
    }
    (log, src.hash)
}

/// transcript --seed S --from A --to B [--steps K] [--show]
/// One line per case: index, digest, digest of the inputs.
pub fn transcript() -> i32 {
    engine::run::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: u64| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (seed, from, to, steps) = (opt("--seed", 1), opt("--from", 0), opt("--to", 1), opt("--steps", 1_000_000) as usize);
    if args.iter().any(|a| a == "--show") {
        for (n, (a, b)) in case(seed, from, steps).0.iter().enumerate() {
            println!("{} {} => {}", n, a, b);
        }
        return 0;
    }
    let next = std::sync::atomic::AtomicU64::new(from);
    let out = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for _ in 0..std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= to {
                        break;
                    }
                    let (log, h) = case(seed, i, steps);
                    let mut d = 0u128;
                    for (a, b) in &log {
                        for x in a.bytes().chain([0]).chain(b.bytes()).chain([1]) {
                            d = (d ^ x as u128).wrapping_mul(0x0000000001000000000000000000013B);
                        }
                    }
                    out.lock().unwrap().push((i, d, h, log.len()));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    for (i, d, h, n) in v {
        println!("{} {:032x} {:016x} {}", i, d, h, n);
    }
    0
}
