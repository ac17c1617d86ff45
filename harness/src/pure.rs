//! C19: no hidden state. The same calls are made in several orders, several
//! times, on several threads and in fresh processes, and every outcome is
//! compared with the first and with the reference.
use crate::adapt::*;
use crate::codec::{dec, enc};
use crate::group::repr_near;
use crate::sample::Failing;
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};
use rand::{Rng, SeedableRng};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A call with its arguments in a pool, and what the reference says.
#[derive(Clone, Copy, Debug)]
struct Call {
    op: usize,
    i: usize,
    j: usize,
    k: usize,
}
struct Pool {
    f: Vec<(U, Fr)>,
    a: Vec<(U, G1)>,
    b: Vec<(U, G2)>,
    t: Vec<(U, Gt)>,
}
const N: usize = 5;

/// Values that are easy to confuse: negatives, images with the same y, other
/// representations with a common coordinate.
fn pool(s: &mut Src) -> Pool {
    pool_with(s, true)
}
fn pool_with(s: &mut Src, targets: bool) -> Pool {
    let m = fr();
    let lambda = *lambda();
    let mut p = Pool { f: vec![], a: vec![], b: vec![], t: vec![] };
    let near = |s: &mut Src, k: &U| match s.weighted(&[3, 3, 3, 1, 2]) {
        0 => *k,
        1 => m.neg(k),
        2 => m.mul(k, &lambda),
        3 => ZERO,
        _ => scalar(s),
    };
    fn pt<G: LibGroup>(s: &mut Src, k: &U, first: &mut Option<(G::F, G::F, G::F)>) -> G {
        let q = gmul::<G::F>(k);
        let r = match first {
            None => repr(s, &q),
            Some(f) => repr_near(s, &q, f),
        };
        if first.is_none() {
            *first = Some(r);
        }
        mk(&r)
    }
    let (mut ra, mut rb) = (None, None);
    for n in 0..N {
        if n == 0 {
            let (x, y, z) = (scalar(s), scalar(s), scalar(s));
            p.f.push((x, fr_of(&x)));
            p.a.push((y, pt(s, &y, &mut ra)));
            p.b.push((z, pt(s, &z, &mut rb)));
            p.t.push(if targets { (y, gt_of(&gt_pow(&y))) } else { (ZERO, Gt::one()) });
        } else {
            let x = related(s, m, rmont(), &p.f[0].0);
            let y = near(s, &p.a[0].0);
            let z = near(s, &p.b[0].0);
            p.f.push((x, fr_of(&x)));
            p.a.push((y, pt(s, &y, &mut ra)));
            p.b.push((z, pt(s, &z, &mut rb)));
            p.t.push(if targets { (y, gt_of(&gt_pow(&y))) } else { (ZERO, Gt::one()) });
        }
    }
    p
}
/// The eigenvalue of the endomorphism (x, y) -> (beta x, y) modulo r.
fn lambda() -> &'static U {
    use std::sync::OnceLock;
    static L: OnceLock<U> = OnceLock::new();
    L.get_or_init(|| {
        // a primitive cube root of unity modulo r
        let m = fr();
        let mut e = m.m;
        sub_in(&mut e, &[1]);
        let (q, _) = divrem(&widen(&e), &u(3));
        for g in 2..50u64 {
            let l = m.pow(&u(g), &lo(&q));
            if l != ONE {
                return l;
            }
        }
        unreachable!()
    })
}

const OPS: usize = 29;
const NAMES: [&str; OPS] = [
    "P + P'", "P - P'", "-P", "P * k", "normalize P", "P == P'", "Q + Q'", "Q - Q'", "Q * k", "normalize Q", "Q == Q'", "pairing(P, Q)",
    "x * y", "x^-1", "x^k", "k + l", "k * l", "k^-1", "k^l", "store and reload P, Q, x", "bytes and printed forms", "import k", "interpret k", "big integers", "sample from a stream",
    "sample from a failing generator", "refuse bytes", "fail to write", "the generators times k",
];
fn weight() -> [u64; OPS] {
    [3, 3, 1, 4, 3, 2, 3, 2, 2, 2, 2, 6, 2, 2, 2, 1, 1, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 2]
}

fn call(p: &Pool, c: Call) -> Vec<u8> {
    let (k, l) = (p.f[c.k].1, p.f[c.j].1);
    let (x, y) = (p.a[c.i].1, p.a[c.j].1);
    let (q, w) = (p.b[c.i].1, p.b[c.j].1);
    let (g, h) = (p.t[c.i].1, p.t[c.j].1);
    match c.op {
        0 => enc(&(x + y)),
        1 => enc(&(x - y)),
        2 => enc(&(-x)),
        3 => enc(&(x * k)),
        4 => {
            let mut n = x;
            n.normalize();
            enc(&n)
        }
        5 => vec![(x == y) as u8, (y == x) as u8, x.is_zero() as u8],
        6 => enc(&(q + w)),
        7 => enc(&(q - w)),
        8 => enc(&(q * k)),
        9 => {
            let mut n = q;
            n.normalize();
            enc(&n)
        }
        10 => vec![(q == w) as u8, (w == q) as u8, q.is_zero() as u8],
        11 => enc(&pairing(x, p.b[c.k].1)),
        12 => enc(&(g * h)),
        13 => enc(&g.inverse()),
        14 => enc(&g.pow(k)),
        15 => enc(&(k + l)),
        16 => enc(&(k * l)),
        17 => k.inverse().map(|v| enc(&v)).unwrap_or(vec![]),
        18 => enc(&k.pow(l)),
        19 => {
            let (a, b, t): (Result<G1, _>, Result<G2, _>, Result<Gt, _>) = (dec(&enc(&x)), dec(&enc(&q)), dec(&enc(&g)));
            match (a, b, t) {
                (Ok(a), Ok(b), Ok(t)) => [enc(&a), enc(&b), enc(&t)].concat(),
                _ => vec![],
            }
        }
        20 => [x.into_bytes(), q.into_bytes(), g.into_bytes(), k.into_bytes(), format!("{} {:?} {:?} {} {} {:?}", x, x, q, g, k, k).into_bytes()].concat(),
        22 => {
            let mut b = [0u8; 64];
            b[32..].copy_from_slice(&to_be32(&p.f[c.k].0));
            enc(&Fr::interpret(&b))
        }
        23 => {
            let m = U256(fr().m);
            let (x, y) = (U256(p.f[c.k].0), U256(p.f[c.j].0));
            let w = U512::from(&x, &y, &m);
            let (q, r) = w.divrem(&m);
            let mut i = x;
            i.add(&y, &m);
            [enc(&w), enc(&q.unwrap_or(U256([u64::MAX; 4]))), enc(&r), enc(&i)].concat()
        }
        24 => {
            let seed = p.f[c.k].0[0];
            let mut r = rand::rngs::StdRng::seed_from_u64(seed);
            let a: Fr = r.gen();
            enc(&(a, r.gen::<u64>()))
        }
        25 => {
            // the panic is the generator's own
            let mut g = Failing { left: p.f[c.k].0[0] % 90, a: 5 };
            let way = [0, 1, 2, 3, 5, 8][c.i % 6];
            vec![catch_unwind(AssertUnwindSafe(|| crate::sample::take(way, &mut g))).is_err() as u8]
        }
        26 => {
            let cut = |b: Vec<u8>| b[..b.len() - 1 - c.j].to_vec();
            let bend = |mut b: Vec<u8>| {
                b[32] ^= 1;
                b
            };
            vec![
                dec::<Fr>(&cut(enc(&k))).is_err() as u8,
                dec::<Fr>(&[255; 32]).is_err() as u8,
                dec::<G1>(&cut(enc(&x))).is_err() as u8,
                // y changes by one: off the curve
                (x.is_zero() || dec::<G1>(&bend(enc(&x))).is_err()) as u8,
                dec::<G2>(&cut(enc(&q))).is_err() as u8,
                dec::<Gt>(&cut(enc(&g))).is_err() as u8,
                Fr::from_slice(&[1; 31]).is_err() as u8,
                Fr::from_str("12a").is_none() as u8,
                Fr::zero().inverse().is_none() as u8,
            ]
        }
        27 => {
            let n = (p.f[c.k].0[0] % 32) as usize;
            vec![crate::codec::broken(&k, n), crate::codec::broken(&x, n), crate::codec::broken(&q, n), crate::codec::broken(&g, n)]
        }
        28 => [enc(&(G1::one() * k)), enc(&(G2::one() * k))].concat(),
        _ => {
            let v = p.f[c.k].0;
            let mut b = [0u8; 64];
            b[32..].copy_from_slice(&to_be32(&v));
            match (Fr::from_slice(&to_be32(&v)), Fr::from_str(&to_dec(&v))) {
                (Ok(a), Some(d)) => [enc(&a), enc(&d), enc(&Fr::interpret(&b))].concat(),
                _ => vec![],
            }
        }
    }
}

/// The value a call has to have, where the reference covers it.
fn check(p: &Pool, c: Call, out: &[u8]) -> R {
    let m = fr();
    let (x, y, k) = (p.a[c.i].0, p.a[c.j].0, p.f[c.k].0);
    let (q, w) = (p.b[c.i].0, p.b[c.j].0);
    let (g, h) = (p.t[c.i].0, p.t[c.j].0);
    let name = NAMES[c.op];
    fn pt<G: LibGroup>(name: &str, out: &[u8], e: &U) -> R {
        let v: G = dec(out).map_err(|e| format!("{}: the result is refused: {}", name, e))?;
        is(name, &v, &gmul::<G::F>(e))
    }
    let gt = |e: U| -> R {
        let v: Gt = dec(out).map_err(|e| format!("{}: the result is refused: {}", name, e))?;
        gt_is(name, &v, &gt_pow(&e))
    };
    let sc = |e: U| -> R {
        let v: Fr = dec(out).map_err(|e| format!("{}: the result is refused: {}", name, e))?;
        fr_is(name, &v, &e)
    };
    match c.op {
        0 => pt::<G1>(name, out, &m.add(&x, &y)),
        1 => pt::<G1>(name, out, &m.sub(&x, &y)),
        2 => pt::<G1>(name, out, &m.neg(&x)),
        3 => pt::<G1>(name, out, &m.mul(&x, &k)),
        4 => pt::<G1>(name, out, &x),
        5 => {
            ensure!(out == [(x == y) as u8, (x == y) as u8, is_zero(&x) as u8], "{} is {:?}", name, out);
            Ok(())
        }
        6 => pt::<G2>(name, out, &m.add(&q, &w)),
        7 => pt::<G2>(name, out, &m.sub(&q, &w)),
        8 => pt::<G2>(name, out, &m.mul(&q, &k)),
        9 => pt::<G2>(name, out, &q),
        10 => {
            ensure!(out == [(q == w) as u8, (q == w) as u8, is_zero(&q) as u8], "{} is {:?}", name, out);
            Ok(())
        }
        11 => gt(m.mul(&x, &p.b[c.k].0)),
        12 => gt(m.add(&g, &h)),
        13 => gt(m.neg(&g)),
        14 => gt(m.mul(&g, &k)),
        15 => sc(m.add(&k, &p.f[c.j].0)),
        16 => sc(m.mul(&k, &p.f[c.j].0)),
        17 => match m.inv(&k) {
            None => {
                ensure!(out.is_empty(), "zero has an inverse");
                Ok(())
            }
            Some(v) => sc(v),
        },
        18 => sc(m.pow(&k, &p.f[c.j].0)),
        19 => {
            ensure!(out == [enc(&p.a[c.i].1), enc(&p.b[c.i].1), enc(&p.t[c.i].1)].concat(), "{}: the reloaded values differ", name);
            Ok(())
        }
        20 | 24 | 25 => Ok(()),
        28 => {
            let n = enc(&p.a[0].1).len();
            pt::<G1>(name, &out[..n], &k)?;
            pt::<G2>(name, &out[n..], &k)
        }
        26 | 27 => {
            ensure!(out.iter().all(|x| *x == 1), "{}: {:?}", name, out);
            Ok(())
        }
        22 => sc(k),
        23 => {
            let (x, y) = (k, p.f[c.j].0);
            let w = {
                let mut w = mul_wide(&x, &m.m);
                add_in(&mut w, &y);
                w
            };
            let want = [unwords(&w), unwords(&x), unwords(&y), unwords(&m.add(&x, &y))].concat();
            ensure!(out == want, "{}: c1 = {}, c0 = {}: {:?}", name, hex(&x), hex(&y), out);
            Ok(())
        }
        _ => {
            let e = enc(&p.f[c.k].1);
            ensure!(out == [&e[..], &e[..], &e[..]].concat(), "{}: three imports of {} differ", name, hex(&k));
            Ok(())
        }
    }
}

fn stored(p: &Pool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = p.f.iter().map(|x| enc(&x.1)).collect();
    v.extend(p.a.iter().map(|x| enc(&x.1)));
    v.extend(p.b.iter().map(|x| enc(&x.1)));
    v.extend(p.t.iter().map(|x| enc(&x.1)));
    v
}

fn calls(s: &mut Src) -> Vec<Call> {
    let n = 2 + s.below(10);
    // mostly the same few operations, so that calls meet one another's traces
    let ops: Vec<usize> = (0..2).map(|_| s.weighted(&weight())).collect();
    (0..n)
        .map(|_| {
            let op = if s.one_in(4) { s.weighted(&weight()) } else { ops[s.below(2)] };
            let c = Call { op, i: s.below(N), j: s.below(N), k: s.below(N) };
            s.absorb(&[c.op as u64, c.i as u64, c.j as u64, c.k as u64]);
            c
        })
        .collect()
}
fn describe(s: &mut Src, p: &Pool, cs: &[Call]) {
    s.note(|| {
        let e = |v: Vec<U>| v.iter().map(hexs).collect::<Vec<_>>().join(", ");
        format!(
            "scalars {}; G1 {}; G2 {}; calls {}",
            e(p.f.iter().map(|x| x.0).collect()), e(p.a.iter().map(|x| x.0).collect()), e(p.b.iter().map(|x| x.0).collect()),
            cs.iter().map(|c| format!("{} ({},{},{})", NAMES[c.op], c.i, c.j, c.k)).collect::<Vec<_>>().join("; ")
        )
    });
}
fn hexs(u: &U) -> String {
    hex(u)
}

/// The groups' operations without Gt and the pairing.
fn points(s: &mut Src) -> R {
    let p = pool_with(s, false);
    let group = if s.flag() { 0 } else { 6 };
    // + - neg times normalize ==, or those of G2
    let ops: &[usize] = if group == 0 { &[0, 1, 2, 3, 4, 5] } else { &[6, 7, 8, 9, 10] };
    let one = ops[s.below(ops.len())];
    let cs: Vec<Call> = (0..2 + s.below(8))
        .map(|_| {
            let op = if s.one_in(3) { ops[s.below(ops.len())] } else { one };
            let c = Call { op, i: s.below(N), j: s.below(N), k: s.below(N) };
            s.absorb(&[op as u64, c.i as u64, c.j as u64, c.k as u64]);
            c
        })
        .collect();
    describe(s, &p, &cs);
    if cs.len() > 3 {
        s.nontrivial();
    }
    let first: Vec<Vec<u8>> = cs.iter().map(|c| call(&p, *c)).collect();
    for (c, o) in cs.iter().zip(&first) {
        check(&p, *c, o)?;
    }
    for i in shuffle(s, cs.len()) {
        ensure!(call(&p, cs[i]) == first[i], "{} ({},{},{}) gives another result in another order", NAMES[cs[i].op], cs[i].i, cs[i].j, cs[i].k);
    }
    Ok(())
}

/// The scalars' operations by themselves, on scalars that have much in common:
/// cheap enough to be made in large numbers.
fn scalars(s: &mut Src) -> R {
    let m = fr();
    let mut p = Pool { f: vec![], a: vec![], b: vec![], t: vec![] };
    for n in 0..N {
        let x = match n {
            0 => scalar(s),
            _ => {
                let from = s.below(n);
                related(s, m, rmont(), &p.f[from].0)
            }
        };
        p.f.push((x, fr_of(&x)));
        p.a.push((ZERO, G1::zero()));
        p.b.push((ZERO, G2::zero()));
        p.t.push((ZERO, Gt::one()));
    }
    const HERE: [usize; 8] = [15, 16, 17, 18, 21, 22, 23, 17];
    let one = HERE[s.below(HERE.len())];
    let cs: Vec<Call> = (0..2 + s.below(8))
        .map(|_| {
            let op = if s.one_in(4) { HERE[s.below(HERE.len())] } else { one };
            let c = Call { op, i: 0, j: s.below(N), k: s.below(N) };
            s.absorb(&[op as u64, c.j as u64, c.k as u64]);
            c
        })
        .collect();
    describe(s, &p, &cs);
    if cs.len() > 3 {
        s.nontrivial();
    }
    let first: Vec<Vec<u8>> = cs.iter().map(|c| call(&p, *c)).collect();
    for (c, o) in cs.iter().zip(&first) {
        check(&p, *c, o)?;
    }
    for i in shuffle(s, cs.len()) {
        ensure!(call(&p, cs[i]) == first[i], "{} ({},{}) gives another result in another order", NAMES[cs[i].op], cs[i].j, cs[i].k);
    }
    Ok(())
}

fn shuffle(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, s.below(i + 1));
    }
    v
}

fn orders(s: &mut Src) -> R {
    let p = pool(s);
    let cs = calls(s);
    describe(s, &p, &cs);
    if cs.len() > 3 {
        s.nontrivial();
    }
    let before = stored(&p);
    let first: Vec<Vec<u8>> = cs.iter().map(|c| call(&p, *c)).collect();
    for (c, o) in cs.iter().zip(&first) {
        check(&p, *c, o)?;
    }
    ensure!(stored(&p) == before, "an operation changed its operands");
    for round in 0..3 {
        let order = if round == 0 { (0..cs.len()).rev().collect() } else { shuffle(s, cs.len()) };
        for i in order {
            let rep = if round == 2 { 2 } else { 1 };
            for _ in 0..rep {
                ensure!(call(&p, cs[i]) == first[i], "{} ({},{},{}) gives another result in another order", NAMES[cs[i].op], cs[i].i, cs[i].j, cs[i].k);
            }
        }
    }
    ensure!(stored(&p) == before, "an operation changed its operands");
    Ok(())
}

/// One call many times over: nothing wears out.
fn repeated(s: &mut Src) -> R {
    let p = pool(s);
    let op = s.weighted(&weight());
    let c = Call { op, i: s.below(N), j: s.below(N), k: s.below(N) };
    // cheap operations can be repeated far more often
    let cheap = [0, 1, 2, 5, 6, 7, 10, 12, 15, 16].contains(&op);
    let n = if cheap && s.one_in(6) { 70_000 } else { 30 + s.size(300, if cheap { 70_000 } else { 1_500 }) };
    s.absorb(&[op as u64, n as u64]);
    describe(s, &p, &[c]);
    s.note(|| format!("{} times", n));
    s.nontrivial();
    let first = call(&p, c);
    check(&p, c, &first)?;
    for t in 0..n {
        ensure!(call(&p, c) == first, "{} gives another result on call {}", NAMES[op], t + 2);
    }
    Ok(())
}

fn jac<T: F>(p: &P<T>) -> (T, T, T) {
    let (x, y) = p.expect("ORACLE: the identity");
    (x, y, T::one())
}
/// Tens of thousands of calls with as many different arguments, each result
/// checked against the one before it, and now and then an earlier call again:
/// nothing fills up, wraps around or wears out. The parts of a kind run
/// in one process, mostly at the same time.
fn wear(s: &mut Src) -> R {
    let i = s.draw(40);
    wear_of(s, i, i / 8, i % 8, [250, 8_250, 1_000, 400, 20_000][i as usize / 8 % 5])
}
/// Over 65,536 calls of every kind in the process.
fn wear_long(s: &mut Src) -> R {
    let i = s.draw(320);
    wear_of(s, 100 + i, i / 64, i % 64, if i < 256 { 1_040 } else { 20_000 })
}
fn wear_of(s: &mut Src, i: u64, kind: u64, part: u64, calls: usize) -> R {
    s.nontrivial();
    s.absorb(&[i]);
    s.note(|| format!("part {} of {}", part, ["pairings", "multiples in G1", "multiples in G2", "powers in Gt", "inverses and imports"][kind as usize]));
    let start = fr().of(&[engine::src::mix(i), engine::src::mix(i + 99), 7, part]);
    let k = fr_of(&fr().of(&[engine::src::mix(i + 7), 5, engine::src::mix(i + 8), 1]));
    // f(n) is the n-th call, next(x) what follows x
    fn steps<T: Copy + PartialEq>(f: impl Fn(u64) -> T, next: impl Fn(T) -> T, calls: usize, kind: &str) -> R {
        let first = f(0);
        let mut old = vec![(0, first)];
        let mut x = first;
        for n in 1..calls as u64 {
            x = next(x);
            ensure!(f(n) == x, "call {} of the {} gives another result than the one before it implies", n, kind);
            if n % 16 == 0 {
                old.push((n, x));
                let (m, y) = old[(engine::src::mix(n) % old.len() as u64) as usize];
                ensure!(f(m) == y, "call {} of the {}, made again after call {}, gives another result", m, kind, n);
            }
        }
        Ok(())
    }
    let at = |n: u64| fr_of(&fr().add(&start, &u(n)));
    match kind {
        0 => {
            let (p, q) = (mk::<G1>(&jac(&gmul::<F1>(&start))), mk::<G2>(&jac(&gmul::<F2>(&u(3 + part)))));
            let d = pairing(G1::one(), q);
            gt_is("e(G, Q)", &d, &gt_pow(&u(3 + part)))?;
            gt_is("e(P, Q)", &pairing(p, q), &gt_pow(&fr().mul(&start, &u(3 + part))))?;
            // P + nG by additions kept from call to call
            let mut ps = vec![p];
            for n in 1..calls {
                ps.push(ps[n - 1] + G1::one());
            }
            steps(|n| pairing(ps[n as usize], q), |x| x * d, calls, "pairings")
        }
        1 => {
            let p = mk::<G1>(&jac(&gmul::<F1>(&start)));
            is("P * k", &(p * at(0)), &gmul::<F1>(&fr().mul(&start, &start)))?;
            steps(|n| p * at(n), |x| x + p, calls, "multiples in G1")
        }
        2 => {
            let p = mk::<G2>(&jac(&gmul::<F2>(&start)));
            is("Q * k", &(p * at(0)), &gmul::<F2>(&fr().mul(&start, &start)))?;
            steps(|n| p * at(n), |x| x + p, calls, "multiples in G2")
        }
        3 => {
            let g = gt_of(&gt_pow(&start));
            gt_is("x^k", &g.pow(at(0)), &gt_pow(&fr().mul(&start, &start)))?;
            steps(|n| g.pow(at(n)), |x| x * g, calls, "powers in Gt")
        }
        _ => {
            for r in 0..4 {
                let from = |n: u64| {
                    let v = fr().add(&start, &u(n));
                    match r {
                        0 => Fr::from_slice(&to_be32(&v)).ok(),
                        1 => Fr::from_str(&to_dec(&v)),
                        2 => {
                            let mut b = [0u8; 64];
                            b[32..].copy_from_slice(&to_be32(&v));
                            Some(Fr::interpret(&b))
                        }
                        _ => fr_of(&v).inverse().and_then(|i| (i * k).inverse()).map(|i| i * k),
                    }
                };
                fr_is("import", &from(0).ok_or("refused")?, &start)?;
                steps(from, |x| x.map(|x| x + Fr::one()), calls, ["slices", "strings", "buffers", "inverses"][r])?;
            }
            Ok(())
        }
    }
}

fn threads(s: &mut Src) -> R {
    let p = pool(s);
    let cs = calls(s);
    describe(s, &p, &cs);
    s.nontrivial();
    let nt = 2 + s.below(6);
    let orders: Vec<Vec<usize>> = (0..nt).map(|_| shuffle(s, cs.len())).collect();
    let gate = std::sync::Barrier::new(nt);
    let outs: Vec<Result<Vec<(usize, Vec<u8>)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (p, cs, gate) = (&p, &cs, &gate);
                sc.spawn(move || {
                    gate.wait();
                    o.iter()
                        .map(|i| catch_unwind(AssertUnwindSafe(|| (*i, call(p, cs[*i])))).map_err(|_| format!("{} panics on a thread", NAMES[cs[*i].op])))
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let alone: Vec<Vec<u8>> = cs.iter().map(|c| call(&p, *c)).collect();
    for (t, o) in outs.into_iter().enumerate() {
        for (i, v) in o? {
            ensure!(v == alone[i], "{} gives another result on thread {} of {}", NAMES[cs[i].op], t, nt);
        }
    }
    for (c, o) in cs.iter().zip(&alone) {
        check(&p, *c, o)?;
    }
    Ok(())
}

/// Two or three calls of the same operation, made over and over on several
/// threads at once: a result left behind half-written would show.
fn contention(s: &mut Src) -> R {
    let mut p = pool(s);
    if s.one_in(2) {
        // small and close arguments
        for n in 0..N {
            let x = u(s.below(4) as u64);
            p.f[n] = (x, fr_of(&x));
        }
    }
    let op = s.below(OPS);
    let cs: Vec<Call> = (0..2 + s.below(2)).map(|_| Call { op, i: s.below(N), j: s.below(N), k: s.below(N) }).collect();
    let nt = 2 + s.below(5);
    s.absorb(&[op as u64, nt as u64]);
    describe(s, &p, &cs);
    s.nontrivial();
    let t0 = std::time::Instant::now();
    let alone: Vec<Vec<u8>> = cs.iter().map(|c| call(&p, *c)).collect();
    let cost = (t0.elapsed().as_nanos() as u64 / cs.len() as u64).max(200);
    let rounds = (25_000_000 / cost).clamp(8, 60_000);
    s.note(|| format!("{} threads", nt));
    let gate = std::sync::Barrier::new(nt);
    let outs: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (p, cs, gate, alone) = (&p, &cs, &gate, &alone);
                sc.spawn(move || {
                    gate.wait();
                    for r in 0..rounds {
                        // each thread mostly its own call, now and then the others
                        let i = if r % 8 == 7 { (t + r as usize / 8) % cs.len() } else { t % cs.len() };
                        match catch_unwind(AssertUnwindSafe(|| call(p, cs[i]))) {
                            Ok(v) if v == alone[i] => {}
                            Ok(_) => return Err(format!("{} gives another result on thread {} of {}", NAMES[op], t, nt)),
                            Err(_) => return Err(format!("{} panics on a thread", NAMES[op])),
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for o in outs {
        o?;
    }
    for (c, o) in cs.iter().zip(&alone) {
        check(&p, *c, o)?;
    }
    Ok(())
}

fn copies(s: &mut Src) -> R {
    let p = pool(s);
    s.nontrivial();
    s.note(|| "normalize copies".to_string());
    let before = stored(&p);
    for n in 0..N {
        let (a, b) = (p.a[n].1, p.b[n].1);
        let (mut c, mut d) = (a, b);
        c.normalize();
        d.normalize();
        let (mut e, mut f) = (a.clone(), b.clone());
        e.normalize();
        f.normalize();
        ensure!(enc(&a) == enc(&p.a[n].1) && enc(&b) == enc(&p.b[n].1), "normalizing a copy changes the original");
        ensure!(enc(&c) == enc(&e) && enc(&d) == enc(&f), "copies normalize differently");
        let k = p.f[n].1;
        let _ = (a + c, a - c, a * k, b + d, b - d, b * k, pairing(a, b), p.t[n].1.pow(k), p.t[n].1.inverse(), k.inverse(), k.pow(k));
        ensure!(enc(&a) == enc(&p.a[n].1) && enc(&b) == enc(&p.b[n].1), "an operation changes its operand");
    }
    ensure!(stored(&p) == before, "an operation changed its operands");
    Ok(())
}

// ---- fresh processes ---------------------------------------------------

fn digest(v: &[u8]) -> u64 {
    v.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5))
}
/// Child: fresh TAPE ORDERS VALUES -> one digest per call, by position in the
/// order. Several orders (separated by /) are carried out on as many threads
/// at once. With stored VALUES (in hexadecimal) every thread starts by
/// importing them, so that those are the first calls of the process.
pub fn child() -> i32 {
    quiet_panics();
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let a: Vec<String> = std::env::args().collect();
    let orders: Vec<Vec<u64>> = a[3].split('/').map(nums).collect();
    let tape = nums(&a[2]);
    let values: Vec<Vec<u8>> =
        a[4].split(',').filter(|x| !x.is_empty()).map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    let (cs, made) = if values.is_empty() {
        let mut s = Src::replay(tape);
        let p = pool(&mut s);
        (calls(&mut s), Some(p))
    } else {
        // here the tape lists the calls themselves
        (tape.chunks(4).map(|c| Call { op: c[0] as usize, i: c[1] as usize, j: c[2] as usize, k: c[3] as usize }).collect(), None)
    };
    let run = |o: &[u64]| -> Vec<String> {
        let again;
        let p = match &made {
            Some(p) => p,
            None => {
                let r = catch_unwind(AssertUnwindSafe(|| restore(&values)));
                match r {
                    Ok(Some(p)) => again = p,
                    _ => return vec!["import".into()],
                }
                &again
            }
        };
        o.iter()
            .map(|i| {
                let c = cs[*i as usize];
                let d = catch_unwind(AssertUnwindSafe(|| digest(&call(p, c)))).map(|d| d.to_string()).unwrap_or("panic".into());
                format!("{} {}", i, d)
            })
            .collect()
    };
    if orders.len() == 1 {
        run(&orders[0]).iter().for_each(|l| println!("{}", l));
        return 0;
    }
    use std::sync::atomic::{AtomicUsize, Ordering};
    let ready = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (run, ready, n) = (&run, &ready, orders.len());
                sc.spawn(move || {
                    // spinning lets them start closer together than a barrier
                    ready.fetch_add(1, Ordering::SeqCst);
                    let t0 = std::time::Instant::now();
                    while ready.load(Ordering::SeqCst) < n {
                        if t0.elapsed().as_millis() > 20 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    run(o)
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap().iter().for_each(|l| println!("{}", l));
        }
    });
    0
}
/// The pool from its stored values, without the reference.
fn restore(v: &[Vec<u8>]) -> Option<Pool> {
    let n = |i: usize| -> U { v[4 * N + i].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect::<Vec<_>>().try_into().unwrap() };
    let mut p = Pool { f: vec![], a: vec![], b: vec![], t: vec![] };
    for i in 0..N {
        p.f.push((n(i), dec(&v[i]).ok()?));
        p.a.push((ZERO, dec(&v[N + i]).ok()?));
        p.b.push((ZERO, dec(&v[2 * N + i]).ok()?));
        p.t.push((ZERO, dec(&v[3 * N + i]).ok()?));
    }
    Some(p)
}
fn fresh(s: &mut Src) -> R {
    let p = pool(s);
    let cs = calls(s);
    let tape = s.used.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    describe(s, &p, &cs);
    s.nontrivial();
    let here: Vec<u64> = cs.iter().map(|c| digest(&call(&p, *c))).collect();
    let me = std::env::current_exe().expect("ORACLE: no path to this program");
    let list = |o: &[usize]| o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let hex = |v: &[u8]| v.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    for round in 0..4 {
        let order: Vec<usize> = if round == 0 { (0..cs.len()).rev().collect() } else { shuffle(s, cs.len()) };
        let mut args = vec!["fresh".to_string(), tape.clone(), list(&order), String::new()];
        if round >= 2 {
            // on several threads at once, from the start of the process;
            // mostly all of them in the same order
            let nt = 2 + s.below(7);
            let same = !s.one_in(3);
            let orders: Vec<String> = (0..nt).map(|_| if same { list(&order) } else { list(&shuffle(s, cs.len())) }).collect();
            args[2] = orders.join("/");
        }
        if round == 3 {
            let mut v = stored(&p);
            v.extend(p.f.iter().map(|x| x.0.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>()));
            args[1] = cs.iter().map(|c| format!("{},{},{},{}", c.op, c.i, c.j, c.k)).collect::<Vec<_>>().join(",");
            args[3] = v.iter().map(|x| hex(x)).collect::<Vec<_>>().join(",");
        }
        let o = std::process::Command::new(&me).args(&args).output().expect("ORACLE: cannot start a process");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        ensure!(o.status.success(), "a fresh process ends with {}", o.status);
        let mut seen = 0;
        for l in text.lines() {
            ensure!(l != "import", "stored values are refused in a fresh process");
            let (i, d) = l.split_once(' ').unwrap();
            let i: usize = i.parse().unwrap();
            let at = if round >= 2 { " with several threads" } else { "" };
            ensure!(d == here[i].to_string(), "{} ({},{},{}) gives another result in a fresh process{}", NAMES[cs[i].op], cs[i].i, cs[i].j, cs[i].k, at);
            seen += 1;
        }
        assert!(seen >= cs.len(), "ORACLE: the process reports too little");
    }
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "Pools of values that are easy to confuse (negatives, images sharing y, representations sharing z or X) and 2 to 11 calls on them, mostly of two operations; (scalars and groups also by themselves, in larger numbers); made in the drawn order, reversed, shuffled, doubled, up to 330 times over (cheap ones up to 70,000), on 2 to 7 threads at once, over and over on threads contending for one operation, and in fresh processes in other orders and on up to 8 threads from their start. Every result has to be bit-identical to the first and agree with the reference; operands are compared before and after. Non-trivial: more than three calls, or threads, processes or repetitions.",
        assumptions: &["threads are scheduled by the operating system: interleavings are sampled, not enumerated"],
        subs: vec![
            sub("orders", 900, 80_000, orders),
            sub("group-orders", 2_500, 200_000, points),
            sub("scalar-orders", 60_000, 3_000_000, scalars),
            sub("repeated", 200, 15_000, repeated),
            grid("wear", 40, wear),
            Sub { name: "wear-long", quick: 0, thorough: 320, enumerated: true, f: wear_long },
            sub("threads", 300, 15_000, threads),
            sub("contention", 150, 8_000, contention),
            sub("copies", 200, 30_000, copies),
            sub("fresh-process", 120, 4_000, fresh),
        ],
    }
}
