//! C17: long mixed computations against the discrete-logarithm model.
//! Shared by the serde and the borsh harness.
use crate::adapt::*;
use crate::codec::{self, dec, enc};
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};

const N: usize = 4;
struct State {
    f: Vec<(U, Fr)>,
    a: Vec<(U, G1)>,
    b: Vec<(U, G2)>,
    t: Vec<(U, Gt)>,
}

fn point_op<G: LibGroup>(s: &mut Src, f: &[(U, Fr)], r: &mut Vec<(U, G)>) -> R {
    let m = fr();
    let (i, j, k) = (s.below(N), s.below(N), s.below(N));
    let h = s.below(N);
    let op = s.weighted(&[6, 5, 2, 6, 2, 2, 2, 1, 1, 1]);
    let (x, y) = (r[i], r[j]);
    let (name, v) = match op {
        0 => ("+", (m.add(&x.0, &y.0), x.1 + y.1)),
        1 => ("-", (m.sub(&x.0, &y.0), x.1 - y.1)),
        2 => ("neg", (m.neg(&x.0), -x.1)),
        3 => ("* scalar", (m.mul(&x.0, &f[h].0), x.1 * f[h].1)),
        4 => ("double", (m.add(&x.0, &x.0), x.1 + x.1)),
        5 => {
            let mut p = x.1;
            p.normalize();
            ("normalize", (x.0, p))
        }
        6 => ("store and reload", (x.0, dec(&enc(&x.1)).map_err(|e| format!("{} refuses what it wrote: {}", G::NAME, e))?)),
        7 => ("x + (-x)", (ZERO, x.1 + (-x.1))),
        8 => ("generator", (ONE, G::one())),
        _ => ("x + y - y", (x.0, (x.1 + y.1) - y.1)),
    };
    s.note(|| format!("{} r{} = r{} {} (r{}, scalar r{}), exponent {}", G::NAME, k, i, name, j, h, hex(&v.0)));
    s.absorb(&[op as u64, i as u64, j as u64, k as u64, h as u64]);
    s.absorb(&v.0);
    is(&format!("{} {}", G::NAME, name), &v.1, &gmul::<G::F>(&v.0))?;
    for o in r.iter() {
        ensure!((v.1 == o.1) == (v.0 == o.0), "{} {}: equality with exponent {} is {}", G::NAME, name, hex(&o.0), v.1 == o.1);
        ensure!((o.1 == v.1) == (v.0 == o.0), "{} {}: reversed equality with exponent {} is {}", G::NAME, name, hex(&o.0), o.1 == v.1);
    }
    ensure!(v.1.is_zero() == is_zero(&v.0) && (v.1 == G::zero()) == is_zero(&v.0), "{} {}: zero test", G::NAME, name);
    r[k] = v;
    Ok(())
}

fn history(s: &mut Src) -> R {
    let m = fr();
    let mut st = State { f: vec![], a: vec![], b: vec![], t: vec![] };
    for i in 0..N {
        let k = scalar(s);
        st.f.push((k, fr_of(&k)));
        if i < 2 {
            let (p, q) = (scalar(s), scalar(s));
            let (rp, rq) = (repr(s, &gmul::<F1>(&p)), repr(s, &gmul::<F2>(&q)));
            st.a.push((p, mk(&rp)));
            st.b.push((q, mk(&rq)));
            st.t.push((k, gt_of(&gt_pow(&k))));
        } else {
            st.a.push((ONE, G1::one()));
            st.b.push((ZERO, G2::zero()));
            st.t.push((ZERO, Gt::one()));
        }
    }
    s.note(|| {
        let show = |v: Vec<U>| v.iter().map(|x| hex(x)).collect::<Vec<_>>().join(", ");
        format!(
            "start: scalars {}; G1 {}; G2 {}; Gt {}",
            show(st.f.iter().map(|x| x.0).collect()), show(st.a.iter().map(|x| x.0).collect()),
            show(st.b.iter().map(|x| x.0).collect()), show(st.t.iter().map(|x| x.0).collect())
        )
    });
    let n = 5 + s.below(40);
    if n > 12 {
        s.nontrivial();
    }
    for step in 0..n {
        let kind = s.weighted(&[5, 6, 4, 4, 3]);
        let r = match kind {
            0 => scalar_op(s, &mut st.f),
            1 => point_op(s, &st.f, &mut st.a),
            2 => point_op(s, &st.f, &mut st.b),
            3 => gt_op(s, &st.f, &mut st.t),
            _ => {
                let (i, j, k) = (s.below(N), s.below(N), s.below(N));
                let v = m.mul(&st.a[i].0, &st.b[j].0);
                let e = pairing(st.a[i].1, st.b[j].1);
                s.note(|| format!("Gt r{} = e(r{}, r{}), exponent {}", k, i, j, hex(&v)));
                s.absorb(&[i as u64, j as u64, k as u64]);
                gt_is("pairing", &e, &gt_pow(&v)).and_then(|_| put_gt("pairing", &mut st.t, k, v, e))
            }
        };
        r.map_err(|e| format!("step {}: {}", step, e))?;
    }
    // every register still holds what it held
    for (i, x) in st.f.iter().enumerate() {
        fr_is(&format!("final scalar register {}", i), &x.1, &x.0)?;
    }
    for i in 0..N {
        is(&format!("final G1 register {}", i), &st.a[i].1, &gmul::<F1>(&st.a[i].0))?;
        is(&format!("final G2 register {}", i), &st.b[i].1, &gmul::<F2>(&st.b[i].0))?;
        gt_is(&format!("final Gt register {}", i), &st.t[i].1, &gt_pow(&st.t[i].0))?;
    }
    Ok(())
}

fn scalar_op(s: &mut Src, f: &mut Vec<(U, Fr)>) -> R {
    let m = fr();
    let (i, j, k) = (s.below(N), s.below(N), s.below(N));
    let op = s.weighted(&[4, 4, 1, 5, 2, 2, 2, 1, 1]);
    let (x, y) = (f[i], f[j]);
    let (name, v) = match op {
        0 => ("+", (m.add(&x.0, &y.0), x.1 + y.1)),
        1 => ("-", (m.sub(&x.0, &y.0), x.1 - y.1)),
        2 => ("neg", (m.neg(&x.0), -x.1)),
        3 => ("*", (m.mul(&x.0, &y.0), x.1 * y.1)),
        4 => match (m.inv(&x.0), x.1.inverse()) {
            (Some(a), Some(b)) => ("inverse", (a, b)),
            (None, None) => ("inverse of zero", x),
            (a, _) => return Err(format!("inverse of {} exists: {}", hex(&x.0), a.is_none())),
        },
        5 => ("pow", (m.pow(&x.0, &y.0), x.1.pow(y.1))),
        6 => ("store and reload", (x.0, dec(&enc(&x.1)).map_err(|e| format!("scalar refuses what it wrote: {}", e))?)),
        7 => ("from_slice", (x.0, Fr::from_slice(&to_be32(&x.0)).map_err(|e| format!("{:?}", e))?)),
        _ => ("from_str", (x.0, Fr::from_str(&to_dec(&x.0)).ok_or("digits refused")?)),
    };
    s.note(|| format!("scalar r{} = r{} {} r{}: {}", k, i, name, j, hex(&v.0)));
    s.absorb(&[op as u64, i as u64, j as u64, k as u64]);
    fr_is(name, &v.1, &v.0)?;
    for o in f.iter() {
        ensure!((v.1 == o.1) == (v.0 == o.0), "scalar {}: equality with {} is {}", name, hex(&o.0), v.1 == o.1);
    }
    f[k] = v;
    Ok(())
}

fn put_gt(name: &str, t: &mut Vec<(U, Gt)>, k: usize, v: U, x: Gt) -> R {
    for o in t.iter() {
        ensure!((x == o.1) == (v == o.0), "Gt {}: equality with exponent {} is {}", name, hex(&o.0), x == o.1);
    }
    ensure!((x == Gt::one()) == is_zero(&v), "Gt {}: equality with one is {}", name, x == Gt::one());
    t[k] = (v, x);
    Ok(())
}
fn gt_op(s: &mut Src, f: &[(U, Fr)], t: &mut Vec<(U, Gt)>) -> R {
    let m = fr();
    let (i, j, k, h) = (s.below(N), s.below(N), s.below(N), s.below(N));
    let op = s.weighted(&[5, 3, 4, 1, 2]);
    let (x, y) = (t[i], t[j]);
    let (name, v, e) = match op {
        0 => ("*", m.add(&x.0, &y.0), x.1 * y.1),
        1 => ("inverse", m.neg(&x.0), x.1.inverse()),
        2 => ("pow", m.mul(&x.0, &f[h].0), x.1.pow(f[h].1)),
        3 => ("store and reload", x.0, dec(&enc(&x.1)).map_err(|e| format!("Gt refuses what it wrote: {}", e))?),
        _ => ("x / y", m.sub(&x.0, &y.0), x.1 * y.1.inverse()),
    };
    s.note(|| format!("Gt r{} = r{} {} (r{}, scalar r{}), exponent {}", k, i, name, j, h, hex(&v)));
    s.absorb(&[op as u64, i as u64, j as u64, k as u64, h as u64]);
    gt_is(&format!("Gt {}", name), &e, &gt_pow(&v))?;
    put_gt(name, t, k, v, e)
}

// ---- protocol equations ------------------------------------------------

fn known<G: LibGroup>(s: &mut Src) -> (U, G) {
    let a = scalar(s);
    let r = repr(s, &gmul::<G::F>(&a));
    (a, mk(&r))
}
/// The same, or a little off.
fn maybe_off(s: &mut Src, a: &U) -> U {
    let m = fr();
    match s.weighted(&[4, 1, 1, 1, 1]) {
        0 => *a,
        1 => m.neg(a),
        2 => m.add(a, &ONE),
        3 => m.add(a, a),
        _ => scalar(s),
    }
}
fn holds(s: &mut Src, what: &str, lib: bool, model: bool) -> R {
    s.class(if model { "holds" } else { "does not hold" });
    ensure!(lib == model, "{}: the equation holds is {}, for the exponents it is {}", what, lib, model);
    Ok(())
}

fn exchange(s: &mut Src) -> R {
    let m = fr();
    let (a, b, c) = (scalar(s), scalar(s), scalar(s));
    let d = maybe_off(s, &c);
    s.nontrivial();
    s.note(|| format!("secrets {}, {}, {} (the third party uses {})", hex(&a), hex(&b), hex(&c), hex(&d)));
    let (g, p) = known::<G1>(s);
    let (h, q) = known::<G2>(s);
    let (fa, fb, fc, fd) = (fr_of(&a), fr_of(&b), fr_of(&c), fr_of(&d));
    // two parties, over either group
    ensure!((p * fa) * fb == (p * fb) * fa && (q * fa) * fb == (q * fb) * fa, "Diffie-Hellman keys differ");
    holds(s, "Diffie-Hellman in G1", (p * fa) * fc == (p * fd) * fa, is_zero(&g) || is_zero(&a) || c == d)?;
    holds(s, "Diffie-Hellman in G2", (q * fa) * fc == (q * fd) * fa, is_zero(&h) || is_zero(&a) || c == d)?;
    // three parties
    let pk = |f: Fr| (p * f, q * f);
    let (pa, pb, pc) = (pk(fa), pk(fb), pk(fc));
    let ka = pairing(pb.0, pc.1).pow(fa);
    let kb = pairing(pc.0, pa.1).pow(fb);
    let kc = pairing(pa.0, pb.1).pow(fd);
    ensure!(ka == kb, "two parties of the three-party exchange differ");
    let flat = [g, h, a, b].iter().any(is_zero_ref);
    holds(s, "three-party exchange", ka == kc, flat || c == d)?;
    let e = [h, a, b, c].iter().fold(g, |x, y| m.mul(&x, y));
    gt_is("three-party key", &ka, &gt_pow(&e))
}
fn is_zero_ref(x: &U) -> bool {
    is_zero(x)
}

/// e(sig, G2) = e(hash, key), for one signature and for an aggregate.
fn signature(s: &mut Src) -> R {
    let m = fr();
    let n = 1 + s.below(3);
    let mut agg = G1::zero();
    let mut rhs = Gt::one();
    let (mut le, mut re) = (ZERO, ZERO);
    s.nontrivial();
    for i in 0..n {
        let (sk, (h, hash)) = (scalar(s), known::<G1>(s));
        let used = if i + 1 == n { maybe_off(s, &sk) } else { sk };
        s.note(|| format!("signer {}: hash exponent {}, key {}, signs with {}", i, hex(&h), hex(&sk), hex(&used)));
        let key = G2::one() * fr_of(&sk);
        let sig = hash * fr_of(&used);
        holds(s, "signature", pairing(sig, G2::one()) == pairing(hash, key), is_zero(&h) || used == sk)?;
        agg = agg + sig;
        rhs = rhs * pairing(hash, key);
        le = m.add(&le, &m.mul(&h, &used));
        re = m.add(&re, &m.mul(&h, &sk));
    }
    if s.flag() {
        agg.normalize();
    }
    let agg: G1 = dec(&enc(&agg)).map_err(|e| format!("aggregate refused: {}", e))?;
    holds(s, "aggregate signature", pairing(agg, G2::one()) == rhs, le == re)?;
    holds(s, "aggregate signature, as a quotient", pairing(-agg, G2::one()) * rhs == Gt::one(), le == re)
}

/// Encrypt-to-a-policy style: secret shares in the exponent, recombined with
/// Lagrange coefficients under the pairing.
fn shares(s: &mut Src) -> R {
    let m = fr();
    let k = 2 + s.below(3);
    let secret = scalar(s);
    let coeffs: Vec<U> = (0..k).map(|i| if i == 0 { secret } else { scalar(s) }).collect();
    let alpha = scalar(s);
    let tamper = s.flag();
    s.note(|| format!("threshold {}, secret {}, alpha {}, one share tampered: {}", k, hex(&secret), hex(&alpha), tamper));
    s.nontrivial();
    s.absorb(&alpha);
    let at = |x: u64| {
        let mut y = Fr::zero();
        for c in coeffs.iter().rev() {
            y = y * fr_of(&u(x)) + fr_of(c);
        }
        y
    };
    let idx: Vec<u64> = (1..=k as u64).collect();
    let mut acc = Gt::one();
    let mut sum = Fr::zero();
    for (n, x) in idx.iter().enumerate() {
        let mut l = Fr::one();
        for z in &idx {
            if z != x {
                let d = (fr_of(&u(*z)) - fr_of(&u(*x))).inverse().ok_or("difference of indices has no inverse")?;
                l = l * fr_of(&u(*z)) * d;
            }
        }
        let mut share = at(*x);
        if n == 0 && tamper {
            share = share + Fr::one();
        }
        sum = sum + share * l;
        let c = G1::one() * share;
        let key = G2::one() * (fr_of(&alpha) * l);
        acc = acc * pairing(c, key);
    }
    let want = pairing(G1::one(), G2::one()).pow(fr_of(&m.mul(&alpha, &secret)));
    holds(s, "recombined secret", acc == want, !tamper || is_zero(&alpha))?;
    holds(s, "recombined scalar", sum == fr_of(&secret), !tamper)?;
    // the message comes back, and only with the right key
    let msg = gt_of(&gt_pow(&coeffs[k - 1]));
    let ct = msg * want;
    holds(s, "decryption", ct * acc.inverse() == msg, !tamper || is_zero(&alpha))
}

/// prod e(P_i, Q_i) = 1 exactly when sum a_i b_i = 0.
fn products(s: &mut Src) -> R {
    let m = fr();
    let n = 2 + s.below(4);
    let mut acc = Gt::one();
    let mut sum = ZERO;
    s.nontrivial();
    for _ in 0..n {
        let (a, p) = known::<G1>(s);
        let (b, q) = known::<G2>(s);
        sum = m.add(&sum, &m.mul(&a, &b));
        acc = acc * pairing(p, q);
    }
    s.note(|| format!("{} factors, sum {}", n, hex(&sum)));
    let close = maybe_off(s, &sum);
    let end = pairing(-(G1::one() * fr_of(&close)), G2::one());
    holds(s, "product of pairings", acc * end == Gt::one(), close == sum)
}

pub fn c17(heavy: u64, via: &'static [&'static str]) -> Prop {
    let _ = codec::NAME;
    Prop {
        id: "C17",
        rule: "Histories of 5 to 44 random operations over four registers each of scalars, G1, G2 and Gt (arithmetic, scalar multiplication, pairing, powers, inverses, normalization, store-and-reload, imports), with the exponents carried along modulo r; after every step the value is compared with the reference multiple of the generator and its equality with every register with equality of exponents. Diffie-Hellman, Joux, BLS (single, aggregate), secret sharing under the pairing and products of pairings, correct and tampered. Non-trivial: histories of more than 12 steps; every protocol case.",
        assumptions: via,
        subs: vec![
            sub("history", 2_500 / heavy, 200_000, history),
            sub("exchange", 500 / heavy, 40_000, exchange),
            sub("signature", 500 / heavy, 40_000, signature),
            sub("shares", 500 / heavy, 30_000, shares),
            sub("products", 600 / heavy, 30_000, products),
        ],
    }
}
