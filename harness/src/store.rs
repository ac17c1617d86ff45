//! Round trips (C12 / C13) and refusal of invalid input (C14) for the compact
//! encoding. Shared by the serde (bincode) and the borsh harness: both lay a
//! value out as its words.
use crate::adapt::*;
use crate::codec::{self, dec, enc, Store};
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};

pub fn reload<T: Store>(what: &str, t: &T) -> Result<T, String> {
    let b = enc(t);
    let back: T = dec(&b).map_err(|e| format!("{}: {} refuses what it wrote: {}", what, codec::NAME, e))?;
    ensure!(enc(&back) == b, "{}: writing the reloaded value gives other bytes", what);
    Ok(back)
}
/// The same through a stream that moves a few bytes at a time.
fn slowly<T: Store>(s: &mut Src, what: &str, t: &T) -> R {
    let mut sizes: Vec<usize> = (0..1 + s.below(4)).map(|_| s.below(40)).collect();
    sizes.push(1 + s.below(9));
    s.note(|| format!("stream in pieces of {:?} bytes", sizes));
    let (b, back) = codec::slow(t, &sizes).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(b == enc(t), "{}: a slow writer gets other bytes", what);
    ensure!(enc(&back) == b, "{}: read in pieces of {:?} bytes it is another value", what, sizes);
    // cut off anywhere, or between two words
    let n = if s.flag() { s.below(b.len()) } else { s.below(b.len() / 8) * 8 };
    ensure!(dec::<T>(&b[..n]).is_err(), "{}: {} of {} bytes are read as a value", what, n, b.len());
    ensure!(codec::cut_short::<T>(&b[..n], &sizes), "{}: a stream that ends after {} of {} bytes is read as a value", what, n, b.len());
    ensure!(codec::broken(t, n) == 1, "{}: no error from a stream that breaks after {} of {} bytes", what, n, b.len());
    Ok(())
}
fn hexb(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn rt_scalar(s: &mut Src) -> R {
    let v = scalar(s);
    let k = scalar(s);
    s.note(|| format!("scalar {}, other {}", hex(&v), hex(&k)));
    if !is_zero(&v) && v != ONE {
        s.nontrivial();
    }
    let stored = unwords(&fr().mul(&v, &rmont().r));
    // a scalar the library computed, by one of several routes
    let a = match s.below(4) {
        0 => Fr::from_slice(&to_be32(&v)).map_err(|e| format!("from_slice: {:?}", e))?,
        1 => fr_of(&fr().sub(&v, &k)) + fr_of(&k),
        2 => -fr_of(&fr().neg(&v)),
        _ => fr_of(&fr().add(&v, &k)) - fr_of(&k),
    };
    ensure!(enc(&a) == stored, "scalar {} is stored as {}, expected {}", hex(&v), hexb(&enc(&a)), hexb(&stored));
    let b = reload("scalar", &a)?;
    slowly(s, "scalar", &a)?;
    fr_is("reloaded scalar", &b, &v)?;
    ensure!(a == b, "the reloaded scalar differs");
    let f = fr_of(&k);
    ensure!(a + f == b + f && f - a == f - b && a * f == b * f && a.pow(f) == b.pow(f) && a.inverse() == b.inverse(), "the reloaded scalar behaves differently");
    ensure!(a.into_bytes() == b.into_bytes() && a.to_string() == b.to_string() && format!("{:?}", a) == format!("{:?}", b), "bytes or printed form of the reloaded scalar differ");
    Ok(())
}

fn rt_int(s: &mut Src) -> R {
    let a = u256(s);
    let w = w512(s);
    s.note(|| format!("{} and {}", hex(&a), hex(&w)));
    s.nontrivial();
    ensure!(enc(&U256(a)) == unwords(&a), "U256 {} is stored as {}", hex(&a), hexb(&enc(&U256(a))));
    ensure!(enc(&U512(w)) == unwords(&w), "U512 {} is stored as {}", hex(&w), hexb(&enc(&U512(w))));
    let (x, y) = (reload("U256", &U256(a))?, reload("U512", &U512(w))?);
    slowly(s, "integers", &(U256(a), U512(w)))?;
    ensure!(x == U256(a) && x.0 == a, "U256 {} reloads as {}", hex(&a), hex(&x.0));
    ensure!(y == U512(w) && y.0 == w, "U512 {} reloads as {}", hex(&w), hex(&y.0));
    Ok(())
}

fn rt_point<G: LibGroup>(s: &mut Src) -> R {
    let p = if s.one_in(8) { None } else { G::F::member(s) };
    let q = related_point(s, &p);
    let (rp, rq) = (repr(s, &p), repr(s, &q));
    let (a0, o): (G, G) = (mk(&rp), mk(&rq));
    s.note(|| format!("P = {} as {}, other {}", ptext(&p), rtext(&rp), ptext(&q)));
    // the stored form is the coordinates
    let mut c = rp.0.coords();
    c.extend(rp.1.coords());
    c.extend(rp.2.coords());
    ensure!(enc(&a0) == unwords(&q_words(&c)), "{} {} is stored as {}", G::NAME, rtext(&rp), hexb(&enc(&a0)));
    let route = s.below(7);
    let mut a = match route {
        0 => a0,
        1 => a0 + o,
        2 => a0 - o,
        3 => -a0,
        4 => a0 * fr_of(&scalar(s)),
        5 => a0 - a0,
        _ => a0 + a0,
    };
    if s.one_in(5) {
        a.normalize();
        s.class("normalized");
    }
    s.class(["as given", "sum", "difference", "negation", "multiple", "identity", "double"][route]);
    let e = affine(&a)?;
    if e.is_some() {
        s.nontrivial();
    }
    ensure!(enc(&a).len() == 24 * 4 * G::F::N, "{} is stored in {} bytes", G::NAME, enc(&a).len());
    let b = reload(G::NAME, &a)?;
    slowly(s, G::NAME, &a)?;
    is("reloaded point", &b, &e)?;
    ensure!(a == b && b == a && a.is_zero() == b.is_zero(), "the reloaded point differs");
    let k = fr_of(&u(2 + s.draw(40)));
    for (n, x, y) in [("+", a + o, b + o), ("-", o - a, o - b), ("neg", -a, -b), ("double", a + a, b + b), ("* k", a * k, b * k)] {
        ensure!(x == y, "the reloaded point behaves differently under {}", n);
    }
    let (mut x, mut y) = (a, b);
    x.normalize();
    y.normalize();
    ensure!(x.into_bytes() == y.into_bytes() && format!("{:?}", x) == format!("{:?}", y), "the normalized reloaded point has other bytes or another printed form");
    Ok(())
}

fn rt_gt(s: &mut Src) -> R {
    let k = scalar(s);
    let l = scalar(s);
    let v = gt_pow(&k);
    s.note(|| format!("g^{}, other g^{}", hex(&k), hex(&l)));
    if !is_zero(&k) {
        s.nontrivial();
    }
    let route = s.below(5);
    let (a, v) = match route {
        0 => (gt_of(&v), v),
        1 => (pairing(G1::one() * fr_of(&k), G2::one()), v),
        2 => (gt_of(&v).inverse(), gt_pow(&fr().neg(&k))),
        3 => (gt_of(&v) * gt_of(&gt_pow(&l)), gt_pow(&fr().add(&k, &l))),
        _ => (gt_of(&gt_gen()[0]).pow(fr_of(&k)), v),
    };
    s.class(["as given", "pairing", "inverse", "product", "power"][route]);
    ensure!(enc(&a) == unwords(&q_words(&v.tower())), "Gt element is stored as {}", hexb(&enc(&a)));
    let b = reload("Gt", &a)?;
    slowly(s, "Gt", &a)?;
    gt_is("reloaded element", &b, &v)?;
    ensure!(a == b && (b == Gt::one()) == (a == Gt::one()), "the reloaded element differs");
    let o = gt_of(&gt_pow(&l));
    let e = fr_of(&u(2 + s.draw(40)));
    ensure!(a * o == b * o && a.inverse() == b.inverse() && a.pow(e) == b.pow(e), "the reloaded element behaves differently");
    ensure!(a.into_bytes() == b.into_bytes() && a.to_string() == b.to_string() && format!("{:?}", a) == format!("{:?}", b), "bytes or printed form of the reloaded element differ");
    Ok(())
}

/// Several values in one stream: each takes exactly its own bytes.
fn rt_stream(s: &mut Src) -> R {
    let (k, l) = (scalar(s), scalar(s));
    let (a, b) = (fr_of(&k), fr_of(&l));
    let (p, q) = (F1::member(s), F2::member(s));
    let (rp, rq) = (repr(s, &p), repr(s, &q));
    let (x, y): (G1, G2) = (mk(&rp), mk(&rq));
    let g = gt_of(&gt_pow(&k));
    let n = s.below(4);
    s.note(|| format!("(g^{0}, {1}, {2}, {0}, {3} more points)", hex(&k), ptext(&p), ptext(&q), n));
    s.nontrivial();
    let v: Vec<G1> = (0..n).map(|_| x).collect();
    let t = (g, x, y, a, Some(b), v.clone(), (x + x, U256(k)));
    slowly(s, "stream of values", &t)?;
    let back = codec::stream(&t)?;
    ensure!(back.0 == g && back.1 == x && back.2 == y && back.3 == a && back.4 == Some(b) && back.5 == v && back.6 == (x + x, U256(k)), "a stream of values does not survive");
    Ok(())
}

fn pinned(_: &mut Src) -> R {
    let w = |c: &[U]| unwords(&q_words(c));
    ensure!(enc(&Fr::zero()) == vec![0u8; 32], "stored zero scalar");
    ensure!(
        enc(&Fr::one()) == unwords(&[0xac96341c4ffffffb, 0x36fc76959f60cd29, 0x666ea36f7879462e, 0x0e0a77c19a07df2f]),
        "stored one: {}", hexb(&enc(&Fr::one()))
    );
    ensure!(enc(&G1::zero()) == w(&[ZERO, ONE, ZERO]), "stored G1 identity");
    ensure!(enc(&G2::zero()) == w(&[ZERO, ZERO, ONE, ZERO, ZERO, ZERO]), "stored G2 identity");
    ensure!(enc(&G1::one()) == w(&[ONE, u(2), ONE]), "stored G1 generator");
    let (x, y) = g2().unwrap();
    ensure!(enc(&G2::one()) == w(&[x.0, x.1, y.0, y.1, ONE, ZERO]), "stored G2 generator");
    let mut c = vec![ONE];
    c.resize(12, ZERO);
    ensure!(enc(&Gt::one()) == w(&c), "stored Gt one");
    ensure!(enc(&pairing(G1::one(), G2::one())) == w(&gt_gen()[0].tower()), "stored Gt generator");
    for r in [enc(&reload("G1 zero", &G1::zero())?), enc(&reload("G1 zero", &(G1::one() - G1::one()))?)] {
        ensure!(r.len() == 96, "length of a stored G1 point");
    }
    Ok(())
}

pub fn roundtrips(heavy: u64) -> Vec<Sub> {
    vec![
        grid("pinned-values", 1, pinned),
        sub("scalar", 120_000 / heavy, 6_000_000, rt_scalar),
        sub("integers", 120_000, 6_000_000, rt_int),
        sub("g1", 20_000 / heavy, 1_000_000, rt_point::<G1>),
        sub("g2", 4_000 / heavy, 300_000, rt_point::<G2>),
        sub("gt", 1_500 / heavy, 150_000, rt_gt),
        sub("stream", 800 / heavy, 150_000, rt_stream),
    ]
}

// ---- C14 -------------------------------------------------------------

/// What the reference says about stored words.
pub enum Verdict {
    /// has to be accepted as exactly this element
    Valid,
    Invalid(&'static str),
    /// the identity written with coordinates the library never writes
    OddIdentity,
}

fn canonical(w: &[u64], m: &U) -> bool {
    w.chunks(4).all(|c| lt(c, m))
}
pub fn judge_scalar(w: &[u64]) -> Verdict {
    if canonical(w, &fr().m) { Verdict::Valid } else { Verdict::Invalid("scalar not below r") }
}
pub fn judge_point<T: Fg>(w: &[u64]) -> Verdict {
    if !canonical(w, &fq().m) {
        return Verdict::Invalid("coordinate not below q");
    }
    let v = q_vals(w).unwrap();
    let n = T::N;
    let (x, y, z) = (T::from_coords(&v[..n]), T::from_coords(&v[n..2 * n]), T::from_coords(&v[2 * n..]));
    if z.is_zero() {
        // (t^2, t^3, 0), t != 0, and (0, 1, 0) are what the operations write
        return if (y.sq() == x.sq().mul(&x) && !x.is_zero()) || (x.is_zero() && y == T::one()) { Verdict::Valid } else { Verdict::OddIdentity };
    }
    let i = z.inv().unwrap();
    let (ax, ay) = (x.mul(&i.sq()), y.mul(&i.sq()).mul(&i));
    if !on_curve(&ax, &ay) {
        return Verdict::Invalid("point off the curve");
    }
    if n > 1 && pmul(&Some((ax, ay)), &fr().m).is_some() {
        return Verdict::Invalid("point outside the order-r group");
    }
    Verdict::Valid
}
pub fn judge_gt(w: &[u64]) -> Verdict {
    if !canonical(w, &fq().m) {
        return Verdict::Invalid("coordinate not below q");
    }
    if F12::from_tower(&q_vals(w).unwrap()).pow(&fr().m) != F12::one() {
        return Verdict::Invalid("element outside the order-r group");
    }
    Verdict::Valid
}

/// Words of a value that is sometimes wrong, in a way a reader has to notice.
pub fn bend(s: &mut Src, w: &mut Vec<u64>, m: &U) {
    let coords = w.len() / 4;
    let put = |w: &mut Vec<u64>, i: usize, c: &U| w[4 * i..4 * i + 4].copy_from_slice(c);
    match s.weighted(&[4, 3, 3, 2, 2, 2, 1, 1]) {
        0 => s.class("untouched"),
        1 => {
            s.class("coordinate plus modulus");
            let i = s.below(coords);
            let mut c: U = w[4 * i..4 * i + 4].try_into().unwrap();
            let k = 1 + s.below(4);
            for _ in 0..k {
                let old = c;
                if add_in(&mut c, m) {
                    c = old;
                    break;
                }
            }
            put(w, i, &c);
        }
        2 => {
            s.class("boundary coordinate");
            let i = s.below(coords);
            let mut c = *m;
            match s.below(5) {
                0 => {}
                1 => {
                    add_in(&mut c, &[1 + s.draw(3)]);
                }
                2 => {
                    sub_in(&mut c, &[1 + s.draw(3)]);
                }
                3 => c = [u64::MAX; 4],
                _ => {
                    // agrees with the modulus in the upper words
                    let k = s.below(4);
                    for l in c.iter_mut().take(k) {
                        *l = s.draw(0);
                    }
                }
            }
            put(w, i, &c);
        }
        3 => {
            s.class("bit flip");
            let i = s.below(w.len());
            w[i] ^= 1 << s.below(64);
        }
        4 => {
            s.class("coordinate replaced");
            let i = s.below(coords);
            let c = u256(s);
            put(w, i, &c);
        }
        5 => {
            s.class("coordinates exchanged");
            let (i, j) = (s.below(coords), s.below(coords));
            for t in 0..4 {
                w.swap(4 * i + t, 4 * j + t);
            }
        }
        6 => {
            s.class("coordinate negated");
            let i = s.below(coords);
            let mut c = *m;
            sub_in(&mut c, &w[4 * i..4 * i + 4]);
            put(w, i, &c);
        }
        _ => {
            s.class("free words");
            for x in w.iter_mut() {
                *x = s.draw(0);
            }
        }
    }
    s.absorb(w);
}

/// The cofactor of G2 in the twist has these prime factors.
const COFACTOR: [&str; 4] = ["10069", "5864401", "1875725156269", "197620364512881247228717050342013327560683201906968909"];

/// A point of the twist, mostly outside the order-r group.
pub fn twist_point(s: &mut Src) -> P<F2> {
    let p = lift::<F2>(s);
    match s.weighted(&[4, 3, 3]) {
        0 => {
            s.class("twist point");
            p
        }
        1 => {
            // order exactly one of the cofactor's primes
            s.class("cofactor torsion");
            let keep = s.below(4);
            let mut t = pmul(&p, &fr().m);
            for (i, f) in COFACTOR.iter().enumerate() {
                if i != keep {
                    t = pmul(&t, &dec_big(f));
                }
            }
            t
        }
        _ => {
            s.class("member plus cofactor torsion");
            let keep = s.below(4);
            let mut t = pmul(&p, &fr().m);
            for (i, f) in COFACTOR.iter().enumerate() {
                if i != keep {
                    t = pmul(&t, &dec_big(f));
                }
            }
            let g = F2::member(s);
            padd(&t, &g)
        }
    }
}
fn dec_big(s: &str) -> U {
    engine::big::dec(s)
}

/// Degree-12 field elements in and around the order-r group.
pub fn near_gt(s: &mut Src) -> F12 {
    let k = scalar(s);
    let g = gt_pow(&k);
    let dense = |s: &mut Src| {
        let c: Vec<U> = (0..12).map(|_| base(s)).collect();
        F12::from_tower(&c)
    };
    let tiny = |s: &mut Src| {
        let mut c = vec![ZERO; 12];
        c[0] = match s.below(4) {
            0 => fq().neg(&ONE),
            1 => beta().0,
            2 => fq().neg(&beta().0),
            _ => base(s),
        };
        F12::from_tower(&c)
    };
    match s.weighted(&[3, 2, 2, 2, 2, 2, 1, 1]) {
        0 => {
            s.class("member");
            g
        }
        1 => {
            s.class("member times scalar");
            let t = tiny(s);
            g.mul(&t)
        }
        2 => {
            s.class("subfield element");
            tiny(s)
        }
        3 => {
            s.class("dense element");
            dense(s)
        }
        4 => {
            // order divides q^6 + 1: f^(q^6) / f
            s.class("unitary element");
            let f = dense(s);
            unitary(&f).unwrap_or(F12::one())
        }
        5 => {
            // member times a unitary element: all cheap half-checks pass
            s.class("member times unitary");
            let f = dense(s);
            g.mul(&unitary(&f).unwrap_or(F12::one()))
        }
        6 => {
            s.class("zero");
            F12::zero()
        }
        _ => {
            // cyclotomic: order divides q^4 - q^2 + 1
            s.class("cyclotomic element");
            let f = dense(s);
            match unitary(&f) {
                None => F12::one(),
                Some(t) => {
                    let c = t.pow(&fq().m).pow(&fq().m).mul(&t);
                    if s.flag() { c } else { c.mul(&g) }
                }
            }
        }
    }
}
/// conj(f) / f.
fn unitary(f: &F12) -> Option<F12> {
    let mut c = *f;
    for i in [1, 3, 5] {
        c.0[i] = c.0[i].neg();
    }
    finv(f).map(|i| c.mul(&i))
}
/// Inverse in the degree-12 field: f * conj(f) lies in Fq6 = Fq2[v], whose
/// norm to Fq2 comes from the three images v -> omega v, omega in Fq.
fn finv(f: &F12) -> Option<F12> {
    let mut c = *f;
    for i in [1, 3, 5] {
        c.0[i] = c.0[i].neg();
    }
    let n = f.mul(&c);
    let w = F2(beta().0, ZERO);
    let im = |w: F2| {
        let mut t = n;
        t.0[2] = t.0[2].mul(&w);
        t.0[4] = t.0[4].mul(&w.sq());
        t
    };
    let m = im(w).mul(&im(w.sq()));
    let k = n.mul(&m);
    assert!(k.0[1..].iter().all(|x| x.is_zero()), "ORACLE: norm is not in Fq2");
    let i = k.0[0].inv()?;
    let mut ki = F12::zero();
    ki.0[0] = i;
    Some(c.mul(&m).mul(&ki))
}

fn settle<T: Store, D: FnOnce(&T) -> R>(s: &mut Src, name: &str, w: &[u64], v: Verdict, got: Result<T, String>, denotes: D) -> R {
    s.note(|| format!("{} from words {}", name, w.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")));
    match (v, got) {
        (Verdict::Valid, Ok(t)) => {
            s.class("valid, accepted");
            ensure!(enc(&t) == unwords(w), "{}: accepted, but as another value", name);
            denotes(&t)
        }
        (Verdict::Valid, Err(e)) => Err(format!("{}: a valid encoding is refused: {}", name, e)),
        (Verdict::Invalid(why), Ok(_)) => Err(format!("{}: accepted, although: {}", name, why)),
        (Verdict::Invalid(why), Err(_)) => {
            s.class(why);
            s.nontrivial();
            Ok(())
        }
        (Verdict::OddIdentity, Ok(t)) => denotes(&t),
        (Verdict::OddIdentity, Err(_)) => Ok(()),
    }
}

fn bad_scalar(s: &mut Src) -> R {
    let v = scalar(s);
    let mut w = fr().mul(&v, &rmont().r).to_vec();
    bend(s, &mut w, &fr().m);
    settle::<Fr, _>(s, "scalar", &w, judge_scalar(&w), dec(&unwords(&w)), |t| fr_val(t).map(|_| ()))
}

fn bad_point<G: LibGroup>(s: &mut Src) -> R {
    let p = match s.weighted(&[6, 1, 3]) {
        0 => G::F::member(s),
        1 => None,
        _ => lift::<G::F>(s),
    };
    let r = repr(s, &p);
    let mut c = r.0.coords();
    c.extend(r.1.coords());
    c.extend(r.2.coords());
    if s.one_in(6) {
        // another curve of the same shape
        s.class("other curve");
        let n = G::F::N;
        let x = G::F::special(s);
        let at = s.below(3) * n;
        c[at..at + n].copy_from_slice(&x.coords());
    }
    let mut w = q_words(&c);
    bend(s, &mut w, &fq().m);
    settle::<G, _>(s, G::NAME, &w, judge_point::<G::F>(&w), dec(&unwords(&w)), |t| affine(t).map(|_| ()))
}

fn bad_twist(s: &mut Src) -> R {
    let p = twist_point(s);
    let r = repr(s, &p);
    let mut c = r.0.coords();
    c.extend(r.1.coords());
    c.extend(r.2.coords());
    let w = q_words(&c);
    s.absorb(&w);
    settle::<G2, _>(s, "G2", &w, judge_point::<F2>(&w), dec(&unwords(&w)), |t| affine(t).map(|_| ()))
}

fn bad_gt(s: &mut Src) -> R {
    let v = near_gt(s);
    let mut w = q_words(&v.tower());
    bend(s, &mut w, &fq().m);
    settle::<Gt, _>(s, "Gt", &w, judge_gt(&w), dec(&unwords(&w)), |t| gt_val(t).map(|_| ()))
}

/// Raw bytes of any length: short input is an error, nothing panics.
fn raw(s: &mut Src) -> R {
    let v = scalar(s);
    let full: Vec<u8> = match s.below(4) {
        0 => unwords(&fr().mul(&v, &rmont().r)),
        1 => enc(&(G1::one() * fr_of(&v))),
        2 => enc(&(G2::one() * fr_of(&u(1 + s.draw(50))))),
        _ => enc(&gt_of(&gt_pow(&v))),
    };
    let mut b = full.clone();
    let what = s.below(3);
    match what {
        0 => {
            let n = s.below(b.len());
            b.truncate(n);
        }
        1 => {
            for _ in 0..1 + s.below(4) {
                let i = s.below(b.len());
                b[i] = s.draw(256) as u8;
            }
        }
        _ => {
            let n = s.below(400);
            b = (0..n).map(|_| s.draw(256) as u8).collect();
        }
    }
    s.class(["truncated", "bytes overwritten", "random bytes"][what]);
    s.absorb(&b.iter().map(|x| *x as u64).collect::<Vec<_>>());
    s.note(|| format!("{} bytes: {}", b.len(), hexb(&b)));
    s.nontrivial();
    fn one<T: Store>(b: &[u8], len: usize, name: &str, ok: impl Fn(&T) -> R) -> R {
        match dec::<T>(b) {
            Err(_) => Ok(()),
            Ok(t) => {
                ensure!(b.len() >= len, "{} read from only {} bytes", name, b.len());
                ok(&t).map_err(|e| format!("{} from bytes: {}", name, e))
            }
        }
    }
    let member = |v: Verdict| match v {
        Verdict::Invalid(w) => Err(format!("accepted, although: {}", w)),
        _ => Ok(()),
    };
    one::<Fr>(&b, 32, "scalar", |t| member(judge_scalar(&words(&enc(t)))))?;
    one::<G1>(&b, 96, "G1", |t| member(judge_point::<F1>(&words(&enc(t)))))?;
    one::<G2>(&b, 192, "G2", |t| member(judge_point::<F2>(&words(&enc(t)))))?;
    one::<Gt>(&b, 384, "Gt", |t| member(judge_gt(&words(&enc(t)))))?;
    one::<U256>(&b, 32, "U256", |t| {
        ensure!(enc(t)[..] == b[..32], "U256 read back differs");
        Ok(())
    })?;
    one::<U512>(&b, 64, "U512", |t| {
        ensure!(enc(t)[..] == b[..64], "U512 read back differs");
        Ok(())
    })
}

pub fn refusals() -> Vec<Sub> {
    vec![
        sub("scalar", 120_000, 6_000_000, bad_scalar),
        sub("g1", 150_000, 7_000_000, bad_point::<G1>),
        sub("g2", 15_000, 700_000, bad_point::<G2>),
        sub("twist", 3_000, 150_000, bad_twist),
        sub("gt", 6_000, 300_000, bad_gt),
        sub("raw-bytes", 12_000, 600_000, raw),
    ]
}

pub const C14_RULE: &str = "Stored words of a member, a curve point, a twist point outside the group (cofactor torsion of each prime order, members plus torsion), an element near Gt (member times scalar, subfield, unitary, cyclotomic, zero), then left alone or bent: modulus added to a coordinate, coordinate on either side of the modulus, bit flipped, coordinate replaced, exchanged or negated, free words; raw bytes truncated, overwritten or random; JSON documents with missing fields, wrong types and lengths. Oracle: canonical coordinates, curve equation, r-fold multiple, r-th power on the reference; valid has to be accepted unchanged, invalid refused, nothing may panic. Non-trivial: the encoding is invalid, or raw bytes.";
