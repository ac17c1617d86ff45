//! C05, C06 (group law), C07 (scalar multiplication), C08 (representations).
use crate::adapt::*;
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::{pairing, Group, G1, G2};

pub type Rep<T> = (T, T, T);

/// A representation of q whose projective coordinates collide with those of rp.
pub fn repr_near<T: Fg>(s: &mut Src, q: &P<T>, rp: &Rep<T>) -> Rep<T> {
    let (x, y) = match q {
        None => return repr(s, q),
        Some(p) => *p,
    };
    let z = match s.weighted(&[10, 4, 2, 4, 3, 1]) {
        0 => return repr(s, q),
        1 => {
            s.class("same z");
            rp.2
        }
        2 => {
            s.class("opposite z");
            rp.2.neg()
        }
        3 => {
            // z times a sixth root of unity: z^2 or z^3 stay the same
            s.class("z times root of unity");
            let mut c = vec![ZERO; T::N];
            c[0] = beta().0;
            let b = T::from_coords(&c);
            let w = if s.flag() { b } else { b.sq() };
            let w = if s.flag() { w.neg() } else { w };
            rp.2.mul(&w)
        }
        5 => {
            // one coordinate equal or opposite to one of the other's
            let (mine, other, neg) = (s.below(3), s.below(3), s.flag());
            let t = [rp.0, rp.1, rp.2][other];
            match z_for(&x, &y, mine, &if neg { t.neg() } else { t }) {
                Some(z) => {
                    s.class("a shared coordinate");
                    z
                }
                None => T::one(),
            }
        }
        _ => {
            // the same X coordinate
            match x.inv().and_then(|i| rp.0.mul(&i).sqrt()) {
                Some(z) => {
                    s.class("same X");
                    z
                }
                None => T::one(),
            }
        }
    };
    let z = if z.is_zero() { T::one() } else { z };
    for c in z.coords() {
        s.absorb(&c);
    }
    (x.mul(&z.sq()), y.mul(&z.sq()).mul(&z), z)
}

fn law<G: LibGroup>(s: &mut Src) -> R {
    let p = if s.one_in(12) { None } else { G::F::member(s) };
    let q = related_point(s, &p);
    let rp = repr(s, &p);
    let rq = repr_near(s, &q, &rp);
    s.note(|| format!("P = {} as {}, Q = {} as {}", ptext(&p), rtext(&rp), ptext(&q), rtext(&rq)));
    if p.is_some() && q.is_some() {
        s.nontrivial();
    }
    let (a, b): (G, G) = (mk(&rp), mk(&rq));
    is("P as given", &a, &p)?;
    let sum = padd(&p, &q);
    let dif = padd(&p, &pneg(&q));
    is("P + Q", &(a + b), &sum)?;
    is("Q + P", &(b + a), &sum)?;
    is("P - Q", &(a - b), &dif)?;
    is("Q - P", &(b - a), &pneg(&dif))?;
    is("-P", &(-a), &pneg(&p))?;
    is("-(-P)", &(-(-a)), &p)?;
    is("P + P", &(a + a), &padd(&p, &p))?;
    is("P - P", &(a - a), &None)?;
    is("P + (-P)", &(a + (-a)), &None)?;
    is("P + O", &(a + G::zero()), &p)?;
    is("O + P", &(G::zero() + a), &p)?;
    is("O - P", &(G::zero() - a), &pneg(&p))?;
    is("P - O", &(a - G::zero()), &p)?;
    // results as operands, in the representation the library produced
    is("(P + Q) - Q", &((a + b) - b), &p)?;
    is("(P + Q) + P", &((a + b) + a), &padd(&sum, &p))?;
    is("(P - Q) + (Q - P)", &((a - b) + (b - a)), &None)?;
    is("(P + Q) + (P - Q)", &((a + b) + (a - b)), &padd(&p, &p))?;
    Ok(())
}

/// Long computations in which every operand has the representation earlier
/// operations gave it.
fn chain<G: LibGroup>(s: &mut Src) -> R {
    let mut v: Vec<P<G::F>> = (0..4).map(|i| if i == 0 { G::F::gen() } else { G::F::member(s) }).collect();
    let mut r: Vec<G> = Vec::new();
    for p in &v {
        let rp = repr(s, p);
        r.push(mk(&rp));
    }
    let n = 4 + s.below(30);
    for step in 0..n {
        let (i, j, k, op) = (s.below(4), s.below(4), s.below(4), s.weighted(&[4, 3, 1, 2, 1, 1, 1]));
        let mut nr = r[i];
        let (name, nv) = match op {
            0 => {
                nr = r[i] + r[j];
                ("+", padd(&v[i], &v[j]))
            }
            1 => {
                nr = r[i] - r[j];
                ("-", padd(&v[i], &pneg(&v[j])))
            }
            2 => {
                nr = -r[i];
                ("neg", pneg(&v[i]))
            }
            3 => {
                nr = r[i] + r[i];
                ("double", padd(&v[i], &v[i]))
            }
            4 => {
                nr.normalize();
                ("normalize", v[i])
            }
            5 => {
                // the same point another way
                let rp = repr(s, &v[i]);
                nr = mk(&rp);
                ("re-represent", v[i])
            }
            _ => {
                nr = (r[i] + r[j]) - r[i];
                ("+ - ", v[j])
            }
        };
        s.note(|| format!("step {}: r{} = r{} {} r{}", step, k, i, name, j));
        s.absorb(&[op as u64, i as u64, j as u64, k as u64]);
        is(&format!("step {} ({})", step, name), &nr, &nv)?;
        for t in 0..4 {
            ensure!((nr == r[t]) == (nv == v[t]), "step {}: equality with register {} is {}", step, t, nr == r[t]);
        }
        if nv.is_none() {
            s.class("reached the identity");
        }
        r[k] = nr;
        v[k] = nv;
    }
    if n > 8 {
        s.nontrivial();
    }
    Ok(())
}

/// All pairs of small multiples of the generator, negative ones included.
fn small<G: LibGroup>(s: &mut Src) -> R {
    let i = s.draw(SMALL * SMALL) as i64;
    let n = SMALL as i64;
    let (a, b) = (i / n - n / 2, i % n - n / 2);
    s.nontrivial();
    s.absorb(&[a as u64, b as u64]);
    s.note(|| format!("{}*G + {}*G", a, b));
    let pt = |k: i64| -> P<G::F> {
        let p = gmul::<G::F>(&u(k.unsigned_abs()));
        if k < 0 { pneg(&p) } else { p }
    };
    let lib = |k: i64| -> G {
        let mut t = G::zero();
        for _ in 0..k.abs() {
            t = if k < 0 { t - G::one() } else { t + G::one() };
        }
        t
    };
    let (x, y) = (lib(a), lib(b));
    is("a*G by repeated addition", &x, &pt(a))?;
    is("sum", &(x + y), &pt(a + b))?;
    is("difference", &(x - y), &pt(a - b))?;
    ensure!((x == y) == (a == b), "{}*G == {}*G is {}", a, b, x == y);
    Ok(())
}
const SMALL: u64 = 40;

fn constants<G: LibGroup>(_: &mut Src) -> R {
    is("zero()", &G::zero(), &None)?;
    is("one()", &G::one(), &G::F::gen())?;
    is("-zero()", &(-G::zero()), &None)?;
    is("zero() + zero()", &(G::zero() + G::zero()), &None)?;
    is("zero() - zero()", &(G::zero() - G::zero()), &None)?;
    ensure!(G::zero().is_zero() && !G::one().is_zero(), "is_zero of the constants");
    ensure!(G::zero() == G::zero() && G::zero() != G::one() && G::one() != G::zero(), "equality of the constants");
    Ok(())
}

const LAW_RULE: &str = "Points: multiples of the generator, curve points found above a boundary x coordinate (G1), Frobenius images (G2); the second operand fresh, equal, opposite, with the same or opposite y but another x (through the cube root of unity), the identity, the double or minus the double. Each in a random projective representation (z = 1, -1, special, chosen so that X is special), the second one sometimes sharing z, z^2, z^3 or X with the first; the identity as (0,1,0) or (t^2,t^3,0). Oracle: affine chord and tangent on reference integers. Non-trivial: neither operand is the identity; chains of more than 8 steps; every grid case.";
const PT_ASM: &[&str] = &["points are built and read through the serialized coordinates, themselves checked by C12"];

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: LAW_RULE,
        assumptions: PT_ASM,
        subs: vec![
            grid("constants", 1, constants::<G1>),
            grid("small-multiples", SMALL * SMALL, small::<G1>),
            sub("law", 360_000, 18_000_000, law::<G1>),
            sub("chain", 60_000, 2_800_000, chain::<G1>),
        ],
    }
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: LAW_RULE,
        assumptions: PT_ASM,
        subs: vec![
            grid("constants", 1, constants::<G2>),
            grid("small-multiples", SMALL * SMALL, small::<G2>),
            sub("law", 120_000, 6_000_000, law::<G2>),
            sub("chain", 24_000, 1_200_000, chain::<G2>),
        ],
    }
}

// ---- C07 -------------------------------------------------------------

fn times<G: LibGroup>(s: &mut Src) -> R {
    let p = if s.one_in(20) { None } else { G::F::member(s) };
    let k = scalar(s);
    let rp = repr(s, &p);
    s.note(|| format!("P = {} as {}, k = {}", ptext(&p), rtext(&rp), hex(&k)));
    if p.is_some() && !is_zero(&k) && k != ONE {
        s.nontrivial();
    }
    let a: G = mk(&rp);
    is("P * k", &(a * fr_of(&k)), &pmul(&p, &k))
}

/// Bases whose discrete logarithm is known: no reference ladder needed.
fn times_log<G: LibGroup>(s: &mut Src) -> R {
    let m = fr();
    let a = scalar(s);
    let k = related(s, m, rmont(), &a);
    let p = gmul::<G::F>(&a);
    let rp = repr(s, &p);
    s.note(|| format!("P = {} * G as {}, k = {}", hex(&a), rtext(&rp), hex(&k)));
    if !is_zero(&a) && !is_zero(&k) && a != ONE && k != ONE {
        s.nontrivial();
    }
    let g: G = mk(&rp);
    is("P * k", &(g * fr_of(&k)), &gmul::<G::F>(&m.mul(&a, &k)))
}

fn laws<G: LibGroup>(s: &mut Src) -> R {
    let m = fr();
    let p = G::F::member(s);
    let q = related_point(s, &p);
    let (rp, rq) = (repr(s, &p), repr(s, &q));
    let (a, b): (G, G) = (mk(&rp), mk(&rq));
    let k = scalar(s);
    let l = related(s, m, rmont(), &k);
    s.note(|| format!("P = {}, Q = {}, k = {}, l = {}", ptext(&p), ptext(&q), hex(&k), hex(&l)));
    if !is_zero(&k) && !is_zero(&l) {
        s.nontrivial();
    }
    let (fk, fl) = (fr_of(&k), fr_of(&l));
    let (ak, al) = (a * fk, a * fl);
    ensure!(a * (fk + fl) == ak + al, "(k+l)P != kP + lP");
    ensure!(a * (fk - fl) == ak - al, "(k-l)P != kP - lP");
    ensure!(a * (fk * fl) == al * fk, "(kl)P != k(lP)");
    ensure!((a + b) * fk == ak + b * fk, "k(P+Q) != kP + kQ");
    ensure!((-a) * fk == -ak, "k(-P) != -(kP)");
    ensure!(a * (-fk) == -ak, "(-k)P != -(kP)");
    if let Some(i) = fk.inverse() {
        ensure!(ak * i == a, "k^-1 (kP) != P");
    }
    Ok(())
}

fn small_scalars<G: LibGroup>(s: &mut Src) -> R {
    // k in 0..SCAL and r-SCAL..r, on four bases
    let i = s.draw(SCAL * 8);
    let k = u(i / 8 % SCAL);
    let neg = i / 4 % 2 == 1;
    let mut fixed = Src::random(i % 4 + 77);
    let p = if i % 4 == 0 { G::F::gen() } else { G::F::member(&mut fixed) };
    let rp = if i % 4 < 2 { repr(&mut Src::replay(vec![]), &p) } else { repr(&mut fixed, &p) };
    let a: G = mk(&rp);
    s.absorb(&[i]);
    s.nontrivial();
    s.note(|| format!("P = {}, k = {}{}", ptext(&p), if neg { "-" } else { "" }, k[0]));
    let (ks, e) = if neg { (fr().neg(&k), pneg(&pmul(&p, &k))) } else { (k, pmul(&p, &k)) };
    is("P * k", &(a * fr_of(&ks)), &e)
}
const SCAL: u64 = 520;

/// 2^i, 2^i - 1, 2^i + 1 and pairs of bits: every position of the ladder.
fn bit_scalars<G: LibGroup>(s: &mut Src) -> R {
    let n = 254u64;
    let i = s.draw(n * n) as usize;
    let (x, y) = (i / 254, i % 254);
    let mut k = ZERO;
    k[x / 64] |= 1 << (x % 64);
    if y > x {
        k[y / 64] |= 1 << (y % 64);
    } else if y < x {
        // the run of ones from y to x
        for t in y..x {
            k[t / 64] |= 1 << (t % 64);
        }
    }
    let k = fr().of(&k);
    s.absorb(&k);
    s.nontrivial();
    s.note(|| format!("k = {}", hex(&k)));
    is("G * k", &(G::one() * fr_of(&k)), &gmul::<G::F>(&k))
}

fn mul_constants<G: LibGroup>(_: &mut Src) -> R {
    for k in [ZERO, ONE, u(2), fr().neg(&ONE)] {
        is("O * k", &(G::zero() * fr_of(&k)), &None)?;
        is("G * k", &(G::one() * fr_of(&k)), &gmul::<G::F>(&k))?;
        let o: G = G::one() - G::one();
        is("(G - G) * k", &(o * fr_of(&k)), &None)?;
    }
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "Points as for C05/C06 in random representations; scalars with boundary values or boundary stored limbs or uniform; all scalars below 520 and above r-520 on four bases; every one-bit, two-bit and run-of-ones scalar on the generator. Oracle: affine double-and-add, or the table of doublings when the discrete logarithm is known. Non-trivial: point not the identity and scalar not 0 or 1.",
        assumptions: PT_ASM,
        subs: vec![
            grid("constants-g1", 1, mul_constants::<G1>),
            grid("constants-g2", 1, mul_constants::<G2>),
            grid("small-scalars-g1", SCAL * 8, small_scalars::<G1>),
            grid("small-scalars-g2", SCAL * 8, small_scalars::<G2>),
            grid("bit-scalars-g1", 254 * 254, bit_scalars::<G1>),
            sub("times-g1", 9_000, 450_000, times::<G1>),
            sub("times-g2", 3_600, 180_000, times::<G2>),
            sub("times-log-g1", 60_000, 3_000_000, times_log::<G1>),
            sub("times-log-g2", 20_000, 1_000_000, times_log::<G2>),
            sub("laws-g1", 6_000, 300_000, laws::<G1>),
            sub("laws-g2", 2_000, 100_000, laws::<G2>),
        ],
    }
}

// ---- C08 -------------------------------------------------------------

fn normal<G: LibGroup>(what: &str, g: &G, p: &P<G::F>) -> Result<G, String> {
    let mut n = *g;
    n.normalize();
    is(&format!("{} normalized", what), &n, p)?;
    ensure!(n == *g && *g == n, "{}: normalizing changes equality", what);
    let mut m = n;
    m.normalize();
    ensure!(m.into_bytes() == n.into_bytes() && enc(&m) == enc(&n), "{}: normalizing twice differs from once", what);
    Ok(n)
}
use crate::codec::enc;

fn equality<G: LibGroup>(s: &mut Src) -> R {
    let p = if s.one_in(8) { None } else { G::F::member(s) };
    let q = related_point(s, &p);
    let rp = repr(s, &p);
    let rq = repr_near(s, &q, &rp);
    s.note(|| format!("P = {} as {}, Q = {} as {}", ptext(&p), rtext(&rp), ptext(&q), rtext(&rq)));
    if rp != rq {
        s.nontrivial();
    }
    let (a, b): (G, G) = (mk(&rp), mk(&rq));
    let same = p == q;
    s.class(if same { "equal points" } else { "different points" });
    ensure!((a == b) == same, "P == Q is {}", a == b);
    ensure!((b == a) == same, "Q == P is {}", b == a);
    ensure!((a != b) != same, "P != Q is {}", a != b);
    ensure!(a == a && b == b, "a value differs from itself");
    ensure!(a.is_zero() == p.is_none(), "is_zero is {}", a.is_zero());
    ensure!((a == G::zero()) == p.is_none() && (G::zero() == a) == p.is_none(), "comparison with zero()");
    let (na, nb) = (normal("P", &a, &p)?, normal("Q", &b, &q)?);
    ensure!((na.into_bytes() == nb.into_bytes()) == same, "normalized bytes of P and Q agree: {}", na.into_bytes() == nb.into_bytes());
    ensure!((na == nb) == same, "normalized P == Q is {}", na == nb);
    if p.is_none() {
        let mut z = G::zero();
        z.normalize();
        ensure!(z.into_bytes() == na.into_bytes(), "the normalized identity has the bytes of zero() only sometimes");
    }
    Ok(())
}

/// Every operation on two representations of the same values.
fn congruence<G: LibGroup>(s: &mut Src) -> R {
    let p = if s.one_in(8) { None } else { G::F::member(s) };
    let q = related_point(s, &p);
    let rp = repr(s, &p);
    let rp2 = repr_near(s, &p, &rp);
    let rq = repr_near(s, &q, &rp);
    let rq2 = repr(s, &q);
    let k = scalar(s);
    s.note(|| format!("P as {} and {}; Q as {} and {}; k = {}", rtext(&rp), rtext(&rp2), rtext(&rq), rtext(&rq2), hex(&k)));
    if rp != rp2 || rq != rq2 {
        s.nontrivial();
    }
    let (a, a2, b, b2): (G, G, G, G) = (mk(&rp), mk(&rp2), mk(&rq), mk(&rq2));
    let f = fr_of(&k);
    ensure!(a == a2 && b == b2, "two representations of one point differ");
    for (name, x, y) in [
        ("P + Q", a + b, a2 + b2),
        ("P - Q", a - b, a2 - b2),
        ("P + P'", a + a2, a2 + a2),
        ("P - P'", a - a2, G::zero()),
        ("-P", -a, -a2),
        ("P * k", a * f, a2 * f),
    ] {
        ensure!(x == y, "{} depends on the representation", name);
        ensure!(x.is_zero() == y.is_zero(), "{}: is_zero depends on the representation", name);
        let (mut nx, mut ny) = (x, y);
        nx.normalize();
        ny.normalize();
        ensure!(nx.into_bytes() == ny.into_bytes(), "{}: normalized bytes depend on the representation", name);
        ensure!(affine(&x)? == affine(&y)?, "{}: the point depends on the representation", name);
    }
    Ok(())
}

fn pairing_congruence(s: &mut Src) -> R {
    let p = if s.one_in(10) { None } else { F1::member(s) };
    let q = if s.one_in(10) { None } else { F2::member(s) };
    let (rp, rq) = (repr(s, &p), repr(s, &q));
    let (rp2, rq2) = (repr_near(s, &p, &rp), repr_near(s, &q, &rq));
    s.note(|| format!("P as {} and {}; Q as {} and {}", rtext(&rp), rtext(&rp2), rtext(&rq), rtext(&rq2)));
    if rp != rp2 || rq != rq2 {
        s.nontrivial();
    }
    let (a, a2): (G1, G1) = (mk(&rp), mk(&rp2));
    let (b, b2): (G2, G2) = (mk(&rq), mk(&rq2));
    let e = pairing(a, b);
    ensure!(e == pairing(a2, b) && e == pairing(a, b2) && e == pairing(a2, b2), "the pairing depends on the representation");
    let (mut na, mut nb) = (a, b);
    na.normalize();
    nb.normalize();
    ensure!(e == pairing(na, nb), "the pairing depends on normalization");
    Ok(())
}

/// The identity reached along every route has to be the one identity.
fn identities<G: LibGroup>(s: &mut Src) -> R {
    let p = G::F::member(s);
    let rp = repr(s, &p);
    let a: G = mk(&rp);
    let k = scalar(s);
    let f = fr_of(&k);
    s.note(|| format!("P as {}, k = {}", rtext(&rp), hex(&k)));
    if p.is_some() {
        s.nontrivial();
    }
    let mut z = G::zero();
    z.normalize();
    for (name, o) in [
        ("P - P", a - a),
        ("P + (-P)", a + (-a)),
        ("P * 0", a * fr_of(&ZERO)),
        ("P * (r-1) + P", a * fr_of(&fr().neg(&ONE)) + a),
        ("O * k", G::zero() * f),
        ("(P - P) * k", (a - a) * f),
        ("(P - P) + (P - P)", (a - a) + (a - a)),
        ("-(P - P)", -(a - a)),
        ("kP - kP", a * f - a * f),
        ("kP + (-k)P", a * f + a * (-f)),
        ("O - (P - P)", G::zero() - (a - a)),
    ] {
        is(name, &o, &None)?;
        ensure!(o.is_zero() && o == G::zero() && G::zero() == o, "{} is not equal to zero()", name);
        ensure!(o != G::one() && o + a == a && a + o == a && a - o == a, "{} is not neutral", name);
        let mut n = o;
        n.normalize();
        is(name, &n, &None)?;
        ensure!(n.into_bytes() == z.into_bytes(), "{}: normalized bytes differ from those of zero()", name);
    }
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "Pairs of related points (as for C05/C06) in two random representations, sometimes sharing z, z^2, z^3 or X; equality against affine equality, all operations against themselves in another representation, normalization against the affine point, and eleven routes to the identity. Non-trivial: the two representations differ (equality, congruence), the base is not the identity (routes).",
        assumptions: &["points are built and read through the serialized coordinates, themselves checked by C12", "identities are given as (0,1,0) or (t^2,t^3,0), the shapes the operations produce"],
        subs: vec![
            sub("equality-g1", 360_000, 18_000_000, equality::<G1>),
            sub("equality-g2", 100_000, 5_000_000, equality::<G2>),
            sub("congruence-g1", 30_000, 1_500_000, congruence::<G1>),
            sub("congruence-g2", 7_500, 360_000, congruence::<G2>),
            sub("identities-g1", 8_000, 300_000, identities::<G1>),
            sub("identities-g2", 1_500, 60_000, identities::<G2>),
            sub("pairing", 2_500, 120_000, pairing_congruence),
        ],
    }
}
