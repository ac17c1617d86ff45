//! C09 (bilinearity), C10 (the pairing's value), C11 (Gt).
use crate::adapt::*;
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};

/// A member with its discrete logarithm, in a random representation.
fn known<G: LibGroup>(s: &mut Src) -> (U, G) {
    let a = scalar(s);
    let p = gmul::<G::F>(&a);
    let r = repr(s, &p);
    (a, mk(&r))
}
fn any<G: LibGroup>(s: &mut Src) -> (P<G::F>, G) {
    let p = if s.one_in(16) { None } else { G::F::member(s) };
    let r = repr(s, &p);
    (p, mk(&r))
}

fn scalars(s: &mut Src) -> R {
    let m = fr();
    let (a, p) = known::<G1>(s);
    let (b, q) = known::<G2>(s);
    let k = scalar(s);
    let l = related(s, m, rmont(), &k);
    s.note(|| format!("P = {}*G1, Q = {}*G2, a = {}, b = {}", hex(&a), hex(&b), hex(&k), hex(&l)));
    if !is_zero(&a) && !is_zero(&b) && !is_zero(&k) && !is_zero(&l) {
        s.nontrivial();
    }
    let (fk, fl) = (fr_of(&k), fr_of(&l));
    let e = pairing(p, q);
    let one = is_zero(&a) || is_zero(&b);
    ensure!((e == Gt::one()) == one, "e(P, Q) is one: {}", e == Gt::one());
    let x = pairing(p * fk, q * fl);
    ensure!(x == e.pow(fk * fl), "e(aP, bQ) != e(P, Q)^(ab)");
    ensure!(x == pairing(p * fl, q * fk), "e(aP, bQ) != e(bP, aQ)");
    ensure!(x == pairing(p * (fk * fl), q), "e(aP, bQ) != e(abP, Q)");
    ensure!(x == pairing(p, q * (fk * fl)), "e(aP, bQ) != e(P, abQ)");
    let ab = m.mul(&m.mul(&a, &b), &m.mul(&k, &l));
    gt_is("e(aP, bQ) against the power of the generator", &x, &gt_pow(&ab))
}

fn sums(s: &mut Src) -> R {
    let (p, a) = any::<G1>(s);
    let (q, b) = any::<G2>(s);
    let p2 = related_point(s, &p);
    let q2 = related_point(s, &q);
    let (r1, r2) = (repr(s, &p2), repr(s, &q2));
    let (a2, b2): (G1, G2) = (mk(&r1), mk(&r2));
    s.note(|| format!("P = {}, P' = {}, Q = {}, Q' = {}", ptext(&p), ptext(&p2), ptext(&q), ptext(&q2)));
    if p.is_some() && q.is_some() && p2.is_some() && q2.is_some() {
        s.nontrivial();
    }
    let e = pairing(a, b);
    let (ea, eb) = (pairing(a2, b), pairing(a, b2));
    ensure!(pairing(a + a2, b) == e * ea, "e(P+P', Q) != e(P,Q) e(P',Q)");
    ensure!(pairing(a, b + b2) == e * eb, "e(P, Q+Q') != e(P,Q) e(P,Q')");
    ensure!(pairing(a - a2, b) == e * ea.inverse(), "e(P-P', Q) != e(P,Q) / e(P',Q)");
    ensure!(pairing(a + a2, b + b2) == e * ea * eb * pairing(a2, b2), "e(P+P', Q+Q') is not the product of the four");
    for (n, v) in [("-P, Q", pairing(-a, b)), ("P, -Q", pairing(a, -b))] {
        ensure!(v * e == Gt::one(), "e({}) e(P,Q) != 1", n);
        ensure!(v == e.inverse(), "e({}) != e(P,Q)^-1", n);
    }
    ensure!(pairing(-a, -b) == e, "e(-P, -Q) != e(P, Q)");
    ensure!((e == Gt::one()) == (p.is_none() || q.is_none()), "e(P, Q) is one: {} for P = {}, Q = {}", e == Gt::one(), ptext(&p), ptext(&q));
    Ok(())
}

fn zeros(s: &mut Src) -> R {
    let (p, a) = any::<G1>(s);
    let (q, b) = any::<G2>(s);
    s.note(|| format!("P = {}, Q = {}", ptext(&p), ptext(&q)));
    s.nontrivial();
    for (n, v) in [
        ("P, O", pairing(a, G2::zero())),
        ("O, Q", pairing(G1::zero(), b)),
        ("O, O", pairing(G1::zero(), G2::zero())),
        ("P, Q - Q", pairing(a, b - b)),
        ("P - P, Q", pairing(a - a, b)),
        ("P - P, Q - Q", pairing(a - a, b - b)),
        ("P * 0, Q", pairing(a * Fr::zero(), b)),
        ("P, Q * 0", pairing(a, b * Fr::zero())),
    ] {
        gt_is(&format!("e({})", n), &v, &F12::one())?;
        ensure!(v == Gt::one(), "e({}) != one", n);
    }
    Ok(())
}

/// Products of pairings are one exactly when the exponents sum to zero.
fn products(s: &mut Src) -> R {
    let m = fr();
    let n = 2 + s.below(4);
    let mut sum = ZERO;
    let mut acc = Gt::one();
    let mut last = None;
    for i in 0..n {
        let (a, p) = known::<G1>(s);
        let (b, q) = known::<G2>(s);
        if i + 1 == n && s.flag() && !is_zero(&b) {
            // complete the product to one
            let want = m.mul(&m.neg(&sum), &m.inv(&b).unwrap());
            acc = acc * pairing(G1::one() * fr_of(&want), q);
            sum = ZERO;
            last = Some(want);
        } else {
            sum = m.add(&sum, &m.mul(&a, &b));
            acc = acc * pairing(p, q);
        }
    }
    s.note(|| format!("{} factors, exponents sum to {}, completed {:?}", n, hex(&sum), last.map(|x| hex(&x))));
    s.class(if is_zero(&sum) { "product one" } else { "product not one" });
    s.nontrivial();
    ensure!((acc == Gt::one()) == is_zero(&sum), "product of pairings is one: {}", acc == Gt::one());
    gt_is("product of pairings", &acc, &gt_pow(&sum))
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "Points of known and unknown discrete logarithm in random representations, second points fresh, equal, opposite, same-y, identity or double; boundary scalars; products of 2 to 5 pairings, half of them completed to one. Non-trivial: no zero scalar and no identity among the inputs; every zero and product case.",
        assumptions: &["inputs are built through the serialized coordinates, themselves checked by C12"],
        subs: vec![
            sub("scalars", 1_200, 120_000, scalars),
            sub("sums", 900, 80_000, sums),
            sub("zeros", 8_000, 480_000, zeros),
            sub("products", 900, 80_000, products),
        ],
    }
}

// ---- C10 -------------------------------------------------------------

fn value(s: &mut Src) -> R {
    let (p, a) = any::<G1>(s);
    let (q, b) = any::<G2>(s);
    s.note(|| format!("P = {}, Q = {}", ptext(&p), ptext(&q)));
    if p.is_some() && q.is_some() {
        s.nontrivial();
    }
    gt_is("e(P, Q)", &pairing(a, b), &engine::model::pairing(&p, &q))
}
fn value_log(s: &mut Src) -> R {
    let (a, p) = known::<G1>(s);
    let (b, q) = known::<G2>(s);
    s.note(|| format!("P = {}*G1, Q = {}*G2", hex(&a), hex(&b)));
    if !is_zero(&a) && !is_zero(&b) {
        s.nontrivial();
    }
    gt_is("e(aG1, bG2)", &pairing(p, q), &gt_pow(&fr().mul(&a, &b)))
}
fn value_small(s: &mut Src) -> R {
    let i = s.draw(40 * 40);
    let (a, b) = (i / 40, i % 40);
    let f = |k: u64| if k < 20 { u(k) } else { fr().neg(&u(k - 19)) };
    s.absorb(&[a, b]);
    s.nontrivial();
    s.note(|| format!("P = {}*G1, Q = {}*G2", hex(&f(a)), hex(&f(b))));
    let (p, q): (G1, G2) = (mk(&repr(&mut Src::replay(vec![]), &gmul::<F1>(&f(a)))), mk(&repr(&mut Src::replay(vec![]), &gmul::<F2>(&f(b)))));
    gt_is("e(aG1, bG2)", &pairing(p, q), &gt_pow(&fr().mul(&f(a), &f(b))))
}
fn generator(_: &mut Src) -> R {
    let g = pairing(G1::one(), G2::one());
    gt_is("e(G1, G2)", &g, &gt_gen()[0])?;
    ensure!(g == gt_of(&gt_gen()[0]) && g != Gt::one(), "e(G1, G2) compared with the same element read back");
    gt_is("one()", &Gt::one(), &F12::one())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "Points (multiples of the generator with boundary scalars, G1 points above a boundary x, Frobenius images in G2) in random representations against the textbook optimal ate pairing computed over affine points, dense degree-12 polynomials and one plain exponentiation; more volume against powers of the reference generator; small multiples exhaustively. Non-trivial: neither point is the identity.",
        assumptions: &["the final exponent is k(q^12-1)/r with k = 2z(6z^2+3z+1), fixed by the library's own test vector"],
        subs: vec![
            grid("generator", 1, generator),
            grid("small-multiples", 1600, value_small),
            sub("value", 1_500, 60_000, value),
            sub("value-log", 4_000, 250_000, value_log),
        ],
    }
}

// ---- C11 -------------------------------------------------------------

/// A Gt element with its exponent: any exponent, or one that makes the
/// element share coordinates with others (inverse, Frobenius images).
fn exponent(s: &mut Src) -> U {
    scalar(s)
}
fn related_exponent(s: &mut Src, a: &U) -> U {
    let m = fr();
    match s.weighted(&[5, 3, 1, 2, 1, 1]) {
        0 => scalar(s),
        1 => m.neg(a),
        2 => *a,
        3 => {
            // a Frobenius image: exponent times q^i
            let i = 1 + s.draw(11);
            let q = m.of(&fq().m);
            m.mul(a, &m.pow(&q, &[i]))
        }
        4 => m.add(a, a),
        _ => ZERO,
    }
}

fn gt_ops(s: &mut Src) -> R {
    let m = fr();
    let a = exponent(s);
    let b = related_exponent(s, &a);
    let k = scalar(s);
    s.absorb(&b);
    s.note(|| format!("x = g^{}, y = g^{}, k = {}", hex(&a), hex(&b), hex(&k)));
    let (va, vb) = (gt_pow(&a), gt_pow(&b));
    let (x, y) = (gt_of(&va), gt_of(&vb));
    if !is_zero(&a) && !is_zero(&b) {
        s.nontrivial();
    }
    if m.neg(&a) == b {
        s.class("y = x^-1");
    }
    gt_is("x * y", &(x * y), &va.mul(&vb))?;
    gt_is("y * x", &(y * x), &va.mul(&vb))?;
    gt_is("x * x", &(x * x), &va.mul(&va))?;
    let i = x.inverse();
    gt_is("x^-1", &i, &gt_pow(&m.neg(&a)))?;
    gt_is("x * x^-1", &(x * i), &F12::one())?;
    gt_is("x * 1", &(x * Gt::one()), &va)?;
    gt_is("1 * x", &(Gt::one() * x), &va)?;
    gt_is("x^k", &x.pow(fr_of(&k)), &gt_pow(&m.mul(&a, &k)))?;
    ensure!((x == y) == (a == b), "x == y is {}", x == y);
    ensure!((y == x) == (a == b), "y == x is {}", y == x);
    ensure!((x != y) == (a != b), "x != y is {}", x != y);
    ensure!((x == Gt::one()) == is_zero(&a), "x == 1 is {}", x == Gt::one());
    ensure!((x == i) == (a == m.neg(&a)), "x == x^-1 is {}", x == i);
    Ok(())
}

fn gt_laws(s: &mut Src) -> R {
    let m = fr();
    let a = exponent(s);
    let b = related_exponent(s, &a);
    let (x, y) = (gt_of(&gt_pow(&a)), gt_of(&gt_pow(&b)));
    let k = scalar(s);
    let l = related(s, m, rmont(), &k);
    let (fk, fl) = (fr_of(&k), fr_of(&l));
    s.note(|| format!("x = g^{}, y = g^{}, a = {}, b = {}", hex(&a), hex(&b), hex(&k), hex(&l)));
    if !is_zero(&a) && !is_zero(&k) && !is_zero(&l) {
        s.nontrivial();
    }
    let (xk, xl) = (x.pow(fk), x.pow(fl));
    ensure!(x.pow(fk + fl) == xk * xl, "x^(a+b) != x^a x^b");
    ensure!(x.pow(fk * fl) == xk.pow(fl), "x^(ab) != (x^a)^b");
    ensure!((x * y).pow(fk) == xk * y.pow(fk), "(xy)^a != x^a y^a");
    ensure!(x.pow(-fk) == xk.inverse() && x.inverse().pow(fk) == xk.inverse(), "x^-a != (x^a)^-1");
    ensure!(x.pow(Fr::zero()) == Gt::one() && x.pow(Fr::one()) == x, "x^0 or x^1");
    ensure!((x * y).inverse() == y.inverse() * x.inverse(), "(xy)^-1");
    ensure!(x.inverse().inverse() == x, "(x^-1)^-1");
    if let Some(i) = fk.inverse() {
        ensure!(xk.pow(i) == x, "(x^a)^(1/a) != x");
    }
    Ok(())
}

fn gt_chain(s: &mut Src) -> R {
    let m = fr();
    let mut e: Vec<U> = (0..3).map(|_| exponent(s)).collect();
    let mut r: Vec<Gt> = e.iter().map(|k| gt_of(&gt_pow(k))).collect();
    let n = 3 + s.below(12);
    for step in 0..n {
        let (i, j, k, op) = (s.below(3), s.below(3), s.below(3), s.weighted(&[4, 2, 1, 2, 1]));
        let (name, x, v) = match op {
            0 => ("*", r[i] * r[j], m.add(&e[i], &e[j])),
            1 => ("inverse", r[i].inverse(), m.neg(&e[i])),
            2 => {
                let c = scalar(s);
                ("pow", r[i].pow(fr_of(&c)), m.mul(&e[i], &c))
            }
            3 => ("square", r[i] * r[i], m.add(&e[i], &e[i])),
            _ => ("/", r[i] * r[j].inverse(), m.sub(&e[i], &e[j])),
        };
        s.note(|| format!("step {}: r{} = r{} {} r{}", step, k, i, name, j));
        s.absorb(&[op as u64, i as u64, j as u64, k as u64]);
        for t in 0..3 {
            ensure!((x == r[t]) == (v == e[t]), "step {} ({}): equality with register {} is {}", step, name, t, x == r[t]);
        }
        ensure!((x == Gt::one()) == is_zero(&v), "step {} ({}): equality with one is wrong", step, name);
        r[k] = x;
        e[k] = v;
        gt_is(&format!("step {} ({})", step, name), &x, &gt_pow(&v))?;
    }
    if n > 4 {
        s.nontrivial();
    }
    Ok(())
}

fn gt_small(s: &mut Src) -> R {
    // g^a to the b for a in -6..6, all b below 300 or above r - 300
    let i = s.draw(12 * 600);
    let (ai, bi) = (i / 600, i % 600);
    let f = |k: u64, h: u64| if k < h { u(k) } else { fr().neg(&u(k - h + 1)) };
    let (a, b) = (f(ai, 6), f(bi, 300));
    s.absorb(&a);
    s.absorb(&b);
    s.nontrivial();
    s.note(|| format!("(g^{})^{}", hex(&a), hex(&b)));
    gt_is("x^k", &gt_of(&gt_pow(&a)).pow(fr_of(&b)), &gt_pow(&fr().mul(&a, &b)))
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "Powers of the generator with boundary or uniform exponents; the second element fresh, the inverse (which shares half of the coordinates), equal, a Frobenius image, the square or one; boundary exponents. Oracle: reference powers of the generator, dense multiplication in Fq2[w]/(w^6-(9+u)). Non-trivial: neither element is one; chains of more than 4 steps; every grid case.",
        assumptions: &["Gt elements are built and read through the serialized coordinates, themselves checked by C12"],
        subs: vec![
            grid("small-powers", 7200, gt_small),
            sub("ops", 5_000, 500_000, gt_ops),
            sub("laws", 1_000, 150_000, gt_laws),
            sub("chain", 1_500, 150_000, gt_chain),
        ],
    }
}
