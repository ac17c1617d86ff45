//! C04: the extension tower, through the hook (`--cfg rabe_bn_verif`).
use crate::adapt::{q_vals, q_words, unwords, words};
use crate::codec::{dec, enc, Store};
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::arith::U256;
use rabe_bn::verif_hooks::{FieldElement, Fq, Fq12, Fq2, Fq6};

trait Level: FieldElement + Store {
    const N: usize;
    const NAME: &'static str;
}
impl Level for Fq {
    const N: usize = 1;
    const NAME: &'static str = "Fq";
}
impl Level for Fq2 {
    const N: usize = 2;
    const NAME: &'static str = "Fq2";
}
impl Level for Fq6 {
    const N: usize = 6;
    const NAME: &'static str = "Fq6";
}
impl Level for Fq12 {
    const N: usize = 12;
    const NAME: &'static str = "Fq12";
}

// Every level is a prefix of the twelve tower coordinates, so one reference
// (polynomials in w modulo w^6 - (9+u)) serves all of them.
fn mk<T: Level>(v: &F12) -> T {
    let c = v.tower();
    assert!(c[T::N..].iter().all(|x| is_zero(x)), "ORACLE: value outside the level");
    dec(&unwords(&q_words(&c[..T::N]))).expect("a valid stored element was refused")
}
fn val<T: Level>(t: &T) -> Result<F12, String> {
    let mut c = q_vals(&words(&enc(t)))?;
    if c.len() != T::N {
        return Err(format!("{} is stored as {} coordinates", T::NAME, c.len()));
    }
    c.resize(12, ZERO);
    Ok(F12::from_tower(&c))
}
fn is<T: Level>(what: &str, t: &T, v: &F12) -> R {
    let a = val(t).map_err(|e| format!("{} {}: {}", T::NAME, what, e))?;
    ensure!(a == *v, "{} {}: got {}, expected {}", T::NAME, what, a.text(), v.text());
    ensure!(t.is_zero() == (*v == F12::zero()), "{} {}: is_zero is {} for {}", T::NAME, what, t.is_zero(), v.text());
    Ok(())
}

fn element(s: &mut Src, n: usize) -> F12 {
    let mut c = vec![ZERO; 12];
    let shape = s.weighted(&[4, 3, 2, 2]);
    match shape {
        0 => {
            for x in c.iter_mut().take(n) {
                *x = base(s);
            }
        }
        1 => {
            // sparse
            for x in c.iter_mut().take(n) {
                if s.one_in(3) {
                    *x = base(s);
                }
            }
        }
        2 => {
            // subfield or a single coordinate
            let sub = s.pick(&[1usize, 2, 6]).min(n);
            let at = if s.flag() { s.below(n / sub) * sub } else { 0 };
            for x in c.iter_mut().skip(at).take(sub) {
                *x = base(s);
            }
        }
        _ => {
            // coordinates repeating one value and its opposite
            let a = base(s);
            for x in c.iter_mut().take(n) {
                *x = match s.below(4) {
                    0 => a,
                    1 => fq().neg(&a),
                    2 => ZERO,
                    _ => fq().add(&a, &ONE),
                };
            }
        }
    }
    s.class(["dense", "sparse", "subfield", "repeating"][shape]);
    for x in &c {
        s.absorb(x);
    }
    F12::from_tower(&c)
}

fn partner(s: &mut Src, n: usize, a: &F12) -> F12 {
    let b = match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => element(s, n),
        1 => *a,
        2 => a.neg(),
        3 => {
            // conjugate over the largest subfield
            let mut c = a.tower();
            for x in c.iter_mut().take(n).skip((n + 1) / 2) {
                *x = fq().neg(x);
            }
            F12::from_tower(&c)
        }
        4 => {
            let mut c = a.tower();
            let k = s.below(n);
            c[k] = base(s);
            F12::from_tower(&c)
        }
        _ => {
            // coordinates in another order
            let mut c = a.tower();
            c[..n].rotate_left(1 % n);
            F12::from_tower(&c)
        }
    };
    for x in &b.tower() {
        s.absorb(x);
    }
    b
}

fn check<T: Level>(s: &mut Src, a: &F12, b: &F12) -> R {
    let (x, y): (T, T) = (mk(a), mk(b));
    is("stored value", &x, a)?;
    is("a + b", &(x + y), &a.add(b))?;
    is("a - b", &(x - y), &a.sub(b))?;
    is("-a", &(-x), &a.neg())?;
    let ab = a.mul(b);
    is("a * b", &(x * y), &ab)?;
    is("b * a", &(y * x), &ab)?;
    let aa = a.mul(a);
    is("a * a", &(x * x), &aa)?;
    is("a squared", &x.squared(), &aa)?;
    ensure!(x.squared() == x * x, "{}: squaring differs from multiplication", T::NAME);
    ensure!((x == y) == (a == b), "{}: equality is {} for {} and {}", T::NAME, x == y, a.text(), b.text());
    ensure!((x != y) == (a != b), "{}: inequality is {} for {} and {}", T::NAME, x != y, a.text(), b.text());
    match x.inverse() {
        None => ensure!(*a == F12::zero(), "{}: no inverse of {}", T::NAME, a.text()),
        Some(i) => {
            ensure!(*a != F12::zero(), "{}: zero has an inverse", T::NAME);
            let iv = val(&i).map_err(|e| format!("{} inverse: {}", T::NAME, e))?;
            ensure!(iv.mul(a) == F12::one(), "{}: inverse of {} is {}", T::NAME, a.text(), iv.text());
        }
    }
    if s.one_in(12) {
        s.class("power");
        let e = u256(s);
        is("a^e", &x.pow(U256(e)), &a.pow(&e))?;
        let small = s.draw(9);
        is("a^small", &x.pow(U256(u(small))), &a.pow(&[small]))?;
    }
    Ok(())
}

fn level<T: Level>(s: &mut Src) -> R {
    let a = element(s, T::N);
    let b = partner(s, T::N, &a);
    s.note(|| format!("{}: a = {}, b = {}", T::NAME, a.text(), b.text()));
    let trivial = |v: &F12| *v == F12::zero() || *v == F12::one();
    if !trivial(&a) && !trivial(&b) {
        s.nontrivial();
    }
    check::<T>(s, &a, &b)
}

/// Values below 4 in every coordinate, both operands: Fq2 completely, Fq on a
/// larger grid, sparse supports of Fq6 and Fq12.
fn small_grid(s: &mut Src) -> R {
    let i = s.draw(GRID) as usize;
    let pick = |k: usize| -> U {
        match k {
            0 => ZERO,
            1 => ONE,
            2 => fq().neg(&ONE),
            _ => u(2),
        }
    };
    let el = |n: usize, code: usize| -> F12 {
        // two coordinates out of n are set
        let mut c = vec![ZERO; 12];
        let (p, q) = (code / 16 % n, code / 16 / n % n);
        c[p] = pick(code % 4);
        c[q] = fq().add(&c[q], &pick(code / 4 % 4));
        F12::from_tower(&c)
    };
    let h = engine::src::mix(i as u64);
    let (ca, cb) = ((h & 0xffff) as usize, (h >> 16 & 0xffff) as usize);
    s.nontrivial();
    s.absorb(&[ca as u64, cb as u64, i as u64 % 4]);
    match i % 4 {
        0 => check::<Fq>(s, &el(1, ca), &el(1, cb)),
        1 => check::<Fq2>(s, &el(2, ca), &el(2, cb)),
        2 => check::<Fq6>(s, &el(6, ca), &el(6, cb)),
        _ => check::<Fq12>(s, &el(12, ca), &el(12, cb)),
    }
}
const GRID: u64 = 40_000;

fn constants<T: Level>() -> R {
    is("zero", &T::zero(), &F12::zero())?;
    is("one", &T::one(), &F12::one())?;
    ensure!(T::zero().inverse().is_none(), "{}: zero has an inverse", T::NAME);
    is("0^0", &T::zero().pow(U256(ZERO)), &F12::one())
}
fn all_constants(_: &mut Src) -> R {
    constants::<Fq>()?;
    constants::<Fq2>()?;
    constants::<Fq6>()?;
    constants::<Fq12>()
}

/// Computations whose intermediate results feed later operations.
fn chain<T: Level>(s: &mut Src) -> R {
    let mut v: Vec<F12> = (0..3).map(|_| element(s, T::N)).collect();
    let mut r: Vec<T> = v.iter().map(mk).collect();
    let n = 3 + s.below(20);
    for step in 0..n {
        let (i, j, k, op) = (s.below(3), s.below(3), s.below(3), s.below(6));
        let (name, x, y) = match op {
            0 => ("+", r[i] + r[j], v[i].add(&v[j])),
            1 => ("-", r[i] - r[j], v[i].sub(&v[j])),
            2 => ("*", r[i] * r[j], v[i].mul(&v[j])),
            3 => ("squared", r[i].squared(), v[i].mul(&v[i])),
            4 => ("neg", -r[i], v[i].neg()),
            _ => match r[i].inverse() {
                None => {
                    ensure!(v[i] == F12::zero(), "step {}: no inverse of {}", step, v[i].text());
                    ("inverse of zero", r[i], v[i])
                }
                Some(x) => {
                    let y = val(&x)?;
                    ensure!(y.mul(&v[i]) == F12::one(), "step {}: inverse of {} is {}", step, v[i].text(), y.text());
                    ("inverse", x, y)
                }
            },
        };
        s.note(|| format!("step {}: r{} = r{} {} r{}", step, k, i, name, j));
        is(&format!("step {} ({})", step, name), &x, &y)?;
        r[k] = x;
        v[k] = y;
    }
    if n > 6 {
        s.nontrivial();
    }
    Ok(())
}
fn any_chain(s: &mut Src) -> R {
    match s.below(4) {
        0 => chain::<Fq>(s),
        1 => chain::<Fq2>(s),
        2 => chain::<Fq6>(s),
        _ => chain::<Fq12>(s),
    }
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "Elements of each level with dense, sparse, subfield or repeating coordinates, each coordinate of boundary value or boundary stored limbs or uniform; the second operand fresh, equal, opposite, conjugate, one coordinate away or a coordinate rotation; plus chains of operations. Non-trivial: neither operand is 0 or 1; chains of more than 6 steps; every grid case.",
        assumptions: &["the tower is private: it is reached through the cfg(rabe_bn_verif) re-export, and built and read through its serialized form"],
        subs: vec![
            grid("constants", 1, all_constants),
            grid("small-grid", GRID, small_grid),
            sub("fq", 120_000, 6_000_000, level::<Fq>),
            sub("fq2", 100_000, 5_000_000, level::<Fq2>),
            sub("fq6", 60_000, 3_000_000, level::<Fq6>),
            sub("fq12", 60_000, 3_000_000, level::<Fq12>),
            sub("chain", 20_000, 1_000_000, any_chain),
        ],
    }
}
