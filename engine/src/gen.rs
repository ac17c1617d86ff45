//! Generators of reference values, biased to the boundaries of the code.
use crate::big::{self, *};
use crate::model::*;
use crate::src::Src;

const LIMBS: [u64; 22] = [
    0, 1, 2, 3, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0xffff_ffff_0000_0000, 0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000, 0x8000_0000_0000_0001, u64::MAX, u64::MAX - 1,
    0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029,
    0x43e1f593f0000001, 0x2833e84879b97091, 0x43e1f593f0000000, 0x3c208c16d87cfd46, 0xffff_ffff_ffff_0000,
];

/// Any 256-bit integer.
pub fn u256(s: &mut Src) -> U {
    let mut a = ZERO;
    match s.weighted(&[3, 3, 3, 6, 2, 5, 2, 4, 2]) {
        8 => {
            // a small number, or a sum of two powers of two, far up
            let k = s.below(256);
            let c = if s.flag() { 1 + 2 * s.draw(16) } else { 1 | 1 << s.below(64) };
            let mut w = widen(&[c, 0, 0, 0]);
            for _ in 0..k {
                shl1(&mut w);
            }
            a = lo(&w);
            if s.one_in(4) {
                sub_in(&mut a, &[1]);
            }
        }
        0 => a[0] = s.draw(20),
        1 => {
            // 2^k plus or minus a little
            let k = s.below(256);
            a[k / 64] = 1 << (k % 64);
            match s.below(3) {
                0 => {}
                1 => {
                    sub_in(&mut a, &[1]);
                }
                _ => {
                    add_in(&mut a, &[1]);
                }
            }
        }
        2 => {
            // near a multiple of a field modulus
            let m = if s.flag() { fq().m } else { fr().m };
            let k = 1 + s.draw(5);
            let mut w = [0u64; 5];
            mac(&mut w, &m, &[k]);
            let d = s.draw(4);
            if s.flag() {
                add_in(&mut w, &[d]);
            } else {
                sub_in(&mut w, &[d]);
            }
            a = [w[0], w[1], w[2], w[3]];
            if w[4] != 0 {
                a = [u64::MAX - d; 4];
            }
        }
        3 => {
            for l in a.iter_mut() {
                *l = if s.weighted(&[3, 1]) == 0 { s.word(&LIMBS) } else { s.draw(0) };
            }
        }
        4 => {
            // a run of ones
            let lo = s.below(256);
            let n = s.below(256 - lo) + 1;
            for i in lo..lo + n {
                a[i / 64] |= 1 << (i % 64);
            }
        }
        5 => {
            for l in a.iter_mut() {
                *l = s.draw(0);
            }
        }
        6 => a = [u64::MAX; 4],
        _ => a = from_source(s),
    }
    s.absorb(&a);
    a
}

/// About m times the golden ratio (or its square, ..): slow for Euclid.
pub fn golden(s: &mut Src, m: &U) -> U {
    let mut a = *m;
    for _ in 0..1 + s.below(4) {
        let w = mul_wide(&a, &[0xf86c6a11d0c18e95,0x1082276bf3a27251,0xf39cc0605cedc834,0x9e3779b97f4a7c15]);
        a = [w[4], w[5], w[6], w[7]];
    }
    let d = s.draw(3);
    add_in(&mut a, &[d]);
    a
}

/// An integer with a literal of the source under test in it.
fn from_source(s: &mut Src) -> U {
    s.class("literal of the source");
    let mut a = ZERO;
    let style = s.below(6);
    match style {
        0 => a[0] = s.literal(),
        1 => {
            for l in a.iter_mut() {
                *l = s.literal();
            }
        }
        2 | 3 => {
            for l in a.iter_mut() {
                *l = s.draw(0);
            }
            a[s.below(4)] = s.literal();
        }
        4 => {
            // at another bit position
            let v = s.literal();
            let k = s.below(256);
            for i in 0..64 {
                if k + i < 256 && v >> i & 1 == 1 {
                    a[(k + i) / 64] |= 1 << ((k + i) % 64);
                }
            }
        }
        _ => {
            a = s.quad();
            let d = s.draw(3);
            if s.flag() {
                add_in(&mut a, &[d]);
            } else {
                sub_in(&mut a, &[d]);
            }
        }
    }
    a
}

pub fn w512(s: &mut Src) -> W {
    let a = u256(s);
    let b = u256(s);
    match s.below(3) {
        0 => [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]],
        1 => widen(&a),
        _ => {
            // a*b +- d: near quotient boundaries
            let mut w = mul_wide(&a, &b);
            let d = s.draw(3);
            if s.flag() {
                if add_in(&mut w, &[d]) {
                    w = [u64::MAX; 8];
                }
            } else if sub_in(&mut w, &[d]) {
                w = [0; 8];
            }
            w
        }
    }
}

/// A residue modulo md, biased; both its value and its Montgomery form get
/// boundary shapes.
pub fn residue(s: &mut Src, md: &Md, mo: &Mont) -> U {
    let v = match s.weighted(&[4, 3, 2, 4, 5, 5, 1]) {
        0 => big::u(s.draw(17)),
        1 => md.neg(&big::u(s.draw(17))),
        6 => {
            // near a literal of the source, or its negative
            let a = big::u(s.literal());
            if s.flag() { md.neg(&a) } else { a }
        }
        2 => {
            // (m +- 1)/2, m/3, ..
            let mut w = widen(&md.m);
            let d = s.draw(3);
            add_in(&mut w, &[d]);
            let by = 2 + s.draw(8);
            if by == 9 {
                let a = golden(s, &md.m);
                md.of(&a)
            } else {
                let (q, _) = divrem(&w, &big::u(by));
                md.of(&lo(&q))
            }
        }
        3 => {
            let a = u256(s);
            md.of(&a)
        }
        4 => {
            // special stored limbs
            let a = u256(s);
            md.mul(&md.of(&a), &mo.rinv)
        }
        _ => {
            // Words of the value, or of its stored form, as they are on the
            // tape: what the guided search changes is what the code compares.
            let a = [s.draw(0), s.draw(0), s.draw(0), s.draw(md.m[3])];
            if s.one_in(4) { md.mul(&a, &mo.rinv) } else { a }
        }
    };
    s.absorb(&v);
    v
}

/// A second residue related to the first.
pub fn related(s: &mut Src, md: &Md, mo: &Mont, a: &U) -> U {
    let v = match s.weighted(&[8, 1, 1, 1, 1, 1, 1, 2, 2, 2]) {
        0 => residue(s, md, mo),
        1 => *a,
        2 => md.neg(a),
        3 => md.add(a, &ONE),
        4 => md.sub(a, &ONE),
        5 => md.inv(a).unwrap_or(ZERO),
        6 => md.add(a, a),
        7 => {
            // stored limbs sum to a boundary: m, m+1, m-1, 2^64k
            let ra = md.mul(a, &mo.r);
            let mut t = md.m;
            match s.below(4) {
                0 => {}
                1 => {
                    add_in(&mut t, &[1]);
                }
                2 => {
                    sub_in(&mut t, &[1]);
                }
                _ => {
                    let k = 1 + s.below(3);
                    t = ZERO;
                    t[k] = 1;
                }
            }
            sub_in(&mut t, &ra);
            md.mul(&md.of(&t), &mo.rinv)
        }
        9 => {
            // words of the value or of the stored form in another order, or
            // two of them changed together: common sums, xors and checksums
            let stored = s.flag();
            let mut t = if stored { md.mul(a, &mo.r) } else { *a };
            let (i, j) = (s.below(4), s.below(4));
            let by = s.below(6);
            let x = s.word(&LIMBS);
            let was = t;
            // the first variation that is a residue
            for v in 0..16usize {
                t = was;
                let (i, j) = ((i + v) % 4, (j + v / 4) % 4);
                match by {
                    0 => t.rotate_left(1 + (i % 3)),
                    1 if v == 0 => t.reverse(),
                    1 | 2 => t.swap(i, j),
                    3 => {
                        t[i] ^= x;
                        t[j] ^= x;
                    }
                    4 => {
                        t[i] = t[i].wrapping_add(1 + x % 32);
                        t[j] = t[j].wrapping_sub(1 + x % 32);
                    }
                    _ => t[i] = t[j],
                }
                if t != was && lt(&t, &md.m) {
                    break;
                }
            }
            let t = md.of(&t);
            if stored { md.mul(&t, &mo.rinv) } else { t }
        }
        _ => {
            // stored limbs equal to a's except in one limb
            let mut t = md.mul(a, &mo.r);
            let k = s.below(4);
            t[k] = s.word(&LIMBS);
            md.mul(&md.of(&t), &mo.rinv)
        }
    };
    s.absorb(&v);
    v
}

pub fn scalar(s: &mut Src) -> U {
    residue(s, fr(), rmont())
}
pub fn base(s: &mut Src) -> U {
    residue(s, fq(), qmont())
}

pub trait Fg: Gen {
    fn special(s: &mut Src) -> Self;
    fn endo(p: &P<Self>) -> P<Self>;
    /// Any member of the order-r group.
    fn member(s: &mut Src) -> P<Self>;
}
impl Fg for F1 {
    fn special(s: &mut Src) -> F1 {
        F1(base(s))
    }
    fn endo(p: &P<F1>) -> P<F1> {
        endo1(p)
    }
    fn member(s: &mut Src) -> P<F1> {
        let p = match s.weighted(&[5, 5, 3]) {
            0 => {
                let k = scalar(s);
                gmul::<F1>(&k)
            }
            1 => lift(s),
            _ => two_specials(s),
        };
        absorb_point(s, &p);
        p
    }
}
impl Fg for F2 {
    fn special(s: &mut Src) -> F2 {
        match s.weighted(&[8, 4, 4, 1, 1]) {
            0 => F2(base(s), base(s)),
            1 => F2(base(s), ZERO),
            2 => F2(ZERO, base(s)),
            3 => {
                let a = base(s);
                F2(a, a)
            }
            _ => {
                let a = base(s);
                F2(a, fq().neg(&a))
            }
        }
    }
    fn endo(p: &P<F2>) -> P<F2> {
        endo2(p)
    }
    fn member(s: &mut Src) -> P<F2> {
        let k = scalar(s);
        let mut p = gmul::<F2>(&k);
        if s.one_in(4) {
            p = frob_twist(&p);
        }
        absorb_point(s, &p);
        p
    }
}

pub fn absorb_point<T: F>(s: &mut Src, p: &P<T>) {
    if let Some((x, y)) = p {
        for c in x.coords().iter().chain(y.coords().iter()) {
            s.absorb(c);
        }
    }
}

/// The first curve point with x at or above a special value (on E: in G1, as
/// its cofactor is one).
pub fn lift<T: Fg>(s: &mut Src) -> P<T> {
    let mut x = T::special(s);
    let neg = s.flag();
    for _ in 0..200 {
        let y2 = x.sq().mul(&x).add(&T::b());
        if let Some(y) = y2.sqrt() {
            return Some((x, if neg { y.neg() } else { y }));
        }
        x = x.add(&T::one());
    }
    panic!("ORACLE: no point found");
}

/// A point of G1 with a representation in which two coordinates are special
/// values (the representation is kept for `repr`), or any curve point.
fn two_specials(s: &mut Src) -> P<F1> {
    let (which, a, b) = (s.below(3), F1::special(s), F1::special(s));
    let cube = |x: &F1| x.sq().mul(x);
    // a x b from y^2 = x^3 + 3 z^6
    let r = match which {
        // X and Z
        0 => cube(&a).add(&F1::b().mul(&cube(&b.sq()))).sqrt().map(|y| (a, y, b)),
        // Y and Z
        1 => a.sq().sub(&F1::b().mul(&cube(&b.sq()))).cbrt().map(|x| (x, a, b)),
        // X and Y
        _ => F1::b().inv().and_then(|i| b.sq().sub(&cube(&a)).mul(&i).sqrt()).and_then(|z3| z3.cbrt()).map(|z| (a, b, z)),
    };
    match r.and_then(|(x, y, z)| z.inv().map(|i| (x, y, z, i))) {
        None => lift(s),
        Some((x, y, z, i)) => {
            s.class("two special coordinates");
            let p = (x.mul(&i.sq()), y.mul(&cube(&i)));
            s.hints.push((p.0 .0, z.0));
            Some(p)
        }
    }
}

/// Z for which one coordinate of the representation of (x, y) has the given
/// value, if there is one.
pub fn z_for<T: F>(x: &T, y: &T, coordinate: usize, value: &T) -> Option<T> {
    match coordinate {
        0 => x.inv().and_then(|i| value.mul(&i).sqrt()),
        1 => y.inv().and_then(|i| value.mul(&i).cbrt()),
        _ => Some(*value),
    }
}

/// Z for which two coordinates of the representation of (x, y) are equal or
/// opposite.
fn z_coincide<T: F>(s: &mut Src, x: &T, y: &T) -> Option<T> {
    let (which, neg) = (s.below(3), s.flag());
    let sign = |t: T| if neg { t.neg() } else { t };
    match which {
        0 => x.inv().map(sign),
        1 => y.inv().map(sign).and_then(|i| i.sqrt()),
        _ => y.inv().map(|i| sign(x.mul(&i))),
    }
}

/// A point related to `p`, with a label for the relation.
pub fn related_point<T: Fg>(s: &mut Src, p: &P<T>) -> P<T> {
    let (c, q) = match s.weighted(&[6, 3, 3, 2, 2, 2, 1, 1]) {
        0 => ("fresh", T::member(s)),
        1 => ("same", *p),
        2 => ("opposite", pneg(p)),
        3 => ("same-y", if s.flag() { T::endo(p) } else { T::endo(&T::endo(p)) }),
        4 => ("opposite-y", pneg(&T::endo(p))),
        5 => ("identity", None),
        6 => ("double", padd(p, p)),
        _ => ("minus-double", pneg(&padd(p, p))),
    };
    s.class(c);
    absorb_point(s, &q);
    q
}

/// A projective (Jacobian) representation (X, Y, Z) of the point. Identities
/// are either (0, 1, 0) or (t^2, t^3, 0), the two shapes the library produces.
pub fn repr<T: Fg>(s: &mut Src, p: &P<T>) -> (T, T, T) {
    match p {
        None => {
            if s.flag() {
                s.class("identity-noncanonical");
                let mut t = T::special(s);
                if t.is_zero() {
                    t = T::one();
                }
                (t.sq(), t.sq().mul(&t), T::zero())
            } else {
                (T::zero(), T::one(), T::zero())
            }
        }
        Some((x, y)) => {
            let hint = if T::N == 1 { s.hints.iter().find(|h| h.0 == x.coords()[0]).map(|h| h.1) } else { None };
            let z = match s.weighted(&[8, 4, 8, 5, 4, 2, 1, if hint.is_some() { 60 } else { 0 }]) {
                0 => T::one(),
                1 => T::one().neg(),
                2 => T::special(s),
                3 => {
                    // make X a special value where possible
                    let want = T::special(s);
                    z_for(x, y, 0, &want).unwrap_or(T::one())
                }
                5 => {
                    s.class("coordinates coincide");
                    z_coincide(s, x, y).unwrap_or(T::one())
                }
                6 => {
                    // make Y a special value where possible
                    let want = T::special(s);
                    z_for(x, y, 1, &want).unwrap_or(T::one())
                }
                7 => T::from_coords(&[hint.unwrap()]),
                _ => {
                    let t = T::special(s);
                    if t.is_zero() { T::one() } else { t.inv().unwrap() }
                }
            };
            let z = if z.is_zero() { T::one() } else { z };
            if z != T::one() {
                s.class("z!=1");
            }
            for c in z.coords() {
                s.absorb(&c);
            }
            (x.mul(&z.sq()), y.mul(&z.sq()).mul(&z), z)
        }
    }
}
