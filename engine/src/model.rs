//! Reference model of the curve: plain residues, schoolbook polynomials,
//! affine points, textbook Miller loop, plain final exponentiation.
use crate::big::{self, *};
use std::sync::OnceLock;

pub fn fq() -> &'static Md {
    static C: OnceLock<Md> = OnceLock::new();
    C.get_or_init(|| Md::new(dec("21888242871839275222246405745257275088696311157297823662689037894645226208583")))
}
pub fn fr() -> &'static Md {
    static C: OnceLock<Md> = OnceLock::new();
    C.get_or_init(|| Md::new(dec("21888242871839275222246405745257275088548364400416034343698204186575808495617")))
}

/// Montgomery factor 2^256 mod m and its inverse, to read the stored limbs.
pub struct Mont {
    pub r: U,
    pub rinv: U,
}
fn mont(md: &Md) -> Mont {
    let r = md.pow(&big::u(2), &[256]);
    Mont { r, rinv: md.inv(&r).unwrap() }
}
pub fn qmont() -> &'static Mont {
    static C: OnceLock<Mont> = OnceLock::new();
    C.get_or_init(|| mont(fq()))
}
pub fn rmont() -> &'static Mont {
    static C: OnceLock<Mont> = OnceLock::new();
    C.get_or_init(|| mont(fr()))
}

pub trait F: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(&self, o: &Self) -> Self;
    fn neg(&self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn inv(&self) -> Option<Self>;
    fn sqrt(&self) -> Option<Self>;
    /// Some cube root, if there is one.
    fn cbrt(&self) -> Option<Self> {
        let c = cube_roots();
        let r = self.pow(&c.0[Self::N - 1]);
        for w in &c.1 {
            let mut v = vec![ZERO; Self::N];
            v[0] = w.0;
            let x = r.mul(&Self::from_coords(&v));
            if x.sq().mul(&x) == *self {
                return Some(x);
            }
        }
        None
    }
    fn coords(&self) -> Vec<U>;
    fn from_coords(c: &[U]) -> Self;
    const N: usize;
    /// curve coefficient of the curve over this field
    fn b() -> Self;
    fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }
    fn sq(&self) -> Self {
        self.mul(self)
    }
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
    fn times(&self, k: u64) -> Self {
        let mut r = Self::zero();
        for _ in 0..k {
            r = r.add(self);
        }
        r
    }
    fn pow(&self, e: &[u64]) -> Self {
        let mut r = Self::one();
        for i in (0..bits(e)).rev() {
            r = r.sq();
            if bit(e, i) {
                r = r.mul(self);
            }
        }
        r
    }
    fn text(&self) -> String {
        let c: Vec<String> = self.coords().iter().map(|x| hex(x)).collect();
        if c.len() == 1 {
            c[0].clone()
        } else {
            format!("[{}]", c.join(","))
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct F1(pub U);
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct F2(pub U, pub U);

impl F for F1 {
    const N: usize = 1;
    fn zero() -> F1 {
        F1(ZERO)
    }
    fn one() -> F1 {
        F1(ONE)
    }
    fn add(&self, o: &F1) -> F1 {
        F1(fq().add(&self.0, &o.0))
    }
    fn neg(&self) -> F1 {
        F1(fq().neg(&self.0))
    }
    fn mul(&self, o: &F1) -> F1 {
        F1(fq().mul(&self.0, &o.0))
    }
    fn inv(&self) -> Option<F1> {
        fq().inv(&self.0).map(F1)
    }
    fn sqrt(&self) -> Option<F1> {
        // q = 3 mod 4
        let mut e = fq().m;
        add_in(&mut e, &[1]);
        shr1(&mut e);
        shr1(&mut e);
        let s = self.pow(&e);
        if s.sq() == *self { Some(s) } else { None }
    }
    fn coords(&self) -> Vec<U> {
        vec![self.0]
    }
    fn from_coords(c: &[U]) -> F1 {
        F1(c[0])
    }
    fn b() -> F1 {
        F1(big::u(3))
    }
}

impl F2 {
    pub fn xi() -> F2 {
        F2(big::u(9), ONE)
    }
    pub fn conj(&self) -> F2 {
        F2(self.0, fq().neg(&self.1))
    }
}

impl F for F2 {
    const N: usize = 2;
    fn zero() -> F2 {
        F2(ZERO, ZERO)
    }
    fn one() -> F2 {
        F2(ONE, ZERO)
    }
    fn add(&self, o: &F2) -> F2 {
        F2(fq().add(&self.0, &o.0), fq().add(&self.1, &o.1))
    }
    fn neg(&self) -> F2 {
        F2(fq().neg(&self.0), fq().neg(&self.1))
    }
    fn mul(&self, o: &F2) -> F2 {
        let q = fq();
        F2(
            q.sub(&q.mul(&self.0, &o.0), &q.mul(&self.1, &o.1)),
            q.add(&q.mul(&self.0, &o.1), &q.mul(&self.1, &o.0)),
        )
    }
    fn inv(&self) -> Option<F2> {
        let q = fq();
        let n = q.add(&q.mul(&self.0, &self.0), &q.mul(&self.1, &self.1));
        q.inv(&n).map(|i| F2(q.mul(&self.0, &i), q.neg(&q.mul(&self.1, &i))))
    }
    fn sqrt(&self) -> Option<F2> {
        let q = fq();
        if is_zero(&self.1) {
            if let Some(s) = F1(self.0).sqrt() {
                return Some(F2(s.0, ZERO));
            }
            return F1(q.neg(&self.0)).sqrt().map(|s| F2(ZERO, s.0));
        }
        let n = F1(q.add(&q.mul(&self.0, &self.0), &q.mul(&self.1, &self.1))).sqrt()?;
        let half = q.inv(&big::u(2)).unwrap();
        for s in [n, n.neg()] {
            let t = F1(q.mul(&q.add(&self.0, &s.0), &half));
            if let Some(x) = t.sqrt() {
                if let Some(i) = q.inv(&q.add(&x.0, &x.0)) {
                    let r = F2(x.0, q.mul(&self.1, &i));
                    if r.sq() == *self {
                        return Some(r);
                    }
                }
            }
        }
        None
    }
    fn coords(&self) -> Vec<U> {
        vec![self.0, self.1]
    }
    fn from_coords(c: &[U]) -> F2 {
        F2(c[0], c[1])
    }
    fn b() -> F2 {
        static C: OnceLock<F2> = OnceLock::new();
        *C.get_or_init(|| F2(big::u(3), ZERO).mul(&F2::xi().inv().unwrap()))
    }
}

/// Fq12 as Fq2[w]/(w^6 - xi), coefficients of 1, w, .., w^5.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct F12(pub [F2; 6]);

impl F12 {
    pub fn one() -> F12 {
        let mut r = F12([F2::zero(); 6]);
        r.0[0] = F2::one();
        r
    }
    pub fn zero() -> F12 {
        F12([F2::zero(); 6])
    }
    pub fn add(&self, o: &F12) -> F12 {
        let mut r = *self;
        for i in 0..6 {
            r.0[i] = r.0[i].add(&o.0[i]);
        }
        r
    }
    pub fn neg(&self) -> F12 {
        let mut r = *self;
        for i in 0..6 {
            r.0[i] = r.0[i].neg();
        }
        r
    }
    pub fn sub(&self, o: &F12) -> F12 {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &F12) -> F12 {
        // Sums of at most 12 products below q^2 < 2^508 fit 512 bits.
        let q = fq();
        let mut acc = [[[0u64; 8]; 2]; 11];
        let nb: Vec<U> = o.0.iter().map(|x| q.neg(&x.1)).collect();
        for i in 0..6 {
            let a = &self.0[i];
            if a.is_zero() {
                continue;
            }
            for j in 0..6 {
                let b = &o.0[j];
                let t = &mut acc[i + j];
                for (k, x, y) in [(0, &a.0, &b.0), (0, &a.1, &nb[j]), (1, &a.0, &b.1), (1, &a.1, &b.0)] {
                    let c = add_in(&mut t[k], &mul_wide(x, y));
                    debug_assert!(!c);
                }
            }
        }
        let c: Vec<F2> = acc.iter().map(|t| F2(q.red(&t[0]), q.red(&t[1]))).collect();
        let mut r = [F2::zero(); 6];
        for i in 0..6 {
            r[i] = c[i];
            if i + 6 < 11 {
                r[i] = r[i].add(&c[i + 6].mul(&F2::xi()));
            }
        }
        F12(r)
    }
    pub fn pow(&self, e: &[u64]) -> F12 {
        let mut tab = vec![F12::one()];
        for i in 1..16 {
            let t = tab[i - 1].mul(self);
            tab.push(t);
        }
        let mut r = F12::one();
        let n = (bits(e) + 3) / 4;
        for w in (0..n).rev() {
            for _ in 0..4 {
                r = r.mul(&r);
            }
            let d = (0..4).fold(0usize, |d, k| d | (bit(e, 4 * w + k) as usize) << k);
            if d != 0 {
                r = r.mul(&tab[d]);
            }
        }
        r
    }
    /// Coordinates in the tower order c0.c0, c0.c1, c0.c2, c1.c0, c1.c1, c1.c2
    /// (v = w^2), each (real, imaginary).
    pub fn tower(&self) -> Vec<U> {
        [0, 2, 4, 1, 3, 5].iter().flat_map(|i| self.0[*i].coords()).collect()
    }
    pub fn from_tower(c: &[U]) -> F12 {
        let mut r = F12::zero();
        for (k, i) in [0, 2, 4, 1, 3, 5].iter().enumerate() {
            r.0[*i] = F2(c[2 * k], c[2 * k + 1]);
        }
        r
    }
    pub fn text(&self) -> String {
        let c: Vec<String> = self.0.iter().map(|x| x.text()).collect();
        format!("({})", c.join(" "))
    }
}

/// Affine point; None is the identity.
pub type P<T> = Option<(T, T)>;

pub fn on_curve<T: F>(x: &T, y: &T) -> bool {
    y.sq() == x.sq().mul(x).add(&T::b())
}
pub fn padd<T: F>(a: &P<T>, b: &P<T>) -> P<T> {
    let ((x1, y1), (x2, y2)) = match (a, b) {
        (None, _) => return *b,
        (_, None) => return *a,
        (Some(a), Some(b)) => (*a, *b),
    };
    let l = if x1 == x2 {
        if y1.add(&y2).is_zero() {
            return None;
        }
        x1.sq().times(3).mul(&y1.add(&y1).inv().unwrap())
    } else {
        y2.sub(&y1).mul(&x2.sub(&x1).inv().unwrap())
    };
    let x3 = l.sq().sub(&x1).sub(&x2);
    Some((x3, l.mul(&x1.sub(&x3)).sub(&y1)))
}
pub fn pneg<T: F>(a: &P<T>) -> P<T> {
    a.map(|(x, y)| (x, y.neg()))
}
pub fn pmul<T: F>(a: &P<T>, k: &[u64]) -> P<T> {
    let mut r = None;
    for i in (0..bits(k)).rev() {
        r = padd(&r, &r);
        if bit(k, i) {
            r = padd(&r, a);
        }
    }
    r
}
pub fn ptext<T: F>(a: &P<T>) -> String {
    match a {
        None => "O".into(),
        Some((x, y)) => format!("({},{})", x.text(), y.text()),
    }
}

pub fn g1() -> P<F1> {
    Some((F1(ONE), F1(big::u(2))))
}
pub fn g2() -> P<F2> {
    static C: OnceLock<P<F2>> = OnceLock::new();
    *C.get_or_init(|| {
        Some((
            F2(
                dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                dec("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
            ),
            F2(
                dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                dec("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
            ),
        ))
    })
}

pub trait Gen: F {
    fn gen() -> P<Self>;
    fn table() -> &'static Vec<P<Self>>;
    fn windows() -> &'static Vec<P<Self>>;
}
/// j * 256^i * G at 256 i + j
fn mk_windows<T: Gen>() -> Vec<P<T>> {
    let mut v = Vec::new();
    for i in 0..32 {
        let g = T::table()[8 * i];
        let mut t = None;
        for _ in 0..256 {
            v.push(t);
            t = padd(&t, &g);
        }
    }
    let mut rng = crate::src::Rng::new(11);
    for i in 0..8 {
        let mut k = [rng.next(), rng.next(), rng.next(), rng.next()];
        match i {
            0 => k = fr().m,
            1 => k = [256, 0, 0, 1],
            2 => k = [u64::MAX; 4],
            _ => {}
        }
        assert!(gmul_from(&v, &k) == gmul_plain::<T>(&k), "ORACLE: table of multiples");
    }
    v
}
fn mk_table<T: F>(g: P<T>) -> Vec<P<T>> {
    let mut v = vec![g];
    for i in 0..255 {
        let t = padd(&v[i], &v[i]);
        v.push(t);
    }
    v
}
impl Gen for F1 {
    fn gen() -> P<F1> {
        g1()
    }
    fn table() -> &'static Vec<P<F1>> {
        static C: OnceLock<Vec<P<F1>>> = OnceLock::new();
        C.get_or_init(|| mk_table(g1()))
    }
    fn windows() -> &'static Vec<P<F1>> {
        static C: OnceLock<Vec<P<F1>>> = OnceLock::new();
        C.get_or_init(mk_windows::<F1>)
    }
}
impl Gen for F2 {
    fn gen() -> P<F2> {
        g2()
    }
    fn table() -> &'static Vec<P<F2>> {
        static C: OnceLock<Vec<P<F2>>> = OnceLock::new();
        C.get_or_init(|| mk_table(g2()))
    }
    fn windows() -> &'static Vec<P<F2>> {
        static C: OnceLock<Vec<P<F2>>> = OnceLock::new();
        C.get_or_init(mk_windows::<F2>)
    }
}
/// k times the generator, from the table of doublings.
pub fn gmul_plain<T: Gen>(k: &U) -> P<T> {
    let mut r = None;
    for (i, p) in T::table().iter().enumerate() {
        if bit(k, i) {
            r = padd(&r, p);
        }
    }
    r
}
/// The same from a larger table, adding pairwise with one inversion a round.
pub fn gmul<T: Gen>(k: &U) -> P<T> {
    gmul_from(T::windows(), k)
}
fn gmul_from<T: F>(t: &[P<T>], k: &U) -> P<T> {
    let mut v: Vec<P<T>> = (0..32).map(|i| t[256 * i + (k[i / 8] >> (8 * (i % 8)) & 255) as usize]).filter(|p| p.is_some()).collect();
    while v.len() > 1 {
        v = add_pairs(&v);
    }
    v.pop().unwrap_or(None)
}
fn add_pairs<T: F>(v: &[P<T>]) -> Vec<P<T>> {
    // differences of x, where the plain chord applies, inverted together
    let d: Vec<Option<T>> = v
        .chunks(2)
        .map(|c| match c {
            [Some(a), Some(b)] if a.0 != b.0 => Some(b.0.sub(&a.0)),
            _ => None,
        })
        .collect();
    let mut run = vec![T::one()];
    for x in d.iter().flatten() {
        let t = run[run.len() - 1].mul(x);
        run.push(t);
    }
    let mut i = run.pop().unwrap().inv().expect("ORACLE: batch inversion");
    let mut out: Vec<P<T>> = Vec::new();
    for (c, x) in v.chunks(2).zip(&d).rev() {
        out.push(match (c, x) {
            ([Some(a), Some(b)], Some(x)) => {
                let l = b.1.sub(&a.1).mul(&i.mul(&run.pop().unwrap()));
                i = i.mul(x);
                let x3 = l.sq().sub(&a.0).sub(&b.0);
                Some((x3, l.mul(&a.0.sub(&x3)).sub(&a.1)))
            }
            ([a, b], _) => padd(a, b),
            _ => c[0],
        });
    }
    out.reverse();
    out
}

/// For Fq and Fq2: an exponent k with a^3k = a times a ninth root of unity; and
/// 1, w, w^2 for a primitive ninth root of unity w. (9 divides q - 1, 27 does
/// not, 3 does not divide q + 1.)
fn cube_roots() -> &'static ([W; 2], [F1; 3]) {
    static C: OnceLock<([W; 2], [F1; 3])> = OnceLock::new();
    C.get_or_init(|| {
        let by3 = |n: &W| -> (W, u64) {
            let (mut q, mut rem) = ([0; 8], 0u128);
            for i in (0..8).rev() {
                let t = (rem << 64) | n[i] as u128;
                q[i] = (t / 3) as u64;
                rem = t % 3;
            }
            (q, rem as u64)
        };
        let ks = [widen(&fq().m), big::mul_wide(&fq().m, &fq().m)].map(|mut n| {
            sub_in(&mut n, &[1]);
            let (n, r1) = by3(&n);
            let (t, r2) = by3(&n);
            let left = by3(&t).1;
            assert!(r1 == 0 && r2 == 0 && left != 0);
            // 3 k = 1 + j t
            let mut m = t;
            if left == 1 {
                add_in(&mut m, &t);
            }
            add_in(&mut m, &[1]);
            let (k, r3) = by3(&m);
            assert!(r3 == 0);
            (k, t)
        });
        let mut g = 2;
        loop {
            let w = F1(big::u(g)).pow(&ks[0].1);
            if w.sq().mul(&w) != F1::one() {
                return ([ks[0].0, ks[1].0], [F1::one(), w, w.sq()]);
            }
            g += 1;
        }
    })
}

/// Primitive cube root of unity in Fq: (x, y) -> (beta x, y) maps either curve
/// to itself and multiplies by a scalar on the order-r group.
pub fn beta() -> F1 {
    static C: OnceLock<F1> = OnceLock::new();
    *C.get_or_init(|| {
        let mut e = widen(&fq().m);
        sub_in(&mut e, &[1]);
        let (q3, rem) = divrem(&e, &big::u(3));
        assert!(is_zero(&rem));
        let mut k = 2;
        loop {
            let b = F1(big::u(k)).pow(&q3);
            if b != F1::one() {
                return b;
            }
            k += 1;
        }
    })
}
pub fn endo1(p: &P<F1>) -> P<F1> {
    p.map(|(x, y)| (x.mul(&beta()), y))
}
pub fn endo2(p: &P<F2>) -> P<F2> {
    let b = beta();
    p.map(|(x, y)| (x.mul(&F2(b.0, ZERO)), y))
}

pub const Z: u64 = 4965661367192848881;

/// The exponent of the pairing: k (q^12 - 1)/r with the cofactor
/// k = 2z(6z^2 + 3z + 1) that the library's fixed test vector implies.
pub fn final_exponent() -> &'static Vec<u64> {
    static C: OnceLock<Vec<u64>> = OnceLock::new();
    C.get_or_init(|| {
        let mulv = |a: &[u64], b: &[u64]| {
            let mut r = vec![0u64; a.len() + b.len()];
            mac(&mut r, a, b);
            r
        };
        let q = fq().m.to_vec();
        let mut e = vec![1u64];
        for _ in 0..12 {
            e = mulv(&e, &q);
        }
        sub_in(&mut e, &[1]);
        // long division by r, bit by bit
        let mut quo = vec![0u64; e.len()];
        let mut rem = [0u64; 5];
        for i in (0..bits(&e)).rev() {
            shl1(&mut rem);
            rem[0] |= bit(&e, i) as u64;
            if !lt(&rem, &fr().m) {
                sub_in(&mut rem, &fr().m);
                quo[i / 64] |= 1 << (i % 64);
            }
        }
        assert!(is_zero(&rem));
        let z2 = mulv(&[Z], &[Z]);
        let mut k = mulv(&z2, &[6, 0]);
        let tz = mulv(&[Z], &[3]);
        add_in(&mut k, &tz);
        add_in(&mut k, &[1]);
        let k = mulv(&mulv(&k, &[Z]), &[2]);
        let mut r = mulv(&quo, &k);
        while r.last() == Some(&0) {
            r.pop();
        }
        r
    })
}

fn line(px: &F1, py: &F1, t: &mut P<F2>, s: &P<F2>) -> F12 {
    // Untwisted T = (x w^2, y w^3); slope on E is lambda w. Moves T to T + S.
    let (x1, y1) = t.unwrap();
    let (x2, y2) = s.unwrap();
    let mut l = F12::zero();
    let emb = |a: &F1| F2(a.0, ZERO);
    if x1 == x2 && y1.add(&y2).is_zero() {
        // vertical: x_P - x_T w^2
        l.0[0] = emb(px);
        l.0[2] = x1.neg();
        *t = None;
        return l;
    }
    let lam = if x1 == x2 {
        x1.sq().times(3).mul(&y1.add(&y1).inv().unwrap())
    } else {
        y2.sub(&y1).mul(&x2.sub(&x1).inv().unwrap())
    };
    l.0[0] = emb(py);
    l.0[1] = lam.mul(&emb(px)).neg();
    l.0[3] = lam.mul(&x1).sub(&y1);
    *t = padd(t, s);
    l
}

/// pi_q on the twist: (x^q xi^((q-1)/3), y^q xi^((q-1)/2)).
pub fn frob_twist(p: &P<F2>) -> P<F2> {
    static C: OnceLock<(F2, F2)> = OnceLock::new();
    let (cx, cy) = C.get_or_init(|| {
        let mut e = widen(&fq().m);
        sub_in(&mut e, &[1]);
        let (e3, _) = divrem(&e, &big::u(3));
        let (e2, _) = divrem(&e, &big::u(2));
        (F2::xi().pow(&e3), F2::xi().pow(&e2))
    });
    p.map(|(x, y)| (x.conj().mul(cx), y.conj().mul(cy)))
}

/// Miller function of the optimal ate pairing before the final exponentiation.
pub fn miller(p: &P<F1>, q: &P<F2>) -> F12 {
    let (px, py) = p.unwrap();
    let s: u128 = 6 * Z as u128 + 2;
    let e = [s as u64, (s >> 64) as u64];
    let mut f = F12::one();
    let mut t = *q;
    for i in (0..bits(&e) - 1).rev() {
        let tt = t;
        f = f.mul(&f).mul(&line(&px, &py, &mut t, &tt));
        if bit(&e, i) {
            f = f.mul(&line(&px, &py, &mut t, q));
        }
    }
    let q1 = frob_twist(q);
    let q2 = pneg(&frob_twist(&q1));
    f = f.mul(&line(&px, &py, &mut t, &q1));
    f.mul(&line(&px, &py, &mut t, &q2))
}

pub fn pairing(p: &P<F1>, q: &P<F2>) -> F12 {
    if p.is_none() || q.is_none() {
        return F12::one();
    }
    miller(p, q).pow(final_exponent())
}

/// e(G1, G2), the generator of Gt, and its powers by the table of squarings.
pub fn gt_gen() -> &'static Vec<F12> {
    static C: OnceLock<Vec<F12>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![pairing(&g1(), &g2())];
        for i in 0..255 {
            let t = v[i].mul(&v[i]);
            v.push(t);
        }
        v
    })
}
pub fn gt_pow(k: &U) -> F12 {
    let mut r = F12::one();
    for (i, p) in gt_gen().iter().enumerate() {
        if bit(k, i) {
            r = r.mul(p);
        }
    }
    r
}

/// Sanity of the reference itself; a failure here is an error of the checks.
pub fn self_test() {
    static DONE: OnceLock<()> = OnceLock::new();
    DONE.get_or_init(|| {
        let mut rng = crate::src::Rng::new(7);
        for md in [fq(), fr()] {
            for _ in 0..200 {
                let mut x = [0u64; 8];
                for l in x.iter_mut() {
                    *l = rng.next();
                }
                assert!(md.red(&x) == divrem(&x, &md.m).1, "ORACLE: barrett vs bit-serial");
                let a = md.red(&x);
                assert!(md.mul(&a, &md.inv(&a).unwrap()) == ONE, "ORACLE: inv");
            }
            assert!(md.red(&[u64::MAX; 8]) == divrem(&[u64::MAX; 8], &md.m).1, "ORACLE");
        }
        for k in 2..6 {
            let (a, b) = (F1(big::u(k)), F2(big::u(k), big::u(7 - k)));
            let (a3, b3) = (a.sq().mul(&a), b.sq().mul(&b));
            let (ra, rb) = (a3.cbrt().unwrap(), b3.cbrt().unwrap());
            assert!(ra.sq().mul(&ra) == a3 && rb.sq().mul(&rb) == b3);
        }
        let (x, y) = g1().unwrap();
        assert!(on_curve(&x, &y), "ORACLE: g1");
        let (x, y) = g2().unwrap();
        assert!(on_curve(&x, &y), "ORACLE: g2");
        assert!(pmul(&g1(), &fr().m).is_none() && pmul(&g2(), &fr().m).is_none(), "ORACLE: order");
        // q acts as the Frobenius on G2
        assert!(frob_twist(&g2()) == pmul(&g2(), &fq().m), "ORACLE: frobenius");
        let e = pairing(&g1(), &g2());
        assert!(e != F12::one() && e.pow(&fr().m) == F12::one(), "ORACLE: pairing order");
        let a = pairing(&pmul(&g1(), &[5]), &pmul(&g2(), &[7]));
        assert!(a == e.pow(&[35]), "ORACLE: bilinear");
    });
}
