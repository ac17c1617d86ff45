//! Reference integers: 256/512-bit, little-endian limbs, written for clarity.
use std::cmp::Ordering;

pub type U = [u64; 4];
pub type W = [u64; 8];

pub const ZERO: U = [0; 4];
pub const ONE: U = [1, 0, 0, 0];

pub fn u(x: u64) -> U {
    [x, 0, 0, 0]
}

pub fn cmp(a: &[u64], b: &[u64]) -> Ordering {
    for i in (0..a.len().max(b.len())).rev() {
        let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
        if x != y {
            return x.cmp(&y);
        }
    }
    Ordering::Equal
}
pub fn lt(a: &[u64], b: &[u64]) -> bool {
    cmp(a, b) == Ordering::Less
}
pub fn is_zero(a: &[u64]) -> bool {
    a.iter().all(|x| *x == 0)
}
/// a += b, returning the carry out. b is not longer than a.
pub fn add_in(a: &mut [u64], b: &[u64]) -> bool {
    let mut c = false;
    for i in 0..a.len() {
        let (s, c1) = a[i].overflowing_add(b.get(i).copied().unwrap_or(0));
        let (s, c2) = s.overflowing_add(c as u64);
        a[i] = s;
        c = c1 | c2;
    }
    c
}
/// a -= b, returning the borrow out.
pub fn sub_in(a: &mut [u64], b: &[u64]) -> bool {
    let mut c = false;
    for i in 0..a.len() {
        let (s, c1) = a[i].overflowing_sub(b.get(i).copied().unwrap_or(0));
        let (s, c2) = s.overflowing_sub(c as u64);
        a[i] = s;
        c = c1 | c2;
    }
    c
}
/// acc += a * b
pub fn mac(acc: &mut [u64], a: &[u64], b: &[u64]) {
    for i in 0..a.len() {
        let mut carry = 0u128;
        let mut j = 0;
        while i + j < acc.len() {
            if j >= b.len() && carry == 0 {
                break;
            }
            let t = acc[i + j] as u128 + a[i] as u128 * b.get(j).copied().unwrap_or(0) as u128 + carry;
            acc[i + j] = t as u64;
            carry = t >> 64;
            j += 1;
        }
        assert!(carry == 0, "ORACLE: mac overflow");
    }
}
#[inline]
pub fn mul_wide(a: &U, b: &U) -> W {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut carry = 0u128;
        for j in 0..4 {
            let t = r[i + j] as u128 + a[i] as u128 * b[j] as u128 + carry;
            r[i + j] = t as u64;
            carry = t >> 64;
        }
        r[i + 4] = carry as u64;
    }
    r
}
pub fn bit(a: &[u64], i: usize) -> bool {
    i / 64 < a.len() && (a[i / 64] >> (i % 64)) & 1 == 1
}
pub fn bits(a: &[u64]) -> usize {
    (0..a.len() * 64).rev().find(|i| bit(a, *i)).map(|i| i + 1).unwrap_or(0)
}
pub fn shr1(a: &mut [u64]) {
    for i in 0..a.len() {
        let hi = a.get(i + 1).copied().unwrap_or(0);
        a[i] = (a[i] >> 1) | (hi << 63);
    }
}
pub fn shl1(a: &mut [u64]) -> bool {
    let mut c = 0;
    for x in a.iter_mut() {
        let n = *x >> 63;
        *x = (*x << 1) | c;
        c = n;
    }
    c == 1
}
/// Bit-serial division: (quotient, remainder). m != 0.
pub fn divrem(x: &W, m: &U) -> (W, U) {
    let mut q = [0u64; 8];
    let mut r = [0u64; 5];
    for i in (0..bits(x)).rev() {
        shl1(&mut r);
        r[0] |= bit(x, i) as u64;
        if !lt(&r, m) {
            sub_in(&mut r, m);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, [r[0], r[1], r[2], r[3]])
}
pub fn widen(a: &U) -> W {
    [a[0], a[1], a[2], a[3], 0, 0, 0, 0]
}
/// Big-endian bytes of up to 64 bytes into limbs.
pub fn from_be(b: &[u8]) -> W {
    let mut w = [0u64; 8];
    for (i, x) in b.iter().rev().enumerate() {
        w[i / 8] |= (*x as u64) << (8 * (i % 8));
    }
    w
}
pub fn to_be32(a: &U) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..32 {
        o[31 - i] = (a[i / 8] >> (8 * (i % 8))) as u8;
    }
    o
}
pub fn lo(w: &W) -> U {
    [w[0], w[1], w[2], w[3]]
}
pub fn hex(a: &[u64]) -> String {
    let mut s = String::from("0x");
    let mut started = false;
    for x in a.iter().rev() {
        if started {
            s.push_str(&format!("{:016x}", x));
        } else if *x != 0 {
            s.push_str(&format!("{:x}", x));
            started = true;
        }
    }
    if !started {
        s.push('0');
    }
    s
}
pub fn dec(s: &str) -> U {
    let mut r = [0u64; 4];
    for c in s.bytes() {
        let mut t = [0u64; 4];
        mac(&mut t, &r, &[10]);
        add_in(&mut t, &[(c - b'0') as u64]);
        r = t;
    }
    r
}
pub fn to_dec(a: &[u64]) -> String {
    let mut v = a.to_vec();
    let mut out = Vec::new();
    loop {
        let mut rem = 0u128;
        for x in v.iter_mut().rev() {
            let t = (rem << 64) | *x as u128;
            *x = (t / 10) as u64;
            rem = t % 10;
        }
        out.push(b'0' + rem as u8);
        if is_zero(&v) {
            break;
        }
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

/// Arithmetic modulo a fixed modulus of 193..254 bits (Barrett).
pub struct Md {
    pub m: U,
    mu: [u64; 5],
}

impl Md {
    pub fn new(m: U) -> Md {
        assert!(m[3] != 0 && m[3] >> 62 == 0);
        // floor(2^512 / m), bit-serially
        let mut q = [0u64; 8];
        let mut r = [0u64; 5];
        for i in (0..513).rev() {
            shl1(&mut r);
            r[0] |= (i == 512) as u64;
            if !lt(&r, &m) {
                sub_in(&mut r, &m);
                q[i / 64] |= 1 << (i % 64);
            }
        }
        assert!(q[5] == 0 && q[6] == 0 && q[7] == 0);
        Md { m, mu: [q[0], q[1], q[2], q[3], q[4]] }
    }
    pub fn red(&self, x: &W) -> U {
        let q1 = [x[3], x[4], x[5], x[6], x[7]];
        let mut q2 = [0u64; 10];
        for i in 0..5 {
            let mut carry = 0u128;
            for j in 0..5 {
                let t = q2[i + j] as u128 + q1[i] as u128 * self.mu[j] as u128 + carry;
                q2[i + j] = t as u64;
                carry = t >> 64;
            }
            q2[i + 5] = carry as u64;
        }
        let mut p = [0u64; 5];
        for i in 0..5 {
            let mut carry = 0u128;
            for j in 0..4 {
                if i + j < 5 {
                    let t = p[i + j] as u128 + q2[5 + i] as u128 * self.m[j] as u128 + carry;
                    p[i + j] = t as u64;
                    carry = t >> 64;
                }
            }
            if i + 4 < 5 {
                p[i + 4] = p[i + 4].wrapping_add(carry as u64);
            }
        }
        let mut r = [x[0], x[1], x[2], x[3], x[4]];
        sub_in(&mut r, &p); // modulo 2^320
        let mut n = 0;
        while !lt(&r, &self.m) {
            sub_in(&mut r, &self.m);
            n += 1;
            assert!(n < 5, "ORACLE: barrett");
        }
        [r[0], r[1], r[2], r[3]]
    }
    pub fn of(&self, a: &U) -> U {
        self.red(&widen(a))
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let mut r = *a;
        add_in(&mut r, b);
        if !lt(&r, &self.m) {
            sub_in(&mut r, &self.m);
        }
        r
    }
    pub fn neg(&self, a: &U) -> U {
        if is_zero(a) {
            *a
        } else {
            let mut r = self.m;
            sub_in(&mut r, a);
            r
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        self.add(a, &self.neg(b))
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        self.red(&mul_wide(a, b))
    }
    pub fn pow(&self, a: &U, e: &[u64]) -> U {
        let mut r = ONE;
        for i in (0..bits(e)).rev() {
            r = self.mul(&r, &r);
            if bit(e, i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// Inverse by the extended Euclid algorithm on bits; None for zero.
    pub fn inv(&self, a: &U) -> Option<U> {
        if is_zero(a) {
            return None;
        }
        let half = |x: &mut U| {
            if x[0] & 1 == 1 {
                let c = add_in(x, &self.m);
                assert!(!c);
            }
            shr1(x);
        };
        let (mut p, mut q, mut s, mut t) = (*a, self.m, ONE, ZERO);
        // invariant: p = s*a, q = t*a (mod m)
        while !is_zero(&p) {
            while p[0] & 1 == 0 {
                shr1(&mut p);
                half(&mut s);
            }
            while q[0] & 1 == 0 {
                shr1(&mut q);
                half(&mut t);
            }
            if lt(&p, &q) {
                sub_in(&mut q, &p);
                t = self.sub(&t, &s);
                if is_zero(&q) {
                    unreachable!("ORACLE: inv")
                }
            } else {
                sub_in(&mut p, &q);
                s = self.sub(&s, &t);
            }
        }
        assert!(q == ONE, "ORACLE: inv gcd");
        Some(t)
    }
}
