//! C03: the public big-integer module over the integers.
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Placed, Src, R};
use rabe_bn::arith::{Error, U256, U512};

const PRIMES: [&str; 40] = [
    "21888242871839275222246405745257275088696311157297823662689037894645226208583",
    "21888242871839275222246405745257275088548364400416034343698204186575808495617",
    "7237005577332262213973186563042994240857116359379907606001950938285454250989",
    "170141183460469231731687303715884105727",
    "618970019642690137449562111",
    "162259276829213363391578010288127",
    "2305843009213693951",
    "18446744073709551557",
    "4294967291",
    "65537",
    "3",
    "5",
    "7",
    "13",
    // just below and above powers of two
    "28948022309329048855892746252171976963317496166410141009864396001978282409739",
    "14474011154664524427946373126085988481658748083205070504932198000989141204719",
    "14474011154664524427946373126085988481658748083205070504932198000989141205031",
    "7237005577332262213973186563042994240829374041602535252466099000494570602367",
    "7237005577332262213973186563042994240829374041602535252466099000494570602917",
    "1809251394333065553493296640760748560207343510400633813116524750123642650417",
    "1809251394333065553493296640760748560207343510400633813116524750123642650649",
    "904625697166532776746648320380374280103671755200316906558262375061821325237",
    "904625697166532776746648320380374280103671755200316906558262375061821325431",
    "12554203470773361527671578846415332832204710888928069025761",
    "12554203470773361527671578846415332832204710888928069025857",
    "6277101735386680763835789423207666416102355444464034512659",
    "6277101735386680763835789423207666416102355444464034513029",
    "3138550867693340381917894711603833208051177722232017256429",
    "3138550867693340381917894711603833208051177722232017256453",
    "680564733841876926926749214863536422887",
    "680564733841876926926749214863536422929",
    "340282366920938463463374607431768211297",
    "340282366920938463463374607431768211507",
    "36893488147419103183",
    "36893488147419103363",
    "18446744073709551629",
    "9223372036854775783",
    "9223372036854775837",
    "8589934583",
    "8589934609",
];

fn mulmod(a: &U, b: &U, m: &U) -> U {
    divrem(&mul_wide(a, b), m).1
}
fn reduce(a: &U, m: &U) -> U {
    divrem(&widen(a), m).1
}

/// A supported modulus: top two bits clear, at least 2.
fn modulus(s: &mut Src, odd: bool) -> U {
    let mut m = match s.weighted(&[4, 3, 3, 2]) {
        0 => if s.flag() { fq().m } else { fr().m },
        1 => dec(PRIMES[s.below(PRIMES.len())]),
        2 => {
            let mut a = u256(s);
            a[3] &= (1 << 62) - 1;
            a
        }
        _ => {
            // 2^k - 1, k <= 254
            let k = 2 + s.below(253);
            let mut a = ZERO;
            for i in 0..k {
                a[i / 64] |= 1 << (i % 64);
            }
            a
        }
    };
    if odd {
        m[0] |= 1;
    }
    if lt(&m, &u(3)) {
        m = u(3);
    }
    s.absorb(&m);
    m
}
/// An operand below m.
fn operand(s: &mut Src, m: &U) -> U {
    let v = match s.weighted(&[4, 4, 10, 1]) {
        0 => reduce(&u(s.draw(9)), m),
        3 => {
            let a = golden(s, m);
            reduce(&a, m)
        }
        1 => {
            let mut a = *m;
            let d = reduce(&u(1 + s.draw(9)), m);
            sub_in(&mut a, &d);
            reduce(&a, m)
        }
        _ => {
            let a = u256(s);
            reduce(&a, m)
        }
    };
    s.absorb(&v);
    v
}
fn partner(s: &mut Src, a: &U, m: &U) -> U {
    match s.weighted(&[6, 1, 2, 1]) {
        0 => operand(s, m),
        1 => *a,
        2 => {
            // m - a, +-1
            let mut b = *m;
            sub_in(&mut b, a);
            match s.below(3) {
                0 => {}
                1 => {
                    add_in(&mut b, &[1]);
                }
                _ => {
                    sub_in(&mut b, &[1]);
                }
            }
            reduce(&b, m)
        }
        _ => {
            let mut b = *a;
            let k = s.below(4);
            b[k] ^= 1 << s.below(64);
            reduce(&b, m)
        }
    }
}

fn modular(s: &mut Src) -> R {
    let m = modulus(s, false);
    let a = operand(s, &m);
    let b = partner(s, &a, &m);
    s.absorb(&b);
    s.note(|| format!("m = {}, a = {}, b = {}", hex(&m), hex(&a), hex(&b)));
    if !is_zero(&a) && !is_zero(&b) {
        s.nontrivial();
    }
    let mut sum = a;
    add_in(&mut sum, &b);
    if lt(&m, &sum) {
        s.class("add reduces");
    }
    let mut t = U256(a);
    t.add(&U256(b), &U256(m));
    ensure!(t.0 == reduce(&sum, &m), "add: got {}, expected {}", hex(&t.0), hex(&reduce(&sum, &m)));
    let mut d = a;
    if lt(&a, &b) {
        s.class("sub borrows");
        add_in(&mut d, &m);
    }
    sub_in(&mut d, &b);
    let mut t = U256(a);
    t.sub(&U256(b), &U256(m));
    ensure!(t.0 == d, "sub: got {}, expected {}", hex(&t.0), hex(&d));
    let mut n = ZERO;
    if !is_zero(&a) {
        n = m;
        sub_in(&mut n, &a);
    }
    let mut t = U256(a);
    t.neg(&U256(m));
    ensure!(t.0 == n, "neg: got {}, expected {}", hex(&t.0), hex(&n));
    Ok(())
}

fn montgomery(s: &mut Src) -> R {
    let m = modulus(s, true);
    let a = operand(s, &m);
    let b = partner(s, &a, &m);
    s.absorb(&b);
    s.note(|| format!("m = {}, a = {}, b = {}", hex(&m), hex(&a), hex(&b)));
    if !is_zero(&a) && !is_zero(&b) {
        s.nontrivial();
    }
    // -1/m mod 2^64 by Newton
    let mut i = 1u64;
    for _ in 0..6 {
        i = i.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(i)));
    }
    let inv = i.wrapping_neg();
    let mut t = U256(a);
    t.mul(&U256(b), &U256(m), inv);
    ensure!(lt(&t.0, &m), "mul: result {} is not reduced", hex(&t.0));
    // t * 2^256 = a * b (mod m)
    let r = reduce(&{ let (_, r) = divrem(&[0, 0, 0, 0, 1, 0, 0, 0], &m); r }, &m);
    ensure!(
        mulmod(&t.0, &r, &m) == mulmod(&a, &b, &m),
        "mul: {} * 2^256 is not {} * {} modulo {}", hex(&t.0), hex(&a), hex(&b), hex(&m)
    );
    Ok(())
}

fn inversion(s: &mut Src) -> R {
    let m = match s.weighted(&[1, 1, 3]) {
        0 => fr().m,
        1 => fq().m,
        _ => dec(PRIMES[s.below(PRIMES.len())]),
    };
    s.absorb(&m);
    let mut a = operand(s, &m);
    if is_zero(&a) {
        a = ONE;
    }
    s.note(|| format!("m = {}, a = {}", hex(&m), hex(&a)));
    if a != ONE {
        s.nontrivial();
    }
    let mut t = U256(a);
    t.invert(&U256(m));
    ensure!(lt(&t.0, &m), "invert: {} is not below the modulus", hex(&t.0));
    ensure!(mulmod(&t.0, &a, &m) == ONE, "invert: {} * {} is not 1 modulo {}", hex(&t.0), hex(&a), hex(&m));
    Ok(())
}

fn division(s: &mut Src) -> R {
    let m = modulus(s, false);
    let x = match s.below(3) {
        0 => w512(s),
        1 => {
            // q*m + r with q around m
            let mut q = m;
            let d = u(s.draw(3));
            if s.flag() {
                add_in(&mut q, &d);
            } else {
                sub_in(&mut q, &d);
            }
            let mut w = mul_wide(&q, &m);
            let r = operand(s, &m);
            add_in(&mut w, &r);
            w
        }
        _ => {
            let q = operand(s, &m);
            let mut w = mul_wide(&q, &m);
            let r = operand(s, &m);
            add_in(&mut w, &r);
            w
        }
    };
    s.absorb(&x);
    s.note(|| format!("{} / {}", hex(&x), hex(&m)));
    if !lt(&x, &m) {
        s.nontrivial();
    }
    let (q, r) = divrem(&x, &m);
    let small = lt(&q, &m);
    s.class(if small { "quotient fits" } else { "quotient too large" });
    let (gq, gr) = U512(x).divrem(&U256(m));
    ensure!(gr.0 == r, "remainder: got {}, expected {}", hex(&gr.0), hex(&r));
    match gq {
        Some(g) => ensure!(small && g.0 == lo(&q), "quotient: got {}, expected {} (fits: {})", hex(&g.0), hex(&q), small),
        None => ensure!(!small, "quotient {} is below the modulus but was withheld", hex(&q)),
    }
    Ok(())
}

fn widening(s: &mut Src) -> R {
    let (c1, c0, m) = (u256(s), u256(s), u256(s));
    s.note(|| format!("{} * {} + {}", hex(&c1), hex(&m), hex(&c0)));
    if !is_zero(&c1) && !is_zero(&m) {
        s.nontrivial();
    }
    let mut w = mul_wide(&c1, &m);
    add_in(&mut w, &c0);
    let g = U512::from(&U256(c1), &U256(c0), &U256(m));
    ensure!(g.0 == w, "got {}, expected {}", hex(&g.0), hex(&w));
    Ok(())
}

fn bits_and_order(s: &mut Src) -> R {
    let a = u256(s);
    let b = match s.below(3) {
        0 => u256(s),
        1 => a,
        _ => {
            let mut b = a;
            b[s.below(4)] ^= 1 << s.below(64);
            b
        }
    };
    s.absorb(&b);
    s.note(|| format!("a = {}, b = {}", hex(&a), hex(&b)));
    s.nontrivial();
    let (x, y) = (U256(a), U256(b));
    let c = cmp(&a, &b);
    ensure!(x.cmp(&y) == c && x.partial_cmp(&y) == Some(c), "cmp: got {:?}, expected {:?}", x.cmp(&y), c);
    ensure!((x < y) == c.is_lt() && (x <= y) == c.is_le() && (x > y) == c.is_gt() && (x >= y) == c.is_ge(), "comparison operators disagree with {:?}", c);
    ensure!((x == y) == (a == b), "== is {}", x == y);
    ensure!(x.is_zero() == is_zero(&a), "is_zero is {}", x.is_zero());
    ensure!(x.is_even() == (a[0] % 2 == 0), "is_even is {}", x.is_even());
    let got: Vec<bool> = x.bits().collect();
    ensure!(got.len() == 256, "bits yields {} items", got.len());
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == bit(&a, 255 - i), "bits: item {} is {}", i, g);
    }
    // an iterator like any other, however it is driven
    {
        let mut it = x.bits();
        let mut at = 0usize;
        for _ in 0..6 {
            let left = 256usize.saturating_sub(at);
            let (lo, hi) = it.size_hint();
            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "bits: size_hint is {:?} with {} items left", (lo, hi), left);
            let k = match s.below(4) {
                0 => 0,
                1 => s.below(300),
                2 => left.saturating_sub(1),
                _ => s.below(8) + left.saturating_sub(4),
            };
            let want = if at + k < 256 { Some(bit(&a, 255 - at - k)) } else { None };
            let got = if k == 0 { it.next() } else { it.nth(k) };
            ensure!(got == want, "bits: item {} reached by skipping {} is {:?}", at + k, k, got);
            at = (at + k + 1).min(256);
        }
        let rest: Vec<bool> = it.by_ref().collect();
        ensure!(rest.len() == 256 - at && rest.iter().enumerate().all(|(i, g)| *g == bit(&a, 255 - at - i)), "bits: the rest after {} items is {:?}", at, rest);
        ensure!(it.next().is_none() && it.next().is_none(), "bits goes on after its end");
        let (step, skip) = (1 + s.below(300), s.below(300));
        ensure!(x.bits().count() == 256 && x.bits().last() == Some(bit(&a, 0)), "bits: count or last");
        ensure!(x.bits().step_by(step).count() == (256 + step - 1) / step, "bits in steps of {}: {} items", step, x.bits().step_by(step).count());
        ensure!(x.bits().skip(skip).collect::<Vec<_>>() == got[skip.min(256)..], "bits after skipping {}", skip);
        let folded = x.bits().fold(0usize, |n, g| n * 3 % 10007 + g as usize);
        ensure!(folded == got.iter().fold(0usize, |n, g| n * 3 % 10007 + *g as usize), "bits folded");
        let mut seen = 0;
        x.bits().for_each(|g| seen += g as u32);
        ensure!(seen == a.iter().map(|w| w.count_ones()).sum::<u32>(), "bits: {} ones", seen);
    }
    let w = [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]];
    for n in [s.below(256), s.below(256), 0, 63, 64, 127, 128, 191, 192, 255] {
        ensure!(x.get_bit(n) == Some(bit(&a, n)), "get_bit({}) is {:?}", n, x.get_bit(n));
        ensure!(U512(w).get_bit(n) == Some(bit(&w, n)), "U512 get_bit({}) is wrong", n);
        ensure!(U512(w).get_bit(n + 256) == Some(bit(&w, n + 256)), "U512 get_bit({}) is wrong", n + 256);
        for to in [true, false] {
            let mut t = x;
            ensure!(t.set_bit(n, to), "set_bit({}) refused", n);
            let mut e = a;
            e[n / 64] = e[n / 64] & !(1 << (n % 64)) | ((to as u64) << (n % 64));
            ensure!(t.0 == e, "set_bit({}, {}): got {}, expected {}", n, to, hex(&t.0), hex(&e));
        }
    }
    for n in [256, 257, 256 + s.below(300), 512, 1000, usize::MAX, usize::MAX - 63, 1 << 32] {
        ensure!(x.get_bit(n).is_none(), "get_bit({}) is {:?}", n, x.get_bit(n));
        if n >= 512 {
            ensure!(U512(w).get_bit(n).is_none(), "U512 get_bit({}) exists", n);
        }
        let mut t = x;
        ensure!(!t.set_bit(n, true) && !t.set_bit(n, false) && t.0 == a, "set_bit({}) out of range had an effect", n);
    }
    Ok(())
}

fn reading(s: &mut Src) -> R {
    let a = u256(s);
    let w = w512(s);
    let len = if s.flag() { 32 } else { s.below(70) };
    let b: Vec<u8> = to_be32(&a).iter().cycle().take(len).copied().collect();
    s.absorb(&[len as u64]);
    s.note(|| format!("{} bytes of {}; wide {}", len, hex(&a), hex(&w)));
    s.nontrivial();
    let at = Placed::new(s, &b);
    match U256::from_slice(at.bytes()) {
        Ok(x) => ensure!(len == 32 && x.0 == a, "from_slice({} bytes) gave {}", len, hex(&x.0)),
        Err(Error::InvalidLength { expected, actual }) => {
            ensure!(len != 32, "from_slice refused 32 bytes");
            ensure!(expected == 32 && actual == len, "from_slice of {} bytes reports {} instead of {}", len, actual, expected);
        }
        #[allow(unreachable_patterns)]
        Err(_) => ensure!(len != 32, "from_slice refused 32 bytes"),
    }
    let mut buf = [0u8; 64];
    for i in 0..64 {
        buf[63 - i] = (w[i / 8] >> (8 * (i % 8))) as u8;
    }
    let at = Placed::new(s, &buf);
    let got = U512::interpret(at.bytes().try_into().unwrap());
    ensure!(got.0 == w, "interpret: got {}, expected {}", hex(&got.0), hex(&w));
    ensure!(U256::from(a).0 == a, "From<[u64; 4]>");
    ensure!(U256::zero().0 == ZERO && U256::one().0 == ONE, "zero/one");
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "Moduli: both field moduli, 38 other primes, 2^k-1, boundary-shaped values with the top two bits clear; operands below the modulus near 0, near the modulus or of boundary limb shape, second operand fresh, equal, complementary or one bit away; 512-bit dividends built as q*m+r with q around m as well as free. Non-trivial: no zero operand (arithmetic), dividend not below the modulus (division), every bit/order/reading case.",
        assumptions: &["supported moduli have their top two bits clear (the code says so), are odd for Montgomery multiplication and prime for inversion"],
        subs: vec![
            sub("modular", 1_200_000, 32_000_000, modular),
            sub("montgomery", 800_000, 20_000_000, montgomery),
            sub("inversion", 400_000, 8_000_000, inversion),
            sub("division", 800_000, 20_000_000, division),
            sub("widening", 1_200_000, 40_000_000, widening),
            sub("bits-and-order", 800_000, 20_000_000, bits_and_order),
            sub("reading", 800_000, 20_000_000, reading),
        ],
    }
}
