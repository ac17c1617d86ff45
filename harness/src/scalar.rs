//! C01, C02.
use crate::adapt::*;
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Placed, Src, R};
use rabe_bn::arith::U256;
use rabe_bn::{FieldError, Fr};

fn check_pair(a: &U, b: &U, powers: bool) -> R {
    let m = fr();
    let (x, y) = (fr_of(a), fr_of(b));
    fr_is("stored value", &x, a)?;
    fr_is("a + b", &(x + y), &m.add(a, b))?;
    fr_is("a - b", &(x - y), &m.sub(a, b))?;
    fr_is("b - a", &(y - x), &m.sub(b, a))?;
    fr_is("a * b", &(x * y), &m.mul(a, b))?;
    fr_is("b * a", &(y * x), &m.mul(a, b))?;
    fr_is("a * a", &(x * x), &m.mul(a, a))?;
    fr_is("a + a", &(x + x), &m.add(a, a))?;
    fr_is("a - a", &(x - x), &ZERO)?;
    fr_is("-a", &(-x), &m.neg(a))?;
    ensure!((x == y) == (a == b), "a == b is {} for {} and {}", x == y, hex(a), hex(b));
    ensure!((x != y) == (a != b), "a != b is {} for {} and {}", x != y, hex(a), hex(b));
    ensure!(x + y == fr_of(&m.add(a, b)), "a + b differs from the same scalar built directly");
    match (x.inverse(), m.inv(a)) {
        (None, None) => {}
        (Some(i), Some(e)) => {
            fr_is("a^-1", &i, &e)?;
            ensure!(x * i == Fr::one(), "a * a^-1 != 1");
        }
        (g, e) => return Err(format!("inverse of {} is {:?}, expected {:?}", hex(a), g, e.map(|x| hex(&x)))),
    }
    if powers {
        fr_is("a^b", &x.pow(y), &m.pow(a, b))?;
    }
    Ok(())
}

fn ops(s: &mut Src) -> R {
    let a = scalar(s);
    let b = related(s, fr(), rmont(), &a);
    s.note(|| format!("a = {}, b = {}", hex(&a), hex(&b)));
    if !is_zero(&a) && !is_zero(&b) && a != ONE && b != ONE {
        s.nontrivial();
    }
    if is_zero(&a) || is_zero(&b) {
        s.class("zero operand");
    }
    if a == b {
        s.class("equal operands");
    }
    check_pair(&a, &b, s.one_in(4))
}

fn specials() -> Vec<U> {
    let m = fr();
    let mut v = Vec::new();
    for k in 0..6 {
        v.push(u(k));
        v.push(m.neg(&u(k + 1)));
    }
    for k in [16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 252, 253] {
        let p = m.pow(&u(2), &[k]);
        v.push(p);
        v.push(m.sub(&p, &ONE));
        v.push(m.neg(&p));
    }
    v.push(m.inv(&u(2)).unwrap());
    v.push(m.inv(&u(3)).unwrap());
    // boundary shapes of the stored limbs
    for raw in [
        [u64::MAX, 0, 0, 0], [u64::MAX, u64::MAX, 0, 0], [u64::MAX, u64::MAX, u64::MAX, 0], [0, 1, 0, 0], [0, 0, 1, 0],
        [0, 0, 0, 1], [0, 0, 0, 0x30644e72e131a029], [u64::MAX, u64::MAX, u64::MAX, 0x30644e72e131a028],
        [0x43e1f593f0000000, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029],
        [0xffffffff00000000, 0xffffffff, 0xffffffff00000000, 0xffffffff], [1, 0, 0, 0], [2, 0, 0, 0],
        [u64::MAX, u64::MAX, 0xb85045b68181585c, 0x30644e72e131a029],
        [0, 0, 0, 0x2000000000000000], [0, 0, 0, 0x1000000000000000], [0, 0, 0, 0x18322739709899d0],
    ] {
        v.push(m.mul(&m.of(&raw), &rmont().rinv));
    }
    v.dedup();
    v
}

fn special_grid(s: &mut Src) -> R {
    let v = specials();
    let i = s.draw((v.len() * v.len()) as u64) as usize;
    let (a, b) = (v[i / v.len()], v[i % v.len()]);
    s.absorb(&a);
    s.absorb(&b);
    s.note(|| format!("a = {}, b = {}", hex(&a), hex(&b)));
    s.nontrivial();
    check_pair(&a, &b, true)
}

/// A computation over four registers: results feed later operations.
fn chain(s: &mut Src) -> R {
    let m = fr();
    let mut val: Vec<U> = (0..4).map(|_| scalar(s)).collect();
    let mut reg: Vec<Fr> = val.iter().map(fr_of).collect();
    let n = 4 + s.below(28);
    for step in 0..n {
        let (i, j, k) = (s.below(4), s.below(4), s.below(4));
        let op = s.below(7);
        let (r, v, name) = match op {
            0 => (reg[i] + reg[j], m.add(&val[i], &val[j]), "+"),
            1 => (reg[i] - reg[j], m.sub(&val[i], &val[j]), "-"),
            2 => (reg[i] * reg[j], m.mul(&val[i], &val[j]), "*"),
            3 => (-reg[i], m.neg(&val[i]), "neg"),
            4 => match reg[i].inverse() {
                Some(r) => (r, m.inv(&val[i]).ok_or("zero has an inverse")?, "inv"),
                None => {
                    ensure!(is_zero(&val[i]), "no inverse of {}", hex(&val[i]));
                    (reg[i], val[i], "inv of zero")
                }
            },
            5 => (reg[i] * reg[i], m.mul(&val[i], &val[i]), "square"),
            _ => (reg[i] + reg[i], m.add(&val[i], &val[i]), "double"),
        };
        s.note(|| format!("step {}: r{} = r{} {} r{}", step, k, i, name, j));
        s.absorb(&[op as u64, i as u64, j as u64, k as u64]);
        fr_is(&format!("step {} ({})", step, name), &r, &v)?;
        reg[k] = r;
        val[k] = v;
        for t in 0..4 {
            ensure!((reg[t] == r) == (val[t] == v), "step {}: equality with register {} is wrong", step, t);
        }
    }
    if n > 8 {
        s.nontrivial();
    }
    Ok(())
}

fn constants(_: &mut Src) -> R {
    fr_is("zero()", &Fr::zero(), &ZERO)?;
    fr_is("one()", &Fr::one(), &ONE)?;
    ensure!(Fr::zero().inverse().is_none(), "zero has an inverse");
    fr_is("0^0", &Fr::zero().pow(Fr::zero()), &ONE)?;
    fr_is("r-1", &(-Fr::one()), &fr().neg(&ONE))
}

pub fn c01() -> Prop {
    let n = specials().len() as u64;
    Prop {
        id: "C01",
        rule: "Operands are residues whose value or stored (Montgomery) limbs are drawn from carry/borrow/reduction boundaries or uniformly; the second operand is fresh or related to the first (equal, opposite, inverse, off by one, stored limbs summing to a boundary). A pair is non-trivial when neither operand is 0 or 1; a chain when it has more than 8 steps; every grid pair counts. Distinct = distinct generated values.",
        assumptions: &["scalars are built and read through the serialized form (four stored limbs), itself checked by C12"],
        subs: vec![
            grid("constants", 1, constants),
            grid("special-grid", n * n, special_grid),
            sub("ops", 800_000, 24_000_000, ops),
            sub("chain", 180_000, 4_500_000, chain),
        ],
    }
}

// ---- C02 -------------------------------------------------------------

fn digits_value(d: &str) -> U {
    let m = fr();
    let mut r = ZERO;
    for c in d.bytes() {
        r = m.add(&m.mul(&r, &u(10)), &u((c - b'0') as u64));
    }
    r
}

const BAD: [&str; 28] = [
    " ", "+", "-", ".", ",", "_", "a", "f", "x", "A", "e", "\n", "\t", "\0", "/", ":", "\u{660}", "\u{ff11}", "\u{b2}", "\u{2460}",
    "\u{966}", "\u{1d7ce}", "\u{e9}", "'", "0x1", "1e3", "\u{feff}", "\u{221e}",
];

fn strings(s: &mut Src) -> R {
    let mut t = String::new();
    match s.weighted(&[3, 3, 3, 2]) {
        0 => {
            // a number of boundary shape
            let a = u256(s);
            t = to_dec(&a);
        }
        1 => {
            // around multiples of r, up to far above it
            let k = if s.flag() { s.draw(7) } else { s.draw(0) };
            let mut w = [0u64; 6];
            mac(&mut w, &fr().m, &[k]);
            let d = s.draw(4);
            if s.flag() || k == 0 {
                add_in(&mut w, &[d]);
            } else {
                sub_in(&mut w, &[d]);
            }
            t = to_dec(&w);
        }
        2 => {
            let n = 1 + if s.one_in(8) { s.size(1200, 5000) } else { s.below(100) };
            let style = s.below(3);
            for _ in 0..n {
                let d = match style {
                    0 => s.below(10),
                    1 => 9 * s.below(2),
                    _ => 9,
                };
                t.push((b'0' + d as u8) as char);
            }
        }
        _ => {
            let a = w512(s);
            t = to_dec(&a);
        }
    }
    if s.one_in(4) {
        let z = "0".repeat(1 + s.size(90, 5000));
        t = z + &t;
        s.class("leading zeros");
    }
    let bad = s.one_in(3);
    if bad {
        s.class("non-digit");
        let b = if s.one_in(5) { s.text() } else { BAD[s.below(BAD.len())].to_string() };
        let b = if b.bytes().all(|c| c.is_ascii_digit()) { "-" } else { &b };
        let mut at = match s.below(3) {
            0 => t.len(),
            1 => 0,
            _ => s.below(t.len() + 1),
        };
        if s.flag() && at < t.len() {
            t.replace_range(at..at + 1, b);
        } else {
            at = at.min(t.len());
            t.insert_str(at, b);
        }
    }
    s.absorb(&t.bytes().map(|b| b as u64).collect::<Vec<_>>());
    s.note(|| format!("string {:?}", t));
    let got = Fr::from_str(&t);
    if bad {
        s.nontrivial();
        ensure!(got.is_none(), "{:?} was accepted as {:?}", t, got);
        return Ok(());
    }
    if t.len() > 1 {
        s.nontrivial();
    }
    let got = got.ok_or_else(|| format!("decimal string {:?} was refused", t))?;
    fr_is("from_str", &got, &digits_value(&t))
}

/// Texts of any length: up to a third of a million digits, on the stack a
/// thread has by default.
fn long(s: &mut Src) -> R {
    let n = 1 + s.size(330_000, 330_000);
    let unit: String = match s.below(4) {
        0 => "0".into(),
        1 => "9".into(),
        2 => (0..1 + s.below(40)).map(|_| (b'0' + s.below(10) as u8) as char).collect(),
        _ => to_dec(&scalar(s)),
    };
    let mut t: String = unit.repeat(n / unit.len() + 1);
    t.truncate(n);
    let bad = s.one_in(3);
    if bad {
        let at = if s.flag() { n } else { s.below(n + 1) };
        t.insert_str(at, BAD[s.below(BAD.len())]);
    }
    s.absorb(&[n as u64, t.len() as u64]);
    s.absorb(&unit.bytes().map(|b| b as u64).collect::<Vec<_>>());
    s.note(|| format!("{} digits: {:?} over and over{}", n, unit, if bad { ", and a character that is none" } else { "" }));
    s.nontrivial();
    let got = Fr::from_str(&t);
    if bad {
        ensure!(got.is_none(), "accepted as {:?}", got);
        return Ok(());
    }
    fr_is("from_str", &got.ok_or("refused")?, &digits_value(&t))
}

fn chars(s: &mut Src) -> R {
    // every single character of the basic plane and beyond: only 0-9 are digits
    let i = s.draw(0x11_0000) as u32;
    s.absorb(&[i as u64]);
    s.nontrivial();
    if let Some(c) = char::from_u32(i) {
        for t in [c.to_string(), format!("1{}", c), format!("{}1", c)] {
            s.note(|| format!("string {:?}", t));
            let got = Fr::from_str(&t);
            if c.is_ascii_digit() {
                fr_is("from_str", &got.ok_or("digit refused")?, &digits_value(&t))?;
            } else {
                ensure!(got.is_none(), "{:?} was accepted as {:?}", t, got);
            }
        }
    }
    Ok(())
}

fn slices(s: &mut Src) -> R {
    let a = u256(s);
    let be = to_be32(&a);
    let len = match s.weighted(&[6, 2, 2]) {
        0 => 32,
        1 => s.size(100, 5000),
        _ => s.pick(&[0usize, 1, 31, 33, 64, 8, 16, 24, 40, 96, 128, 384]),
    };
    let mut b: Vec<u8> = be.iter().cycle().take(len).copied().collect();
    if len > 32 && s.flag() {
        // zero padded on the left
        b = vec![0; len - 32];
        b.extend(be);
    }
    s.absorb(&[len as u64]);
    s.note(|| format!("slice of {} bytes {:02x?}", len, &b[..len.min(32)]));
    let at = Placed::new(s, &b);
    let got = Fr::from_slice(at.bytes());
    ensure!(at.bytes() == &b[..], "from_slice changed its input");
    if len != 32 {
        s.class("wrong length");
        s.nontrivial();
        ensure!(matches!(got, Err(FieldError::InvalidSliceLength)), "a slice of {} bytes gives {:?}", len, got);
        let e = got.map_err(rabe_bn::CurveError::from);
        ensure!(matches!(e, Err(rabe_bn::CurveError::Field(FieldError::InvalidSliceLength))), "as a curve error the refusal is {:?}", e);
        return Ok(());
    }
    if !lt(&a, &fr().m) {
        s.class("not below r");
    }
    s.nontrivial();
    let got = got.map_err(|e| format!("32 bytes refused: {:?}", e))?;
    fr_is("from_slice", &got, &fr().of(&a))
}

fn wide(s: &mut Src) -> R {
    let w = w512(s);
    let mut buf = [0u8; 64];
    for i in 0..64 {
        buf[63 - i] = (w[i / 8] >> (8 * (i % 8))) as u8;
    }
    s.note(|| format!("interpret {}", hex(&w)));
    s.absorb(&w);
    if !is_zero(&w[4..]) {
        s.class("above 2^256");
        s.nontrivial();
    }
    let at = Placed::new(s, &buf);
    let got = Fr::interpret(at.bytes().try_into().unwrap());
    ensure!(at.bytes() == &buf[..], "interpret changed its input");
    fr_is("interpret", &got, &fr().red(&w))
}

fn big(s: &mut Src) -> R {
    let a = u256(s);
    s.note(|| format!("integer {}", hex(&a)));
    if !lt(&a, &fr().m) {
        s.class("not below r");
    }
    s.nontrivial();
    let e = fr().of(&a);
    let n = Fr::new_mul_factor(U256(a));
    fr_is("new_mul_factor", &n, &e)?;
    // every path to the same integer, and to a congruent one
    let sl = Fr::from_slice(&to_be32(&a)).map_err(|e| format!("from_slice refused 32 bytes: {:?}", e))?;
    let st = Fr::from_str(&to_dec(&a)).ok_or("from_str refused digits")?;
    let mut buf = [0u8; 64];
    buf[32..].copy_from_slice(&to_be32(&a));
    let it = Fr::interpret(&buf);
    let st2 = Fr::from_str(&to_dec(&e)).ok_or("from_str refused digits")?;
    let sl2 = Fr::from_slice(&to_be32(&e)).map_err(|e| format!("from_slice refused 32 bytes: {:?}", e))?;
    let all = [("new_mul_factor", n), ("from_slice", sl), ("from_str", st), ("interpret", it), ("from_str of the residue", st2), ("from_slice of the residue", sl2)];
    for (name, x) in all {
        ensure!(x == n, "{} and new_mul_factor disagree on {}", name, hex(&a));
        fr_is(name, &x, &e)?;
    }
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "Decimal strings (boundary numbers, neighbours of multiples of r, up to 330,000 digits, leading zeros, a non-digit inserted or substituted, every single Unicode character), byte slices of length 0..384, 64-byte buffers built from boundary halves and products, 256-bit integers. Non-trivial: strings longer than one character or with a non-digit, all slices, buffers above 2^256, all integers. The empty string is left unspecified.",
        assumptions: &["the empty string is outside the stated domain"],
        subs: vec![
            grid("single-chars", 0x11_0000, chars),
            sub("strings", 400_000, 8_000_000, strings),
            sub("long-strings", 160, 4_000, long),
            sub("slices", 600_000, 18_000_000, slices),
            sub("wide", 600_000, 18_000_000, wide),
            sub("all-paths", 240_000, 8_000_000, big),
        ],
    }
}
