//! C15: byte encodings and printed forms.
use crate::adapt::*;
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::arith::{U256, U512};
use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};
use std::fmt::Debug;

/// Stored words as the byte encoding writes them: every word big endian.
fn be(w: &[u64]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn hexb(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn shown_int(w: &[u64]) -> String {
    let t: String = w.iter().map(|x| format!("0x{:X}", x)).collect();
    format!("\"{}\"", t)
}
fn shown_f2(w: &[u64]) -> String {
    format!("[{},{}]", shown_int(&w[..4]), shown_int(&w[4..8]))
}
fn shown_gt(w: &[u64]) -> String {
    let six = |w: &[u64]| format!("({},{},{})", shown_f2(&w[..8]), shown_f2(&w[8..16]), shown_f2(&w[16..24]));
    format!("{{{},{}}}", six(&w[..24]), six(&w[24..]))
}
fn shown_g1(w: &[u64]) -> String {
    format!("{} {} {}", shown_int(&w[..4]), shown_int(&w[4..8]), shown_int(&w[8..12]))
}

fn same_bytes(what: &str, got: &[Vec<u8>], want: &[u8]) -> R {
    for g in got {
        ensure!(g.len() == want.len(), "{}: {} bytes, expected {}", what, g.len(), want.len());
        ensure!(g == want, "{}: bytes {}, expected {}", what, hexb(g), hexb(want));
    }
    Ok(())
}
/// Encodings agree exactly when the values do.
fn injective<T: PartialEq + Debug>(what: &str, a: &T, b: &T, ba: &[u8], bb: &[u8]) -> R {
    let same = a == b;
    ensure!((ba == bb) == same, "{}: equal is {}, equal bytes is {}", what, same, ba == bb);
    ensure!((format!("{:?}", a) == format!("{:?}", b)) == same, "{}: equal is {}, equal debug forms is {}: {:?}", what, same, !same, a);
    ensure!((format!("{:#?}", a) == format!("{:#?}", b)) == same, "{}: equal is {}, equal pretty debug forms is {}", what, same, !same);
    Ok(())
}

fn scalars(s: &mut Src) -> R {
    let a = scalar(s);
    let b = related(s, fr(), rmont(), &a);
    s.note(|| format!("a = {}, b = {}", hex(&a), hex(&b)));
    if a != b {
        s.nontrivial();
    }
    let (wa, wb) = (fr().mul(&a, &rmont().r), fr().mul(&b, &rmont().r));
    // a by several routes, b as it is
    let fb = fr_of(&b);
    let route = s.below(4);
    let fa = match route {
        0 => fr_of(&a),
        1 => Fr::from_slice(&to_be32(&a)).map_err(|e| format!("{:?}", e))?,
        2 => fr_of(&fr().sub(&a, &b)) + fb,
        _ => Fr::from_str(&to_dec(&a)).ok_or("from_str refuses digits")?,
    };
    same_bytes("scalar", &[fa.into_bytes(), Vec::from(fa), <Fr as Into<Vec<u8>>>::into(fa)], &be(&wa))?;
    same_bytes("scalar", &[fb.into_bytes(), Vec::from(fb)], &be(&wb))?;
    ensure!(fa.to_string() == shown_int(&wa), "scalar {} is printed as {}, expected {}", hex(&a), fa, shown_int(&wa));
    ensure!((fa.to_string() == fb.to_string()) == (a == b), "printed forms of scalars agree: {}", fa.to_string() == fb.to_string());
    ensure!((fa == fb) == (a == b), "a == b is {}", fa == fb);
    injective("scalars", &fa, &fb, &fa.into_bytes(), &fb.into_bytes())
}

fn integers(s: &mut Src) -> R {
    let a = u256(s);
    let mut b = if s.one_in(6) { u256(s) } else { a };
    if s.flag() {
        b[s.below(4)] = a[s.below(4)];
    }
    if s.flag() {
        let i = s.below(4);
        b[i] = b[i].rotate_left(4 * s.draw(16) as u32);
    }
    s.note(|| format!("a = {}, b = {}", hex(&a), hex(&b)));
    if a != b {
        s.nontrivial();
    }
    s.absorb(&b);
    let (x, y) = (U256(a), U256(b));
    same_bytes("U256", &[x.into_bytes()], &be(&a))?;
    ensure!(x.to_string() == shown_int(&a), "U256 is printed as {}, expected {}", x, shown_int(&a));
    ensure!((x.to_string() == y.to_string()) == (a == b), "printed forms of U256 agree: {}", a != b);
    injective("U256", &x, &y, &x.into_bytes(), &y.into_bytes())?;
    let w = [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]];
    ensure!(U512(w).to_string() == shown_int(&w), "U512 is printed as {}, expected {}", U512(w), shown_int(&w));
    Ok(())
}

trait Shown: LibGroup {
    /// The printed form, for the group that has one.
    fn shown(&self) -> Option<(String, fn(&[u64]) -> String)>;
    fn vecs(&self) -> Vec<Vec<u8>>;
}
impl Shown for G1 {
    fn shown(&self) -> Option<(String, fn(&[u64]) -> String)> {
        Some((self.to_string(), shown_g1))
    }
    fn vecs(&self) -> Vec<Vec<u8>> {
        vec![self.into_bytes(), Vec::from(*self), <G1 as Into<Vec<u8>>>::into(*self)]
    }
}
impl Shown for G2 {
    fn shown(&self) -> Option<(String, fn(&[u64]) -> String)> {
        None
    }
    fn vecs(&self) -> Vec<Vec<u8>> {
        vec![self.into_bytes()]
    }
}

fn points<G: Shown>(s: &mut Src) -> R {
    let p = if s.one_in(10) { None } else { G::F::member(s) };
    let q = related_point(s, &p);
    let (rp, rq) = (repr(s, &p), repr(s, &q));
    s.note(|| format!("P = {} as {}, Q = {} as {}", ptext(&p), rtext(&rp), ptext(&q), rtext(&rq)));
    if p != q {
        s.nontrivial();
    }
    let n = 3 * 32 * G::F::N;
    let word = |r: &(G::F, G::F, G::F)| {
        let mut c = r.0.coords();
        c.extend(r.1.coords());
        c.extend(r.2.coords());
        q_words(&c)
    };
    let norm = |p: &P<G::F>| match p {
        None => word(&(G::F::zero(), G::F::one(), G::F::zero())),
        Some((x, y)) => word(&(*x, *y, G::F::one())),
    };
    // as given: the coordinates, whatever they are
    let (a, b): (G, G) = (mk(&rp), mk(&rq));
    same_bytes(G::NAME, &a.vecs(), &be(&word(&rp)))?;
    if let Some((t, f)) = a.shown() {
        ensure!(t == f(&word(&rp)), "{} is printed as {}, expected {}", G::NAME, t, f(&word(&rp)));
    }
    // computed values: a function of their own coordinates
    let route = s.below(5);
    let (c, pc) = match route {
        0 => (a + b, padd(&p, &q)),
        1 => (a - b, padd(&p, &pneg(&q))),
        2 => (-a, pneg(&p)),
        3 => (a + a, padd(&p, &p)),
        _ => {
            let k = u(s.draw(9));
            (a * fr_of(&k), pmul(&p, &k))
        }
    };
    s.class(["sum", "difference", "negation", "double", "multiple"][route]);
    let cc = coords(&c)?;
    same_bytes(G::NAME, &c.vecs(), &be(&word(&cc)))?;
    ensure!(c.into_bytes().len() == n, "{} has {} bytes", G::NAME, c.into_bytes().len());
    // normalized: canonical
    let (mut na, mut nb, mut nc) = (a, b, c);
    na.normalize();
    nb.normalize();
    nc.normalize();
    same_bytes("normalized P", &na.vecs(), &be(&norm(&p)))?;
    same_bytes("normalized Q", &nb.vecs(), &be(&norm(&q)))?;
    same_bytes("normalized result", &nc.vecs(), &be(&norm(&pc)))?;
    for (name, x, y, same) in [("P and Q", &na, &nb, p == q), ("P and result", &na, &nc, p == pc), ("Q and result", &nb, &nc, q == pc)] {
        ensure!((x == y) == same, "{}: equality is {}", name, x == y);
        injective(name, x, y, &x.into_bytes(), &y.into_bytes())?;
        if let (Some((t, f)), Some((v, _))) = (x.shown(), y.shown()) {
            ensure!((t == v) == same, "{}: equal printed forms is {}", name, t == v);
            if name == "P and Q" {
                ensure!(t == f(&norm(&p)), "normalized {} is printed as {}, expected {}", G::NAME, t, f(&norm(&p)));
            }
        }
    }
    Ok(())
}

fn gts(s: &mut Src) -> R {
    let m = fr();
    let a = scalar(s);
    let b = match s.weighted(&[3, 3, 2, 3]) {
        0 => scalar(s),
        1 => m.neg(&a),
        2 => a,
        _ => m.mul(&a, &m.pow(&m.of(&fq().m), &[1 + s.draw(11)])),
    };
    s.absorb(&b);
    s.note(|| format!("g^{} and g^{}", hex(&a), hex(&b)));
    if a != b {
        s.nontrivial();
    }
    let (va, vb) = (gt_pow(&a), gt_pow(&b));
    let x = match s.below(4) {
        0 => pairing(G1::one() * fr_of(&a), G2::one()),
        1 => gt_of(&gt_pow(&m.sub(&a, &b))) * gt_of(&vb),
        2 => gt_of(&gt_pow(&m.neg(&a))).inverse(),
        _ => gt_of(&va),
    };
    let y = gt_of(&vb);
    let (wa, wb) = (q_words(&va.tower()), q_words(&vb.tower()));
    same_bytes("Gt", &[x.into_bytes(), Vec::from(x), <Gt as Into<Vec<u8>>>::into(x)], &be(&wa))?;
    same_bytes("Gt", &[y.into_bytes()], &be(&wb))?;
    ensure!(x.to_string() == shown_gt(&wa), "Gt element is printed as {}, expected {}", x, shown_gt(&wa));
    ensure!((x.to_string() == y.to_string()) == (a == b), "printed forms of Gt elements agree: {}", a != b);
    ensure!((x == y) == (a == b), "x == y is {}", x == y);
    injective("Gt elements", &x, &y, &x.into_bytes(), &y.into_bytes())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "Pairs of related values (scalars differing in one stored word, neighbours, negatives; points sharing x or y; Gt elements and their inverses or Frobenius images), reached along different routes and in different representations; bytes and printed forms compared with forms computed from reference coordinates, and required to agree exactly when the values do. Non-trivial: the two values differ.",
        assumptions: &["the byte encoding is the one the current release writes: stored words, least significant word first, each word big endian", "Debug forms only have to be injective; the printed form is pinned to the current one"],
        subs: vec![
            sub("scalars", 180_000, 9_000_000, scalars),
            sub("integers", 180_000, 9_000_000, integers),
            sub("g1", 80_000, 4_000_000, points::<G1>),
            sub("g2", 15_000, 1_000_000, points::<G2>),
            sub("gt", 3_000, 200_000, gts),
        ],
    }
}
