//! Between library values and reference values.
use crate::codec::{dec, enc, Store};
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use rabe_bn::{Fr, Group, Gt, G1, G2};
use std::sync::OnceLock;

pub trait LibGroup: Group + Store + std::fmt::Debug {
    type F: Fg;
    const NAME: &'static str;
    fn layout() -> &'static Layout;
}
impl LibGroup for G1 {
    type F = F1;
    const NAME: &'static str = "G1";
    fn layout() -> &'static Layout {
        static L: OnceLock<Layout> = OnceLock::new();
        L.get_or_init(|| layout::<G1>(&example_points::<G1>()))
    }
}
impl LibGroup for G2 {
    type F = F2;
    const NAME: &'static str = "G2";
    fn layout() -> &'static Layout {
        static L: OnceLock<Layout> = OnceLock::new();
        L.get_or_init(|| layout::<G2>(&example_points::<G2>()))
    }
}

/// Words of stored (Montgomery) limbs, little endian.
pub fn words(b: &[u8]) -> Vec<u64> {
    assert!(b.len() % 8 == 0, "encoding is not a whole number of 64-bit words: {} bytes", b.len());
    b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
pub fn unwords(w: &[u64]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// Standard residues of q to stored words.
pub fn q_words(c: &[U]) -> Vec<u64> {
    c.iter().flat_map(|x| fq().mul(x, &qmont().r)).collect()
}
/// Stored words back to standard residues; they must be canonical.
pub fn q_vals(w: &[u64]) -> Result<Vec<U>, String> {
    let mut out = Vec::new();
    for c in w.chunks(4) {
        let raw: U = c.try_into().map_err(|_| "short coordinate".to_string())?;
        if !lt(&raw, &fq().m) {
            return Err(format!("coordinate {} is not below the field modulus", hex(&raw)));
        }
        out.push(fq().mul(&raw, &qmont().rinv));
    }
    Ok(out)
}

pub fn fr_of(v: &U) -> Fr {
    dec(&unwords(&fr().mul(v, &rmont().r))).expect("a valid stored scalar was refused")
}
pub fn fr_val(f: &Fr) -> Result<U, String> {
    let w = words(&enc(f));
    let raw: U = w[..].try_into().map_err(|_| format!("a scalar is stored in {} words", w.len()))?;
    if !lt(&raw, &fr().m) {
        return Err(format!("scalar with stored form {} is not canonical", hex(&raw)));
    }
    Ok(fr().mul(&raw, &rmont().rinv))
}

pub fn mk<G: LibGroup>(r: &(G::F, G::F, G::F)) -> G {
    let mut c = r.0.coords();
    c.extend(r.1.coords());
    c.extend(r.2.coords());
    let w = q_words(&c);
    place(&w, G::layout()).unwrap_or_else(|| dec(&unwords(&w)).expect("a valid stored point was refused"))
}

/// Where the stored words of a value lie in its memory.
///
/// Reading a stored point or Gt element makes the library prove membership,
/// which costs a hundred times what most operations cost. Where the memory of
/// a value is found to be exactly its stored words in some order (established
/// on examples, at run time), seven in eight members are put in place
/// directly; otherwise, and for the rest, they are read as stored values.
pub type Layout = Option<Vec<usize>>;

fn layout<T: Store>(examples: &[Vec<u64>]) -> Layout {
    let n = examples[0].len();
    if std::mem::size_of::<T>() != 8 * n || std::mem::align_of::<T>() > 8 || std::mem::needs_drop::<T>() {
        return None;
    }
    let mut l: Layout = None;
    for w in examples {
        let t: T = dec(&unwords(w)).ok()?;
        let mut m = vec![0u64; n];
        // T has the size of n words and no room for anything else; all of its
        // bytes are initialised if it holds the n words it was read from, and
        // if it does not, what is read here will not match.
        unsafe { std::ptr::copy_nonoverlapping(&t as *const T as *const u8, m.as_mut_ptr() as *mut u8, 8 * n) };
        match &l {
            None => l = Some(w.iter().map(|x| m.iter().position(|y| y == x)).collect::<Option<Vec<usize>>>()?),
            Some(l) => {
                if (0..n).any(|i| m[l[i]] != w[i]) {
                    return None;
                }
            }
        }
        let mut at = l.clone().unwrap();
        at.sort();
        at.dedup();
        if at.len() != n {
            return None;
        }
    }
    l
}

fn place<T: Store>(w: &[u64], l: &Layout) -> Option<T> {
    let l = l.as_ref()?;
    if w.iter().fold(7, |h: u64, x| engine::src::mix(h ^ x)) % 8 == 0 {
        return None;
    }
    let mut m = vec![0u64; w.len()];
    for (i, at) in l.iter().enumerate() {
        m[*at] = w[i];
    }
    Some(unsafe { std::ptr::read(m.as_ptr() as *const T) })
}

fn example_points<G: LibGroup>() -> Vec<Vec<u64>> {
    (3u64..7)
        .map(|k| {
            let (x, y) = gmul::<G::F>(&u(k * k * k * k)).unwrap();
            let mut z = x.mul(&y).add(&G::F::one());
            z = z.mul(&z);
            let mut c = x.mul(&z.sq()).coords();
            c.extend(y.mul(&z.sq()).mul(&z).coords());
            c.extend(z.coords());
            q_words(&c)
        })
        .collect()
}
pub fn coords<G: LibGroup>(g: &G) -> Result<(G::F, G::F, G::F), String> {
    let v = q_vals(&words(&enc(g)))?;
    let n = G::F::N;
    if v.len() != 3 * n {
        return Err(format!("{} is stored as {} coordinates", G::NAME, v.len()));
    }
    Ok((G::F::from_coords(&v[..n]), G::F::from_coords(&v[n..2 * n]), G::F::from_coords(&v[2 * n..])))
}
/// The affine point a library value denotes; it has to be on the curve.
pub fn affine<G: LibGroup>(g: &G) -> Result<P<G::F>, String> {
    let (x, y, z) = coords(g)?;
    if z.is_zero() {
        if !g.is_zero() {
            return Err(format!("{} value with z = 0 does not report being zero", G::NAME));
        }
        return Ok(None);
    }
    if g.is_zero() {
        return Err(format!("{} value with z != 0 reports being zero", G::NAME));
    }
    let i = z.inv().unwrap();
    let (ax, ay) = (x.mul(&i.sq()), y.mul(&i.sq()).mul(&i));
    if !on_curve(&ax, &ay) {
        return Err(format!("{} value ({},{}) is not on the curve", G::NAME, ax.text(), ay.text()));
    }
    Ok(Some((ax, ay)))
}
/// `g` must denote `p`.
pub fn is<G: LibGroup>(what: &str, g: &G, p: &P<G::F>) -> Result<(), String> {
    let a = affine(g).map_err(|e| format!("{}: {}", what, e))?;
    if a != *p {
        return Err(format!("{}: got {}, expected {}", what, ptext(&a), ptext(p)));
    }
    Ok(())
}
pub fn rtext<T: F>(r: &(T, T, T)) -> String {
    format!("({} : {} : {})", r.0.text(), r.1.text(), r.2.text())
}

pub fn gt_of(v: &F12) -> Gt {
    static L: OnceLock<Layout> = OnceLock::new();
    let l = L.get_or_init(|| {
        layout::<Gt>(&[3u64, 5, 7].iter().map(|k| q_words(&gt_pow(&u(*k)).tower())).collect::<Vec<_>>())
    });
    let w = q_words(&v.tower());
    place(&w, l).unwrap_or_else(|| dec(&unwords(&w)).expect("a valid stored Gt element was refused"))
}
pub fn gt_val(g: &Gt) -> Result<F12, String> {
    let v = q_vals(&words(&enc(g)))?;
    if v.len() != 12 {
        return Err(format!("Gt is stored as {} coordinates", v.len()));
    }
    Ok(F12::from_tower(&v))
}
pub fn gt_is(what: &str, g: &Gt, v: &F12) -> Result<(), String> {
    let a = gt_val(g).map_err(|e| format!("{}: {}", what, e))?;
    if a != *v {
        return Err(format!("{}: got {}, expected {}", what, a.text(), v.text()));
    }
    Ok(())
}
pub fn fr_is(what: &str, g: &Fr, v: &U) -> Result<(), String> {
    let a = fr_val(g).map_err(|e| format!("{}: {}", what, e))?;
    if a != *v {
        return Err(format!("{}: got {}, expected {}", what, hex(&a), hex(v)));
    }
    if g.is_zero() != is_zero(v) {
        return Err(format!("{}: is_zero is {} for {}", what, g.is_zero(), hex(v)));
    }
    Ok(())
}
