//! Serde-only parts of C12 and C14: self-describing formats.
use crate::adapt::*;
use crate::codec::{enc, Store};
use crate::store::*;
use engine::big::*;
use engine::gen::*;
use engine::model::*;
use engine::run::*;
use engine::{ensure, Src, R};
use rabe_bn::arith::{U256, U512};
use rabe_bn::{Fr, Group, Gt, G1, G2};
use serde_json::{json, Value};

fn limbs(w: &[u64]) -> String {
    format!("[{}]", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn text_f2(w: &[u64]) -> String {
    format!("{{\"c0\":{},\"c1\":{}}}", limbs(&w[..4]), limbs(&w[4..8]))
}
fn text_point(w: &[u64]) -> String {
    let n = w.len() / 3;
    let c = |w: &[u64]| if n == 4 { limbs(w) } else { text_f2(w) };
    format!("{{\"x\":{},\"y\":{},\"z\":{}}}", c(&w[..n]), c(&w[n..2 * n]), c(&w[2 * n..]))
}
fn text_gt(w: &[u64]) -> String {
    let six = |w: &[u64]| format!("{{\"c0\":{},\"c1\":{},\"c2\":{}}}", text_f2(&w[..8]), text_f2(&w[8..16]), text_f2(&w[16..]));
    format!("{{\"c0\":{},\"c1\":{}}}", six(&w[..24]), six(&w[24..]))
}

/// Read over another value, from text and from bytes.
fn over<T: Store>(text: &str, place: &mut T) -> Result<(), String> {
    T::deserialize_in_place(&mut serde_json::Deserializer::from_str(text), place).map_err(|e| e.to_string())
}
fn over_bytes<T: Store>(b: &[u8], place: &mut T) -> Result<(), String> {
    use bincode::Options;
    let o = bincode::DefaultOptions::new().with_fixint_encoding();
    T::deserialize_in_place(&mut bincode::Deserializer::from_slice(b, o), place).map_err(|e| e.to_string())
}

/// The text is pinned, and every way of reading it gives the value back.
fn forms<T: Store + PartialEq + Copy + std::fmt::Debug>(t: &T, other: T, text: &str) -> R {
    let mut place = other;
    over(text, &mut place).map_err(|e| format!("reading over another value refuses {}: {}", text, e))?;
    ensure!(place == *t && enc(&place) == enc(t), "{} read over another value differs", text);
    let mut place = other;
    over_bytes(&enc(t), &mut place).map_err(|e| format!("reading bytes over another value: {}", e))?;
    ensure!(place == *t && enc(&place) == enc(t), "bytes read over another value differ: {}", text);
    let both: [T; 2] = serde_json::from_str(&serde_json::to_string(&[*t, other]).unwrap()).map_err(|e| format!("pair: {}", e))?;
    ensure!(both == [*t, other], "a pair does not survive: {}", text);
    let j = serde_json::to_string(t).map_err(|e| format!("to_string: {}", e))?;
    ensure!(j == text, "JSON form is {}, expected {}", j, text);
    let a: T = serde_json::from_str(&j).map_err(|e| format!("from_str refuses {}: {}", j, e))?;
    ensure!(a == *t && enc(&a) == enc(t), "JSON text does not survive: {}", j);
    let a: T = serde_json::from_slice(j.as_bytes()).map_err(|e| format!("from_slice: {}", e))?;
    ensure!(a == *t, "from_slice differs");
    let a: T = serde_json::from_reader(j.as_bytes()).map_err(|e| format!("from_reader: {}", e))?;
    ensure!(a == *t, "from_reader differs");
    let p = serde_json::to_string_pretty(t).map_err(|e| format!("pretty: {}", e))?;
    let a: T = serde_json::from_str(&p).map_err(|e| format!("pretty text refused: {}", e))?;
    ensure!(a == *t, "pretty text differs");
    let v = serde_json::to_value(t).map_err(|e| format!("to_value: {}", e))?;
    let parsed: Value = serde_json::from_str(text).unwrap();
    ensure!(v == parsed, "value tree is {}, expected {}", v, parsed);
    let a: T = serde_json::from_value(v).map_err(|e| format!("from_value: {}", e))?;
    ensure!(a == *t && enc(&a) == enc(t), "value tree does not survive");
    // variable-length integers
    use bincode::Options;
    let o = bincode::DefaultOptions::new();
    let b = o.serialize(t).map_err(|e| format!("varint: {}", e))?;
    let a: T = o.deserialize(&b).map_err(|e| format!("varint encoding refused: {}", e))?;
    ensure!(a == *t && enc(&a) == enc(t), "varint encoding does not survive");
    let o = bincode::DefaultOptions::new().with_fixint_encoding().with_big_endian();
    let b = o.serialize(t).map_err(|e| format!("big-endian: {}", e))?;
    let a: T = o.deserialize(&b).map_err(|e| format!("big-endian encoding refused: {}", e))?;
    ensure!(a == *t && enc(&a) == enc(t), "big-endian encoding does not survive");
    Ok(())
}

fn json_scalar(s: &mut Src) -> R {
    let v = scalar(s);
    let a = u256(s);
    let w = w512(s);
    s.note(|| format!("scalar {}, integers {} {}", hex(&v), hex(&a), hex(&w)));
    s.nontrivial();
    forms::<Fr>(&fr_of(&v), fr_of(&fr().of(&a)), &limbs(&fr().mul(&v, &rmont().r)))?;
    forms::<U256>(&U256(a), U256(v), &limbs(&a))?;
    forms::<U512>(&U512(w), U512([5; 8]), &limbs(&w))
}
fn json_point<G: LibGroup>(s: &mut Src) -> R {
    let p = if s.one_in(8) { None } else { G::F::member(s) };
    let r = repr(s, &p);
    s.note(|| format!("{} {}", G::NAME, rtext(&r)));
    if p.is_some() {
        s.nontrivial();
    }
    let g: G = mk(&r);
    forms(&g, G::one(), &text_point(&words(&enc(&g))))?;
    // and a value in the library's own representation
    let h = g + G::one();
    forms(&h, g, &text_point(&words(&enc(&h))))?;
    let back: G = serde_json::from_str(&serde_json::to_string(&h).unwrap()).map_err(|e| e.to_string())?;
    is("reloaded sum", &back, &padd(&p, &G::F::gen()))
}
fn json_gt(s: &mut Src) -> R {
    let k = scalar(s);
    s.note(|| format!("g^{}", hex(&k)));
    s.nontrivial();
    let g = gt_of(&gt_pow(&k));
    forms(&g, Gt::one(), &text_gt(&words(&enc(&g))))?;
    forms(&g.inverse(), g, &text_gt(&words(&enc(&g.inverse()))))
}

pub fn c12() -> Prop {
    let mut subs = roundtrips(1);
    subs.push(sub("json-scalar", 15_000, 700_000, json_scalar));
    subs.push(sub("json-g1", 6_000, 300_000, json_point::<G1>));
    subs.push(sub("json-g2", 600, 70_000, json_point::<G2>));
    subs.push(sub("json-gt", 200, 30_000, json_gt));
    Prop {
        id: "C12",
        rule: "Values with boundary or uniform coordinates in random representations, and values the library computed (sums, differences, multiples, pairings, inverses, identities), written and read with bincode (fixed, variable-length, big-endian, streamed) and JSON (text, bytes, reader, pretty, value tree); the stored bytes and the JSON text are compared with forms derived from the reference coordinates. Non-trivial: not 0/1/identity.",
        assumptions: &["the stored form is the one the current release writes: Montgomery limbs, least significant word first, fields x,y,z / c0,c1,c2"],
        subs,
    }
}

// ---- C14 over JSON -----------------------------------------------------

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
    out.push(at.concat());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(format!("/{}", k));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(format!("/{}", i));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

/// The same document written another way: fields in another order, structs as
/// arrays, a field nobody asked for, white space, escaped names.
fn rewrite(v: &Value, how: usize, s: &mut Src) -> String {
    match v {
        Value::Object(m) => {
            let mut f: Vec<(String, String)> = m.iter().map(|(k, x)| (k.clone(), rewrite(x, how, s))).collect();
            match how {
                0 => f.reverse(),
                1 => {
                    let n = f.len();
                    f.rotate_left(1 + s.below(n.max(2) - 1));
                }
                2 => return format!("[{}]", f.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",")),
                3 => {
                    let at = s.below(f.len() + 1);
                    f.insert(at, ("w".into(), "[1,2,3,4]".into()));
                }
                4 => {
                    let at = s.below(f.len());
                    let x = f[at].clone();
                    f.push(x);
                }
                _ => {}
            }
            let name = |k: &str| if how == 5 { k.bytes().map(|b| format!("\\u{:04x}", b)).collect::<String>() } else { k.to_string() };
            format!("{{{}}}", f.iter().map(|(k, x)| format!(" \"{}\" :\n{}", name(k), x)).collect::<Vec<_>>().join(","))
        }
        v => v.to_string(),
    }
}

fn doc<T: Store + Copy>(s: &mut Src, name: &str, place: T, w: &[u64], text: String, judge: fn(&[u64]) -> Verdict) -> R {
    // words judged by the reference, through the text form
    let got: Result<T, String> = serde_json::from_str(&text).map_err(|e| e.to_string());
    s.note(|| format!("{} from {}", name, text));
    let verdict = judge(w);
    let invalid = matches!(verdict, Verdict::Invalid(_));
    let valid = match (verdict, &got) {
        (Verdict::Valid, Err(e)) => return Err(format!("{}: valid JSON is refused: {}", name, e)),
        (Verdict::Invalid(why), Ok(_)) => return Err(format!("{}: JSON accepted, although: {}", name, why)),
        (Verdict::Valid, Ok(t)) => {
            ensure!(enc(t) == unwords(w), "{}: JSON accepted as another value", name);
            true
        }
        _ => false,
    };
    let (mut a, mut b) = (place, place);
    for (r, t) in [(over(&text, &mut a), &a), (over_bytes(&unwords(w), &mut b), &b)] {
        ensure!(r.is_ok() == got.is_ok(), "{}: {} when read over another value: {:?}", name, if got.is_ok() { "refused" } else { "accepted" }, r);
        let left = enc(t);
        ensure!(r.is_ok() || left == enc(&place) || !matches!(judge(&words(&left)), Verdict::Invalid(_)), "{}: refused, but something invalid is left in place", name);
        ensure!(r.is_err() || left == unwords(w), "{}: another value when read over one", name);
    }
    s.nontrivial();
    // written another way: read as the same value, or refused
    let how = s.below(6);
    let other = rewrite(&serde_json::from_str(&text).unwrap(), how, s);
    s.note(|| format!("and from {}", other));
    for r in [serde_json::from_str::<T>(&other).ok(), serde_json::from_reader::<_, T>(other.as_bytes()).ok()] {
        if let Some(t) = r {
            s.class(["fields reversed", "fields rotated", "structs as arrays", "unknown field", "repeated field", "escaped names"][how]);
            ensure!(!invalid, "{}: invalid, but accepted when written as {}", name, other);
            ensure!(enc(&t) == unwords(w), "{}: read as another value when written as {}", name, other);
        } else {
            ensure!(how == 2 || how == 3 || how == 4 || !valid, "{}: refused when written as {}", name, other);
        }
    }
    if !valid {
        return Ok(());
    }
    // structural damage: always an error
    let mut v: Value = serde_json::from_str(&text).unwrap();
    let mut all = Vec::new();
    paths(&v, &mut Vec::new(), &mut all);
    let at = all[s.below(all.len())].clone();
    let spot = v.pointer_mut(&at).unwrap();
    let kind = s.below(4);
    let how = match (spot, kind) {
        (Value::Array(a), 0) => {
            a.pop();
            "array too short"
        }
        (Value::Array(a), 1) => {
            a.push(json!(0));
            "array too long"
        }
        (Value::Object(m), 0 | 1) => {
            let k = m.keys().nth(s.below(m.len())).unwrap().clone();
            m.remove(&k);
            "field missing"
        }
        (spot, k) => {
            *spot = match s.below(7) {
                0 => Value::Null,
                1 => json!("1"),
                2 => json!(-1),
                3 => json!(1.5),
                4 => json!(true),
                5 => json!({}),
                _ => json!([]),
            };
            let _ = k;
            "wrong type"
        }
    };
    s.class(how);
    let r: Result<T, _> = serde_json::from_value(v.clone());
    ensure!(r.is_err(), "{}: JSON with {} at {:?} is accepted: {}", name, how, at, v);
    // truncated text
    let n = s.below(text.len());
    ensure!(serde_json::from_str::<T>(&text[..n]).is_err(), "{}: truncated JSON is accepted: {}", name, &text[..n]);
    // a word of 2^64
    let big = text.replacen(&w[0].to_string(), "18446744073709551616", 1);
    ensure!(serde_json::from_str::<T>(&big).is_err(), "{}: a word of 2^64 is accepted", name);
    Ok(())
}

fn bad_json(s: &mut Src) -> R {
    match s.weighted(&[4, 5, 2, 1]) {
        0 => {
            let v = scalar(s);
            let mut w = fr().mul(&v, &rmont().r).to_vec();
            bend(s, &mut w, &fr().m);
            doc::<Fr>(s, "scalar", Fr::one(), &w, limbs(&w), judge_scalar)
        }
        1 => {
            let p = F1::member(s);
            let r = repr(s, &p);
            let mut w = q_words(&[r.0 .0, r.1 .0, r.2 .0]);
            bend(s, &mut w, &fq().m);
            doc::<G1>(s, "G1", G1::one(), &w, text_point(&w), judge_point::<F1>)
        }
        2 => {
            let p = if s.flag() { F2::member(s) } else { twist_point(s) };
            let r = repr(s, &p);
            let mut c = r.0.coords();
            c.extend(r.1.coords());
            c.extend(r.2.coords());
            let mut w = q_words(&c);
            bend(s, &mut w, &fq().m);
            doc::<G2>(s, "G2", G2::one(), &w, text_point(&w), judge_point::<F2>)
        }
        _ => {
            let v = near_gt(s);
            let mut w = q_words(&v.tower());
            bend(s, &mut w, &fq().m);
            doc::<Gt>(s, "Gt", Gt::one(), &w, text_gt(&w), judge_gt)
        }
    }
}


pub fn c14() -> Prop {
    let mut subs = refusals();
    subs.push(sub("json", 6_000, 300_000, bad_json));
    Prop {
        id: "C14",
        rule: C14_RULE,
        assumptions: &["z = 0 with coordinates the operations never produce is left unspecified (it denotes the identity either way)", "trailing bytes and unknown or repeated JSON fields may be accepted or refused, but never change the value"],
        subs,
    }
}
