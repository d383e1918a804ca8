//! C28 objects in which a key was pushed more than once.
use super::json::words;
use super::*;
use crate::bnf;
use crate::build::{self, Order};
use crate::ctx::{clip, hash, Stats, R};
use crate::ensure;
use crate::jsonref::{self, J};
use crate::model::{key_cmp, Nm};
use crate::read;
use yason::{Object, PathExpression, QueriedValue, Value, Yason, YasonBuf, YasonError};

fn er(e: YasonError) -> String {
    format!("unexpected error {e}")
}

/// The members of a list of pushes, in groups of one key, keys in document order.
fn groups(ms: &[(String, M)]) -> Vec<(&str, Vec<&M>)> {
    let mut v: Vec<(&str, Vec<&M>)> = vec![];
    for i in crate::model::member_order(ms) {
        match v.last_mut() {
            Some(g) if g.0 == ms[i].0 => g.1.push(&ms[i].1),
            _ => v.push((&ms[i].0, vec![&ms[i].1])),
        }
    }
    v
}

/// Whether both denote the same document, the values of one key in any order.
fn same(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Obj(x), M::Obj(y)) => {
            let (x, y) = (groups(x), groups(y));
            x.len() == y.len() && x.iter().zip(&y).all(|(x, y)| x.0 == y.0 && multiset(&x.1, &y.1))
        }
        (M::Arr(x), M::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (M::Obj(_) | M::Arr(_), _) | (_, M::Obj(_) | M::Arr(_)) => false,
        _ => a.same(b),
    }
}

fn multiset(a: &[&M], b: &[&M]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.len() > 64 {
        // scalars only
        let k = |v: &[&M]| {
            let mut k: Vec<Vec<u8>> = v.iter().map(|m| m.keyed()).collect();
            k.sort();
            k
        };
        return k(a) == k(b);
    }
    let mut left: Vec<&M> = b.to_vec();
    a.iter().all(|m| match left.iter().position(|o| same(m, o)) {
        Some(i) => {
            left.swap_remove(i);
            true
        }
        None => false,
    })
}

fn shown(v: &[&M]) -> String {
    clip(&v.iter().map(|m| m.show()).collect::<Vec<_>>().join(", "), 200)
}

/// The members as iterated, and every way of iterating agrees.
fn entries(o: &Object) -> Result<Vec<(String, M)>, String> {
    let mut out = vec![];
    let mut ki = o.key_iter().map_err(er)?;
    let mut vi = o.value_iter().map_err(er)?;
    for x in o.iter().map_err(er)? {
        let (k, v) = x.map_err(er)?;
        let m = read::model_of(&v)?;
        let kk = ki.next().ok_or("key_iter ended early")?.map_err(er)?;
        ensure!(kk == k, "key_iter gives {kk:?} where iter gives {k:?}");
        let vv = read::model_of(&vi.next().ok_or("value_iter ended early")?.map_err(er)?)?;
        ensure!(vv.keyed() == m.keyed(), "value_iter gives {} where iter gives {}", vv.show(), m.show());
        out.push((k.to_string(), m));
    }
    ensure!(ki.next().is_none() && vi.next().is_none(), "the iterators of keys and values give more than that of entries");
    Ok(out)
}

fn object(o: &Object, ms: &[(String, M)], st: &mut Stats) -> R {
    let len = o.len().map_err(er)?;
    ensure!(len == ms.len(), "len {len} after {} pushes", ms.len());
    ensure!(matches!(o.is_empty(), Ok(b) if b == ms.is_empty()), "is_empty wrong");
    let got = entries(o)?;
    ensure!(got.len() == len, "{} entries iterated of {len}", got.len());
    ensure!(got.windows(2).all(|w| key_cmp(&w[0].0, &w[1].0) != std::cmp::Ordering::Greater), "entries out of key order: {:?}", clip(&format!("{:?}", got.iter().map(|e| &e.0).collect::<Vec<_>>()), 200));
    let (have, want) = (groups(&got), groups(ms));
    for (h, w) in have.iter().zip(&want) {
        ensure!(h.0 == w.0, "the entries have the key {:?} where {:?} is due", clip(h.0, 60), clip(w.0, 60));
        ensure!(multiset(&h.1, &w.1), "the entries of {:?} are {} and not {}", clip(h.0, 60), shown(&h.1), shown(&w.1));
    }
    ensure!(have.len() == want.len(), "{} different keys instead of {}", have.len(), want.len());
    // lookups: one of the entries, the same by every accessor
    for (k, vs) in &want {
        lookup(o, k, vs).map_err(|e| format!(".{:?}: {e}", clip(k, 60)))?;
    }
    let keys: Vec<&str> = want.iter().map(|w| w.0).collect();
    for k in read::other_keys(&keys) {
        ensure!(matches!(o.get(&k), Ok(None)) && matches!(o.contains_key(&k), Ok(false)) && matches!(o.type_of(&k), Ok(None)), "the key {:?} is found, which was not pushed", clip(&k, 60));
    }
    st.step((4 * ms.len() + 12 * keys.len()) as u64);
    Ok(())
}

fn lookup(o: &Object, k: &str, vs: &[&M]) -> R {
    let v = o.get(k).map_err(er)?.ok_or("not found")?;
    let m = read::model_of(&v)?;
    ensure!(vs.iter().any(|w| same(w, &m)), "get gives {}, pushed were {}", m.show(), shown(vs));
    ensure!(matches!(o.contains_key(k), Ok(true)), "contains_key is false");
    ensure!(matches!(o.type_of(k), Ok(Some(t)) if t == m.ty()), "type_of is not that of get");
    ensure!(matches!(o.is_null(k), Ok(Some(b)) if b == (m == M::Null)), "is_null is not that of get");
    for t in read::TYPES {
        ensure!(matches!(o.is_type(k, t), Ok(Some(b)) if b == (t == m.ty())), "is_type is not that of get");
    }
    let ok = match &m {
        M::Null => true,
        M::Bool(b) => matches!(o.bool(k), Ok(Some(x)) if x == *b),
        M::Num(x) => matches!(o.number(k), Ok(Some(y)) if Nm::of(&y).dec() == x.dec()),
        M::Str(x) => matches!(o.string(k), Ok(Some(y)) if y == x),
        M::Arr(_) => matches!(o.array(k), Ok(Some(a)) if read::model_of(&Value::Array(a.clone())).is_ok_and(|x| same(&x, &m))),
        M::Obj(_) => matches!(o.object(k), Ok(Some(a)) if read::model_of(&Value::Object(a.clone())).is_ok_and(|x| same(&x, &m))),
    };
    ensure!(ok, "the typed getter does not give {} as get does", m.show());
    Ok(())
}

/// Every part of the document.
fn parts(y: &Yason, m: &M, st: &mut Stats) -> R {
    match m {
        M::Obj(ms) => {
            let o = y.object().map_err(er)?;
            object(&o, ms, st)?;
            for v in o.value_iter().map_err(er)? {
                let v = v.map_err(er)?;
                let Some(y) = bytes(&v) else { continue };
                let got = read::model_of(&v)?;
                let Some(w) = ms.iter().find(|w| same(&w.1, &got)) else { return Err(format!("the value {} was not pushed", got.show())) };
                parts(y, &w.1, st)?;
            }
            Ok(())
        }
        M::Arr(ms) => {
            for (i, m) in ms.iter().enumerate() {
                let a = y.array().map_err(er)?;
                let v = a.get(i).map_err(er)?;
                ensure!(same(&read::model_of(&v)?, m), "[{i}] is not {}", m.show());
                if let Some(y) = bytes(&v) {
                    parts(y, m, st).map_err(|e| format!("[{i}]: {e}"))?;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn bytes<'a>(v: &'a Value) -> Option<&'a Yason> {
    match v {
        Value::Object(o) => Some(o.yason()),
        Value::Array(a) => Some(a.yason()),
        _ => None,
    }
}

fn json_is(j: &J, m: &M) -> bool {
    match (j, m) {
        (J::Null, M::Null) => true,
        (J::Bool(a), M::Bool(b)) => a == b,
        (J::Str(a), M::Str(b)) => a == b,
        (J::Num(a), M::Num(b)) => *a == jsonref::BigDec::of(b.dec()),
        (J::Arr(a), M::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_is(a, b)),
        (J::Obj(a), M::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && json_is(&a.1, &b.1)),
        _ => false,
    }
}

fn built(m: &M, o: Order) -> Result<YasonBuf, String> {
    build::owned(m, o).map_err(|e| format!("building ({o:?}) fails: {e}"))
}

/// A document with repeated keys, by every way of reading it.
fn check(m: &M, o: Order, st: &mut Stats) -> R {
    let y = built(m, o)?;
    whole(&y, m, st).map_err(|e| format!("({o:?}) {e}"))?;
    // the other interface and another run give the same bytes
    let mut buf = vec![0xEE; 3];
    let r = build::into(m, o, &mut buf).map_err(|e| e.to_string())?;
    ensure!(r.as_bytes() == y.as_bytes(), "({o:?}) built into a buffer it has other bytes");
    ensure!(built(m, o)?.as_bytes() == y.as_bytes(), "({o:?}) built again it has other bytes");
    Ok(())
}

fn whole(y: &YasonBuf, m: &M, st: &mut Stats) -> R {
    let d = bnf::decode_repeats(y.as_bytes())?;
    ensure!(same(&d, m), "the bytes denote {} and not {}", d.show(), m.show());
    parts(y, m, st)?;
    let seen = read::model(y)?;
    // text: every entry, in the order of iteration
    for pretty in [false, true] {
        let mut t = String::new();
        y.format_to(pretty, &mut t).map_err(|e| e.to_string())?;
        let j = jsonref::parse(&t).map_err(|e| format!("not JSON ({e}): {}", clip(&t, 300)))?;
        ensure!(json_is(&j, &seen), "formats as {} and is iterated as {}", clip(&t, 300), seen.show());
    }
    // copies
    let copy: YasonBuf = y.to_yason_buf().map_err(er)?;
    ensure!(copy.as_bytes() == y.as_bytes(), "a copy has other bytes");
    ensure!(matches!(copy.equals(y), Ok(true)), "it does not equal its copy");
    // paths
    if let M::Obj(ms) = m {
        let all = query(y, "$.*")?;
        let M::Obj(es) = &seen else { return Err("read as something else".into()) };
        ensure!(all.len() == ms.len() && all.iter().zip(es).all(|(a, e)| same(a, &e.1)), "$.* selects {} and not the {} entries in order", shown(&all.iter().collect::<Vec<_>>()), ms.len());
        let o = y.object().map_err(er)?;
        for (k, _) in groups(ms).into_iter().take(64) {
            if k.len() > 1000 || k.contains(['"', '\\']) {
                continue;
            }
            let p = format!("$.\"{k}\"");
            let got = query(y, &p)?;
            let want = read::model_of(&o.get(k).map_err(er)?.ok_or("not found")?)?;
            ensure!(got.len() == 1 && got[0].keyed() == want.keyed(), "{p} selects {} and get gives {}", shown(&got.iter().collect::<Vec<_>>()), want.show());
            let p: PathExpression = p.parse().map_err(|e| format!("{e}"))?;
            ensure!(matches!(p.exists(y), Ok(true)), "exists is false for {k:?}");
        }
        st.step(3);
    }
    Ok(())
}

fn query(y: &Yason, p: &str) -> Result<Vec<M>, String> {
    let e: PathExpression = p.parse().map_err(|e| format!("{p}: {e}"))?;
    match e.query(y, true, None, None).map_err(er)? {
        QueriedValue::None => Ok(vec![]),
        QueriedValue::Values(v) => v.iter().map(read::model_of).collect(),
        _ => Err("another delivery than asked for".into()),
    }
}

/// Values by which every push can be told apart, of all kinds.
fn val(i: usize) -> M {
    match i % 7 {
        0 => n(i as i64),
        1 => s(&format!("value {i}")),
        2 => M::Arr(vec![n(i as i64), M::Null]),
        3 => M::Obj(vec![("b".into(), n(i as i64)), ("a".into(), M::Bool(true))]),
        4 => M::Num(Nm::new(i as u128, 1, true)),
        5 => M::Bool(i % 2 == 0),
        _ => s(&"x".repeat(i)),
    }
}

fn small_val(i: usize) -> M {
    if i % 2 == 0 {
        n(i as i64)
    } else {
        s(&i.to_string())
    }
}

pub fn c28(c: &mut Ctx) {
    let sets: [(&[&str], usize, usize); 4] = [
        (&["a", "b"], 10, 13),
        (&["a", "b", "aa"], 7, 9),
        (&["", "é", "b", "zz"], 6, 7),
        (&["b", "aa", "ab", "ba", "A", "\u{10000}"], 5, 6),
    ];
    for (keys, quick, deep) in sets {
        let len = c.pick(quick, deep);
        c.family(&format!("every sequence of up to {len} pushes of the keys {keys:?}"));
        let idx: Vec<String> = (0..keys.len()).map(|i| i.to_string()).collect();
        let idx: Vec<&str> = idx.iter().map(|s| s.as_str()).collect();
        words(&idx, len, &mut |w| {
            let seq: Vec<usize> = w.bytes().map(|b| (b - b'0') as usize).collect();
            c.case(
                || format!("push {:?}", seq.iter().map(|i| keys[*i]).collect::<Vec<_>>()),
                |st| {
                    for first in [0, 3] {
                        let m = M::Obj(seq.iter().enumerate().map(|(i, k)| (keys[*k].to_string(), val(i + first))).collect());
                        st.state(hash(&(first, &seq, keys)));
                        check(&m, Order::Listed, st)?;
                        check(&m, Order::Sorted, st)?;
                    }
                    let mut d = seq.clone();
                    d.sort();
                    d.dedup();
                    st.outcome(&format!("{} repetitions", seq.len() - d.len()));
                    Ok(())
                },
            );
        });
    }

    c.family("inside other containers, among repetitions outside");
    let inner = ["x", "w"];
    words(&["0", "1"], 4, &mut |w| {
        let seq: Vec<usize> = w.bytes().map(|b| (b - b'0') as usize).collect();
        for place in 0..6 {
            c.case(
                || format!("{:?} at place {place}", seq.iter().map(|i| inner[*i]).collect::<Vec<_>>()),
                |st| {
                    let i = M::Obj(seq.iter().enumerate().map(|(i, k)| (inner[*k].to_string(), val(i))).collect());
                    let m = match place {
                        0 => M::Arr(vec![i.clone(), s("mid"), i]),
                        1 => M::Obj(vec![("k".into(), i.clone()), ("j".into(), n(1)), ("k".into(), i)]),
                        2 => M::Obj(vec![("k".into(), n(1)), ("k".into(), i), ("k".into(), M::Null)]),
                        3 => M::Obj(vec![("k".into(), M::Arr(vec![i.clone()])), ("a".into(), i), ("k".into(), s("last"))]),
                        4 => M::Obj(vec![("z".into(), s(&"y".repeat(300))), ("k".into(), i), ("k".into(), s(&"y".repeat(70000))), ("a".into(), n(7)), ("k".into(), n(8))]),
                        _ => M::Arr(vec![M::Obj(vec![("k".into(), M::Obj(vec![("k".into(), i.clone()), ("k".into(), n(0))])), ("k".into(), i)])]),
                    };
                    st.state(m.hash());
                    for o in [Order::Listed, Order::Reversed, Order::Sorted] {
                        check(&m, o, st)?;
                    }
                    st.outcome("nested");
                    Ok(())
                },
            );
        }
    });

    // one key repeated in an object of many: every place of the key, every place of the repetition
    let most = c.pick(18, 32);
    c.family(&format!("one repetition in an object of up to {most} other keys: every key, every time of its second push"));
    for size in 1..=most {
        for at in 0..size {
            c.case(
                || format!("{size} keys, the {at}th pushed twice"),
                |st| {
                    for again in 0..=size {
                        for down in [false, true] {
                            let mut seq: Vec<usize> = if down { (0..size).rev().collect() } else { (0..size).collect() };
                            seq.insert(again, at);
                            let m = M::Obj(seq.iter().enumerate().map(|(i, k)| (gen::key(*k), small_val(i))).collect());
                            st.state(m.hash());
                            let y = built(&m, Order::Listed)?;
                            let M::Obj(ms) = &m else { unreachable!() };
                            object(&y.object().map_err(er)?, ms, st).map_err(|e| format!("again as push {again}: {e}"))?;
                        }
                    }
                    st.outcome("one of many");
                    Ok(())
                },
            );
        }
    }
    let mut sizes = vec![40usize, 127, 128, 129, 255, 256, 257, 1000];
    if !c.quick() {
        sizes.extend([511, 512, 513, 4096, 20000]);
    }
    c.family("many repetitions: all pushes of one key, of two, of every key twice or thrice, in several orders");
    for size in sizes {
        for kind in 0..8usize {
            c.case(
                || format!("{size} pushes of kind {kind}"),
                |st| {
                    let key = |i: usize| match kind {
                        0 => 0,
                        1 => i % 2,
                        2 => i * 2 / size,
                        3 => i / 2,
                        4 => (size - 1 - i) / 3,
                        5 => i % (size / 3 + 1),
                        6 => (i * 7919) % (size / 2 + 1),
                        _ => if i == size / 2 { 1 } else { 0 },
                    };
                    let m = M::Obj((0..size).map(|i| (gen::key(key(i)), small_val(i))).collect());
                    st.state(m.hash());
                    check(&m, Order::Listed, st)?;
                    check(&m, Order::Reversed, st)?;
                    check(&m, Order::Sorted, st)?;
                    st.outcome("many repetitions");
                    Ok(())
                },
            );
        }
    }
    c.family("the largest count, one key and two");
    for kind in 0..3usize {
        c.case(
            || format!("65535 pushes of kind {kind}"),
            |st| {
                let m = M::Obj((0..65535usize).map(|i| (gen::key(if kind == 0 { 0 } else { i % 2 * kind }), small_val(i))).collect());
                check(&m, Order::Sorted, st)?;
                check(&m, Order::Listed, st)?;
                st.outcome("largest");
                Ok(())
            },
        );
    }
}
