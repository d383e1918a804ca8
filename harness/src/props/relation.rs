//! C10 equality as a relation, C17 extracting and copying parts.
use super::json::words;
use super::*;
use crate::bnf;
use crate::build::{self, ORDERS};
use crate::ctx::{clip, Stats, R};
use crate::ensure;
use crate::model::Nm;
use crate::pathref;
use crate::read;
use std::collections::HashMap;
use yason::{Array, Object, PathExpression, QueriedValue, Value, Yason, YasonBuf};

// ---- C10 ------------------------------------------------------------------------------------------------

/// One representation of a document.
struct Rep {
    class: u32,
    y: YasonBuf,
    m: usize,
    how: &'static str,
}

/// Representations of documents, each with the number of the document it denotes.
struct Set {
    models: Vec<M>,
    reps: Vec<Rep>,
}

fn fresh(v: Vec<u8>) -> YasonBuf {
    unsafe { YasonBuf::new_unchecked(v) }
}

impl Set {
    fn new(models: Vec<M>, all: bool) -> Result<Set, String> {
        let mut ids: HashMap<Vec<u8>, u32> = HashMap::new();
        let mut reps = vec![];
        for (i, m) in models.iter().enumerate() {
            let next = ids.len() as u32;
            let class = *ids.entry(m.keyed()).or_insert(next);
            let mut add = |y: YasonBuf, how| reps.push(Rep { class, y, m: i, how });
            add(build::doc(m)?, "built in listed order");
            if all {
                for (o, how) in [(ORDERS[1], "built in reverse"), (ORDERS[2], "built in key order")] {
                    add(build::owned(m, o).map_err(|e| e.to_string())?, how);
                }
                for l in bnf::Layout::some() {
                    add(fresh(bnf::encode(m, l)), "another layout");
                }
            }
        }
        // identical bytes need no second comparison
        if all {
            let mut seen = std::collections::HashSet::new();
            reps.retain(|r| seen.insert(r.y.as_bytes().to_vec()));
        }
        Ok(Set { models, reps })
    }
}

fn compare(a: &YasonBuf, b: &YasonBuf, want: bool) -> R {
    let got = a.equals(b).map_err(|e| format!("equals fails: {e}"))?;
    ensure!(got == want, "equals gives {got}");
    Ok(())
}

/// Every form of comparison the interface offers.
fn compare_all(a: &YasonBuf, b: &YasonBuf, want: bool) -> R {
    compare(a, b, want)?;
    let (x, y): (&Yason, &Yason) = (a, b);
    ensure!(matches!(x.equals(y), Ok(w) if w == want), "equals of references gives another answer");
    ensure!((x == y) == want && (x != y) != want, "== on Yason gives another answer");
    ensure!((a == b) == want && (a != b) != want, "== on YasonBuf gives another answer");
    Ok(())
}

fn pairs(c: &mut Ctx, name: &str, models: Vec<M>, all: bool) {
    c.family(name);
    let set = match Set::new(models, all) {
        Ok(s) => s,
        Err(e) => {
            c.case(|| format!("building {name}"), |_| Err(e));
            return;
        }
    };
    for a in &set.reps {
        c.case(|| format!("compare {} ({}) with {} others", set.models[a.m].show(), a.how, set.reps.len()), |st| {
            st.state(set.models[a.m].hash());
            let mut same = 0;
            for b in &set.reps {
                let want = a.class == b.class;
                same += want as u64;
                compare(&a.y, &b.y, want).map_err(|e| format!("with {} ({}): {e}", set.models[b.m].show(), b.how))?;
                if want || b.m % 16 == a.m % 16 {
                    compare_all(&a.y, &b.y, want).map_err(|e| format!("with {} ({}): {e}", set.models[b.m].show(), b.how))?;
                }
            }
            st.step(set.reps.len() as u64);
            st.outcome(if same > 1 { "rows with several equal representations" } else { "rows with one equal representation" });
            Ok(())
        });
    }
}

/// Every document that differs from `m` by one change of one leaf, one member or one element.
fn edits(m: &M, f: &mut dyn FnMut(M)) {
    match m {
        M::Null => f(M::Bool(false)),
        M::Bool(b) => {
            f(M::Bool(!b));
            f(M::Null)
        }
        M::Num(v) => {
            if v.coef > 0 {
                f(M::Num(Nm::new(v.coef, v.scale, !v.neg)));
                f(M::Num(Nm::new(v.coef - 1, v.scale, v.neg)));
            } else {
                f(n(1));
            }
            f(s("1"));
        }
        M::Str(t) => {
            f(s(&format!("{t}x")));
            f(s(&format!("{t}\0")));
            let cs: Vec<char> = t.chars().collect();
            if let Some((l, rest)) = cs.split_last() {
                f(M::Str(rest.iter().collect()));
                let other = if *l == 'y' { 'z' } else { 'y' };
                f(M::Str(rest.iter().chain([&other]).collect()));
                let other = if cs[0] == 'y' { 'z' } else { 'y' };
                f(M::Str([other].iter().chain(&cs[1..]).collect()));
            }
        }
        M::Arr(v) => {
            for i in 0..v.len() {
                edits(&v[i], &mut |x| {
                    let mut w = v.clone();
                    w[i] = x;
                    f(M::Arr(w));
                });
                let mut w = v.clone();
                w.remove(i);
                f(M::Arr(w));
                if i + 1 < v.len() {
                    let mut w = v.clone();
                    w.swap(i, i + 1);
                    f(M::Arr(w));
                }
            }
            let mut w = v.clone();
            w.push(M::Null);
            f(M::Arr(w));
            f(M::Obj(vec![]));
        }
        M::Obj(v) => {
            for i in 0..v.len() {
                edits(&v[i].1, &mut |x| {
                    let mut w = v.clone();
                    w[i].1 = x;
                    f(M::Obj(w));
                });
                let mut w = v.clone();
                w.remove(i);
                f(M::Obj(w));
                let mut w = v.clone();
                w[i].0.push('_');
                f(M::Obj(w));
                let k = &v[i].0;
                if let Some(l) = k.chars().last() {
                    // a key of the same length
                    let mut w = v.clone();
                    let cut = k.len() - l.len_utf8();
                    w[i].0 = format!("{}{}", &k[..cut], "#".repeat(l.len_utf8()));
                    f(M::Obj(w));
                }
                if i + 1 < v.len() {
                    let mut w = v.clone();
                    let t = w[i].1.clone();
                    w[i].1 = std::mem::replace(&mut w[i + 1].1, t);
                    f(M::Obj(w));
                }
            }
            let mut w = v.clone();
            w.push(("-new-".into(), M::Null));
            f(M::Obj(w));
            f(M::Arr(vec![]));
        }
    }
}

fn same_value(v: Nm) -> Vec<Nm> {
    let mut out = vec![v];
    let (mut c, mut sc) = (v.coef, v.scale);
    for _ in 0..40 {
        let Some(x) = c.checked_mul(10) else { break };
        if x >= 10u128.pow(38) {
            break;
        }
        c = x;
        sc += 1;
        if yason::Number::from_parts(c, sc, v.neg).is_err() {
            break;
        }
        out.push(Nm::new(c, sc, v.neg));
    }
    out
}

pub fn c10(c: &mut Ctx) {
    pairs(c, "every pair of the documents of up to 3 nodes in every representation", gen::small_vec(3), true);
    let m = gen::small_vec(4);
    pairs(c, "every pair of the documents of up to 4 nodes", m, false);
    let mut nums: Vec<Nm> = gen::numbers();
    let full = c.pick(12, nums.len());
    let few: Vec<Nm> = gen::few_numbers();
    let mut reps: Vec<Nm> = few.iter().chain(nums.iter().take(full)).flat_map(|v| same_value(*v)).collect();
    reps.extend([Nm::new(0, 5, false), Nm::new(0, -5, false), Nm::new(0, 0, true), Nm::new(0, 130, true)]);
    reps.append(&mut nums);
    reps.retain(|v| yason::Number::from_parts(v.coef, v.scale, v.neg).is_ok());
    let scal: Vec<M> = reps.iter().copied().map(M::Num).collect();
    pairs(c, "every pair of numbers in every representation", scal.clone(), true);
    let stepped: Vec<M> = scal.into_iter().step_by(c.pick(5, 2)).collect();
    pairs(c, "every pair of numbers as elements", stepped.iter().map(|m| M::Arr(vec![m.clone()])).collect(), true);
    pairs(c, "every pair of numbers as members", stepped.iter().map(|m| M::Obj(vec![("k".into(), m.clone()), ("a".into(), n(1))])).collect(), true);
    let r = gen::rich();
    pairs(c, "every pair of encoding classes in every position", r.iter().flat_map(gen::contexts).collect(), false);
    let mut texts = vec![];
    let len = c.pick(4, 5);
    words(&["a", "b", "\0", "é"], len, &mut |t| texts.push(s(t)));
    for l in gen::long_strings() {
        let mut cs: Vec<char> = l.chars().collect();
        let last = cs.len() - 1;
        texts.push(M::Str(l));
        cs[last] = if cs[last].is_ascii() { 't' } else { 'è' };
        texts.push(M::Str(cs.iter().collect()));
    }
    pairs(c, "every pair of strings", texts.clone(), false);
    let keyed: Vec<M> = texts.iter().filter_map(|t| if let M::Str(t) = t { Some(t) } else { None }).filter(|t| t.len() < 40000).map(|t| M::Obj(vec![(t.clone(), n(1)), ("zz".repeat(3), M::Null)])).collect();
    pairs(c, "every pair of keys", keyed, false);
    let mut sets = vec![];
    // all objects over subsets of 6 keys with one of two values each
    let ks = ["a", "b", "c", "aa", "ab", ""];
    for mask in 0..3u32.pow(ks.len() as u32) {
        let mut x = mask;
        let mut o = vec![];
        for k in ks {
            if x % 3 > 0 {
                o.push((k.to_string(), n((x % 3) as i64)));
            }
            x /= 3;
        }
        sets.push(M::Obj(o));
    }
    pairs(c, "every pair of objects over 6 keys and 2 values", sets, false);

    c10_repeats(c);
    c10_long(c);
    c10_counts(c);
    giants(c, true, &mut |c, mk| {
        c.case(|| format!("{} and changes near its ends", mk().show()), |st| {
            let m = mk();
            let y = build::doc(&m)?;
            compare_all(&y, &build::owned(&m, ORDERS[1]).map_err(|e| e.to_string())?, true)?;
            let mut k = 0;
            for place in [0usize, 1, 1 << 16, (1 << 16) + 1, 1 << 20, 1 << 21, 1 << 24, usize::MAX] {
                let mut z = m.clone();
                // one byte of the longest string, or one of many strings
                if !change(&mut z, place) {
                    continue;
                }
                let z = build::doc(&z)?;
                compare(&y, &z, false).map_err(|e| format!("byte {place} of a part changed: {e}"))?;
                compare(&z, &y, false).map_err(|e| format!("byte {place} of a part changed: {e}"))?;
                k += 2;
            }
            st.step(k);
            st.outcome("giant");
            Ok(())
        })
    });

    let keep = c.pick(2, 1);
    combos(c, &mut thin(keep, &mut |c, mk| {
        c.case(|| format!("{} against itself built otherwise, and changed", mk().show()), |st| {
            let m = mk();
            let y = build::doc(&m)?;
            let key = m.keyed();
            st.outcome("combinations");
            compare_all(&y, &build::owned(&m, ORDERS[1]).map_err(|e| e.to_string())?, true)?;
            let mut r = Ok(());
            let mut k = 1;
            if m.nodes() <= 12 {
                edits(&m, &mut |x| {
                    let mut longest = 0;
                    x.each(&mut |m| if let M::Obj(v) = m { longest = v.iter().map(|(k, _)| k.len()).fold(longest, usize::max) });
                    if r.is_ok() && longest <= 65535 {
                        k += 1;
                        r = build::doc(&x).and_then(|z| compare(&y, &z, x.keyed() == key)).map_err(|e| format!("with {}: {e}", x.show()));
                    }
                });
            } else {
                for place in [0usize, usize::MAX] {
                    let mut x = m.clone();
                    if change(&mut x, place) {
                        k += 2;
                        let z = build::doc(&x)?;
                        let want = x.keyed() == key;
                        compare(&y, &z, want).and_then(|_| compare(&z, &y, want)).map_err(|e| format!("with {}: {e}", x.show()))?;
                    }
                }
            }
            st.step(k);
            r
        })
    }));

    c.family("documents against every document one change away");
    let mut docs: Vec<M> = gen::small_vec(c.pick(4, 5));
    docs.extend(r.iter().flat_map(gen::contexts));
    docs.extend(gen::far());
    let w = c.pick(130, 300);
    for k in gen::WIDTHS.iter().filter(|k| **k <= w) {
        docs.push(gen::wide(*k, 3));
        docs.push(gen::wide_obj(*k, 3));
        docs.push(gen::wide(*k, 1));
        docs.push(gen::wide_obj(*k, 0));
    }
    for d in [2, 3, 10, 50, 99] {
        docs.extend(gen::deep(d, s("leaf")));
        docs.extend(gen::deep(d, n(10)));
    }
    for m in &docs {
        c.case(|| format!("{} against its neighbours", m.show()), |st| {
            let y = build::doc(m)?;
            st.state(m.hash());
            let key = m.keyed();
            compare_all(&y, &build::owned(m, ORDERS[1]).map_err(|e| e.to_string())?, true)?;
            compare_all(&fresh(bnf::encode(m, bnf::Layout::some()[1])), &y, true)?;
            let mut bad = None;
            let mut count = 0;
            edits(m, &mut |x| {
                if bad.is_some() {
                    return;
                }
                count += 2;
                let r = (|| {
                    let z = build::doc(&x)?;
                    let want = x.keyed() == key;
                    compare_all(&y, &z, want)?;
                    compare_all(&z, &y, want)
                })();
                if let Err(e) = r {
                    bad = Some(format!("with {}: {e}", x.show()));
                }
            });
            st.step(count);
            st.outcome("neighbours");
            bad.map_or(Ok(()), Err)
        });
    }
}

/// Changes the byte at `place` (the last for `usize::MAX`) of the last string long enough to have one.
fn change(m: &mut M, place: usize) -> bool {
    match m {
        M::Str(t) if !t.is_empty() && t.is_ascii() && (t.len() > place || place == usize::MAX) => {
            let at = place.min(t.len() - 1);
            t.replace_range(at..at + 1, "!");
            true
        }
        M::Arr(v) => v.iter_mut().rev().any(|m| change(m, place)),
        M::Obj(v) => v.iter_mut().rev().any(|(_, m)| change(m, place)),
        _ => false,
    }
}

/// Objects in which keys may repeat. The same pushes give equal objects, other entries give unequal ones; whether the
/// same entries pushed in another order are equal is left open where a key repeats with different values, but the
/// answer is the same both ways around.
fn c10_repeats(c: &mut Ctx) {
    let ks = ["a", "b", "aa"];
    let len = c.pick(3, 4);
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..len {
        let to = lists.len();
        for i in from..to {
            for e in 0..6 {
                let mut l = lists[i].clone();
                l.push(e);
                lists.push(l);
            }
        }
        from = to;
    }
    let model = |l: &[usize]| M::Obj(l.iter().map(|e| (ks[e % 3].to_string(), n((e / 3) as i64))).collect());
    for place in 0..3 {
        let name = ["alone", "as an element", "as a member"][place];
        c.family(&format!("every pair of objects of up to {len} entries over {} keys with repetitions and 2 values, {name}", ks.len()));
        let put = |m: M| match place {
            0 => m,
            1 => M::Arr(vec![n(1), m, M::Null]),
            _ => M::Obj(vec![("o".into(), m), ("n".into(), M::Null)]),
        };
        let docs: Vec<YasonBuf> = match lists.iter().map(|l| build::doc(&put(model(l)))).collect::<Result<_, _>>() {
            Ok(d) => d,
            Err(e) => {
                c.case(|| "building objects with repeated keys".into(), |_| Err(e));
                return;
            }
        };
        let sorted = |l: &[usize]| {
            let mut l = l.to_vec();
            l.sort();
            l
        };
        for (i, a) in lists.iter().enumerate() {
            c.case(|| format!("{} ({name}) and {} others", model(a).show(), lists.len()), |st| {
                let k = sorted(a);
                // values of each key in the order of the pushes
                let by_key = |l: &[usize]| (0..3).map(|k| l.iter().copied().filter(|e| e % 3 == k).collect::<Vec<_>>()).collect::<Vec<_>>();
                let entries = by_key(a);
                for (j, b) in lists.iter().enumerate() {
                    let at = |e: String| format!("with {}: {e}", model(b).show());
                    if i == j {
                        compare_all(&docs[i], &build::doc(&put(model(b)))?, true).map_err(at)?;
                    } else if b.len() != a.len() || sorted(b) != k {
                        compare(&docs[i], &docs[j], false).map_err(at)?;
                    } else if entries.iter().all(|v| v.windows(2).all(|w| w[0] == w[1])) {
                        // any one key has one value only: the order of the pushes cannot show
                        compare(&docs[i], &docs[j], true).map_err(at)?;
                    } else {
                        let x = docs[i].equals(&docs[j]).map_err(|e| at(format!("equals fails: {e}")))?;
                        let y = docs[j].equals(&docs[i]).map_err(|e| at(format!("equals fails: {e}")))?;
                        ensure!(x == y, "with {}: equals gives {x} one way and {y} the other", model(b).show());
                    }
                }
                st.step(lists.len() as u64);
                st.outcome("repeated keys");
                Ok(())
            });
        }
    }
}

/// A string of `len` bytes without a period that a chunk could hide.
fn aperiodic(len: usize) -> Vec<u8> {
    let mut x = 0x2545_f491u32;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            b'a' + (x % 23) as u8
        })
        .collect()
}

/// Strings, keys and numbers of any length against the same with one byte changed anywhere.
fn c10_long(c: &mut Ctx) {
    c.family("strings and keys against those with one byte changed at any place");
    let mut lens: Vec<usize> = (1..=c.pick(70, 300)).collect();
    lens.extend([100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4095, 4096, 4097, 5000]);
    lens.extend([8192, 10000, 16383, 16384, 16385, 32767, 32768, 65534, 65535]);
    if !c.quick() {
        lens.extend([65536, 65537, 100_000, 131_072]);
    }
    lens.sort();
    lens.dedup();
    for len in lens {
        for place in 0..5 {
            if place >= 3 && len > 65535 || place == 4 && len > 5000 {
                continue;
            }
            let name = ["the string", "the only element", "the member k", "the only key", "the second of three keys"][place];
            c.case(|| format!("{name}: {len} bytes, one of them changed"), |st| {
                let bytes = aperiodic(len);
                let make = |b: &[u8]| {
                    let t = std::str::from_utf8(b).unwrap().to_string();
                    match place {
                        0 => M::Str(t),
                        1 => M::Arr(vec![M::Str(t)]),
                        2 => M::Obj(vec![("k".into(), M::Str(t))]),
                        3 => M::Obj(vec![(t, n(1))]),
                        _ => M::Obj(vec![("".into(), n(1)), (t, n(2)), ("z".repeat(len + 1), n(3))]),
                    }
                };
                let y = build::doc(&make(&bytes))?;
                compare_all(&y, &build::doc(&make(&bytes))?, true)?;
                // every place of short ones; every place near a power of two or the ends of long ones, and a stride
                let near = |i: usize| {
                    let d = |j: usize| i.abs_diff(j) <= 2;
                    i < 70 || len - i <= 70 || (5..18).any(|e| d(1 << e) || d(len - (1usize << e).min(len))) || i % 61 == 0
                };
                let many = if len <= 5000 { len } else { 0 };
                let mut k = 0;
                for i in (0..len).filter(|i| *i < many || near(*i)) {
                    // the first byte of a key would make another order, which is fine too
                    for to in [b'z', bytes[i] ^ 0x20, bytes[i] + 1] {
                        let mut b = bytes.clone();
                        b[i] = to;
                        let z = build::doc(&make(&b))?;
                        compare(&y, &z, false).map_err(|e| format!("byte {i} changed to {to:#x}: {e}"))?;
                        k += 1;
                        if len > 300 {
                            break;
                        }
                        compare(&z, &y, false).map_err(|e| format!("byte {i} changed to {to:#x}: {e}"))?;
                    }
                }
                st.step(k);
                st.outcome("one byte changed");
                Ok(())
            });
        }
    }
}

/// Containers of any two sizes, the smaller holding the first members of the larger.
fn c10_counts(c: &mut Ctx) {
    let mut sizes: Vec<usize> = (0..=c.pick(20, 40)).collect();
    sizes.extend([127, 128, 255, 256, 257, 258, 260, 264, 272, 511, 512, 513, 768, 1024, 4096, 4352]);
    sizes.extend([32767, 32768, 65279, 65280, 65281, 65535]);
    for obj in [false, true] {
        c.family(&format!("every pair of {} of different sizes with members in common", if obj { "objects" } else { "arrays" }));
        for kind in [0usize, 1] {
            let make = |k: usize, tail: usize| -> M {
                // with `tail`, the last members of the largest instead of the first
                let v = |i: usize| if kind == 0 { M::Null } else { n((i % 100) as i64) };
                let at = |i: usize| if tail > 0 { tail - k + i } else { i };
                if obj {
                    M::Obj((0..k).map(|i| (format!("{:05}", at(i)), v(at(i)))).collect())
                } else {
                    M::Arr((0..k).map(|i| v(at(i))).collect())
                }
            };
            for &a in &sizes {
                c.case(|| format!("{a} members (kind {kind}) against {} other sizes", sizes.len()), |st| {
                    let y = build::doc(&make(a, 0))?;
                    for &b in &sizes {
                        for tail in [0, a.max(b)] {
                            let (want, z) = (a == b, build::doc(&make(b, tail))?);
                            compare(&y, &z, want).map_err(|e| format!("with {b} members: {e}"))?;
                            compare(&z, &y, want).map_err(|e| format!("{b} members with this: {e}"))?;
                            st.step(2);
                        }
                    }
                    st.outcome("sizes");
                    Ok(())
                });
            }
        }
    }
}

// ---- C17 ------------------------------------------------------------------------------------------------

struct Paths(Vec<(Vec<pathref::St>, PathExpression, &'static str)>);

impl Paths {
    fn new() -> Paths {
        let list = ["$", "$.*", "$[*]", "$..k", "$.a", "$.k", "$..a", "$[0]", "$[last]", "$[*].*", "$.*.size()", "$.type()", "$[*].count()"];
        Paths(list.iter().map(|t| (pathref::parse(t).expect("harness path"), t.parse().unwrap(), *t)).collect())
    }
}

/// A document of its own that must denote `m`.
fn stands_alone(y: &Yason, m: &M, own: &YasonBuf, paths: &Paths, st: &mut Stats) -> R {
    let d = bnf::decode(y.as_bytes()).map_err(|e| format!("not a well-formed document: {e}"))?;
    ensure!(d.same(m), "denotes {} instead of {}", d.show(), m.show());
    read::doc(y, m)?;
    ensure!(matches!(y.equals(own), Ok(true)) && matches!(own.equals(y), Ok(true)), "not equal to the same document built afresh");
    for p in [false, true] {
        let (a, b) = (y.format(p).to_string(), own.format(p).to_string());
        ensure!(a == b, "formats as {} instead of {}", clip(&a, 300), clip(&b, 300));
    }
    for (_, p, t) in &paths.0 {
        let show = |y: &Yason| -> Result<Vec<M>, String> {
            match p.query(y, true, None, None).map_err(|e| format!("{t}: {e}"))? {
                QueriedValue::None => Ok(vec![]),
                QueriedValue::Values(v) => v.iter().map(read::model_of).collect(),
                _ => Err(format!("{t}: unexpected delivery")),
            }
        };
        let (a, b) = (show(y)?, show(own)?);
        ensure!(M::Arr(a).same(&M::Arr(b)), "{t} selects something else");
    }
    st.step(5 + paths.0.len() as u64);
    Ok(())
}

/// The bytes-for-bytes copies of a document.
fn copies(y: &Yason, st: &mut Stats) -> R {
    let b = y.as_bytes();
    let o = y.to_owned();
    ensure!(o.as_bytes() == b, "to_owned has other bytes");
    let t = y.to_yason_buf().map_err(|e| format!("to_yason_buf: {e}"))?;
    ensure!(t.as_bytes() == b, "to_yason_buf has other bytes");
    ensure!(t.clone().as_bytes() == b, "clone has other bytes");
    let mut over = o.clone();
    over.clone_from(&t);
    ensure!(over.as_bytes() == b, "clone_from has other bytes");
    let r: &Yason = t.as_ref();
    ensure!(r.as_bytes() == b, "as_ref has other bytes");
    let r: &Yason = std::borrow::Borrow::borrow(&t);
    ensure!(r.as_bytes() == b, "borrow has other bytes");
    ensure!(t.format(false).to_string() == y.format(false).to_string(), "the copy formats differently");
    st.step(6);
    Ok(())
}

fn part(v: &Value, m: &M, paths: &Paths, others: &[YasonBuf], st: &mut Stats) -> R {
    st.state(m.hash());
    let own = build::doc(m)?;
    // as encoded by try_to_yason into buffers with various contents
    for start in [0usize, 1, 9] {
        let mut buf = vec![0x5A; start];
        let y = v.try_to_yason(&mut buf).map_err(|e| format!("try_to_yason: {e}"))?;
        stands_alone(y, m, &own, paths, st).map_err(|e| format!("try_to_yason: {e}"))?;
        copies(y, st)?;
        for o in others {
            let mut o = o.clone();
            o.clone_from_yason(y);
            ensure!(o.as_bytes() == y.as_bytes(), "clone_from_yason has other bytes");
            st.step(1);
        }
        let again = Value::try_from(y).map_err(|e| format!("Value::try_from: {e}"))?;
        read::is(&again, m)?;
        read::is(&again.clone(), m)?;
        if m.is_container() {
            break;
        }
    }
    match v {
        Value::Object(o) => stands_alone(o.yason(), m, &own, paths, st)?,
        Value::Array(a) => stands_alone(a.yason(), m, &own, paths, st)?,
        _ => {}
    }
    Ok(())
}

type Todo<'a> = Vec<(String, Value<'a>, M)>;

fn children<'a>(v: &Value<'a>, m: &M, at: &str, out: &mut Todo<'a>) -> R {
    let e = |e: yason::YasonError| format!("{at}: {e}");
    match (v, m) {
        (Value::Array(a), M::Arr(ms)) => {
            let a: &Array<'a> = a;
            for (i, (v, m)) in a.iter().map_err(e)?.zip(ms).enumerate() {
                let here = format!("{at}[{i}]");
                let v = v.map_err(e)?;
                let g = a.get(i).map_err(e)?;
                same_part(&v, &g, &here)?;
                match m {
                    M::Arr(_) => same_part(&v, &Value::Array(a.array(i).map_err(e)?), &here)?,
                    M::Obj(_) => same_part(&v, &Value::Object(a.object(i).map_err(e)?), &here)?,
                    _ => {}
                }
                out.push((here, v, m.clone()));
            }
        }
        (Value::Object(o), M::Obj(ms)) => {
            let o: &Object<'a> = o;
            let vals: Vec<_> = o.value_iter().map_err(e)?.collect();
            for ((kv, v2), i) in o.iter().map_err(e)?.zip(vals).zip(crate::model::member_order(ms)) {
                let (k, v) = kv.map_err(e)?;
                let here = format!("{at}.{}", clip(k, 20));
                let g = o.get(k).map_err(e)?.ok_or("missing")?;
                same_part(&v, &g, &here)?;
                same_part(&v, &v2.map_err(e)?, &here)?;
                match &ms[i].1 {
                    M::Arr(_) => same_part(&v, &Value::Array(o.array(k).map_err(e)?.ok_or("missing")?), &here)?,
                    M::Obj(_) => same_part(&v, &Value::Object(o.object(k).map_err(e)?.ok_or("missing")?), &here)?,
                    _ => {}
                }
                out.push((here, v, ms[i].1.clone()));
            }
        }
        _ => {}
    }
    Ok(())
}

fn bytes<'v>(v: &'v Value) -> Option<&'v [u8]> {
    match v {
        Value::Object(o) => Some(o.yason().as_bytes()),
        Value::Array(o) => Some(o.yason().as_bytes()),
        _ => None,
    }
}

fn same_part(a: &Value, b: &Value, at: &str) -> R {
    ensure!(a.data_type() == b.data_type() && bytes(a) == bytes(b), "{at}: two ways to the part give different parts");
    Ok(())
}

fn parts(y: &Yason, m: &M, paths: &Paths, others: &[YasonBuf], st: &mut Stats) -> R {
    copies(y, st)?;
    let root = Value::try_from(y).map_err(|e| e.to_string())?;
    let mut todo: Todo = vec![("$".into(), root, m.clone())];
    while let Some((at, v, m)) = todo.pop() {
        part(&v, &m, paths, others, st).map_err(|e| format!("{}: {e}", clip(&at, 200)))?;
        children(&v, &m, &at, &mut todo)?;
    }
    // the parts the path language reaches
    for (p, e, t) in &paths.0 {
        let sel = pathref::eval(p, m);
        let err = |x: yason::YasonError| format!("{t}: {x}");
        let q = e.query(y, true, None, None).map_err(err)?;
        let vs = match &q {
            QueriedValue::None => vec![],
            QueriedValue::Values(v) => v.clone(),
            _ => return Err(format!("{t}: unexpected delivery")),
        };
        let want: Vec<M> = sel.iter().map(|s| s.model()).collect();
        ensure!(vs.len() == want.len(), "{t}: {} values instead of {}", vs.len(), want.len());
        for (v, m) in vs.iter().zip(&want) {
            part(v, m, paths, others, st).map_err(|e| format!("{t}: {e}"))?;
        }
        let mut rb = vec![7u8; 5];
        if let QueriedValue::Yason(r) = e.query(y, true, None, Some(&mut rb)).map_err(err)? {
            let want = M::Arr(want);
            if want.depth() <= 100 {
                stands_alone(r, &want, &build::doc(&want)?, paths, st).map_err(|e| format!("{t} as a document: {e}"))?;
            }
            copies(r, st)?;
        } else {
            ensure!(want.is_empty(), "{t}: no document");
        }
    }
    Ok(())
}

pub fn c17(c: &mut Ctx) {
    let paths = Paths::new();
    let others: Vec<YasonBuf> = [M::Null, s(&"long ".repeat(100)), M::Arr(vec![n(1), M::Obj(vec![("k".into(), s("v"))])])].iter().map(|m| build::doc(m).unwrap()).collect();
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(|| format!("parts of {}", mk().show()), |st| {
            let m = mk();
            st.outcome(m.ty().name());
            parts(&*build::doc(&m)?, &m, &paths, &others, st)
        });
    };
    let max = c.pick(4, 5);
    small(c, max, &mut |c, mk| run(c, mk));
    rich(c, &mut |c, mk| run(c, mk));
    let w = c.pick(130, 512);
    wide(c, w, &mut |c, mk| run(c, mk));
    let (l, k) = c.pick((600, 60), (4500, 200));
    sizes(c, l, 131072, k, &mut |c, mk| run(c, mk));
    giants(c, true, &mut |c, mk| run(c, mk));
    let keep = c.pick(3, 1);
    combos(c, &mut thin(keep, &mut |c, mk| run(c, mk)));
    c.family("nested chains");
    for d in [2usize, 3, 4, 10, 30, c.pick(50, 99)] {
        for m in gen::deep(d, M::Arr(vec![n(1), s("x"), M::Null])) {
            run(c, &|| m.clone());
        }
    }
    c.family("documents in other legal layouts");
    for m in gen::small_vec(c.pick(3, 4)).into_iter().chain(gen::rich().iter().flat_map(gen::contexts)).filter(|m| m.is_container()) {
        for l in bnf::Layout::some() {
            c.case(|| format!("parts of {} in layout {l:?}", m.show()), |st| {
                st.outcome("other layout");
                parts(&fresh(bnf::encode(&m, l)), &m, &paths, &others, st)
            });
        }
    }
}
