//! C03 the binary grammar in both directions, C04 determinism and the caller's buffer.
use super::*;
use crate::alloc;
use crate::bnf::{self, Layout};
use crate::build::{self, Order, ORDERS};
use crate::ctx::{clip, Stats, R};
use crate::ensure;
use crate::jsonref;
use crate::read;
use std::sync::atomic::Ordering::Relaxed;
use yason::{PathExpression, QueriedValue, Scalar, Value, Yason, YasonBuf};

fn hex(b: &[u8]) -> String {
    clip(&b.iter().map(|x| format!("{x:02x}")).collect::<String>(), 400)
}

fn sentence(what: &str, b: &[u8], m: &M) -> R {
    let d = bnf::decode(b).map_err(|e| format!("{what}: {e}; bytes {}", hex(b)))?;
    ensure!(d.same(m), "{what}: the bytes say {} instead of {}", d.show(), m.show());
    Ok(())
}

/// Everything the library produces for this document.
fn produced(m: &M, paths: &[PathExpression], json: bool, st: &mut Stats) -> R {
    let mut k = 0;
    let mut first: Option<YasonBuf> = None;
    for o in ORDERS {
        let y = build::owned(m, o).map_err(|e| format!("building {o:?}: {e}"))?;
        sentence(&format!("builders, {o:?}"), y.as_bytes(), m)?;
        let mut buf = vec![0x11; 3];
        let z = build::into(m, o, &mut buf).map_err(|e| format!("building {o:?}: {e}"))?;
        sentence(&format!("builders into a buffer, {o:?}"), z.as_bytes(), m)?;
        k += 2;
        first.get_or_insert(y);
    }
    let y = first.unwrap();
    if json && m.importable() {
        let text = jsonref::render(m);
        let p = YasonBuf::parse(&text).map_err(|e| format!("parsing {text}: {e}"))?;
        sentence("parse", p.as_bytes(), m)?;
        let mut buf = vec![];
        let p = Yason::parse_to(&mut buf, &text).map_err(|e| format!("parsing {text}: {e}"))?;
        sentence("parse_to", p.as_bytes(), m)?;
        k += 2;
    }
    let copy = y.to_yason_buf().map_err(|e| e.to_string())?;
    sentence("to_yason_buf", copy.as_bytes(), m)?;
    let mut other = Scalar::string("something longer than most documents").unwrap();
    other.clone_from_yason(&y);
    sentence("clone_from_yason", other.as_bytes(), m)?;
    // every part re-encoded
    parts(&y, m, &mut k)?;
    for (i, p) in paths.iter().enumerate() {
        let mut out = vec![];
        match p.query(&y, true, None, Some(&mut out)).map_err(|e| format!("query: {e}"))? {
            QueriedValue::None => {}
            QueriedValue::Yason(r) => {
                let d = bnf::decode(r.as_bytes()).map_err(|e| format!("result of {}: {e}; bytes {}", PATHS[i], hex(r.as_bytes())))?;
                ensure!(matches!(d, M::Arr(_)), "result of {} is not an array", PATHS[i]);
                if i == 0 {
                    ensure!(d.same(&M::Arr(vec![m.clone()])), "result of $ is {}", d.show());
                }
            }
            _ => return Err("query into a result buffer gives no yason".into()),
        }
        k += 1;
    }
    st.step(k + 2 * ORDERS.len() as u64 + 2);
    Ok(())
}

fn parts(y: &Yason, m: &M, k: &mut u64) -> R {
    let v = Value::try_from(y).map_err(|e| e.to_string())?;
    let mut buf = vec![0x77];
    buf.clear();
    let z = v.try_to_yason(&mut buf).map_err(|e| e.to_string())?;
    sentence("try_to_yason", z.as_bytes(), m)?;
    *k += 1;
    match (&v, m) {
        (Value::Array(a), M::Arr(ms)) if ms.len() < 50 => {
            for (i, m) in ms.iter().enumerate() {
                part(a.get(i).map_err(|e| e.to_string())?, m, k)?;
            }
        }
        (Value::Object(o), M::Obj(ms)) if ms.len() < 50 => {
            for (key, m) in ms {
                part(o.get(key).map_err(|e| e.to_string())?.ok_or("missing")?, m, k)?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn part(v: Value, m: &M, k: &mut u64) -> R {
    match &v {
        Value::Object(o) => parts(o.yason(), m, k),
        Value::Array(a) => parts(a.yason(), m, k),
        v => {
            let mut buf = vec![];
            let z = v.try_to_yason(&mut buf).map_err(|e| e.to_string())?;
            *k += 1;
            sentence("try_to_yason", z.as_bytes(), m)
        }
    }
}

/// A legal layout of the document is read as the document.
fn read_layout(m: &M, l: Layout, compact: &str, own: &YasonBuf, paths: &[PathExpression], answers: &[String], st: &mut Stats) -> R {
    let b = bnf::encode(m, l);
    let back = bnf::decode(&b).map_err(|e| format!("harness: own layout {l:?} is not decodable: {e}"))?;
    if !back.same(m) {
        return Err("harness: own layout decodes differently".into());
    }
    let y = unsafe { Yason::new_unchecked(&b) };
    let w = |e: String| format!("layout {l:?}, bytes {}: {e}", hex(&b));
    read::doc(y, m).map_err(w)?;
    let mut t = String::new();
    y.format_to(false, &mut t).map_err(|e| w(e.to_string()))?;
    ensure!(t == *compact, "layout {l:?}, bytes {}: formats as {t} instead of {compact}", hex(&b));
    ensure!(matches!(own.equals(y), Ok(true)) && matches!(y.equals(own), Ok(true)), "layout {l:?}, bytes {}: not equal to the built document", hex(&b));
    for (i, p) in paths.iter().enumerate() {
        let r = query_text(p, y).map_err(w)?;
        ensure!(r == answers[i], "layout {l:?}, bytes {}: {} gives {r} instead of {}", hex(&b), PATHS[i], answers[i]);
    }
    st.step(m.nodes() as u64 + 4);
    Ok(())
}

fn query_text(p: &PathExpression, y: &Yason) -> Result<String, String> {
    let mut t = String::new();
    p.query(y, true, None, None).map_err(|e| e.to_string())?.format_to(false, &mut t).map_err(|e| e.to_string())?;
    Ok(t)
}

fn max_width(m: &M) -> usize {
    let mut w = 0;
    m.each(&mut |m| match m {
        M::Arr(v) => w = w.max(v.len()),
        M::Obj(v) => w = w.max(v.len()),
        _ => {}
    });
    w
}

fn factorial(n: usize) -> usize {
    (1..=n).product::<usize>().max(1)
}

fn has_number(m: &M) -> bool {
    let mut y = false;
    m.each(&mut |m| y |= matches!(m, M::Num(_)));
    y
}

fn layouts(m: &M, paths: &[PathExpression], st: &mut Stats) -> R {
    let own = build::doc(m)?;
    let mut compact = String::new();
    own.format_to(false, &mut compact).map_err(|e| e.to_string())?;
    let answers: Vec<String> = paths.iter().map(|p| query_text(p, &own)).collect::<Result<_, _>>()?;
    let w = max_width(m);
    // a few permutations of large containers (the number counts through the factorial number system)
    let perms: Vec<usize> = if w <= 5 { (0..factorial(w)).collect() } else { vec![0, 1, 2, 5, 23, 119, 5039, usize::MAX] };
    for perm in perms {
        for long_numbers in [false, true] {
            if long_numbers && !has_number(m) {
                continue;
            }
            read_layout(m, Layout { perm, long_numbers }, &compact, &own, paths, &answers, st)?;
        }
    }
    Ok(())
}

const PATHS: [&str; 8] = ["$", "$.a", "$.*", "$[*]", "$[last]", "$..a", "$.*.*", "$[*].type()"];

pub fn c03(c: &mut Ctx) {
    let paths: Vec<PathExpression> = PATHS.iter().map(|p| p.parse().unwrap()).collect();
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(
            || format!("bytes of {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                produced(&m, &paths, true, st)?;
                st.outcome(m.ty().name());
                Ok(())
            },
        );
    };
    let max = c.pick(4, 5);
    small(c, max, &mut |c, mk| run(c, mk));
    rich(c, &mut |c, mk| run(c, mk));
    let w = c.pick(1000, 65535);
    wide(c, w, &mut |c, mk| run(c, mk));
    c.family("largest element counts");
    for m in [3usize, 0].map(|k| gen::wide(65535, k)).into_iter().chain([gen::wide_obj(65535, 3), gen::wide_obj(40000, 2)]) {
        run(c, &|| m.clone());
    }
    deep(c, &mut |c, mk| run(c, mk));
    let (l, k) = c.pick((2200, 200), (9000, 1000));
    sizes(c, l, 262144, k, &mut |c, mk| run(c, mk));
    giants(c, true, &mut |c, mk| run(c, mk));
    combos(c, &mut |c, mk| run(c, mk));

    let lay = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(
            || format!("layouts of {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                layouts(&m, &paths, st)?;
                st.outcome("every layout");
                Ok(())
            },
        );
    };
    c.family("every storage order of every small document");
    let max = c.pick(5, 6);
    gen::small(max, &mut |mk| {
        // the listing order is irrelevant here: one representative per document
        if c.wants() {
            let m = mk();
            if m != m.canonical() {
                c.skip();
                return;
            }
        }
        lay(c, mk)
    });
    c.family("storage orders of values of every encoding class");
    let r = gen::rich();
    for a in &r {
        for b in &r {
            lay(c, &|| M::Arr(vec![a.clone(), b.clone(), n(3)]));
            lay(c, &|| M::Obj(vec![("y".into(), a.clone()), ("x".into(), b.clone()), ("xx".into(), s("t"))]));
        }
    }
    for v in gen::numbers() {
        lay(c, &|| M::Num(v));
        lay(c, &|| M::Arr(vec![M::Num(v), n(1)]));
        lay(c, &|| M::Obj(vec![("b".into(), M::Num(v)), ("a".into(), M::Num(v))]));
    }
    for m in gen::far() {
        lay(c, &|| m.clone());
    }
    for m in (2..60).flat_map(|w| [gen::wide(w, 3), gen::wide_obj(w, 3)]) {
        lay(c, &|| m.clone());
    }
    for l in gen::long_strings() {
        lay(c, &|| M::Arr(vec![s(&l), M::Obj(vec![("k".into(), s(&l)), ("j".into(), n(1))]), s("t")]));
    }
    for d in [2, 5, 50, 100] {
        for m in gen::deep(d, n(1)) {
            lay(c, &|| m.clone());
        }
    }
}

// ---- C04 -----------------------------------------------------------------------------------------------

struct Poison(u8);
impl Poison {
    fn set(p: u8) -> Poison {
        Poison(alloc::POISON.swap(p, Relaxed))
    }
}
impl Drop for Poison {
    fn drop(&mut self) {
        alloc::POISON.store(self.0, Relaxed);
    }
}

/// A buffer holding `prefix` bytes and `spare` capacity whose unused part holds `stale`.
fn buffer(prefix: usize, spare: usize, stale: u8) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(prefix + spare);
    v.resize(prefix + spare, stale);
    for (i, b) in v[..prefix].iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(37) ^ 0x5c;
    }
    v.truncate(prefix);
    v
}

fn prefix_kept(buf: &[u8], prefix: usize) -> bool {
    buf[..prefix] == buffer(prefix, 0, 0)[..]
}

#[derive(Clone, Copy)]
struct Env {
    prefixes: &'static [usize],
    spares: &'static [usize],
    fills: &'static [u8],
}

const FULL: Env = Env { prefixes: &[0, 1, 2, 3, 4, 7, 100], spares: &[0, 1, 3, 6, 11, 40, 127, 4096], fills: &[0x00, 0xFF, 0x5A, 0x01] };
const SOME: Env = Env { prefixes: &[0, 5], spares: &[0, 11, 4096], fills: &[0x00, 0xFF] };

fn determinism(m: &M, env: Env, orders: &[Order], json: bool, st: &mut Stats) -> R {
    let mut k = 0;
    for &o in orders {
        let first = build::owned(m, o).map_err(|e| e.to_string())?;
        let first = first.as_bytes();
        for &fill in env.fills {
            let _p = Poison::set(fill);
            let again = build::owned(m, o).map_err(|e| e.to_string())?;
            ensure!(again.as_bytes() == first, "{o:?}, fresh memory filled with {fill:#x}: {} instead of {}", hex(again.as_bytes()), hex(first));
            k += 1;
            for &prefix in env.prefixes {
                for spare in env.spares.iter().copied().chain([first.len(), first.len() + 1, first.len() - 1]) {
                    let mut buf = buffer(prefix, spare, fill);
                    let out = build::into(m, o, &mut buf).map_err(|e| e.to_string())?.as_bytes().to_vec();
                    let how = || format!("{o:?}, into a buffer of {prefix} bytes with {spare} spare bytes of {fill:#x}");
                    ensure!(out == first, "{}: {} instead of {}", how(), hex(&out), hex(first));
                    ensure!(prefix_kept(&buf, prefix), "{}: earlier bytes changed", how());
                    ensure!(buf[prefix..] == out[..], "{}: the result is not what was appended", how());
                    k += 1;
                }
            }
        }
    }
    if json && m.importable() {
        let text = jsonref::render(m);
        let first = YasonBuf::parse(&text).map_err(|e| e.to_string())?;
        let first = first.as_bytes();
        for &fill in env.fills {
            let _p = Poison::set(fill);
            let again = YasonBuf::parse(&text).map_err(|e| e.to_string())?;
            ensure!(again.as_bytes() == first, "parse, fresh memory filled with {fill:#x}: {} instead of {}", hex(again.as_bytes()), hex(first));
            for &prefix in env.prefixes {
                for spare in [0usize, 1, 11, first.len(), 4096] {
                    let mut buf = buffer(prefix, spare, fill);
                    let out = Yason::parse_to(&mut buf, &text).map_err(|e| e.to_string())?.as_bytes().to_vec();
                    let how = || format!("parse_to into a buffer of {prefix} bytes with {spare} spare bytes of {fill:#x}");
                    ensure!(out == first, "{}: {} instead of {}", how(), hex(&out), hex(first));
                    ensure!(prefix_kept(&buf, prefix), "{}: earlier bytes changed", how());
                    ensure!(buf[prefix..] == out[..], "{}: the result is not what was appended", how());
                    k += 1;
                }
            }
        }
    }
    // every value of the document taken out and encoded alone
    let doc = build::doc(m)?;
    let v = Value::try_from(doc.as_ref()).map_err(|e| e.to_string())?;
    if m.nodes() < 20 {
        parts_alone(&v, m, env, true, &mut k)?;
    }
    st.step(k);
    Ok(())
}

fn parts_alone(v: &Value, m: &M, env: Env, root: bool, k: &mut u64) -> R {
    let e = |e: yason::YasonError| e.to_string();
    let alone = build::doc(m)?;
    let same = alone.as_bytes();
    for &fill in env.fills {
        for &prefix in env.prefixes {
            for spare in env.spares.iter().copied().chain([same.len(), same.len() - 1]) {
                let mut buf = buffer(prefix, spare, fill);
                let out = v.try_to_yason(&mut buf).map_err(e)?.as_bytes().to_vec();
                let how = || format!("{} taken out, try_to_yason with a buffer of {prefix} bytes and {spare} spare bytes of {fill:#x}", m.show());
                // the part of a document need not store its members as a document built afresh does
                ensure!(out == same || (m.is_container() && !root), "{}: {} instead of {}", how(), hex(&out), hex(same));
                ensure!(buf.len() >= prefix && prefix_kept(&buf, prefix), "{}: earlier bytes changed", how());
                ensure!(buf.len() == prefix || buf[prefix..] == out[..], "{}: the result is not what was appended", how());
                *k += 1;
            }
        }
    }
    match (v, m) {
        (Value::Array(a), M::Arr(ms)) => {
            for (i, m) in ms.iter().enumerate() {
                parts_alone(&a.get(i).map_err(e)?, m, env, false, k)?;
            }
        }
        (Value::Object(o), M::Obj(ms)) => {
            for (key, m) in ms {
                parts_alone(&o.get(key).map_err(e)?.ok_or("missing")?, m, env, false, k)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// Several documents one after another in one buffer.
fn appended(ms: &[M], st: &mut Stats) -> R {
    let mut buf = vec![];
    let mut ends = vec![];
    for m in ms {
        build::into(m, Order::Listed, &mut buf).map_err(|e| e.to_string())?;
        ends.push(buf.len());
        Yason::parse_to(&mut buf, jsonref::render(m)).map_err(|e| e.to_string())?;
        ends.push(buf.len());
    }
    let mut from = 0;
    for (i, to) in ends.into_iter().enumerate() {
        let want = if i % 2 == 0 {
            build::doc(&ms[i / 2])?
        } else {
            YasonBuf::parse(jsonref::render(&ms[i / 2])).map_err(|e| e.to_string())?
        };
        ensure!(buf[from..to] == *want.as_bytes(), "document {i} of the sequence: {} instead of {}", hex(&buf[from..to]), hex(want.as_bytes()));
        from = to;
        st.step(1);
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) {
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M, env: Env, orders: &[Order]| {
        c.case(
            || format!("encode {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                determinism(&m, env, orders, true, st)?;
                st.outcome(m.ty().name());
                Ok(())
            },
        );
    };
    let (full, some) = c.pick((3, 4), (4, 5));
    small(c, full, &mut |c, mk| run(c, mk, FULL, &[Order::Listed, Order::Sorted]));
    c.family(&format!("all documents of up to {some} nodes, fewer buffers"));
    gen::small(some, &mut |mk| run(c, mk, SOME, &[Order::Listed, Order::Sorted]));
    let mut r = gen::rich();
    r.extend(gen::long_strings().into_iter().map(M::Str));
    list(c, "every encoding class, all buffers", r, &mut |c, mk| run(c, mk, FULL, &[Order::Listed]));
    rich(c, &mut |c, mk| run(c, mk, SOME, &ORDERS));
    let w = c.pick(300, 65535);
    wide(c, w, &mut |c, mk| run(c, mk, SOME, &[Order::Listed, Order::Sorted]));
    deep(c, &mut |c, mk| run(c, mk, SOME, &[Order::Listed]));
    let (l, k) = c.pick((700, 100), (4500, 400));
    sizes(c, l, 131072, k, &mut |c, mk| run(c, mk, SOME, &[Order::Listed]));
    giants(c, true, &mut |c, mk| run(c, mk, SOME, &[Order::Listed]));
    combos(c, &mut |c, mk| run(c, mk, SOME, &[Order::Listed]));
    c04_refused(c);
    c.family("sequences of documents in one buffer");
    let ms = gen::rich();
    for a in &ms {
        for b in &ms {
            c.case(|| format!("{} after {}", b.show(), a.show()), |st| {
                st.outcome("sequence");
                appended(&[a.clone(), b.clone(), a.clone()], st)
            });
        }
    }
}

// encodings that are refused or abandoned

const REFUSED: [&str; 9] = [
    "a finish with too few elements",
    "a push beyond the declared count",
    "a key that is too long",
    "a nested builder dropped, then a finish",
    "a builder dropped",
    "a finish below an unfinished object",
    "nesting too deep",
    "a number out of range in a JSON text",
    "a text cut short",
];

/// Drives the buffer into a refusal; the result says whether it was refused.
fn refusal(kind: usize, m: &M, buf: &mut Vec<u8>) -> Result<bool, String> {
    use yason::{ArrayRefBuilder, ObjectRefBuilder};
    let e = |x: yason::BuildError| x.to_string();
    let long = "k".repeat(65536);
    Ok(match kind {
        0 => {
            let mut b = ArrayRefBuilder::try_new(buf, 3).map_err(e)?;
            build::fill_arr(&mut b, std::slice::from_ref(m), Order::Listed).map_err(e)?;
            b.finish().is_err()
        }
        1 => {
            let mut b = ArrayRefBuilder::try_new(buf, 1).map_err(e)?;
            build::fill_arr(&mut b, std::slice::from_ref(m), Order::Listed).map_err(e)?;
            b.push_string("one too many").is_err()
        }
        2 => {
            let mut b = ObjectRefBuilder::try_new(buf, 2, false).map_err(e)?;
            build::fill_obj(&mut b, &[("k".to_string(), m.clone())], Order::Listed).map_err(e)?;
            b.push_string(&long, "value").is_err()
        }
        3 => {
            let mut b = ArrayRefBuilder::try_new(buf, 1).map_err(e)?;
            {
                let mut i = b.push_array(2).map_err(e)?;
                build::fill_arr(&mut i, std::slice::from_ref(m), Order::Listed).map_err(e)?;
            }
            b.finish().is_err()
        }
        4 => {
            let mut b = ObjectRefBuilder::try_new(buf, 2, false).map_err(e)?;
            build::fill_obj(&mut b, &[("k".to_string(), m.clone())], Order::Listed).map_err(e)?;
            true
        }
        5 => {
            let mut b = ObjectRefBuilder::try_new(buf, 2, true).map_err(e)?;
            {
                let mut i = b.push_object("a", 1, true).map_err(e)?;
                i.push_null("x").map_err(e)?;
            }
            b.finish().is_err()
        }
        6 => {
            let text = format!("{}{}{}", "[".repeat(101), jsonref::render(m), "]".repeat(101));
            Yason::parse_to(buf, text).is_err()
        }
        7 => Yason::parse_to(buf, format!("[{},1e126]", jsonref::render(m))).is_err(),
        _ => {
            let t = format!("{{\"k\":{}", jsonref::render(m));
            Yason::parse_to(buf, t).is_err()
        }
    })
}

pub fn c04_refused(c: &mut Ctx) {
    use crate::props::json::words;
    c.family("encodings that are refused or abandoned, then another document in the same buffer");
    let mut ms = gen::rich();
    ms.extend(gen::small_canonical(3));
    for m in ms.iter().filter(|m| m.importable() && m.depth() < 90) {
        for (kind, name) in REFUSED.iter().enumerate() {
            c.case(
                || format!("{name}: {}", m.show()),
                |st| {
                    let next = build::doc(m)?;
                    for &prefix in FULL.prefixes {
                        for spare in [0usize, 1, 11, 40, 4096, 1 << 17] {
                            let mut buf = buffer(prefix, spare, 0x5A);
                            let how = || format!("in a buffer of {prefix} bytes with {spare} spare bytes");
                            ensure!(refusal(kind, m, &mut buf)?, "not refused");
                            ensure!(buf.len() >= prefix && prefix_kept(&buf, prefix), "{}: earlier bytes changed", how());
                            let before = buf.clone();
                            let out = build::into(m, Order::Listed, &mut buf).map_err(|e| e.to_string())?.as_bytes().to_vec();
                            ensure!(out == next.as_bytes(), "{}: the next document is {} instead of {}", how(), hex(&out), hex(next.as_bytes()));
                            ensure!(buf.starts_with(&before) && buf[before.len()..] == out[..], "{}: the next document is not what was appended", how());
                            st.step(2);
                        }
                    }
                    st.outcome("refused, then accepted");
                    Ok(())
                },
            );
        }
    }
    let toks = ["[", "]", "{", "}", ",", ":", "1", "1e126", "\"a\"", "null", "tru", "\u{1}"];
    let upto = c.pick(4, 5);
    c.family(&format!("every JSON text of up to {upto} of the tokens {toks:?}, into buffers with earlier bytes"));
    words(&toks, upto, &mut |t| {
        c.case(
            || format!("parse {t:?} behind earlier bytes"),
            |st| {
                let alone = YasonBuf::parse(t).map(|y| y.as_bytes().to_vec()).ok();
                for (prefix, spare) in [(1usize, 0usize), (7, 0), (3, 300), (100, 20)] {
                    let mut buf = buffer(prefix, spare, 0x5A);
                    let out = Yason::parse_to(&mut buf, t).map(|y| y.as_bytes().to_vec()).ok();
                    ensure!(out == alone, "behind {prefix} bytes: {out:?} instead of {alone:?}");
                    ensure!(buf.len() >= prefix && prefix_kept(&buf, prefix), "behind {prefix} bytes: earlier bytes changed");
                    if let Some(o) = &out {
                        ensure!(buf[prefix..] == o[..], "behind {prefix} bytes: the result is not what was appended");
                    }
                    st.step(1);
                }
                st.outcome(if alone.is_some() { "text accepted" } else { "text refused" });
                Ok(())
            },
        );
    });
}
