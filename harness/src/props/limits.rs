//! C06 the nesting limit, C16 the limits of lengths, counts and sizes.
use super::*;
use crate::bnf;
use crate::build::{self, Order, AB, OB};
use crate::ctx::{Stats, R};
use crate::ensure;
use crate::jsonref;
use crate::model::Nm;
use crate::read;
use crate::sys::zeros_str;
use yason::{ArrayBuilder, BuildError, ObjectBuilder, PathExpression, QueriedValue, Scalar, Value, Yason, YasonBuf, YasonError};

const LIMIT: usize = 100;

type Built = Result<YasonBuf, BuildError>;

/// The model as a JSON value tree.
pub fn tree(m: &M) -> serde_json::Value {
    use serde_json::Value as V;
    match m {
        M::Null => V::Null,
        M::Bool(b) => V::Bool(*b),
        M::Num(v) => serde_json::from_str(&jsonref::num_text(*v)).expect("harness: number"),
        M::Str(v) => V::String(v.clone()),
        M::Arr(v) => V::Array(v.iter().map(tree).collect()),
        M::Obj(v) => V::Object(v.iter().map(|(k, m)| (k.clone(), tree(m))).collect()),
    }
}

pub fn routes(m: &M) -> Vec<(&'static str, Built)> {
    let text = jsonref::render(m);
    let mut out = vec![
        ("owned builders", build::owned(m, Order::Listed)),
        ("owned builders, sorted", build::owned(m, Order::Sorted)),
    ];
    let mut buf = vec![1, 2, 3];
    out.push(("builders into a buffer", build::into(m, Order::Reversed, &mut buf).map(|y| y.to_owned())));
    out.push(("parse", YasonBuf::parse(&text)));
    let mut buf = vec![1, 2, 3];
    out.push(("parse_to", Yason::parse_to(&mut buf, &text).map(|y| y.to_owned())));
    out.push(("JSON value", YasonBuf::try_from(&tree(m))));
    out
}

fn nested(e: &BuildError) -> bool {
    matches!(e, BuildError::NestedTooDeeply)
}

/// Every use of a document of the allowed depth.
fn usable(y: &Yason, m: &M, st: &mut Stats) -> R {
    read::doc(y, m)?;
    let text = {
        let mut t = String::new();
        y.format_to(false, &mut t).map_err(|e| format!("compact: {e}"))?;
        t
    };
    jsonref::parse(&text)?.is(m).map_err(|e| format!("compact: {e}"))?;
    let mut t = String::new();
    y.format_to(true, &mut t).map_err(|e| format!("pretty: {e}"))?;
    jsonref::parse(&t)?.is(m).map_err(|e| format!("pretty: {e}"))?;
    ensure!(format!("{}", y.format(true)) == t, "pretty Display differs");
    ensure!(format!("{}", y.format(false)) == text, "compact Display differs");
    let copy = y.to_owned();
    ensure!(matches!(y.equals(&copy), Ok(true)), "not equal to its copy");
    ensure!(copy == y.to_yason_buf().map_err(|e| e.to_string())?, "copies differ");
    // down to the innermost value along the first elements
    let mut path = String::from("$");
    let mut cur = m;
    let mut levels = 0;
    loop {
        cur = match cur {
            M::Arr(v) if !v.is_empty() => {
                path.push_str("[0]");
                &v[0]
            }
            M::Obj(v) if !v.is_empty() => {
                path.push_str(&format!(".\"{}\"", v[0].0));
                &v[0].1
            }
            _ => break,
        };
        levels += 1;
    }
    for p in [path.as_str(), "$", "$..k", "$.*", "$[*]"] {
        let p: PathExpression = p.parse().map_err(|e| format!("{p}: {e}"))?;
        let mut buf = vec![];
        let r = p.query(y, true, None, Some(&mut buf)).map_err(|e| format!("query: {e}"))?;
        let mut t = String::new();
        r.format_to(true, &mut t).map_err(|e| format!("formatting a query result: {e}"))?;
        let mut list = vec![];
        let r = p.query(y, true, Some(&mut list), None).map_err(|e| format!("query: {e}"))?;
        let mut u = String::new();
        r.format_to(true, &mut u).map_err(|e| format!("formatting a query result: {e}"))?;
        ensure!(t == u, "query results differ");
        let some = !matches!(r, QueriedValue::None);
        ensure!(matches!(p.exists(y), Ok(b) if b == some), "exists differs from query");
    }
    let p: PathExpression = path.parse().unwrap();
    match p.query(y, false, None, None).map_err(|e| e.to_string())? {
        QueriedValue::Value(v) => read::value(&v, cur).map_err(|e| format!("{levels} levels down: {e}"))?,
        _ => return Err(format!("{path} selects nothing")),
    }
    st.step(20 + m.nodes() as u64);
    Ok(())
}

/// The document is accepted by every route exactly when it nests at most 100 deep.
fn limit(m: &M, st: &mut Stats) -> R {
    let depth = m.depth();
    st.state(m.hash());
    for (route, r) in routes(m) {
        st.step(1);
        match r {
            Ok(y) => {
                ensure!(depth <= LIMIT, "{route}: depth {depth} accepted");
                ensure!(bnf::decode(y.as_bytes()).is_ok_and(|d| d.same(m)), "{route}: other document");
                if route == "owned builders" || route == "parse" {
                    usable(&y, m, st).map_err(|e| format!("{route}: {e}"))?;
                }
                st.outcome("accepted");
            }
            Err(e) => {
                ensure!(depth > LIMIT, "{route}: depth {depth} refused with {e:?}");
                // the JSON reader has a limit of its own, above this one
                let own = route.starts_with("parse") && depth > 127 && matches!(e, BuildError::JsonError(_));
                ensure!(nested(&e) || own, "{route}: depth {depth} refused with {e:?}");
                st.outcome("refused");
            }
        }
    }
    Ok(())
}

/// Builds step by step: down to level 100 along the pattern, there both kinds of nesting are refused twice, scalars
/// are pushed instead, and on the way up one level gets a second branch that must reach exactly as deep.
struct Climb<'p> {
    pattern: &'p dyn Fn(usize) -> bool,
    second: usize,
    refusals: usize,
    st: &'p mut Stats,
}

impl Climb<'_> {
    fn refused<T>(&mut self, r: Result<T, BuildError>) -> R {
        self.refusals += 1;
        self.st.step(1);
        match r {
            Err(BuildError::NestedTooDeeply) => Ok(()),
            Err(e) => Err(format!("level 101 refused with {e:?}")),
            Ok(_) => Err("level 101 accepted".into()),
        }
    }
    fn arr(&mut self, b: &mut dyn AB, level: usize, branch: bool) -> Result<M, String> {
        let e = |e: BuildError| format!("level {level}: {e:?}");
        if level == LIMIT {
            for count in [0, 2] {
                let r = b.ar(count).map(drop);
                self.refused(r)?;
                let r = b.ob(count, count == 0).map(drop);
                self.refused(r)?;
            }
            b.num(&Nm::int(7).number()).map_err(e)?;
            let r = b.ar(1).map(drop);
            self.refused(r)?;
            b.st("top").map_err(e)?;
            return Ok(M::Arr(vec![n(7), s("top")]));
        }
        let mut out = vec![];
        for turn in 0..2 {
            if turn == 1 && !(branch && level == self.second) {
                b.boo(true).map_err(e)?;
                out.push(M::Bool(true));
                continue;
            }
            out.push(if (self.pattern)(level) {
                let mut c = b.ob(2, false).map_err(e)?;
                let m = self.obj(&mut c, level + 1, branch && turn == 0)?;
                c.finish().map_err(e)?;
                m
            } else {
                let mut c = b.ar(2).map_err(e)?;
                let m = self.arr(&mut c, level + 1, branch && turn == 0)?;
                c.finish().map_err(e)?;
                m
            });
        }
        Ok(M::Arr(out))
    }
    fn obj(&mut self, b: &mut dyn OB, level: usize, branch: bool) -> Result<M, String> {
        let e = |e: BuildError| format!("level {level}: {e:?}");
        if level == LIMIT {
            for count in [0, 2] {
                let r = b.ar("z", count).map(drop);
                self.refused(r)?;
                let r = b.ob("z", count, count == 0).map(drop);
                self.refused(r)?;
            }
            b.num("z", &Nm::int(7).number()).map_err(e)?;
            let r = b.ob("y", 1, false).map(drop);
            self.refused(r)?;
            b.st("y", "top").map_err(e)?;
            return Ok(M::Obj(vec![("z".into(), n(7)), ("y".into(), s("top"))]));
        }
        let mut out = vec![];
        for (turn, key) in ["n", "m"].into_iter().enumerate() {
            if turn == 1 && !(branch && level == self.second) {
                b.boo(key, true).map_err(e)?;
                out.push((key.to_string(), M::Bool(true)));
                continue;
            }
            let m = if (self.pattern)(level) {
                let mut c = b.ob(key, 2, false).map_err(e)?;
                let m = self.obj(&mut c, level + 1, branch && turn == 0)?;
                c.finish().map_err(e)?;
                m
            } else {
                let mut c = b.ar(key, 2).map_err(e)?;
                let m = self.arr(&mut c, level + 1, branch && turn == 0)?;
                c.finish().map_err(e)?;
                m
            };
            out.push((key.to_string(), m));
        }
        Ok(M::Obj(out))
    }
}

const PERIODS: [(usize, usize); 8] = [(0, 1), (1, 1), (1, 2), (2, 2), (1, 3), (3, 3), (4, 3), (6, 3)];

pub fn c06(c: &mut Ctx) {
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(
            || {
                let m = mk();
                format!("nesting depth {}: {}", m.depth(), m.show())
            },
            |st| limit(&mk(), st),
        );
    };
    c.family("chains of every pattern of period up to 3, every depth");
    let depths: Vec<usize> = (1..=104).chain([110, 126, 127, 128, 129, 200, 255, 256, 257, 356, 400]).collect();
    for d in depths {
        for (p, w) in PERIODS {
            run(c, &|| chain(d, |l| (p >> (l % w)) & 1 == 1, n(1)));
            run(c, &|| chain(d - 1, |l| (p >> (l % w)) & 1 == 1, if p == 0 { M::Obj(vec![]) } else { M::Arr(vec![]) }));
        }
    }
    c.family("one container of the other kind at every level, and every switch-over level");
    for d in [99usize, 100, 101, 102] {
        for at in 0..d {
            for base in [false, true] {
                run(c, &|| chain(d, |l| (l == at) != base, s("leaf")));
                run(c, &|| chain(d, |l| (l < at) != base, s("leaf")));
            }
        }
    }
    c.family("siblings of every combination of depths around the limit");
    let arms = [1usize, 2, 50, 97, 98, 99, 100, 101];
    for a in arms {
        for b in arms {
            for k in 0..4usize {
                let arm = move |d: usize, flip: bool| chain(d, |l| (l % 2 == 0) == flip, n(d as i64));
                run(c, &|| match k {
                    0 => M::Arr(vec![arm(a, true), arm(b, false)]),
                    1 => M::Obj(vec![("b".into(), arm(a, false)), ("a".into(), arm(b, true))]),
                    2 => M::Arr(vec![M::Null, arm(a, false), s("x"), M::Arr(vec![arm(b - 1, true)]), n(1)]),
                    _ => M::Obj(vec![("x".into(), arm(a, true)), ("kk".into(), M::Obj(vec![("y".into(), arm(b - 1, false)), ("a".into(), n(1))])), ("c".into(), M::Null)]),
                });
            }
        }
    }
    for extra in [0usize, 1] {
        for at in (0..99).step_by(c.pick(7, 1)) {
            // at every level a side branch that reaches the limit; one of them may exceed it
            run(c, &|| {
                let mut m = n(0);
                for l in (0..99usize).rev() {
                    let side = if l % 7 == 0 { chain(99 - l + if l == at { extra } else { 0 }, |x| x % 3 == 0, s("side")) } else { M::Null };
                    let side = if l == at && l % 7 != 0 { chain(99 - l + extra, |x| x % 2 == 0, s("side")) } else { side };
                    m = if l % 2 == 0 { M::Arr(vec![m, side]) } else { M::Obj(vec![("k".into(), m), ("side".into(), side)]) };
                }
                m
            });
        }
    }
    c.family("refusals at level 101, then completion; a second branch from every level");
    let step = c.pick(3, 1);
    for (p, w) in PERIODS {
        for second in (0..=LIMIT).step_by(step).chain([98, 99]) {
            c.case(
                || format!("pattern {p}/{w}, second branch at level {second}"),
                |st| {
                    let mut last = None;
                    for root in 0..2 {
                        let mut climb = Climb { pattern: &|l| (p >> (l % w)) & 1 == 1, second, refusals: 0, st };
                        let e = |e: BuildError| e.to_string();
                        let (m, y) = if root == 0 {
                            let mut b = ArrayBuilder::try_new(2).map_err(e)?;
                            let m = climb.arr(&mut b, 1, true)?;
                            (m, b.finish().map_err(|e| format!("finish: {e:?}"))?)
                        } else {
                            let mut b = ObjectBuilder::try_new(2, false).map_err(e)?;
                            let m = climb.obj(&mut b, 1, true)?;
                            (m, b.finish().map_err(|e| format!("finish: {e:?}"))?)
                        };
                        ensure!(climb.refusals >= 5, "harness: level 101 was never tried");
                        ensure!(m.depth() == LIMIT, "harness: depth {}", m.depth());
                        read::doc(&y, &m)?;
                        ensure!(bnf::decode(y.as_bytes()).is_ok_and(|d| d.same(&m)), "bytes of another document");
                        last = Some((m, y));
                    }
                    let (m, y) = last.unwrap();
                    usable(&y, &m, st)?;
                    st.outcome("completed after refusals");
                    Ok(())
                },
            );
        }
    }
}

// ---- C16 -----------------------------------------------------------------------------------------------

const MAX_STR: usize = (1 << 28) - 1;

fn accepted(m: &M, st: &mut Stats) -> R {
    for (route, r) in routes(m) {
        st.step(1);
        let y = r.map_err(|e| format!("{route}: refused with {e}"))?;
        read::doc(&y, m).map_err(|e| format!("{route}: {e}"))?;
        let d = bnf::decode(y.as_bytes()).map_err(|e| format!("{route}: {e}"))?;
        ensure!(d.same(m), "{route}: bytes of another document");
        let p: PathExpression = "$".parse().unwrap();
        let mut buf = vec![];
        match p.query(&y, true, None, Some(&mut buf)) {
            Ok(QueriedValue::Yason(q)) => read::doc(q, &M::Arr(vec![m.clone()])).map_err(|e| format!("{route}, query result: {e}"))?,
            Ok(_) => return Err(format!("{route}: query gives no yason")),
            Err(e) => return Err(format!("{route}: query fails with {e}")),
        }
    }
    st.outcome("accepted");
    Ok(())
}

fn refused(m: &M, what: &str, st: &mut Stats) -> R {
    let text = jsonref::render(m);
    let mut buf = vec![1, 2, 3];
    let all: [(&str, Built); 3] = [
        ("parse", YasonBuf::parse(&text)),
        ("parse_to", Yason::parse_to(&mut buf, &text).map(|y| y.to_owned())),
        ("JSON value", YasonBuf::try_from(&tree(m))),
    ];
    for (route, r) in all {
        st.step(1);
        ensure!(r.is_err(), "{route}: {what} accepted");
    }
    st.outcome("refused");
    Ok(())
}

/// Elements of an array of `n` built by JSON or builders.
fn flat(count: usize) -> M {
    M::Arr((0..count).map(|i| if i % 2 == 0 { M::Null } else { M::Bool(true) }).collect())
}

fn flat_obj(count: usize) -> M {
    M::Obj((0..count).map(|i| (format!("{i:06}"), M::Null)).collect())
}

fn key_pushes(len: usize, st: &mut Stats) -> R {
    let big = "k".repeat(len);
    let ok = len <= 65535;
    for kind in 0..6 {
        for sorted in [false, true] {
            if sorted && len == 0 {
                continue; // "" does not come after "a"
            }
            for into in [false, true] {
                let mut buf = vec![];
                let mut go = |b: &mut dyn OB| -> Result<(), String> {
                    b.num("a", &Nm::int(1).number()).map_err(|e| e.to_string())?;
                    let r = match kind {
                        0 => b.nul(&big),
                        1 => b.boo(&big, true),
                        2 => b.num(&big, &Nm::int(2).number()),
                        3 => b.st(&big, "text"),
                        4 => b.ar(&big, 0).and_then(|c| c.finish().map(|_| ())),
                        _ => b.ob(&big, 0, false).and_then(|c| c.finish().map(|_| ())),
                    };
                    st.step(1);
                    match (ok, r) {
                        (true, Ok(())) => Ok(()),
                        (true, Err(e)) => Err(format!("key of {len} bytes (kind {kind}) refused with {e}")),
                        (false, Ok(())) => Err(format!("key of {len} bytes (kind {kind}) accepted")),
                        (false, Err(_)) => b.boo("bb", false).map_err(|e| format!("push after a refused key: {e}")),
                    }
                };
                let v = match kind {
                    0 => M::Null,
                    1 => M::Bool(true),
                    2 => n(2),
                    3 => s("text"),
                    4 => M::Arr(vec![]),
                    _ => M::Obj(vec![]),
                };
                let m = M::Obj(vec![("a".into(), n(1)), if ok { (big.clone(), v) } else { ("bb".into(), M::Bool(false)) }]);
                let y = if into {
                    let mut b = yason::ObjectRefBuilder::try_new(&mut buf, 2, sorted).map_err(|e| e.to_string())?;
                    go(&mut b)?;
                    b.finish().map_err(|e| e.to_string())?.to_owned()
                } else {
                    let mut b = ObjectBuilder::try_new(2, sorted).map_err(|e| e.to_string())?;
                    go(&mut b)?;
                    b.finish().map_err(|e| e.to_string())?
                };
                read::doc(&y, &m)?;
                ensure!(bnf::decode(y.as_bytes()).is_ok_and(|d| d.same(&m)), "bytes of another document");
            }
        }
    }
    st.outcome(if ok { "accepted" } else { "refused" });
    Ok(())
}

/// A string of the given length in every position of the builders, with neighbours.
fn long_strings(len: usize, st: &mut Stats) -> R {
    let v = zeros_str(len);
    let ok = len <= MAX_STR;
    let judge = |what: &str, r: Result<(), BuildError>| -> R {
        match (ok, r) {
            (true, Err(e)) => Err(format!("{what} of {len} bytes refused with {e}")),
            (false, Ok(())) => Err(format!("{what} of {len} bytes accepted")),
            (false, Err(BuildError::StringTooLong(x))) if x == len => Ok(()),
            (false, Err(BuildError::StringTooLong(x))) => Err(format!("{what} of {len} bytes refused as {x} bytes")),
            (false, Err(e)) => Err(format!("{what} of {len} bytes refused with {e:?}")),
            _ => Ok(()),
        }
    };
    match Scalar::string(v) {
        Ok(y) => {
            judge("scalar", Ok(()))?;
            ensure!(y.string().map_err(|e| e.to_string())? == v, "scalar of {len} bytes read back differently");
        }
        Err(e) => judge("scalar", Err(e))?,
    }
    let mut b = ArrayBuilder::try_new(3).map_err(|e| e.to_string())?;
    b.push_bool(true).map_err(|e| e.to_string())?;
    judge("array element", b.push_string(v).map(|_| ()))?;
    if !ok {
        b.push_null().map_err(|e| e.to_string())?;
    }
    b.push_string("after").map_err(|e| e.to_string())?;
    let y = b.finish().map_err(|e| e.to_string())?;
    let a = y.array().map_err(|e| e.to_string())?;
    if ok {
        ensure!(a.string(1).map_err(|e| e.to_string())? == v, "element of {len} bytes read back differently");
    }
    ensure!(a.string(2).map_err(|e| e.to_string())? == "after", "neighbour of an element of {len} bytes read back differently");
    drop(y);
    let mut b = ObjectBuilder::try_new(2, false).map_err(|e| e.to_string())?;
    judge("member", b.push_string("kk", v).map(|_| ()))?;
    if !ok {
        b.push_null("kk").map_err(|e| e.to_string())?;
    }
    b.push_string("k", "after").map_err(|e| e.to_string())?;
    let y = b.finish().map_err(|e| e.to_string())?;
    let o = y.object().map_err(|e| e.to_string())?;
    if ok {
        ensure!(o.string("kk").map_err(|e| e.to_string())? == Some(v), "member of {len} bytes read back differently");
    }
    ensure!(o.string("k").map_err(|e| e.to_string())? == Some("after"), "neighbour of a member of {len} bytes read back differently");
    st.step(8);
    st.outcome(if ok { "accepted" } else { "refused" });
    Ok(())
}

fn long_json(len: usize, st: &mut Stats) -> R {
    let mut text = String::with_capacity(len + 20);
    text.push_str("[1,\"");
    text.extend(std::iter::repeat('j').take(len));
    text.push_str("\",2]");
    let r = YasonBuf::parse(&text);
    drop(text);
    match r {
        Ok(y) => {
            ensure!(len <= MAX_STR, "JSON string of {len} bytes accepted");
            let a = y.array().map_err(|e| e.to_string())?;
            let t = a.string(1).map_err(|e| e.to_string())?;
            ensure!(t.len() == len && t.bytes().all(|b| b == b'j'), "JSON string of {len} bytes read back differently");
            ensure!(a.number(2).map(|x| x == yason::Number::from(2)).unwrap_or(false), "neighbour read back differently");
            st.outcome("accepted");
        }
        Err(e) => {
            ensure!(len > MAX_STR, "JSON string of {len} bytes refused with {e}");
            st.outcome("refused");
        }
    }
    st.step(1);
    Ok(())
}

/// Containers whose size is exactly `size` bytes: made of strings of 2^28-1 bytes and a last one of fitting length.
fn sized(size: usize, object: bool, st: &mut Stats) -> R {
    // per string: an entry of 5 (or key offset 4 + key length 2 + key 1 + type 1) plus 4 bytes of length
    let per = if object { 4 + 2 + 1 + 1 + 4 } else { 5 + 4 };
    let full = (size - 2) / (per + MAX_STR);
    let rest = size - 2 - full * (per + MAX_STR);
    ensure!(rest >= per + (1 << 21), "harness: the last string is too short for a 4-byte length");
    let last = rest - per;
    let ok = size <= i32::MAX as usize;
    let count = full as u16 + 1;
    let keys: Vec<String> = (0..count).map(|i| char::from(b'a' + i as u8).to_string()).collect();
    let lens = |i: usize| if i < full { MAX_STR } else { last };
    let e = |e: BuildError| format!("while building: {e}");
    let r = if object {
        let mut b = ObjectBuilder::try_new(count, false).map_err(e)?;
        for i in 0..count as usize {
            b.push_string(&keys[i], zeros_str(lens(i))).map_err(e)?;
        }
        b.finish()
    } else {
        let mut b = ArrayBuilder::try_new(count).map_err(e)?;
        for i in 0..count as usize {
            b.push_string(zeros_str(lens(i))).map_err(e)?;
        }
        b.finish()
    };
    st.step(1);
    match r {
        Err(_) => {
            ensure!(!ok, "container of {size} bytes refused");
            st.outcome("refused");
        }
        Ok(y) => {
            ensure!(ok, "container of {size} bytes accepted");
            ensure!(y.as_bytes().len() == size + 5, "harness: size {} instead of {size}", y.as_bytes().len() - 5);
            for i in 0..count as usize {
                let t = if object {
                    y.object().and_then(|o| o.string(&keys[i])).map_err(|e| e.to_string())?.ok_or("missing")?.len()
                } else {
                    y.array().and_then(|a| a.string(i)).map_err(|e| e.to_string())?.len()
                };
                ensure!(t == lens(i), "part {i} of a container of {size} bytes reads back with {t} bytes");
            }
            st.outcome("accepted");
        }
    }
    Ok(())
}

/// A container of many gigabytes reached through nesting: the inner ones fit, the outer one does not.
fn nested_size(st: &mut Stats) -> R {
    let e = |e: BuildError| format!("while building: {e}");
    let mut b = ArrayBuilder::try_new(3).map_err(e)?;
    for _ in 0..3 {
        let mut c = b.push_object(3, true).map_err(e)?;
        for k in ["a", "b", "c"] {
            c.push_string(k, zeros_str(MAX_STR)).map_err(e)?;
        }
        c.finish().map_err(e)?;
    }
    ensure!(b.finish().is_err(), "array of 2.4 GB accepted");
    st.step(1);
    st.outcome("refused");
    Ok(())
}

fn query_size(st: &mut Stats) -> R {
    let mut b = ArrayBuilder::try_new(1).map_err(|e| e.to_string())?;
    b.push_string(zeros_str(MAX_STR)).map_err(|e| e.to_string())?;
    let y = b.finish().map_err(|e| e.to_string())?;
    for times in [2usize, 8, 9] {
        let p: PathExpression = format!("$[{}]", vec!["0"; times].join(",")).parse().map_err(|e| format!("{e}"))?;
        let mut buf = vec![];
        let r = p.query(&y, true, None, Some(&mut buf));
        let size = 2 + times * (9 + MAX_STR);
        st.step(1);
        match r {
            Err(_) => {
                ensure!(size > i32::MAX as usize, "query result of {size} bytes refused");
                st.outcome("refused");
            }
            Ok(QueriedValue::Yason(q)) => {
                ensure!(size <= i32::MAX as usize, "query result of {size} bytes accepted");
                let a = q.array().map_err(|e| e.to_string())?;
                ensure!(a.len().ok() == Some(times) && a.string(times - 1).map(|t| t.len()).ok() == Some(MAX_STR), "query result differs");
                st.outcome("accepted");
            }
            Ok(_) => return Err("query gives no yason".into()),
        }
    }
    Ok(())
}

fn query_count(a: usize, b: usize, extra: usize, st: &mut Stats) -> R {
    let total = a * b + extra;
    let mut v: Vec<M> = (0..a).map(|_| flat(b)).collect();
    if extra > 0 {
        v.push(flat(extra));
    }
    let y = build::doc(&M::Arr(v))?;
    for (i, path) in ["$[*][*]", "$[0 to last][*]", "$[*][last to 0]"].iter().enumerate() {
        let p: PathExpression = path.parse().unwrap();
        for reused in [false, true] {
            let mut buf = if i % 2 == 0 { vec![] } else { vec![7; 99] };
            let mut list: Vec<Value> = vec![];
            let r = p.query(&y, true, reused.then_some(&mut list), Some(&mut buf));
            st.step(1);
            match r {
                Ok(QueriedValue::Yason(q)) => {
                    ensure!(total <= 65535, "{total} results written to a buffer");
                    ensure!(q.array().and_then(|x| x.len()).ok() == Some(total), "{total} results: other length");
                    bnf::decode(q.as_bytes()).map_err(|e| format!("{total} results: {e}"))?;
                    st.outcome("accepted");
                }
                Ok(_) => return Err("query gives no yason".into()),
                Err(YasonError::BuildError(_)) if total > 65535 => st.outcome("refused"),
                Err(e) => return Err(format!("{total} results: {e:?}")),
            }
        }
        match p.query(&y, true, None, None) {
            Ok(QueriedValue::Values(v)) => ensure!(v.len() == total, "{} of {total} results", v.len()),
            _ => return Err(format!("{total} results as a list fail")),
        }
    }
    let p: PathExpression = "$[*][*].count()".parse().unwrap();
    let mut buf = vec![];
    match p.query(&y, true, None, Some(&mut buf)) {
        Ok(QueriedValue::Yason(q)) => read::doc(q, &M::Arr(vec![n(total as i64)]))?,
        _ => return Err(format!("count() of {total} results fails")),
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) {
    c.family("the size field at its limit");
    let lim = i32::MAX as usize;
    c.case(
        || "arrays and objects of 2147483646, 2147483647, 2147483648 and more bytes".to_string(),
        |st| {
            for object in [false, true] {
                for size in [lim, lim + 1] {
                    sized(size, object, st)?;
                }
            }
            Ok(())
        },
    );
    c.case(|| "query results around the size limit".to_string(), |st| query_size(st));
    if !c.quick() {
        c.case(
            || "more sizes around the limit".to_string(),
            |st| {
                for object in [false, true] {
                    for size in [lim - 1, lim + 2, (1usize << 31) + (1 << 27), (1usize << 32) + (1 << 24)] {
                        sized(size, object, st)?;
                    }
                }
                nested_size(st)
            },
        );
    }

    c.family("string lengths around every boundary, builders");
    let mut lens: Vec<usize> = vec![0, 1];
    for b in [127usize, 255, 16383, 32767, 65535, 2097151] {
        lens.extend(b - 2..=b + 3);
    }
    lens.extend([MAX_STR - 1, MAX_STR, MAX_STR + 1, MAX_STR + 2, MAX_STR + 128, (1 << 29), (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 5]);
    for l in &lens {
        c.case(|| format!("string of {l} bytes"), |st| {
            st.state(crate::ctx::hash(&("str", l)));
            long_strings(*l, st)
        });
    }
    if !c.quick() {
        c.family("every string length");
        for block in 0..170usize {
            c.case(|| format!("strings of {} to {} bytes", block * 400, block * 400 + 399), |st| {
                for l in block * 400..block * 400 + 400 {
                    let t = "L".repeat(l);
                    let m = M::Arr(vec![s(&t), n(1)]);
                    let y = build::doc(&m)?;
                    let a = y.array().map_err(|e| e.to_string())?;
                    ensure!(a.string(0).map(|x| x == t).unwrap_or(false) && a.get(1).map(|v| read::value(&v, &n(1)).is_ok()).unwrap_or(false), "string of {l} bytes");
                    st.step(1);
                }
                st.outcome("accepted");
                Ok(())
            });
        }
    }
    c.family("string lengths around every boundary, JSON and query results");
    for l in lens.iter().filter(|l| **l <= 1 << 22) {
        for unit in ["j", "é"] {
            c.case(|| format!("JSON string of {l} bytes of {unit:?}"), |st| {
                let mut t = unit.repeat(l / unit.len());
                while t.len() < *l {
                    t.push('.');
                }
                st.state(crate::ctx::hash(&("json", l)));
                let m = M::Arr(vec![s("before"), s(&t), M::Obj(vec![("k".into(), s(&t)), ("a".into(), n(1))]), n(2)]);
                accepted(&m, st)?;
                accepted(&s(&t), st)
            });
        }
    }
    for l in [MAX_STR, MAX_STR + 1] {
        c.case(|| format!("JSON string of {l} bytes"), |st| long_json(l, st));
    }

    c.family("key lengths around every boundary");
    for l in [0usize, 1, 2, 126, 127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 65541, 65791, 65792, 131071, 131072, 131073, 1 << 20, 1 << 24] {
        c.case(|| format!("key of {l} bytes"), |st| {
            st.state(crate::ctx::hash(&("key", l)));
            key_pushes(l, st)?;
            for unit in ["k", "é"] {
                let mut k = unit.repeat(l / unit.len());
                while k.len() < l {
                    k.push('.');
                }
                for v in [M::Null, n(5), s("v"), M::Arr(vec![n(1)]), M::Obj(vec![("q".into(), n(1))])] {
                    let m = M::Obj(vec![("zz".into(), n(1)), (k.clone(), v), ("mmm".into(), s("t"))]);
                    let m = if matches!(&m, M::Obj(v) if v[1].0 == v[0].0) { M::Null } else { m };
                    if l <= 65535 {
                        accepted(&m, st)?;
                        accepted(&M::Arr(vec![m]), st)?;
                    } else {
                        refused(&m, "too long a key", st)?;
                        refused(&M::Arr(vec![n(1), m]), "too long a key", st)?;
                    }
                }
            }
            Ok(())
        });
    }

    c.family("element counts around every boundary");
    for count in [0usize, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 65791, 65792, 131071, 131072, 131073, 200000] {
        for kind in 0..6usize {
            c.case(|| format!("{count} elements (kind {kind})"), |st| {
                st.state(crate::ctx::hash(&("count", count, kind)));
                let m = match kind {
                    0 => flat(count),
                    1 => flat_obj(count),
                    2 => M::Arr(vec![n(1), flat(count), s("t")]),
                    3 => M::Obj(vec![("b".into(), flat(count)), ("a".into(), n(1))]),
                    4 => M::Arr(vec![flat_obj(count)]),
                    _ => M::Obj(vec![("b".into(), flat_obj(count))]),
                };
                if count <= 65535 {
                    accepted(&m, st)
                } else {
                    refused(&m, "too many elements", st)
                }
            });
        }
    }

    c.family("query result counts around the limit");
    for (a, b, extra) in [(255usize, 257usize, 0usize), (1, 65534, 0), (1, 65535, 0), (256, 256, 0), (1, 65535, 1), (1, 65535, 2), (256, 256, 1), (2, 65535, 0), (2, 65535, 2), (2, 65535, 3), (3, 50000, 0), (4, 65535, 10)] {
        c.case(|| format!("{a} x {b} + {extra} results"), |st| {
            st.state(crate::ctx::hash(&("query", a * b + extra)));
            query_count(a, b, extra, st)
        });
    }

    c.family("array subscripts around the limit");
    for form in ["$[N]", "$[last - N]", "$[N to 0]", "$[0 to N]", "$[last - N to 3]", "$[1 to last-N]", "$[0, N]", "$[N,0]", "$[0,1,last - N, 2]", "$.a[ N ]", "$[0000N]"] {
        for (v, ok) in [
            ("2147483646", true),
            ("2147483647", true),
            ("2147483648", false),
            ("2147483649", false),
            ("4294967295", false),
            ("4294967296", false),
            ("4294967297", false),
            ("9223372036854775807", false),
            ("9223372036854775808", false),
            ("18446744073709551615", false),
            ("18446744073709551616", false),
            ("18446744073709551617", false),
            ("340282366920938463463374607431768211456", false),
            ("99999999999999999999999999999999999999999999999999", false),
        ] {
            let text = form.replace('N', v);
            c.case(|| text.clone(), |st| {
                let r: Result<PathExpression, _> = text.parse();
                st.step(1);
                ensure!(r.is_ok() == ok, "{text}: {}", if ok { "refused" } else { "accepted" });
                if let Ok(p) = r {
                    let m = M::Arr(vec![n(10), n(11), n(12)]);
                    let y = build::doc(&m)?;
                    let steps = crate::pathref::parse(&text).ok_or("harness: path")?;
                    let want = crate::pathref::eval(&steps, &m).len();
                    match p.query(&y, true, None, None) {
                        Ok(QueriedValue::None) => ensure!(want == 0, "{text}: nothing selected"),
                        Ok(QueriedValue::Values(v)) => ensure!(want == v.len(), "{text}: {} values instead of {want}", v.len()),
                        _ => return Err(format!("{text}: fails")),
                    }
                }
                st.outcome(if ok { "accepted" } else { "refused" });
                Ok(())
            });
        }
    }
}
