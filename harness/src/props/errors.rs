//! C24 errors say what happened, C25 values of types that are not supported.
use super::*;
use crate::bnf;
use crate::build;
use crate::ctx::{clip, R};
use crate::ensure;
use crate::model::member_order;
use crate::pathref;
use crate::read;
use std::fmt::Write as _;
use yason::{Array, DataType, FormatError, Object, PathExpression, Value, Yason, YasonBuf, YasonError};

// ---- C25 ------------------------------------------------------------------------------------------------

/// The published types the library does not support, with the size of their values (0: data-length and bytes).
const FOREIGN: [(u8, usize); 17] = [
    (7, 1), (8, 2), (9, 4), (10, 8), (11, 1), (12, 2), (13, 4), (14, 8), (15, 4), (16, 8), (17, 0), (18, 8), (19, 8), (20, 4), (21, 8), (22, 4), (23, 8),
];
/// Codes of no published type.
const UNKNOWN: [u8; 6] = [0, 24, 127, 128, 254, 255];

/// A scalar that takes the same room as a value of the type (its type code is overwritten afterwards).
fn stand_in(size: usize, in_array: bool) -> M {
    match size {
        0 => s("bytes"),
        z if in_array && z <= 4 => M::Null,
        z => s(&"\u{7f}".repeat(z - 1)),
    }
}

fn replace(m: &M, path: &[usize], by: M) -> M {
    let Some((i, rest)) = path.split_first() else { return by };
    match m {
        M::Arr(v) => {
            let mut v = v.clone();
            v[*i] = replace(&v[*i], rest, by);
            M::Arr(v)
        }
        M::Obj(v) => {
            let mut v = v.clone();
            let k = member_order(&v)[*i];
            v[k].1 = replace(&v[k].1, rest, by);
            M::Obj(v)
        }
        m => m.clone(),
    }
}

fn refused<T>(r: Result<T, YasonError>, code: u8, what: &str) -> R {
    match r {
        Err(YasonError::InvalidDataType(c)) if c == code => Ok(()),
        Err(e) => Err(format!("{what} of a value of type {code} fails with {e:?}")),
        Ok(_) => Err(format!("{what} of a value of type {code} succeeds")),
    }
}

/// A type test may refuse the value or answer no.
fn refused_or_no(r: Result<bool, YasonError>, code: u8, what: &str) -> R {
    match r {
        Ok(false) => Ok(()),
        r => refused(r, code, what),
    }
}

fn fmt_refused(y: &Yason, code: u8) -> R {
    for pretty in [false, true] {
        let mut t = String::new();
        match y.format_to(pretty, &mut t) {
            Err(FormatError::YasonError(YasonError::InvalidDataType(c))) if c == code => {}
            r => return Err(format!("format_to(pretty: {pretty}) of a document with a value of type {code} gives {r:?}")),
        }
        let mut t = String::new();
        ensure!(write!(t, "{}", y.format(pretty)).is_err(), "Display of a document with a value of type {code} succeeds: {}", clip(&t, 100));
    }
    Ok(())
}

/// The document equals the model except that the value at `path` has the type code `code`.
fn foreign(y: &Yason, m: &M, path: &[usize], code: u8) -> Result<u64, String> {
    fmt_refused(y, code)?;
    let Some((at, rest)) = path.split_first() else {
        refused(y.data_type(), code, "data_type")?;
        refused_or_no(y.is_null(), code, "is_null")?;
        refused(y.object(), code, "object()")?;
        refused(y.array(), code, "array()")?;
        refused(y.string(), code, "string()")?;
        refused(y.number(), code, "number()")?;
        refused(y.bool(), code, "bool()")?;
        refused(Value::try_from(y), code, "Value::try_from")?;
        return Ok(10);
    };
    match m {
        M::Arr(v) => foreign_array(&y.array().map_err(|e| e.to_string())?, v, *at, rest, code),
        M::Obj(v) => foreign_object(&y.object().map_err(|e| e.to_string())?, v, *at, rest, code),
        _ => Err("the path leads through a scalar".into()),
    }
}

fn foreign_array(a: &Array, ms: &[M], at: usize, rest: &[usize], code: u8) -> Result<u64, String> {
    let er = |e: YasonError| format!("array with a value of type {code}: {e}");
    ensure!(a.len().map_err(er)? == ms.len() && !a.is_empty().map_err(er)?, "length of an array with a value of type {code}");
    let mut it = a.iter().map_err(er)?;
    let mut n = 3;
    for (i, m) in ms.iter().enumerate() {
        let x = it.next().ok_or_else(|| format!("[{i}]: iteration ends at a value of type {code}"))?;
        n += 1;
        if i != at {
            read::value(&x.map_err(er)?, m).map_err(|e| format!("[{i}]: {e}"))?;
            read::value(&a.get(i).map_err(er)?, m).map_err(|e| format!("[{i}]: {e}"))?;
            ensure!(a.type_of(i).map_err(er)? == m.ty(), "[{i}]: type_of next to a value of type {code}");
            continue;
        }
        if !rest.is_empty() {
            let y = match (x.map_err(er)?, a.get(i).map_err(er)?) {
                (Value::Array(x), Value::Array(z)) => {
                    ensure!(x.yason().as_bytes() == z.yason().as_bytes(), "[{i}]: get and iter differ");
                    x.yason().to_owned()
                }
                (Value::Object(x), Value::Object(z)) => {
                    ensure!(x.yason().as_bytes() == z.yason().as_bytes(), "[{i}]: get and iter differ");
                    x.yason().to_owned()
                }
                _ => return Err(format!("[{i}]: a container has another type")),
            };
            n += foreign(&y, m, rest, code).map_err(|e| format!("[{i}]: {e}"))?;
            continue;
        }
        refused(x, code, "iter")?;
        refused(a.get(i), code, "get")?;
        refused(a.type_of(i), code, "type_of")?;
        for t in read::TYPES {
            refused_or_no(a.is_type(i, t), code, "is_type")?;
        }
        refused_or_no(a.is_null(i), code, "is_null")?;
        refused(a.object(i), code, "object()")?;
        refused(a.array(i), code, "array()")?;
        refused(a.string(i), code, "string()")?;
        refused(a.number(i), code, "number()")?;
        refused(a.bool(i), code, "bool()")?;
        n += 14;
    }
    ensure!(it.next().is_none(), "iteration goes on after the end");
    Ok(n)
}

fn foreign_object(o: &Object, ms: &[(String, M)], at: usize, rest: &[usize], code: u8) -> Result<u64, String> {
    let er = |e: YasonError| format!("object with a value of type {code}: {e}");
    fn some<T>(r: Result<Option<T>, YasonError>) -> Result<T, YasonError> {
        r.map(|o| o.expect("a present key is reported as absent"))
    }
    ensure!(o.len().map_err(er)? == ms.len() && !o.is_empty().map_err(er)?, "length of an object with a value of type {code}");
    let mut it = o.iter().map_err(er)?;
    let mut ki = o.key_iter().map_err(er)?;
    let mut vi = o.value_iter().map_err(er)?;
    let mut n = 5;
    for (i, k) in member_order(ms).into_iter().enumerate() {
        let (k, m) = (ms[k].0.as_str(), &ms[k].1);
        let w = |e: String| format!(".{k:?}: {e}");
        let end = || w(format!("iteration ends at a value of type {code}"));
        let (x, z) = (it.next().ok_or_else(end)?, vi.next().ok_or_else(end)?);
        let kk = ki.next().ok_or_else(end)?.map_err(er)?;
        ensure!(kk == k, "key_iter gives {kk:?} instead of {k:?}");
        ensure!(o.contains_key(k).map_err(er)?, ".{k:?}: contains_key false");
        n += 4;
        if i != at {
            let (xk, xv) = x.map_err(er)?;
            ensure!(xk == k, "iter gives {xk:?} instead of {k:?}");
            read::value(&xv, m).map_err(w)?;
            read::value(&z.map_err(er)?, m).map_err(w)?;
            read::value(&some(o.get(k)).map_err(er)?, m).map_err(w)?;
            ensure!(some(o.type_of(k)).map_err(er)? == m.ty(), ".{k:?}: type_of next to a value of type {code}");
            continue;
        }
        if !rest.is_empty() {
            let part = |v: Value| -> Result<YasonBuf, String> {
                match v {
                    Value::Array(x) => Ok(x.yason().to_owned()),
                    Value::Object(x) => Ok(x.yason().to_owned()),
                    _ => Err(w("a container has another type".into())),
                }
            };
            let y = part(x.map_err(er)?.1)?;
            ensure!(part(z.map_err(er)?)?.as_bytes() == y.as_bytes(), ".{k:?}: iter and value_iter differ");
            ensure!(part(some(o.get(k)).map_err(er)?)?.as_bytes() == y.as_bytes(), ".{k:?}: iter and get differ");
            n += foreign(&y, m, rest, code).map_err(w)?;
            continue;
        }
        refused(x, code, "iter")?;
        refused(z, code, "value_iter")?;
        refused(some(o.get(k)), code, "get")?;
        refused(some(o.type_of(k)), code, "type_of")?;
        for t in read::TYPES {
            refused_or_no(some(o.is_type(k, t)), code, "is_type")?;
        }
        refused_or_no(some(o.is_null(k)), code, "is_null")?;
        refused(some(o.object(k)), code, "object()")?;
        refused(some(o.array(k)), code, "array()")?;
        refused(some(o.string(k)), code, "string()")?;
        refused(some(o.number(k)), code, "number()")?;
        refused(some(o.bool(k)), code, "bool()")?;
        n += 15;
    }
    ensure!(it.next().is_none() && ki.next().is_none() && vi.next().is_none(), "iteration goes on after the end");
    Ok(n)
}

const PATHS: [&str; 30] = [
    "$", "$.a", "$.b", "$.k", "$.*", "$[*]", "$[0]", "$[last]", "$[1 to 2]", "$..a", "$.*.*", "$.a[*]", "$[*].a", "$[*][*]", "$[0,last]", "$[last to 0].b", "$..a.*", "$..b[*]", "$.type()", "$[*].type()", "$.*.type()", "$.a.type()",
    "$..a.type()", "$[*].size()", "$.*.size()", "$[last to 0].type()", "$[1,0].size()", "$[*].count()", "$.*.*.count()", "$..a.count()",
];

/// Queries, comparisons and copies of a document with a foreign value; `m` has the stand-in in its place.
fn around(y: &Yason, m: &M, path: &[usize], code: u8, paths: &[(PathExpression, Vec<pathref::St>)]) -> Result<u64, String> {
    let mut at = m;
    for i in path {
        at = match at {
            M::Arr(v) => &v[*i],
            M::Obj(v) => &v[member_order(v)[*i]].1,
            m => m,
        };
    }
    let mut n = 0;
    for (k, (p, steps)) in paths.iter().enumerate() {
        let sel = pathref::eval(steps, m);
        // what the method of the path, if it has one, is applied to
        let method = pathref::has_method(steps);
        let base = if method { &steps[..steps.len() - 1] } else { &steps[..] };
        let hits = steps.last() != Some(&pathref::St::Count) && pathref::eval(base, m).iter().any(|x| matches!(x, pathref::Sel::Part(x) if std::ptr::eq(*x, at)));
        let w = |e: String| format!("query {}: {e}", PATHS[k]);
        match p.query(y, true, None, None) {
            Ok(yason::QueriedValue::Values(vs)) => {
                ensure!(!hits, "query {} selects a value of type {code} without an error", PATHS[k]);
                ensure!(vs.len() == sel.len(), "query {}: {} values instead of {}", PATHS[k], vs.len(), sel.len());
                for (v, x) in vs.iter().zip(&sel) {
                    let pathref::Sel::Part(x) = x else {
                        read::is(v, &x.model()).map_err(w)?;
                        continue;
                    };
                    if contains(x, at) {
                        ensure!(v.data_type() == x.ty(), "query {}: another type", PATHS[k]);
                    } else {
                        read::value(v, x).map_err(w)?;
                    }
                }
            }
            Ok(yason::QueriedValue::None) => ensure!(sel.is_empty(), "query {}: nothing instead of {} values", PATHS[k], sel.len()),
            Ok(_) => return Err(w("another kind of result".into())),
            Err(e) => refused::<()>(Err(e), code, "a query").map_err(w)?,
        }
        match p.exists(y) {
            _ if method => {}
            Ok(b) => ensure!(b != sel.is_empty(), "exists {} is {b}", PATHS[k]),
            Err(e) => refused::<()>(Err(e), code, "exists").map_err(w)?,
        }
        n += 2;
    }
    // never equal to a document of supported types, nor to one whose value has another code
    let supported = build::doc(m)?;
    for (a, b) in [(y, &*supported), (&*supported, y)] {
        match a.equals(b) {
            Ok(false) => {}
            Ok(true) => return Err(format!("equal to a document without a value of type {code}")),
            Err(e) => refused::<()>(Err(e), code, "equals")?,
        }
        n += 1;
    }
    ensure!(y.to_owned().as_bytes() == y.as_bytes(), "to_owned changes the bytes");
    ensure!(y.to_yason_buf().map_err(|e| e.to_string())?.as_bytes() == y.as_bytes(), "to_yason_buf changes the bytes");
    Ok(n + 2)
}

fn contains(m: &M, part: &M) -> bool {
    let mut y = false;
    m.each(&mut |x| y |= std::ptr::eq(x, part));
    y
}

pub fn c25(c: &mut Ctx) {
    let paths: Vec<(PathExpression, Vec<pathref::St>)> = PATHS.iter().map(|p| (p.parse().unwrap(), pathref::parse(p).unwrap())).collect();
    let run = |c: &mut Ctx, m: &M, codes: &[(u8, usize)], layouts: &[bnf::Layout]| {
        c.case(
            || format!("values of unsupported types in {}", m.show()),
            |st| {
                st.state(m.hash());
                for leaf in bnf::leaves(&bnf::encode(m, bnf::PLAIN)) {
                    for &(code, size) in codes {
                        let m = replace(&m.canonical(), &leaf.path, stand_in(size, leaf.in_array));
                        for l in layouts {
                            let mut b = bnf::encode(&m, *l);
                            let at = bnf::leaves(&b).into_iter().find(|x| x.path == leaf.path).ok_or("no such leaf")?;
                            b[at.type_at] = code;
                            // the value's own bytes mean nothing to the library
                            let own = if leaf.in_array && size <= 4 && size > 0 { 4 } else { size };
                            for fill in if own > 0 { vec![0u8, 0xFF] } else { vec![5] } {
                                b[at.value_at..at.value_at + own].fill(fill);
                                let y = unsafe { Yason::new_unchecked(&b) };
                                let w = |e: String| format!("type {code} at {:?}: {e}", leaf.path);
                                let k = foreign(y, &m, &leaf.path, code).map_err(w)?;
                                let k2 = around(y, &m, &leaf.path, code, &paths).map_err(w)?;
                                st.step(k + k2);
                            }
                        }
                        st.outcome("refused by name");
                    }
                }
                Ok(())
            },
        );
    };
    let all: Vec<(u8, usize)> = FOREIGN.into_iter().chain(UNKNOWN.map(|u| (u, 1))).collect();
    let few: Vec<(u8, usize)> = FOREIGN.into_iter().filter(|f| [7, 9, 10, 17].contains(&f.0)).chain([(0, 1), (255, 2)]).collect();
    let three = [bnf::PLAIN, bnf::Layout::some()[0], bnf::Layout::some()[2]];
    let (x, y) = c.pick((3, 4), (4, 5));
    c.family(&format!("all documents of up to {x} nodes x every value x every unsupported type"));
    gen::small(x, &mut |mk| run(c, &mk(), &all, &three));
    c.family(&format!("all documents of up to {y} nodes x every value x 6 unsupported types"));
    gen::small(y, &mut |mk| {
        if c.wants() {
            let m = mk();
            if m != m.canonical() {
                return c.skip();
            }
        }
        run(c, &mk(), &few, &three[..2])
    });
    c.family("next to values of every encoding class");
    for m in gen::rich() {
        for d in gen::contexts(&m) {
            if !d.is_container() || d.depth() < 4 {
                run(c, &d, &few, &three[..1]);
            }
        }
    }
    c.family("every code at the root, in an array, in an object");
    for code in (0..=255u8).filter(|c| !(1..=6).contains(c)) {
        for m in [s("v"), M::Arr(vec![n(1), s("v"), n(2)]), M::Obj(vec![("a".into(), n(1)), ("b".into(), s("v")), ("c".into(), n(2))])] {
            run(c, &m, &[(code, 2)], &three[..1]);
        }
    }
    c.family("containers with many elements, deep chains");
    for w in [10, 40] {
        run(c, &gen::wide(w, 3), &few, &three);
        run(c, &gen::wide_obj(w, 3), &few, &three);
    }
    for d in [5, 20, 100] {
        for m in gen::deep(d, s("leaf")) {
            run(c, &m, &few[..2], &three[..1]);
        }
    }
}

// ---- C24 ------------------------------------------------------------------------------------------------

/// The numbers written in a message.
fn numbers_in(t: &str) -> Vec<u128> {
    let mut v = vec![];
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if let Some(d) = c.to_digit(10) {
            let mut x = d as u128;
            while let Some(d) = it.peek().and_then(|c| c.to_digit(10)) {
                x = x.saturating_mul(10).saturating_add(d as u128);
                it.next();
            }
            v.push(x);
        }
    }
    v
}

/// The message names the values, and after each label the value that belongs to it.
fn names(msg: &str, values: &[(&str, u128)]) -> R {
    let mut have = numbers_in(msg);
    for (_, v) in values {
        let i = have.iter().position(|h| h == v).ok_or_else(|| format!("{msg:?} does not name {v}"))?;
        have.remove(i);
    }
    for (label, v) in values.iter().filter(|x| !x.0.is_empty()) {
        if let Some(i) = msg.rfind(label) {
            let next = numbers_in(&msg[i..]);
            ensure!(next.first() == Some(v), "{msg:?} names another {label} than {v}");
        }
    }
    Ok(())
}

fn names_types(msg: &str, expected: DataType, actual: DataType) -> R {
    let low = msg.to_lowercase();
    let words: Vec<&str> = low.split(|c: char| !c.is_ascii_alphanumeric()).collect();
    let at = |t: DataType| words.iter().filter(|w| **w == t.name()).count();
    ensure!(at(expected) > 0 && at(actual) > 0, "{msg:?} does not name {expected} and {actual}");
    for (label, t) in [("expect", expected), ("actual", actual)] {
        if let Some(i) = words.iter().position(|w| w.starts_with(label)) {
            let next = words[i..].iter().find(|w| read::TYPES.iter().any(|t| t.name() == **w));
            ensure!(next.is_some_and(|w| *w == t.name()), "{msg:?} names another type as {label}");
        }
    }
    Ok(())
}

fn plain(e: &dyn std::error::Error) -> Result<String, String> {
    let t = e.to_string();
    ensure!(!t.trim().is_empty(), "an error without a message: {e:?}");
    ensure!(t == e.to_string() && t == format!("{e}"), "{e:?} does not always have the same message");
    ensure!(!format!("{e:?}").is_empty(), "an error without a debug form");
    Ok(t)
}

fn magnitudes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..130).collect();
    for p in [8u32, 15, 16, 20, 28, 31, 32, 53, 63] {
        v.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
    }
    v.push(usize::MAX);
    v
}

fn path_error(t: &str, st: &mut crate::ctx::Stats) -> R {
    let Some((from, to)) = pathref::blame(t) else { return Ok(()) };
    let Err(e) = t.parse::<PathExpression>() else { return Err(format!("{t:?} is accepted")) };
    let msg = plain(&e)?;
    let pos = numbers_in(&msg);
    st.step(1);
    ensure!(pos.len() == 1, "{t:?}: {msg:?} does not give one position");
    let p = pos[0] as usize;
    ensure!(p >= from && p <= to, "{t:?}: {msg:?}, but the text stops being a path at {from}..{to}");
    st.outcome(match (p == from, p == to) {
        (true, true) => "position at the end of the text",
        (true, false) => "position before the token",
        (false, true) => "position behind the token",
        _ => "position within the token",
    });
    Ok(())
}

fn json_error(t: &str, st: &mut crate::ctx::Stats) -> R {
    let mut buf = vec![];
    let a = YasonBuf::parse(t);
    let b = Yason::parse_to(&mut buf, t).map(|_| ());
    let Err(a) = a else { return Ok(()) };
    let Err(b) = b else { return Err(format!("{t:?}: only refused by parse")) };
    let msg = plain(&a)?;
    ensure!(msg == plain(&b)?, "{t:?}: parse says {msg:?}, parse_to {b}");
    st.step(2);
    let (yason::BuildError::JsonError(a), yason::BuildError::JsonError(b)) = (&a, &b) else {
        st.outcome("other refusal");
        return Ok(());
    };
    ensure!((a.line(), a.column()) == (b.line(), b.column()), "{t:?}: parse and parse_to give other places");
    let (line, col) = (a.line(), a.column());
    let lines: Vec<&str> = t.split('\n').collect();
    ensure!(line >= 1 && line <= lines.len(), "{t:?}: line {line} of {}", lines.len());
    ensure!(col <= lines[line - 1].len() + 1, "{t:?}: column {col} of line {:?}", lines[line - 1]);
    names(&msg, &[("line", line as u128), ("column", col as u128)])?;
    // what precedes the place is the beginning of a text that reads the same up to there
    let own = serde_json::from_str::<serde_json::Value>(t).err().map(|e| (e.line(), e.column()));
    ensure!(own == Some((line, col)), "{t:?}: place {line}:{col} instead of {own:?}");
    st.outcome("place in the JSON text");
    Ok(())
}

pub fn c24(c: &mut Ctx) {
    use yason::{ArrayBuilder, BuildError, NumberError, ObjectBuilder};
    c.family("every type code");
    for code in 0..=255u8 {
        c.case(
            || format!("type code {code}"),
            |st| {
                st.step(4);
                match DataType::try_from(code) {
                    Ok(t) => {
                        ensure!((1..=6).contains(&code) && t == read::TYPES[code as usize - 1], "code {code} is {t:?}");
                        ensure!(u8::from(t) == code && t as u8 == code, "{t:?} has another code");
                        ensure!(t.name() == t.to_string().to_lowercase(), "{t} is called {}", t.name());
                        ensure!(t.name() == ["object", "array", "string", "number", "bool", "null"][code as usize - 1], "{t:?} is called {}", t.name());
                        st.outcome("supported");
                    }
                    Err(e) => {
                        ensure!(!(1..=6).contains(&code), "code {code} is refused");
                        names(&plain(&e)?, &[("", code as u128)])?;
                        names(&plain(&YasonError::InvalidDataType(code))?, &[("", code as u128)])?;
                        st.outcome("unsupported");
                    }
                }
                Ok(())
            },
        );
    }
    c.family("every error value made by hand");
    let mags = magnitudes();
    for &a in &mags {
        c.case(
            || format!("errors about {a}"),
            |st| {
                for e in [BuildError::StringTooLong(a), BuildError::TooManyElements(a), BuildError::SizeTooLarge(a)] {
                    let own = plain(&e)?;
                    names(&own, &[("", a as u128)])?;
                    let outer = YasonError::from(e);
                    ensure!(matches!(outer, YasonError::BuildError(_)), "a build error becomes {outer:?}");
                    ensure!(plain(&outer)? == own, "{own:?} becomes {:?}", outer.to_string());
                    let outer = FormatError::from(outer);
                    ensure!(matches!(outer, FormatError::YasonError(YasonError::BuildError(_))), "an access error becomes {outer:?}");
                    ensure!(plain(&outer)? == own, "{own:?} becomes {:?}", outer.to_string());
                    st.step(3);
                }
                for &b in &magnitudes() {
                    let e = YasonError::IndexOutOfBounds { len: a, index: b };
                    names(&plain(&e)?, &[("len", a as u128), ("index", b as u128)])?;
                    st.step(1);
                    if let (Ok(a), Ok(b)) = (u16::try_from(a), u16::try_from(b)) {
                        let e = BuildError::InconsistentElementCount { expected: a, actual: b };
                        names(&plain(&e)?, &[("expect", a as u128), ("actual", b as u128)])?;
                        st.step(1);
                    }
                }
                st.outcome("numbers");
                Ok(())
            },
        );
    }
    c.case(
        || "errors about types, and errors without values".into(),
        |st| {
            for a in read::TYPES {
                for b in read::TYPES {
                    names_types(&plain(&YasonError::UnexpectedType { expected: a, actual: b })?, a, b)?;
                }
            }
            let few: Vec<Box<dyn std::error::Error>> = vec![
                Box::new(BuildError::InnerUncompletedError),
                Box::new(BuildError::NestedTooDeeply),
                Box::new(BuildError::NumberError(NumberError::Overflow)),
                Box::new(BuildError::NumberError(NumberError::FormatError)),
                Box::new(YasonError::MultiValuesWithoutWrapper),
                Box::new(YasonError::InvalidPathExpression),
                Box::new(FormatError::FmtError(std::fmt::Error)),
                Box::new(BuildError::TryReserveError(Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err())),
            ];
            let texts: Vec<String> = few.iter().map(|e| plain(&**e)).collect::<Result<_, _>>()?;
            for (i, a) in texts.iter().enumerate() {
                ensure!(!texts[..i].contains(a), "two different errors say {a:?}");
            }
            ensure!(NumberError::Overflow.to_string() == texts[2] && NumberError::FormatError.to_string() == texts[3], "number errors change their message");
            let full = || Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err();
            ensure!(matches!(BuildError::from(full()), BuildError::TryReserveError(_)), "an allocation error becomes something else");
            ensure!(matches!(YasonError::from(BuildError::from(full())), YasonError::TryReserveError(_)), "an allocation error becomes something else");
            ensure!(YasonError::from(BuildError::from(full())).to_string() == full().to_string(), "an allocation error changes its message");
            ensure!(matches!(FormatError::from(std::fmt::Error), FormatError::FmtError(_)), "a writer error becomes something else");
            st.step(60);
            st.outcome("types and kinds");
            Ok(())
        },
    );

    c.family("every count mismatch up to 40, every index and type of small containers: the messages of errors that happen");
    for declared in 0..=40u16 {
        c.case(
            || format!("{declared} elements declared"),
            |st| {
                for pushed in 0..=declared {
                    let mut a = ArrayBuilder::try_new(declared).map_err(|e| e.to_string())?;
                    let mut o = ObjectBuilder::try_new(declared, false).map_err(|e| e.to_string())?;
                    let items: Vec<(String, M)> = (0..pushed).map(|i| (i.to_string(), n(i as i64))).collect();
                    let values: Vec<M> = items.iter().map(|x| x.1.clone()).collect();
                    build::fill_arr(&mut a, &values, build::Order::Listed).map_err(|e| e.to_string())?;
                    build::fill_obj(&mut o, &items, build::Order::Listed).map_err(|e| e.to_string())?;
                    let want = [("expect", declared as u128), ("actual", pushed as u128)];
                    st.step(2);
                    match (a.finish(), o.finish()) {
                        (Ok(_), Ok(_)) if pushed == declared => {}
                        (Err(a), Err(o)) if pushed < declared => {
                            names(&plain(&a)?, &want)?;
                            names(&plain(&o)?, &want)?;
                        }
                        _ => return Err(format!("{pushed} of {declared} elements: not refused or not accepted")),
                    }
                }
                st.outcome("counts");
                Ok(())
            },
        );
    }
    let max = c.pick(4, 5);
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(
            || format!("messages of refused reads of {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                let y = build::doc(&m)?;
                st.step(messages(&y, &m)?);
                st.outcome("refused reads");
                Ok(())
            },
        );
    };
    small(c, max, &mut |c, mk| run(c, mk));
    let mut v: Vec<M> = gen::rich().iter().flat_map(gen::contexts).collect();
    v.extend([9, 10, 11, 99, 100, 101, 255, 256, 257, 1000].into_iter().flat_map(|w| [gen::wide(w, 3), gen::wide(w, 0)]));
    list(c, "every encoding class in every position, many elements", v, &mut |c, mk| run(c, mk));
    c.family("strings, keys, counts and sizes beyond the limits");
    for len in [65536usize, 65537, 65791, 65792, 131071, 131072, 131073, 1 << 20] {
        c.case(
            || format!("a key of {len} bytes"),
            |st| {
                let key = "k".repeat(len);
                let mut o = ObjectBuilder::try_new(1, false).map_err(|e| e.to_string())?;
                for r in [
                    o.push_null(&key).map(|_| ()),
                    o.push_string(&key, "v").map(|_| ()),
                    o.push_bool(&key, true).map(|_| ()),
                    o.push_number(&key, yason::Number::from(1)).map(|_| ()),
                    o.push_object(&key, 1, true).map(|_| ()),
                    o.push_array(&key, 1).map(|_| ()),
                ] {
                    match r {
                        Err(e @ BuildError::StringTooLong(_)) => names(&plain(&e)?, &[("", len as u128)])?,
                        r => return Err(format!("{r:?}")),
                    }
                    st.step(1);
                }
                st.outcome("long key");
                Ok(())
            },
        );
        c.case(
            || format!("{len} elements in a JSON text"),
            |st| {
                let arr = format!("[{}0]", "0,".repeat(len - 1));
                let mut obj = String::from("{");
                for i in 0..len {
                    let _ = write!(obj, "{}\"{i}\":0", if i > 0 { "," } else { "" });
                }
                obj.push('}');
                for t in [arr, obj] {
                    for r in [YasonBuf::parse(&t).map(|_| ()), Yason::parse_to(&mut vec![], &t).map(|_| ())] {
                        match r {
                            Err(e @ BuildError::TooManyElements(_)) => names(&plain(&e)?, &[("", len as u128)])?,
                            r => return Err(format!("{r:?}")),
                        }
                        st.step(1);
                    }
                }
                st.outcome("many elements");
                Ok(())
            },
        );
    }
    let t = c.pick(1, 0);
    paths::texts(c, t, &|t, st| path_error(t, st));
    c.family("paths behind spaces, long tokens, long lists");
    for (a, b, z) in [("", " ", "x"), ("", " ", "$x"), ("$", " ", "x"), ("$.", "a", "(x"), ("$.a", " ", "x"), ("$[", "0,", "]"), ("$[", "0", "x"), ("$[0", " ", "x"), ("$.\"", "a", ""), ("$.\"", "\u{e9}", "\\x\""), ("$", ".a", "."), ("$", "[0]", "["), ("$", "..a", "!"), ("$[", "last,", "to"), ("$.", "a", "()"), ("$.size(", " ", "x"), ("$.size()", " ", "x"), ("$[", "1", "]"), ("$[last-", "1", "]")] {
        for l in (0..300).chain([1000, 65535, 65536, 100000]) {
            let t = format!("{a}{}{z}", b.repeat(l));
            c.case(|| format!("path {}", clip(&t, 100)), |st| path_error(&t, st));
        }
    }
    let toks = ["[", "]", "{", "}", ",", ":", "1", "\"a\"", "null", "\n", "tru", "\"", "\u{e9}"];
    let len = c.pick(4, 5);
    c.family(&format!("every JSON text of up to {len} of the tokens {toks:?}"));
    super::json::words(&toks, len, &mut |t| c.case(|| format!("JSON text {t:?}"), |st| json_error(t, st)));
    c.family("JSON texts that stop being valid behind much that is");
    for pre in ["[1,", "[1,\n", "{\"k\":\n\n[true,", "[\"\u{e9}\u{1f600}\",\r\n", "[\"\\n\","] {
        for l in (1..60).chain([255, 256, 1000, 65535]) {
            for bad in ["", "}", "x", "1 1", "\"", "01", "[1", "\"\\x\"", "-", "1e", "\u{0}"] {
                let t = format!("{}{bad}", pre.repeat(l));
                if l <= 90 || !pre.contains('{') {
                    c.case(|| format!("JSON text {}", clip(&format!("{t:?}"), 200)), |st| json_error(&t, st));
                }
            }
        }
    }
}

/// The messages of every wrong-type and out-of-range read of the document and its parts.
fn messages(y: &Yason, m: &M) -> Result<u64, String> {
    fn wrong<T>(r: Result<T, YasonError>, x: DataType, t: DataType) -> R {
        match r {
            Err(e) => names_types(&plain(&e)?, x, t),
            Ok(_) => Err(format!("{t} read as {x}")),
        }
    }
    let t = m.ty();
    let mut k = 0;
    for x in read::TYPES.into_iter().filter(|x| *x != t) {
        k += 1;
        match x {
            DataType::Object => wrong(y.object(), x, t)?,
            DataType::Array => wrong(y.array(), x, t)?,
            DataType::String => wrong(y.string(), x, t)?,
            DataType::Number => wrong(y.number(), x, t)?,
            DataType::Bool => wrong(y.bool(), x, t)?,
            DataType::Null => {}
        }
    }
    match m {
        M::Arr(v) => {
            let a = y.array().map_err(|e| e.to_string())?;
            for i in [v.len(), v.len() + 1, v.len() + 9, 1 << 16, 1 << 40] {
                if i < v.len() {
                    continue;
                }
                let want = [("len", v.len() as u128), ("index", i as u128)];
                for e in [a.get(i).err(), a.type_of(i).err(), a.is_null(i).err(), a.bool(i).err(), a.string(i).err(), a.number(i).err(), a.object(i).err(), a.array(i).err()] {
                    names(&plain(&e.ok_or("an index out of range is read")?)?, &want)?;
                    k += 1;
                }
            }
            for (i, m) in v.iter().enumerate() {
                let t = m.ty();
                for x in read::TYPES.into_iter().filter(|x| *x != t) {
                    k += 1;
                    match x {
                        DataType::Object => wrong(a.object(i), x, t)?,
                        DataType::Array => wrong(a.array(i), x, t)?,
                        DataType::String => wrong(a.string(i), x, t)?,
                        DataType::Number => wrong(a.number(i), x, t)?,
                        DataType::Bool => wrong(a.bool(i), x, t)?,
                        DataType::Null => {}
                    }
                }
            }
        }
        M::Obj(v) => {
            let o = y.object().map_err(|e| e.to_string())?;
            for (key, m) in v {
                let t = m.ty();
                for x in read::TYPES.into_iter().filter(|x| *x != t) {
                    k += 1;
                    match x {
                        DataType::Object => wrong(o.object(key), x, t)?,
                        DataType::Array => wrong(o.array(key), x, t)?,
                        DataType::String => wrong(o.string(key), x, t)?,
                        DataType::Number => wrong(o.number(key), x, t)?,
                        DataType::Bool => wrong(o.bool(key), x, t)?,
                        DataType::Null => {}
                    }
                }
            }
        }
        _ => {}
    }
    Ok(k)
}
