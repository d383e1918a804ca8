//! Observes a document through every accessor and compares with the model.
use crate::ctx::{clip, R};
use crate::ensure;
use crate::model::{key_cmp, member_order, Dec, M};
use yason::{Array, DataType, Number, Object, Value, Yason, YasonError, YasonBuf};

pub const TYPES: [DataType; 6] =
    [DataType::Object, DataType::Array, DataType::String, DataType::Number, DataType::Bool, DataType::Null];

fn num_ok(n: &Number, m: &M) -> bool {
    matches!(m, M::Num(v) if Dec::of(n) == v.dec())
}

/// A value compared with the model; containers only by type and bytes-level identity (see `same_bytes`).
fn shallow(v: &Value, m: &M) -> Result<(), String> {
    ensure!(v.data_type() == m.ty(), "type {} instead of {}", v.data_type(), m.ty());
    let ok = match (v, m) {
        (Value::Null, M::Null) => true,
        (Value::Bool(a), M::Bool(b)) => a == b,
        (Value::String(a), M::Str(b)) => a == b,
        (Value::Number(a), m) => num_ok(a, m),
        (Value::Object(_), M::Obj(_)) | (Value::Array(_), M::Arr(_)) => true,
        _ => false,
    };
    ensure!(ok, "value {} instead of {}", clip(&format!("{v:?}"), 200), m.show());
    Ok(())
}

/// Full recursive comparison of a value.
pub fn value(v: &Value, m: &M) -> R {
    shallow(v, m)?;
    match v {
        Value::Object(o) => object(o, m),
        Value::Array(a) => array(a, m),
        _ => Ok(()),
    }
}

fn bytes_of<'a>(v: &'a Value<'_>) -> Option<&'a [u8]> {
    match v {
        Value::Object(o) => Some(o.yason().as_bytes()),
        Value::Array(a) => Some(a.yason().as_bytes()),
        _ => None,
    }
}

/// Another route to the same value must give the same thing.
fn again(what: &str, v: &Value, first: &Value, m: &M) -> R {
    shallow(v, m).map_err(|e| format!("{what}: {e}"))?;
    ensure!(bytes_of(v) == bytes_of(first), "{what}: other bytes than get()");
    Ok(())
}

fn e(what: &str) -> impl Fn(YasonError) -> String + '_ {
    move |x| format!("{what}: unexpected error {x}")
}

/// The whole document through every positive route.
pub fn doc(y: &Yason, m: &M) -> R {
    let ty = y.data_type().map_err(e("data_type"))?;
    ensure!(ty == m.ty(), "data_type {ty} instead of {}", m.ty());
    ensure!(y.is_null().map_err(e("is_null"))? == (*m == M::Null), "is_null wrong for {}", m.show());
    let v = Value::try_from(y).map_err(e("Value::try_from"))?;
    shallow(&v, m)?;
    match m {
        M::Null => Ok(()),
        M::Bool(b) => {
            ensure!(y.bool().map_err(e("bool"))? == *b, "bool() wrong for {}", m.show());
            Ok(())
        }
        M::Num(_) => {
            let n = y.number().map_err(e("number"))?;
            ensure!(num_ok(&n, m), "number() gives {n} for {}", m.show());
            Ok(())
        }
        M::Str(s) => {
            let r = y.string().map_err(e("string"))?;
            ensure!(r == s, "string() gives {:?} for {}", clip(r, 100), m.show());
            Ok(())
        }
        M::Arr(_) => {
            let a = y.array().map_err(e("array"))?;
            ensure!(bytes_of(&v) == Some(a.yason().as_bytes()), "array() and Value::try_from differ");
            array(&a, m)
        }
        M::Obj(_) => {
            let o = y.object().map_err(e("object"))?;
            ensure!(bytes_of(&v) == Some(o.yason().as_bytes()), "object() and Value::try_from differ");
            object(&o, m)
        }
    }
}

pub fn array(a: &Array, m: &M) -> R {
    let M::Arr(ms) = m else { return Err("model is not an array".into()) };
    let len = a.len().map_err(e("len"))?;
    ensure!(len == ms.len(), "array len {len} instead of {}", ms.len());
    ensure!(a.is_empty().map_err(e("is_empty"))? == ms.is_empty(), "array is_empty wrong");
    let mut it = a.iter().map_err(e("iter"))?;
    for (i, m) in ms.iter().enumerate() {
        let w = |x: String| format!("[{i}]: {x}");
        let first = a.get(i).map_err(e("get")).map_err(w)?;
        shallow(&first, m).map_err(w)?;
        let v = it.next().ok_or_else(|| w("iter ended early".into()))?.map_err(e("iter")).map_err(w)?;
        again("iter", &v, &first, m).map_err(w)?;
        let v = unsafe { a.get_unchecked(i) }.map_err(e("get_unchecked")).map_err(w)?;
        again("get_unchecked", &v, &first, m).map_err(w)?;
        let t = a.type_of(i).map_err(e("type_of")).map_err(w)?;
        ensure!(t == m.ty(), "[{i}]: type_of {t} instead of {}", m.ty());
        for t in TYPES {
            let r = a.is_type(i, t).map_err(e("is_type")).map_err(w)?;
            ensure!(r == (t == m.ty()), "[{i}]: is_type({t}) is {r} for {}", m.show());
        }
        ensure!(a.is_null(i).map_err(e("is_null")).map_err(w)? == (*m == M::Null), "[{i}]: is_null wrong");
        match m {
            M::Null => {}
            M::Bool(b) => ensure!(a.bool(i).map_err(e("bool")).map_err(w)? == *b, "[{i}]: bool() wrong"),
            M::Num(_) => {
                let n = a.number(i).map_err(e("number")).map_err(w)?;
                ensure!(num_ok(&n, m), "[{i}]: number() gives {n} for {}", m.show());
            }
            M::Str(s) => {
                let r = a.string(i).map_err(e("string")).map_err(w)?;
                ensure!(r == s, "[{i}]: string() gives {:?} for {}", clip(r, 100), m.show());
            }
            M::Arr(_) => {
                let v = Value::Array(a.array(i).map_err(e("array")).map_err(w)?);
                again("array()", &v, &first, m).map_err(w)?;
            }
            M::Obj(_) => {
                let v = Value::Object(a.object(i).map_err(e("object")).map_err(w)?);
                again("object()", &v, &first, m).map_err(w)?;
            }
        }
        value(&first, m).map_err(w)?;
    }
    ensure!(it.next().is_none(), "iter yields more than {} elements", ms.len());
    ensure!(it.next().is_none(), "iter resumes after its end");
    Ok(())
}

pub fn object(o: &Object, m: &M) -> R {
    let M::Obj(ms) = m else { return Err("model is not an object".into()) };
    let len = o.len().map_err(e("len"))?;
    ensure!(len == ms.len(), "object len {len} instead of {}", ms.len());
    ensure!(o.is_empty().map_err(e("is_empty"))? == ms.is_empty(), "object is_empty wrong");
    let mut it = o.iter().map_err(e("iter"))?;
    let mut ki = o.key_iter().map_err(e("key_iter"))?;
    let mut vi = o.value_iter().map_err(e("value_iter"))?;
    for i in member_order(ms) {
        let (k, m) = (ms[i].0.as_str(), &ms[i].1);
        let w = |x: String| format!(".{:?}: {x}", clip(k, 60));
        let none = || w("key not found".into());
        let first = o.get(k).map_err(e("get")).map_err(w)?.ok_or_else(none)?;
        shallow(&first, m).map_err(w)?;
        let (ik, iv) = it.next().ok_or_else(|| w("iter ended early".into()))?.map_err(e("iter")).map_err(w)?;
        ensure!(ik == k, "iter gives key {:?} where {:?} is due", clip(ik, 60), clip(k, 60));
        again("iter", &iv, &first, m).map_err(w)?;
        let kk = ki.next().ok_or_else(|| w("key_iter ended early".into()))?.map_err(e("key_iter")).map_err(w)?;
        ensure!(kk == k, "key_iter gives {:?} where {:?} is due", clip(kk, 60), clip(k, 60));
        let vv = vi.next().ok_or_else(|| w("value_iter ended early".into()))?.map_err(e("value_iter")).map_err(w)?;
        again("value_iter", &vv, &first, m).map_err(w)?;
        ensure!(o.contains_key(k).map_err(e("contains_key")).map_err(w)?, ".{:?}: contains_key false", clip(k, 60));
        let t = o.type_of(k).map_err(e("type_of")).map_err(w)?.ok_or_else(none)?;
        ensure!(t == m.ty(), ".{k:?}: type_of {t} instead of {}", m.ty());
        for t in TYPES {
            let r = o.is_type(k, t).map_err(e("is_type")).map_err(w)?.ok_or_else(none)?;
            ensure!(r == (t == m.ty()), ".{k:?}: is_type({t}) is {r} for {}", m.show());
        }
        let z = o.is_null(k).map_err(e("is_null")).map_err(w)?.ok_or_else(none)?;
        ensure!(z == (*m == M::Null), ".{k:?}: is_null wrong");
        match m {
            M::Null => {}
            M::Bool(b) => {
                let r = o.bool(k).map_err(e("bool")).map_err(w)?.ok_or_else(none)?;
                ensure!(r == *b, ".{k:?}: bool() wrong");
            }
            M::Num(_) => {
                let n = o.number(k).map_err(e("number")).map_err(w)?.ok_or_else(none)?;
                ensure!(num_ok(&n, m), ".{k:?}: number() gives {n} for {}", m.show());
            }
            M::Str(s) => {
                let r = o.string(k).map_err(e("string")).map_err(w)?.ok_or_else(none)?;
                ensure!(r == s, ".{k:?}: string() gives {:?} for {}", clip(r, 100), m.show());
            }
            M::Arr(_) => {
                let v = Value::Array(o.array(k).map_err(e("array")).map_err(w)?.ok_or_else(none)?);
                again("array()", &v, &first, m).map_err(w)?;
            }
            M::Obj(_) => {
                let v = Value::Object(o.object(k).map_err(e("object")).map_err(w)?.ok_or_else(none)?);
                again("object()", &v, &first, m).map_err(w)?;
            }
        }
        value(&first, m).map_err(w)?;
    }
    ensure!(it.next().is_none() && it.next().is_none(), "iter yields more than {} entries", ms.len());
    ensure!(ki.next().is_none() && ki.next().is_none(), "key_iter yields more than {} keys", ms.len());
    ensure!(vi.next().is_none() && vi.next().is_none(), "value_iter yields more than {} values", ms.len());
    Ok(())
}

/// Reads the document into a model through generic iteration only.
pub fn model(y: &Yason) -> Result<M, String> {
    model_of(&Value::try_from(y).map_err(e("Value::try_from"))?)
}

pub fn model_of(v: &Value) -> Result<M, String> {
    Ok(match v {
        Value::Null => M::Null,
        Value::Bool(b) => M::Bool(*b),
        Value::Number(n) => M::Num(crate::model::Nm::of(n)),
        Value::String(s) => M::Str(s.to_string()),
        Value::Array(a) => {
            let mut out = vec![];
            for v in a.iter().map_err(e("iter"))? {
                out.push(model_of(&v.map_err(e("iter"))?)?);
            }
            M::Arr(out)
        }
        Value::Object(o) => {
            let mut out = vec![];
            for v in o.iter().map_err(e("iter"))? {
                let (k, v) = v.map_err(e("iter"))?;
                out.push((k.to_string(), model_of(&v)?));
            }
            M::Obj(out)
        }
    })
}

/// Value known to denote the model (read through iteration), for results of queries.
pub fn is(v: &Value, m: &M) -> R {
    let r = model_of(v)?;
    ensure!(r.same(m), "{} instead of {}", r.show(), m.show());
    Ok(())
}

// ---- refused reads -------------------------------------------------------------------------------------

fn mismatch<T>(r: Result<T, YasonError>, what: &str, expected: DataType, actual: DataType) -> R {
    match r {
        Err(YasonError::UnexpectedType { expected: x, actual: a }) if x == expected && a == actual => Ok(()),
        Err(x) => Err(format!("{what} of {actual} fails with {x:?}")),
        Ok(_) => Err(format!("{what} of {actual} succeeds")),
    }
}

fn oob<T>(r: Result<T, YasonError>, what: &str, l: usize, i: usize) -> R {
    match r {
        Err(YasonError::IndexOutOfBounds { len, index }) if len == l && index == i => Ok(()),
        Err(x) => Err(format!("{what}({i}) of {l} elements fails with {x:?}")),
        Ok(_) => Err(format!("{what}({i}) of {l} elements succeeds")),
    }
}

fn absent<T>(r: Result<Option<T>, YasonError>, what: &str, k: &str) -> R {
    match r {
        Ok(None) => Ok(()),
        Ok(Some(_)) => Err(format!("{what}({:?}) finds a value", clip(k, 60))),
        Err(x) => Err(format!("{what}({:?}) fails with {x:?}", clip(k, 60))),
    }
}

/// Every wrong-type, out-of-range and missing access of the document and its parts. Returns accesses made.
pub fn refused(y: &Yason, m: &M) -> Result<u64, String> {
    let t = m.ty();
    let mut n = 0;
    for x in TYPES {
        if x == t {
            continue;
        }
        n += 1;
        match x {
            DataType::Object => mismatch(y.object(), "object()", x, t)?,
            DataType::Array => mismatch(y.array(), "array()", x, t)?,
            DataType::String => mismatch(y.string(), "string()", x, t)?,
            DataType::Number => mismatch(y.number(), "number()", x, t)?,
            DataType::Bool => mismatch(y.bool(), "bool()", x, t)?,
            DataType::Null => ensure!(matches!(y.is_null(), Ok(false)), "is_null() of {t}"),
        }
    }
    match m {
        M::Arr(v) => Ok(n + refused_array(&y.array().map_err(e("array"))?, v)?),
        M::Obj(v) => Ok(n + refused_object(&y.object().map_err(e("object"))?, v)?),
        _ => Ok(n),
    }
}

fn refused_array(a: &Array, ms: &[M]) -> Result<u64, String> {
    let l = ms.len();
    let mut n = 0;
    for i in [l, l + 1, l + 2, l + 255, l + 256, l + 65536, l * 2 + 1, 1 << 31, 1 << 32, usize::MAX / 5, usize::MAX / 5 + 1, usize::MAX] {
        if i < l {
            continue;
        }
        oob(a.get(i), "get", l, i)?;
        oob(a.type_of(i), "type_of", l, i)?;
        for t in TYPES {
            oob(a.is_type(i, t), "is_type", l, i)?;
        }
        oob(a.is_null(i), "is_null", l, i)?;
        oob(a.object(i), "object", l, i)?;
        oob(a.array(i), "array", l, i)?;
        oob(a.string(i), "string", l, i)?;
        oob(a.number(i), "number", l, i)?;
        oob(a.bool(i), "bool", l, i)?;
        n += 14;
    }
    for (i, m) in ms.iter().enumerate() {
        let w = |x: String| format!("[{i}]: {x}");
        let t = m.ty();
        for x in TYPES {
            if x == t {
                continue;
            }
            n += 1;
            match x {
                DataType::Object => mismatch(a.object(i), "object()", x, t).map_err(w)?,
                DataType::Array => mismatch(a.array(i), "array()", x, t).map_err(w)?,
                DataType::String => mismatch(a.string(i), "string()", x, t).map_err(w)?,
                DataType::Number => mismatch(a.number(i), "number()", x, t).map_err(w)?,
                DataType::Bool => mismatch(a.bool(i), "bool()", x, t).map_err(w)?,
                DataType::Null => ensure!(matches!(a.is_null(i), Ok(false)), "[{i}]: is_null() of {t}"),
            }
        }
        for x in TYPES {
            n += 1;
            ensure!(matches!(a.is_type(i, x), Ok(b) if b == (x == t)), "[{i}]: is_type({x}) of {t}");
        }
        n += match a.get(i).map_err(e("get")).map_err(w)? {
            Value::Object(o) => refused(o.yason(), m).map_err(w)?,
            Value::Array(o) => refused(o.yason(), m).map_err(w)?,
            _ => 0,
        };
    }
    Ok(n)
}

/// Keys that are near the given keys but not among them.
pub fn other_keys(keys: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "b", "z", "aa", "ab", "A", "\0", "\u{7f}", "é", "zz", "aaa"].iter().map(|s| s.to_string()).collect();
    let near: &[&str] = if keys.len() > 64 { &keys[..64] } else { keys };
    for k in near {
        let k = if k.len() > 70000 { continue } else { k.to_string() };
        v.push(format!("{k}a"));
        v.push(format!("a{k}"));
        v.push(format!("{k}\0"));
        let mut c: Vec<char> = k.chars().collect();
        if let Some(l) = c.pop() {
            v.push(c.iter().collect());
            for d in [1i32, -1] {
                if let Some(x) = char::from_u32((l as i32 + d) as u32) {
                    v.push(c.iter().chain(std::iter::once(&x)).collect());
                }
            }
        }
        let up = k.to_uppercase();
        v.push(up);
    }
    v.sort_by(|a, b| key_cmp(a, b));
    v.dedup();
    let have: std::collections::HashSet<&str> = keys.iter().copied().collect();
    v.retain(|k| !have.contains(k.as_str()));
    v
}

fn refused_object(o: &Object, ms: &[(String, M)]) -> Result<u64, String> {
    let mut n = 0;
    let keys: Vec<&str> = ms.iter().map(|m| m.0.as_str()).collect();
    for k in other_keys(&keys) {
        let k = k.as_str();
        absent(o.get(k), "get", k)?;
        absent(o.type_of(k), "type_of", k)?;
        for t in TYPES {
            absent(o.is_type(k, t), "is_type", k)?;
        }
        absent(o.is_null(k), "is_null", k)?;
        ensure!(matches!(o.contains_key(k), Ok(false)), "contains_key({:?}) true", clip(k, 60));
        absent(o.object(k), "object", k)?;
        absent(o.array(k), "array", k)?;
        absent(o.string(k), "string", k)?;
        absent(o.number(k), "number", k)?;
        absent(o.bool(k), "bool", k)?;
        n += 15;
    }
    for (k, m) in ms {
        let w = |x: String| format!(".{:?}: {x}", clip(k, 60));
        let t = m.ty();
        for x in TYPES {
            if x == t {
                continue;
            }
            n += 1;
            match x {
                DataType::Object => mismatch(o.object(k), "object()", x, t).map_err(w)?,
                DataType::Array => mismatch(o.array(k), "array()", x, t).map_err(w)?,
                DataType::String => mismatch(o.string(k), "string()", x, t).map_err(w)?,
                DataType::Number => mismatch(o.number(k), "number()", x, t).map_err(w)?,
                DataType::Bool => mismatch(o.bool(k), "bool()", x, t).map_err(w)?,
                DataType::Null => ensure!(matches!(o.is_null(k), Ok(Some(false))), ".{k:?}: is_null() of {t}"),
            }
        }
        for x in TYPES {
            n += 1;
            ensure!(matches!(o.is_type(k, x), Ok(Some(b)) if b == (x == t)), ".{k:?}: is_type({x}) of {t}");
        }
        n += match o.get(k).map_err(e("get")).map_err(w)?.ok_or_else(|| w("not found".into()))? {
            Value::Object(c) => refused(c.yason(), m).map_err(w)?,
            Value::Array(c) => refused(c.yason(), m).map_err(w)?,
            _ => 0,
        };
    }
    Ok(n)
}

pub fn buf_is(y: &YasonBuf, m: &M) -> R {
    doc(y, m)
}

// ---- iterators driven in every way ---------------------------------------------------------------------

/// Every program of up to `depth` partial consumptions (next, nth), then every way of consuming the rest, against
/// the list of items. Returns the number of items compared.
fn iterator<I: Iterator>(what: &str, depth: usize, mk: &dyn Fn() -> Result<I, String>, show: &dyn Fn(I::Item) -> String, want: &[String]) -> Result<u64, String> {
    let n = want.len();
    let skips = [usize::MAX, 0, 1, 2, n];
    let mut steps = 0;
    let programs: usize = (0..=depth).map(|d| skips.len().pow(d as u32)).sum();
    for p in 0..programs {
        // the program as digits
        let (mut rest, mut d) = (p, 0);
        while rest >= skips.len().pow(d) {
            rest -= skips.len().pow(d);
            d += 1;
        }
        let prog: Vec<usize> = (0..d).map(|i| skips[rest / skips.len().pow(i) % skips.len()]).collect();
        for end in 0..8 {
            let mut it = mk()?;
            let mut at = 0usize;
            let ctx = || format!("{what}: after {:?}", prog.iter().map(|s| if *s == usize::MAX { "next".to_string() } else { format!("nth({s})") }).collect::<Vec<_>>());
            let hint = |it: &I, at: usize| -> R {
                let (lo, hi) = it.size_hint();
                let left = n.saturating_sub(at);
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size_hint {lo}..{hi:?} with {left} items left", ctx());
                Ok(())
            };
            for s in &prog {
                let (got, skip) = if *s == usize::MAX { (it.next(), 0) } else { (it.nth(*s), *s) };
                let w = want.get(at + skip);
                at = (at + skip + 1).min(n + 1);
                let got = got.map(show);
                ensure!(got.as_ref() == w, "{}: {got:?} instead of {w:?}", ctx());
                hint(&it, at.min(n))?;
                steps += 1;
            }
            let left = &want[at.min(n)..];
            let (got, w): (Vec<String>, Vec<String>) = match end {
                0 => (it.map(show).collect(), left.to_vec()),
                1 => (vec![it.count().to_string()], vec![left.len().to_string()]),
                2 => (it.last().map(show).into_iter().collect(), left.last().cloned().into_iter().collect()),
                3 => {
                    let mut v = vec![];
                    it.for_each(|x| v.push(show(x)));
                    (v, left.to_vec())
                }
                4 => (it.skip(1).map(show).collect(), left.iter().skip(1).cloned().collect()),
                5 => (it.step_by(2).map(show).collect(), left.iter().step_by(2).cloned().collect()),
                6 => {
                    let mut v: Vec<String> = it.by_ref().take(1).map(show).collect();
                    v.extend(it.map(show));
                    (v, left.to_vec())
                }
                _ => {
                    // past the end it stays at the end
                    let mut v = vec![];
                    for x in it.by_ref() {
                        v.push(show(x));
                    }
                    ensure!(it.next().is_none() && it.nth(0).is_none() && it.nth(3).is_none() && it.next().is_none(), "{}: resumes after its end", ctx());
                    hint(&it, n)?;
                    (v, left.to_vec())
                }
            };
            steps += 1 + w.len() as u64;
            ensure!(got == w, "{}, end {end}: {got:?} instead of {w:?}", ctx());
        }
    }
    Ok(steps)
}

fn text_of(v: Value) -> String {
    match model_of(&v) {
        Ok(m) => m.show(),
        Err(e) => format!("unreadable: {e}"),
    }
}

/// The iterators of the document's root.
pub fn iterators(y: &Yason, m: &M, depth: usize) -> Result<u64, String> {
    let er = |x: YasonError| format!("error {x}");
    match m {
        M::Arr(v) => {
            let a = y.array().map_err(er)?;
            let want: Vec<String> = v.iter().map(|m| m.canonical().show()).collect();
            iterator("Array::iter", depth, &|| a.iter().map_err(er), &|x| x.map_or_else(er, text_of), &want)
        }
        M::Obj(v) => {
            let o = y.object().map_err(er)?;
            let order = member_order(v);
            let keys: Vec<String> = order.iter().map(|i| v[*i].0.clone()).collect();
            let vals: Vec<String> = order.iter().map(|i| v[*i].1.canonical().show()).collect();
            let both: Vec<String> = keys.iter().zip(&vals).map(|(k, v)| format!("{k}: {v}")).collect();
            let mut k = iterator("Object::iter", depth, &|| o.iter().map_err(er), &|x| x.map_or_else(er, |(k, v)| format!("{k}: {}", text_of(v))), &both)?;
            k += iterator("Object::key_iter", depth, &|| o.key_iter().map_err(er), &|x| x.map_or_else(er, |k| k.to_string()), &keys)?;
            k += iterator("Object::value_iter", depth, &|| o.value_iter().map_err(er), &|x| x.map_or_else(er, text_of), &vals)?;
            Ok(k)
        }
        _ => Ok(0),
    }
}
