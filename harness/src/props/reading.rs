//! C01 build->read, C18 truncated documents, C22 refused reads.
use super::*;
use crate::build::{self, Order, ORDERS};
use crate::ctx::{no_panic, R};
use crate::ensure;
use crate::read;
use yason::{PathExpression, Value, Yason, YasonBuf};

fn built(m: &M, o: Order, route: usize) -> Result<YasonBuf, String> {
    let e = |x: yason::BuildError| format!("building ({o:?}, route {route}) fails: {x}");
    match route {
        0 => build::owned(m, o).map_err(e),
        _ => {
            let mut buf = vec![0xEEu8; if route == 1 { 0 } else { 5 }];
            let y = build::into(m, o, &mut buf).map_err(e)?;
            Ok(y.to_owned())
        }
    }
}

pub fn c01(c: &mut Ctx) {
    let max = c.pick(5, 6);
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M, orders: &[Order], routes: &[usize]| {
        c.case(
            || format!("build and read {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                for o in orders {
                    for r in routes {
                        let y = built(&m, *o, *r)?;
                        read::doc(&y, &m).map_err(|e| format!("({o:?}, route {r}) {e}"))?;
                        st.step(m.nodes() as u64);
                    }
                }
                st.outcome(m.ty().name());
                Ok(())
            },
        );
    };
    small(c, max, &mut |c, mk| run(c, mk, &[Order::Listed, Order::Sorted], &[0, 2]));
    rich(c, &mut |c, mk| run(c, mk, &ORDERS, &[0, 1, 2]));
    deep(c, &mut |c, mk| run(c, mk, &[Order::Listed, Order::Sorted], &[0, 2]));
    let w = c.pick(5000, 65535);
    wide(c, w, &mut |c, mk| run(c, mk, &[Order::Listed, Order::Sorted], &[0, 2]));
    // every way of driving the iterators
    let depth = c.pick(2, 3);
    let iter = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(
            || format!("iterators of {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                let y = build::doc(&m)?;
                st.step(read::iterators(&y, &m, depth)?);
                st.outcome("iterators");
                Ok(())
            },
        );
    };
    c.family(&format!("iterators: every sequence of up to {depth} of next and nth, then every way of consuming the rest; all documents of up to 4 nodes"));
    gen::small(4, &mut |mk| iter(c, mk));
    list(c, "iterators of containers of every encoding class and of many elements", iter_docs(), &mut |c, mk| iter(c, mk));
    let (l, k) = c.pick((2200, 300), (9000, 2000));
    sizes(c, l, 262144, k, &mut |c, mk| run(c, mk, &[Order::Listed, Order::Sorted], &[0, 2]));
    giants(c, true, &mut |c, mk| run(c, mk, &[Order::Listed, Order::Sorted], &[0, 2]));
    combos(c, &mut |c, mk| run(c, mk, &[Order::Listed, Order::Sorted], &[0, 2]));
    if c.quick() {
        // the largest counts, once each
        list(c, "largest element counts", vec![gen::wide(32768, 3), gen::wide(65535, 3), gen::wide_obj(32768, 3), gen::wide_obj(65535, 3)], &mut |c, mk| {
            run(c, mk, &[Order::Sorted], &[0])
        });
    }
}

fn iter_docs() -> Vec<M> {
    let mut v: Vec<M> = gen::rich().iter().flat_map(|m| {
        let mut x = gen::contexts(m);
        x.truncate(6);
        x
    }).collect();
    for w in [5, 8, 9, 16, 17, 33, 100] {
        for kind in 0..5 {
            v.push(gen::wide(w, kind));
            v.push(gen::wide_obj(w, kind));
        }
    }
    v
}

pub fn c22(c: &mut Ctx) {
    let max = c.pick(4, 5);
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(
            || format!("refused reads of {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                let y = build::doc(&m)?;
                let k = read::refused(&y, &m)?;
                st.step(k);
                st.outcome(m.ty().name());
                Ok(())
            },
        );
    };
    small(c, max, &mut |c, mk| run(c, mk));
    rich(c, &mut |c, mk| run(c, mk));
    let w = c.pick(1000, 65535);
    wide(c, w, &mut |c, mk| run(c, mk));
    deep(c, &mut |c, mk| run(c, mk));
    let (l, k) = c.pick((1100, 200), (5000, 600));
    sizes(c, l, 131072, k, &mut |c, mk| run(c, mk));
    giants(c, true, &mut |c, mk| run(c, mk));
    combos(c, &mut |c, mk| run(c, mk));
    // keys of every length class: absent keys next to present ones
    let mut v = vec![];
    for l in [0usize, 1, 2, 254, 255, 256, 257, 65534, 65535] {
        for k in ["a", "é", "\0"] {
            let k = k.repeat(l / k.len());
            v.push(M::Obj(vec![(k.clone(), n(1))]));
            v.push(M::Obj(vec![("m".into(), n(2)), (k.clone() + "", n(1)), ("zz".into(), n(3))].into_iter().enumerate().filter(|(i, x): &(usize, (String, M))| *i == 1 || x.0 != k).map(|x| x.1).collect()));
        }
    }
    list(c, "keys of every length class", v, &mut |c, mk| run(c, mk));
}

// ---- C18 -----------------------------------------------------------------------------------------------

/// One read of a possibly truncated document: Ok(text of the observation) or an error.
type Obs = Result<String, String>;

fn er<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

fn val(v: Value) -> Obs {
    Ok(match v {
        Value::Object(o) => format!("object {:?}", o.yason().as_bytes()),
        Value::Array(a) => format!("array {:?}", a.yason().as_bytes()),
        Value::Number(n) => format!("number {:?}", crate::model::Dec::of(&n)),
        v => format!("{v:?}"),
    })
}

/// A named list of observations, computed lazily so that the truncated and complete documents run the same reads.
fn observations(y: &Yason, m: &M, full: &Yason, paths: &[PathExpression]) -> Vec<(String, Obs)> {
    let mut out: Vec<(String, Obs)> = vec![];
    let mut put = |k: String, f: &mut dyn FnMut() -> Obs| {
        let r = no_panic(&mut *f);
        out.push((k, match r {
            Ok(o) => o,
            Err(p) => Ok(format!("PANIC {p}")),
        }));
    };
    put("data_type".into(), &mut || y.data_type().map(|t| format!("{t}")).map_err(er));
    put("is_null".into(), &mut || y.is_null().map(|t| format!("{t}")).map_err(er));
    put("bool".into(), &mut || y.bool().map(|t| format!("{t}")).map_err(er));
    put("number".into(), &mut || val(Value::Number(y.number().map_err(er)?)));
    put("string".into(), &mut || y.string().map(|t| format!("{t:?}")).map_err(er));
    put("Value::try_from".into(), &mut || {
        // the container itself is the rest of the bytes: only its kind is observed here
        Ok(match Value::try_from(y).map_err(er)? {
            Value::Object(_) => "object".into(),
            Value::Array(_) => "array".into(),
            v => return val(v),
        })
    });
    for pretty in [false, true] {
        put(format!("format pretty={pretty}"), &mut || {
            let mut s = String::new();
            y.format_to(pretty, &mut s).map_err(er)?;
            Ok(s)
        });
        put(format!("Display pretty={pretty}"), &mut || {
            use std::fmt::Write;
            let mut s = String::new();
            write!(s, "{}", y.format(pretty)).map_err(er)?;
            Ok(s)
        });
    }
    put("equals complete".into(), &mut || y.equals(full).map(|b| format!("{b}")).map_err(er));
    put("complete equals".into(), &mut || full.equals(y).map(|b| format!("{b}")).map_err(er));
    for (i, p) in paths.iter().enumerate() {
        put(format!("query {i}"), &mut || {
            let mut s = String::new();
            let q = p.query(y, true, None, None).map_err(er)?;
            q.format_to(false, &mut s).map_err(er)?;
            Ok(s)
        });
        put(format!("query buffer {i}"), &mut || {
            let mut buf = vec![];
            let mut s = String::new();
            let q = p.query(y, true, None, Some(&mut buf)).map_err(er)?;
            q.format_to(false, &mut s).map_err(er)?;
            Ok(s)
        });
        put(format!("exists {i}"), &mut || p.exists(y).map(|b| format!("{b}")).map_err(er));
    }
    match m {
        M::Arr(ms) => {
            let Ok(a) = y.array() else { return out };
            put("len".into(), &mut || a.len().map(|t| format!("{t}")).map_err(er));
            put("is_empty".into(), &mut || a.is_empty().map(|t| format!("{t}")).map_err(er));
            for i in 0..=ms.len() {
                put(format!("get {i}"), &mut || val(a.get(i).map_err(er)?));
                put(format!("type_of {i}"), &mut || a.type_of(i).map(|t| format!("{t}")).map_err(er));
                for t in read::TYPES {
                    put(format!("is_type {i} {t}"), &mut || a.is_type(i, t).map(|t| format!("{t}")).map_err(er));
                }
                put(format!("is_null {i}"), &mut || a.is_null(i).map(|t| format!("{t}")).map_err(er));
                put(format!("object {i}"), &mut || val(Value::Object(a.object(i).map_err(er)?)));
                put(format!("array {i}"), &mut || val(Value::Array(a.array(i).map_err(er)?)));
                put(format!("string {i}"), &mut || val(Value::String(a.string(i).map_err(er)?)));
                put(format!("number {i}"), &mut || val(Value::Number(a.number(i).map_err(er)?)));
                put(format!("bool {i}"), &mut || val(Value::Bool(a.bool(i).map_err(er)?)));
            }
            if let Ok(mut it) = a.iter() {
                for i in 0..=ms.len() {
                    put(format!("iter {i}"), &mut || match it.next() {
                        None => Ok("end".into()),
                        Some(v) => val(v.map_err(er)?),
                    });
                }
            }
        }
        M::Obj(ms) => {
            let Ok(o) = y.object() else { return out };
            put("len".into(), &mut || o.len().map(|t| format!("{t}")).map_err(er));
            put("is_empty".into(), &mut || o.is_empty().map(|t| format!("{t}")).map_err(er));
            let mut keys: Vec<&str> = ms.iter().map(|m| m.0.as_str()).collect();
            keys.extend(["", "zz", "c"]);
            for k in keys {
                put(format!("get {k:?}"), &mut || o.get(k).map_err(er)?.map_or(Ok("none".into()), val));
                put(format!("type_of {k:?}"), &mut || o.type_of(k).map(|t| format!("{t:?}")).map_err(er));
                for t in read::TYPES {
                    put(format!("is_type {k:?} {t}"), &mut || o.is_type(k, t).map(|t| format!("{t:?}")).map_err(er));
                }
                put(format!("is_null {k:?}"), &mut || o.is_null(k).map(|t| format!("{t:?}")).map_err(er));
                put(format!("contains_key {k:?}"), &mut || o.contains_key(k).map(|t| format!("{t:?}")).map_err(er));
                put(format!("object {k:?}"), &mut || o.object(k).map_err(er)?.map_or(Ok("none".into()), |x| val(Value::Object(x))));
                put(format!("array {k:?}"), &mut || o.array(k).map_err(er)?.map_or(Ok("none".into()), |x| val(Value::Array(x))));
                put(format!("string {k:?}"), &mut || o.string(k).map_err(er)?.map_or(Ok("none".into()), |x| val(Value::String(x))));
                put(format!("number {k:?}"), &mut || o.number(k).map_err(er)?.map_or(Ok("none".into()), |x| val(Value::Number(x))));
                put(format!("bool {k:?}"), &mut || o.bool(k).map_err(er)?.map_or(Ok("none".into()), |x| val(Value::Bool(x))));
            }
            if let Ok(mut it) = o.iter() {
                for i in 0..=ms.len() {
                    put(format!("iter {i}"), &mut || match it.next() {
                        None => Ok("end".into()),
                        Some(v) => {
                            let (k, v) = v.map_err(er)?;
                            Ok(format!("{k:?} {}", val(v)?))
                        }
                    });
                }
            }
            if let Ok(mut it) = o.key_iter() {
                for i in 0..=ms.len() {
                    put(format!("key_iter {i}"), &mut || match it.next() {
                        None => Ok("end".into()),
                        Some(v) => Ok(format!("{:?}", v.map_err(er)?)),
                    });
                }
            }
            if let Ok(mut it) = o.value_iter() {
                for i in 0..=ms.len() {
                    put(format!("value_iter {i}"), &mut || match it.next() {
                        None => Ok("end".into()),
                        Some(v) => val(v.map_err(er)?),
                    });
                }
            }
        }
        _ => {}
    }
    out
}

fn truncation(m: &M, paths: &[PathExpression], st: &mut crate::ctx::Stats, cuts: Option<&[usize]>) -> R {
    let y = build::doc(m)?;
    let full = y.as_bytes();
    let complete = observations(&y, m, &y, paths);
    let min = if m.is_container() { 7 } else { 1 };
    let all: Vec<usize> = match cuts {
        Some(c) => c.iter().copied().filter(|c| *c >= min && *c < full.len()).collect(),
        None => (min..full.len()).collect(),
    };
    for cut in all {
        // an allocation of exactly this length: a read beyond it leaves the block
        let part: Box<[u8]> = full[..cut].into();
        let t = unsafe { Yason::new_unchecked(&*part) };
        let got = observations(t, m, &y, paths);
        let want: std::collections::HashMap<&str, &Obs> = complete.iter().map(|(k, o)| (k.as_str(), o)).collect();
        for (k, o) in &got {
            st.step(1);
            match o {
                Err(_) => st.outcome("error"),
                Ok(v) => {
                    let w = want.get(k.as_str()).ok_or_else(|| format!("cut {cut}: {k} only answers on the prefix"))?;
                    let same = matches!(w, Ok(x) if x == v);
                    ensure!(same, "cut {cut} of {}: {k} gives {} instead of an error or {:?}", full.len(), crate::ctx::clip(v, 300), w);
                    st.outcome("same value");
                }
            }
        }
        st.state(crate::ctx::hash(&(m.hash(), cut)));
    }
    Ok(())
}

const READ_PATHS: [&str; 7] = ["$", "$.a", "$.*", "$[*]", "$[last]", "$..a", "$[*].size()"];

pub fn c18(c: &mut Ctx) {
    let paths: Vec<PathExpression> = READ_PATHS.iter().map(|p| p.parse().unwrap()).collect();
    let max = c.pick(4, 5);
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M, cuts: Option<&[usize]>| {
        c.case(|| format!("prefixes of {}", mk().show()), |st| truncation(&mk(), &paths, st, cuts));
    };
    small(c, max, &mut |c, mk| run(c, mk, None));
    let mut r = gen::rich();
    r.retain(|m| build::doc(m).map(|y| y.as_bytes().len()).unwrap_or(0) < 300);
    list(c, "every encoding class in every position", r.iter().flat_map(gen::contexts).collect(), &mut |c, mk| run(c, mk, None));
    let step = c.pick(3, 1);
    list(
        c,
        "numbers in every position",
        gen::numbers().into_iter().step_by(step).flat_map(|v| vec![M::Num(v), M::Arr(vec![M::Num(v)]), M::Obj(vec![("a".into(), M::Num(v))]), M::Arr(vec![n(1), M::Num(v), s("x")])]).collect(),
        &mut |c, mk| run(c, mk, None),
    );
    list(c, "chains", (1..=6).flat_map(|d| gen::deep(d, s("leaf"))).collect(), &mut |c, mk| run(c, mk, None));
    // long strings: cut around the ends of the length field and of the text
    let mut v = vec![];
    for m in gen::long_strings().into_iter().map(M::Str) {
        v.push(m.clone());
        v.push(M::Arr(vec![m.clone(), n(1)]));
        v.push(M::Obj(vec![("a".into(), m.clone()), ("b".into(), M::Null)]));
    }
    c.family("long strings, cut around every field boundary");
    for m in v {
        let len = build::doc(&m).map(|y| y.as_bytes().len()).unwrap_or(0);
        let mut cuts: Vec<usize> = (1..40.min(len)).collect();
        cuts.extend(len.saturating_sub(20)..len);
        cuts.extend([127, 128, 129, 255, 256, 257]);
        cuts.sort();
        cuts.dedup();
        run(c, &|| m.clone(), Some(&cuts));
    }
}
