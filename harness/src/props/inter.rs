//! C23 operations in progress at the same time, or one after another, do not affect each other.
use super::*;
use crate::bnf;
use crate::build::{self, Order};
use crate::ctx::{clip, hash, Stats, R};
use crate::ensure;
use crate::jsonref;
use crate::model::{obj, Nm};
use crate::pathref;
use crate::read;
use crate::sched::{self, Log, Task, Y};
use std::fmt::{self, Write};
use std::str::FromStr;
use std::sync::{Arc, OnceLock};
use yason::*;

fn e<E: fmt::Display>(x: E) -> String {
    x.to_string()
}

/// What a result looks like in a transcript.
fn seen<T: fmt::Debug, E: fmt::Debug>(r: Result<T, E>) -> String {
    clip(&format!("{r:?}"), 500)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{c:02x}")).collect()
}

/// A writer that lets other tasks run every time the library writes.
struct W<'a, 'b> {
    y: &'a Y<'b>,
    out: String,
    /// refuses the write with this number
    fail: usize,
}

impl fmt::Write for W<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.y.inside();
        if self.fail == 0 {
            return Err(fmt::Error);
        }
        self.fail -= 1;
        self.out.push_str(s);
        Ok(())
    }
}

fn nested() -> M {
    obj(&[
        ("name", s("a \"b\" \u{e9}\n")),
        ("k", M::Arr(vec![n(1), M::Arr(vec![]), M::Arr(vec![M::Null, s("x")]), M::Obj(vec![])])),
        ("a", obj(&[("z", n(-7)), ("y", M::Bool(true)), ("zz", M::Null)])),
        ("kk", M::Num(Nm::new(125, 2, false))),
    ])
}

fn other() -> M {
    M::Arr(vec![
        obj(&[("a", n(2)), ("b", M::Arr(vec![n(3), s("q")]))]),
        s("text"),
        M::Arr(vec![M::Bool(false), obj(&[("a", M::Null)])]),
        n(100),
    ])
}



fn bytes(m: &M) -> Vec<u8> {
    bnf::encode(m, bnf::Layout::some()[0])
}

fn same(what: &str, b: &[u8], m: &M) -> R {
    let d = bnf::decode(b).map_err(|x| format!("{what}: {x:?}"))?;
    ensure!(d.same(m), "{what}: denotes {} instead of {}", d.show(), m.show());
    Ok(())
}

fn build_owned(y: &Y, log: &mut Log) -> R {
    let mut b = y.op(|| ObjectBuilder::try_new(4, false)).map_err(e)?;
    y.op(|| b.push_string("name", "v").map(|_| ())).map_err(e)?;
    {
        let mut c = y.op(|| b.push_array("k", 2)).map_err(e)?;
        y.op(|| c.push_number(Number::from(7)).map(|_| ())).map_err(e)?;
        {
            let mut d = y.op(|| c.push_object(2, false)).map_err(e)?;
            y.op(|| d.push_bool("y", true).map(|_| ())).map_err(e)?;
            y.op(|| d.push_null("x").map(|_| ())).map_err(e)?;
            y.op(|| d.finish().map(|_| ())).map_err(e)?;
        }
        y.op(|| c.finish().map(|_| ())).map_err(e)?;
    }
    y.op(|| b.push_number("kk", Number::from(-5)).map(|_| ())).map_err(e)?;
    y.op(|| b.push_bool("a", false).map(|_| ())).map_err(e)?;
    let r = y.op(|| b.finish()).map_err(e)?;
    log.push(hex(r.as_bytes()));
    same(
        "owned builder",
        r.as_bytes(),
        &obj(&[
            ("name", s("v")),
            ("k", M::Arr(vec![n(7), obj(&[("y", M::Bool(true)), ("x", M::Null)])])),
            ("kk", n(-5)),
            ("a", M::Bool(false)),
        ]),
    )
}

fn build_into(y: &Y, log: &mut Log) -> R {
    let mut v = vec![9u8, 9, 9];
    {
        let mut b = y.op(|| ArrayRefBuilder::try_new(&mut v, 3)).map_err(e)?;
        y.op(|| b.push_string("first").map(|_| ())).map_err(e)?;
        {
            let mut c = y.op(|| b.push_object(3, true)).map_err(e)?;
            y.op(|| c.push_string("a", "1").map(|_| ())).map_err(e)?;
            y.op(|| c.push_string("b", "22").map(|_| ())).map_err(e)?;
            {
                let mut d = y.op(|| c.push_object("cc", 0, false)).map_err(e)?;
                let bad = y.op(|| d.push_null("x").map(|_| ()));
                log.push(seen(bad));
                y.op(|| d.finish().map(|_| ())).map_err(e)?;
            }
            y.op(|| c.finish().map(|_| ())).map_err(e)?;
        }
        y.op(|| b.push_null().map(|_| ())).map_err(e)?;
        let r = y.op(|| b.finish()).map_err(e)?;
        log.push(hex(r.as_bytes()));
    }
    log.push(hex(&v));
    ensure!(v[..3] == [9, 9, 9], "the bytes before the document changed");
    same("reference builder", &v[3..], &M::Arr(vec![s("first"), obj(&[("a", s("1")), ("b", s("22")), ("cc", M::Obj(vec![]))]), M::Null]))
}

fn build_alike(y: &Y, log: &mut Log) -> R {
    // the same calls in number and kind as other builders make, with other values and key lengths
    let mut b = y.op(|| ObjectBuilder::try_new(3, false)).map_err(e)?;
    for (k, v) in [("zz", "long enough to need its own place"), ("a", ""), ("m", "mid")] {
        y.op(|| b.push_string(k, v).map(|_| ())).map_err(e)?;
    }
    let r = y.op(|| b.finish()).map_err(e)?;
    log.push(hex(r.as_bytes()));
    same("unsorted builder", r.as_bytes(), &obj(&[("zz", s("long enough to need its own place")), ("a", s("")), ("m", s("mid"))]))
}

fn misuse(y: &Y, log: &mut Log) -> R {
    let mut b = y.op(|| ObjectBuilder::try_new(2, false)).map_err(e)?;
    {
        let c = y.op(|| b.push_array("left", 1)).map_err(e)?;
        drop(c);
    }
    let r = y.op(|| b.push_null("n").map(|_| ()));
    log.push(seen(r));
    let r = y.op(|| b.finish().map(|_| ()));
    log.push(seen(r));
    let mut b = y.op(|| ArrayBuilder::try_new(1)).map_err(e)?;
    y.op(|| b.push_null().map(|_| ())).map_err(e)?;
    let r = y.op(|| b.push_null().map(|_| ()));
    log.push(seen(r));
    let r = y.op(|| b.finish()).map_err(e)?;
    log.push(hex(r.as_bytes()));
    let b = y.op(|| ArrayBuilder::try_new(1)).map_err(e)?;
    let r = y.op(|| b.finish().map(|_| ()));
    log.push(seen(r));
    Ok(())
}

fn too_deep(y: &Y, log: &mut Log) -> R {
    fn down(y: &Y, mut b: ArrayRefBuilder, left: usize, log: &mut Log) -> R {
        if left == 0 {
            let r = b.push_object(1, false).map(|_| ());
            log.push(seen(r));
            let r = y.op(|| b.push_array(1).map(|_| ()));
            log.push(seen(r));
            b.push_null().map_err(e)?;
        } else {
            let c = if left % 33 == 1 { y.op(|| b.push_array(1)) } else { b.push_array(1) }.map_err(e)?;
            down(y, c, left - 1, log)?;
        }
        b.finish().map(|_| ()).map_err(e)
    }
    let mut v = vec![];
    {
        let b = y.op(|| ArrayRefBuilder::try_new(&mut v, 1)).map_err(e)?;
        down(y, b, 99, log)?;
    }
    log.push(hash(&hex(&v)).to_string());
    same("a document of depth 100", &v, &chain(100, |_| false, M::Null))
}

fn json_in(y: &Y, log: &mut Log) -> R {
    let t = "{\"b\":[1,2.50,{\"c\":null}],\"a\":\"x\\u00e9\\n\",\"bb\":{},\"n\":-12345678901234567890}";
    let m = jsonref::parse(t)?.import().map_err(|x| format!("{x:?}"))?;
    let d = y.op(|| YasonBuf::parse(t)).map_err(e)?;
    log.push(hex(d.as_bytes()));
    same("parsed", d.as_bytes(), &m)?;
    let mut v = vec![1u8];
    {
        let d = y.op(|| Yason::parse_to(&mut v, "[3, [true]]")).map_err(e)?;
        log.push(hex(d.as_bytes()));
    }
    same("parsed into", &v[1..], &M::Arr(vec![n(3), M::Arr(vec![M::Bool(true)])]))?;
    for bad in ["[1", "{\"a\":1,}", "1e200"] {
        let r = y.op(|| YasonBuf::parse(bad).map(|_| ()));
        log.push(seen(r.map_err(e)));
    }
    Ok(())
}

fn format_with(pretty: bool, m: fn() -> M) -> impl Fn(&Y, &mut Log) -> R + Send + Sync {
    move |y, log| {
        let m = m();
        let b = bytes(&m);
        let d = unsafe { Yason::new_unchecked(&b) };
        let mut w = W { y, out: String::new(), fail: usize::MAX };
        y.op(|| d.format_to(pretty, &mut w)).map_err(e)?;
        log.push(w.out.clone());
        jsonref::parse(&w.out)?.is(&m)?;
        Ok(())
    }
}

fn format_lazy(y: &Y, log: &mut Log) -> R {
    let m = M::Arr(vec![s("l"), M::Obj(vec![("k".into(), M::Arr(vec![M::Null]))])]);
    let b = bytes(&m);
    let d = unsafe { Yason::new_unchecked(&b) };
    let shown = y.op(|| d.format(true));
    let flat = y.op(|| d.format(false));
    let mut w = W { y, out: String::new(), fail: usize::MAX };
    write!(w, "{shown}|{flat}").map_err(e)?;
    log.push(w.out.clone());
    let (p, c) = w.out.split_once('|').ok_or("no separator")?;
    jsonref::parse(p)?.is(&m)?;
    jsonref::parse(c)?.is(&m)
}

fn format_refused(y: &Y, log: &mut Log) -> R {
    let m = nested();
    let b = bytes(&m);
    let d = unsafe { Yason::new_unchecked(&b) };
    for (pretty, at) in [(true, 9), (false, 5), (true, 0)] {
        let mut w = W { y, out: String::new(), fail: at };
        let r = y.op(|| d.format_to(pretty, &mut w));
        ensure!(r.is_err(), "the refused write was ignored");
        log.push(w.out);
    }
    let mut t = String::new();
    y.op(|| d.format_to(true, &mut t)).map_err(e)?;
    log.push(t.clone());
    jsonref::parse(&t)?.is(&m)
}

fn iterate(y: &Y, log: &mut Log) -> R {
    let m = nested();
    let b = bytes(&m);
    let d = unsafe { Yason::new_unchecked(&b) };
    let o = y.op(|| d.object()).map_err(e)?;
    let mut ks = y.op(|| o.key_iter()).map_err(e)?;
    let mut vs = y.op(|| o.value_iter()).map_err(e)?;
    let mut it = y.op(|| o.iter()).map_err(e)?;
    let M::Obj(ms) = m.canonical() else { unreachable!() };
    for i in 0..=ms.len() {
        let k = y.op(|| ks.next());
        let kv = y.op(|| it.next());
        let v = y.op(|| vs.next());
        match ms.get(i) {
            None => ensure!(k.is_none() && v.is_none() && kv.is_none(), "an iterator goes on after its end"),
            Some((mk, mv)) => {
                let k = k.ok_or("keys end early")?.map_err(e)?;
                let (k2, v2) = kv.ok_or("members end early")?.map_err(e)?;
                let v = v.ok_or("values end early")?.map_err(e)?;
                ensure!(k == mk && k2 == mk, "keys {k}, {k2} instead of {mk}");
                read::is(&v, mv)?;
                read::is(&v2, mv)?;
                log.push(k.to_string());
            }
        }
    }
    Ok(())
}

fn iterate_array(y: &Y, log: &mut Log) -> R {
    let m = other();
    let b = bytes(&m);
    let d = unsafe { Yason::new_unchecked(&b) };
    let a = y.op(|| d.array()).map_err(e)?;
    let mut one = y.op(|| a.iter()).map_err(e)?;
    let mut two = y.op(|| a.iter()).map_err(e)?;
    let M::Arr(ms) = &m else { unreachable!() };
    y.op(|| two.next());
    for i in 0..=ms.len() {
        let v = y.op(|| one.next());
        let w = y.op(|| two.next());
        match ms.get(i) {
            None => ensure!(v.is_none() && w.is_none(), "an iterator goes on after its end"),
            Some(m) => read::is(&v.ok_or("ends early")?.map_err(e)?, m)?,
        }
        if let Some(m) = ms.get(i + 1) {
            read::is(&w.ok_or("ends early")?.map_err(e)?, m)?;
        }
        log.push(i.to_string());
    }
    Ok(())
}

fn lookups(y: &Y, log: &mut Log) -> R {
    let (ma, mb) = (obj(&[("k", n(1)), ("kk", s("one")), ("q", M::Null)]), obj(&[("k", n(2)), ("kk", s("two")), ("r", M::Bool(true))]));
    let (ba, bb) = (bytes(&ma), bytes(&mb));
    let (a, b) = (unsafe { Yason::new_unchecked(&ba) }, unsafe { Yason::new_unchecked(&bb) });
    let (oa, ob) = (y.op(|| a.object()).map_err(e)?, y.op(|| b.object()).map_err(e)?);
    for k in ["k", "q", "kk", "r", "kkk"] {
        for (o, m) in [(&oa, &ma), (&ob, &mb), (&oa, &ma)] {
            let M::Obj(v) = m else { unreachable!() };
            let want = v.iter().find(|x| x.0 == k).map(|x| &x.1);
            let got = y.op(|| o.get(k)).map_err(e)?;
            match (got, want) {
                (None, None) => {}
                (Some(g), Some(w)) => read::is(&g, w)?,
                (g, w) => return Err(format!("{k}: {:?} instead of {w:?}", g.is_some())),
            }
            let has = y.op(|| o.contains_key(k)).map_err(e)?;
            ensure!(has == want.is_some(), "contains_key({k}) is {has}");
            log.push(format!("{k} {has}"));
        }
    }
    Ok(())
}

fn elements(y: &Y, log: &mut Log) -> R {
    let m = other();
    let b = bytes(&m);
    let d = unsafe { Yason::new_unchecked(&b) };
    let a = y.op(|| d.array()).map_err(e)?;
    let M::Arr(v) = &m else { unreachable!() };
    for i in [3usize, 0, 4, 1, 2] {
        let r = y.op(|| a.get(i));
        match v.get(i) {
            None => log.push(seen(r.map(|_| ()))),
            Some(w) => read::is(&r.map_err(e)?, w)?,
        }
        let t = y.op(|| a.type_of(i));
        log.push(seen(t));
        let t = y.op(|| a.string(i));
        log.push(seen(t));
    }
    Ok(())
}

fn paths(text: &'static str, doc: fn() -> M) -> impl Fn(&Y, &mut Log) -> R + Send + Sync {
    move |y, log| {
        let m = doc();
        let b = bytes(&m);
        let d = unsafe { Yason::new_unchecked(&b) };
        let steps = pathref::parse(text).ok_or("harness: not a path")?;
        let want: Vec<M> = pathref::eval(&steps, &m).iter().map(|s| s.model()).collect();
        let p = y.op(|| PathExpression::from_str(text)).map_err(e)?;
        let (mut qb, mut rb) = (vec![], vec![]);
        let (mut qb2, mut rb2) = (vec![], vec![5u8; 3]);
        let q = y.op(|| p.query(d, true, None, None)).map_err(e)?;
        let r = y.op(|| p.query(d, true, Some(&mut qb), Some(&mut rb))).map_err(e)?;
        let r2 = y.op(|| p.query(d, true, Some(&mut qb2), None)).map_err(e)?;
        if !pathref::has_method(&steps) {
            let x = y.op(|| p.exists(d)).map_err(e)?;
            ensure!(x == !want.is_empty(), "exists says {x}");
        }
        let r3 = y.op(|| p.query(d, true, None, Some(&mut rb2))).map_err(e)?;
        for (i, q) in [q, r, r2, r3].iter().enumerate() {
            let mut w = W { y, out: String::new(), fail: usize::MAX };
            y.op(|| q.format_to(i % 2 == 0, &mut w)).map_err(e)?;
            log.push(w.out.clone());
            if want.is_empty() {
                ensure!(matches!(q, QueriedValue::None) && w.out.is_empty(), "result {i} is not empty: {}", w.out);
            } else {
                jsonref::parse(&w.out)?.is(&M::Arr(want.clone())).map_err(|x| format!("result {i}: {x}"))?;
            }
        }
        Ok(())
    }
}

fn bad_paths(y: &Y, log: &mut Log) -> R {
    for t in ["$.", "$[1", "$..", "$.a.count().b", "", "$[*", "$.a[0 to last -1", "$.\"a"] {
        let r = y.op(|| PathExpression::from_str(t));
        ensure!(r.is_err(), "{t} is accepted");
        log.push(seen(r.map(|_| ()).map_err(e)));
    }
    let p = y.op(|| PathExpression::from_str("$.count()")).map_err(e)?;
    let b = bytes(&n(1));
    let d = unsafe { Yason::new_unchecked(&b) };
    let r = y.op(|| p.query(d, false, None, None).map(|_| ()));
    log.push(seen(r.map_err(e)));
    let r = y.op(|| p.exists(d));
    log.push(seen(r.map_err(e)));
    Ok(())
}

fn equality(y: &Y, log: &mut Log) -> R {
    let ms = [nested(), other(), nested().canonical(), M::Arr(vec![n(1), M::Num(Nm::new(10, 1, false))])];
    let bs: Vec<Vec<u8>> = ms.iter().map(bytes).collect();
    for (i, a) in bs.iter().enumerate() {
        for (j, b) in bs.iter().enumerate() {
            let (a, b) = (unsafe { Yason::new_unchecked(a) }, unsafe { Yason::new_unchecked(b) });
            let r = y.op(|| a.equals(b)).map_err(e)?;
            ensure!(r == ms[i].same(&ms[j]), "equals says {r} of {} and {}", ms[i].show(), ms[j].show());
            log.push(r.to_string());
        }
    }
    Ok(())
}

fn scalars(y: &Y, log: &mut Log) -> R {
    let a = y.op(|| Scalar::string("scalar text")).map_err(e)?;
    let b = y.op(|| Scalar::number(Number::from(42))).map_err(e)?;
    let mut v = vec![];
    {
        let c = y.op(|| Scalar::bool_with_vec(true, &mut v)).map_err(e)?;
        log.push(hex(c.as_bytes()));
    }
    let mut w = vec![];
    let d = y.op(|| Value::String("copied out").try_to_yason(&mut w).map(|y| y.as_bytes().to_vec())).map_err(e)?;
    log.push(hex(&d));
    same("try_to_yason", &d, &s("copied out"))?;
    let mut k = y.op(|| a.to_yason_buf()).map_err(e)?;
    log.push(hex(k.as_bytes()));
    y.op(|| k.clone_from_yason(&b));
    log.push(hex(k.as_bytes()));
    same("clone_from_yason", k.as_bytes(), &n(42))?;
    let t = y.op(|| a.string().map(|s| s.to_string())).map_err(e)?;
    ensure!(t == "scalar text", "reads {t}");
    let t = y.op(|| b.number()).map_err(e)?;
    ensure!(t == Number::from(42), "reads {t}");
    let t = y.op(|| b.string().map(|_| ()));
    log.push(seen(t.map_err(e)));
    Ok(())
}

fn serde_trip(y: &Y, log: &mut Log) -> R {
    let m = nested();
    let d = YasonBuf::try_from(&serde_json::from_str::<serde_json::Value>(&jsonref::render(&m)).map_err(e)?).map_err(e)?;
    let t = y.op(|| serde_json::to_string(&d)).map_err(e)?;
    log.push(t.clone());
    let r: YasonBuf = y.op(|| serde_json::from_str(&t)).map_err(e)?;
    same("serde_json", r.as_bytes(), &m)?;
    let b = y.op(|| bincode::serialize(&d)).map_err(e)?;
    let r: YasonBuf = y.op(|| bincode::deserialize(&b)).map_err(e)?;
    log.push(hex(r.as_bytes()));
    same("bincode", r.as_bytes(), &m)
}

fn numbers(y: &Y, log: &mut Log) -> R {
    for t in ["1.5", "-0", "12345678901234567890123456789012345678", "1e125", "1e-130", "1e126", "0.1e-200", "99999999999999999999.5e3"] {
        let r = y.op(|| YasonBuf::parse(t));
        match r {
            Ok(d) => {
                let n = y.op(|| d.number()).map_err(e)?;
                let o = y.op(|| d.format(false).to_string());
                log.push(format!("{n} {o}"));
            }
            Err(x) => log.push(x.to_string()),
        }
    }
    Ok(())
}

type Body = Box<dyn Fn(&Y, &mut Log) -> R + Send + Sync>;
pub type Entry = (Arc<Task>, Arc<Log>);

fn entries(v: Vec<(&'static str, Body)>) -> Vec<Entry> {
    v.into_iter()
        .map(|(name, body)| {
            let t = Task { name, body };
            let log = std::thread::scope(|s| s.spawn(|| sched::alone(&t)).join().unwrap());
            // what goes wrong alone is reported by the first family
            (Arc::new(t), Arc::new(log.unwrap_or_else(|e| vec![e])))
        })
        .collect()
}

/// Tasks of a few short calls, each made twice.
pub fn short() -> &'static Vec<Entry> {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(|| {
        fn get(m: M, key: &'static str) -> Body {
            let b = bytes(&m);
            let M::Obj(v) = m else { unreachable!() };
            let want = v.into_iter().find(|x| x.0 == key).map(|x| x.1);
            Box::new(move |y, log| {
                let d = unsafe { Yason::new_unchecked(&b) };
                let o = d.object().map_err(e)?;
                for _ in 0..2 {
                    let v = y.op(|| o.get(key)).map_err(e)?;
                    match (&v, &want) {
                        (None, None) => {}
                        (Some(v), Some(m)) => read::is(v, m)?,
                        _ => return Err(format!("get({key}) finds {}", v.is_some())),
                    }
                }
                log.push(y.op(|| o.contains_key(key)).map_err(e)?.to_string());
                Ok(())
            })
        }
        fn at(m: M, i: usize) -> Body {
            let b = bytes(&m);
            let M::Arr(v) = m else { unreachable!() };
            Box::new(move |y, _| {
                let d = unsafe { Yason::new_unchecked(&b) };
                let a = d.array().map_err(e)?;
                for _ in 0..2 {
                    read::is(&y.op(|| a.get(i)).map_err(e)?, &v[i])?;
                }
                Ok(())
            })
        }
        fn shown(m: M, pretty: bool) -> Body {
            let b = bytes(&m);
            Box::new(move |y, log| {
                let d = unsafe { Yason::new_unchecked(&b) };
                for _ in 0..2 {
                    let mut t = String::with_capacity(256);
                    y.op(|| d.format_to(pretty, &mut t)).map_err(e)?;
                    jsonref::parse(&t)?.is(&m)?;
                    log.push(t);
                }
                Ok(())
            })
        }
        fn parsed(text: &'static str, m: M) -> Body {
            let b = bytes(&m);
            let want: Vec<M> = pathref::eval(&pathref::parse(text).expect("a path"), &m).iter().map(|s| s.model()).collect();
            Box::new(move |y, log| {
                let d = unsafe { Yason::new_unchecked(&b) };
                let p = y.op(|| PathExpression::from_str(text)).map_err(e)?;
                let p2 = y.op(|| PathExpression::from_str(text)).map_err(e)?;
                for p in [&p, &p2] {
                    let mut t = String::new();
                    p.query(d, true, None, None).map_err(e)?.format_to(false, &mut t).map_err(e)?;
                    jsonref::parse(&t)?.is(&M::Arr(want.clone()))?;
                    log.push(t);
                }
                Ok(())
            })
        }
        fn asked(text: &'static str, m: M) -> Body {
            let b = bytes(&m);
            let steps = pathref::parse(text).expect("a path");
            let want: Vec<M> = pathref::eval(&steps, &m).iter().map(|s| s.model()).collect();
            Box::new(move |y, log| {
                let d = unsafe { Yason::new_unchecked(&b) };
                let p = PathExpression::from_str(text).map_err(e)?;
                let x = y.op(|| p.exists(d)).map_err(e)?;
                ensure!(x == !want.is_empty(), "exists says {x}");
                let mut rb = Vec::with_capacity(64);
                let q = y.op(|| p.query(d, true, None, Some(&mut rb))).map_err(e)?;
                let mut t = String::new();
                q.format_to(false, &mut t).map_err(e)?;
                if !want.is_empty() {
                    jsonref::parse(&t)?.is(&M::Arr(want.clone()))?;
                }
                log.push(t);
                Ok(())
            })
        }
        fn built(k: &'static str, v: &'static str) -> Body {
            Box::new(move |y, log| {
                let mut b = ObjectBuilder::try_new(3, false).map_err(e)?;
                y.op(|| b.push_string(k, v).map(|_| ())).map_err(e)?;
                {
                    let mut c = y.op(|| b.push_array("c", 1)).map_err(e)?;
                    y.op(|| c.push_string(v).map(|_| ())).map_err(e)?;
                    y.op(|| c.finish().map(|_| ())).map_err(e)?;
                }
                y.op(|| b.push_string("b", k).map(|_| ())).map_err(e)?;
                let d = y.op(|| b.finish()).map_err(e)?;
                log.push(hex(d.as_bytes()));
                same("built", d.as_bytes(), &obj(&[(k, s(v)), ("c", M::Arr(vec![s(v)])), ("b", s(k))]))
            })
        }
        fn number(v: Nm) -> Body {
            Box::new(move |y, log| {
                let d = y.op(|| Scalar::number(v.number())).map_err(e)?;
                let r = y.op(|| d.number()).map_err(e)?;
                ensure!(Nm::of(&r).dec() == v.dec(), "reads {r}");
                log.push(hex(d.as_bytes()));
                Ok(())
            })
        }
        fn equal(a: M, b: M) -> Body {
            let (ba, bb) = (bytes(&a), bytes(&b));
            Box::new(move |y, _| {
                let (x, z) = unsafe { (Yason::new_unchecked(&ba), Yason::new_unchecked(&bb)) };
                let r = y.op(|| x.equals(z)).map_err(e)?;
                ensure!(r == a.same(&b), "equals says {r}");
                Ok(())
            })
        }
        fn walk(m: M) -> Body {
            let b = bytes(&m);
            let M::Obj(v) = m.canonical() else { unreachable!() };
            Box::new(move |y, _| {
                let d = unsafe { Yason::new_unchecked(&b) };
                let o = d.object().map_err(e)?;
                let mut it = y.op(|| o.iter()).map_err(e)?;
                for (k, m) in &v {
                    let (k2, v2) = y.op(|| it.next()).ok_or("ends early")?.map_err(e)?;
                    ensure!(k == k2, "key {k2} instead of {k}");
                    read::is(&v2, m)?;
                }
                Ok(())
            })
        }
        let (o1, o2) = (obj(&[("k", n(1)), ("l", s("x"))]), obj(&[("k", s("two")), ("kk", M::Null), ("l", n(5))]));
        let (a1, a2) = (M::Arr(vec![n(1), s("a")]), M::Arr(vec![s("b"), obj(&[("k", n(9))])]));
        entries(vec![
            ("get k", get(o1.clone(), "k")),
            ("get l of another object", get(o2.clone(), "l")),
            ("get what is not there", get(o2.clone(), "kkk")),
            ("element 1", at(a1.clone(), 1)),
            ("element 0 of another array", at(a2.clone(), 0)),
            ("pretty output", shown(obj(&[("a", a1.clone())]), true)),
            ("compact output", shown(a2.clone(), false)),
            ("parsing $[1].k", parsed("$[1].k", a2.clone())),
            ("parsing $.l", parsed("$.l", o1.clone())),
            ("querying $[*]", asked("$[*]", a1.clone())),
            ("querying $..k", asked("$..k", a2.clone())),
            ("building one", built("x", "value")),
            ("building another", built("aa", "other text")),
            ("a number", number(Nm::new(12345, 2, true))),
            ("comparing", equal(o1.clone(), obj(&[("l", s("x")), ("k", n(1))]))),
            ("comparing different ones", equal(o1.clone(), o2.clone())),
            ("iterating", walk(o2.clone())),
        ])
    })
}

pub fn table() -> &'static Vec<Entry> {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(|| {
        let t = |name: &'static str, body: Body| (name, body);
        let v = vec![
            t("building an object", Box::new(build_owned)),
            t("building into a buffer", Box::new(build_into)),
            t("building another object", Box::new(build_alike)),
            t("builder misuse", Box::new(misuse)),
            t("building too deep", Box::new(too_deep)),
            t("importing JSON", Box::new(json_in)),
            t("compact output", Box::new(format_with(false, nested))),
            t("pretty output", Box::new(format_with(true, nested))),
            t("pretty output of another document", Box::new(format_with(true, other))),
            t("lazy output", Box::new(format_lazy)),
            t("output to a failing writer", Box::new(format_refused)),
            t("iterating an object", Box::new(iterate)),
            t("iterating an array twice", Box::new(iterate_array)),
            t("looking up keys", Box::new(lookups)),
            t("reading elements", Box::new(elements)),
            t("querying members", Box::new(paths("$.a.*", nested))),
            t("querying elements", Box::new(paths("$[*].a", other))),
            t("querying descendants", Box::new(paths("$..a", other))),
            t("counting", Box::new(paths("$[*].count()", other))),
            t("querying nothing", Box::new(paths("$.nothing[last]", nested))),
            t("refused paths", Box::new(bad_paths)),
            t("comparing", Box::new(equality)),
            t("scalars and copies", Box::new(scalars)),
            t("serde", Box::new(serde_trip)),
            t("numbers", Box::new(numbers)),
        ];
        entries(v)
    })
}

fn count(st: &mut Stats, x: &sched::Explored, names: &str) {
    st.step(x.points);
    for k in 0..x.schedules {
        st.state(hash(&(names, k)));
    }
}

fn fiber_case(c: &mut Ctx, ts: &[&Entry], bound: usize) {
    let names: Vec<&str> = ts.iter().map(|t| t.0.name).collect();
    let names = names.join(" | ");
    c.case(|| format!("one thread, up to {bound} preemptions: {names}"), |st| {
        let v: Vec<(&Task, &Log)> = ts.iter().map(|t| (&*t.0, &*t.1)).collect();
        let x = sched::fibers(&v, bound)?;
        st.outcome("one thread");
        count(st, &x, &format!("f{names}"));
        Ok(())
    });
}

fn thread_case(c: &mut Ctx, ts: &[&Entry], bound: usize, allocs: bool) {
    let names: Vec<&str> = ts.iter().map(|t| t.0.name).collect();
    let names = names.join(" | ");
    c.case(|| format!("a thread each, up to {bound} preemptions{}: {names}", if allocs { ", also at allocations" } else { "" }), |st| {
        let v: Vec<Entry> = ts.iter().map(|t| (*t).clone()).collect();
        let x = sched::threads(&v, bound, allocs)?;
        st.outcome("several threads");
        count(st, &x, &format!("t{names}"));
        Ok(())
    });
}

// ---- one after another: what was at the same address before

const KEYS: [&str; 4] = ["a", "b", "aa", "c"];
const TEXTS: [&str; 7] = ["$.a", "$.b", "$[0]", "$[*]", "$.*", "$..a", "$[last].a"];

/// Number of questions asked of documents.
const QUESTIONS: usize = 6 + 2 * KEYS.len() + 3 + 2 * TEXTS.len();

/// The answer of the library to a question, as a model value.
fn answer(q: usize, y: &Yason, ps: &[PathExpression], probe: &Yason) -> Result<M, String> {
    let none = || s("none");
    let b = |r: Result<bool, YasonError>| r.map(M::Bool).map_err(e);
    let opt = |r: Result<Option<Value>, YasonError>| match r {
        Ok(Some(v)) => read::model_of(&v),
        Ok(None) => Ok(none()),
        Err(_) => Ok(s("error")),
    };
    let k = KEYS.len();
    Ok(match q {
        0 => read::model(y)?,
        1 => match jsonref::parse(&y.format(false).to_string())?.import() {
            Ok(m) => m,
            Err(x) => return Err(format!("{x:?}")),
        },
        2 => match jsonref::parse(&y.format(true).to_string())?.import() {
            Ok(m) => m,
            Err(x) => return Err(format!("{x:?}")),
        },
        3 => b(y.equals(probe))?,
        4 => n(match (y.object(), y.array()) {
            (Ok(o), _) => o.len().map_err(e)? as i64,
            (_, Ok(a)) => a.len().map_err(e)? as i64,
            _ => -1,
        }),
        5 => s(y.data_type().map_err(e)?.name()),
        q if q < 6 + k => match y.object() {
            Ok(o) => opt(o.get(KEYS[q - 6]))?,
            Err(_) => s("error"),
        },
        q if q < 6 + 2 * k => match y.object() {
            Ok(o) => b(o.contains_key(KEYS[q - 6 - k]))?,
            Err(_) => s("error"),
        },
        q if q < 9 + 2 * k => match y.array() {
            Ok(a) => opt(a.get(q - 6 - 2 * k).map(Some))?,
            Err(_) => s("error"),
        },
        q => {
            let q = q - 9 - 2 * k;
            let p = &ps[q / 2];
            if q % 2 == 0 {
                b(p.exists(y))?
            } else {
                match p.query(y, true, None, None).map_err(e)? {
                    QueriedValue::Values(v) => M::Arr(v.iter().map(read::model_of).collect::<Result<_, _>>()?),
                    QueriedValue::None => none(),
                    _ => return Err("another kind of result".into()),
                }
            }
        }
    })
}

fn expected(q: usize, m: &M, ps: &[Vec<pathref::St>], probe: &M) -> M {
    let k = KEYS.len();
    let member = |key: &str| match m {
        M::Obj(v) => Some(v.iter().find(|x| x.0 == key).map(|x| x.1.clone())),
        _ => None,
    };
    match q {
        0..=2 => m.clone(),
        3 => M::Bool(m.same(probe)),
        4 => n(match m {
            M::Obj(v) => v.len() as i64,
            M::Arr(v) => v.len() as i64,
            _ => -1,
        }),
        5 => s(m.ty().name()),
        q if q < 6 + k => member(KEYS[q - 6]).map_or(s("error"), |x| x.unwrap_or(s("none"))),
        q if q < 6 + 2 * k => member(KEYS[q - 6 - k]).map_or(s("error"), |x| M::Bool(x.is_some())),
        q if q < 9 + 2 * k => match m {
            M::Arr(v) => v.get(q - 6 - 2 * k).cloned().unwrap_or(s("error")),
            _ => s("error"),
        },
        q => {
            let q = q - 9 - 2 * k;
            let r: Vec<M> = pathref::eval(&ps[q / 2], m).iter().map(|x| x.model()).collect();
            if q % 2 == 0 {
                M::Bool(!r.is_empty())
            } else if r.is_empty() {
                s("none")
            } else {
                M::Arr(r)
            }
        }
    }
}

fn histories(c: &mut Ctx) {
    let steps: Vec<_> = TEXTS.iter().map(|t| pathref::parse(t).expect("a path")).collect();
    let paths = || TEXTS.iter().map(|t| PathExpression::from_str(t).map_err(e)).collect::<Result<Vec<_>, _>>();
    let probe = M::Arr(vec![n(1)]);
    let pb = bytes(&probe);
    let run = |c: &mut Ctx, max: usize, all: bool| {
        // documents by the number of their bytes
        let mut by: std::collections::BTreeMap<usize, Vec<(M, Vec<u8>)>> = Default::default();
        for m in gen::small_canonical(max) {
            let b = bytes(&m);
            by.entry(b.len()).or_default().push((m, b));
        }
        for (len, ds) in by {
            let want: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
            for i in 0..ds.len() {
                c.case(|| format!("{} replaced in place by each other document of {len} bytes", ds[i].0.show()), |st| {
                    let want = want.get_or_init(|| ds.iter().map(|d| (0..QUESTIONS).map(|q| expected(q, &d.0, &steps, &probe).keyed()).collect()).collect());
                    let ps = paths()?;
                    let other = unsafe { Yason::new_unchecked(&pb) };
                    let mut mem = ds[i].1.clone();
                    for (j, d) in ds.iter().enumerate() {
                        for q in 0..QUESTIONS {
                            for q2 in if all { 0..QUESTIONS } else { q..q + 1 } {
                                mem.copy_from_slice(&ds[i].1);
                                let a = answer(q, unsafe { Yason::new_unchecked(&mem) }, &ps, other)?;
                                ensure!(a.keyed() == want[i][q], "question {q} of {} answered {}", ds[i].0.show(), a.show());
                                mem.copy_from_slice(&d.1);
                                let a = answer(q2, unsafe { Yason::new_unchecked(&mem) }, &ps, other)?;
                                ensure!(
                                    a.keyed() == want[j][q2],
                                    "question {q2} of {} answered {} after question {q} of {} at the same address",
                                    d.0.show(),
                                    a.show(),
                                    ds[i].0.show()
                                );
                                st.step(2);
                            }
                        }
                        st.state(hash(&(i, j, len)));
                    }
                    st.outcome("document replaced");
                    Ok(())
                });
            }
        }
    };
    c.family("every small document replaced in place by every other of its size: every question, then every question");
    let all = c.pick(3, 4);
    run(c, all, true);
    c.family("every document of more nodes replaced in place by every other of its size: the same question twice");
    let one = c.pick(4, 5);
    run(c, one, false);

    c.family("texts replaced in place by others: paths, JSON texts, keys");
    let texts = [
        "$", "$.a", "$.b", "$.*", "$[0]", "$[1]", "$[*]", "$..a", "$..*", "$.ab", "$.aa", "$[01", "$[0,", "$.a.b", "$.a[0", "$.\"a\"", "$.\"b\"", "$[last]", "$.a.*",
        "$.count()", "$.type()", "$.a.size()", "$.a.type()", "$.a.what()", "$[0 to 1]", "$[1 to 0]", "$[0,1]", "$[1,0]", "$ .a", "@.a", "", "$.", "$..", "$...", "$[last-1]", "$[last-0]",
    ];
    let docs = [nested(), other(), obj(&[("a", n(1)), ("b", M::Arr(vec![n(2), n(3)])), ("aa", s("x")), ("ab", obj(&[("a", M::Null)]))]), M::Arr(vec![n(1), s("1")])];
    for t1 in texts {
        for t2 in texts {
            c.case(|| format!("path {t1:?} replaced in place by {t2:?}"), |st| {
                let mut mem = String::with_capacity(32);
                let mut kept = vec![];
                for t in [t1, t2, t1, t2] {
                    mem.clear();
                    mem.push_str(t);
                    let want = pathref::parse(t);
                    let p = PathExpression::from_str(&mem);
                    ensure!(p.is_ok() == want.is_some(), "{t:?} accepted: {}", p.is_ok());
                    kept.push(p.ok().zip(want));
                }
                for m in &docs {
                    let b = bytes(m);
                    let d = unsafe { Yason::new_unchecked(&b) };
                    for (p, want) in kept.iter().flatten() {
                        let r: Vec<M> = pathref::eval(want, m).iter().map(|x| x.model()).collect();
                        match p.query(d, true, None, None).map_err(e)? {
                            QueriedValue::Values(v) => {
                                let v = v.iter().map(read::model_of).collect::<Result<Vec<M>, _>>()?;
                                ensure!(M::Arr(v.clone()).same(&M::Arr(r)), "{p:?} selects {}", M::Arr(v).show());
                            }
                            QueriedValue::None => ensure!(r.is_empty(), "{p:?} selects nothing"),
                            _ => return Err("another kind of result".into()),
                        }
                        st.step(1);
                    }
                }
                st.outcome("text replaced");
                st.state(hash(&(t1, t2)));
                Ok(())
            });
        }
    }
    let jsons = [
        "1", "2", "12", "-1", "1.5", "1e2", "1e9", "null", "true", "false", "nul", "[]", "{}", "[1]", "[2]", "[12", "\"a\"", "\"b\"", "\"ab", "[1,2]", "[2,1]", "[[]]", "[{}]", "{\"a\":1}", "{\"a\":2}", "{\"b\":1}",
        "{\"a\" 1}", "{\"a\":[]}", "[\"\\n\"]", "[\"\\t\"]", "1e200", "-1e200",
    ];
    for t1 in jsons {
        for t2 in jsons {
            c.case(|| format!("JSON {t1} replaced in place by {t2}"), |st| {
                let mut mem = String::with_capacity(32);
                let mut kept: Vec<(Option<YasonBuf>, Option<M>)> = vec![];
                for t in [t1, t2, t1, t2] {
                    mem.clear();
                    mem.push_str(t);
                    let want = jsonref::parse(t).ok().and_then(|j| j.import().ok());
                    let mut v = vec![];
                    let into = Yason::parse_to(&mut v, &mem).map(|y| y.as_bytes().to_vec()).ok();
                    let own = YasonBuf::parse(&mem).ok();
                    ensure!(own.as_ref().map(|y| y.as_bytes()) == into.as_deref(), "the two ways of importing {t} differ");
                    kept.push((own, want));
                }
                for (y, want) in &kept {
                    match (y, want) {
                        (None, None) => {}
                        (Some(y), Some(m)) => same("imported", y.as_bytes(), m)?,
                        (y, m) => return Err(format!("imported: {} instead of {m:?}", y.is_some())),
                    }
                    st.step(2);
                }
                st.outcome("text replaced");
                st.state(hash(&(t1, t2)));
                Ok(())
            });
        }
    }
    // long texts that agree in their length, their beginning and their end
    let alike = |at: usize, len: usize, digit: bool| -> String {
        (0..len).map(|i| if digit { (b'1' + (i * 7 % 8) as u8 + (i == at) as u8) as char } else { (b'a' + (i * 7 % 8) as u8 + (i == at) as u8) as char }).collect()
    };
    let wraps: [(&str, &str, bool); 13] = [
        ("", "", true), ("-", "", true), ("0.", "", true), ("", "e3", true), ("0.0", "e-20", true), ("[", "]", true), ("{\"k\":-", "}", true), ("[1,2.", "e-1,true]", true),
        ("\"", "\"", false), ("[\"", "\\n\"]", false), ("{\"", "\":1}", false), ("{\"k\":[\"", "\"],\"l\":null}", false), ("{\"k\":1,\"k", "\":null}", false),
    ];
    c.family("long JSON texts that differ in one place, one after another");
    for len in [20usize, 38, 39, 40, 41, 61, 64, 65, 100, 129, 257, 300] {
        for (a, b, digit) in wraps {
            c.case(|| format!("{a}({len} characters){b}, another place changed each time"), |st| {
                let mut places: Vec<usize> = (0..len.min(6)).chain([len / 3, len / 2, len - 3, len - 2, len - 1, len]).collect();
                places.dedup();
                let mut mem = String::with_capacity(2 * len + 100);
                let mut own: Vec<(String, Option<Vec<u8>>, usize)> = vec![];
                // each place after each other one
                for &p in &places {
                    for &q in &places {
                        for at in [p, q] {
                            mem.clear();
                            mem.push_str(&format!("{a}{}{b}", alike(at, len, digit)));
                            let y = YasonBuf::parse(&mem).ok().map(|y| y.as_bytes().to_vec());
                            match own.iter().find(|x| x.2 == at) {
                                Some((t, x, _)) => ensure!(*x == y, "{t} imported again gives other bytes"),
                                None => {
                                    let want = jsonref::parse(&mem).ok().and_then(|j| j.import().ok());
                                    match (&y, want) {
                                        (None, None) => {}
                                        (Some(y), Some(m)) => same("imported", y, &m)?,
                                        (y, m) => return Err(format!("{mem} imported: {} instead of {m:?}", y.is_some())),
                                    }
                                    own.push((mem.clone(), y, at));
                                }
                            }
                            st.step(1);
                        }
                    }
                }
                st.outcome("text replaced");
                Ok(())
            });
        }
    }
    c.family("long paths, keys, numbers and documents that differ in one place, one after another");
    for len in [2usize, 9, 16, 17, 33, 64, 65, 129, 257] {
        c.case(|| format!("{len} characters, another place changed each time"), |st| {
            let mut places: Vec<usize> = (0..len.min(5)).chain([len / 2, len - 1, len]).collect();
            places.dedup();
            let key = |at: usize| alike(at, len, false);
            let m = M::Obj(places.iter().map(|p| (key(*p), n(*p as i64))).collect());
            let b = bytes(&m);
            let d = unsafe { Yason::new_unchecked(&b) };
            let o = d.object().map_err(e)?;
            let mut mem = String::with_capacity(len + 9);
            let mut out = String::new();
            for &p in &places {
                for &q in &places {
                    for at in [p, q] {
                        mem.clear();
                        mem.push_str(&key(at));
                        read::is(&o.get(&mem).map_err(e)?.ok_or("key not found")?, &n(at as i64))?;
                        let absent = format!("{}~", &mem[..len - 1]);
                        ensure!(!o.contains_key(&absent).map_err(e)?, "{absent:?} found");
                        for (l, r) in [("$.", ""), ("$.\"", "\""), ("$..", "")] {
                            let t = format!("{l}{mem}{r}");
                            match PathExpression::from_str(&t).map_err(e)?.query(d, true, None, None).map_err(e)? {
                                QueriedValue::Values(v) if v.len() == 1 => read::is(&v[0], &n(at as i64))?,
                                _ => return Err(format!("{t} selects another number of values")),
                            }
                        }
                        // built, formatted and compared
                        let x = M::Obj(vec![("k".into(), s(&mem)), (mem.clone(), M::Arr(vec![n(1)]))]);
                        let y = build::doc(&x)?;
                        same("built", y.as_bytes(), &x)?;
                        out.clear();
                        y.format_to(false, &mut out).map_err(e)?;
                        jsonref::parse(&out)?.is(&x)?;
                        let other = build::doc(&M::Obj(vec![("k".into(), s(&key(q))), (mem.clone(), M::Arr(vec![n(1)]))]))?;
                        ensure!(y.equals(&other).map_err(e)? == (at == q), "equality of documents differing at {at} and {q}");
                        if len <= 38 {
                            let digits = alike(at, len, true);
                            let v = Nm::new(digits.parse().map_err(e)?, (len / 2) as i16, at % 2 == 0);
                            let y = build::doc(&M::Num(v))?;
                            read::doc(&y, &M::Num(v))?;
                            out.clear();
                            y.format_to(false, &mut out).map_err(e)?;
                            jsonref::parse(&out)?.is(&M::Num(v))?;
                        }
                        st.step(9);
                    }
                }
            }
            st.outcome("one place changed");
            Ok(())
        });
    }
    let keys: Vec<String> = ["a", "b", "", "c"].iter().flat_map(|a| ["a", "b", "", "c"].iter().map(move |b| format!("{a}{b}"))).collect();
    for k1 in &keys {
        for k2 in &keys {
            c.case(|| format!("key {k1:?} replaced in place by {k2:?}"), |st| {
                let m = obj(&[("a", n(1)), ("ab", n(2)), ("b", s("x")), ("", M::Null), ("ba", M::Arr(vec![]))]);
                let b = bytes(&m);
                let d = unsafe { Yason::new_unchecked(&b) };
                let o = d.object().map_err(e)?;
                let mut mem = String::with_capacity(8);
                let M::Obj(v) = &m else { unreachable!() };
                for k in [k1, k2, k2, k1, k2] {
                    mem.clear();
                    mem.push_str(k);
                    let want = v.iter().find(|x| x.0 == *k).map(|x| &x.1);
                    let got = o.get(&mem).map_err(e)?;
                    match (&got, want) {
                        (None, None) => {}
                        (Some(g), Some(w)) => read::is(g, w)?,
                        _ => return Err(format!("{k:?} found: {}", got.is_some())),
                    }
                    let has = o.contains_key(&mem).map_err(e)?;
                    ensure!(has == want.is_some(), "contains_key({k:?}) is {has}");
                    st.step(2);
                }
                st.outcome("text replaced");
                st.state(hash(&(k1, k2)));
                Ok(())
            });
        }
    }
}

/// Whether a type may be sent to and shared between threads (decided by which of two constants is found).
macro_rules! sendable {
    ($t:ty) => {{
        #[allow(dead_code)]
        trait No {
            const YES: bool = false;
        }
        impl<T: ?Sized> No for T {}
        #[allow(dead_code)]
        struct Has<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + Send + Sync> Has<T> {
            const YES: bool = true;
        }
        (stringify!($t), Has::<$t>::YES)
    }};
}

pub fn c23(c: &mut Ctx) {
    c.family("public types that can be sent to and shared between threads");
    for (name, yes) in [
        sendable!(Yason),
        sendable!(&'static Yason),
        sendable!(YasonBuf),
        sendable!(Value<'static>),
        sendable!(Object<'static>),
        sendable!(Array<'static>),
        sendable!(ObjectIter<'static>),
        sendable!(KeyIter<'static>),
        sendable!(ValueIter<'static>),
        sendable!(ArrayIter<'static>),
        sendable!(PathExpression),
        sendable!(QueriedValue<'static, 'static>),
        sendable!(ObjectBuilder<'static>),
        sendable!(ArrayBuilder<'static>),
        sendable!(ObjectRefBuilder<'static>),
        sendable!(ArrayRefBuilder<'static>),
        sendable!(DataType),
        sendable!(BuildError),
        sendable!(YasonError),
        sendable!(FormatError),
        sendable!(PathParseError),
        sendable!(NumberError),
        sendable!(InvalidDataType),
    ] {
        c.case(|| format!("type {name}"), |st| {
            st.outcome("type");
            st.state(hash(name));
            st.step(1);
            ensure!(yes, "{name} cannot be sent to and shared between threads");
            Ok(())
        });
    }

    let ts = table();
    let _ = short();
    c.family("each operation alone, in a fresh thread and again in the same one");
    for t in ts.iter().chain(short()) {
        c.case(|| format!("alone: {}", t.0.name), |st| {
            for _ in 0..2 {
                let l = sched::alone(&t.0)?;
                ensure!(l == *t.1, "gives {l:?} and before {:?}", t.1);
                st.step(l.len() as u64);
            }
            st.outcome("alone");
            st.state(hash(t.0.name));
            Ok(())
        });
    }

    let bound = c.pick(2, 3);
    c.family("every pair of operations interleaved in one thread (two of the same kind included)");
    let both: Vec<&Entry> = ts.iter().chain(short()).collect();
    for (i, a) in both.iter().enumerate() {
        for b in &both[i..] {
            fiber_case(c, &[a, b], bound);
        }
    }
    c.family("every three operations interleaved in one thread");
    let tb = c.pick(1, 2);
    for (i, a) in ts.iter().enumerate() {
        for (j, b) in ts.iter().enumerate().skip(i) {
            for d in ts.iter().skip(j) {
                fiber_case(c, &[a, b, d], tb);
            }
        }
    }
    c.family("every pair of operations in two threads");
    let (pb, ab) = c.pick((1, 1), (2, 1));
    for (i, a) in ts.iter().enumerate() {
        for b in &ts[i..] {
            thread_case(c, &[a, b], pb, false);
            thread_case(c, &[a, b], ab, true);
        }
    }
    histories(c);

    // the checked build only has more instructions, not other ones
    let step = !cfg!(debug_assertions);
    c.family("an operation stopped at every instruction, each time to run another in a second thread");
    for a in ts.iter().filter(|_| step) {
        for (k, b) in ts.iter().enumerate() {
            if c.quick() && k % 4 != 0 && b.0.name != a.0.name {
                continue;
            }
            c.case(|| format!("{} stopped at every instruction to run {}", a.0.name, b.0.name), |st| {
                let x = sched::stepped(a, b, 0, 1, None)?;
                st.outcome(if x.runs > 0 { "stepped" } else { "stepping unavailable" });
                st.step(x.runs);
                st.state(hash(&(a.0.name, b.0.name, x.instructions)));
                Ok(())
            });
        }
    }
    c.family("an operation stopped once, at any of its instructions, to run another in a second thread");
    let short = short();
    for (i, a) in short.iter().enumerate().filter(|_| step) {
        for (j, b) in short.iter().enumerate() {
            if c.quick() && j != (i + 1) % short.len() && i != (j + 1) % short.len() {
                continue;
            }
            c.case(|| format!("{} stopped once to run {}", a.0.name, b.0.name), |st| {
                let n = sched::stepped_once(a, b)?;
                st.outcome(if n > 0 { "stopped once" } else { "stepping unavailable" });
                st.step(n);
                for i in 0..n {
                    st.state(hash(&(a.0.name, b.0.name, i)));
                }
                Ok(())
            });
        }
    }
}
