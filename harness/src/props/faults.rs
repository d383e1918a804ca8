//! C19 a failing writer, C20 failing allocations.
use super::*;
use crate::alloc::with_failing;
use crate::bnf;
use crate::build::{self, Order, AB, OB, ORDERS};
use crate::ctx::{clip, hash, Stats, R};
use crate::ensure;
use crate::read;
use yason::{ArrayBuilder, ArrayRefBuilder, BuildError, FormatError, ObjectBuilder, ObjectRefBuilder, PathExpression, QueriedValue, Scalar, Value, Yason, YasonBuf, YasonError};

// ---- C19 ------------------------------------------------------------------------------------------------

/// Fails one write (the `at`-th), or the one with which more than `budget` bytes would have been written (keeping
/// those within the budget). Later writes succeed, so that a swallowed error shows.
struct Faulty {
    at: u64,
    budget: usize,
    writes: u64,
    text: String,
    failed: bool,
    after: u64,
}

impl Faulty {
    fn new(at: u64, budget: usize) -> Faulty {
        Faulty { at, budget, writes: 0, text: String::new(), failed: false, after: 0 }
    }
}

impl std::fmt::Write for Faulty {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            return Ok(());
        }
        let i = self.writes;
        self.writes += 1;
        let room = self.budget - self.text.len();
        if i == self.at {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        if s.len() > room {
            let mut e = room;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            self.text.push_str(&s[..e]);
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Runs `fmt` with every failing position. `fmt` tells whether it reported the writer's error (None: success).
fn every_write(what: &str, id: u64, full: &str, st: &mut Stats, fmt: &dyn Fn(&mut Faulty) -> Result<(), Option<String>>) -> R {
    let mut check = |mut w: Faulty, at: String, st: &mut Stats| -> Result<bool, String> {
        let r = fmt(&mut w);
        st.step(1);
        if !w.failed {
            ensure!(r.is_ok(), "{what}, {at}: fails although every write succeeded");
            ensure!(w.text == full, "{what}, {at}: complete output {} differs from {}", clip(&w.text, 300), clip(full, 300));
            return Ok(false);
        }
        st.nontrivial(hash(&(id, what, &at)));
        ensure!(full.starts_with(&w.text), "{what}, {at}: wrote {} which is not a prefix of {}", clip(&w.text, 300), clip(full, 300));
        ensure!(w.after == 0, "{what}, {at}: {} more writes after the failed one", w.after);
        match r {
            Err(None) => Ok(true),
            Err(Some(e)) => Err(format!("{what}, {at}: reports {e} instead of the writer's error")),
            Ok(()) => Err(format!("{what}, {at}: reports success although a write failed")),
        }
    };
    let mut k = 0;
    while check(Faulty::new(k, usize::MAX), format!("write {k} failing"), st)? {
        k += 1;
    }
    let n = full.len();
    for b in (0..n).filter(|b| n <= 200 || *b < 60 || n - *b < 60) {
        ensure!(check(Faulty::new(u64::MAX, b), format!("{b} bytes of space"), st)?, "{what}: {b} bytes of space are enough for {n}");
    }
    check(Faulty::new(u64::MAX, n), "exactly enough space".into(), st)?;
    Ok(())
}

fn kind(e: FormatError) -> Option<String> {
    match e {
        FormatError::FmtError(_) | FormatError::NumberFormatError(_) => None,
        e => Some(format!("{e:?}")),
    }
}

pub fn writer_faults(y: &Yason, m: &M, paths: &[(&str, PathExpression)], st: &mut Stats) -> R {
    let id = m.hash();
    st.state(id);
    for pretty in [false, true] {
        let style = if pretty { "pretty" } else { "compact" };
        let text = |f: &dyn Fn(&mut String) -> Result<(), FormatError>| -> Result<String, String> {
            let mut t = String::new();
            f(&mut t).map_err(|e| e.to_string())?;
            Ok(t)
        };
        let full = text(&|t| y.format_to(pretty, t))?;
        every_write(&format!("{style} document"), id, &full, st, &|w| y.format_to(pretty, w).map_err(kind))?;
        every_write(&format!("{style} display"), id, &full, st, &|w| {
            use std::fmt::Write;
            let d = y.format(pretty);
            write!(w, "{d}").map_err(|_| None)
        })?;
        let query = |q: &QueriedValue, what: &str, st: &mut Stats| -> R {
            let full = text(&|t| q.format_to(pretty, t))?;
            every_write(&format!("{style} {what}"), id, &full, st, &|w| q.format_to(pretty, w).map_err(kind))
        };
        let v = Value::try_from(y).map_err(|e| e.to_string())?;
        query(&QueriedValue::Value(v.clone()), "value", st)?;
        query(&QueriedValue::Yason(y), "result document", st)?;
        query(&QueriedValue::None, "no value", st)?;
        let mut vs = vec![v.clone(), Value::Null, v];
        query(&QueriedValue::ValuesRef(&mut vs), "values in a buffer", st)?;
        query(&QueriedValue::Values(vs), "values", st)?;
        for (t, p) in paths {
            let q = p.query(y, true, None, None).map_err(|e| format!("{t}: {e}"))?;
            query(&q, t, st)?;
        }
        let again = text(&|t| y.format_to(pretty, t))?;
        ensure!(again == full, "{style}: formats as {} afterwards instead of {}", clip(&again, 300), clip(&full, 300));
    }
    Ok(())
}

pub fn c19(c: &mut Ctx) {
    let paths: Vec<(&str, PathExpression)> = ["$.*", "$[*]", "$..a"].into_iter().map(|p| (p, p.parse().unwrap())).collect();
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(|| format!("failing writers for {}", mk().show()), |st| {
            let m = mk();
            st.outcome(m.ty().name());
            writer_faults(&*build::doc(&m)?, &m, &paths, st)
        });
    };
    let max = c.pick(4, 5);
    small(c, max, &mut |c, mk| run(c, mk));
    list(c, "every encoding class in every position", gen::rich().iter().flat_map(gen::contexts).collect(), &mut |c, mk| run(c, mk));
    list(c, "every number of the corner list", gen::numbers().into_iter().map(|v| M::Arr(vec![n(1), M::Num(v), n(2)])).collect(), &mut |c, mk| run(c, mk));
    let texts: Vec<M> = (0..=0xA0u32).filter_map(char::from_u32).flat_map(|ch| {
        let t = format!("a{ch}b{ch}{ch}");
        [s(&t), M::Obj(vec![(t.clone(), s("v")), ("k".into(), s(&t))])]
    }).collect();
    list(c, "every control and special character", texts, &mut |c, mk| run(c, mk));
    let w = c.pick(64, 300);
    wide(c, w, &mut |c, mk| run(c, mk));
    c.family("nested chains");
    for d in [2usize, 3, 10, 60, 100] {
        for m in gen::deep(d, s("x")) {
            run(c, &|| m.clone());
        }
        for m in gen::deep(d - 1, M::Arr(vec![])) {
            run(c, &|| m.clone());
        }
    }
    c.family("documents in other legal layouts");
    for m in gen::small_vec(3).into_iter().filter(|m| m.is_container()) {
        for l in bnf::Layout::some() {
            c.case(|| format!("failing writers for {} in layout {l:?}", m.show()), |st| {
                st.outcome("other layout");
                let b = bnf::encode(&m, l);
                writer_faults(unsafe { Yason::new_unchecked(&b) }, &m, &paths, st)
            });
        }
    }
}

// ---- C20 ------------------------------------------------------------------------------------------------

/// Counts down to the allocation that is to fail, over the calls of one script.
struct Faults {
    left: u64,
    hit: bool,
    /// how many times in a row the repeated call is refused
    repeats: u32,
}

impl Faults {
    fn new(nth: u64, repeats: u32) -> Faults {
        Faults { left: nth, hit: false, repeats }
    }
    /// One call of the library. The second value tells whether an allocation was failed in it.
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> (T, bool) {
        if self.hit && self.repeats == 0 {
            return (f(), false);
        }
        let (r, count, failed) = with_failing(self.left, f);
        if failed {
            // the repetition fails at its first allocation
            self.left = 0;
            if self.hit {
                self.repeats -= 1;
            }
            self.hit = true;
        } else if !self.hit {
            self.left -= count;
        } else {
            // nothing was left to refuse
            self.repeats = 0;
        }
        (r, failed)
    }
}

fn refused(e: &BuildError) -> bool {
    matches!(e, BuildError::TryReserveError(_))
}

fn refused_y(e: &YasonError) -> bool {
    matches!(e, YasonError::TryReserveError(_)) || matches!(e, YasonError::BuildError(e) if refused(e))
}

/// Repeats a call until it is not refused; every failed allocation must be reported.
fn repeat<T>(f: &mut Faults, what: &str, mut call: impl FnMut() -> Result<T, BuildError>) -> Result<T, String> {
    loop {
        let (r, failed) = f.call(&mut call);
        match (r, failed) {
            (Ok(v), false) => return Ok(v),
            (Err(e), true) if refused(&e) => {}
            (Err(e), true) => return Err(format!("{what}: a failed allocation is reported as {e:?}")),
            (Err(e), false) => return Err(format!("{what}: fails without a failed allocation: {e:?}")),
            (Ok(_), true) => return Err(format!("{what}: a failed allocation is not reported")),
        }
    }
}

/// Why a script did not finish.
enum Stop {
    /// the final call, which consumes the builder, was refused
    Refused,
    Wrong(String),
}
impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Wrong(s)
    }
}

fn finish<T>(f: &mut Faults, what: &str, call: impl FnOnce() -> Result<T, BuildError>) -> Result<T, Stop> {
    match f.call(call) {
        (Ok(v), false) => Ok(v),
        (Err(e), true) if refused(&e) => Err(Stop::Refused),
        (Err(e), true) => Err(Stop::Wrong(format!("{what}: a failed allocation is reported as {e:?}"))),
        (Err(e), false) => Err(Stop::Wrong(format!("{what}: fails without a failed allocation: {e:?}"))),
        (Ok(_), true) => Err(Stop::Wrong(format!("{what}: a failed allocation is not reported"))),
    }
}

/// A refused call that would have returned a borrowing builder.
fn begin<T>(r: Result<T, BuildError>, failed: bool, what: &str) -> Result<Option<T>, String> {
    match (r, failed) {
        (Ok(v), false) => Ok(Some(v)),
        (Err(e), true) if refused(&e) => Ok(None),
        (Err(e), true) => Err(format!("{what}: a failed allocation is reported as {e:?}")),
        (Err(e), false) => Err(format!("{what}: fails without a failed allocation: {e:?}")),
        (Ok(_), true) => Err(format!("{what}: a failed allocation is not reported")),
    }
}

fn order(v: &[(String, M)], o: Order) -> Vec<usize> {
    match o {
        Order::Reversed => (0..v.len()).rev().collect(),
        Order::Listed => (0..v.len()).collect(),
        _ => crate::model::member_order(v),
    }
}

fn fill_obj(b: &mut impl OB, v: &[(String, M)], o: Order, f: &mut Faults) -> Result<(), Stop> {
    for i in order(v, o) {
        let (k, m) = (v[i].0.as_str(), &v[i].1);
        match m {
            M::Null => repeat(f, "push_null", || b.nul(k))?,
            M::Bool(x) => repeat(f, "push_bool", || b.boo(k, *x))?,
            M::Num(x) => {
                let x = x.number();
                repeat(f, "push_number", || b.num(k, &x))?
            }
            M::Str(x) => repeat(f, "push_string", || b.st(k, x))?,
            M::Arr(x) => loop {
                let (r, failed) = f.call(|| b.ar(k, x.len() as u16));
                if let Some(mut c) = begin(r, failed, "push_array")? {
                    fill_arr(&mut c, x, o, f)?;
                    finish(f, "finish of an array", || c.finish())?;
                    break;
                }
            },
            M::Obj(x) => loop {
                let (r, failed) = f.call(|| b.ob(k, x.len() as u16, o == Order::Sorted));
                if let Some(mut c) = begin(r, failed, "push_object")? {
                    fill_obj(&mut c, x, o, f)?;
                    finish(f, "finish of an object", || c.finish())?;
                    break;
                }
            },
        }
    }
    Ok(())
}

fn fill_arr(b: &mut impl AB, v: &[M], o: Order, f: &mut Faults) -> Result<(), Stop> {
    for m in v {
        match m {
            M::Null => repeat(f, "push_null", || b.nul())?,
            M::Bool(x) => repeat(f, "push_bool", || b.boo(*x))?,
            M::Num(x) => {
                let x = x.number();
                repeat(f, "push_number", || b.num(&x))?
            }
            M::Str(x) => repeat(f, "push_string", || b.st(x))?,
            M::Arr(x) => loop {
                let (r, failed) = f.call(|| b.ar(x.len() as u16));
                if let Some(mut c) = begin(r, failed, "push_array")? {
                    fill_arr(&mut c, x, o, f)?;
                    finish(f, "finish of an array", || c.finish())?;
                    break;
                }
            },
            M::Obj(x) => loop {
                let (r, failed) = f.call(|| b.ob(x.len() as u16, o == Order::Sorted));
                if let Some(mut c) = begin(r, failed, "push_object")? {
                    fill_obj(&mut c, x, o, f)?;
                    finish(f, "finish of an object", || c.finish())?;
                    break;
                }
            },
        }
    }
    Ok(())
}

fn owned(m: &M, o: Order, f: &mut Faults) -> Result<Vec<u8>, Stop> {
    let y: YasonBuf = match m {
        M::Null => repeat(f, "Scalar::null", Scalar::null)?,
        M::Bool(x) => repeat(f, "Scalar::bool", || Scalar::bool(*x))?,
        M::Num(x) => {
            let x = x.number();
            repeat(f, "Scalar::number", || Scalar::number(x))?
        }
        M::Str(x) => repeat(f, "Scalar::string", || Scalar::string(x))?,
        M::Arr(v) => {
            let mut b = repeat(f, "ArrayBuilder::try_new", || ArrayBuilder::try_new(v.len() as u16))?;
            fill_arr(&mut b, v, o, f)?;
            finish(f, "finish", || b.finish())?
        }
        M::Obj(v) => {
            let mut b = repeat(f, "ObjectBuilder::try_new", || ObjectBuilder::try_new(v.len() as u16, o == Order::Sorted))?;
            fill_obj(&mut b, v, o, f)?;
            finish(f, "finish", || b.finish())?
        }
    };
    Ok(y.as_bytes().to_vec())
}

/// A call that lends out the buffer: repeated on the same buffer.
fn lent<'a>(f: &mut Faults, what: &str, buf: &'a mut Vec<u8>, call: impl Fn(&mut Vec<u8>) -> Result<usize, BuildError>) -> Result<&'a [u8], Stop> {
    let n = repeat(f, what, || call(buf))?;
    Ok(&buf[buf.len() - n..])
}

fn into(m: &M, o: Order, prior: usize, cap: usize, f: &mut Faults) -> Result<Vec<u8>, Stop> {
    let mut buf: Vec<u8> = Vec::with_capacity(prior + cap);
    buf.resize(prior, 0xEE);
    let len = |y: &Yason| y.as_bytes().len();
    let got = match m {
        M::Null => lent(f, "Scalar::null_with_vec", &mut buf, |b| Scalar::null_with_vec(b).map(len))?.to_vec(),
        M::Bool(x) => lent(f, "Scalar::bool_with_vec", &mut buf, |b| Scalar::bool_with_vec(*x, b).map(len))?.to_vec(),
        M::Num(x) => {
            let x = x.number();
            lent(f, "Scalar::number_with_vec", &mut buf, |b| Scalar::number_with_vec(x, b).map(len))?.to_vec()
        }
        M::Str(x) => lent(f, "Scalar::string_with_vec", &mut buf, |b| Scalar::string_with_vec(x, b).map(len))?.to_vec(),
        M::Arr(v) => loop {
            let (r, failed) = f.call(|| ArrayRefBuilder::try_new(&mut buf, v.len() as u16));
            if let Some(mut b) = begin(r, failed, "ArrayRefBuilder::try_new")? {
                fill_arr(&mut b, v, o, f)?;
                break finish(f, "finish", || b.finish())?.as_bytes().to_vec();
            }
        },
        M::Obj(v) => loop {
            let (r, failed) = f.call(|| ObjectRefBuilder::try_new(&mut buf, v.len() as u16, o == Order::Sorted));
            if let Some(mut b) = begin(r, failed, "ObjectRefBuilder::try_new")? {
                fill_obj(&mut b, v, o, f)?;
                break finish(f, "finish", || b.finish())?.as_bytes().to_vec();
            }
        },
    };
    if buf[..prior].iter().any(|b| *b != 0xEE) {
        return Err(Stop::Wrong("the bytes before the document in the buffer changed".into()));
    }
    Ok(got)
}

/// Runs a script failing each of its allocations in turn.
fn each_allocation(what: &str, id: u64, m: &M, want: &[u8], st: &mut Stats, run: &mut dyn FnMut(&mut Faults) -> Result<Vec<u8>, Stop>) -> R {
    for repeats in [0, 1] {
        for nth in 0.. {
            let mut f = Faults::new(nth, repeats);
            let r = run(&mut f);
            st.step(1);
            if f.hit {
                st.nontrivial(hash(&(id, what, nth, repeats)));
            }
            match r {
                Ok(b) => {
                    if b != want {
                        let got = bnf::decode(&b).map(|g| g.show()).unwrap_or_else(|e| format!("no document ({e})"));
                        return Err(format!("{what}, allocation {nth} failing: gives {got}, bytes differ from those of {}", m.show()));
                    }
                }
                Err(Stop::Refused) => {}
                Err(Stop::Wrong(e)) => return Err(format!("{what}, allocation {nth} failing: {e}")),
            }
            if !f.hit {
                break;
            }
        }
    }
    Ok(())
}

/// Spare capacities so that the buffer has to grow at every possible call.
fn capacities(len: usize, all: usize) -> Vec<usize> {
    (0..len + 40).filter(|c| len <= all || *c < 48 || (*c < len + 30 && *c + 48 > len) || (*c % 97 == 5 && len < 4000)).collect()
}

pub fn building(m: &M, all: usize, st: &mut Stats) -> R {
    let id = m.hash();
    st.state(id);
    for o in ORDERS {
        let want = build::owned(m, o).map_err(|e| e.to_string())?;
        let want = want.as_bytes();
        each_allocation(&format!("owned builder ({o:?})"), id, m, want, st, &mut |f| owned(m, o, f))?;
        for cap in capacities(want.len(), all) {
            for prior in [0, 3] {
                each_allocation(&format!("builder into a buffer with {cap} bytes to spare after {prior} ({o:?})"), id, m, want, st, &mut |f| into(m, o, prior, cap, f))?;
            }
        }
        if !m.is_container() || all < 64 {
            break;
        }
    }
    Ok(())
}

pub fn copying(m: &M, st: &mut Stats) -> R {
    let y = build::doc(m)?;
    let id = m.hash();
    for nth in 0.. {
        let (r, _, failed) = with_failing(nth, || y.to_yason_buf());
        st.step(1);
        match (r, failed) {
            (Ok(b), false) => {
                ensure!(b.as_bytes() == y.as_bytes(), "to_yason_buf: other bytes");
                break;
            }
            (Err(e), true) if refused_y(&e) => st.nontrivial(hash(&(id, "to_yason_buf", nth))),
            (r, _) => return Err(format!("to_yason_buf: allocation {nth} failed: {failed}, result {:?}", r.map(|_| ()))),
        }
    }
    let v = Value::try_from(&*y).map_err(|e| e.to_string())?;
    for cap in [0usize, 1, 2, 3, 8, 20, 40] {
        for nth in 0.. {
            let mut buf: Vec<u8> = Vec::with_capacity(cap);
            let (r, _, failed) = with_failing(nth, || v.try_to_yason(&mut buf).map(|y| y.as_bytes().len()));
            st.step(1);
            match (r, failed) {
                (Ok(_), false) => break,
                (Err(e), true) if refused_y(&e) => st.nontrivial(hash(&(id, "try_to_yason", cap, nth))),
                (r, _) => return Err(format!("try_to_yason: allocation {nth} failed: {failed}, result {:?}", r.map(|_| ()))),
            }
            let z = v.try_to_yason(&mut buf).map_err(|e| format!("try_to_yason again: {e}"))?;
            read::doc(z, m).map_err(|e| format!("try_to_yason again: {e}"))?;
        }
    }
    Ok(())
}

pub fn parsing(t: &str, probes: &[YasonBuf], st: &mut Stats) -> R {
    let good: PathExpression = t.parse().map_err(|e| format!("{t}: {e}"))?;
    let select = |p: &PathExpression| -> Result<Vec<String>, String> {
        probes
            .iter()
            .map(|y| {
                let q = p.query(y, true, None, None).map_err(|e| e.to_string())?;
                let mut o = String::new();
                q.format_to(false, &mut o).map_err(|e| e.to_string())?;
                Ok(o)
            })
            .collect()
    };
    let want = select(&good)?;
    for nth in 0.. {
        let (r, _, failed) = with_failing(nth, || t.parse::<PathExpression>());
        st.step(1);
        match (r, failed) {
            (Ok(p), false) => {
                ensure!(select(&p)? == want, "{t}: parses to another path afterwards");
                break;
            }
            (Err(e), true) => {
                let e = e.to_string();
                ensure!(e.contains("memory allocation failed"), "{t}: failed allocation {nth} is reported as {e:?}");
                st.nontrivial(hash(&(t, nth)));
            }
            (Ok(_), true) => return Err(format!("{t}: failed allocation {nth} is not reported")),
            (Err(e), false) => return Err(format!("{t}: fails without a failed allocation: {e}")),
        }
    }
    Ok(())
}

pub fn querying(m: &M, paths: &[(&str, PathExpression)], st: &mut Stats) -> R {
    let y = build::doc(m)?;
    let id = m.hash();
    st.state(id);
    for (t, p) in paths {
        for wrap in [true, false] {
            for mode in 0..4 {
                for cap in [0usize, 1, 9, 33] {
                    if mode == 0 && cap > 0 || mode < 2 && cap > 1 {
                        continue;
                    }
                    let show = |r: Result<QueriedValue, YasonError>| -> Result<String, String> {
                        match r {
                            Ok(q) => {
                                let mut o = String::from(match q {
                                    QueriedValue::None => "none",
                                    QueriedValue::Value(_) => "value ",
                                    QueriedValue::Values(_) => "values ",
                                    QueriedValue::ValuesRef(_) => "buffer ",
                                    QueriedValue::Yason(_) => "document ",
                                });
                                q.format_to(false, &mut o).map_err(|e| e.to_string())?;
                                Ok(o)
                            }
                            Err(e) => Ok(format!("error {e:?}")),
                        }
                    };
                    let run = |vb: &mut Vec<Value<'_>>, rb: &mut Vec<u8>, nth: u64| -> Result<(String, bool, bool), String> {
                        // the lifetimes of the buffers end with this call
                        let vb: &mut Vec<Value> = unsafe { std::mem::transmute(vb) };
                        let (v, r) = (if mode & 1 == 1 { Some(vb) } else { None }, if mode & 2 == 2 { Some(rb) } else { None });
                        let (q, _, failed) = with_failing(nth, || p.query(&y, wrap, v, r));
                        let alloc = matches!(&q, Err(e) if refused_y(e));
                        Ok((show(q)?, alloc, failed))
                    };
                    let (mut v0, mut r0) = (vec![], vec![]);
                    let (want, _, _) = run(&mut v0, &mut r0, u64::MAX)?;
                    for nth in 0.. {
                        let mut vb: Vec<Value> = Vec::with_capacity(cap % 3);
                        let mut rb: Vec<u8> = Vec::with_capacity(cap);
                        let (got, alloc, failed) = run(&mut vb, &mut rb, nth)?;
                        st.step(1);
                        if failed {
                            ensure!(alloc, "{t} (wrapper {wrap}, buffers {mode}): failed allocation {nth} gives {}", clip(&got, 300));
                            st.nontrivial(hash(&(id, t, wrap, mode, nth, cap)));
                        }
                        let (again, _, _) = if failed { run(&mut vb, &mut rb, u64::MAX)? } else { (got, false, false) };
                        ensure!(again == want, "{t} (wrapper {wrap}, buffers {mode}), allocation {nth} failing: then gives {} instead of {}", clip(&again, 300), clip(&want, 300));
                        if !failed {
                            break;
                        }
                    }
                }
            }
        }
        let want = format!("{:?}", p.exists(&y));
        for nth in 0.. {
            let (r, _, failed) = with_failing(nth, || p.exists(&y));
            st.step(1);
            if !failed {
                ensure!(format!("{r:?}") == want, "{t}: exists gives {r:?} instead of {want}");
                break;
            }
            ensure!(matches!(&r, Err(e) if refused_y(e)), "{t}: exists gives {r:?} when allocation {nth} fails");
            st.nontrivial(hash(&(id, t, "exists", nth)));
        }
    }
    Ok(())
}

pub fn c20(c: &mut Ctx) {
    let build_all = |c: &mut Ctx, all: usize, mk: &dyn Fn() -> M| {
        c.case(|| format!("build {} with failing allocations", mk().show()), |st| {
            let m = mk();
            st.outcome("building");
            building(&m, all, st)?;
            copying(&m, st)
        });
    };
    let max = c.pick(4, 5);
    small(c, max, &mut |c, mk| build_all(c, 400, mk));
    list(c, "every encoding class in every position", gen::rich().iter().flat_map(gen::contexts).collect(), &mut |c, mk| build_all(c, 300, mk));
    c.family("every pair of encoding classes side by side, growth at every call");
    let r: Vec<M> = gen::rich().into_iter().filter(|m| m.show().len() < 200).collect();
    for a in &r {
        for b in &r {
            build_all(c, 300, &|| M::Arr(vec![a.clone(), b.clone(), M::Null]));
            build_all(c, 300, &|| M::Obj(vec![("y".into(), a.clone()), ("x".into(), b.clone()), ("".into(), M::Bool(true))]));
        }
    }
    c.family("owned builders that outgrow their first block at every call");
    for pad in 0..c.pick(160, 300) {
        build_all(c, 32, &|| M::Arr(vec![s(&"p".repeat(pad)), M::Obj(vec![("b".into(), n(5)), ("a".into(), M::Arr(vec![M::Null, M::Bool(true)]))]), M::Null, M::Bool(false), s("tail"), M::Num(crate::model::Nm::new(15, 1, true))]));
        build_all(c, 32, &|| M::Obj(vec![("z".into(), s(&"p".repeat(pad))), ("m".into(), M::Arr(vec![M::Obj(vec![("k".into(), M::Null)]), n(1)])), ("a".into(), M::Null), ("b".into(), M::Bool(true)), ("c".into(), n(-7)), ("dd".into(), s("tail"))]));
        for kind in 0..5 {
            build_all(c, 32, &|| M::Arr(vec![s(&"p".repeat(pad)), gen::wide(5, kind)]));
            build_all(c, 32, &|| M::Obj(vec![("p".into(), s(&"p".repeat(pad))), ("w".into(), gen::wide_obj(5, kind))]));
        }
    }
    c.family("containers with many elements and nested chains");
    for w in [20usize, 21, 22, 31, 32, 33, 50, 51, 64, 100, 255, 256, 1000] {
        for kind in [0, 3] {
            build_all(c, 32, &|| gen::wide(w, kind));
            build_all(c, 32, &|| gen::wide_obj(w, kind));
        }
    }
    for d in [2usize, 5, 20, 100] {
        for m in gen::deep(d, s("leaf")) {
            build_all(c, 32, &|| m.clone());
        }
    }

    let texts = [
        "$", "$.a", "$.abc", "$.\"quoted key\"", "$.\"a\\\\b\"", "$.*", "$[*]", "$[0]", "$[last]", "$[last - 1]", "$[0, 1]", "$[1 to 2]", "$[0, 2 to last, last-1, 5]", "$..a", "$..\"x y\"", "$.size()", "$.count()", "$.type()",
        "$.a.b.c.d.e.f", "$[0][1][2][3][4][5][6]", "$..a.b[*].*[0, 1]..c.type()", " $ . a [ 0 ] ",
    ];
    c.family("paths, every allocation of parsing failing");
    let probe = [
        M::Obj(vec![("a".into(), M::Arr(vec![n(0), M::Obj(vec![("b".into(), n(1)), ("a".into(), M::Arr(vec![n(2), n(3)]))]), s("x")])), ("quoted key".into(), n(4)), ("abc".into(), n(5)), ("x y".into(), n(6))]),
        M::Arr(vec![n(1), M::Arr(vec![n(2), n(3)]), M::Obj(vec![("a".into(), s("y"))])]),
        n(7),
    ];
    let probes: Vec<YasonBuf> = probe.iter().map(|m| build::doc(m).unwrap()).collect();
    let mut all: Vec<String> = texts.iter().map(|t| t.to_string()).collect();
    for k in 0..c.pick(40, 100) {
        all.push(format!("$.{}", "k".repeat(k + 1)));
        all.push(format!("$.\"{}\"", "k ".repeat(k)));
        all.push(format!("$..{}", "k".repeat(k + 1)));
        all.push(format!("${}", ".a".repeat(k)));
        all.push(format!("${}", "[0]".repeat(k)));
        all.push(format!("$[{}0]", "1,".repeat(k)));
        all.push(format!("$[{}0]", "1 to 2,".repeat(k)));
        all.push(format!("${}.count()", "[last,0].\"b\"".repeat(k % 10)));
    }
    // every combination of three steps
    let steps = [".a", ".\"q\"", ".*", "[0]", "[last]", "[*]", "[1 to last]", "[0,last-1]", "..b"];
    for a in steps {
        for b in steps {
            for d in steps {
                all.push(format!("${a}{b}{d}"));
            }
        }
    }
    for t in &all {
        c.case(|| format!("parse {t} with failing allocations"), |st| {
            st.outcome("parsing");
            parsing(t, &probes, st)
        });
    }
    let paths: Vec<(&str, PathExpression)> = texts.iter().map(|t| (*t, t.parse().unwrap())).collect();
    c.family("queries, every allocation failing, every delivery mode");
    let mut docs = probe.to_vec();
    docs.extend(gen::small_vec(c.pick(3, 4)));
    docs.extend(gen::rich().iter().flat_map(gen::contexts).filter(|m| m.show().len() < 200).step_by(3));
    for w in [3, 4, 5, 8, 9, 16, 17, 40, 41, 100] {
        docs.push(gen::wide(w, 3));
        docs.push(gen::wide_obj(w, 3));
        docs.push(gen::wide(w, 1));
    }
    for m in &docs {
        c.case(|| format!("query {} with failing allocations", m.show()), |st| {
            st.outcome("querying");
            querying(m, &paths, st)
        });
    }
}
