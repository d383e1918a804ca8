//! C26 what is dropped is released, C27 work and memory in proportion.
use super::faults;
use super::inter;
use super::json::words;
use super::*;
use crate::alloc;
use crate::bnf;
use crate::build::{self, Order, ORDERS};
use crate::count;
use crate::ctx::{hash, Stats, R};
use crate::ensure;
use crate::jsonref;
use crate::sched;
use yason::{Array, ArrayBuilder, ArrayRefBuilder, Number, Object, ObjectBuilder, ObjectRefBuilder, PathExpression, QueriedValue, Value, Yason, YasonBuf};

fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}

// ---- C27 ------------------------------------------------------------------------------------------------

/// What one run of an operation took.
#[derive(Clone, Copy, Debug)]
struct Cost {
    instructions: u64,
    /// steps it took to count them
    steps: u64,
    /// most heap memory in use at a time beyond what was in use before
    peak: u64,
    /// heap memory asked for altogether
    total: u64,
}

fn cost(f: &dyn Fn() -> R) -> Result<Cost, String> {
    // the first time may prepare things
    f()?;
    let was = alloc::in_use();
    alloc::restart();
    let (r, instructions, steps) = match count::COUNTED {
        true => {
            let (r, n) = count::blocks(f);
            (r, n, n)
        }
        false => sched::instructions(f),
    };
    r?;
    let is = alloc::in_use();
    Ok(Cost { instructions, steps, peak: (is.peak - was.bytes) as u64, total: is.total - was.total })
}

type Run = Box<dyn Fn() -> R>;

/// Documents of a shape, of n parts.
const SHAPES: [&str; 14] = [
    "an array of numbers",
    "an array of strings",
    "an array of null, true and false",
    "an array of arrays",
    "an array of objects",
    "an object of numbers",
    "an object of strings with keys of one length",
    "an object of objects and arrays",
    "one long string",
    "one long string of characters to be escaped",
    "one long string outside ASCII",
    "an array of arrays of arrays",
    "an object with a long key and a long value",
    "an array of long numbers",
];

fn shape(k: usize, size: usize) -> M {
    let ob = |k: &str, m: M| M::Obj(vec![(k.into(), m)]);
    let i = |i: usize| n((i * 7 % 1000) as i64);
    let root = |k: usize| (1..).find(|r| r * r >= k).unwrap();
    match k {
        0 => M::Arr((0..size).map(i).collect()),
        1 => M::Arr((0..size).map(|i| s(&format!("text {i}"))).collect()),
        2 => M::Arr((0..size).map(|i| [M::Null, M::Bool(true), M::Bool(false)][i % 3].clone()).collect()),
        3 => M::Arr((0..size).map(|j| M::Arr(vec![i(j)])).collect()),
        4 => M::Arr((0..size).map(|j| ob("k", i(j))).collect()),
        5 => M::Obj((0..size).map(|j| (format!("{}", j * 7919 % size.max(1)), i(j))).collect::<std::collections::BTreeMap<_, _>>().into_iter().collect()),
        6 => M::Obj((0..size).map(|j| (format!("key{:05}", j), s("v"))).collect()),
        7 => M::Obj((0..size).map(|j| (gen::key(j), if j % 2 == 0 { ob("k", i(j)) } else { M::Arr(vec![i(j), s("x")]) })).collect()),
        8 => s(&"abcdefgh".repeat(size)),
        9 => s(&"\"\\\n\u{1}".repeat(size)),
        10 => s(&"é日\u{1F600}".repeat(size)),
        11 => {
            let r = root(size).max(1);
            M::Arr((0..r).map(|a| M::Arr((0..r).map(|b| if a == b { M::Arr(vec![i(a)]) } else { i(b) }).collect())).collect())
        }
        12 => M::Obj(vec![("k".repeat((8 * size).min(65535)), s(&"v".repeat(size * 8))), ("k".into(), n(1))]),
        _ => M::Arr((0..size).map(|i| M::Num(crate::model::Nm::new(10u128.pow(37) + i as u128, (i % 90) as i16, i % 2 == 0))).collect()),
    }
}

fn keep(y: YasonBuf) -> &'static YasonBuf {
    Box::leak(Box::new(y))
}

type Make = fn(&M) -> Result<Run, String>;

/// Operations on a whole document.
fn whole() -> Vec<(&'static str, Make)> {
    fn built(m: &M, o: Order) -> Result<Run, String> {
        let m = m.clone();
        Ok(Box::new(move || build::owned(&m, o).map(|_| ()).map_err(e)))
    }
    fn asked(m: &M, p: &str, how: u8) -> Result<Run, String> {
        let y = build::doc(m)?;
        let p: PathExpression = p.parse().map_err(e)?;
        Ok(Box::new(move || {
            let (mut v, mut b) = (vec![], vec![]);
            let r = match how {
                0 => p.query(&y, true, None, None).map_err(e)?,
                1 => p.query(&y, true, Some(&mut v), None).map_err(e)?,
                2 => p.query(&y, true, None, Some(&mut b)).map_err(e)?,
                _ => {
                    p.exists(&y).map_err(e)?;
                    QueriedValue::None
                }
            };
            let _ = r;
            Ok(())
        }))
    }
    fn shown(m: &M, pretty: bool) -> Result<Run, String> {
        let y = build::doc(m)?;
        Ok(Box::new(move || {
            let mut t = String::new();
            y.format_to(pretty, &mut t).map_err(e)
        }))
    }
    fn walk(v: &Value) -> R {
        match v {
            Value::Array(a) => walk_array(a),
            Value::Object(o) => walk_object(o),
            _ => Ok(()),
        }
    }
    fn walk_array(a: &Array) -> R {
        for v in a.iter().map_err(e)? {
            walk(&v.map_err(e)?)?;
        }
        Ok(())
    }
    fn walk_object(o: &Object) -> R {
        for v in o.iter().map_err(e)? {
            walk(&v.map_err(e)?.1)?;
        }
        Ok(())
    }
    fn each(v: &Value) -> R {
        match v {
            Value::Array(a) => {
                for i in 0..a.len().map_err(e)? {
                    each(&a.get(i).map_err(e)?)?;
                }
            }
            Value::Object(o) => {
                for k in o.key_iter().map_err(e)? {
                    each(&o.get(k.map_err(e)?).map_err(e)?.ok_or("missing")?)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    vec![
        ("built in order", |m| built(m, Order::Listed)),
        ("built in reverse", |m| built(m, Order::Reversed)),
        ("built sorted", |m| built(m, Order::Sorted)),
        ("built into a buffer", |m| {
            let m = m.clone();
            Ok(Box::new(move || {
                let mut b = vec![];
                build::into(&m, Order::Listed, &mut b).map(|_| ()).map_err(e)
            }))
        }),
        ("imported", |m| {
            let t = jsonref::render(m);
            Ok(Box::new(move || YasonBuf::parse(&t).map(|_| ()).map_err(e)))
        }),
        ("imported pretty", |m| {
            let t = jsonref::pretty(&jsonref::render(m));
            Ok(Box::new(move || YasonBuf::parse(&t).map(|_| ()).map_err(e)))
        }),
        ("refused at its end", |m| {
            let t = format!("[{}", jsonref::render(m));
            Ok(Box::new(move || match YasonBuf::parse(&t) {
                Ok(_) => Err("not refused".into()),
                Err(_) => Ok(()),
            }))
        }),
        ("compact output", |m| shown(m, false)),
        ("pretty output", |m| shown(m, true)),
        ("copied", |m| {
            let y = build::doc(m)?;
            Ok(Box::new(move || y.to_yason_buf().map(|_| ()).map_err(e)))
        }),
        ("compared with itself built in reverse", |m| {
            let (y, z) = (build::doc(m)?, build::owned(m, Order::Reversed).map_err(e)?);
            Ok(Box::new(move || if y.equals(&z).map_err(e)? { Ok(()) } else { Err("not equal".into()) }))
        }),
        ("iterated", |m| {
            let y = keep(build::doc(m)?);
            Ok(Box::new(move || walk(&Value::try_from(&**y).map_err(e)?)))
        }),
        ("read part by part", |m| {
            let y = keep(build::doc(m)?);
            Ok(Box::new(move || each(&Value::try_from(&**y).map_err(e)?)))
        }),
        ("serialized", |m| {
            let y = build::doc(m)?;
            Ok(Box::new(move || serde_json::to_string(&y).map(|_| ()).map_err(e)))
        }),
        ("$[*]", |m| asked(m, "$[*]", 0)),
        ("$[*] into a buffer", |m| asked(m, "$[*]", 1)),
        ("$[*] as a document", |m| asked(m, "$[*]", 2)),
        ("$.*", |m| asked(m, "$.*", 0)),
        ("$.* as a document", |m| asked(m, "$.*", 2)),
        ("$..k", |m| asked(m, "$..k", 0)),
        ("$[*][*].k", |m| asked(m, "$[*][*].k", 0)),
        ("$.*.k", |m| asked(m, "$.*.k", 1)),
        ("$[0 to last].count()", |m| asked(m, "$[0 to last].count()", 0)),
        ("$[last to 0].type()", |m| asked(m, "$[last to 0].type()", 2)),
        ("existence of $..zzz", |m| asked(m, "$..zzz", 3)),
    ]
}

/// What an operation of `size` parts takes may be this many times what proportion to a run of `small` parts allows
/// (three times, and a logarithm), plus a little that any run takes.
/// Where keys are inserted, the offsets of larger keys may be moved (`insert`).
fn proportionate(what: &str, insert: bool, runs: &[(usize, Cost)]) -> R {
    let log = |n: usize| 64 - (n as u64).leading_zeros() as u64;
    for (j, (big, b)) in runs.iter().enumerate() {
        for (small, a) in &runs[..j] {
            let limit = |x: u64, slack: u64| (x.max(slack) * 3 * (big / small) as u64 * log(*big)).div_ceil(log(*small)) + slack;
            let over = |name: &str, x: u64, y: u64, slack: u64| -> R {
                ensure!(y <= limit(x, slack), "{what}: {y} {name} for {big} parts, {x} for {small}");
                Ok(())
            };
            let moved = if insert { (big * big) as u64 } else { 0 };
            over("instructions", a.instructions, b.instructions.saturating_sub(moved), 400)?;
            over("bytes of memory in use at a time", a.peak, b.peak, 512)?;
            over("bytes of memory asked for", a.total, b.total, 512)?;
        }
    }
    Ok(())
}

fn inserts(op: &str) -> bool {
    op.starts_with("built") || op.starts_with("imported")
}

/// Runs the operation for growing sizes while one run stays within the budget of instructions.
fn ladder(what: &str, insert: bool, sizes: &[usize], budget: u64, st: &mut Stats, make: &dyn Fn(usize) -> Result<(usize, Run), String>) -> R {
    let mut runs: Vec<(usize, Cost)> = vec![];
    for &size in sizes {
        if let Some((last, c)) = runs.last() {
            if c.steps * (size / last).max(1) as u64 > budget {
                break;
            }
        }
        let (parts, run) = make(size).map_err(|e| format!("{what}, {size} parts: {e}"))?;
        let c = cost(&*run).map_err(|e| format!("{what}, {size} parts: {e}"))?;
        st.step(c.instructions);
        st.state(hash(&(what, size)));
        runs.push((parts, c));
        proportionate(what, insert, &runs)?;
    }
    if std::env::var_os("YMC_COST").is_some() {
        let t: Vec<String> = runs.iter().map(|(s, c)| format!("{s}: {}/{}/{}", c.instructions, c.peak, c.total)).collect();
        println!("{what}: {}", t.join("  "));
    }
    Ok(())
}

const SIZES: [usize; 7] = [16, 64, 256, 1024, 4096, 16384, 65535];

/// Reads of one place: the work may not grow with the number of elements (`grows`: only with its logarithm).
fn place(what: &str, sizes: &[usize], grows: bool, st: &mut Stats, make: &dyn Fn(usize) -> Result<Vec<(String, Run)>, String>) -> R {
    let mut least: Option<(usize, u64, u64)> = None;
    for &size in sizes {
        let (mut most, mut peak) = (0, 0);
        for (at, run) in make(size)? {
            let w = |e: String| format!("{what}, {at} of {size}: {e}");
            let c = cost(&*run).map_err(w)?;
            st.step(1);
            most = most.max(c.instructions);
            peak = peak.max(c.peak);
            if let Some((small, x, p)) = least {
                ensure!(c.peak <= p * 3 + 512, "{what}, {at} of {size}: takes {} bytes of memory, {p} at most for {small}", c.peak);
                let log = |n: usize| 64 - (n as u64).leading_zeros() as u64;
                let limit = if grows { (x * 3 * log(size)).div_ceil(log(small)) + 500 } else { x * 3 + 500 };
                ensure!(c.instructions <= limit, "{what}, {at} of {size}: {} instructions, {x} at most for {small}", c.instructions);
            }
        }
        if least.is_none() {
            least = Some((size, most, peak));
        }
        st.state(hash(&(what, size)));
    }
    if std::env::var_os("YMC_COST").is_some() {
        println!("{what}: from {least:?}");
    }
    Ok(())
}

/// Places in a container of this size: all of a small one, the ends, powers of two and a stride of a large one.
fn places(size: usize, all: usize) -> Vec<usize> {
    (0..size).filter(|i| size <= all || *i < 4 || size - i <= 4 || i.is_power_of_two() || i % (size / 37) == 5).collect()
}

pub fn c27(c: &mut Ctx) {
    let budget = if count::COUNTED { c.pick(30_000_000, 1_000_000_000) } else { c.pick(150_000, 3_000_000) };
    c.family("operations on documents of every shape and growing size");
    for (k, name) in SHAPES.iter().enumerate() {
        for (op, f) in whole() {
            c.case(|| format!("{name}, {op}: growing sizes"), |st| {
                st.outcome("whole documents");
                ladder(&format!("{name}, {op}"), inserts(op), &SIZES, budget, st, &|size| Ok((size, f(&shape(k, size))?)))
            });
        }
    }
    c.family("nested documents of every depth");
    for kind in 0..4 {
        for (op, f) in whole() {
            c.case(|| format!("chains of kind {kind}, {op}: growing depths"), |st| {
                st.outcome("deep documents");
                ladder(&format!("chain {kind}, {op}"), false, &[6, 12, 25, 50, 99], budget, st, &|depth| {
                    let m = crate::model::chain(depth, |l| [true, false, l % 2 == 0, l % 3 == 0][kind], s("leaf"));
                    // indentation makes the pretty text longer than in proportion to the depth
                    let parts = if op.contains("pretty") { jsonref::pretty(&jsonref::render(&m)).len() } else { depth };
                    Ok((parts, f(&m)?))
                })
            });
        }
    }
    c.family("texts of growing length");
    for (name, make) in texts() {
        c.case(|| format!("{name}: growing lengths"), |st| {
            st.outcome("texts");
            ladder(name, name.starts_with("JSON"), &[16, 64, 256, 1024, 4096, 16384], budget, st, &|size| {
                let t = make(size);
                let run: Run = match t {
                    Text::Json(t) => Box::new(move || {
                        let _ = YasonBuf::parse(&t);
                        Ok(())
                    }),
                    Text::Path(t) => Box::new(move || {
                        let _ = t.parse::<PathExpression>();
                        Ok(())
                    }),
                };
                Ok((size, run))
            })
        });
    }
    if count::COUNTED {
        pumped(c, budget);
    }
    c.family("reads of one place in containers of growing size");
    let sizes: Vec<usize> = vec![16, 17, 33, 64, 100, 256, 257, 1000, 4096, 65535];
    let all = c.pick(64, 300);
    for (name, grows, f) in single() {
        for kind in 0..5 {
            c.case(|| format!("{name} (kind {kind}): every place, growing sizes"), |st| {
                st.outcome("one place");
                place(name, &sizes, grows, st, &|size| f(size, kind, &places(size, all)))
            });
        }
    }
}

/// Paths of up to this many steps.
fn paths_upto(steps: usize) -> Vec<String> {
    let mut v = vec![];
    words(&[".a", ".\"b\"", ".*", "[*]", "[0]", "[last]", "[0 to last]", "[1, 0 to last]", "..a"], steps, &mut |t| v.push(format!("${t}")));
    v
}

/// What repetition does: documents, strings, texts and paths made of a small part many times over, by counting blocks.
fn pumped(c: &mut Ctx, budget: u64) {
    let sizes: &[usize] = c.pick(&[16, 256, 4096][..], &[16, 64, 256, 1024, 4096, 16384, 65535][..]);
    let parts: Vec<M> = if c.quick() { gen::small_vec(2) } else { gen::small_canonical(3) };
    let many = |part: &M, object: bool, size: usize| match object {
        false => M::Arr(vec![part.clone(); size]),
        true => M::Obj((0..size).map(|i| (format!("{:06}", i * 7919 % 100_003), part.clone())).collect::<std::collections::BTreeMap<_, _>>().into_iter().collect()),
    };
    c.family("every small document many times over, in an array and in an object, every operation");
    for part in &parts {
        for object in [false, true] {
            for (op, f) in whole() {
                let what = || format!("{} in an {} many times, {op}", part.show(), if object { "object" } else { "array" });
                c.case(what, |st| {
                    st.outcome("repeated values");
                    ladder(&what(), inserts(op), sizes, budget, st, &|size| Ok((size, f(&many(part, object, size))?)))
                });
            }
        }
    }
    let steps = c.pick(2, 3);
    let paths = paths_upto(steps);
    c.family(&format!("every path of up to {steps} steps over every small document many times over; existence stops at the first match"));
    let parts: Vec<M> = if c.quick() { gen::small_canonical(3) } else { gen::small_vec(3) };
    let sizes: &[usize] = c.pick(&[16, 1024][..], &[16, 1024, 16384][..]);
    for part in &parts {
        for object in [false, true] {
            let what = || format!("{} in an {} many times, queried", part.show(), if object { "object" } else { "array" });
            c.case(what, |st| {
                st.outcome("repeated values");
                let docs: Vec<(usize, &'static YasonBuf)> = sizes.iter().map(|s| Ok((*s, keep(build::doc(&many(part, object, *s))?)))).collect::<Result<_, String>>()?;
                let all = (|| {
                    for p in &paths {
                        let q: PathExpression = p.parse().map_err(e)?;
                        let (mut runs, mut first): (Vec<_>, Vec<(usize, Cost)>) = ((0..4).map(|_| vec![]).collect::<Vec<Vec<_>>>(), vec![]);
                        for (size, y) in &docs {
                            let there = q.exists(y).map_err(e)?;
                            let how: [&dyn Fn() -> R; 5] = [
                                &|| q.query(y, true, None, None).map(|_| ()).map_err(e),
                                &|| q.query(y, true, Some(&mut vec![]), None).map(|_| ()).map_err(e),
                                // more results than a document holds are refused
                                &|| Ok(q.query(y, true, None, Some(&mut vec![])).map(|_| ()).unwrap_or(())),
                                &|| q.exists(y).map(|_| ()).map_err(e),
                                &|| Ok(q.query(y, false, None, None).map(|_| ()).unwrap_or(())),
                            ];
                            for (i, f) in how.iter().enumerate() {
                                let c = cost(*f)?;
                                st.step(1);
                                // found, or refused: at the first value, or the second
                                let at_once = there && i >= 3 && (i == 3 || q.query(y, false, None, None).is_err());
                                if at_once {
                                    if i == 3 {
                                        first.push((*size, c));
                                    } else {
                                        let (a, b) = (first[0], (*size, c));
                                        ensure!(b.1.instructions <= a.1.instructions * 6 + 1500, "{p}: refused after {} blocks for {} parts, first match of {} after {}", b.1.instructions, b.0, a.0, a.1.instructions);
                                    }
                                    let (a, b) = (first[0], *first.last().unwrap());
                                    ensure!(b.1.instructions <= a.1.instructions * 3 + 500, "{p}: exists() takes {} blocks for {} parts, {} for {}", b.1.instructions, b.0, a.1.instructions, a.0);
                                } else {
                                    runs[i.min(3)].push((*size, c));
                                    proportionate(&format!("{p}, way {i}"), false, &runs[i.min(3)])?;
                                }
                            }
                        }
                    }
                    Ok(())
                })();
                for (_, y) in docs {
                    // SAFETY: made above by `keep`, no longer referred to
                    drop(unsafe { Box::from_raw(y as *const YasonBuf as *mut YasonBuf) });
                }
                all
            });
        }
    }
    let chars = ["a", "\"", "\\", "/", "\n", "\u{1}", "\u{7f}", "é", "日", "\u{1F600}", " "];
    let upto = c.pick(3, 4);
    let sizes: &[usize] = c.pick(&[16, 256, 4096][..], &[16, 256, 4096, 65535][..]);
    c.family(&format!("strings and keys: every word of up to {upto} of the characters {chars:?} many times over, every operation"));
    words(&chars, upto, &mut |w| {
        if w.is_empty() {
            return;
        }
        c.case(|| format!("{w:?} many times in a string and a key"), |st| {
            st.outcome("repeated characters");
            for (op, f) in whole() {
                ladder(&format!("{w:?} many times, {op}"), inserts(op), sizes, budget, st, &|size| {
                    let t = w.repeat(size);
                    let mut end = t.len().min(65535);
                    while !t.is_char_boundary(end) {
                        end -= 1;
                    }
                    Ok((size, f(&M::Arr(vec![M::Obj(vec![(t[..end].to_string(), s(&t)), ("k".into(), s(&t))]), s(&t)]))?))
                })?;
            }
            Ok(())
        });
    });
    // `\u{2}` stands for the number of the repetition
    let toks = ["[", "]", "{", "}", ",", ":", "1", "-", ".", "0", "e", "\"a\"", "\"\u{2}\"", "\\n", "\\u00e9", "\"", " ", "null", "x"];
    let upto = c.pick(3, 4);
    let numbered = |w: &str, size: usize, down: bool| -> String {
        if !w.contains('\u{2}') {
            return w.repeat(size);
        }
        (0..size).map(|i| w.replace('\u{2}', &format!("{:06}", if down { size - i } else { i }))).collect()
    };
    let sizes: &[usize] = c.pick(&[16, 256, 4096][..], &[16, 256, 4096, 65535][..]);
    c.family(&format!("JSON texts: every word of up to {upto} of the tokens {toks:?} many times over, in every surrounding"));
    words(&toks, upto, &mut |w| {
        if w.is_empty() {
            return;
        }
        c.case(|| format!("JSON: {w:?} many times"), |st| {
            st.outcome("repeated tokens");
            for (before, after) in [("", ""), ("[", "1]"), ("[", ""), ("{", "\"a\":1}"), ("{\"a\":", "1}"), ("\"", "\""), ("-1", ""), ("0.", "e1"), ("1e", "1"), ("[1,", "!")] {
                for down in [false, true] {
                    if down && !w.contains('\u{2}') {
                        continue;
                    }
                    ladder(&format!("JSON: {before:?}, {w:?} many times, {after:?}"), true, sizes, budget, st, &|size| {
                        let t = format!("{before}{}{after}", numbered(w, size, down));
                        let run: Run = Box::new(move || {
                            let _ = YasonBuf::parse(&t);
                            let mut b = vec![];
                            let _ = Yason::parse_to(&mut b, &t);
                            Ok(())
                        });
                        Ok((size, run))
                    })?;
                }
            }
            Ok(())
        });
    });
    let members = ["\"a\":1,", "\"\u{2}\":1,", "\"\u{2}\":\"\u{2}\",", "\"\u{2}\":[1],", "\"\u{2}\":{\"a\":{}},", "\"k\u{2}\":1e9,", "\"\u{2}x\\n\":null,", "1,", "\"x\",", "[1],", "{\"a\":1},", "{\"\u{2}\":[]},", "1.5e3,", "[[]],"];
    let upto = c.pick(2, 3);
    c.family(&format!("JSON texts: every word of up to {upto} of the parts {members:?} many times over"));
    words(&members, upto, &mut |w| {
        if w.is_empty() {
            return;
        }
        c.case(|| format!("JSON: {w:?} many times"), |st| {
            st.outcome("repeated members");
            for (before, after) in [("[", "1]"), ("{", "\"a\":1}"), ("{", "\"zzzzzzzzz\":!}"), ("[0,", "")] {
                for down in [false, true] {
                    ladder(&format!("JSON: {before:?}, {w:?} many times, {after:?}"), true, sizes, budget, st, &|size| {
                        let t = format!("{before}{}{after}", numbered(w, size, down));
                        let run: Run = Box::new(move || {
                            let _ = YasonBuf::parse(&t);
                            Ok(())
                        });
                        Ok((size, run))
                    })?;
                }
            }
            Ok(())
        });
    });
    let toks = [".", "..", "a", "*", "[", "]", "1", ",", " to ", "last", "-", "\"", "é", "\\n", "(", ")", " ", "\t", "$", "!"];
    let groups = [".a", "..a", ".\"a\"", ".\"é\\n\"", ".*", "[*]", "[0]", "[last-1]", "[1, 2 to last]", " . a ", "[ 1 ]", ".\"\u{2}\"", ".k\u{2}", "..\"\u{2}\""];
    for (toks, upto) in [(&toks[..], c.pick(3, 4)), (&groups[..], c.pick(3, 4))] {
        c.family(&format!("path texts: every word of up to {upto} of the tokens {toks:?} many times over, in every surrounding"));
        words(toks, upto, &mut |w| {
            if w.is_empty() {
                return;
            }
            c.case(|| format!("path: {w:?} many times"), |st| {
                st.outcome("repeated steps");
                for (before, after) in [("$", ""), ("", "$"), ("$.", ""), ("$..", ""), ("$[", "]"), ("$[1, ", "]"), ("$[last-", "]"), ("$.\"", "\""), ("$.a", ".size()"), ("$", "!"), ("$", ".\"")] {
                    ladder(&format!("path: {before:?}, {w:?} many times, {after:?}"), false, sizes, budget, st, &|size| {
                        let t = format!("{before}{}{after}", numbered(w, size, false));
                        let run: Run = Box::new(move || {
                            let _ = t.parse::<PathExpression>().map_err(|e| e.to_string());
                            Ok(())
                        });
                        Ok((size, run))
                    })?;
                }
                Ok(())
            });
        });
    }
    c.family("keys of every kind, pushed in every order; members found and missed");
    let sizes: &[usize] = c.pick(&[16, 64, 256, 1024, 4096][..], &[16, 64, 256, 1024, 4096, 16384, 65535][..]);
    for (kind, (name, key)) in key_kinds().into_iter().enumerate() {
        for (order, at) in push_orders() {
            for sorted in [false, true] {
                if sorted && order != "upwards" {
                    continue;
                }
                c.case(|| format!("keys that are {name}, pushed {order}{}", if sorted { ", said to be sorted" } else { "" }), |st| {
                    st.outcome("keys");
                    ladder(&format!("keys that are {name}, pushed {order}"), true, sizes, budget * 4, st, &|size| {
                        let mut keys: Vec<String> = (0..size).map(|i| key(i, size)).collect();
                        keys.sort_by(|a, b| crate::model::key_cmp(a, b));
                        let pushed: Vec<String> = (0..size).map(|i| keys[at(i, size)].clone()).collect();
                        let run: Run = Box::new(move || {
                            let mut b = ObjectBuilder::try_new(size as u16, sorted).map_err(e)?;
                            for k in &pushed {
                                b.push_null(k).map_err(e)?;
                            }
                            b.finish().map(|_| ()).map_err(e)
                        });
                        Ok((size, run))
                    })
                });
            }
        }
        let all = c.pick(64, 300);
        c.case(|| format!("keys that are {name}, found and missed"), |st| {
            st.outcome("keys");
            place(&format!("keys that are {name}"), sizes, true, st, &|size| {
                let mut keys: Vec<String> = (0..size).map(|i| key_kinds()[kind].1(i, size)).collect();
                keys.sort_by(|a, b| crate::model::key_cmp(a, b));
                let mut b = ObjectBuilder::try_new(size as u16, true).map_err(e)?;
                for k in &keys {
                    b.push_null(k).map_err(e)?;
                }
                let y = std::rc::Rc::new(b.finish().map_err(e)?);
                let mut v: Vec<(String, Run)> = vec![];
                let mut ask = |k: String, there: bool| -> R {
                    let (y, name) = (y.clone(), crate::ctx::clip(&k, 40));
                    let p: PathExpression = format!("$.\"{k}\"").parse().map_err(e)?;
                    v.push((name, Box::new(move || {
                        let o = y.object().map_err(e)?;
                        ensure!(o.contains_key(&k).map_err(e)? == there && o.get(&k).map_err(e)?.is_some() == there, "found or not");
                        ensure!(o.type_of(&k).map_err(e)?.is_some() == there && o.string(&k).is_err() == there && p.exists(&y).map_err(e)? == there, "found or not");
                        Ok(())
                    })));
                    Ok(())
                };
                for i in places(size, all) {
                    ask(keys[i].clone(), true)?;
                    // beside it in order, shorter and longer
                    let mut less = keys[i].clone();
                    let last = less.pop().map_or(1, |c| c.len_utf8());
                    for k in [format!("{less}{}", "~".repeat(last)), format!("{less}{}", "!".repeat(last)), format!("{}0", keys[i]), less] {
                        let there = keys.binary_search_by(|x| crate::model::key_cmp(x, &k)).is_ok();
                        ask(k, there)?;
                    }
                }
                for k in ["".to_string(), "~".into(), "!".repeat(40), "~".repeat(40), "~".repeat(2000)] {
                    ask(k, false)?;
                }
                Ok(v)
            })
        });
    }
}

type KeyKind = (&'static str, fn(usize, usize) -> String);

fn key_kinds() -> Vec<KeyKind> {
    vec![
        ("of one length", |i, _| format!("{i:06}")),
        ("of a few lengths", |i, _| format!("{i}")),
        ("of one length but for a long one", |i, n| if i + 1 == n { "x".repeat(60) } else { format!("{i:06}") }),
        ("short and long by turns", |i, _| if i % 2 == 0 { format!("{i:06}") } else { format!("{i:030}") }),
        ("of thirty lengths", |i, _| format!("{}{i:06}", "k".repeat(i % 30))),
        ("alike in their first thirty bytes", |i, _| format!("{}{i:06}", "k".repeat(30))),
        ("alike in their last thirty bytes", |i, _| format!("{i:06}{}", "k".repeat(30))),
        ("outside ASCII", |i, _| format!("é日{i:06}\u{1F600}")),
    ]
}

type PushOrder = (&'static str, fn(usize, usize) -> usize);

fn push_orders() -> Vec<PushOrder> {
    vec![
        ("upwards", |i, _| i),
        ("downwards", |i, n| n - 1 - i),
        ("from both ends", |i, n| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }),
        ("from the middle", |i, n| if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 }),
        ("upwards but for the first, which is last", |i, n| if i == 0 { n - 1 } else { i - 1 }),
        ("even before odd", |i, n| if i < n.div_ceil(2) { i * 2 } else { (i - n.div_ceil(2)) * 2 + 1 }),
    ]
}

enum Text {
    Json(String),
    Path(String),
}

type Texts = Vec<(&'static str, Box<dyn Fn(usize) -> Text>)>;

fn texts() -> Texts {
    fn j(name: &'static str, f: impl Fn(usize) -> String + 'static) -> (&'static str, Box<dyn Fn(usize) -> Text>) {
        (name, Box::new(move |n| Text::Json(f(n))))
    }
    fn p(name: &'static str, f: impl Fn(usize) -> String + 'static) -> (&'static str, Box<dyn Fn(usize) -> Text>) {
        (name, Box::new(move |n| Text::Path(f(n))))
    }
    vec![
        j("JSON: spaces", |n| format!("{}1{}", " ".repeat(n), "\n".repeat(n))),
        j("JSON: digits", |n| "7".repeat(n)),
        j("JSON: digits of a fraction", |n| format!("0.{}", "12".repeat(n))),
        j("JSON: zeros before a digit", |n| format!("0.{}1", "0".repeat(n))),
        j("JSON: digits and an exponent", |n| format!("{}e-{n}", "7".repeat(n))),
        j("JSON: escapes", |n| format!("\"{}\"", "\\u00e9\\n".repeat(n))),
        j("JSON: surrogate pairs", |n| format!("\"{}\"", "\\ud83d\\ude00".repeat(n))),
        j("JSON: an unfinished string", |n| format!("\"{}", "x".repeat(n))),
        j("JSON: refused escapes", |n| format!("\"{}\\x\"", "\\n".repeat(n))),
        j("JSON: open brackets", |n| "[".repeat(n)),
        j("JSON: open objects", |n| "{\"a\":".repeat(n)),
        j("JSON: the same key again and again", |n| format!("{{{}\"a\":1}}", "\"a\":1,".repeat(n))),
        j("JSON: keys in reverse", |n| format!("{{{}}}", (0..n).rev().map(|i| format!("\"{i:06}\":1")).collect::<Vec<_>>().join(","))),
        j("JSON: keys of growing length", |n| {
            let r = (1..).find(|r| r * r >= n).unwrap();
            format!("{{{}}}", (0..r).map(|i| format!("\"{}\":1", "k".repeat(i))).collect::<Vec<_>>().join(","))
        }),
        j("JSON: too many elements at the end", |n| format!("[{}", "1,".repeat(n))),
        p("path: members", |n| format!("${}", ".a".repeat(n))),
        p("path: quoted members", |n| format!("${}", ".\"a b\"".repeat(n))),
        p("path: descendants", |n| format!("${}", "..a".repeat(n))),
        p("path: subscripts", |n| format!("${}", "[1]".repeat(n))),
        p("path: a long list", |n| format!("$[{}0]", "1,".repeat(n))),
        p("path: a long list of ranges", |n| format!("$[{}0]", "1 to last-2,".repeat(n))),
        p("path: a long name", |n| format!("$.{}", "n".repeat(n))),
        p("path: a long quoted name", |n| format!("$.\"{}\"", "é\\n".repeat(n))),
        p("path: spaces", |n| format!("{}$ {} .a{}", " ".repeat(n), " ".repeat(n), " ".repeat(n))),
        p("path: wildcards and a method", |n| format!("${}.count()", ".*[*]".repeat(n))),
        p("path: a refused end", |n| format!("${}.", ".a[0]".repeat(n))),
        p("path: an unfinished name", |n| format!("$.\"{}", "x".repeat(n))),
        p("path: digits", |n| format!("$[{}]", "0".repeat(n))),
        p("path: too large", |n| format!("$[{}]", "9".repeat(n))),
    ]
}

type Single = (&'static str, bool, fn(usize, usize, &[usize]) -> Result<Vec<(String, Run)>, String>);

/// An array and an object of this many parts of one kind each, kept for good (one of each size and kind).
fn kept(size: usize, kind: usize, object: bool) -> Result<(&'static YasonBuf, &'static [String]), String> {
    use std::cell::RefCell;
    use std::collections::HashMap;
    type Kept = HashMap<(usize, usize, bool), (&'static YasonBuf, &'static [String])>;
    thread_local! {
        static MADE: RefCell<Kept> = RefCell::new(HashMap::new());
    }
    if let Some(x) = MADE.with(|m| m.borrow().get(&(size, kind, object)).copied()) {
        return Ok(x);
    }
    let part = |i: usize| match kind {
        0 => n((i % 100) as i64),
        1 => s(&format!("{i}")),
        2 => [M::Null, M::Bool(true), M::Bool(false)][i % 3].clone(),
        3 => M::Arr(vec![n(1)]),
        _ => M::Obj(vec![("k".into(), M::Bool(true))]),
    };
    let key = |i: usize| if kind % 2 == 0 { format!("key{i:06}") } else { gen::key(i) };
    let mut keys: Vec<String> = vec![];
    let m = if object {
        keys = (0..size).map(key).collect();
        keys.sort_by(|a, b| crate::model::key_cmp(a, b));
        M::Obj((0..size).map(|i| (keys[i].clone(), part(i))).collect())
    } else {
        M::Arr((0..size).map(part).collect())
    };
    let x: (&'static YasonBuf, &'static [String]) = (keep(build::doc(&m)?), Vec::leak(keys));
    MADE.with(|v| v.borrow_mut().insert((size, kind, object), x));
    Ok(x)
}

/// Operations on one place of a container, and whether their work may grow with the logarithm of its size.
fn single() -> Vec<Single> {
    fn runs(at: &[usize], mut f: impl FnMut(usize) -> Run) -> Vec<(String, Run)> {
        at.iter().map(|i| (format!("{i}"), f(*i))).collect()
    }
    fn array(size: usize, kind: usize) -> Result<Array<'static>, String> {
        kept(size, kind, false)?.0.array().map_err(e)
    }
    fn object(size: usize, kind: usize) -> Result<(Object<'static>, &'static [String]), String> {
        let (y, k) = kept(size, kind, true)?;
        Ok((y.object().map_err(e)?, k))
    }
    fn query(p: &str, y: &'static YasonBuf, exists: bool) -> Result<Run, String> {
        let p: PathExpression = p.parse().map_err(e)?;
        Ok(Box::new(move || {
            if exists {
                p.exists(y).map(|_| ()).map_err(e)
            } else {
                let r = p.query(y, true, None, None).map_err(e)?;
                let _ = r;
                Ok(())
            }
        }))
    }
    vec![
        ("an element", false, |size, kind, at| {
            let a = array(size, kind)?;
            Ok(runs(at, |i| {
                let a = a.clone();
                Box::new(move || a.get(i).map(|_| ()).map_err(e))
            }))
        }),
        ("the type of an element", false, |size, kind, at| {
            let a = array(size, kind)?;
            Ok(runs(at, |i| {
                let a = a.clone();
                Box::new(move || {
                    a.type_of(i).map_err(e)?;
                    a.is_null(i).map(|_| ()).map_err(e)
                })
            }))
        }),
        ("an element as each type", false, |size, kind, at| {
            let a = array(size, kind)?;
            Ok(runs(at, |i| {
                let a = a.clone();
                Box::new(move || {
                    let _ = (a.bool(i), a.number(i), a.string(i), a.array(i), a.object(i));
                    Ok(())
                })
            }))
        }),
        ("an index out of range", false, |size, kind, _| {
            let a = array(size, kind)?;
            Ok([size, size + 1, usize::MAX].into_iter().map(|i| {
                let a = a.clone();
                let run: Run = Box::new(move || if a.get(i).is_err() { Ok(()) } else { Err("not refused".into()) });
                (format!("{i}"), run)
            }).collect())
        }),
        ("the length and the first parts", false, |size, kind, _| {
            let (a, (o, _)) = (array(size, kind)?, object(size, kind)?);
            let y = kept(size, kind, true)?.0;
            let run: Run = Box::new(move || {
                ensure!(a.len().map_err(e)? == size && o.len().map_err(e)? == size, "length");
                ensure!(!a.is_empty().map_err(e)? && !o.is_empty().map_err(e)?, "empty");
                a.iter().map_err(e)?.next();
                o.iter().map_err(e)?.next();
                o.key_iter().map_err(e)?.next();
                o.value_iter().map_err(e)?.next();
                Value::try_from(&**y).map_err(e)?;
                y.data_type().map_err(e)?;
                y.object().map_err(e)?;
                Ok(())
            });
            Ok(vec![("everything".into(), run)])
        }),
        ("a member", true, |size, kind, at| {
            let (o, keys) = object(size, kind)?;
            Ok(runs(at, |i| {
                let o = o.clone();
                Box::new(move || match o.get(&keys[i]) {
                    Ok(Some(_)) => Ok(()),
                    r => Err(format!("gives {}", r.is_ok())),
                })
            }))
        }),
        ("the type of a member", true, |size, kind, at| {
            let (o, keys) = object(size, kind)?;
            Ok(runs(at, |i| {
                let o = o.clone();
                Box::new(move || {
                    ensure!(o.contains_key(&keys[i]).map_err(e)?, "not there");
                    o.type_of(&keys[i]).map_err(e)?;
                    let _ = (o.is_null(&keys[i]), o.bool(&keys[i]), o.number(&keys[i]), o.string(&keys[i]), o.array(&keys[i]), o.object(&keys[i]));
                    Ok(())
                })
            }))
        }),
        ("a key that is not there", true, |size, kind, at| {
            let (o, keys) = object(size, kind)?;
            Ok(runs(at, |i| {
                let o = o.clone();
                let k = format!("{}~", &keys[i][..keys[i].len() - 1]);
                Box::new(move || {
                    let r = (o.get(&k).map_err(e)?.is_none(), !o.contains_key(&k).map_err(e)?);
                    ensure!(r == (true, true), "found");
                    Ok(())
                })
            }))
        }),
        ("$[i]", false, |size, kind, at| {
            let y = kept(size, kind, false)?.0;
            at.iter().map(|i| Ok((format!("{i}"), query(&format!("$[{i}]"), y, false)?))).collect()
        }),
        ("$[last-i]", false, |size, kind, at| {
            let y = kept(size, kind, false)?.0;
            at.iter().map(|i| Ok((format!("{i}"), query(&format!("$[last-{i}]"), y, i % 2 == 0)?))).collect()
        }),
        ("$[i to i+1]", false, |size, kind, at| {
            let y = kept(size, kind, false)?.0;
            at.iter().map(|i| Ok((format!("{i}"), query(&format!("$[{i} to {}]", i + 1), y, false)?))).collect()
        }),
        ("$.key", true, |size, kind, at| {
            let (y, keys) = kept(size, kind, true)?;
            at.iter().map(|i| Ok((format!("{i}"), query(&format!("$.\"{}\"", keys[*i]), y, i % 2 == 0)?))).collect()
        }),
        ("$.size() and $.type()", false, |size, kind, _| {
            let mut v = vec![];
            for object in [false, true] {
                for p in ["$.size()", "$.type()", "$.count()", "$"] {
                    v.push((p.to_string(), query(p, kept(size, kind, object)?.0, false)?));
                }
            }
            Ok(v)
        }),
        ("existence where the first value matches", false, |size, kind, _| {
            let any: &[&str] = &["$[*]", "$[0 to last]", "$[last to 0]", "$[0, 1 to last]", "$[0 to last, 0]", "$[5 to 2, 0 to last]", "$[*][0]", "$[*][last]", "$[*][0, 1]", "$[*][*]"];
            let inner: &[&str] = &["$[*].k", "$.k", "$.*", "$..k", "$[*].*", "$[*]..k", "$[0 to last].k", "$[1 to last, 0].k", "$[*][*].k"];
            let of: &[&str] = &["$.*", "$.*[*]", "$.*[0]", "$.*[0 to last]", "$[*].*", "$[0].*", "$[0, 1].*"];
            let of_inner: &[&str] = &["$.*.k", "$..k", "$.*.*", "$.*..k"];
            let mut v = vec![];
            for (object, paths) in [(false, any), (false, if kind == 4 { inner } else { &[] }), (true, of), (true, if kind == 4 { of_inner } else { &[] })] {
                let y = kept(size, kind, object)?.0;
                for p in paths {
                    let q: PathExpression = p.parse().map_err(e)?;
                    ensure!(q.exists(y).map_err(e)?, "{p}: does not exist");
                    v.push((p.to_string(), query(p, y, true)?));
                }
            }
            Ok(v)
        }),
        ("more than one value without a wrapper", false, |size, kind, _| {
            let mut v = vec![];
            for (object, paths) in [(false, &["$[*]", "$[0 to last]", "$[last to 0]", "$[0, 1 to last]", "$[0 to last, 0]", "$[*][0]"][..]), (true, &["$.*", "$.*[0]", "$[0].*"][..])] {
                let y = kept(size, kind, object)?.0;
                for p in paths {
                    let q: PathExpression = p.parse().map_err(e)?;
                    let run: Run = Box::new(move || if q.query(y, false, None, None).is_err() { Ok(()) } else { Err("not refused".into()) });
                    v.push((p.to_string(), run));
                }
            }
            Ok(v)
        }),
    ]
}

// ---- C26 ------------------------------------------------------------------------------------------------

/// Runs `f` again and again: the memory in use does not grow.
fn steady(st: &mut Stats, mut f: impl FnMut() -> R) -> R {
    let mut run = || -> Result<(i64, i64), String> {
        f()?;
        let u = alloc::in_use();
        Ok((u.bytes, u.blocks))
    };
    // the first run may prepare things for all others
    run()?;
    let a = run()?;
    let b = run()?;
    st.step(3);
    if b.0 <= a.0 && b.1 <= a.1 {
        return Ok(());
    }
    // a store of bounded size may still be filling
    let mut last = b;
    for round in [40, 40, 40, 400, 4000, 4000] {
        let before = last;
        let began = std::time::Instant::now();
        let mut runs = 0;
        while runs < round && (runs < 40 || began.elapsed().as_secs() < 2) {
            last = run()?;
            runs += 1;
        }
        st.step(runs);
        if last.0 <= before.0 && last.1 <= before.1 {
            return Ok(());
        }
        if round == 4000 && runs < round || began.elapsed().as_secs() > 20 {
            break;
        }
    }
    Err(format!("memory remains in use: {} bytes in {} blocks more than at first", last.0 - a.0, last.1 - a.1))
}

/// Everything that can be done with one document, each thing on its own.
fn document(m: &M, paths: &[(&str, PathExpression)], st: &mut Stats) -> R {
    let w = |what: &str, r: R| r.map_err(|e| format!("{what}: {e}"));
    for o in ORDERS {
        w("built", steady(st, || build::owned(m, o).map(|_| ()).map_err(e)))?;
        w("built into a buffer", steady(st, || {
            let mut b = vec![1, 2, 3];
            build::into(m, o, &mut b).map(|_| ()).map_err(e)
        }))?;
    }
    // abandoned after every number of parts
    if let M::Arr(v) = m {
        for k in 0..=v.len() {
            w("an array abandoned", steady(st, || {
                let mut b = ArrayBuilder::try_new(v.len() as u16 + 1).map_err(e)?;
                build::fill_arr(&mut b, &v[..k], Order::Listed).map_err(e)?;
                if k % 2 == 0 {
                    let _ = b.push_array(1).map_err(e)?;
                }
                let bad = b.finish();
                ensure!(bad.is_err(), "not refused");
                let mut buf = vec![];
                let mut b = ArrayRefBuilder::try_new(&mut buf, v.len() as u16).map_err(e)?;
                build::fill_arr(&mut b, &v[..k], Order::Listed).map_err(e)
            }))?;
        }
    }
    if let M::Obj(v) = m {
        for k in 0..=v.len() {
            w("an object abandoned", steady(st, || {
                let mut b = ObjectBuilder::try_new(v.len() as u16 + 1, false).map_err(e)?;
                build::fill_obj(&mut b, &v[..k], Order::Listed).map_err(e)?;
                if k % 2 == 0 {
                    let mut i = b.push_object("~", 2, false).map_err(e)?;
                    i.push_string("x", "y").map_err(e)?;
                }
                let bad = b.finish();
                ensure!(bad.is_err(), "not refused");
                let mut buf = vec![];
                let mut b = ObjectRefBuilder::try_new(&mut buf, v.len() as u16, false).map_err(e)?;
                build::fill_obj(&mut b, &v[..k], Order::Listed).map_err(e)
            }))?;
        }
    }
    let y = build::doc(m)?;
    w("read", steady(st, || crate::read::doc(&y, m)))?;
    w("read as other types", steady(st, || crate::read::refused(&y, m).map(|_| ())))?;
    w("formatted to a failing writer", steady(st, || faults::writer_faults(&y, m, paths, &mut Stats::default())))?;
    w("built, an allocation failing", steady(st, || faults::building(m, 0, &mut Stats::default())))?;
    w("copied, an allocation failing", steady(st, || faults::copying(m, &mut Stats::default())))?;
    w("queried, an allocation failing", steady(st, || faults::querying(m, paths, &mut Stats::default())))?;
    if m.importable() {
        let t = jsonref::render(m);
        for end in (0..=t.len()).filter(|i| t.is_char_boundary(*i) && (t.len() < 300 || i % 17 == 0 || *i == t.len())) {
            w("imported, or refused", steady(st, || {
                let _ = YasonBuf::parse(&t[..end]);
                let mut b = vec![7];
                let _ = Yason::parse_to(&mut b, &t[..end]);
                let _ = serde_json::from_str::<YasonBuf>(&t[..end]);
                Ok(())
            }))?;
        }
        w("serialized", steady(st, || {
            let v = serde_json::to_value(&y).map_err(e)?;
            let z: YasonBuf = serde_json::from_value(v).map_err(e)?;
            ensure!(z.equals(&y).map_err(e)? || !m.importable(), "differs");
            Ok(())
        }))?;
    }
    let shorter = build::doc(&M::Null)?;
    let longer = build::doc(&s(&"long ".repeat(4000)))?;
    w("copied over others", steady(st, || {
        for (a, b) in [(&shorter, &y), (&longer, &y), (&y, &shorter), (&y, &longer), (&shorter, &longer)] {
            let mut z = a.clone();
            z.clone_from_yason(b);
            ensure!(&z == b, "differ");
            z.clone_from_yason(a);
            ensure!(&z == a, "differ");
            z.clone_from(b);
            ensure!(&z == b, "differ");
        }
        let mut buf = vec![];
        for d in [&shorter, &y, &longer, &shorter] {
            let v = Value::try_from(&**d).map_err(e)?;
            let _ = v.try_to_yason(&mut buf).map(|_| ());
        }
        Ok(())
    }))?;
    w("buffers of queries used again", steady(st, || {
        let (mut v, mut b) = (vec![], vec![]);
        for (_, p) in paths {
            for d in [&shorter, &y, &longer, &y] {
                let _ = p.query(d, true, Some(&mut v), None).map(|_| ());
                let _ = p.query(d, true, None, Some(&mut b)).map(|_| ());
                let _ = p.query(d, false, Some(&mut v), Some(&mut b)).map(|_| ());
            }
        }
        Ok(())
    }))?;
    w("copied and compared", steady(st, || {
        let mut z = y.clone();
        z.clone_from(&y);
        z.clone_from_yason(&y);
        let o = y.to_owned();
        let c: std::borrow::Cow<Yason> = std::borrow::Cow::Borrowed(&y);
        let c = c.into_owned();
        ensure!(o == z && c == z, "differ");
        Ok(())
    }))
}

/// Texts as paths: parsed, asked, copied and shown.
fn path_text(t: &str, probes: &[YasonBuf], st: &mut Stats) -> R {
    steady(st, || {
        if let Ok(p) = t.parse::<PathExpression>() {
            for y in probes {
                for wrap in [false, true] {
                    let (mut v, mut b) = (vec![], vec![]);
                    let _ = p.query(y, wrap, None, None).map(|r| r.format_to(true, &mut String::new()));
                    let _ = p.query(y, wrap, Some(&mut v), Some(&mut b)).map(|r| r.format_to(false, &mut String::new()));
                    let _ = p.query(y, wrap, None, Some(&mut b)).map(|_| ());
                    let _ = p.exists(y);
                }
            }
        }
        Ok(())
    })
}

/// Operations on inputs that differ each time, but not in their length.
fn changing() -> Vec<(&'static str, fn(usize) -> R)> {
    fn small() -> Result<YasonBuf, String> {
        build::doc(&M::Obj(vec![("a".into(), M::Arr(vec![n(1), s("x")])), ("b".into(), M::Bool(true))]))
    }
    fn parsed(t: &str) -> R {
        let y = small()?;
        if let Ok(p) = t.parse::<PathExpression>() {
            let (mut v, mut b) = (vec![], vec![]);
            let _ = p.query(&y, true, None, None).map(|r| r.format_to(true, &mut String::new()));
            let _ = p.query(&y, true, Some(&mut v), None).map(|_| ());
            let _ = p.query(&y, true, None, Some(&mut b)).map(|_| ());
            let _ = p.exists(&y);
        }
        Ok(())
    }
    fn imported(t: &str) -> R {
        if let Ok(y) = YasonBuf::parse(t) {
            let (mut a, mut b) = (String::new(), String::new());
            y.format_to(false, &mut a).map_err(e)?;
            y.format_to(true, &mut b).map_err(e)?;
            let z = YasonBuf::parse(&a).map_err(e)?;
            let w: YasonBuf = serde_json::from_value(serde_json::to_value(&y).map_err(e)?).map_err(e)?;
            ensure!(z == y && w == y && y.format(true).to_string() == b, "differs");
        }
        let mut b = vec![];
        let _ = Yason::parse_to(&mut b, t);
        Ok(())
    }
    vec![
        ("paths with new names", |i| parsed(&format!("$.n{i}.m{i}"))),
        ("paths with new quoted names", |i| parsed(&format!("$.\"{i}\"..\"{i}b\""))),
        ("paths with new descendants and methods", |i| parsed(&format!("$..n{i}[*].count()"))),
        ("paths with new subscripts", |i| parsed(&format!("$.a[{i}, 0 to {i}, last-{i}]"))),
        ("paths refused", |i| parsed(&format!("$.n{i}.\"{i}"))),
        ("paths with unknown methods", |i| parsed(&format!("$.n{i}()"))),
        ("new keys imported", |i| imported(&format!("{{\"k{i}\":1,\"{i}\":{{\"{i}b\":[]}}}}"))),
        ("new strings imported", |i| imported(&format!("[\"{i}\",\"\\n{i}é\"]"))),
        ("new numbers imported", |i| imported(&format!("[{i},{i}e10,0.{i}{i}{i}{i}{i}{i}{i}{i},-{i}.5]"))),
        ("new long numbers imported", |i| imported(&format!("{i}{}", "7".repeat(300)))),
        ("new numbers refused", |i| imported(&format!("[{i}e200]"))),
        ("new texts refused", |i| imported(&format!("{{\"a\":\"{i}\",\"{i}\":!}}"))),
        ("new keys looked up", |i| {
            let y = small()?;
            let (o, k) = (y.object().map_err(e)?, format!("k{i}"));
            ensure!(o.get(&k).map_err(e)?.is_none() && !o.contains_key(&k).map_err(e)? && o.string(&k).map_err(e)?.is_none(), "found");
            let a = o.array("a").map_err(e)?.ok_or("missing")?;
            ensure!(a.get(i).is_err() && a.string(i).is_err(), "found");
            Ok(())
        }),
        ("new documents built, sorted or not", |i| {
            for sorted in [false, true] {
                let mut b = ObjectBuilder::try_new(2, sorted).map_err(e)?;
                b.push_string(format!("a{i}"), format!("{i}")).map_err(e)?;
                b.push_number(format!("b{i}"), Number::from(i as i64)).map_err(e)?;
                let y = b.finish().map_err(e)?;
                let z = y.clone();
                ensure!(y == z && y.to_yason_buf().map_err(e)? == y, "differ");
                let mut t = String::new();
                y.format_to(true, &mut t).map_err(e)?;
            }
            Ok(())
        }),
        ("new documents compared and queried", |i| {
            let (y, z) = (build::doc(&M::Arr(vec![n(i as i64), s(&format!("{i}"))]))?, build::doc(&M::Arr(vec![n(i as i64), s("2000000")]))?);
            ensure!(y != z, "equal");
            for t in ["$[*]", "$[last]", "$[*].type()"] {
                let p: PathExpression = t.parse().map_err(e)?;
                let mut b = vec![];
                p.query(&y, true, None, Some(&mut b)).map_err(e)?;
            }
            Ok(())
        }),
    ]
}

pub fn c26(c: &mut Ctx) {
    let few = ["$", "$.*", "$[*]", "$..a", "$[last to 0].type()", "$.\"a\".count()"];
    let paths: Vec<(&str, PathExpression)> = few.iter().map(|t| (*t, t.parse().unwrap())).collect();
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(|| format!("everything with {}", mk().show()), |st| {
            let m = mk();
            st.state(m.hash());
            st.outcome(m.ty().name());
            document(&m, &paths, st)
        });
    };
    let max = c.pick(3, 4);
    small(c, max, &mut |c, mk| run(c, mk));
    let r: Vec<M> = gen::rich().into_iter().chain(gen::long_strings().into_iter().map(M::Str)).collect();
    list(c, "every encoding class in every position", r.iter().flat_map(gen::contexts).filter(|m| m.show().len() < 400).collect(), &mut |c, mk| run(c, mk));
    list(c, "containers with many elements, deep chains", [20usize, 100, 300].iter().flat_map(|w| [gen::wide(*w, 3), gen::wide_obj(*w, 3)]).chain([5usize, 100].iter().flat_map(|d| gen::deep(*d, n(1)))).collect(), &mut |c, mk| run(c, mk));
    c.family("each operation, and each after each other, again and again");
    let ops: Vec<&inter::Entry> = inter::table().iter().chain(inter::short()).collect();
    for a in &ops {
        for b in &ops {
            c.case(|| format!("{}, then {}", a.0.name, b.0.name), |st| {
                st.outcome("operations");
                steady(st, || {
                    sched::alone(&a.0)?;
                    sched::alone(&b.0).map(|_| ())
                })
            });
        }
    }
    c.family("inputs that never come again");
    for (name, f) in changing() {
        c.case(|| name.to_string(), |st| {
            st.outcome("new inputs");
            let mut i = 0;
            steady(st, || {
                i += 1;
                f(1_000_000 + i)
            })
        });
    }
    let toks = ["[", "]", "{", "}", ",", ":", "1", "1e126", "\"a\"", "\"\\n\"", "null", "tru"];
    let upto = c.pick(4, 5);
    c.family(&format!("every JSON text of up to {upto} of the tokens {toks:?}"));
    words(&toks, upto, &mut |t| {
        c.case(|| format!("import {t:?}"), |st| {
            st.outcome("imported or refused");
            steady(st, || {
                let _ = YasonBuf::parse(t);
                let mut b = vec![];
                let _ = Yason::parse_to(&mut b, t);
                Ok(())
            })
        });
    });
    c.family("JSON texts refused for their depth and their numbers of members");
    for (k, t) in ["[", "{\"a\":", "[{\"b\":", "[1,", "{\"x\":[],\"a\":["].iter().enumerate() {
        for d in [1usize, 50, 99, 100, 101, 127, 128, 200, 5000] {
            c.case(|| format!("{d} times {t}"), |st| {
                let _ = k;
                let text = t.repeat(d);
                st.outcome("refused");
                steady(st, || {
                    ensure!(YasonBuf::parse(&text).is_err() && Yason::parse_to(&mut vec![], &text).is_err(), "not refused");
                    Ok(())
                })
            });
        }
    }
    for k in [65534usize, 65535, 65536, 65537] {
        c.case(|| format!("{k} members"), |st| {
            let t = [format!("[{}1]", "1,".repeat(k - 1)), format!("{{{}}}", (0..k).map(|i| format!("\"{i}\":\"v\"")).collect::<Vec<_>>().join(","))];
            st.outcome("imported or refused");
            steady(st, || {
                for t in &t {
                    ensure!(YasonBuf::parse(t).is_ok() == (k <= 65535), "accepted or refused");
                }
                Ok(())
            })
        });
    }
    let doc = M::Obj(vec![("a".into(), M::Arr(vec![n(1), M::Obj(vec![("a".into(), s("x")), ("b".into(), M::Null)])])), ("b".into(), M::Bool(true))]);
    let probes: Vec<YasonBuf> = [doc, M::Arr(vec![n(1), M::Arr(vec![s("q"), n(3)])])].iter().map(|m| build::doc(m).unwrap()).collect();
    let toks = ["$", ".a", "..a", ".*", "[*]", "[0", ",1", " to last", "]", ".\"a\"", ".type()", ".\"", "!"];
    let upto = c.pick(4, 5);
    c.family(&format!("every path text of up to {upto} of the tokens {toks:?}"));
    words(&toks, upto, &mut |t| {
        c.case(|| format!("path {t:?}"), |st| {
            st.outcome("path accepted or refused");
            path_text(t, &probes, st)
        });
    });
    c.family("paths, every allocation of parsing failing");
    for t in ["$", "$.a", "$.\"quoted\"", "$[0, 2 to last, last-1, 5]", "$..a.b[*].*[0, 1]..c.type()", "$.a.b.c.d.e.f.g.h.i.j.k"] {
        c.case(|| format!("parse {t}"), |st| {
            st.outcome("allocation failing");
            steady(st, || faults::parsing(t, &probes, &mut Stats::default()))
        });
    }
    c.family("documents with values of unsupported types and other layouts");
    for m in gen::small_vec(3).into_iter().filter(|m| m.is_container()) {
        c.case(|| format!("{} with other types", m.show()), |st| {
            st.outcome("unsupported types");
            for l in bnf::Layout::some() {
                let b = bnf::encode(&m, l);
                let leaves = bnf::leaves(&b);
                for leaf in leaves {
                    for code in [7u8, 9, 0, 255] {
                        let mut b = b.clone();
                        b[leaf.type_at] = code;
                        let y = unsafe { Yason::new_unchecked(&b) };
                        steady(st, || {
                            let _ = crate::read::model(y);
                            let _ = y.format_to(true, &mut String::new());
                            let _ = y.equals(&probes[0]);
                            let _ = serde_json::to_string(&y.to_owned());
                            for (_, p) in &paths {
                                let _ = p.query(y, true, None, Some(&mut vec![])).map(|_| ());
                                let _ = p.exists(y);
                            }
                            Ok(())
                        })?;
                    }
                }
            }
            Ok(())
        });
    }
}
