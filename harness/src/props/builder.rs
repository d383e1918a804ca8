//! C02 key order and lookup for every push order, C05 the builder state machine.
use super::*;
use crate::bnf;
use crate::build::{self, Order, AB, OB};
use crate::ctx::{hash, Stats, R};
use crate::ensure;
use crate::model::Nm;
use crate::read;
use yason::{ArrayBuilder, ArrayRefBuilder, BuildError, ObjectBuilder, ObjectRefBuilder};

// ---- C02 -----------------------------------------------------------------------------------------------

/// Keys that are neighbours in the order, of equal and different lengths, in and outside ASCII.
const KEYS: [&str; 12] = ["", "a", "b", "A", "aa", "ab", "ba", "é", "\u{7f}\u{7f}", "aaa", "日", "zz"];

/// A value that can be told apart from that of any other key; the kind varies with the key.
fn val(i: usize) -> M {
    match i % 6 {
        0 => n(i as i64),
        1 => s(&format!("value {i}")),
        2 => M::Arr(vec![n(i as i64), M::Null]),
        3 => M::Obj(vec![("b".into(), n(i as i64)), ("a".into(), M::Bool(true))]),
        4 => M::Num(Nm::new(i as u128, 1, true)),
        _ => s(&"x".repeat(i)),
    }
}

/// A cheap scalar value (for many members).
fn small_val(i: usize) -> M {
    match i % 4 {
        0 => M::Null,
        1 => M::Bool(i % 8 == 1),
        2 => n(i as i64),
        _ => s(&i.to_string()),
    }
}

fn check_obj(m: &M, o: Order, st: &mut Stats) -> R {
    let y = build::owned(m, o).map_err(|e| format!("building ({o:?}) fails: {e}"))?;
    read::doc(&y, m).map_err(|e| format!("({o:?}) {e}"))?;
    let k = read::refused(&y, m).map_err(|e| format!("({o:?}) {e}"))?;
    st.step(k + m.nodes() as u64);
    Ok(())
}

/// Only order, values and lookups (for the very many permutations of one key set).
fn check_obj_fast(m: &M, o: Order, absent: &[&str], st: &mut Stats) -> R {
    let y = build::owned(m, o).map_err(|e| format!("building ({o:?}) fails: {e}"))?;
    read::doc(&y, m).map_err(|e| format!("({o:?}) {e}"))?;
    let ob = y.object().map_err(|e| e.to_string())?;
    for k in absent {
        ensure!(matches!(ob.get(k), Ok(None)) && matches!(ob.contains_key(k), Ok(false)), "({o:?}) absent key {k:?} found");
    }
    st.step(m.nodes() as u64);
    Ok(())
}

fn permutations(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
        if k == v.len() {
            return f(v);
        }
        for i in k..v.len() {
            v.swap(k, i);
            go(v, k + 1, f);
            v.swap(k, i);
        }
    }
    go(&mut (0..n).collect(), 0, f)
}

/// All ordered selections of k of the n indexes.
fn arrangements(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, k: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == k {
            return f(cur);
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, k, cur, f);
                cur.pop();
            }
        }
    }
    go(n, k, &mut vec![], f)
}

/// Every string of exactly `len` bytes over the alphabet.
fn same_length(alphabet: &[&str], len: usize, f: &mut dyn FnMut(&str)) {
    fn go(al: &[&str], left: usize, cur: &mut String, f: &mut dyn FnMut(&str)) {
        if left == 0 {
            return f(cur);
        }
        for a in al.iter().filter(|a| a.len() <= left) {
            cur.push_str(a);
            go(al, left - a.len(), cur, f);
            cur.truncate(cur.len() - a.len());
        }
    }
    go(alphabet, len, &mut String::new(), f)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Structured push orders of n members.
fn push_orders(n: usize) -> Vec<(String, Vec<usize>)> {
    let mut v: Vec<(String, Vec<usize>)> = vec![
        ("ascending".into(), (0..n).collect()),
        ("descending".into(), (0..n).rev().collect()),
        ("rotated".into(), (0..n).map(|i| (i + n / 3) % n.max(1)).collect()),
        ("inward".into(), (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect()),
        ("outward".into(), (0..n).rev().map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect()),
        ("last first".into(), (0..n).map(|i| if i == 0 { n - 1 } else { i - 1 }).collect()),
        ("first last".into(), (0..n).map(|i| (i + 1) % n.max(1)).collect()),
    ];
    if n >= 2 {
        let mut w: Vec<usize> = (0..n).collect();
        w.swap(0, n - 1);
        v.push(("ends swapped".into(), w));
        let mut w: Vec<usize> = (0..n).collect();
        w.swap(n / 2, n / 2 - 1);
        v.push(("middle swapped".into(), w));
        let mut w: Vec<usize> = (0..n).collect();
        w.swap(n - 1, n - 2);
        v.push(("last two swapped".into(), w));
    }
    for mul in [2usize, 3, 7, 31, 7919] {
        if n > 2 && gcd(mul, n) == 1 {
            v.push((format!("times {mul}"), (0..n).map(|i| i * mul % n).collect()));
        }
    }
    v
}

/// Key families of any size, ascending in document order.
fn family(kind: usize, n: usize) -> Vec<String> {
    let mut v: Vec<String> = match kind {
        0 => (0..n).map(gen::key).collect(),
        1 => (0..n).map(|i| format!("{i:05}")).collect(),
        2 => (0..n).map(|i| format!("{}", i * 3)).collect(),
        3 => (0..n).map(|i| format!("{}{:04}", "p".repeat(200), i)).collect(),
        4 => (0..n).map(|i| "k".repeat(i)).collect(),
        // lengths equal in their low byte
        5 => (0..n).map(|i| format!("{}{}", "q".repeat(256 * (i % 4)), gen::key(i))).collect(),
        // equal lengths, characters of 1 to 4 bytes
        7 => {
            let c = |i: usize, w: usize| {
                let base = [0x21, 0x80, 0x800, 0x10000][w - 1];
                let span = [0x5e, 0x780, 0xd000, 0x100000][w - 1];
                char::from_u32(base + (i as u32 * 7919) % span).unwrap()
            };
            (0..n)
                .map(|i| match i % 5 {
                    0 => format!("{}{}", c(i, 4), c(i + 1, 4)),
                    1 => format!("{}{}{}", c(i, 3), c(i / 3, 3), c(i + 2, 2)),
                    2 => format!("{}{}{}{}", c(i, 1), c(i, 3), c(i / 7, 1), c(i, 3)),
                    3 => format!("{}{}{}{}", c(i, 2), c(i / 2, 2), c(i / 5, 2), c(i + 3, 2)),
                    _ => format!("{}{:07}", c(i, 1), i),
                })
                .collect()
        }
        // above ASCII, compared as bytes
        _ => (0..n).map(|i| format!("{}{}", char::from_u32(0x61 + (i as u32 * 37) % 0x2000).unwrap(), i)).collect(),
    };
    v.sort_by(|a, b| crate::model::key_cmp(a, b));
    v.dedup();
    v
}

pub fn c02(c: &mut Ctx) {
    let most = c.pick(4, 5);
    for k in 0..=most {
        c.family(&format!("every ordered selection of {k} of 12 neighbouring keys"));
        arrangements(KEYS.len(), k, &mut |sel| {
            c.case(
                || format!("push in this order {:?}", sel.iter().map(|i| KEYS[*i]).collect::<Vec<_>>()),
                |st| {
                    let m = M::Obj(sel.iter().map(|i| (KEYS[*i].to_string(), val(*i))).collect());
                    st.state(m.hash());
                    check_obj(&m, Order::Listed, st)?;
                    check_obj(&m, Order::Sorted, st)?;
                    st.outcome(&format!("{k} members"));
                    Ok(())
                },
            );
        });
    }

    let sets: [&[&str]; 3] = [
        &["a", "b", "aa", "ab", "ba", "bb", "aaa", "", "é"],
        &["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8"],
        &["", "x", "xx", "xxx", "xxxx", "xxxxx", "xxxxxx", "xxxxxxx", "xxxxxxxx"],
    ];
    let size = c.pick(7, 8);
    for set in sets {
        let set = &set[..size];
        c.family(&format!("every permutation of {set:?}"));
        permutations(size, &mut |p| {
            c.case(
                || format!("push in this order {:?}", p.iter().map(|i| set[*i]).collect::<Vec<_>>()),
                |st| {
                    let m = M::Obj(p.iter().map(|i| (set[*i].to_string(), small_val(*i))).collect());
                    st.state(m.hash());
                    check_obj_fast(&m, Order::Listed, &["c", "ac", "aab", "zzzzzzzzz", "k9"], st)?;
                    st.outcome("permutation");
                    Ok(())
                },
            );
        });
    }
    if !c.quick() {
        let set = sets[0];
        c.family("every permutation of 9 keys");
        permutations(9, &mut |p| {
            c.case(
                || format!("push in this order {:?}", p.iter().map(|i| set[*i]).collect::<Vec<_>>()),
                |st| {
                    let m = M::Obj(p.iter().map(|i| (set[*i].to_string(), small_val(*i))).collect());
                    check_obj_fast(&m, Order::Listed, &["c", "ac"], st)?;
                    st.outcome("permutation");
                    Ok(())
                },
            );
        });
    }

    // keys of one byte length, where byte order differs from the order of UTF-16 units, of signed bytes, of
    // characters counted, and of letters without case
    let mut keys: Vec<String> = vec![];
    same_length(&["a", "A", "z", "\0", "é", "\u{7ff}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "日", "\u{10000}", "\u{10ffff}"], 4, &mut |k| {
        // one-byte characters in every combination would be many: two of them suffice
        if !k.contains('z') && !k.contains('\0') || k.chars().count() < 4 {
            keys.push(k.to_string())
        }
    });
    c.family("every ordered pair of keys of 4 bytes");
    for (i, a) in keys.iter().enumerate() {
        c.case(
            || format!("the key {a:?} and each of {} others of 4 bytes", keys.len()),
            |st| {
                for (j, b) in keys.iter().enumerate().filter(|(j, _)| *j != i) {
                    let absent = &keys[(i + j + 1) % keys.len()];
                    let m = M::Obj(vec![(a.clone(), n(1)), (b.clone(), s("second"))]);
                    st.state(m.hash());
                    let gone: &[&str] = if absent == a || absent == b { &[] } else { &[absent] };
                    check_obj_fast(&m, Order::Listed, gone, st).map_err(|e| format!("with {b:?}: {e}"))?;
                    if j > i {
                        check_obj_fast(&m, Order::Sorted, gone, st).map_err(|e| format!("with {b:?}: {e}"))?;
                    }
                }
                st.outcome("equal lengths");
                Ok(())
            },
        );
    }
    let some = ["aaaa", "AAAA", "aaAz", "zé!", "éa~", "éé", "\u{d7ff}~", "a\u{e000}", "\u{e000}a", "\u{ffff}a", "a\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{7ff}\u{80}"];
    let k = c.pick(3, 5);
    c.family(&format!("every ordered selection of {k} of {} keys of 4 bytes", some.len()));
    arrangements(some.len(), k, &mut |sel| {
        c.case(
            || format!("push in this order {:?}", sel.iter().map(|i| some[*i]).collect::<Vec<_>>()),
            |st| {
                let m = M::Obj(sel.iter().map(|i| (some[*i].to_string(), small_val(*i))).collect());
                st.state(m.hash());
                let absent: Vec<&str> = (0..some.len()).filter(|i| !sel.contains(i)).map(|i| some[i]).collect();
                check_obj_fast(&m, Order::Listed, &absent, st)?;
                check_obj_fast(&m, Order::Sorted, &absent, st)?;
                st.outcome("equal lengths");
                Ok(())
            },
        );
    });

    c.family("nested objects: every permutation inside and outside");
    let inner = ["b", "a", "aa", ""];
    let outer = ["m", "l", "mm"];
    for place in 0..4 {
        arrangements(4, 4, &mut |pi| {
            arrangements(3, 3, &mut |po| {
                c.case(
                    || format!("nested (kind {place}): inner order {pi:?}, outer order {po:?}"),
                    |st| {
                        let i = M::Obj(pi.iter().map(|i| (inner[*i].to_string(), val(*i))).collect());
                        let wrap = |j: usize| match (place, j) {
                            (_, 2) => n(9),
                            (0, _) => i.clone(),
                            (1, 0) => i.clone(),
                            (1, _) => s("sibling"),
                            (2, 1) => M::Arr(vec![i.clone(), s("x"), i.clone()]),
                            (2, _) => M::Obj(vec![("q".into(), i.clone()), ("p".into(), M::Null)]),
                            (_, 0) => s(&"x".repeat(300)),
                            (_, _) => M::Obj(vec![("deep".into(), M::Obj(vec![("z".into(), n(1)), ("y".into(), i.clone())]))]),
                        };
                        let m = M::Obj(po.iter().map(|j| (outer[*j].to_string(), wrap(*j))).collect());
                        st.state(m.hash());
                        for o in [Order::Listed, Order::Sorted, Order::Reversed] {
                            check_obj(&m, o, st)?;
                        }
                        // the same as the root of a caller's buffer that already holds something
                        for prefix in [1usize, 2, 3, 5] {
                            let mut buf = vec![0xEE; prefix];
                            let y = build::into(&m, Order::Listed, &mut buf).map_err(|e| e.to_string())?;
                            read::doc(y, &m).map_err(|e| format!("after {prefix} bytes: {e}"))?;
                        }
                        st.outcome("nested");
                        Ok(())
                    },
                );
            });
        });
    }

    giants(c, true, &mut |c, mk| {
        c.case(
            || format!("order and lookups of {}", mk().show()),
            |st| {
                let m = mk();
                st.outcome("giant");
                [Order::Listed, Order::Sorted].into_iter().try_for_each(|o| check_obj(&m, o, st))
            },
        )
    });

    c.family("larger objects, structured push orders");
    let mut sizes: Vec<usize> = (1..=40).collect();
    sizes.extend([41, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000]);
    if !c.quick() {
        sizes.extend(41..=260);
        sizes.extend([2000, 4095, 4096, 4097, 10000]);
        sizes.sort();
        sizes.dedup();
    }
    for kind in 0..8 {
        for &size in &sizes {
            if (kind == 4 && size > 600) || (kind == 5 && size > 300) {
                continue;
            }
            let keys = family(kind, size);
            for (name, order) in push_orders(keys.len()) {
                c.case(
                    || format!("{} keys of family {kind} pushed {name}", keys.len()),
                    |st| {
                        let m = M::Obj(order.iter().map(|i| (keys[*i].clone(), small_val(*i))).collect());
                        st.state(hash(&(kind, keys.len())));
                        let o = if name == "ascending" { Order::Sorted } else { Order::Listed };
                        check_obj_fast(&m, o, &["?", "??", "zzzzz", "\u{7f}"], st)?;
                        if keys.len() <= 40 {
                            check_obj(&m, Order::Listed, st)?;
                        }
                        st.outcome("large");
                        Ok(())
                    },
                );
            }
        }
    }
    c.family("objects of the largest sizes");
    for size in [32767usize, 32768, 65534, 65535] {
        for kind in [0usize, 1, 6, 7] {
            let keys = family(kind, size);
            let pick = if c.quick() { 2 } else { 99 };
            for (name, order) in push_orders(keys.len()).into_iter().rev().take(pick) {
                c.case(
                    || format!("{} keys of family {kind} pushed {name}", keys.len()),
                    |st| {
                        let m = M::Obj(order.iter().map(|i| (keys[*i].clone(), small_val(*i))).collect());
                        check_obj_fast(&m, Order::Listed, &["?", "zzzzz"], st)?;
                        st.outcome("largest");
                        Ok(())
                    },
                );
            }
        }
    }
    c.family("keys of every length class in every order");
    let lens = [0usize, 1, 2, 127, 128, 255, 256, 257, 65534, 65535];
    let keys: Vec<String> = lens.iter().map(|l| "k".repeat(*l)).collect();
    arrangements(keys.len(), 3, &mut |sel| {
        c.case(
            || format!("keys of lengths {:?}", sel.iter().map(|i| lens[*i]).collect::<Vec<_>>()),
            |st| {
                let m = M::Obj(sel.iter().map(|i| (keys[*i].clone(), small_val(*i + 1))).collect());
                let absent: Vec<&str> = (0..keys.len()).filter(|i| !sel.contains(i)).map(|i| keys[i].as_str()).collect();
                check_obj_fast(&m, Order::Listed, &absent, st)?;
                st.outcome("key lengths");
                Ok(())
            },
        );
    });
}

// ---- C05 -----------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Null,
    Bool,
    Num,
    Str,
    /// a string value of 2^28 bytes
    LongStr,
    /// an object key of 65536 bytes (in an array: a string value of 2^28 bytes)
    LongKey,
    Arr(u16),
    Obj(u16),
    /// an object declared sorted
    Srt(u16),
    /// an embedded container under a key of 65536 bytes (in an array: none)
    LongNest,
    Fin,
    Drop,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Arr,
    Obj,
    Srt,
}

/// What the state machine knows of an open builder.
#[derive(Clone, Debug)]
struct Frame {
    kind: Kind,
    declared: u16,
    items: Vec<(String, M)>,
    used: usize,
}

impl Frame {
    fn new(kind: Kind, declared: u16) -> Frame {
        Frame { kind, declared, items: vec![], used: 0 }
    }
    fn key(&mut self) -> String {
        self.used += 1;
        // ascending for builders that are told so, else descending with length changes
        match self.kind {
            Kind::Srt => format!("k{:02}", self.used),
            _ => format!("{}{}", "y".repeat(1 + (self.used * 7) % 3), 99 - self.used),
        }
    }
    fn model(self) -> M {
        match self.kind {
            Kind::Arr => M::Arr(self.items.into_iter().map(|x| x.1).collect()),
            _ => M::Obj(self.items),
        }
    }
    fn full(&self) -> bool {
        self.items.len() >= self.declared as usize
    }
}

struct Run<'w> {
    ops: &'w [Op],
    at: usize,
    dead: bool,
    open: Vec<u64>,
    log: Vec<u64>,
    st: &'w mut Stats,
}

#[derive(PartialEq, Debug)]
enum Exit {
    Fin,
    Drop,
    End,
}

fn long_str() -> &'static str {
    crate::sys::zeros_str(1 << 28)
}
fn long_key() -> &'static str {
    &crate::sys::zeros_str(1 << 28)[..65536]
}

fn scalar(op: Op, i: usize) -> M {
    match op {
        Op::Null => M::Null,
        Op::Bool => M::Bool(i % 2 == 0),
        Op::Num => n(1000 + i as i64),
        _ => s(&format!("s{i}")),
    }
}

impl Run<'_> {
    fn note(&mut self, f: &Frame) {
        self.st.step(1);
        let h = hash(&(f.kind, f.declared, f.items.len(), self.dead, &self.open[..]));
        self.st.state(h);
        self.log.push(h);
    }

    /// A push that the state machine accepts or refuses.
    fn pushed(&mut self, f: &mut Frame, r: Result<(), BuildError>, key: String, m: Option<M>, too_long: bool) -> R {
        let at = self.at - 1;
        let op = self.ops[at];
        match r {
            Ok(()) => {
                ensure!(!self.dead, "step {at} {op:?}: accepted although an embedded builder was not completed");
                ensure!(!f.full(), "step {at} {op:?}: accepted beyond the declared {} elements", f.declared);
                ensure!(!too_long, "step {at} {op:?}: accepted although too long");
                if let Some(m) = m {
                    f.items.push((key, m));
                }
                self.st.outcome("push accepted");
            }
            Err(e) => {
                ensure!(self.dead || f.full() || too_long, "step {at} {op:?}: refused with {e:?}");
                if self.dead && !too_long && !f.full() {
                    ensure!(matches!(e, BuildError::InnerUncompletedError), "step {at} {op:?}: refused with {e:?} instead of as incomplete");
                }
                if too_long && !self.dead && !f.full() {
                    ensure!(matches!(e, BuildError::StringTooLong(_)), "step {at} {op:?}: refused with {e:?} instead of as too long");
                }
                self.st.outcome(if self.dead { "push refused: incomplete" } else if too_long { "push refused: too long" } else { "push refused: full" });
            }
        }
        self.note(f);
        Ok(())
    }

    /// The result of finishing a builder; true: it succeeded.
    fn finished(&mut self, f: &Frame, r: Result<(), BuildError>) -> Result<bool, String> {
        let at = self.at - 1;
        let count = f.items.len() as u16;
        let good = !self.dead && count == f.declared;
        match r {
            Ok(()) => {
                ensure!(!self.dead, "step {at}: finish succeeds although an embedded builder was not completed");
                ensure!(good, "step {at}: finish succeeds with {count} of {} elements", f.declared);
                self.st.outcome("finish accepted");
            }
            Err(e) => {
                ensure!(!good, "step {at}: finish fails with {e:?}");
                if self.dead {
                    ensure!(matches!(e, BuildError::InnerUncompletedError), "step {at}: finish fails with {e:?} instead of as incomplete");
                    self.st.outcome("finish refused: incomplete");
                } else {
                    ensure!(
                        matches!(e, BuildError::InconsistentElementCount { expected, actual } if expected == f.declared && actual == count),
                        "step {at}: finish with {count} of {} elements fails with {e:?}",
                        f.declared
                    );
                    self.st.outcome("finish refused: count");
                }
                self.dead = true;
            }
        }
        self.note(f);
        Ok(good)
    }

    fn child(&mut self, f: &mut Frame, key: String, ef: Frame, exit: Exit, fin: impl FnOnce(&mut Self, &Frame) -> Result<bool, String>) -> Result<bool, String> {
        // `fin` finishes or drops the builder
        match exit {
            Exit::Fin => {
                if fin(self, &ef)? {
                    f.items.push((key, ef.model()));
                } else {
                    f.items.push((key, M::Null));
                }
                self.open.pop();
                Ok(true)
            }
            Exit::Drop => {
                self.dead = true;
                f.items.push((key, M::Null));
                self.open.pop();
                self.st.outcome("dropped");
                Ok(true)
            }
            Exit::End => Ok(false),
        }
    }

    fn arr(&mut self, b: &mut dyn ABDyn, f: &mut Frame) -> Result<Exit, String> {
        while self.at < self.ops.len() {
            let op = self.ops[self.at];
            self.at += 1;
            match op {
                Op::Fin => return Ok(Exit::Fin),
                Op::Drop => return Ok(Exit::Drop),
                Op::Null | Op::Bool | Op::Num | Op::Str => {
                    let m = scalar(op, self.at);
                    let r = match &m {
                        M::Null => b.nul(),
                        M::Bool(v) => b.boo(*v),
                        M::Num(v) => b.num(&v.number()),
                        M::Str(v) => b.st(v),
                        _ => unreachable!(),
                    };
                    self.pushed(f, r, String::new(), Some(m), false)?;
                }
                Op::LongStr | Op::LongKey | Op::LongNest => {
                    let r = b.st(long_str());
                    self.pushed(f, r, String::new(), None, true)?;
                }
                Op::Arr(k) => match b.ar(k) {
                    Err(e) => self.pushed(f, Err(e), String::new(), None, false)?,
                    Ok(mut cb) => {
                        self.pushed(f, Ok(()), String::new(), None, false)?;
                        self.open.push(hash(&(Kind::Arr, k, f.items.len())));
                        let mut cf = Frame::new(Kind::Arr, k);
                        let x = self.arr(&mut cb, &mut cf)?;
                        if !self.child(f, String::new(), cf, x, |s, cf| s.finished(cf, cb.finish().map(|_| ())))? {
                            return Ok(Exit::End);
                        }
                    }
                },
                Op::Obj(k) | Op::Srt(k) => {
                    let kind = if matches!(op, Op::Srt(_)) { Kind::Srt } else { Kind::Obj };
                    match b.ob(k, kind == Kind::Srt) {
                        Err(e) => self.pushed(f, Err(e), String::new(), None, false)?,
                        Ok(mut cb) => {
                            self.pushed(f, Ok(()), String::new(), None, false)?;
                            self.open.push(hash(&(kind, k, f.items.len())));
                            let mut cf = Frame::new(kind, k);
                            let x = self.obj(&mut cb, &mut cf)?;
                            if !self.child(f, String::new(), cf, x, |s, cf| s.finished(cf, cb.finish().map(|_| ())))? {
                                return Ok(Exit::End);
                            }
                        }
                    }
                }
            }
        }
        Ok(Exit::End)
    }

    fn obj(&mut self, b: &mut dyn OBDyn, f: &mut Frame) -> Result<Exit, String> {
        while self.at < self.ops.len() {
            let op = self.ops[self.at];
            self.at += 1;
            match op {
                Op::Fin => return Ok(Exit::Fin),
                Op::Drop => return Ok(Exit::Drop),
                Op::Null | Op::Bool | Op::Num | Op::Str => {
                    let m = scalar(op, self.at);
                    let k = f.key();
                    let r = match &m {
                        M::Null => b.nul(&k),
                        M::Bool(v) => b.boo(&k, *v),
                        M::Num(v) => b.num(&k, &v.number()),
                        M::Str(v) => b.st(&k, v),
                        _ => unreachable!(),
                    };
                    self.pushed(f, r, k, Some(m), false)?;
                }
                Op::LongStr => {
                    let k = f.key();
                    let r = b.st(&k, long_str());
                    self.pushed(f, r, k, None, true)?;
                }
                Op::LongKey => {
                    let k = long_key();
                    let r = match self.at % 4 {
                        0 => b.nul(k),
                        1 => b.boo(k, true),
                        2 => b.num(k, &Nm::int(5).number()),
                        _ => b.st(k, "v"),
                    };
                    self.pushed(f, r, String::new(), None, true)?;
                }
                Op::LongNest => {
                    let r = if self.at % 2 == 0 { b.ar(long_key(), 1).map(drop) } else { b.ob(long_key(), 1, false).map(drop) };
                    self.pushed(f, r, String::new(), None, true)?;
                }
                Op::Arr(n) => {
                    let k = f.key();
                    match b.ar(&k, n) {
                        Err(e) => self.pushed(f, Err(e), k, None, false)?,
                        Ok(mut cb) => {
                            self.pushed(f, Ok(()), String::new(), None, false)?;
                            self.open.push(hash(&(Kind::Arr, n, f.items.len())));
                            let mut cf = Frame::new(Kind::Arr, n);
                            let x = self.arr(&mut cb, &mut cf)?;
                            if !self.child(f, k, cf, x, |s, cf| s.finished(cf, cb.finish().map(|_| ())))? {
                                return Ok(Exit::End);
                            }
                        }
                    }
                }
                Op::Obj(n) | Op::Srt(n) => {
                    let kind = if matches!(op, Op::Srt(_)) { Kind::Srt } else { Kind::Obj };
                    let k = f.key();
                    match b.ob(&k, n, kind == Kind::Srt) {
                        Err(e) => self.pushed(f, Err(e), k, None, false)?,
                        Ok(mut cb) => {
                            self.pushed(f, Ok(()), String::new(), None, false)?;
                            self.open.push(hash(&(kind, n, f.items.len())));
                            let mut cf = Frame::new(kind, n);
                            let x = self.obj(&mut cb, &mut cf)?;
                            if !self.child(f, k, cf, x, |s, cf| s.finished(cf, cb.finish().map(|_| ())))? {
                                return Ok(Exit::End);
                            }
                        }
                    }
                }
            }
        }
        Ok(Exit::End)
    }
}

// object-safe by construction
use AB as ABDyn;
use OB as OBDyn;

#[derive(Clone, Copy, Debug)]
struct Root {
    kind: Kind,
    declared: u16,
    owned: bool,
}

fn good_doc(y: &yason::Yason, f: Frame) -> R {
    let m = f.model();
    read::doc(y, &m)?;
    let d = bnf::decode(y.as_bytes()).map_err(|e| format!("the finished document is not well formed: {e}"))?;
    ensure!(d.same(&m), "the finished document holds {} instead of {}", d.show(), m.show());
    Ok(())
}

const PREFIX: &[u8] = &[9, 8, 7, 6, 5];

/// Executes one word from a fresh root builder, comparing every step. Returns the steps taken.
fn execute(root: Root, ops: &[Op], st: &mut Stats) -> R {
    let mut run = Run { ops, at: 0, dead: false, open: vec![], log: vec![], st };
    let mut f = Frame::new(root.kind, root.declared);
    let sorted = root.kind == Kind::Srt;
    let err = |e: BuildError| format!("creating the root builder fails: {e}");
    let mut buf = PREFIX.to_vec();
    match (root.kind, root.owned) {
        (Kind::Arr, true) => {
            let mut b = ArrayBuilder::try_new(root.declared).map_err(err)?;
            if run.arr(&mut b, &mut f)? == Exit::Fin {
                let r = b.finish();
                let good = r.as_ref().ok().cloned();
                if run.finished(&f, r.map(|_| ()))? {
                    good_doc(&good.unwrap(), f)?;
                }
            }
        }
        (_, true) => {
            let mut b = ObjectBuilder::try_new(root.declared, sorted).map_err(err)?;
            if run.obj(&mut b, &mut f)? == Exit::Fin {
                let r = b.finish();
                let good = r.as_ref().ok().cloned();
                if run.finished(&f, r.map(|_| ()))? {
                    good_doc(&good.unwrap(), f)?;
                }
            }
        }
        (Kind::Arr, false) => {
            let mut b = ArrayRefBuilder::try_new(&mut buf, root.declared).map_err(err)?;
            if run.arr(&mut b, &mut f)? == Exit::Fin {
                let r = b.finish();
                let good = r.as_ref().ok().map(|y| y.as_bytes().to_vec());
                if run.finished(&f, r.map(|_| ()))? {
                    let g = good.unwrap();
                    ensure!(buf[PREFIX.len()..] == g[..], "the result is not what was appended");
                    good_doc(unsafe { yason::Yason::new_unchecked(&g) }, f)?;
                }
            }
            ensure!(buf.starts_with(PREFIX), "bytes before the document changed");
        }
        (_, false) => {
            let mut b = ObjectRefBuilder::try_new(&mut buf, root.declared, sorted).map_err(err)?;
            if run.obj(&mut b, &mut f)? == Exit::Fin {
                let r = b.finish();
                let good = r.as_ref().ok().map(|y| y.as_bytes().to_vec());
                if run.finished(&f, r.map(|_| ()))? {
                    let g = good.unwrap();
                    ensure!(buf[PREFIX.len()..] == g[..], "the result is not what was appended");
                    good_doc(unsafe { yason::Yason::new_unchecked(&g) }, f)?;
                }
            }
            ensure!(buf.starts_with(PREFIX), "bytes before the document changed");
        }
    }
    Ok(())
}

/// Every word up to the bound that either closes the root with its last operation or has full length.
fn words(alphabet: &[Op], len: usize, f: &mut dyn FnMut(&[Op])) {
    // only the nesting is tracked here: opening may be refused at run time, which makes later closings apply to the
    // parent; so a word may end early at run time, and is then still executed up to that point
    fn go(alphabet: &[Op], len: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op])) {
        if cur.len() == len {
            return f(cur);
        }
        for op in alphabet {
            cur.push(*op);
            let open = cur.iter().filter(|o| matches!(o, Op::Arr(_) | Op::Obj(_) | Op::Srt(_))).count();
            let close = cur.iter().filter(|o| matches!(o, Op::Fin | Op::Drop)).count();
            if close > open {
                f(cur);
            } else {
                go(alphabet, len, cur, f);
            }
            cur.pop();
        }
    }
    go(alphabet, len, &mut vec![], f)
}

pub fn c05(c: &mut Ctx) {
    use Op::*;
    let full = [Null, Bool, Num, Str, LongStr, LongKey, LongNest, Arr(0), Arr(1), Arr(2), Obj(0), Obj(1), Obj(2), Srt(2), Fin, Drop];
    let core = [Null, Str, LongKey, Arr(1), Obj(1), Obj(2), Fin, Drop];
    let tiny = [Str, Arr(1), Obj(1), Fin, Drop];
    let mut roots = vec![];
    for kind in [Kind::Arr, Kind::Obj, Kind::Srt] {
        for declared in 0..=3 {
            for owned in [true, false] {
                roots.push(Root { kind, declared, owned });
            }
        }
    }
    let go = |c: &mut Ctx, roots: &[Root], alphabet: &[Op], len: usize| {
        c.family(&format!("every sequence of up to {len} of the {} operations {alphabet:?}, {} roots", alphabet.len(), roots.len()));
        for root in roots {
            words(alphabet, len, &mut |w| {
                c.case(|| format!("{root:?} {w:?}"), |st| execute(*root, w, st));
            });
        }
    };
    let (a, b, t) = c.pick((4, 6, 8), (5, 8, 10));
    go(c, &roots, &full, a);
    let some: Vec<Root> = roots.iter().copied().filter(|r| r.declared == 2 || (r.declared == 1 && !r.owned)).collect();
    go(c, &some, &core, b);
    let few: Vec<Root> = roots.iter().copied().filter(|r| r.declared == 2 && r.kind != Kind::Srt).collect();
    go(c, &few, &tiny, t);

    c.family("every declared count with every number of pushes up to 24, and around multiples of 256 and the limit");
    let mut marks: Vec<usize> = (0..=24).collect();
    marks.extend([127, 128, 129, 254, 255, 256, 257, 258, 260, 272, 510, 511, 512, 513, 514, 767, 768, 769, 1024, 4096, 32768, 65279, 65280, 65281, 65534, 65535]);
    for (i, declared) in marks.iter().enumerate() {
        for pushes in &marks[..=i] {
            for kind in [Kind::Arr, Kind::Obj, Kind::Srt] {
                for owned in [true, false] {
                    if *pushes > 4000 && (owned || kind == Kind::Srt) {
                        continue;
                    }
                    let root = Root { kind, declared: *declared as u16, owned };
                    c.case(|| format!("{root:?}: {pushes} pushes, then finish"), |st| count_limit(root, *pushes, st));
                    c.case(|| format!("nested in an array, {root:?}: {pushes} pushes, then finish"), |st| count_nested(root, *pushes, st));
                }
            }
        }
    }

    // the largest declared counts: exactly full, one short, one over
    c.family("declared counts at the limit");
    for declared in [255u16, 256, 257, 32767, 32768, 65534, 65535] {
        for kind in [Kind::Arr, Kind::Obj, Kind::Srt] {
            for delta in [-1i32, 0, 1, 2] {
                for owned in [true, false] {
                    let root = Root { kind, declared, owned };
                    c.case(
                        || format!("{root:?}: {declared}{delta:+} pushes, then finish"),
                        |st| {
                            let pushes = (declared as i32 + delta) as usize;
                            count_limit(root, pushes, st)
                        },
                    );
                }
            }
        }
    }
}

fn count_limit(root: Root, pushes: usize, st: &mut Stats) -> R {
    let total = root.declared as usize;
    let leaf = |i: usize| if i % 3 == 0 { M::Null } else { n(i as i64) };
    let mut items: Vec<(String, M)> = vec![];
    let mut over = vec![];
    let keys: Vec<String> = (0..pushes).map(|i| format!("{i:06}")).collect();
    let mut buf = PREFIX.to_vec();
    macro_rules! drive {
        ($b:expr, $push:expr) => {{
            let mut b = $b.map_err(|e| e.to_string())?;
            for i in 0..pushes {
                let m = leaf(i);
                #[allow(clippy::redundant_closure_call)]
                match ($push)(&mut b, i, &m) {
                    Ok(()) => items.push((keys[i].clone(), m)),
                    Err(e) => over.push((i, format!("{e:?}"))),
                }
            }
            b.finish().map(|y| y.as_bytes().to_vec())
        }};
    }
    let pa = |b: &mut dyn AB, _: usize, m: &M| match m {
        M::Null => b.nul(),
        M::Num(v) => b.num(&v.number()),
        _ => unreachable!(),
    };
    let po = |b: &mut dyn OB, i: usize, m: &M| match m {
        M::Null => b.nul(&keys[i]),
        M::Num(v) => b.num(&keys[i], &v.number()),
        _ => unreachable!(),
    };
    let sorted = root.kind == Kind::Srt;
    let r = match (root.kind, root.owned) {
        (Kind::Arr, true) => drive!(ArrayBuilder::try_new(root.declared), pa),
        (Kind::Arr, false) => drive!(ArrayRefBuilder::try_new(&mut buf, root.declared), pa),
        (_, true) => drive!(ObjectBuilder::try_new(root.declared, sorted), po),
        (_, false) => drive!(ObjectRefBuilder::try_new(&mut buf, root.declared, sorted), po),
    };
    st.step(pushes as u64);
    ensure!(over.iter().all(|o| o.0 >= total), "push {} of {total} refused: {}", over[0].0, over[0].1);
    ensure!(items.len() <= total, "{} pushes accepted where {total} are declared", items.len());
    if pushes < total {
        ensure!(
            matches!(&r, Err(BuildError::InconsistentElementCount { expected, actual }) if *expected as usize == total && *actual as usize == pushes),
            "finish with {pushes} of {total}: {r:?}"
        );
        st.outcome("finish refused: count");
    } else {
        let bytes = r.map_err(|e| format!("finish with {total} elements fails: {e}"))?;
        let f = Frame { kind: root.kind, declared: root.declared, items, used: 0 };
        good_doc(unsafe { yason::Yason::new_unchecked(&bytes) }, f)?;
        st.outcome("finish accepted");
    }
    Ok(())
}

/// A nested builder declared for `root.declared` elements, between two elements of an array: with too few pushes its
/// finish is refused, and the outer one can then not be completed as if nothing had happened.
fn count_nested(root: Root, pushes: usize, st: &mut Stats) -> R {
    let total = root.declared;
    let sorted = root.kind == Kind::Srt;
    let mut buf = PREFIX.to_vec();
    let e = |x: BuildError| format!("{x:?}");
    macro_rules! drive {
        ($outer:expr) => {{
            let mut a = $outer.map_err(e)?;
            a.push_string("before").map_err(e)?;
            let inner = if root.kind == Kind::Arr {
                let mut b = a.push_array(total).map_err(e)?;
                for _ in 0..pushes {
                    b.push_null().map_err(e)?;
                }
                b.finish().map(|_| ())
            } else {
                let mut b = a.push_object(total, sorted).map_err(e)?;
                for i in 0..pushes {
                    b.push_null(format!("{i:06}")).map_err(e)?;
                }
                b.finish().map(|_| ())
            };
            if pushes < total as usize {
                ensure!(
                    matches!(&inner, Err(BuildError::InconsistentElementCount { expected, actual }) if *expected == total && *actual as usize == pushes),
                    "nested finish with {pushes} of {total}: {inner:?}"
                );
                st.outcome("nested finish refused: count");
                return Ok(());
            }
            inner.map_err(|x| format!("nested finish with {total} elements fails: {x:?}"))?;
            a.push_string("after").map_err(e)?;
            let y = a.finish().map_err(e)?;
            let items = if root.kind == Kind::Arr {
                M::Arr(vec![M::Null; pushes])
            } else {
                M::Obj((0..pushes).map(|i| (format!("{i:06}"), M::Null)).collect())
            };
            read::doc(&y, &M::Arr(vec![s("before"), items, s("after")]))?;
            st.step(pushes as u64 + 4);
            st.outcome("nested finish accepted");
            Ok(())
        }};
    }
    if root.owned {
        drive!(ArrayBuilder::try_new(3))
    } else {
        drive!(ArrayRefBuilder::try_new(&mut buf, 3))
    }
}
