//! Finite document spaces, enumerated completely.
use crate::model::{chain, n, s, Nm, M};

pub const KEYS: [&str; 3] = ["a", "b", "aa"];

fn leaves() -> Vec<M> {
    vec![M::Null, M::Bool(true), M::Bool(false), n(1), s("a"), M::Arr(vec![]), M::Obj(vec![])]
}

/// All sequences of pool documents whose node counts sum to `total`.
fn seqs<'a>(pools: &'a [Vec<M>], total: usize, cur: &mut Vec<&'a M>, f: &mut dyn FnMut(&[&'a M])) {
    if total == 0 {
        f(cur);
        return;
    }
    for k in 1..=total.min(pools.len() - 1) {
        for m in &pools[k] {
            cur.push(m);
            seqs(pools, total - k, cur, f);
            cur.pop();
        }
    }
}

/// All ordered selections of `k` distinct keys.
fn key_orders(k: usize) -> Vec<Vec<usize>> {
    fn go(k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in 0..KEYS.len() {
            if !cur.contains(&i) {
                cur.push(i);
                go(k, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(k, &mut vec![], &mut out);
    out
}

fn level(pools: &[Vec<M>], nodes: usize, f: &mut dyn FnMut(&dyn Fn() -> M)) {
    if nodes == 1 {
        for m in leaves() {
            f(&|| m.clone());
        }
        return;
    }
    seqs(pools, nodes - 1, &mut vec![], &mut |v| f(&|| M::Arr(v.iter().map(|m| (*m).clone()).collect())));
    let orders: Vec<_> = (0..=KEYS.len()).map(key_orders).collect();
    seqs(pools, nodes - 1, &mut vec![], &mut |v| {
        if v.len() > KEYS.len() {
            return;
        }
        for o in &orders[v.len()] {
            f(&|| M::Obj(o.iter().zip(v).map(|(k, m)| (KEYS[*k].to_string(), (*m).clone())).collect()));
        }
    });
}

/// Every document of up to `max` nodes over 5 scalar values, both empty containers and the keys a, b, aa in every
/// insertion order. `f` gets a constructor so that documents of other shards are never built.
pub fn small(max: usize, f: &mut dyn FnMut(&dyn Fn() -> M)) {
    let mut pools: Vec<Vec<M>> = vec![vec![]];
    for k in 1..=max {
        if k < max {
            let mut p = vec![];
            level(&pools, k, &mut |mk| p.push(mk()));
            for m in &p {
                f(&|| m.clone());
            }
            pools.push(p);
        } else {
            level(&pools, k, f);
        }
    }
}

pub fn small_vec(max: usize) -> Vec<M> {
    let mut v = vec![];
    small(max, &mut |mk| v.push(mk()));
    v
}

/// Documents of up to `max` nodes, members only in document order (one insertion order).
pub fn small_canonical(max: usize) -> Vec<M> {
    let mut v = vec![];
    small(max, &mut |mk| {
        let m = mk();
        if m == m.canonical() {
            v.push(m)
        }
    });
    v
}

/// Numbers at the corners of every encoding: 1- and 2-byte compact forms, each payload length, both scale signs,
/// precision 38, extreme scales.
pub fn numbers() -> Vec<Nm> {
    let mut v = vec![];
    for c in [0u128, 1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 65537] {
        v.push(Nm::new(c, 0, false));
        v.push(Nm::new(c, 0, true));
    }
    let mut c: u128 = 1 << 24;
    for _ in 3..16 {
        for d in [-1i32, 0, 1] {
            v.push(Nm::new((c as i128 + d as i128) as u128, 0, false));
        }
        v.push(Nm::new(c, 0, true));
        c = match c.checked_mul(256) {
            Some(c) if c < 10u128.pow(38) => c,
            _ => break,
        };
    }
    let max = 10u128.pow(38) - 1;
    v.push(Nm::new(max, 0, false));
    v.push(Nm::new(max, 0, true));
    v.push(Nm::new(10u128.pow(37), 0, false));
    for sc in [1i16, 2, 37, 38, 39, 127, 128, 129, 130, 131, 167, -1, -2, -37, -38, -88, -125, -126] {
        for c in [1u128, 10, 15, 100, 255, 256, 12345, max] {
            v.push(Nm::new(c, sc, false));
            if c == 15 {
                v.push(Nm::new(c, sc, true));
            }
        }
    }
    v.dedup();
    v
}

/// A short list of numbers, one per encoding class.
pub fn few_numbers() -> Vec<Nm> {
    let max = 10u128.pow(38) - 1;
    vec![
        Nm::int(0),
        Nm::int(1),
        Nm::int(-1),
        Nm::int(255),
        Nm::int(256),
        Nm::int(65535),
        Nm::int(65536),
        Nm::new(15, 1, false),
        Nm::new(1, 130, true),
        Nm::new(max, 0, false),
        Nm::new(max, -88, true),
        Nm::new(max, 167, false),
    ]
}

pub fn few_strings() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "\0", "\u{1f}", "\"\\/", "\u{7f}", "é", "日本", "\u{1F600}", "\u{10FFFF}", "1", "null"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    v.push("x".repeat(127));
    v.push("x".repeat(128));
    v
}

pub fn long_strings() -> Vec<String> {
    let mut v = vec![];
    for l in [126usize, 127, 128, 129, 254, 255, 256, 257, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537] {
        v.push("s".repeat(l));
    }
    v.push("é".repeat(64)); // 128 bytes, 64 characters
    v.push("日".repeat(5461)); // 16383 bytes
    v
}

/// Scalars and small containers of every encoding class.
pub fn rich() -> Vec<M> {
    let mut v = vec![M::Null, M::Bool(true), M::Bool(false), M::Arr(vec![]), M::Obj(vec![])];
    v.extend(few_numbers().into_iter().map(M::Num));
    v.extend(few_strings().into_iter().map(M::Str));
    v.push(s(&"s".repeat(255)));
    v.push(s(&"s".repeat(256)));
    v.push(s(&"s".repeat(16384)));
    v.push(M::Arr(vec![M::Null]));
    v.push(M::Arr(vec![n(1), s("x")]));
    v.push(M::Obj(vec![("k".into(), M::Null)]));
    v.push(M::Obj(vec![("".into(), s("e")), ("kk".into(), n(7))]));
    v
}

/// The document in every kind of position.
pub fn contexts(m: &M) -> Vec<M> {
    let c = || m.clone();
    let o = |v: Vec<(&str, M)>| M::Obj(v.into_iter().map(|(k, m)| (k.to_string(), m)).collect());
    vec![
        c(),
        M::Arr(vec![c()]),
        M::Arr(vec![M::Null, c()]),
        M::Arr(vec![c(), M::Bool(true)]),
        M::Arr(vec![s("before"), c(), s("after")]),
        M::Arr(vec![c(), c(), c()]),
        o(vec![("k", c())]),
        o(vec![("", c())]),
        o(vec![("b", c()), ("a", n(5))]),
        o(vec![("a", s("x")), ("b", c())]),
        o(vec![("long key with spaces", c()), ("é", c())]),
        M::Arr(vec![M::Arr(vec![c()])]),
        M::Arr(vec![o(vec![("k", c())]), n(3)]),
        o(vec![("k", M::Arr(vec![c(), n(1)]))]),
        o(vec![("o", o(vec![("p", c())])), ("n", M::Null)]),
    ]
}

/// The n-th of an endless list of distinct keys of mixed lengths.
pub fn key(i: usize) -> String {
    let mut s = String::new();
    let mut x = i;
    loop {
        s.push((b'a' + (x % 26) as u8) as char);
        x /= 26;
        if x == 0 {
            break;
        }
        x -= 1;
    }
    s
}

/// Containers with many elements.
pub fn wide(count: usize, kind: usize) -> M {
    let leaf = |i: usize| match kind {
        0 => M::Null,
        1 => n(i as i64),
        2 => s(&format!("v{i}")),
        3 => match i % 6 {
            0 => M::Null,
            1 => M::Bool(i % 4 == 1),
            2 => n(i as i64 - 100),
            3 => s(&key(i)),
            4 => M::Arr(vec![n(i as i64)]),
            _ => M::Obj(vec![("i".into(), n(i as i64))]),
        },
        _ => M::Bool(i % 2 == 0),
    };
    M::Arr((0..count).map(leaf).collect())
}

/// Objects with many members, listed in a scattered order.
pub fn wide_obj(count: usize, kind: usize) -> M {
    let M::Arr(v) = wide(count, kind) else { unreachable!() };
    // a fixed permutation: multiplication by a number coprime to count
    let mut mul = 7919usize;
    while count > 1 && gcd(mul, count) != 1 {
        mul += 2;
    }
    let mut out: Vec<(String, M)> = vec![];
    for i in 0..count {
        let j = (i * mul) % count;
        out.push((key(j), v[j].clone()));
    }
    M::Obj(out)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub const WIDTHS: [usize; 22] =
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 50, 63, 64, 100, 127, 128, 255, 256];

/// Nested chains: every object/array pattern of period up to 3, with the given leaf.
pub fn deep(depth: usize, leaf: M) -> Vec<M> {
    let mut v = vec![];
    for (p, w) in [(0, 1), (1, 1), (1, 2), (2, 2), (1, 3), (3, 3), (4, 3), (6, 3)] {
        v.push(chain(depth, |l| (p >> (l % w)) & 1 == 1, leaf.clone()));
    }
    v
}

/// Documents whose parts lie at offsets beyond one and two bytes.
pub fn far() -> Vec<M> {
    let mut v = vec![];
    for l in [200usize, 260, 65500, 65530, 65536, 70000] {
        let big = s(&"f".repeat(l));
        v.push(M::Arr(vec![big.clone(), n(7), s("tail"), M::Arr(vec![M::Bool(true), s("in")]), M::Obj(vec![("k".into(), n(-1))]), M::Null]));
        v.push(M::Obj(vec![
            ("a".into(), big.clone()),
            ("b".into(), n(7)),
            ("c".into(), M::Arr(vec![s("in"), M::Null])),
            ("d".into(), M::Obj(vec![("k".into(), s("v"))])),
            ("aa".into(), M::Bool(true)),
        ]));
        v.push(M::Arr(vec![M::Arr(vec![big.clone(), M::Obj(vec![("x".into(), big.clone()), ("y".into(), n(1))])]), s("end")]));
        v.push(M::Obj(vec![("z".into(), M::Obj(vec![("y".into(), big.clone()), ("x".into(), M::Arr(vec![n(1), big.clone()]))])), ("y".into(), n(2))]));
    }
    v
}

/// The first `l` characters of one fixed text without a period.
pub fn text(l: usize) -> String {
    let mut x = 12345u32;
    (0..l)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (b'a' + ((x >> 24) % 26) as u8) as char
        })
        .collect()
}

/// Every length up to `upto`, and those around powers of two, multiples of 4096 and encoding boundaries up to `marks`.
pub fn lengths(upto: usize, marks: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=upto).collect();
    for base in [128usize, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 12288, 16384, 32768, 65536, 100000, 131072, 262144] {
        if base <= marks {
            // containers add up to some thirty bytes to the lengths of their parts
            v.extend((base.saturating_sub(36)..=base + 6).filter(|l| *l > upto));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Documents whose strings, keys, nested containers and offsets all depend on one length.
pub fn sized(l: usize) -> Vec<M> {
    let t = text(l);
    let mut v = vec![
        s(&t),
        M::Arr(vec![s(&t), n(7), s("tail")]),
        M::Arr(vec![M::Arr(vec![s(&t), M::Bool(true)]), M::Obj(vec![("k".into(), s(&t)), ("j".into(), n(300))]), s("t")]),
    ];
    if l < 65535 {
        v.push(M::Obj(vec![
            (format!("{t}b"), n(1)),
            ("z".into(), M::Arr(vec![n(-5)])),
            (format!("{t}a"), s("y")),
            (t.clone(), M::Obj(vec![("in".into(), M::Null)])),
        ].into_iter().filter(|(k, _): &(String, M)| l != 1 || k != "z").collect()));
    }
    v
}

/// Documents with one part of `l` bytes (beyond two, three or more bytes of length and offset), small ones around it.
/// `what` numbers them: see [`GIANTS`].
pub fn giant(l: usize, what: usize) -> M {
    let big = || M::Str(text(l));
    let o = |v: Vec<(&str, M)>| M::Obj(v.into_iter().map(|(k, m)| (k.to_string(), m)).collect());
    match what {
        0 => big(),
        1 => M::Arr(vec![big(), n(7), s("tail"), M::Arr(vec![s("in"), M::Bool(true)]), o(vec![("k", n(-1))])]),
        // the long part is pushed first and comes neither first nor last in the order of the keys
        2 => o(vec![("b", big()), ("a", n(7)), ("aa", M::Bool(true)), ("d", s("after")), ("c", M::Arr(vec![s("in"), M::Null]))]),
        3 => M::Arr(vec![M::Arr(vec![s("x"), o(vec![("y", big()), ("x", n(1)), ("zz", M::Null)])]), s("end")]),
        // no part is long, there are many
        4 => M::Arr((0..l / 60_000 + 1).map(|i| if i % 3 == 2 { o(vec![("k", s(&text(60_000))), ("i", n(i as i64))]) } else { s(&text(60_000)[i..]) }).collect()),
        _ => M::Obj((0..l / 60_000 + 1).map(|i| (if i % 3 == 1 { format!("{}{i:03}", text(60_000)) } else { format!("{i:03}") }, if i % 3 == 1 { n(i as i64) } else { s(&text(60_000)[i..]) })).collect()),
    }
}

pub const GIANTS: usize = 6;
