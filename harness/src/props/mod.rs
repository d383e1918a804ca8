use crate::ctx::Ctx;
use crate::gen;
use crate::model::{chain, n, s, M};

mod builder;
mod bytes;
mod cost;
mod errors;
mod faults;
mod inter;
mod json;
mod limits;
mod numbers;
mod output;
mod paths;
mod reading;
mod relation;
mod repeats;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    pub level: &'static str,
    pub profiles: &'static [&'static str],
    pub mem_gb: u64,
    pub serial: bool,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const BOTH: &[&str] = &["checked", "release"];
const REL: &[&str] = &["release"];
const COUNTING: &[&str] = &["counted", "release"];

macro_rules! prop {
    ($id:literal, $run:path, $level:literal, $profiles:expr, $mem:literal, $rule:literal $(, $a:literal)*) => {
        Prop { id: $id, run: $run, level: $level, profiles: $profiles, mem_gb: $mem, serial: false, rule: $rule, assumptions: &[$($a),*] }
    };
}

pub const ALL: &[Prop] = &[
    prop!("C01", reading::c01, "model_checking", BOTH, 3, "every document of the listed spaces x building styles; every accessor route compared with the model",
        "documents outside the listed spaces behave like those inside (small-scope argument)"),
    prop!("C02", builder::c02, "model_checking", BOTH, 3, "every key set of the alphabet x every permutation of the pushes; every lookup compared"),
    prop!("C03", bytes::c03, "model_checking", BOTH, 3, "every document of the listed spaces: bytes decoded by the independent grammar decoder; every layout permutation encoded and read",
        "number payloads are decoded by decimal-rs itself (the published grammar leaves them opaque)"),
    prop!("C04", bytes::c04, "model_checking", BOTH, 3, "every document x prior buffer length x spare capacity x memory poison pattern x building interface"),
    prop!("C05", builder::c05, "model_checking", BOTH, 3, "every sequence of builder operations up to the bound, compared step by step with the builder state machine"),
    prop!("C06", limits::c06, "model_checking", BOTH, 3, "every container pattern and depth of the listed spaces, every route"),
    prop!("C07", json::c07, "model_checking", BOTH, 3, "every JSON text of the listed spaces, three import routes, against an independent JSON reader"),
    prop!("C08", output::c08, "model_checking", BOTH, 3, "every document and every Unicode scalar value, every formatting route, against an independent JSON reader"),
    prop!("C09", numbers::c09, "model_checking", BOTH, 3, "every number of the listed spaces in every position; every number text of the listed spaces"),
    prop!("C10", relation::c10, "model_checking", BOTH, 3, "every ordered pair of the listed documents and representations"),
    prop!("C11", paths::c11, "model_checking", BOTH, 3, "every string over the path alphabet up to the bound and every token sequence up to the bound, against the grammar"),
    prop!("C12", paths::c12, "model_checking", BOTH, 3, "every document x every path of the listed spaces, against the path evaluator"),
    prop!("C13", paths::c13, "model_checking", BOTH, 3, "every document x every path of the listed spaces: existence against the model's selection"),
    prop!("C14", paths::c14, "model_checking", BOTH, 3, "every document x path x delivery mode x history of the reused buffers"),
    prop!("C15", json::c15, "model_checking", BOTH, 3, "every document of the listed spaces x serde formats"),
    prop!("C16", limits::c16, "model_checking", REL, 26, "every length, count and subscript at the encoding boundaries and limits, each way of reaching it"),
    prop!("C17", relation::c17, "model_checking", BOTH, 3, "every part of every document x every way of extracting or copying it"),
    prop!("C18", reading::c18, "model_checking", REL, 3, "every document x every proper prefix x every read",
        "explored without debug assertions: the readers' documented precondition is a valid document, which debug assertions enforce"),
    prop!("C19", faults::c19, "fault_enumeration", BOTH, 3, "every document x every write position failing; non-trivial: the write existed and failed"),
    prop!("C20", faults::c20, "fault_enumeration", BOTH, 3, "every call sequence x every allocation position failing; non-trivial: the allocation happened and failed"),
    prop!("C21", output::c21, "model_checking", BOTH, 3, "every document of the listed spaces, pretty output against the layout rules applied to the compact output"),
    prop!("C22", reading::c22, "model_checking", BOTH, 3, "every document x accessor x wrong type x index out of range x absent key"),
    prop!("C23", inter::c23, "model_checking", BOTH, 3, "every pair and triple of operations x every schedule up to the preemption bound; every sequence of operations up to the bound",
        "code between two scheduling points runs undisturbed in the interleaving families; the instruction-level family removes this for pairs of operations"),
    prop!("C24", errors::c24, "model_checking", BOTH, 3, "every error of every kind provoked in the listed spaces: values, types and places in its message; every refused path and JSON text of the listed spaces"),
    prop!("C25", errors::c25, "model_checking", BOTH, 3, "every document of the listed spaces x every value replaced by one of every unsupported type x every read"),
    prop!("C26", cost::c26, "model_checking", BOTH, 3, "every document, text, pair of operations, failing allocation and failing write of the listed spaces, repeated: heap memory in use compared between runs",
        "a store kept by the library may fill for up to 200 repetitions"),
    prop!("C27", cost::c27, "model_checking", COUNTING, 4, "every operation x document shape x size of the ladder; every place x size for reads of one place: instructions (by single-stepping) and heap bytes compared between sizes",
        "work that grows faster than in proportion shows within the sizes of the ladder"),
    prop!("C28", repeats::c28, "model_checking", BOTH, 3, "every sequence of keys with repetitions up to the bound x every place of repetition in larger objects; every read compared with the list of pushes"),
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

pub type Each<'a> = &'a mut dyn FnMut(&mut Ctx, &dyn Fn() -> M);

/// All small documents up to `max` nodes.
pub fn small(c: &mut Ctx, max: usize, f: Each) {
    c.family(&format!("all documents of up to {max} nodes (keys a, b, aa in every insertion order)"));
    gen::small(max, &mut |mk| f(c, mk));
}

pub fn list(c: &mut Ctx, name: &str, v: Vec<M>, f: Each) {
    c.family(name);
    for m in v {
        f(c, &|| m.clone());
    }
}

/// Values of every encoding class in every kind of position, pairs of them side by side, many-element containers,
/// far offsets, deep chains.
pub fn rich(c: &mut Ctx, f: Each) {
    let mut r = gen::rich();
    r.extend(gen::long_strings().into_iter().map(M::Str));
    list(c, "every encoding class in every position", r.iter().flat_map(gen::contexts).collect(), f);
    list(c, "every number of the corner list in every position", gen::numbers().into_iter().map(M::Num).flat_map(|m| {
        let mut v = gen::contexts(&m);
        v.truncate(11);
        v
    }).collect(), f);
    c.family("every pair of encoding classes side by side");
    let r = gen::rich();
    for a in &r {
        for b in &r {
            f(c, &|| M::Arr(vec![a.clone(), b.clone()]));
            f(c, &|| M::Obj(vec![("y".into(), a.clone()), ("x".into(), b.clone())]));
        }
    }
    list(c, "parts at offsets beyond one and two bytes", gen::far(), f);
}

pub fn wide(c: &mut Ctx, max: usize, f: Each) {
    c.family("containers with many elements");
    let mut ws: Vec<usize> = gen::WIDTHS.to_vec();
    ws.extend([257, 300, 511, 512, 1000, 4095, 4096, 4097, 32767, 32768, 40000, 65534, 65535]);
    for w in ws.into_iter().filter(|w| *w <= max) {
        for kind in 0..5 {
            if w > 5000 && kind != 3 && kind != 0 {
                continue;
            }
            f(c, &|| gen::wide(w, kind));
            f(c, &|| gen::wide_obj(w, kind));
        }
    }
    for w in [255usize, 256, 300] {
        f(c, &|| M::Obj(vec![("w".into(), gen::wide_obj(w, 3)), ("v".into(), gen::wide(w, 3))]));
        f(c, &|| M::Arr(vec![gen::wide_obj(w, 3), gen::wide(w, 3), n(1)]));
    }
}

pub fn deep(c: &mut Ctx, f: Each) {
    c.family("nested chains of every pattern of period up to 3");
    for d in [2usize, 3, 4, 5, 8, 16, 31, 50, 51, 64, 98, 99, 100] {
        for leaf in [n(1), s("leaf")] {
            for m in gen::deep(d, leaf) {
                f(c, &|| m.clone());
            }
        }
        if d < 100 {
            for leaf in [M::Arr(vec![]), M::Obj(vec![]), M::Arr(vec![n(1), M::Null, s("x")])] {
                for m in gen::deep(d, leaf) {
                    f(c, &|| m.clone());
                }
            }
        }
        // siblings at every level
        f(c, &|| {
            let mut m = n(0);
            for l in 0..d {
                m = if l % 2 == 0 { M::Arr(vec![s("l"), m, M::Null]) } else { M::Obj(vec![("z".into(), n(l as i64)), ("b".into(), m), ("aa".into(), M::Bool(true))]) };
            }
            m
        });
    }
    f(c, &|| chain(100, |l| l % 2 == 0, M::Null));
}

/// Every length of strings, keys, nested containers and offsets, and every number of elements and members.
pub fn sizes(c: &mut Ctx, upto: usize, marks: usize, counts: usize, f: Each) {
    c.family(&format!("strings, keys, nested containers and offsets of every length up to {upto} and around each boundary up to {marks}"));
    for l in gen::lengths(upto, marks) {
        for i in 0..4 {
            if i < 3 || l < 65535 {
                f(c, &|| gen::sized(l).swap_remove(i));
            }
        }
    }
    c.family(&format!("every number of elements and members up to {counts}"));
    for k in 0..=counts {
        f(c, &|| gen::wide(k, 3));
        f(c, &|| gen::wide_obj(k, 3));
        f(c, &|| M::Arr(vec![gen::wide(k, 1), s("t")]));
        f(c, &|| M::Obj(vec![("o".into(), gen::wide_obj(k, 2)), ("a".into(), gen::wide(k, 0)), ("n".into(), n(1))]));
    }
}

/// Documents whose parts go beyond 2^20, 2^21 and, with `all`, 2^24 bytes.
pub fn giants(c: &mut Ctx, all: bool, f: Each) {
    c.family(if all { "documents of 1, 3 and 17 MB, by one long part or by many parts" } else { "documents of 1 and 3 MB, by one long part or by many parts" });
    for l in [1_100_000usize, 3_500_000, 17_100_000] {
        if l > 4_000_000 && !all {
            continue;
        }
        for what in 0..gen::GIANTS {
            f(c, &|| gen::giant(l, what));
        }
    }
}

/// Two sizes at a time: key and value lengths, depth and number of elements, padding before a value, number of
/// elements and the place of one that is unlike the others.
pub fn combos(c: &mut Ctx, f: Each) {
    let all = !c.quick();
    let r = gen::rich();
    let ls: &[usize] = &[0, 1, 2, 3, 63, 64, 127, 128, 129, 254, 255, 256, 257, 1000, 1024, 4096, 16383, 16384, 32767, 32768, 65534, 65535];
    c.family("keys of marked lengths with values of every encoding class and of marked lengths, alone and between others");
    for &k in ls {
        let key = gen::text(k);
        let vals = r.iter().cloned().chain(ls.iter().map(|l| s(&gen::text(*l)))).enumerate();
        for (i, v) in vals {
            if k > 1000 && !all && i % 3 != k % 3 {
                continue;
            }
            f(c, &|| M::Obj(vec![(key.clone(), v.clone())]));
            // among members of shorter and longer keys, pushed neither first nor last
            f(c, &|| {
                let mut o = vec![("Z".repeat(k / 2 + 2), n(1)), (key.clone(), v.clone()), ("0".to_string(), s("first")), (format!("{}~", gen::text(k.min(65000))), v.clone())];
                o.retain({
                    let mut seen = std::collections::HashSet::new();
                    move |x| seen.insert(x.0.clone())
                });
                M::Obj(o)
            });
        }
    }
    c.family("wide containers at the bottom and half way down nested chains");
    for d in [2usize, 3, 10, 33, 64, 98] {
        for w in [2usize, 17, 40, 100, 255, 256, 300] {
            for kind in 0..4 {
                f(c, &|| {
                    let bottom = if kind % 2 == 0 { gen::wide(w, 2) } else { gen::wide_obj(w, 2) };
                    let mut m = bottom;
                    for l in (0..d).rev() {
                        let full = l == d / 2;
                        m = if (l + kind / 2) % 2 == 0 {
                            let mut v = if full { vec![n(l as i64); w] } else { vec![] };
                            v.insert(v.len() / 2, m);
                            M::Arr(v)
                        } else {
                            let mut v: Vec<(String, M)> = (0..if full { w } else { 0 }).map(|i| (gen::key(i), n(i as i64))).collect();
                            v.insert(v.len() / 2, ("!!".into(), m));
                            M::Obj(v)
                        };
                    }
                    m
                });
            }
        }
    }
    let pads = c.pick(24, 70);
    c.family(&format!("values of every encoding class behind and before 0 to {pads} bytes"));
    for p in 0..pads {
        for v in &r {
            f(c, &|| M::Arr(vec![s(&gen::text(p)), v.clone(), n(-300), v.clone(), s("end")]));
            f(c, &|| M::Obj(vec![(gen::text(p + 2), v.clone()), ("b".into(), n(1000)), ("a".into(), v.clone())]));
        }
    }
    c.family("one value of every encoding class at marked places among many of another");
    let mut ws: Vec<usize> = (2..=c.pick(20, 70)).collect();
    ws.extend([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
    ws.sort();
    ws.dedup();
    for w in ws {
        for (i, v) in r.iter().enumerate() {
            let mut at: Vec<usize> = vec![0, 1, w / 2, w - 2, w - 1, 15, 16, 31, 32, 127, 128, 254, 255, 256].into_iter().filter(|a| *a < w).collect();
            at.sort();
            at.dedup();
            for a in at {
                if !all && w > 20 && (a + w + i) % 4 != 0 {
                    continue;
                }
                let other = &r[(i + w) % 21];
                f(c, &|| M::Arr((0..w).map(|j| if j == a { v.clone() } else { other.clone() }).collect()));
                f(c, &|| M::Obj((0..w).map(|j| (gen::key(j), if j == a { v.clone() } else { other.clone() })).collect()));
            }
        }
    }
}

/// Only every `keep`-th document.
pub fn thin<'a>(keep: usize, f: Each<'a>) -> impl FnMut(&mut Ctx, &dyn Fn() -> M) + 'a {
    let mut i = 0;
    move |c, mk| {
        i += 1;
        if i % keep == 0 {
            f(c, mk)
        }
    }
}
