//! C11 the path language, C12 what a path selects, C13 existence, C14 delivery of query results.
use super::json::words;
use super::*;
use crate::bnf;
use crate::build;
use crate::ctx::{self, clip, Stats, R};
use crate::ensure;
use crate::jsonref;
use crate::pathref::{self, Sel, St};
use crate::read;
use yason::{PathExpression, QueriedValue, Value, Yason, YasonBuf, YasonError};

fn q(e: YasonError) -> String {
    format!("query fails: {e}")
}

/// Every value in order.
fn values_are(vs: &[Value], want: &[Sel]) -> R {
    ensure!(vs.len() == want.len(), "{} values instead of {}: {} instead of {}", vs.len(), want.len(), show_values(vs), show_sel(want));
    for (i, (v, w)) in vs.iter().zip(want).enumerate() {
        let r = match w {
            Sel::Part(m) => read::is(v, m),
            w => read::is(v, &w.model()),
        };
        r.map_err(|e| format!("value {i}: {e} ({} instead of {})", show_values(vs), show_sel(want)))?;
    }
    Ok(())
}

fn show_values(vs: &[Value]) -> String {
    let v: Vec<String> = vs.iter().map(|v| read::model_of(v).map(|m| m.show()).unwrap_or_else(|e| e)).collect();
    clip(&format!("[{}]", v.join(", ")), 300)
}

fn show_sel(want: &[Sel]) -> String {
    let v: Vec<String> = want.iter().map(|v| v.model().show()).collect();
    clip(&format!("[{}]", v.join(", ")), 300)
}

/// The query result against the evaluation of the reference.
fn selects(y: &Yason, m: &M, p: &PathExpression, steps: &[St], st: &mut Stats) -> R {
    let want = pathref::eval(steps, m);
    let got = p.query(y, true, None, None).map_err(q)?;
    st.step(1);
    match got {
        QueriedValue::None => values_are(&[], &want),
        QueriedValue::Values(v) => {
            ensure!(!v.is_empty(), "an empty list instead of none");
            values_are(&v, &want)
        }
        _ => Err("delivered in another form than a list".into()),
    }
}

// ---- C11 ------------------------------------------------------------------------------------------------

/// A document on which paths of different meaning select different values.
fn probe() -> M {
    let leaf = |i: i64| n(i);
    M::Obj(vec![
        ("a".into(), M::Arr(vec![leaf(0), M::Obj(vec![("a".into(), leaf(1)), ("t".into(), leaf(2)), ("b".into(), M::Arr(vec![leaf(3), leaf(4)]))]), leaf(5), M::Arr(vec![leaf(6), leaf(7)])])),
        ("t".into(), M::Obj(vec![("a".into(), leaf(8)), ("to".into(), leaf(9)), ("t".into(), M::Obj(vec![("last".into(), leaf(10))]))])),
        ("last".into(), leaf(11)),
        ("to".into(), leaf(12)),
        ("size".into(), M::Arr(vec![leaf(13), leaf(14), leaf(15)])),
        ("count".into(), leaf(16)),
        ("type".into(), leaf(17)),
        ("a1".into(), leaf(18)),
        ("é".into(), leaf(19)),
        ("".into(), leaf(20)),
        ("\\\\".into(), leaf(21)),
        ("\\\"".into(), leaf(22)),
        (" ".into(), leaf(23)),
        ("a b".into(), leaf(24)),
        ("*".into(), leaf(25)),
        ("\\t".into(), leaf(26)),
        ("\t".into(), leaf(27)),
        ("a.t".into(), leaf(28)),
        ("[0]".into(), leaf(29)),
        ("A".into(), leaf(30)),
        ("\\n".into(), leaf(31)),
        ("\\/".into(), leaf(32)),
        ("$".into(), leaf(33)),
        ("0".into(), leaf(34)),
        ("(".into(), leaf(35)),
        ("()".into(), leaf(36)),
        ("-".into(), leaf(37)),
        (",".into(), leaf(38)),
        (".".into(), leaf(39)),
    ])
}

fn language(t: &str, probes: &[(M, YasonBuf)], st: &mut Stats) -> R {
    let want = pathref::parse(t);
    let got: Result<PathExpression, _> = t.parse();
    st.step(1);
    match (want, got) {
        (None, Err(e)) => {
            let _ = e.to_string();
            st.outcome("refused");
            Ok(())
        }
        (None, Ok(_)) => Err(format!("{t:?} is not a path but is accepted")),
        (Some(_), Err(e)) => Err(format!("{t:?} is a path but is refused: {e}")),
        (Some(steps), Ok(p)) => {
            st.outcome("accepted");
            st.state(crate::ctx::hash(&format!("{steps:?}")));
            for (m, y) in probes {
                selects(y, m, &p, &steps, st).map_err(|e| format!("{t:?} means something else: {e}"))?;
            }
            Ok(())
        }
    }
}

/// Texts that are paths or nearly so; `less` shortens the exhaustive parts.
pub fn texts(c: &mut Ctx, less: usize, f: &dyn Fn(&str, &mut Stats) -> R) {
    let chars = ["$", ".", "[", "]", "*", ",", "\"", "(", ")", "-", "\\", " ", "\t", "0", "1", "a", "t", "é"];
    let len = c.pick(5, 6) - less;
    c.family(&format!("every text of up to {len} of the characters {chars:?}"));
    words(&chars, len, &mut |t| c.case(|| format!("path {t:?}"), |st| f(t, st)));
    let len = c.pick(5, 6) - less;
    c.family(&format!("'$' followed by every text of up to {len} of these characters"));
    words(&chars, len, &mut |t| {
        c.case(|| format!("path {:?}", format!("${t}")), |st| f(&format!("${t}"), st));
    });
    let toks = ["last", "to", "-", ",", "0", "12", " ", "\n", "*", "2147483647", "2147483648", "]", "["];
    let len = c.pick(6, 7) - less;
    c.family(&format!("'$[' followed by every sequence of up to {len} of the tokens {toks:?} and ']'"));
    words(&toks, len, &mut |t| {
        c.case(|| format!("path {:?}", format!("$[{t}]")), |st| f(&format!("$[{t}]"), st));
    });
    let toks = ["last", "to", "-", ",", "1", " ", "0"];
    let len = c.pick(8, 9) - less;
    c.family(&format!("'$[' followed by every sequence of up to {len} of the tokens {toks:?} and ']'"));
    words(&toks, len, &mut |t| {
        c.case(|| format!("path {:?}", format!("$[{t}]")), |st| f(&format!("$[{t}]"), st));
    });
    let toks = [".", "..", "*", "a", "size", "count()", "type ( )", "\"t\"", "[0]", "[last]", "[*]", " ", "\t", "(", ")", "\"\\t\"", "a1"];
    let len = c.pick(5, 6) - less;
    c.family(&format!("'$' followed by every sequence of up to {len} of the tokens {toks:?}"));
    words(&toks, len, &mut |t| {
        c.case(|| format!("path {:?}", format!("${t}")), |st| f(&format!("${t}"), st));
        c.case(|| format!("path {:?}", format!(" ${t}")), |st| f(&format!(" ${t}"), st));
    });
    let chars = ["\\", "\"", "b", "f", "n", "r", "t", "/", "u", "x", "é", " ", "\n", "\0"];
    let len = c.pick(5, 6) - less;
    c.family(&format!("every text of up to {len} of the characters {chars:?} inside quotes"));
    words(&chars, len, &mut |t| {
        for (a, b) in [("$.\"", "\""), ("$..\"", "\".a"), ("$.\"", "")] {
            c.case(|| format!("path {:?}", format!("{a}{t}{b}")), |st| f(&format!("{a}{t}{b}"), st));
        }
    });
    c.family("every character in the places of a path");
    let shapes = ["@", "$@", "$.@", "$.a@", "$.@a", "$..@", "$..a@", "$[@]", "$[0@]", "$[@0]", "$[last@]", "$[0 to@1]", "$[0,@1]", "$.\"@\"", "$.\"\\@\"", "$.size@()", "$.size(@)", "$.size()@", "@$", "$.a@.t", "$[0]@[0]", "$[last@-1]", "$[last-@1]", "$.a\"@", "$.@*"];
    for shape in shapes {
        for cp in (0..0x300u32).chain([0x2028, 0x3000, 0xfeff, 0xff0e, 0xffff, 0x10000, 0x10ffff]) {
            let Some(ch) = char::from_u32(cp) else { continue };
            let t = shape.replace('@', &ch.to_string());
            c.case(|| format!("path {t:?}"), |st| f(&t, st));
        }
    }
    c.family("one filler in every gap of some paths");
    let paths: [&[&str]; 8] = [
        &["$", ".", "a", "[", "1", "]", ".", "b", "[", "last", "-", "1", "]"],
        &["$", ".", "\"a\"", "[", "0", "to", "last", "]", ".", "*"],
        &["$", "..", "t", ".", "size", "(", ")"],
        &["$", "..", "\"a\"", ".", "count", "(", ")"],
        &["$", "[", "0", ",", "1", "to", "2", ",", "last", "]", ".", "type", "(", ")"],
        &["$", "[", "last", "-", "2", "to", "last", "-", "0", "]", "[", "*", "]"],
        &["$", ".", "size", "[", "0", "]"],
        &["$", ".", "*", "..", "a"],
    ];
    for p in paths {
        for gap in 0..=p.len() {
            for filler in ["", " ", "  ", "\t", "\n", "\r", "\u{c}", "\u{b}", "\u{a0}", "\u{85}", "\0", "/", "a", "0", "$", ".", "(", "\"", "'", "-", "_"] {
                let mut t = String::new();
                for (i, x) in p.iter().enumerate() {
                    if i == gap {
                        t.push_str(filler);
                    }
                    t.push_str(x);
                }
                if gap == p.len() {
                    t.push_str(filler);
                }
                c.case(|| format!("path {t:?}"), |st| f(&t, st));
            }
        }
    }
    c.family("every beginning of some paths");
    for t in ["$.a[1].b[last-1].size()", "  $ .\"a\" [ 0 to last , 2 , last - 1 ] ..\"t\" .type ( )  ", "$..a..\"b\\\"c\".*[*].count()"] {
        for i in (0..=t.len()).filter(|i| t.is_char_boundary(*i)) {
            c.case(|| format!("path {:?}", &t[..i]), |st| f(&t[..i], st));
        }
    }
    c.family("method names");
    for name in ["count", "size", "type", "Count", "SIZE", "types", "typ", "sizes", "siz", "length", "last", "to", "a", "c", "count1", "number", "min", "keys"] {
        for rest in ["()", "( )", " ()", "(\t)", "()x", "().a", "()[0]", "() ", "(", ")", "(0)", "()()", "", ".count()", "[0]", "().count()"] {
            for pre in ["$.", "$..", "$.a.", "$[0].", "$.*.", "$", "$. ", "$.\""] {
                let t = format!("{pre}{name}{rest}");
                c.case(|| format!("path {t:?}"), |st| f(&t, st));
            }
        }
        let t = format!("$.\"{name}\"()");
        c.case(|| format!("path {t:?}"), |st| f(&t, st));
    }
    c.family("subscripts around the limits");
    let mut nums: Vec<String> = vec![];
    for v in [0u128, 1, 9, 10, 255, 65535, 65536, 2147483646, 2147483647, 2147483648, 2147483649, 2147483650, 4294967295, 4294967296, 4294967297, 6442450943, 21474836470, 9223372036854775807, 9223372036854775808, 18446744073709551615, 18446744073709551616, 18446744073709551617, 184467440737095516160] {
        for z in [0usize, 1, 9, 10, 11, 20, 40, 1000] {
            nums.push(format!("{}{v}", "0".repeat(z)));
        }
    }
    nums.push("9".repeat(1000));
    nums.push("1".repeat(100000));
    for v in &nums {
        for shape in ["$[@]", "$[last-@]", "$[last - @]", "$[0,@]", "$[@,0]", "$[0 to @]", "$[@ to 0]", "$[last-@ to last]", "$[last to last-@]", "$[@", "$[last-@", "$.a[@].b", "$[-@]", "$[+@]", "$[@.0]"] {
            let t = shape.replace('@', v);
            c.case(|| format!("path {:?}", clip(&t, 200)), |st| f(&t, st));
        }
    }
}

pub fn c11(c: &mut Ctx) {
    let probes: Vec<(M, YasonBuf)> = [
        probe(),
        M::Arr(vec![n(0), M::Arr(vec![n(1), n(2), n(3)]), M::Obj(vec![("a".into(), n(4)), ("t".into(), n(5))]), n(6), n(7)]),
        n(5),
    ]
    .into_iter()
    .map(|m| {
        let y = build::doc(&m).expect("probe");
        (m, y)
    })
    .collect();
    let pr = &probes;

    texts(c, 0, &|t, st| language(t, pr, st));
    c.family("long texts");
    let lens = c.pick(vec![100usize, 1000, 10000, 100000, 300000], vec![100usize, 1000, 10000, 100000, 1000000, 5000000]);
    for l in lens {
        for (a, b, z) in [
            ("$", "[0]", ""), ("$", ".a", ""), ("$", "..a", ""), ("$", ".*", ""), ("$", "[*]", ""), ("$", " ", ""), ("", " ", "$"), ("$", " ", ".a"), ("$.a", "\t", ""), ("$.", "a", ""), ("$.\"", "a", "\""), ("$.\"", "\\\\", "\""), ("$.\"", "a", ""),
            ("$[", "0,", "0]"), ("$[", "0,", ""), ("$[", "0,", "]"), ("$[", "last-1,", "last]"), ("$[", "0 to 1,", "2]"), ("$[", "0 to last-1 , ", "x]"), ("$[", "[", ""), ("$", "[", "]"), ("$", ".", ""), ("", "$", ""), ("$[", " ", "0]"), ("$[0", " ", "]"), ("$[", "0", "]"), ("$[", "1", "]"), ("$[last", "-", "1]"),
            ("$.size", " ", "()"), ("$.size(", " ", ")"), ("$.size()", " ", ""), ("$.size()", "()", ""), ("$[0", ",0", "]"), ("$", ".a[0]", ".count()"), ("$", "é", ""), ("$.\"", "é", "\""), ("$[", ",", "]"), ("$[", "to", "]"), ("$[", "last", "]"), ("$..\"", "\\\"", "\""),
        ] {
            c.case(|| format!("path {a}{b}...{z} with {l} repetitions"), |st| {
                let t = format!("{a}{}{z}", b.repeat(l));
                let want = pathref::parse(&t).is_some();
                let got: Result<PathExpression, _> = t.parse();
                st.step(1);
                st.outcome("long text");
                if let Err(e) = &got {
                    let _ = e.to_string();
                }
                ensure!(got.is_ok() == want, "accepted: {} instead of {want}", got.is_ok());
                Ok(())
            });
        }
    }
}

// ---- C12, C13 ---------------------------------------------------------------------------------------------

/// Every scalar replaced by a distinct number.
fn label(m: &M) -> M {
    fn go(m: &M, i: &mut i64) -> M {
        match m {
            M::Arr(v) => M::Arr(v.iter().map(|m| go(m, i)).collect()),
            M::Obj(v) => M::Obj(v.iter().map(|(k, m)| (k.clone(), go(m, i))).collect()),
            _ => {
                *i += 1;
                n(*i)
            }
        }
    }
    go(m, &mut 0)
}

/// Documents of up to `max` nodes: scalars labelled, plus the unlabelled ones of up to `plain` nodes (types).
fn query_docs(max: usize, plain: usize) -> Vec<M> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for m in gen::small_canonical(max) {
        let l = label(&m);
        if seen.insert(l.keyed()) {
            out.push(l);
        }
        if m.nodes() <= plain && seen.insert(m.keyed()) {
            out.push(m);
        }
    }
    out
}

/// Bigger documents with nesting in which every kind of step meets every kind of value.
fn big_docs() -> Vec<M> {
    let o = |v: Vec<(&str, M)>| M::Obj(v.into_iter().map(|(k, m)| (k.to_string(), m)).collect());
    let a = |v: Vec<M>| M::Arr(v);
    let mut out = vec![
        a(vec![a(vec![n(0), n(0), n(0)]), o(vec![("a", n(0)), ("b", a(vec![n(0), o(vec![("a", n(0))])]))]), n(0), a(vec![o(vec![("a", a(vec![n(0)]))]), o(vec![("b", n(0))])])]),
        o(vec![("a", o(vec![("a", o(vec![("a", n(0)), ("b", n(0))])), ("b", a(vec![n(0), n(0)]))])), ("b", a(vec![o(vec![("aa", n(0)), ("a", n(0))]), n(0)])), ("aa", n(0))]),
        o(vec![("aa", a(vec![])), ("b", o(vec![])), ("a", a(vec![a(vec![a(vec![o(vec![("a", n(0))])])])]))]),
        a(vec![a(vec![a(vec![n(0), n(0)]), a(vec![n(0)])]), a(vec![]), a(vec![a(vec![]), n(0), o(vec![])])]),
    ];
    for k in 0..=7 {
        out.push(a((0..k).map(|_| n(0)).collect()));
        out.push(a((0..k).map(|i| if i % 2 == 0 { a((0..i).map(|_| n(0)).collect()) } else { o(vec![("a", n(0)), ("b", a(vec![n(0), n(0)]))]) }).collect()));
    }
    let mut out: Vec<M> = out.iter().map(label).collect();
    out.extend([gen::wide(300, 3), gen::wide_obj(300, 3), M::Obj(vec![("a".into(), gen::wide_obj(40, 3)), ("b".into(), gen::wide(40, 3))])]);
    out
}

const STEPS: [&str; 27] = [
    ".a", ".b", ".aa", ".\"a\"", ".\"\"", ".c", ".*", "..a", "..\"b\"", "..c", "[*]", "[0]", "[1]", "[2]", "[last]", "[last-1]", "[0 to 1]", "[1 to 0]", "[last to 0]", "[1 to last-1]", "[last-3 to 0]", "[0,0]", "[1,0]", "[last,0 to 1]", "[5,last-5]", "[0,last]", "[1 to 5,2]",
];
const FEW: [&str; 12] = [".a", ".b", ".*", "..a", "[*]", "[0]", "[last]", "[last-1]", "[0 to 1]", "[1,0]", "[0,last]", ".aa"];
const ENDS: [&str; 4] = ["", ".count()", ".size()", ".type()"];

/// Every path of up to `max` steps of the alphabet, with every end.
fn all_paths(steps: &[&str], max: usize, ends: &[&str]) -> Vec<String> {
    let mut v = vec![];
    words(steps, max, &mut |t| {
        for e in ends {
            v.push(format!("${t}{e}"));
        }
    });
    v
}

/// Every subscript and range over the bounds.
fn index_paths() -> (Vec<String>, Vec<String>) {
    let mut ix: Vec<String> = (0..=6).map(|i| i.to_string()).collect();
    ix.push("last".into());
    ix.extend((0..=6).map(|i| format!("last-{i}")));
    ix.extend(["2147483647", "2147483646", "65535", "65536", "last-2147483647", "last-65536"].map(String::from));
    let mut cells = ix.clone();
    for a in &ix {
        for b in &ix {
            cells.push(format!("{a} to {b}"));
        }
    }
    let few: Vec<String> = ["0", "1", "3", "9", "last", "last-1", "last-4", "0 to 2", "2 to 1", "last to 1", "last-9 to 0", "7 to 9", "1 to last-2", "last-1 to last-7", "last-8 to last-6"].map(String::from).to_vec();
    (cells, few)
}

struct Parsed {
    text: String,
    steps: Vec<St>,
    path: PathExpression,
}

fn parsed(v: Vec<String>) -> Vec<Parsed> {
    v.into_iter()
        .map(|text| {
            let steps = pathref::parse(&text).unwrap_or_else(|| panic!("harness: {text} is not a path"));
            let path = text.parse().unwrap_or_else(|e| panic!("{text} is refused: {e}"));
            Parsed { text, steps, path }
        })
        .collect()
}

type PathCheck<'a> = &'a dyn Fn(&Yason, &M, &Parsed, &mut Stats) -> R;

/// Runs a check over the documents and paths; one case is one document with a slice of the paths.
fn over(c: &mut Ctx, docs: &[M], paths: &[Parsed], f: PathCheck) {
    for m in docs {
        for (k, part) in paths.chunks(4000).enumerate() {
            c.case(
                || format!("{} paths from {} on {}", part.len(), part[0].text, m.show()),
                |st| {
                    let _ = k;
                    let y = build::doc(m)?;
                    st.outcome(m.ty().name());
                    for p in part {
                        f(&y, m, p, st).map_err(|e| format!("{} on {}: {e}", p.text, m.show()))?;
                    }
                    st.state(m.hash());
                    Ok(())
                },
            );
        }
    }
}

fn path_spaces(c: &mut Ctx, f: PathCheck) {
    let two = parsed(all_paths(&STEPS, 2, &ENDS));
    let docs = query_docs(c.pick(5, 6), c.pick(3, 4));
    c.family(&format!("every path of up to 2 of {} steps and every end x {} documents", STEPS.len(), docs.len()));
    over(c, &docs, &two, f);
    let docs = big_docs();
    c.family(&format!("every path of up to 3 of {} steps and every end x {} bigger documents", STEPS.len(), docs.len() - 3));
    let three = parsed(all_paths(&STEPS, 3, &ENDS));
    over(c, &docs[..docs.len() - 3], &three, f);
    c.family("every path of up to 2 steps x documents with many elements");
    over(c, &docs[docs.len() - 3..], &two, f);
    let docs = query_docs(c.pick(4, 5), 3);
    c.family(&format!("every path of up to 3 of {} steps and every end x {} documents", STEPS.len(), docs.len()));
    over(c, &docs, &three, f);
    let depth = c.pick(4, 5);
    c.family(&format!("every path of up to {depth} of {} steps x bigger documents", FEW.len()));
    let four = parsed(all_paths(&FEW, depth, &["", ".count()"]));
    let n_big = c.pick(4, big_docs().len() - 3);
    over(c, &big_docs()[..n_big], &four, f);

    let (cells, few) = index_paths();
    let mut texts: Vec<String> = cells.iter().map(|x| format!("$[{x}]")).collect();
    for a in &few {
        for b in &few {
            texts.push(format!("$[{a},{b}]"));
            for d in &few {
                texts.push(format!("$[{a},{b},{d}]"));
            }
        }
    }
    for x in &cells {
        texts.push(format!("$[0,{x}]"));
        texts.push(format!("$[*][{x}]"));
        texts.push(format!("$[{x}].size()"));
        texts.push(format!("$.a[{x}]"));
    }
    let ps = parsed(texts);
    let mut docs: Vec<M> = (0..=8).map(|k| M::Arr((1..=k).map(n).collect())).collect();
    docs.push(n(1));
    docs.push(M::Null);
    docs.push(s("text"));
    docs.push(M::Obj(vec![]));
    docs.push(M::Obj(vec![("a".into(), n(1)), ("b".into(), n(2))]));
    docs.push(M::Obj(vec![("a".into(), M::Arr((1..=5).map(n).collect()))]));
    docs.push(M::Arr(vec![M::Arr((1..=3).map(n).collect()), n(9), M::Arr(vec![]), M::Arr((4..=8).map(n).collect()), M::Obj(vec![("a".into(), n(0))])]));
    docs.push(gen::wide(300, 1));
    c.family(&format!("{} subscript, range and list steps x arrays of every length up to 8 and values that are not arrays", ps.len()));
    over(c, &docs, &ps, f);

    c.family("quoted and unquoted keys");
    let keys = ["a", "A", "a1", "ab", "\u{e9}", " ", "a b", "\\\\", "\\\"", "\\n", "\\t", "\\/", "\\b", "\\f", "\\r", "a.b", "[0]", "*", "$", "0", "count", "size", "type", "last", "to", "日本", "\u{1F600}", ""];
    let mut ps = vec![];
    for k in keys {
        for pre in ["$.", "$..", "$[*].", "$.*."] {
            ps.push(format!("{pre}\"{k}\""));
            if pathref::parse(&format!("{pre}{k}")).is_some() {
                ps.push(format!("{pre}{k}"));
            }
            ps.push(format!("{pre} \"{k}\" .size()"));
        }
    }
    let ps = parsed(ps);
    let mut docs = vec![];
    // keys as spelled in the path, and as a reader of escapes would understand them
    let as_spelled = M::Obj(keys.iter().enumerate().map(|(i, k)| (k.to_string(), n(i as i64))).collect());
    let unescaped = M::Obj(["\\", "\"", "\n", "\t", "/", "\u{8}", "\u{c}", "\r", "a"].iter().enumerate().map(|(i, k)| (k.to_string(), n(i as i64))).collect());
    docs.push(as_spelled.clone());
    docs.push(unescaped.clone());
    docs.push(M::Arr(vec![as_spelled.clone(), unescaped, n(1), M::Arr(vec![as_spelled.clone()])]));
    docs.push(M::Obj(vec![("count".into(), as_spelled), ("a".into(), M::Arr(vec![n(1)]))]));
    over(c, &docs, &ps, f);

    c.family("every encoding class selected by a path");
    let ps = parsed(["$", "$[*]", "$.*", "$.k", "$[1]", "$..k", "$[last]", "$[0]", "$[0].*", "$.k[0]", "$[*].type()", "$.*.type()", "$.type()", "$..b.size()", "$.*[*]", "$[*][*]", "$.a", "$.b"].map(String::from).to_vec());
    let mut docs: Vec<M> = gen::rich().iter().chain(&gen::long_strings().into_iter().map(M::Str).collect::<Vec<_>>()).flat_map(gen::contexts).collect();
    docs.extend(gen::numbers().into_iter().step_by(3).map(|v| M::Arr(vec![M::Num(v), M::Obj(vec![("k".into(), M::Num(v))])])));
    docs.extend(gen::far());
    over(c, &docs, &ps, f);

    let ps = parsed(["$.*", "$[*]", "$..b", "$..k", "$[1]", "$[last]", "$[15]", "$[255]", "$[256]", "$.b", "$.a.*", "$.*.type()", "$[*].size()", "$[last-1,0]", "$[1 to 16]", "$.p", "$..p[0]", "$.cv", "$[*].kk", "$.*[1]"].map(String::from).to_vec());
    let keep = c.pick(3, 1);
    combos(c, &mut thin(keep, &mut |c, mk| {
        c.case(|| format!("{} paths on {}", ps.len(), mk().show()), |st| {
            let m = mk();
            let y = build::doc(&m)?;
            st.outcome("combinations");
            ps.iter().try_for_each(|p| f(&y, &m, p, st).map_err(|e| format!("{}: {e}", p.text)))
        })
    }));
    let (l, marks) = c.pick((600, 65535), (4500, 65535));
    c.family(&format!("names of every length up to {l} and around each boundary, quoted and not"));
    for l in gen::lengths(l, marks) {
        if l == 0 || l > 65533 {
            continue;
        }
        c.case(|| format!("names of {l} bytes"), |st| {
            let t = gen::text(l);
            let near = format!("{}!", &t[..l - 1]);
            let inner = M::Obj(vec![(format!("{t}b"), n(1)), (near.clone(), s("near")), (t.clone(), M::Arr(vec![n(7), M::Obj(vec![(t.clone(), s("in"))])]))]);
            let docs = [inner.clone(), M::Arr(vec![M::Null, inner.clone()]), M::Obj(vec![("0".repeat(l), inner), (near.clone(), M::Null), (format!("{t}a"), n(3))])];
            let ps = parsed(vec![format!("$.{t}"), format!("$.\"{t}\""), format!("$..{t}"), format!("$..\"{t}\".\"{t}\""), format!("$.\"{near}\""), format!("$.{t}a"), format!("$.*.{t}b"), format!("$.\"{t}\"[1].{t}"), format!("$.\"{t}\".count()"), format!("$.{}", &t[..l.max(2) - 1])]);
            for m in &docs {
                let y = build::doc(m)?;
                for p in &ps {
                    f(&y, m, p, st).map_err(|e| format!("{} on {}: {e}", clip(&p.text, 300), m.show()))?;
                }
            }
            st.outcome("long names");
            Ok(())
        });
    }

    c.family("many elements and many results");
    let mut texts: Vec<String> = vec![];
    let ix = ["0", "1", "127", "128", "254", "255", "256", "257", "32767", "32768", "65533", "65534", "65535", "65536", "131071", "last", "last-1", "last-254", "last-255", "last-256", "last-257", "last-32767", "last-65533", "last-65534", "last-65535", "last-65536"];
    for a in ix {
        texts.push(format!("$[{a}]"));
        texts.push(format!("$[*][{a}]"));
        texts.push(format!("$[{a},0]"));
        for b in ix {
            texts.push(format!("$[{a} to {b}].count()"));
            texts.push(format!("$[{a},{b}]"));
        }
    }
    for t in ["$[*]", "$.*", "$..k", "$..a", "$[*][*]", "$.*[*]", "$[*].*", "$.*.*", "$[*][0]", "$[*][last]", "$[*].k", "$[0 to last]", "$[last to 0]", "$[1 to last,0]", "$[0 to last,0 to last]", "$[*][*][*]", "$..k[*]"] {
        for e in ENDS {
            texts.push(format!("{t}{e}"));
        }
    }
    texts.push(format!("$[{}].count()", vec!["*"; 1].join(",")));
    texts.push(format!("$[{}]", (0..300).map(|i| i.to_string()).collect::<Vec<_>>().join(",")));
    texts.push(format!("$[{}].count()", vec!["0 to last"; 300].join(",")));
    texts.push(format!("$[{}].count()", vec!["0,last"; 40000].join(",")));
    let ps = parsed(texts);
    let row = |k: usize, w: usize| M::Arr((0..k).map(|i| if w == 0 { n(1) } else { M::Arr((0..w).map(|j| n((i + j) as i64 % 100)).collect()) }).collect());
    let rows = |k: usize, w: usize| M::Obj((0..k).map(|i| (format!("{i:03}"), M::Obj((0..w).map(|j| (format!("{j:03}"), n(1))).chain([("k".to_string(), n(2))]).collect()))).collect());
    let mut docs: Vec<M> = [253usize, 254, 255, 256, 257, 258, 511, 512, 513].iter().map(|k| gen::wide(*k, 3)).collect();
    docs.extend([gen::wide_obj(256, 3), gen::wide_obj(257, 1), row(256, 1), row(2, 257), row(128, 2), row(257, 256), rows(16, 16), rows(256, 255)]);
    docs.extend([gen::wide(32768, 1), gen::wide(65535, 1)]);
    if !c.quick() {
        docs.extend([gen::wide_obj(65535, 1), row(256, 256), row(300, 300), row(255, 257), row(65535, 1), row(65535, 2), rows(300, 300)]);
    }
    over(c, &docs, &ps, f);

    c.family("deep documents");
    let ps = parsed(["$", "$.k", "$[0]", "$[*]", "$..k", "$.*", "$[last]", "$..k.count()", "$[0][0]", "$.k.k", "$..k[0]", "$[*].k"].map(String::from).to_vec());
    let mut docs = vec![];
    for d in [1usize, 2, 3, 5, 10, 50, 99, 100] {
        docs.extend(gen::deep(d, n(1)));
    }
    over(c, &docs, &ps, f);

    c.family("every depth of arrays around objects, and of objects and arrays by turns");
    let ps = parsed(["$.a", "$.*", "$..a", "$.a.a", "$.a.*", "$.*.a", "$[*].a", "$[0].a", "$[0][0].a", "$[last].*", "$.a[0]", "$.a[*].a", "$..a.a", "$.a.size()", "$.a.count()", "$.a.type()", "$[*][*].a", "$.a.a.a", "$.b", "$.a[last to 0]"].map(String::from).to_vec());
    let mut around = vec![];
    let ob = |k: &str, m: M| M::Obj(vec![(k.into(), m)]);
    for d in 0..=99usize {
        for w in 0..3 {
            // an array of one, of the value between others, of the value twice (at the outermost level)
            let wrap = |m: M, l: usize| match w {
                0 => M::Arr(vec![m]),
                1 => M::Arr(vec![n(l as i64), m, ob("b", n(l as i64))]),
                _ if l + 1 == d => M::Arr(vec![m.clone(), m]),
                _ => M::Arr(vec![m]),
            };
            around.push((0..d).fold(ob("a", n(1)), wrap));
            if d < 98 {
                around.push(ob("a", (0..d).fold(ob("a", n(1)), wrap)));
            }
            if d % 2 == 0 && d < 98 {
                around.push((0..d / 2).fold(ob("a", (0..d / 2).fold(ob("a", s("x")), wrap)), wrap));
            }
        }
        around.push((0..d).fold(ob("a", n(2)), |m, l| if l % 3 == 0 { ob("a", m) } else { M::Arr(vec![m]) }));
    }
    over(c, &around, &ps, f);

    c.family("many steps");
    let mut ps = vec![];
    for k in [5usize, 20, 99, 100, 101] {
        ps.push(format!("${}", "[0]".repeat(k)));
        ps.push(format!("${}", "[*]".repeat(k)));
        ps.push(format!("${}", ".k".repeat(k)));
        ps.push(format!("${}", "[last]".repeat(k)));
        ps.push(format!("${}", "[0].k".repeat(k / 2)));
        ps.push(format!("${}", ".k[0]".repeat(k / 2)));
        ps.push(format!("${}", ".*".repeat(k)));
    }
    over(c, &docs, &parsed(ps), f);
    endless(c, f);
}

/// Paths of so many steps that whatever is done once per step must not be kept on the stack.
fn endless(c: &mut Ctx, f: PathCheck) {
    let units = ["[0]", "[*]", "[last]", "[0 to 0]", "[0, last]", "[0 to 5]", " [ 0 ] ", "[last - 0]", "[5, 0]", "[5 to 0]", "[0,0,0]", "[last-3 to last]"];
    let stop = ["[1]", "[last-1]", "[1 to 2]", "[1,2]"];
    let pre = ["", ".a", "[1]", "[*]", "..a", ".*", "[0]", "[0,1]", ".b.a"];
    let post = ["", "[1]", ".b", "..b", ".*", ".size()", ".type()", ".count()", "[*].count()", "[*].a"];
    let ob = |v: &[(&str, M)]| M::Obj(v.iter().map(|(k, m)| (k.to_string(), m.clone())).collect());
    let docs: Vec<M> = vec![
        n(1),
        s("x"),
        M::Obj(vec![]),
        M::Arr(vec![]),
        ob(&[("a", n(1)), ("b", ob(&[("a", s("y")), ("b", M::Null)]))]),
        M::Arr(vec![n(1), ob(&[("b", n(2)), ("a", M::Arr(vec![n(3)]))]), M::Arr(vec![M::Arr(vec![ob(&[("a", n(4)), ("b", n(5))])])])]),
        ob(&[("a", M::Arr(vec![ob(&[("b", M::Bool(true))]), n(6)])), ("b", M::Arr(vec![ob(&[("a", n(7))])]))]),
        M::Arr(vec![ob(&[("a", ob(&[("a", n(8))]))]), M::Arr(vec![]), M::Arr(vec![ob(&[]), n(9)])]),
    ];
    let ys: Vec<YasonBuf> = docs.iter().map(|m| build::doc(m).expect("document")).collect();
    let long: Vec<usize> = c.pick(vec![1000, 70_000], vec![1000, 40_000, 400_000]);
    c.family(&format!("paths of {long:?} steps on a thread with the usual stack"));
    for len in long {
        // repeated words of one and of two steps, and a word in which the selection ends somewhere
        let mut words: Vec<(String, usize)> = vec![];
        for (i, a) in units.iter().enumerate() {
            words.push((a.to_string(), 1));
            for (j, b) in units.iter().enumerate() {
                if i != j && (len == 1000 || (i + j) % c.pick(7, 2) == 1) {
                    words.push((format!("{a}{b}"), 2));
                }
            }
        }
        for (w, k) in &words {
            for (i, a) in pre.iter().enumerate() {
                for (j, b) in post.iter().enumerate() {
                    if len > 1000 && (len > 70_000 || *k == 2) && (i + j) % c.pick(5, 7) != 0 {
                        continue;
                    }
                    c.case(|| format!("$ {a} {w} x {} {b}", len / k), |st| long_case(format!("${a}{}{b}", w.repeat(len / k)), &docs, &ys, f, st));
                }
            }
            for e in stop {
                c.case(|| format!("$ {w} x {} {e} {w} x {}", len / k / 2, len / k / 2), |st| {
                    let half = w.repeat(len / k / 2);
                    long_case(format!("${half}{e}{half}"), &docs, &ys, f, st)
                });
            }
        }
    }
}

fn long_case(text: String, docs: &[M], ys: &[YasonBuf], f: PathCheck, st: &mut Stats) -> R {
    ctx::on_stack(ctx::COMMON_STACK, || {
        let path: PathExpression = text.parse().map_err(|e| format!("refused: {e}"))?;
        let steps = pathref::parse(&text).ok_or("the reference refuses it")?;
        let p = Parsed { text: clip(&text, 60), path, steps };
        for (m, y) in docs.iter().zip(ys) {
            f(y, m, &p, st).map_err(|e| format!("on {}: {e}", clip(&m.show(), 200)))?;
        }
        st.outcome("very many steps");
        Ok(())
    })
    .and_then(|r| r)
}

pub fn c12(c: &mut Ctx) {
    path_spaces(c, &|y, m, p, st| selects(y, m, &p.path, &p.steps, st));
    c.family("documents in other legal layouts");
    let ps = parsed(all_paths(&STEPS, 1, &ENDS));
    for m in gen::small_vec(4).into_iter().filter(|m| m.is_container()) {
        for l in bnf::Layout::some() {
            c.case(|| format!("paths on {} in layout {l:?}", m.show()), |st| {
                let b = bnf::encode(&m, l);
                let y = unsafe { Yason::new_unchecked(&b) };
                st.outcome("other layout");
                for p in &ps {
                    selects(y, &m, &p.path, &p.steps, st).map_err(|e| format!("{} on {}: {e}", p.text, m.show()))?;
                }
                Ok(())
            });
        }
    }
}

fn exists(y: &Yason, m: &M, p: &Parsed, st: &mut Stats) -> R {
    let got = p.path.exists(y);
    st.step(1);
    if pathref::has_method(&p.steps) {
        return match got {
            Err(YasonError::InvalidPathExpression) => Ok(()),
            Err(e) => Err(format!("exists() with a method fails with {e:?}")),
            Ok(b) => Err(format!("exists() with a method gives {b}")),
        };
    }
    let want = !pathref::eval(&p.steps, m).is_empty();
    match got {
        Ok(b) => {
            ensure!(b == want, "exists() gives {b}");
            // and the library's own selection agrees
            let some = !matches!(p.path.query(y, true, None, None).map_err(q)?, QueriedValue::None);
            ensure!(some == b, "exists() gives {b} but the query selects {}", if some { "something" } else { "nothing" });
            Ok(())
        }
        Err(e) => Err(format!("exists() fails: {e}")),
    }
}

pub fn c13(c: &mut Ctx) {
    path_spaces(c, &exists);
}

// ---- C14 ------------------------------------------------------------------------------------------------

/// The state in which the reused buffers are when the query starts.
#[derive(Clone, Copy, Debug)]
enum Before {
    Fresh,
    /// a query of other values was delivered into them
    Used,
    /// filled by hand
    Junk,
    /// a failing query used them
    Failed,
}

fn list_text(m: &[M], pretty: bool) -> String {
    // the expected text is derived from the library's own text of the elements by the layout rules
    let t = jsonref::render(&M::Arr(m.to_vec()).canonical());
    if pretty {
        jsonref::pretty(&t)
    } else {
        t
    }
}

fn text(v: &QueriedValue, pretty: bool) -> Result<String, String> {
    let mut o = String::new();
    v.format_to(pretty, &mut o).map_err(|e| e.to_string())?;
    Ok(o)
}

/// The formatted result denotes the model (None: nothing).
fn text_is(v: &QueriedValue, m: Option<&M>, what: &str) -> R {
    for pretty in [false, true] {
        let t = text(v, pretty).map_err(|e| format!("{what}: {e}"))?;
        match m {
            None => ensure!(t.is_empty(), "{what}: nothing is selected but it formats as {}", clip(&t, 200)),
            Some(m) => {
                jsonref::parse(&t).and_then(|j| j.is(m)).map_err(|e| format!("{what}: {e} in {} instead of {}", clip(&t, 300), list_text(std::slice::from_ref(m), pretty)))?;
            }
        }
    }
    Ok(())
}

fn deliver(y: &Yason, other: &Yason, m: &M, p: &Parsed, helpers: &[PathExpression], st: &mut Stats) -> R {
    let want = pathref::eval(&p.steps, m);
    let models: Vec<M> = want.iter().map(|s| s.model()).collect();
    let list = M::Arr(models.clone());
    let expect = (!models.is_empty()).then_some(&list);
    let method = pathref::has_method(&p.steps);
    let path = &p.path;

    // a fresh list
    let r = path.query(y, true, None, None).map_err(q)?;
    match &r {
        QueriedValue::None => ensure!(models.is_empty(), "fresh list: nothing instead of {}", list.show()),
        QueriedValue::Values(v) => {
            ensure!(!models.is_empty(), "fresh list: {} instead of nothing", show_values(v));
            values_are(v, &want).map_err(|e| format!("fresh list: {e}"))?
        }
        _ => return Err("fresh list: delivered in another form".into()),
    }
    text_is(&r, expect, "fresh list")?;
    let texts = [text(&r, false)?, text(&r, true)?];
    let same_text = |v: &QueriedValue, what: &str| -> R {
        for pretty in [false, true] {
            let t = text(v, pretty)?;
            ensure!(t == texts[pretty as usize], "{what}: formats as {} instead of {}", clip(&t, 300), clip(&texts[pretty as usize], 300));
        }
        Ok(())
    };
    st.step(1);

    for before in [Before::Fresh, Before::Used, Before::Junk, Before::Failed] {
        let mut vb: Vec<Value> = vec![];
        let mut rb: Vec<u8> = vec![];
        match before {
            Before::Fresh => {}
            Before::Used => {
                for h in helpers {
                    h.query(y, true, Some(&mut vb), Some(&mut rb)).map_err(q)?;
                    h.query(other, true, Some(&mut vb), Some(&mut rb)).map_err(q)?;
                }
            }
            Before::Junk => {
                vb.extend([Value::Null, Value::Bool(true), Value::String("junk")]);
                rb.extend_from_slice(b"\x02junk that is no document");
            }
            Before::Failed => {
                let _ = helpers[0].query(y, false, Some(&mut vb), Some(&mut rb));
                let _ = helpers[1].query(other, false, Some(&mut vb), Some(&mut rb));
            }
        }
        let w = |e: String| format!("{before:?} buffers: {e}");
        {
            let r = path.query(y, true, Some(&mut vb), None).map_err(q)?;
            match &r {
                QueriedValue::None => ensure!(models.is_empty(), "{before:?} query buffer: nothing instead of {}", list.show()),
                QueriedValue::ValuesRef(v) => {
                    ensure!(!models.is_empty(), "{before:?} query buffer: {} instead of nothing", show_values(v));
                    values_are(v, &want).map_err(|e| format!("{before:?} query buffer: {e}"))?
                }
                _ => return Err(w("query buffer: delivered in another form".into())),
            }
            same_text(&r, "query buffer").map_err(w)?;
        }
        for with_query_buf in [false, true] {
            let qb = if with_query_buf { Some(&mut vb) } else { None };
            let r = path.query(y, true, qb, Some(&mut rb)).map_err(q)?;
            match &r {
                QueriedValue::None => ensure!(models.is_empty(), "{before:?} result buffer: nothing instead of {}", list.show()),
                QueriedValue::Yason(d) => {
                    ensure!(!models.is_empty(), "{before:?} result buffer: {} instead of nothing", d.format(false));
                    let dm = bnf::decode(d.as_bytes()).map_err(|e| format!("{before:?} result buffer: not a document: {e}"))?;
                    ensure!(dm.same(&list), "{before:?} result buffer: {} instead of {}", dm.show(), list.show());
                    if list.depth() <= 100 {
                        read::doc(d, &list).map_err(|e| format!("{before:?} result buffer: {e}"))?;
                    }
                }
                _ => return Err(w("result buffer: delivered in another form".into())),
            }
            same_text(&r, "result buffer").map_err(w)?;
        }
        st.step(3);
        // without wrapper
        for mode in 0..4 {
            let qb = if mode & 1 == 1 { Some(&mut vb) } else { None };
            let ob = if mode & 2 == 2 { Some(&mut rb) } else { None };
            let r = path.query(y, false, qb, ob);
            st.step(1);
            let what = format!("{before:?} buffers, without wrapper, mode {mode}");
            if method {
                ensure!(r.is_err(), "{what}: a path with a method is not refused");
                continue;
            }
            match (r, &models[..]) {
                (Ok(v @ QueriedValue::None), []) => text_is(&v, None, &what)?,
                (Ok(v), [one]) => {
                    match &v {
                        QueriedValue::Value(x) => read::is(x, one).map_err(|e| format!("{what}: {e}"))?,
                        QueriedValue::Yason(d) if mode & 2 == 2 => read::doc(d, one).map_err(|e| format!("{what}: {e}"))?,
                        _ => return Err(format!("{what}: the single value is delivered in another form")),
                    }
                    text_is(&v, Some(one), &what)?;
                }
                (Err(YasonError::MultiValuesWithoutWrapper), [_, _, ..]) => {}
                (Err(e), _) => return Err(format!("{what}: {} values selected, fails with {e:?}", models.len())),
                (Ok(_), _) => return Err(format!("{what}: {} values selected, result reported as if not", models.len())),
            }
        }
    }
    st.outcome(match models.len() {
        0 => "nothing selected",
        1 => "one value",
        _ => "several values",
    });
    Ok(())
}

pub fn c14(c: &mut Ctx) {
    let helpers: Vec<PathExpression> = ["$.*", "$[*]", "$..a", "$.count()", "$", "$.missing"].iter().map(|p| p.parse().unwrap()).collect();
    let other = build::doc(&M::Arr(vec![s("left over"), n(123456789), M::Obj(vec![("a".into(), s("left over too")), ("b".into(), M::Arr(vec![M::Null; 9]))])])).expect("document");
    let f: PathCheck = &|y, m, p, st| deliver(y, &other, m, p, &helpers, st);
    let one = parsed(all_paths(&STEPS, 1, &ENDS));
    let two = parsed(all_paths(&FEW, 2, &ENDS));
    let docs = query_docs(c.pick(4, 5), 3);
    c.family(&format!("every path of up to 1 of {} steps and every end x {} documents x buffer histories", STEPS.len(), docs.len()));
    over(c, &docs, &one, f);
    let docs = query_docs(c.pick(3, 4), 3);
    c.family(&format!("every path of up to 2 of {} steps x {} documents x buffer histories", FEW.len(), docs.len()));
    over(c, &docs, &two, f);
    c.family("bigger documents");
    over(c, &big_docs(), &two, f);
    c.family("every encoding class delivered");
    let ps = parsed(["$", "$[*]", "$.*", "$.k", "$[1]", "$[0,0,0]", "$..k", "$[*].type()", "$[*].size()", "$.count()", "$[0 to last]", "$.b"].map(String::from).to_vec());
    let mut docs: Vec<M> = gen::rich().iter().flat_map(gen::contexts).collect();
    docs.extend(gen::numbers().into_iter().map(|v| M::Arr(vec![M::Num(v), n(1)])));
    docs.extend(gen::far());
    for w in [255usize, 256, 300, 1000] {
        docs.push(gen::wide(w, 3));
        docs.push(gen::wide_obj(w, 3));
    }
    over(c, &docs, &ps, f);
    let (l, k) = c.pick((600, 100), (4500, 300));
    let each: Each = &mut |c, mk| {
        c.case(|| format!("{} paths on {}", ps.len(), mk().show()), |st| {
            let m = mk();
            let y = build::doc(&m)?;
            for p in &ps {
                f(&y, &m, p, st).map_err(|e| format!("{}: {e}", p.text))?;
            }
            st.outcome("sizes");
            Ok(())
        })
    };
    sizes(c, l, 131072, k, each);
    giants(c, true, each);
    let keep = c.pick(3, 1);
    combos(c, &mut thin(keep, each));
    c.family("deep documents");
    let mut docs = vec![];
    for d in [1usize, 2, 50, 98, 99, 100] {
        docs.extend(gen::deep(d, s("x")));
    }
    over(c, &docs, &ps, f);
    // long histories of the same buffers: every sequence of queries
    let hist: Vec<Parsed> = parsed(["$", "$[*]", "$.a", "$[*].a", "$.count()", "$.missing", "$..a", "$[*].type()"].map(String::from).to_vec());
    let ds: Vec<M> = [
        M::Arr(vec![n(1), M::Obj(vec![("a".into(), s("x"))]), M::Arr(vec![]), s("tail")]),
        M::Obj(vec![("a".into(), M::Arr(vec![n(5), n(6)])), ("b".into(), M::Null)]),
        s("scalar"),
    ]
    .to_vec();
    let ys: Vec<YasonBuf> = ds.iter().map(|m| build::doc(m).expect("document")).collect();
    let len = c.pick(3, 4);
    c.family(&format!("every sequence of {len} queries reusing the same buffers"));
    let total = ds.len() * hist.len() * 2;
    for i in 0..total.pow(len as u32) {
        c.case(
            || format!("sequence number {i} of queries reusing buffers"),
            |st| {
                let mut vb: Vec<Value> = vec![];
                let mut rb: Vec<u8> = vec![];
                let mut k = i;
                let mut done = String::new();
                for _ in 0..len {
                    let (d, p, wrap) = (k % ds.len(), (k / ds.len()) % hist.len(), (k / ds.len() / hist.len()) % 2 == 0);
                    k /= total;
                    let p = &hist[p];
                    done.push_str(&format!(" {} {}on {};", p.text, if wrap { "with wrapper " } else { "" }, ds[d].show()));
                    let want = pathref::eval(&p.steps, &ds[d]);
                    let models: Vec<M> = want.iter().map(|s| s.model()).collect();
                    let r = p.path.query(&ys[d], wrap, Some(&mut vb), Some(&mut rb));
                    st.step(1);
                    let bad = |x: &str| Err(format!("after{done} {x}"));
                    if !wrap {
                        match (r, &models[..]) {
                            (Err(_), _) if pathref::has_method(&p.steps) => {}
                            (Ok(QueriedValue::None), []) => {}
                            (Ok(QueriedValue::Value(v)), [m]) => read::is(&v, m).map_err(|e| format!("after{done} {e}"))?,
                            (Ok(QueriedValue::Yason(v)), [m]) => read::doc(v, m).map_err(|e| format!("after{done} {e}"))?,
                            (Err(YasonError::MultiValuesWithoutWrapper), [_, _, ..]) => {}
                            _ => return bad("the result is wrong"),
                        }
                        continue;
                    }
                    match r.map_err(q)? {
                        QueriedValue::None => ensure!(models.is_empty(), "after{done} nothing"),
                        QueriedValue::Yason(d) => {
                            let dm = bnf::decode(d.as_bytes()).map_err(|e| format!("after{done} {e}"))?;
                            ensure!(dm.same(&M::Arr(models)), "after{done} {}", dm.show());
                        }
                        _ => return bad("delivered in another form"),
                    }
                }
                st.outcome("sequence");
                st.state(i as u64);
                Ok(())
            },
        );
    }
}
