//! C08 formatted output is JSON for the same document, C21 the pretty layout.
use super::json::words;
use super::*;
use crate::bnf;
use crate::build;
use crate::ctx::{clip, Stats, R};
use crate::ensure;
use crate::jsonref;
use crate::read;
use std::fmt::Write;
use yason::{FormatError, PathExpression, QueriedValue, Value, Yason, YasonBuf};

fn f(what: &str) -> impl Fn(FormatError) -> String + '_ {
    move |e| format!("{what}: {e}")
}

/// The text in one style through every entry point, all agreeing.
fn formatted(y: &Yason, pretty: bool, st: &mut Stats) -> Result<String, String> {
    let mut a = String::from("before");
    y.format_to(pretty, &mut a).map_err(f("format_to"))?;
    let Some(a) = a.strip_prefix("before") else { return Err("format_to changed what was written before".into()) };
    let a = a.to_string();
    let b = y.format(pretty).to_string();
    ensure!(a == b, "format_to gives {} and format gives {}", clip(&a, 400), clip(&b, 400));
    let lazy = y.format(pretty);
    let mut c = String::new();
    write!(c, "{lazy}|{lazy}").map_err(|e| e.to_string())?;
    ensure!(c.len() == 2 * a.len() + 1 && c.starts_with(&a) && c.ends_with(&a), "the same lazy format displays differently the second time");
    let v = Value::try_from(y).map_err(|e| e.to_string())?;
    let mut d = String::new();
    QueriedValue::Value(v).format_to(pretty, &mut d).map_err(f("query value"))?;
    ensure!(a == d, "format_to gives {} and the query value gives {}", clip(&a, 400), clip(&d, 400));
    let mut d = String::new();
    QueriedValue::Yason(y).format_to(pretty, &mut d).map_err(f("query document"))?;
    ensure!(a == d, "format_to gives {} and the query document gives {}", clip(&a, 400), clip(&d, 400));
    st.step(5);
    Ok(a)
}

/// Compact output without insignificant whitespace.
fn tight(t: &str) -> R {
    for tok in jsonref::tokens(t) {
        ensure!(tok.starts_with('"') || !tok.contains(char::is_whitespace), "compact output has insignificant whitespace: {}", clip(t, 400));
    }
    Ok(())
}

fn denotes(t: &str, m: &M) -> R {
    jsonref::parse(t)
        .map_err(|e| format!("not JSON ({e}): {}", clip(t, 600)))?
        .is(m)
        .map_err(|e| format!("{e} in {}", clip(t, 600)))
}

fn output(y: &Yason, m: &M, st: &mut Stats) -> R {
    st.state(m.hash());
    let compact = formatted(y, false, st)?;
    denotes(&compact, m).map_err(|e| format!("compact: {e}"))?;
    tight(&compact)?;
    let pretty = formatted(y, true, st)?;
    denotes(&pretty, m).map_err(|e| format!("pretty: {e}"))?;
    // as an element of a list of query results
    for p in [false, true] {
        let v = || Value::try_from(y).map_err(|e| e.to_string());
        let vs = vec![v()?, Value::Null, v()?];
        let want = M::Arr(vec![m.clone(), M::Null, m.clone()]);
        let mut a = String::new();
        QueriedValue::Values(vs.clone()).format_to(p, &mut a).map_err(f("values"))?;
        denotes(&a, &want).map_err(|e| format!("list of values: {e}"))?;
        if !p {
            tight(&a)?;
        }
        let mut vs = vs;
        let mut b = String::new();
        QueriedValue::ValuesRef(&mut vs).format_to(p, &mut b).map_err(f("values by reference"))?;
        ensure!(a == b, "the list of values formats as {} by value and {} by reference", clip(&a, 400), clip(&b, 400));
    }
    st.step(4);
    if m.importable() {
        for t in [&compact, &pretty] {
            let z = YasonBuf::parse(t).map_err(|e| format!("parsing {} back: {e}", clip(t, 400)))?;
            read::doc(&z, m).map_err(|e| format!("parsed back: {e}"))?;
            ensure!(matches!(y.equals(&z), Ok(true)), "the document parsed back from {} is not equal", clip(t, 400));
        }
        st.step(2);
    }
    Ok(())
}

pub fn c08(c: &mut Ctx) {
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(|| format!("format {}", mk().show()), |st| {
            let m = mk();
            st.outcome(m.ty().name());
            output(&*build::doc(&m)?, &m, st)
        });
    };
    let max = c.pick(5, 6);
    small(c, max, &mut |c, mk| run(c, mk));
    rich(c, &mut |c, mk| run(c, mk));
    let w = c.pick(4096, 65535);
    wide(c, w, &mut |c, mk| run(c, mk));
    deep(c, &mut |c, mk| run(c, mk));
    let (l, k) = c.pick((1100, 150), (9000, 600));
    sizes(c, l, 131072, k, &mut |c, mk| run(c, mk));
    giants(c, true, &mut |c, mk| run(c, mk));
    combos(c, &mut |c, mk| run(c, mk));
    c.family("documents in other legal layouts");
    for m in gen::small_vec(4).into_iter().filter(|m| m.is_container()) {
        for l in bnf::Layout::some() {
            c.case(|| format!("format {} in layout {l:?}", m.show()), |st| {
                st.outcome("other layout");
                let b = bnf::encode(&m, l);
                output(unsafe { Yason::new_unchecked(&b) }, &m, st)
            });
        }
    }

    let (low, high) = c.pick((1050, 20), (5000, 22));
    c.family(&format!("runs of plain characters of every length up to {low}, and around powers of two up to 2^{high}, before, between and after escaped ones"));
    let mut runs: Vec<usize> = (0..=low).collect();
    runs.extend((10..=high).flat_map(|e| (1usize << e) - 2..=(1 << e) + 2).filter(|l| *l > low));
    for l in runs {
        for esc in ["\"", "\\", "\n", "\0", "\u{1f}"] {
            if l > 70_000 && esc != "\"" {
                continue;
            }
            c.case(|| format!("{l} plain characters before, between and after {esc:?}"), |st| {
                let t = gen::text(l);
                st.outcome("long run");
                let mut v = vec![s(&format!("{t}{esc}")), s(&format!("{esc}{t}")), s(&format!("{esc}{t}{esc}{}", &t[..l.min(7)]))];
                if l > 0 && l < 65_530 {
                    v.push(M::Obj(vec![(format!("{t}{esc}"), n(1)), (format!("{esc}{t}{esc}b"), s(&t)), ("".into(), M::Null)]));
                }
                for m in v {
                    let y = build::doc(&m)?;
                    for pretty in [false, true] {
                        denotes(&formatted(&y, pretty, st)?, &m)?;
                    }
                }
                Ok(())
            });
        }
    }

    c.family("every Unicode character as a value, as a key and inside text");
    for block in 0..0x1100u32 {
        c.case(|| format!("256 characters from U+{:04X}", block * 256), |st| {
            let mut all = String::new();
            for ch in (block * 256..block * 256 + 256).filter_map(char::from_u32) {
                all.push(ch);
                let m = M::Obj(vec![(ch.to_string(), s(&ch.to_string())), (format!("a{ch}b"), s(&format!("{ch}{ch}x{ch}")))]);
                let y = build::doc(&m)?;
                let t = formatted(&y, false, st)?;
                denotes(&t, &m)?;
                denotes(&formatted(&y, true, st)?, &m)?;
                let z = YasonBuf::parse(&t).map_err(|e| format!("parsing {t} back: {e}"))?;
                ensure!(*z == *y, "{t} parses to another document");
                st.step(1);
            }
            let m = M::Arr(vec![s(&all), M::Obj(vec![(all.clone(), M::Null)])]);
            st.outcome("characters");
            output(&*build::doc(&m)?, &m, st)
        });
    }
    let mut care: Vec<String> = (0u32..0x20).map(|c| char::from_u32(c).unwrap().to_string()).collect();
    care.extend(["\"", "\\", "/", "\u{7f}", "a", "u", "0", "é", "\u{2028}", "\u{ffff}", "\u{10ffff}"].map(String::from));
    let pairs: Vec<&str> = care.iter().map(|s| s.as_str()).collect();
    let len = 3;
    c.family(&format!("every text of up to {len} of the control and special characters"));
    words(&pairs, len, &mut |t| {
        c.case(|| format!("format the string {t:?}"), |st| {
            let m = M::Obj(vec![(t.to_string(), s(t))]);
            let y = build::doc(&m)?;
            let o = formatted(&y, false, st)?;
            denotes(&o, &m)?;
            denotes(&formatted(&y, true, st)?, &m)?;
            let z = YasonBuf::parse(&o).map_err(|e| format!("parsing {o} back: {e}"))?;
            ensure!(*z == *y, "{o} parses to another document");
            st.outcome("special characters");
            Ok(())
        });
    });
    c.family("special characters at every position of texts around the length boundaries");
    for l in [1usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
        for ch in ["\"", "\\", "/", "\n", "\0", "\u{1f}", "é", "\u{10ffff}"] {
            for at in 0..=l {
                run(c, &|| {
                    let t = format!("{}{ch}{}", "x".repeat(at), "y".repeat(l - at));
                    M::Obj(vec![(t.clone(), s(&t))])
                });
            }
        }
    }

    c.family("coefficients x scales x signs");
    let mut coefs: Vec<u128> = vec![0, 1, 5, 10, 12, 100, 1234, 1000000, 123456789012345678, 10u128.pow(37), 10u128.pow(38) - 1, 12345678901234567890123456789012345678];
    coefs.extend(c.pick(vec![], (1..37).map(|k| 10u128.pow(k) + 7).collect()));
    for coef in coefs {
        for scale in -130i16..=170 {
            for neg in [false, true] {
                if yason::Number::from_parts(coef, scale, neg).is_ok() {
                    run(c, &|| {
                        let v = M::Num(crate::model::Nm::new(coef, scale, neg));
                        M::Arr(vec![v.clone(), M::Obj(vec![("k".into(), v)])])
                    });
                    run(c, &|| M::Num(crate::model::Nm::new(coef, scale, neg)));
                }
            }
        }
    }
    c.family("keys that the JSON reader treats specially");
    run(c, &|| M::Obj(vec![("$serde_json::private::Number".into(), s("1"))]));
    run(c, &|| M::Obj(vec![("$serde_json::private::RawValue".into(), s("1"))]));
}

// ---- C21 ------------------------------------------------------------------------------------------------

fn laid_out(y: &Yason, m: &M, st: &mut Stats) -> R {
    st.state(m.hash());
    let compact = y.format(false).to_string();
    let want = jsonref::pretty(&compact);
    let got = formatted(y, true, st)?;
    ensure!(got == want, "pretty output is\n{}\ninstead of\n{}", clip(&got, 1500), clip(&want, 1500));
    // again after other formatting, complete and broken off
    let mut junk = String::new();
    let _ = write!(Stop(7), "{}", y.format(true));
    let _ = write!(junk, "{}", y.format(false));
    let again = y.format(true).to_string();
    ensure!(again == want, "pretty output changed after other formatting");
    st.step(3);
    Ok(())
}

/// A writer that fails after some bytes.
struct Stop(usize);
impl std::fmt::Write for Stop {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

fn lists(y: &Yason, paths: &[(&str, PathExpression)], st: &mut Stats) -> R {
    for (t, p) in paths {
        let e = |e: yason::YasonError| format!("{t}: {e}");
        let text = |q: &QueriedValue, pretty: bool| -> Result<String, String> {
            let mut o = String::new();
            q.format_to(pretty, &mut o).map_err(f("format_to"))?;
            Ok(o)
        };
        let q = p.query(y, true, None, None).map_err(e)?;
        let compact = text(&q, false)?;
        let want = jsonref::pretty(&compact);
        let check = |q: &QueriedValue, what: &str| -> R {
            let got = text(q, true)?;
            ensure!(got == want, "{t} {what}: pretty output is\n{}\ninstead of\n{}", clip(&got, 800), clip(&want, 800));
            Ok(())
        };
        check(&q, "values")?;
        let mut vb = vec![];
        check(&p.query(y, true, Some(&mut vb), None).map_err(e)?, "values in a buffer")?;
        let mut rb = vec![];
        check(&p.query(y, true, None, Some(&mut rb)).map_err(e)?, "document")?;
        if let Ok(q) = p.query(y, false, None, None) {
            let compact = text(&q, false)?;
            let got = text(&q, true)?;
            let want = jsonref::pretty(&compact);
            ensure!(got == want, "{t} single value: pretty output is\n{}\ninstead of\n{}", clip(&got, 800), clip(&want, 800));
        }
        st.step(4);
    }
    Ok(())
}

pub fn c21(c: &mut Ctx) {
    let paths: Vec<(&str, PathExpression)> =
        ["$", "$.*", "$[*]", "$.a", "$..a", "$[0]", "$[*][*]", "$[0,last]", "$.size()", "$[*].type()", "$.count()"].into_iter().map(|p| (p, p.parse().unwrap())).collect();
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(|| format!("pretty {}", mk().show()), |st| {
            let m = mk();
            st.outcome(m.ty().name());
            let y = build::doc(&m)?;
            laid_out(&y, &m, st)?;
            lists(&y, &paths, st)
        });
    };
    let max = c.pick(5, 6);
    small(c, max, &mut |c, mk| run(c, mk));
    rich(c, &mut |c, mk| run(c, mk));
    let w = c.pick(4096, 65535);
    wide(c, w, &mut |c, mk| run(c, mk));
    deep(c, &mut |c, mk| run(c, mk));
    let (l, k) = c.pick((1100, 150), (9000, 600));
    sizes(c, l, 131072, k, &mut |c, mk| run(c, mk));
    giants(c, true, &mut |c, mk| run(c, mk));
    combos(c, &mut |c, mk| run(c, mk));
    c.family("chains of every depth up to 100");
    for d in 1..=100 {
        for m in gen::deep(d, if d < 100 { M::Arr(vec![]) } else { n(1) }) {
            run(c, &|| m.clone());
        }
        for m in gen::deep(d, s("x")) {
            run(c, &|| M::Arr(vec![n(1), m.clone()]).depth().le(&100).then(|| M::Arr(vec![n(1), m.clone(), M::Obj(vec![])])).unwrap_or(m.clone()));
        }
    }
    c.family("strings that look like layout");
    for t in ["{", "}", "[", "]", ",", ":", " : ", "\n", "  ", "{\"a\" : 1}", "\",\"", "\\", "\\\"", "[\n]", "\u{2028}"] {
        for m in gen::contexts(&s(t)) {
            run(c, &|| m.clone());
        }
        run(c, &|| M::Obj(vec![(t.to_string(), M::Obj(vec![(t.to_string(), M::Arr(vec![s(t)]))]))]));
    }
    c.family("documents in other legal layouts");
    for m in gen::small_vec(4).into_iter().filter(|m| m.is_container()) {
        for l in bnf::Layout::some() {
            c.case(|| format!("pretty {} in layout {l:?}", m.show()), |st| {
                st.outcome("other layout");
                let b = bnf::encode(&m, l);
                laid_out(unsafe { Yason::new_unchecked(&b) }, &m, st)
            });
        }
    }
}
