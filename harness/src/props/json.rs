//! C07 importing JSON, C15 serde round trips.
use super::limits::tree;
use super::*;
use crate::bnf;
use crate::build;
use crate::ctx::{clip, Stats, R};
use crate::ensure;
use crate::jsonref::{self, J};
use crate::read;
use yason::{BuildError, Yason, YasonBuf};

const PREFIX: &[u8] = &[7, 0, 255];

/// The verdict on a text: None if it must be refused.
fn meaning(text: &str) -> Option<M> {
    let j: J = jsonref::parse(text).ok()?;
    let m = j.import().ok()?;
    (m.depth() <= 100).then_some(m)
}

/// Imports through every route; the result or None. All routes must agree.
fn import(text: &str, st: &mut Stats) -> Result<Option<YasonBuf>, String> {
    let a = YasonBuf::parse(text);
    let mut buf = PREFIX.to_vec();
    let b = Yason::parse_to(&mut buf, text).map(|y| y.as_bytes().to_vec());
    ensure!(buf.starts_with(PREFIX), "{text}: parse_to changed the bytes before the document");
    if let Ok(b) = &b {
        ensure!(buf[PREFIX.len()..] == b[..], "{text}: parse_to returns something else than it appended");
    }
    st.step(3);
    match serde_json::from_str::<serde_json::Value>(text) {
        Ok(v) => {
            let c = YasonBuf::try_from(&v);
            match (a, b, c) {
                (Ok(a), Ok(b), Ok(c)) => {
                    ensure!(a.as_bytes() == b, "{text}: parse and parse_to give other bytes");
                    ensure!(a.as_bytes() == c.as_bytes(), "{text}: parse and try_from give other bytes");
                    Ok(Some(a))
                }
                (Err(a), Err(b), Err(c)) => {
                    let (a, b, c) = (a.to_string(), b.to_string(), c.to_string());
                    ensure!(a == b && b == c, "{text}: the routes refuse it differently: {a}; {b}; {c}");
                    Ok(None)
                }
                (a, b, c) => Err(format!(
                    "{text}: accepted by parse: {}, parse_to: {}, try_from: {}",
                    a.is_ok(),
                    b.is_ok(),
                    c.is_ok()
                )),
            }
        }
        Err(_) => {
            ensure!(matches!(a, Err(BuildError::JsonError(_))), "{text}: parse gives {:?}", a.map(|_| ()));
            ensure!(matches!(b, Err(BuildError::JsonError(_))), "{text}: parse_to gives {:?}", b.map(|_| ()));
            Ok(None)
        }
    }
}

/// The text against the independent reader.
pub fn text(t: &str, st: &mut Stats) -> R {
    let want = meaning(t);
    let got = import(t, st)?;
    match (want, got) {
        (None, None) => {
            st.outcome("refused");
            Ok(())
        }
        (None, Some(y)) => Err(format!("{}: accepted as {}", clip(t, 400), y.format(false))),
        (Some(_), None) => Err(format!("{}: refused ({})", clip(t, 400), YasonBuf::parse(t).err().unwrap())),
        (Some(m), Some(y)) => {
            st.state(m.hash());
            st.outcome("accepted");
            read::doc(&y, &m).map_err(|e| format!("{}: {e}", clip(t, 400)))?;
            let d = bnf::decode(y.as_bytes()).map_err(|e| format!("{}: {e}", clip(t, 400)))?;
            ensure!(d.same(&m), "{}: imported as {} instead of {}", clip(t, 400), d.show(), m.show());
            Ok(())
        }
    }
}

pub fn words(alphabet: &[&str], len: usize, f: &mut dyn FnMut(&str)) {
    fn go(a: &[&str], len: usize, cur: &mut String, f: &mut dyn FnMut(&str)) {
        f(cur);
        if len == 0 {
            return;
        }
        for t in a {
            let l = cur.len();
            cur.push_str(t);
            go(a, len - 1, cur, f);
            cur.truncate(l);
        }
    }
    go(alphabet, len, &mut String::new(), f)
}

/// How strings are spelled.
#[derive(Clone, Copy, Debug)]
enum Spell {
    Plain,
    Short,
    Lower,
    Upper,
    Mixed,
}
const SPELLS: [Spell; 5] = [Spell::Plain, Spell::Short, Spell::Lower, Spell::Upper, Spell::Mixed];

fn spell(s: &str, how: Spell, out: &mut String) {
    let unit = |c: char, upper: bool, out: &mut String| {
        let mut b = [0; 2];
        for u in c.encode_utf16(&mut b) {
            out.push_str(&if upper { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") });
        }
    };
    out.push('"');
    for (i, c) in s.chars().enumerate() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        match (how, short) {
            (Spell::Lower, _) => unit(c, false, out),
            (Spell::Upper, _) => unit(c, true, out),
            (Spell::Mixed, _) if i % 2 == 0 => unit(c, true, out),
            (Spell::Short | Spell::Mixed, Some(e)) => out.push_str(e),
            _ if c == '"' || c == '\\' || (c as u32) < 0x20 => unit(c, false, out),
            _ => out.push(c),
        }
    }
    out.push('"');
}

/// Renders with the given spelling, member order (0 listed, 1 reversed, 2 document order) and gap filler.
fn variant(m: &M, how: Spell, order: usize, ws: &str, out: &mut String) {
    match m {
        M::Str(s) => spell(s, how, out),
        M::Arr(v) => {
            out.push('[');
            out.push_str(ws);
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(ws);
                    out.push(',');
                    out.push_str(ws);
                }
                variant(e, how, order, ws, out);
            }
            out.push_str(ws);
            out.push(']');
        }
        M::Obj(v) => {
            let mut idx: Vec<usize> = (0..v.len()).collect();
            match order {
                1 => idx.reverse(),
                2 => idx = crate::model::member_order(v),
                _ => {}
            }
            out.push('{');
            out.push_str(ws);
            for (i, x) in idx.into_iter().enumerate() {
                if i > 0 {
                    out.push_str(ws);
                    out.push(',');
                    out.push_str(ws);
                }
                spell(&v[x].0, how, out);
                out.push_str(ws);
                out.push(':');
                out.push_str(ws);
                variant(&v[x].1, how, order, ws, out);
            }
            out.push_str(ws);
            out.push('}');
        }
        m => out.push_str(&jsonref::render(m)),
    }
}

/// All spellings of one document give identical bytes, which denote it.
fn variants(m: &M, st: &mut Stats) -> R {
    spelled(m, 3, st)
}

fn spelled(m: &M, kinds: usize, st: &mut Stats) -> R {
    if !m.importable() {
        return Ok(());
    }
    let base = jsonref::render(m);
    text(&base, st)?;
    let want = YasonBuf::parse(&base).map_err(|e| e.to_string())?;
    let same = |t: &str, y: Result<YasonBuf, BuildError>| -> R {
        let y = y.map_err(|e| format!("{}: {e}", clip(t, 600)))?;
        ensure!(y.as_bytes() == want.as_bytes(), "{} and {} give other bytes", clip(&base, 600), clip(t, 600));
        Ok(())
    };
    for how in SPELLS {
        for order in (0..3).rev().take(kinds) {
            for ws in ["", " ", "\r\n\t "].into_iter().rev().take(kinds) {
                let mut t = String::from(ws);
                variant(m, how, order, ws, &mut t);
                t.push_str(ws);
                same(&t, YasonBuf::parse(&t))?;
                st.step(1);
            }
        }
    }
    let mut buf = vec![];
    let mut t = String::new();
    variant(m, Spell::Lower, 1, "\n", &mut t);
    Yason::parse_to(&mut buf, &t).map_err(|e| e.to_string())?;
    ensure!(buf == want.as_bytes(), "parse_to gives other bytes for {}", clip(&t, 600));
    same("the JSON value", YasonBuf::try_from(&tree(m)))?;
    st.step(2);
    Ok(())
}

pub fn c07(c: &mut Ctx) {
    let toks = ["[", "]", "{", "}", ",", ":", "1", "-", "\"a\"", "\"b\"", "null", "true", "false", " "];
    let len = c.pick(5, 6);
    c.family(&format!("every sequence of up to {len} of the tokens {toks:?}"));
    words(&toks, len, &mut |t| c.case(|| format!("JSON text {t:?}"), |st| text(t, st)));
    let toks = ["[", "]", "{", "}", ",", ":", "\"a\"", "1"];
    let len = c.pick(7, 8);
    c.family(&format!("every sequence of up to {len} of the tokens {toks:?}"));
    words(&toks, len, &mut |t| c.case(|| format!("JSON text {t:?}"), |st| text(t, st)));

    let chars = ["\"", "\\", "u", "0", "d", "8", "n", "b", "/", "é", "\n", "\u{7f}", "U"];
    let len = c.pick(4, 6);
    c.family(&format!("every string of up to {len} of the characters {chars:?} as the inside of a string"));
    words(&chars, len, &mut |t| {
        let t = format!("\"{t}\"");
        c.case(|| format!("JSON text {t:?}"), |st| text(&t, st));
    });
    let chars = ["n", "u", "l", "t", "r", "e", "N", "f", "a", "s", "\u{0}"];
    let len = c.pick(4, 5);
    c.family(&format!("every string of up to {len} of the characters {chars:?}"));
    words(&chars, len, &mut |t| c.case(|| format!("JSON text {t:?}"), |st| text(t, st)));

    c.family("every \\uXXXX escape, alone, in a key, and followed by another");
    for block in 0..256u32 {
        c.case(|| format!("\\u{block:02x}00 to \\u{block:02x}ff"), |st| {
            for u in block * 256..block * 256 + 256 {
                text(&format!("\"\\u{u:04x}\""), st)?;
                text(&format!("[\"a\\u{u:04X}b\"]"), st)?;
                text(&format!("{{\"\\u{u:04x}\":\"\\u{u:04x}\",\"a\":1}}"), st)?;
                text(&format!("\"\\u{u:04x}\\u0041\""), st)?;
            }
            Ok(())
        });
    }
    c.family("pairs of \\uXXXX escapes around the surrogate ranges");
    let edge = [0x0041u32, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xde00, 0xdffe, 0xdfff, 0xe000, 0xffff, 0];
    for a in edge {
        for b in edge {
            for mid in ["", "x", " ", "\\", "\\n"] {
                let t = format!("\"\\u{a:04x}{mid}\\u{b:04x}\"");
                c.case(|| format!("JSON text {t}"), |st| text(&t, st));
            }
        }
    }
    c.family("every character beyond the basic plane as a surrogate pair");
    for block in 0..256u32 {
        c.case(|| format!("4096 characters from U+{:X}", 0x10000 + block * 4096), |st| {
            let mut t = String::from("\"");
            let mut want = String::new();
            for cp in 0x10000 + block * 4096..0x10000 + (block + 1) * 4096 {
                let ch = char::from_u32(cp).unwrap();
                let mut b = [0; 2];
                for u in ch.encode_utf16(&mut b) {
                    t.push_str(&format!("\\u{u:04x}"));
                }
                want.push(ch);
            }
            t.push('"');
            let y = YasonBuf::parse(&t).map_err(|e| e.to_string())?;
            ensure!(y.string().map_err(|e| e.to_string())? == want, "escaped characters read back differently");
            let y = YasonBuf::parse(format!("\"{want}\"")).map_err(|e| e.to_string())?;
            ensure!(y.string().map_err(|e| e.to_string())? == want, "characters read back differently");
            st.step(2);
            Ok(())
        });
    }
    c.family("every character of the basic plane as it is");
    for block in 0..256u32 {
        c.case(|| format!("256 characters from U+{:04X}", block * 256), |st| {
            for cp in block * 256..block * 256 + 256 {
                if let Some(ch) = char::from_u32(cp) {
                    text(&format!("\"{ch}\""), st)?;
                    text(&format!("{{\"x{ch}y\":[\"{ch}\"]}}"), st)?;
                    text(&format!("{ch}1"), st)?;
                    text(&format!("[1{ch}]"), st)?;
                    text(&format!("[1,{ch}2]"), st)?;
                }
            }
            Ok(())
        });
    }

    c.family("one filler in each gap of a text");
    let fillers = ["", " ", "\t", "\n", "\r", " \r\n\t ", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\0", "\u{85}", "\u{2028}", "/**/", "//\n", "#"];
    let parts: [&[&str]; 6] = [
        &["[", "1", ",", "\"a b\"", ",", "null", "]"],
        &["{", "\"a\"", ":", "1", ",", "\"b\"", ":", "[", "]", "}"],
        &["[", "{", "}", ",", "[", "[", "]", "]", ",", "true", "]"],
        &["-1.5e3"],
        &["\"x\""],
        &["{", "\"\"", ":", "{", "\"a\"", ":", "false", "}", "}"],
    ];
    for p in parts {
        for gap in 0..=p.len() {
            for f in fillers {
                let mut t = String::new();
                for (i, x) in p.iter().enumerate() {
                    if i == gap {
                        t.push_str(f);
                    }
                    t.push_str(x);
                }
                if gap == p.len() {
                    t.push_str(f);
                }
                c.case(|| format!("JSON text {t:?}"), |st| text(&t, st));
            }
        }
    }

    c.family("every one-character change of some texts");
    let texts = [
        r#"{"a":[1,-2.5e+10,"x\n\u00e9"],"bb":{"":null,"c":true},"d":false}"#,
        r#"[[],{},[{"k":[0]}],"\ud83d\ude00",1e-7,-0]"#,
        r#""\"\\\/\b\f\n\r\t\u0041""#,
        r#"  {"n" : 12345678901234567890123456789012345678.9 }  "#,
    ];
    let alphabet = ["\"", "\\", "[", "]", "{", "}", ",", ":", "0", "9", "-", "+", ".", "e", "n", "t", " ", "\u{1}", "é", "u", "a", "\n"];
    for base in texts {
        let ch: Vec<char> = base.chars().collect();
        for i in 0..=ch.len() {
            let (a, b): (String, String) = (ch[..i].iter().collect(), ch[i..].iter().collect());
            c.case(|| format!("JSON text {a:?}"), |st| text(&a, st));
            let rest: String = b.chars().skip(1).collect();
            c.case(|| format!("JSON text {:?}", format!("{a}{rest}")), |st| text(&format!("{a}{rest}"), st));
            for x in alphabet {
                c.case(|| format!("JSON text {:?}", format!("{a}{x}{b}")), |st| text(&format!("{a}{x}{b}"), st));
                c.case(|| format!("JSON text {:?}", format!("{a}{x}{rest}")), |st| text(&format!("{a}{x}{rest}"), st));
            }
        }
    }

    let len = c.pick(5, 6);
    c.family(&format!("every sequence of up to {len} members with repeated keys in different spellings"));
    let keys = ["\"a\"", "\"\\u0061\"", "\"b\"", "\"aa\"", "\"\""];
    let vals = ["null", "1", "\"s\"", "[2]", "{\"a\":3,\"a\":4}", "true", "1e200"];
    fn dup(keys: &[&str], vals: &[&str], left: usize, n: usize, cur: &mut Vec<String>, f: &mut dyn FnMut(&str)) {
        if n > 0 {
            f(&format!("{{{}}}", cur.join(",")));
        }
        if left == 0 {
            return;
        }
        for (i, k) in keys.iter().enumerate() {
            cur.push(format!("{k}:{}", vals[(n * 3 + i * 2) % vals.len()]));
            dup(keys, vals, left - 1, n + 1, cur, f);
            cur.pop();
        }
    }
    dup(&keys, &vals, len, 0, &mut vec![], &mut |t| c.case(|| format!("JSON text {t}"), |st| text(t, st)));
    for count in [10usize, 1000, 65535, 65536, 70000] {
        c.case(|| format!("{count} members with the same key"), |st| {
            let body: Vec<String> = (0..count).map(|i| format!("\"k\":{i}")).collect();
            text(&format!("{{{}}}", body.join(",")), st)
        });
    }
    c.family("a key that the JSON reader treats specially");
    for t in [
        r#"{"$serde_json::private::Number":"1"}"#,
        r#"{"$serde_json::private::Number":1}"#,
        r#"{"$serde_json::private::Number":"x"}"#,
    ] {
        c.case(|| format!("JSON text {t}"), |st| text(t, st));
    }
    for t in [r#"{"a":1,"$serde_json::private::Number":"1"}"#, r#"{"$serde_json::private::RawValue":"1"}"#, r#"["$serde_json::private::Number"]"#] {
        c.case(|| format!("JSON text {t}"), |st| text(t, st));
    }

    c.family("nesting of texts");
    for d in [1usize, 2, 99, 100, 101, 102, 126, 127, 128, 129, 200, 5000] {
        for (open, close) in [("[", "]"), ("{\"a\":", "}"), ("[{\"k\":", "}]")] {
            for leaf in ["1", "", "[]", "{}"] {
                let n = if open.len() > 5 { d / 2 } else { d };
                let t = format!("{}{leaf}{}", open.repeat(n), close.repeat(n));
                if d <= 200 {
                    c.case(|| format!("JSON text {}", clip(&t, 100)), |st| text(&t, st));
                } else {
                    c.case(|| format!("JSON text {}", clip(&t, 100)), |st| {
                        ensure!(import(&t, st)?.is_none(), "accepted");
                        Ok(())
                    });
                }
                c.case(|| format!("unclosed JSON text {}", clip(&t, 100)), |st| {
                    ensure!(import(&open.repeat(n), st)?.is_none(), "accepted");
                    Ok(())
                });
            }
        }
    }

    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(|| format!("every spelling of {}", mk().show()), |st| variants(&mk(), st));
    };
    let max = c.pick(4, 5);
    small(c, max, &mut |c, mk| run(c, mk));
    rich(c, &mut |c, mk| run(c, mk));
    let w = c.pick(300, 65535);
    wide(c, w, &mut |c, mk| run(c, mk));
    deep(c, &mut |c, mk| run(c, mk));
    let (l, marks, k) = c.pick((600, 20000, 100), (4500, 131072, 400));
    sizes(c, l, marks, k, &mut |c, mk| c.case(|| format!("spellings of {}", mk().show()), |st| spelled(&mk(), 1, st)));
    giants(c, true, &mut |c, mk| c.case(|| format!("spellings of {}", mk().show()), |st| spelled(&mk(), 1, st)));
    combos(c, &mut |c, mk| c.case(|| format!("spellings of {}", mk().show()), |st| spelled(&mk(), 1, st)));
    c.family("strings of every pair of characters that need care");
    let care = ["\"", "\\", "/", "\u{8}", "\u{c}", "\n", "\r", "\t", "\0", "\u{1f}", "\u{7f}", "u", "a", "é", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}"];
    for a in care {
        for b in care {
            run(c, &|| M::Obj(vec![(format!("{a}{b}"), s(&format!("{b}{a}"))), (format!("{b}"), s(a)), (format!("x{a}"), M::Null)].into_iter().fold(vec![], |mut v: Vec<(String, M)>, x| {
                if !v.iter().any(|y| y.0 == x.0) {
                    v.push(x);
                }
                v
            })));
        }
    }
}

// ---- C15 --------------------------------------------------------------------------------------------------

fn back(what: &str, y: Result<YasonBuf, impl std::fmt::Display>, m: &M, want: &YasonBuf) -> R {
    let y = y.map_err(|e| format!("{what}: {e}"))?;
    read::doc(&y, m).map_err(|e| format!("{what}: {e}"))?;
    ensure!(matches!(y.equals(want), Ok(true)) && y == *want, "{what}: not equal to the original");
    Ok(())
}

fn same(what: &str, y: Result<YasonBuf, impl std::fmt::Display>, want: &YasonBuf) -> R {
    let y = y.map_err(|e| format!("{what}: {e}"))?;
    ensure!(y.as_bytes() == want.as_bytes(), "{what}: other bytes");
    Ok(())
}

fn round_trips(m: &M, y: &YasonBuf, st: &mut Stats) -> R {
    // binary
    let b = bincode::serialize(y).map_err(|e| e.to_string())?;
    let mut frame = (y.as_bytes().len() as u64).to_le_bytes().to_vec();
    frame.extend_from_slice(y.as_bytes());
    ensure!(b == frame, "the binary form is not the document's bytes");
    same("bincode", bincode::deserialize(&b), y)?;
    same("bincode from a reader", bincode::deserialize_from(&b[..]), y)?;
    let pair = (5u8, y.clone(), "tail".to_string(), Some(y.clone()), vec![y.clone(), y.clone()]);
    let b = bincode::serialize(&pair).map_err(|e| e.to_string())?;
    type Pair = (u8, YasonBuf, String, Option<YasonBuf>, Vec<YasonBuf>);
    for from_reader in [false, true] {
        let r: Result<Pair, _> = if from_reader { bincode::deserialize_from(&b[..]) } else { bincode::deserialize(&b) };
        let r = r.map_err(|e| format!("bincode of a tuple: {e}"))?;
        ensure!(r.0 == 5 && r.2 == "tail" && r.4.len() == 2, "bincode of a tuple: neighbours changed");
        for z in [&r.1, r.3.as_ref().ok_or("lost")?, &r.4[0], &r.4[1]] {
            ensure!(z.as_bytes() == y.as_bytes(), "bincode of a tuple: other bytes");
        }
    }
    st.step(5);
    if !m.importable() {
        return Ok(());
    }
    // human readable
    let mut compact = String::new();
    y.format_to(false, &mut compact).map_err(|e| e.to_string())?;
    let t = serde_json::to_string(y).map_err(|e| e.to_string())?;
    ensure!(jsonref::parse(&t)? == J::Str(compact.clone()), "the human-readable form {} is not the compact text in a string", clip(&t, 300));
    back("JSON string", serde_json::from_str(&t), m, y)?;
    back("JSON slice", serde_json::from_slice(t.as_bytes()), m, y)?;
    back("JSON reader", serde_json::from_reader(t.as_bytes()), m, y)?;
    let v = serde_json::to_value(y).map_err(|e| e.to_string())?;
    ensure!(v == serde_json::Value::String(compact), "to_value is not the compact text");
    back("JSON value", serde_json::from_value(v.clone()), m, y)?;
    back("JSON value by reference", <YasonBuf as serde::Deserialize>::deserialize(&v), m, y)?;
    let mut w = vec![];
    serde_json::to_writer(&mut w, y).map_err(|e| e.to_string())?;
    ensure!(w == t.as_bytes(), "to_writer differs from to_string");
    let p = serde_json::to_string_pretty(&pair).map_err(|e| e.to_string())?;
    let r: Pair = serde_json::from_str(&p).map_err(|e| format!("JSON of a tuple: {e}"))?;
    ensure!(r.0 == 5 && r.2 == "tail" && r.4.len() == 2, "JSON of a tuple: neighbours changed");
    for z in [&r.1, r.3.as_ref().ok_or("lost")?, &r.4[0], &r.4[1]] {
        ensure!(z == y, "JSON of a tuple: not equal to the original");
    }
    read::doc(&r.1, m)?;
    st.step(9);
    Ok(())
}

pub fn c15(c: &mut Ctx) {
    let run = |c: &mut Ctx, mk: &dyn Fn() -> M| {
        c.case(
            || format!("serde round trips of {}", mk().show()),
            |st| {
                let m = mk();
                st.state(m.hash());
                st.outcome(m.ty().name());
                let y = build::doc(&m)?;
                round_trips(&m, &y, st)
            },
        );
    };
    let max = c.pick(4, 6);
    small(c, max, &mut |c, mk| run(c, mk));
    rich(c, &mut |c, mk| run(c, mk));
    let w = c.pick(300, 65535);
    wide(c, w, &mut |c, mk| run(c, mk));
    deep(c, &mut |c, mk| run(c, mk));
    let (l, k) = c.pick((1100, 150), (9000, 600));
    sizes(c, l, 131072, k, &mut |c, mk| run(c, mk));
    giants(c, true, &mut |c, mk| run(c, mk));
    combos(c, &mut |c, mk| run(c, mk));
    c.family("strings and keys of every Unicode character");
    for block in 0..0x1100u32 {
        run(c, &|| {
            let t: String = (block * 256..block * 256 + 256).filter_map(char::from_u32).collect();
            let step = if block < 2 { 1 } else { 37 };
            let keys: Vec<String> = (block * 256..block * 256 + 256).step_by(step).filter_map(char::from_u32).map(String::from).collect();
            M::Obj(keys.into_iter().map(|k| (k, M::Null)).chain([("all of them".to_string(), s(&t))]).collect())
        });
    }
    c.family("documents in other legal layouts");
    for m in gen::small_vec(4).into_iter().filter(|m| m.is_container()) {
        for l in bnf::Layout::some() {
            c.case(|| format!("serde round trips of {} in layout {l:?}", m.show()), |st| {
                let y = unsafe { YasonBuf::new_unchecked(bnf::encode(&m, l)) };
                st.outcome("other layout");
                round_trips(&m, &y, st)
            });
        }
    }
    c.family("keys that the JSON reader treats specially");
    run(c, &|| M::Obj(vec![("$serde_json::private::Number".into(), s("1"))]));
    run(c, &|| M::Obj(vec![("$serde_json::private::Number".into(), n(1)), ("a".into(), n(1))]));
    run(c, &|| M::Arr(vec![s("$serde_json::private::Number")]));

    let toks = ["[", "]", "{", "}", ",", ":", "1", "\"a\"", "null", "-"];
    let len = c.pick(4, 5);
    c.family(&format!("deserialising a string of every sequence of up to {len} of the tokens {toks:?}"));
    words(&toks, len, &mut |t| {
        c.case(
            || format!("deserialise the string {t:?}"),
            |st| {
                let want = meaning(t);
                let q = serde_json::to_string(t).unwrap();
                let a: Result<YasonBuf, _> = serde_json::from_str(&q);
                let b: Result<YasonBuf, _> = serde_json::from_value(serde_json::Value::String(t.to_string()));
                st.step(2);
                match want {
                    Some(m) => {
                        st.outcome("accepted");
                        let y = build::doc(&m)?;
                        back("from_str", a, &m, &y)?;
                        back("from_value", b, &m, &y)
                    }
                    None => {
                        st.outcome("refused");
                        ensure!(a.is_err() && b.is_err(), "the string {t:?} is accepted");
                        Ok(())
                    }
                }
            },
        );
    });
    c.family("values that are not strings, texts cut short");
    for t in ["null", "1", "true", "[]", "{}", "[\"1\"]", "{\"a\":\"1\"}", "\"1", "", "\"[1,2\"", "\"\"", "\" \"", "\"nul\"", "\"1 2\""] {
        c.case(|| format!("deserialise {t:?}"), |st| {
            st.step(1);
            ensure!(serde_json::from_str::<YasonBuf>(t).is_err(), "{t} is accepted");
            st.outcome("refused");
            Ok(())
        });
    }
    c.case(|| "binary forms cut short".to_string(), |st| {
        let y = build::doc(&M::Arr(vec![n(1), s("two"), M::Null]))?;
        let b = bincode::serialize(&y).map_err(|e| e.to_string())?;
        for k in 0..b.len() {
            ensure!(bincode::deserialize::<YasonBuf>(&b[..k]).is_err(), "{k} of {} bytes are accepted", b.len());
            ensure!(bincode::deserialize_from::<_, YasonBuf>(&b[..k]).is_err(), "{k} of {} bytes are accepted from a reader", b.len());
            st.step(2);
        }
        st.outcome("refused");
        Ok(())
    });
}
