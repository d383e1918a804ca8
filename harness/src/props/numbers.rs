//! C09 numbers.
use super::json;
use super::*;
use crate::build;
use crate::ctx::{clip, Stats, R};
use crate::ensure;
use crate::jsonref::{self, BigDec, J};
use crate::model::{Dec, Nm};
use crate::read;
use yason::{BuildError, Number, NumberError, Scalar, Yason, YasonBuf};

/// Builds the number alone, in arrays and in objects, through owned and borrowing builders, and reads it back.
fn stored(v: Nm, st: &mut Stats) -> R {
    let want = v.dec();
    let num = v.number();
    ensure!(Dec::of(&num) == want, "harness: {v:?} is another number");
    let e = |e: BuildError| e.to_string();
    let check = |what: &str, n: Number| -> R {
        ensure!(Dec::of(&n) == want, "{what}: {n} instead of {}", jsonref::num_text(v));
        ensure!(n == num, "{what}: {n} is not equal to {num}");
        Ok(())
    };
    let y = Scalar::number(num).map_err(e)?;
    check("alone", y.number().map_err(|e| e.to_string())?)?;
    let mut buf = vec![9; 3];
    let z = Scalar::number_with_vec(&num, &mut buf).map_err(e)?;
    check("alone in a buffer", z.number().map_err(|e| e.to_string())?)?;
    ensure!(z.as_bytes() == y.as_bytes(), "number_with_vec gives other bytes");
    st.step(2);
    let m = M::Num(v);
    let docs = [
        M::Arr(vec![m.clone()]),
        M::Arr(vec![s("x"), m.clone(), n(70000), m.clone(), M::Null]),
        M::Obj(vec![("k".into(), m.clone())]),
        M::Obj(vec![("b".into(), m.clone()), ("aa".into(), M::Arr(vec![m.clone(), m.clone()])), ("a".into(), s("after"))]),
    ];
    for d in &docs {
        let y = build::doc(d)?;
        read::doc(&y, d)?;
        st.step(1);
    }
    let mut buf = vec![1, 2, 3];
    let y = build::into(&docs[3], build::Order::Sorted, &mut buf).map_err(e)?;
    read::doc(y, &docs[3])?;
    st.step(1);
    st.state(crate::ctx::hash(&(want.neg, want.coef, want.exp)));
    Ok(())
}

/// A number text alone and inside documents.
fn numeral(t: &str, st: &mut Stats) -> R {
    json::text(t, st)?;
    json::text(&format!("[0,{t},\"x\"]"), st)?;
    json::text(&format!("{{\"b\":{t},\"a\":[{t}]}}"), st)
}

/// The value of a valid numeral, compared without the wider machinery (for very long texts).
fn long_numeral(t: &str, st: &mut Stats) -> R {
    let J::Num(d) = jsonref::parse(t)? else { return Err("harness: not a numeral".into()) };
    let want = d.import();
    let mut buf = vec![];
    for route in 0..3 {
        let got = match route {
            0 => YasonBuf::parse(t).map(|y| y.number().expect("imported number")),
            1 => Yason::parse_to(&mut buf, t).map(|y| y.number().expect("imported number")),
            _ => {
                let v: serde_json::Value = serde_json::from_str(t).map_err(|e| e.to_string())?;
                YasonBuf::try_from(&v).map(|y| y.number().expect("imported number"))
            }
        };
        st.step(1);
        judge(t, want, got, st)?;
    }
    Ok(())
}

fn judge(t: &str, want: Result<Dec, jsonref::NumErr>, got: Result<Number, BuildError>, st: &mut Stats) -> R {
    let t = clip(t, 120);
    match (want, got) {
        (Ok(w), Ok(g)) => {
            ensure!(Dec::of(&g) == w, "{t}: stored as {g}");
            st.outcome(if w.coef == 0 { "zero" } else { "stored" });
            st.state(crate::ctx::hash(&(w.neg, w.coef, w.exp)));
            Ok(())
        }
        (Err(_), Err(BuildError::NumberError(NumberError::Overflow))) => {
            st.outcome("overflow");
            Ok(())
        }
        (Err(_), Err(e)) => Err(format!("{t}: fails with {e:?} instead of overflow")),
        (Err(_), Ok(g)) => Err(format!("{t}: stored as {g} instead of overflow")),
        (Ok(_), Err(e)) => Err(format!("{t}: refused: {e}")),
    }
}

fn words(a: &[char], len: usize, cur: &mut String, f: &mut dyn FnMut(&str)) {
    if !cur.is_empty() {
        f(cur);
    }
    if len > 0 {
        for x in a {
            cur.push(*x);
            words(a, len - 1, cur, f);
            cur.pop();
        }
    }
}

/// `len` digits of a pattern whose rounding at 38 digits is interesting.
fn digits(len: usize, kind: usize) -> String {
    let mut d: Vec<u8> = match kind {
        0 => vec![b'1'; len],
        1 => vec![b'9'; len],
        2 => vec![b'5'; len],
        3 => vec![b'4'; len],
        // a tie at the 39th digit, and just below and above it
        4 | 5 | 6 => (0..len).map(|i| if i < 38 { b'1' + (i % 9) as u8 } else if i == 38 { if kind == 5 { b'4' } else { b'5' } } else if kind == 5 { b'9' } else { b'0' }).collect(),
        // carry through all nines
        7 => (0..len).map(|i| if i < 38 { b'9' } else if i == 38 { b'5' } else { b'0' }).collect(),
        8 => (0..len).map(|i| if i < 38 { b'9' } else if i == 38 { b'4' } else { b'9' }).collect(),
        // one digit and zeros, zeros and one digit
        9 => (0..len).map(|i| if i == 0 { b'7' } else { b'0' }).collect(),
        10 => (0..len).map(|i| if i + 1 == len { b'7' } else { b'0' }).collect(),
        _ => (0..len).map(|i| b'0' + ((i * 7 + 3) % 10) as u8).collect(),
    };
    if kind == 6 && len > 39 {
        d[len - 1] = b'1';
    }
    String::from_utf8(d).unwrap()
}
const KINDS: usize = 12;

/// Text with the decimal point after `point` digits (0: "0.ddd"), or None when that is not JSON.
fn place(d: &str, point: usize, exp: i64) -> String {
    let mut t = String::new();
    if point == 0 {
        t.push_str("0.");
        t.push_str(d);
    } else {
        let i = d[..point].trim_start_matches('0');
        t.push_str(if i.is_empty() { "0" } else { i });
        if point < d.len() {
            t.push('.');
            t.push_str(&d[point..]);
        }
    }
    if exp != 0 {
        t.push_str(&format!("e{exp}"));
    }
    t
}

pub fn c09(c: &mut Ctx) {
    // ---- storing
    c.family("every integer up to 70000, both signs");
    for block in 0..70u64 {
        c.case(|| format!("integers {} to {}", block * 1000, block * 1000 + 999), |st| {
            for i in block * 1000..block * 1000 + 1000 {
                for neg in [false, true] {
                    let v = Nm::new(i as u128, 0, neg);
                    let y = Scalar::number(v.number()).map_err(|e| e.to_string())?;
                    ensure!(Dec::of(&y.number().map_err(|e| e.to_string())?) == v.dec(), "{v:?} read back differently");
                    let m = M::Arr(vec![M::Num(v), n(1)]);
                    read::is(&yason::Value::try_from(&*build::doc(&m)?).map_err(|e| e.to_string())?, &m)?;
                    let t = format!("{}{i}", if neg { "-" } else { "" });
                    let g = YasonBuf::parse(&t).map_err(|e| format!("{t}: {e}"))?;
                    ensure!(Dec::of(&g.number().map_err(|e| e.to_string())?) == v.dec(), "{t}: stored as {}", g.format(false));
                    st.step(3);
                }
            }
            st.outcome("integers");
            Ok(())
        });
    }
    let mut coefs: Vec<u128> = vec![0, 1, 2, 5, 9, 10, 11, 15, 50, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 12345, 65535, 65536, 100_000_000, 4294967295, 4294967296];
    for k in [1u32, 2, 3, 9, 10, 18, 19, 20, 27, 36, 37] {
        coefs.extend([10u128.pow(k), 10u128.pow(k) - 1, 10u128.pow(k) + 1, 5 * 10u128.pow(k), 123 * 10u128.pow(k.min(35))]);
    }
    for k in 1..=15 {
        let p = 1u128 << (8 * k);
        coefs.extend([p - 1, p, p + 1, p / 2]);
    }
    coefs.extend([10u128.pow(38) - 1, 10u128.pow(38) - 10, 12345678901234567890123456789012345678, 98765432109876543210987654321098765432, (1u128 << 126) - 1, 1u128 << 126]);
    coefs.retain(|c| *c < 10u128.pow(38));
    coefs.sort();
    coefs.dedup();
    let step = c.pick(7, 1);
    c.family("coefficients x scales x signs in every position");
    for (i, coef) in coefs.iter().enumerate() {
        for scale in -140i16..=180 {
            let edge = matches!(scale, -130..=-120 | -3..=3 | 36..=40 | 126..=134 | 164..=170);
            if !edge && (scale as usize).wrapping_add(i) % step != 0 {
                continue;
            }
            for neg in [false, true] {
                let v = Nm::new(*coef, scale, neg);
                if Number::from_parts(*coef, scale, neg).is_err() {
                    continue;
                }
                c.case(|| format!("number {v:?}"), |st| {
                    stored(v, st)?;
                    st.outcome("stored");
                    // and through JSON, where the limits of the import apply
                    let t = jsonref::num_text(v);
                    long_numeral(&t, st)
                });
            }
        }
    }
    c.family("equal numbers in other representations");
    for coef in [1u128, 5, 12, 255, 256, 99999] {
        for zeros in 0..33u32 {
            for scale in [-60i16, -1, 0, 1, 30, 100] {
                let v = Nm::new(coef * 10u128.pow(zeros), scale + zeros as i16, zeros % 2 == 1);
                if Number::from_parts(v.coef, v.scale, v.neg).is_err() {
                    continue;
                }
                c.case(|| format!("number {v:?}"), |st| {
                    st.outcome("stored");
                    stored(v, st)
                });
            }
        }
    }

    // ---- importing
    let alphabet = ['0', '1', '9', '5', '-', '+', '.', 'e', 'E'];
    let len = c.pick(6, 7);
    c.family(&format!("every text of up to {len} of the characters {alphabet:?}"));
    let short = c.pick(4, 5);
    words(&alphabet, len, &mut String::new(), &mut |t| {
        c.case(|| format!("number text {t:?}"), |st| if t.len() <= short { numeral(t, st) } else { json::text(t, st) });
    });

    c.family("digit counts x patterns x position of the point x magnitude x sign");
    let mut lens: Vec<usize> = (1..=48).collect();
    lens.extend([60, 75, 76, 77, 100, 126, 127, 128, 129, 130, 167, 168, 200, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513, 1000]);
    let leads = [-10000i64, -999, -400, -133, -132, -131, -130, -129, -128, -100, -40, -39, -38, -2, -1, 0, 1, 2, 37, 38, 39, 87, 88, 100, 123, 124, 125, 126, 127, 128, 400, 999, 1000, 32767, 32768, 65536, 100000];
    for l in lens {
        for kind in 0..KINDS {
            let d = digits(l, kind);
            let mut points = vec![0, 1, l / 2, l.saturating_sub(1), l];
            points.sort();
            points.dedup();
            for p in points {
                if p > 0 && c.quick() && l > 48 && p == l / 2 && kind % 2 == 1 {
                    continue;
                }
                for lead in leads {
                    for neg in ["", "-"] {
                        // lead: the power of ten of the first digit
                        let e = lead + 1 - p as i64;
                        c.case(
                            || format!("number text {}", clip(&format!("{neg}{}", place(&d, p, e)), 300)),
                            |st| long_numeral(&format!("{neg}{}", place(&d, p, e)), st),
                        );
                    }
                }
            }
        }
    }

    c.family("spellings of the exponent");
    let mants = ["0", "1", "10", "0.1", "0.0", "12.50", "99999999999999999999999999999999999999", "999999999999999999999999999999999999995", "0.00001", "100000"];
    let mut exps: Vec<String> = vec![];
    for v in ["0", "1", "5", "9", "37", "38", "99", "100", "120", "124", "125", "126", "127", "128", "129", "130", "131", "132", "135", "140", "255", "256", "999", "1000", "9999", "32767", "32768", "65535", "65536", "99999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999"] {
        for zeros in [0usize, 1, 2, 3, 5, 10, 250, 256, 300] {
            exps.push(format!("{}{v}", "0".repeat(zeros)));
        }
    }
    for m in mants {
        for x in &exps {
            for sep in ["e", "E", "e+", "E+", "e-", "E-"] {
                for neg in ["", "-"] {
                    c.case(|| format!("number text {neg}{m}{sep}{x}"), |st| long_numeral(&format!("{neg}{m}{sep}{x}"), st));
                }
            }
        }
    }

    c.family("long runs of zeros cancelled by the exponent, very long texts");
    let mut longs: Vec<usize> = vec![1, 30, 100, 125, 130, 200, 250, 255, 256, 300, 999, 1000, 4096, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 70000];
    longs.extend(c.pick(vec![], vec![131072, 1_000_000, 5_000_000]));
    for l in longs {
        for tail in ["7", "12345678901234567890123456789012345678", "99999999999999999999999999999999999999", "999999999999999999999999999999999999995", "123456789012345678901234567890123456784999999"] {
            for off in [-131i64, -130, -129, -40, 0, 1, 86, 87, 88, 124, 125, 126] {
                let tl = tail.len() as i64;
                let small = format!("0.{}{tail}e{}", "0".repeat(l), off + l as i64 + 1);
                let big = format!("{tail}{}e{}", "0".repeat(l), off - l as i64 - tl + 1);
                let frac = format!("{tail}.{}e{}", "0".repeat(l), off - tl + 1);
                let mid = format!("{tail}{}.{}1e{}", "0".repeat(l), "0".repeat(l), off - l as i64 - tl + 1);
                for t in [small, big, frac, mid] {
                    c.case(|| format!("number text {}", clip(&t, 300)), |st| long_numeral(&t, st));
                    c.case(|| format!("number text -{}", clip(&t, 300)), |st| long_numeral(&format!("-{t}"), st));
                }
            }
        }
        for z in ["0", "0.0", "-0", "-0.0"] {
            let t = format!("{z}{}{}", if z.contains('.') { "0".repeat(l) } else { ".0".to_string() }, "e-5");
            c.case(|| format!("number text {}", clip(&t, 300)), |st| long_numeral(&t, st));
        }
        for x in ["1", "9", "5", "3"] {
            let t = x.repeat(l);
            c.case(|| format!("number text {}", clip(&t, 300)), |st| long_numeral(&t, st));
            let t = format!("-0.{t}");
            c.case(|| format!("number text {}", clip(&t, 300)), |st| long_numeral(&t, st));
        }
    }

    c.family("numbers of a JSON value tree made by a program");
    let mut nums: Vec<serde_json::Number> = vec![];
    for k in 0..64 {
        let p = 1u64 << k;
        for v in [p - 1, p, p.wrapping_add(1), u64::MAX - p] {
            nums.push(v.into());
            nums.push((v as i64).into());
            nums.push((v as i64).wrapping_neg().into());
        }
    }
    nums.extend([u64::MAX.into(), i64::MIN.into(), i64::MAX.into(), 0.into()]);
    for e in 0..2047u64 {
        for m in [0u64, 1, 0x8000000000000, 0xfffffffffffff, 0x5555555555555] {
            for sign in [0, 1u64 << 63] {
                nums.extend(serde_json::Number::from_f64(f64::from_bits(sign | (e << 52) | m)));
            }
        }
    }
    for (i, num) in nums.into_iter().enumerate() {
        if c.quick() && i % 3 != 0 && i > 1000 {
            continue;
        }
        c.case(
            || format!("JSON number {num}"),
            |st| {
                let J::Num(d): J = jsonref::parse(&num.to_string())? else { return Err("harness".into()) };
                let d: BigDec = d;
                let got = YasonBuf::try_from(&serde_json::Value::Number(num.clone())).map(|y| y.number().expect("imported number"));
                st.step(1);
                judge(&num.to_string(), d.import(), got, st)?;
                let v = serde_json::json!([num, {"k": num}]);
                let got = YasonBuf::try_from(&v);
                match d.import() {
                    Ok(w) => {
                        let m = Nm::new(w.coef, 0, w.neg).with_exp(w.exp);
                        let m = M::Arr(vec![M::Num(m), M::Obj(vec![("k".into(), M::Num(m))])]);
                        read::doc(&got.map_err(|e| e.to_string())?, &m)
                    }
                    Err(_) => {
                        ensure!(matches!(got, Err(BuildError::NumberError(NumberError::Overflow))), "{num} in an array is not refused as overflow");
                        Ok(())
                    }
                }
            },
        );
    }
}
