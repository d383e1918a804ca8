//! An independent strict JSON reader (RFC 8259) with exact numbers, a renderer, and the pretty layout.
use crate::model::{Dec, Nm, M};

/// An exact decimal of any length.
#[derive(Clone, Debug, PartialEq)]
pub struct BigDec {
    pub neg: bool,
    pub digits: Vec<u8>, // no leading or trailing zero; empty: zero
    pub exp: i64,        // value = digits * 10^exp
}

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(BigDec),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NumErr {
    Overflow,
}

impl BigDec {
    pub fn new(neg: bool, digits: &[u8], exp: i64) -> BigDec {
        let mut d = digits;
        let mut e = exp;
        while let [0, r @ ..] = d {
            d = r;
        }
        while let [r @ .., 0] = d {
            d = r;
            e += 1;
        }
        if d.is_empty() {
            return BigDec { neg: false, digits: vec![], exp: 0 };
        }
        BigDec { neg, digits: d.to_vec(), exp: e }
    }

    pub fn of(d: Dec) -> BigDec {
        let ds: Vec<u8> = d.coef.to_string().bytes().map(|b| b - b'0').collect();
        BigDec::new(d.neg, &ds, d.exp as i64)
    }

    /// The documented import rule: half-up to 38 significant digits, 1e126 and more overflow, below 1e-130 zero.
    pub fn import(&self) -> Result<Dec, NumErr> {
        if self.digits.is_empty() {
            return Ok(Dec { neg: false, coef: 0, exp: 0 });
        }
        let lead = self.digits.len() as i64 + self.exp - 1;
        let keep = self.digits.len().min(38);
        let mut coef: u128 = self.digits[..keep].iter().fold(0, |a, d| a * 10 + *d as u128);
        if self.digits.len() > 38 && self.digits[38] >= 5 {
            coef += 1;
        }
        // the limits apply to the rounded value (rounding may carry into the next power of ten)
        let lead = if coef == 10u128.pow(38) { lead + 1 } else { lead };
        if lead < -130 {
            return Ok(Dec { neg: false, coef: 0, exp: 0 });
        }
        if lead >= 126 {
            return Err(NumErr::Overflow);
        }
        let exp = self.exp + (self.digits.len() - keep) as i64;
        let d = Dec::new(self.neg, coef, exp as i32);
        Ok(d)
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(text: &str) -> Result<J, String> {
    let mut p = P { b: text.as_bytes(), i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing characters at {}", p.i));
    }
    Ok(v)
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 1000 {
            return Err("too deep".into());
        }
        if self.i >= self.b.len() {
            return Err("unexpected end".into());
        }
        match self.b[self.i] {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(format!("expected , or ] at {}", self.i)),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return Err(format!("expected a key at {}", self.i));
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return Err(format!("expected : at {}", self.i));
                    }
                    self.i += 1;
                    self.ws();
                    v.push((k, self.value(depth + 1)?));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(format!("expected , or }} at {}", self.i)),
                    }
                }
            }
            b'-' | b'0'..=b'9' => Ok(J::Num(self.number()?)),
            c => Err(format!("unexpected byte {c:#x} at {}", self.i)),
        }
    }
    fn digits(&mut self, out: &mut Vec<u8>) -> Result<usize, String> {
        let from = self.i;
        while self.peek().is_ascii_digit() {
            out.push(self.b[self.i] - b'0');
            self.i += 1;
        }
        if self.i == from {
            return Err(format!("expected a digit at {}", self.i));
        }
        Ok(self.i - from)
    }
    fn number(&mut self) -> Result<BigDec, String> {
        let neg = self.peek() == b'-';
        if neg {
            self.i += 1;
        }
        let mut d = vec![];
        let n = self.digits(&mut d)?;
        if d[0] == 0 && n > 1 {
            return Err("leading zero".into());
        }
        let mut exp = 0i64;
        if self.peek() == b'.' {
            self.i += 1;
            exp -= self.digits(&mut d)? as i64;
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            let eneg = self.peek() == b'-';
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            let mut ed = vec![];
            self.digits(&mut ed)?;
            let mut e = 0i64;
            for x in ed {
                e = (e * 10 + x as i64).min(1 << 40);
            }
            exp += if eneg { -e } else { e };
        }
        Ok(BigDec::new(neg, &d, exp))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let s = self.b.get(self.i..self.i + 4).ok_or("short \\u")?;
        let mut v = 0;
        for c in s {
            v = v * 16 + (*c as char).to_digit(16).ok_or("bad \\u")?;
        }
        self.i += 4;
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let hi = self.hex4()?;
                            let cp = if (0xD800..0xDC00).contains(&hi) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 2;
                                let lo = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&lo) {
                                    return Err("lone surrogate".into());
                                }
                                0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00)
                            } else {
                                hi
                            };
                            char::from_u32(cp).ok_or("lone surrogate")?
                        }
                        _ => return Err(format!("bad escape at {}", self.i)),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                0..=0x1f => return Err(format!("raw control character at {}", self.i)),
                c => out.push(c),
            }
        }
    }
}

impl J {
    /// The document the text denotes after import: numbers by the import rule, the last of repeated keys.
    pub fn import(&self) -> Result<M, NumErr> {
        Ok(match self {
            J::Null => M::Null,
            J::Bool(b) => M::Bool(*b),
            J::Num(d) => {
                let d = d.import()?;
                M::Num(Nm::new(d.coef, 0, d.neg).with_exp(d.exp))
            }
            J::Str(v) => M::Str(v.clone()),
            J::Arr(v) => M::Arr(v.iter().map(|j| j.import()).collect::<Result<_, _>>()?),
            J::Obj(v) => {
                let mut last = std::collections::HashMap::new();
                for (i, (k, _)) in v.iter().enumerate() {
                    last.insert(k.as_str(), i);
                }
                let mut out: Vec<(String, M)> = vec![];
                for (i, (k, j)) in v.iter().enumerate() {
                    if last[k.as_str()] == i {
                        out.push((k.clone(), j.import()?));
                    }
                }
                M::Obj(out)
            }
        })
    }

    /// Whether the text denotes exactly the model's document, members in exactly this order.
    pub fn is(&self, m: &M) -> Result<(), String> {
        match (self, m) {
            (J::Null, M::Null) => Ok(()),
            (J::Bool(a), M::Bool(b)) if a == b => Ok(()),
            (J::Str(a), M::Str(b)) if a == b => Ok(()),
            (J::Num(a), M::Num(b)) if *a == BigDec::of(b.dec()) => Ok(()),
            (J::Arr(a), M::Arr(b)) => {
                if a.len() != b.len() {
                    return Err(format!("array of {} elements written as {}", b.len(), a.len()));
                }
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    x.is(y).map_err(|e| format!("[{i}]{e}"))?;
                }
                Ok(())
            }
            (J::Obj(a), M::Obj(b)) => {
                if a.len() != b.len() {
                    return Err(format!("object of {} members written as {}", b.len(), a.len()));
                }
                for (x, i) in a.iter().zip(crate::model::member_order(b)) {
                    let y = &b[i];
                    if x.0 != y.0 {
                        return Err(format!(" expected key {:?}, got {:?}", y.0, x.0));
                    }
                    x.1.is(&y.1).map_err(|e| format!(".{:?}{e}", y.0))?;
                }
                Ok(())
            }
            (j, m) => Err(format!(" {} written as {}", m.show(), crate::ctx::clip(&format!("{j:?}"), 300))),
        }
    }
}

impl Nm {
    pub fn with_exp(self, exp: i32) -> Nm {
        Nm { scale: -exp as i16, ..self }
    }
}

pub fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn num_text(v: Nm) -> String {
    let mut s = String::new();
    if v.neg && v.coef != 0 {
        s.push('-');
    }
    s.push_str(&v.coef.to_string());
    if v.scale != 0 {
        s.push_str(&format!("e{}", -(v.scale as i32)));
    }
    s
}

/// JSON text of the model, members in push order.
pub fn render(m: &M) -> String {
    let mut s = String::new();
    render_to(m, &mut s);
    s
}

fn render_to(m: &M, out: &mut String) {
    match m {
        M::Null => out.push_str("null"),
        M::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        M::Num(v) => out.push_str(&num_text(*v)),
        M::Str(v) => quote(v, out),
        M::Arr(v) => {
            out.push('[');
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                render_to(e, out);
            }
            out.push(']');
        }
        M::Obj(v) => {
            out.push('{');
            for (i, (k, e)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                quote(k, out);
                out.push(':');
                render_to(e, out);
            }
            out.push('}');
        }
    }
}

/// Splits valid compact JSON into tokens.
pub fn tokens(text: &str) -> Vec<&str> {
    let b = text.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let from = i;
        match b[i] {
            b'{' | b'}' | b'[' | b']' | b',' | b':' => i += 1,
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            _ => {
                while i < b.len() && !matches!(b[i], b'{' | b'}' | b'[' | b']' | b',' | b':' | b'"') {
                    i += 1;
                }
            }
        }
        v.push(&text[from..i.min(b.len())]);
    }
    v
}

/// The fixed pretty layout of the given compact text.
pub fn pretty(compact: &str) -> String {
    let mut out = String::new();
    let mut level = 0usize;
    let mut after_colon = false;
    let nl = |out: &mut String, level: usize| {
        out.push('\n');
        for _ in 0..level {
            out.push_str("  ");
        }
    };
    // whether the next token starts an element or member
    let mut fresh = false;
    for t in tokens(compact) {
        match t {
            "}" | "]" => {
                level -= 1;
                nl(&mut out, level);
                out.push_str(t);
                fresh = false;
                after_colon = false;
            }
            "," => {
                out.push(',');
                fresh = true;
            }
            ":" => {
                out.push_str(" : ");
                after_colon = true;
            }
            _ => {
                if fresh {
                    nl(&mut out, level);
                    fresh = false;
                }
                if t == "{" || t == "[" {
                    if after_colon {
                        nl(&mut out, level);
                    }
                    level += 1;
                    fresh = true;
                }
                out.push_str(t);
                after_colon = false;
            }
        }
    }
    out
}
