//! An independent reading of the path language: grammar and meaning.
use crate::model::M;

#[derive(Clone, Debug, PartialEq)]
pub enum Ix {
    At(usize),
    Last(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    One(Ix),
    Range(Ix, Ix),
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Key(String),
    AnyKey,
    Deep(String),
    Cells(Vec<Cell>),
    AnyIx,
    Count,
    Size,
    Type,
}

pub const MAX_INDEX: u64 = 2147483647;

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r' | 0x0c)) {
            self.i += 1;
        }
    }
    fn is(&self, s: &str) -> bool {
        self.b[self.i..].starts_with(s.as_bytes())
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.is(s);
        if y {
            self.i += s.len();
        }
        y
    }
    fn name(&mut self) -> Option<String> {
        let from = self.i;
        if !self.b.get(self.i)?.is_ascii_alphabetic() {
            return None;
        }
        while self.b.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric()) {
            self.i += 1;
        }
        Some(String::from_utf8(self.b[from..self.i].to_vec()).unwrap())
    }
    fn quoted(&mut self) -> Option<String> {
        let from = self.i;
        loop {
            match self.b.get(self.i)? {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(self.b[from..self.i - 1].to_vec()).ok();
                }
                b'\\' => {
                    if !matches!(self.b.get(self.i + 1)?, b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\') {
                        return None;
                    }
                    self.i += 2;
                }
                _ => self.i += 1,
            }
        }
    }
    fn int(&mut self) -> Option<usize> {
        let mut v: u64 = 0;
        let from = self.i;
        while let Some(c) = self.b.get(self.i) {
            if !c.is_ascii_digit() {
                break;
            }
            v = (v * 10 + (c - b'0') as u64).min(1 << 40);
            self.i += 1;
        }
        (self.i > from && v <= MAX_INDEX).then_some(v as usize)
    }
    fn ix(&mut self) -> Option<Ix> {
        if self.eat("last") {
            self.ws();
            if self.eat("-") {
                self.ws();
                return Some(Ix::Last(self.int()?));
            }
            return Some(Ix::Last(0));
        }
        Some(Ix::At(self.int()?))
    }
    fn brackets(&mut self) -> Option<St> {
        self.ws();
        let st = if self.eat("*") {
            St::AnyIx
        } else {
            let mut cells = vec![];
            loop {
                let a = self.ix()?;
                self.ws();
                if self.eat("to") {
                    self.ws();
                    cells.push(Cell::Range(a, self.ix()?));
                    self.ws();
                } else {
                    cells.push(Cell::One(a));
                }
                if !self.eat(",") {
                    break;
                }
                self.ws();
            }
            St::Cells(cells)
        };
        self.ws();
        self.eat("]").then_some(st)
    }
}

/// None: not a path.
pub fn parse(text: &str) -> Option<Vec<St>> {
    let mut p = P { b: text.as_bytes(), i: 0 };
    while p.eat(" ") {}
    if !p.eat("$") {
        return None;
    }
    while p.eat(" ") {}
    let mut out = vec![];
    while p.i < p.b.len() {
        if p.eat("..") {
            p.ws();
            out.push(St::Deep(if p.eat("\"") { p.quoted()? } else { p.name()? }));
        } else if p.eat(".") {
            p.ws();
            if p.eat("*") {
                out.push(St::AnyKey);
            } else if p.eat("\"") {
                out.push(St::Key(p.quoted()?));
            } else {
                let n = p.name()?;
                let after = p.i;
                p.ws();
                if p.eat("(") {
                    p.ws();
                    if !p.eat(")") {
                        return None;
                    }
                    p.ws();
                    if p.i < p.b.len() {
                        return None;
                    }
                    out.push(match n.as_str() {
                        "count" => St::Count,
                        "size" => St::Size,
                        "type" => St::Type,
                        _ => return None,
                    });
                    return Some(out);
                }
                p.i = after;
                out.push(St::Key(n));
            }
        } else if p.eat("[") {
            out.push(p.brackets()?);
        } else {
            return None;
        }
        p.ws();
    }
    Some(out)
}

/// What a path selects: parts of the document or computed values.
#[derive(Clone, Debug, PartialEq)]
pub enum Sel<'a> {
    Part(&'a M),
    Num(usize),
    Name(&'static str),
}

impl Sel<'_> {
    pub fn model(&self) -> M {
        match self {
            Sel::Part(m) => (*m).clone(),
            Sel::Num(n) => crate::model::n(*n as i64),
            Sel::Name(s) => crate::model::s(s),
        }
    }
}

pub fn has_method(p: &[St]) -> bool {
    matches!(p.last(), Some(St::Count | St::Size | St::Type))
}

fn resolve(i: &Ix, len: usize) -> Option<usize> {
    match i {
        Ix::At(v) => (*v < len).then_some(*v),
        Ix::Last(m) => (*m < len).then(|| len - 1 - m),
    }
}

/// Elements of an array of `len` selected by a cell, in order.
fn cell(c: &Cell, len: usize) -> Vec<usize> {
    match c {
        Cell::One(i) => resolve(i, len).into_iter().collect(),
        Cell::Range(a, b) => {
            // either direction, clipped to the array: positions may lie outside on both sides
            let pos = |i: &Ix| match i {
                Ix::At(v) => *v as i64,
                Ix::Last(m) => len as i64 - 1 - *m as i64,
            };
            let (a, b) = (pos(a).min(pos(b)), pos(a).max(pos(b)));
            (0..len).filter(|i| (*i as i64) >= a && (*i as i64) <= b).collect()
        }
    }
}

fn step<'a>(st: &St, m: &'a M, out: &mut Vec<Sel<'a>>) {
    match st {
        St::Key(k) => match m {
            M::Obj(v) => {
                if let Some((_, m)) = v.iter().find(|x| x.0 == *k) {
                    out.push(Sel::Part(m));
                }
            }
            M::Arr(v) => v.iter().for_each(|m| step(st, m, out)),
            _ => {}
        },
        St::AnyKey => match m {
            M::Obj(v) => {
                for i in crate::model::member_order(v) {
                    out.push(Sel::Part(&v[i].1));
                }
            }
            M::Arr(v) => v.iter().for_each(|m| step(st, m, out)),
            _ => {}
        },
        St::AnyIx => match m {
            M::Arr(v) => out.extend(v.iter().map(Sel::Part)),
            m => out.push(Sel::Part(m)),
        },
        St::Cells(cells) => match m {
            M::Arr(v) => {
                for c in cells {
                    out.extend(cell(c, v.len()).into_iter().map(|i| Sel::Part(&v[i])));
                }
            }
            m => {
                if cells.iter().any(|c| !cell(c, 1).is_empty()) {
                    out.push(Sel::Part(m));
                }
            }
        },
        St::Size => out.push(Sel::Num(if let M::Arr(v) = m { v.len() } else { 1 })),
        St::Type => out.push(Sel::Name(match m {
            M::Obj(_) => "object",
            M::Arr(_) => "array",
            M::Str(_) => "string",
            M::Num(_) => "number",
            M::Bool(_) => "bool",
            M::Null => "null",
        })),
        St::Count | St::Deep(_) => unreachable!(),
    }
}

/// Depth-first meaning of the remaining steps: results of a step appear in the order of the values it came from.
fn walk<'a>(mut steps: &[St], mut m: &'a M, out: &mut Vec<Sel<'a>>) {
    // a step that selects one value goes on in this loop: a path may have any number of steps
    loop {
        let Some((st, rest)) = steps.split_first() else {
            out.push(Sel::Part(m));
            return;
        };
        match st {
            St::Count => {
                out.push(Sel::Part(m));
                return;
            }
            St::Deep(k) => {
                match m {
                    M::Obj(v) => {
                        if let Some((_, m)) = v.iter().find(|x| x.0 == *k) {
                            walk(rest, m, out);
                        }
                        for i in crate::model::member_order(v) {
                            walk(steps, &v[i].1, out);
                        }
                    }
                    M::Arr(v) => v.iter().for_each(|m| walk(steps, m, out)),
                    _ => {}
                }
                return;
            }
            st => {
                let mut here = vec![];
                step(st, m, &mut here);
                if let [Sel::Part(one)] = here[..] {
                    (steps, m) = (rest, one);
                    continue;
                }
                for s in here {
                    match s {
                        Sel::Part(m) => walk(rest, m, out),
                        c => out.push(c),
                    }
                }
                return;
            }
        }
    }
}

/// The values selected, in order.
pub fn eval<'a>(steps: &[St], m: &'a M) -> Vec<Sel<'a>> {
    let mut out = vec![];
    walk(steps, m, &mut out);
    if matches!(steps.last(), Some(St::Count)) {
        out = vec![Sel::Num(out.len())];
    }
    out
}

// ---- where a text stops being a path ----------------------------------------------------------------------

struct Blame<'a>(P<'a>);

type Span = (usize, usize);

impl Blame<'_> {
    /// The token at the current position: a word, or a single character.
    fn here(&self) -> Span {
        let p = &self.0;
        let from = p.i.min(p.b.len());
        let mut to = from;
        while p.b.get(to).is_some_and(|c| c.is_ascii_alphanumeric()) {
            to += 1;
        }
        if to == from && to < p.b.len() {
            to += 1;
            while to < p.b.len() && p.b[to] & 0xc0 == 0x80 {
                to += 1;
            }
        }
        (from, to)
    }
    fn int(&mut self) -> Result<(), Span> {
        let h = self.here();
        let from = self.0.i;
        if self.0.int().is_some() {
            return Ok(());
        }
        Err(if self.0.i > from { (from, self.0.i) } else { h })
    }
    fn ix(&mut self) -> Result<(), Span> {
        if self.0.eat("last") {
            self.0.ws();
            if self.0.eat("-") {
                self.0.ws();
                return self.int();
            }
            return Ok(());
        }
        self.int()
    }
    fn quoted(&mut self) -> Result<(), Span> {
        let from = self.0.i;
        loop {
            let at = self.0.i;
            match self.0.b.get(at) {
                None => return Err((from - 1, at)),
                Some(b'"') => {
                    self.0.i += 1;
                    return Ok(());
                }
                Some(b'\\') => match self.0.b.get(at + 1) {
                    Some(b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\') => self.0.i += 2,
                    None => return Err((from - 1, at + 1)),
                    Some(_) => {
                        self.0.i += 1;
                        return Err((at, self.here().1));
                    }
                },
                Some(_) => self.0.i += 1,
            }
        }
    }
    fn path(&mut self) -> Result<(), Span> {
        while self.0.eat(" ") {}
        if !self.0.eat("$") {
            return Err(self.here());
        }
        while self.0.eat(" ") {}
        while self.0.i < self.0.b.len() {
            if self.0.eat("..") {
                self.0.ws();
                if self.0.eat("\"") {
                    self.quoted()?;
                } else if self.0.name().is_none() {
                    return Err(self.here());
                }
            } else if self.0.eat(".") {
                self.0.ws();
                if self.0.eat("*") {
                } else if self.0.eat("\"") {
                    self.quoted()?;
                } else {
                    let from = self.0.i;
                    let Some(n) = self.0.name() else { return Err(self.here()) };
                    self.0.ws();
                    if self.0.eat("(") {
                        self.0.ws();
                        if !self.0.eat(")") {
                            return Err((from, self.here().1));
                        }
                        self.0.ws();
                        if !matches!(n.as_str(), "count" | "size" | "type") {
                            return Err((from, self.here().1));
                        }
                        return if self.0.i < self.0.b.len() { Err(self.here()) } else { Ok(()) };
                    }
                }
            } else if self.0.eat("[") {
                self.0.ws();
                if !self.0.eat("*") {
                    loop {
                        self.ix()?;
                        self.0.ws();
                        if self.0.eat("to") {
                            self.0.ws();
                            self.ix()?;
                            self.0.ws();
                        }
                        if !self.0.eat(",") {
                            break;
                        }
                        self.0.ws();
                    }
                }
                self.0.ws();
                if !self.0.eat("]") {
                    return Err(self.here());
                }
            } else {
                return Err(self.here());
            }
            self.0.ws();
        }
        Ok(())
    }
}

/// The token at which a text that is not a path stops being one (from, to); None for a path.
pub fn blame(text: &str) -> Option<Span> {
    Blame(P { b: text.as_bytes(), i: 0 }).path().err()
}
