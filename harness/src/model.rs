//! Reference model of documents: a plain tree. Objects keep the order in which members were pushed; their
//! meaning does not depend on it.
use std::cmp::Ordering;
use yason::{DataType, Number};

/// A decimal in one of its representations: (-1)^neg * coef * 10^-scale.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Nm {
    pub coef: u128,
    pub scale: i16,
    pub neg: bool,
}

/// The value of a decimal: (-1)^neg * coef * 10^exp with no trailing zero in coef; zero is (false, 0, 0).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Dec {
    pub neg: bool,
    pub coef: u128,
    pub exp: i32,
}

impl Nm {
    pub const fn new(coef: u128, scale: i16, neg: bool) -> Nm {
        Nm { coef, scale, neg }
    }
    pub const fn int(v: i64) -> Nm {
        Nm { coef: v.unsigned_abs() as u128, scale: 0, neg: v < 0 }
    }
    pub fn number(self) -> Number {
        Number::from_parts(self.coef, self.scale, self.neg).expect("harness: unrepresentable number")
    }
    pub fn of(n: &Number) -> Nm {
        let (coef, scale, neg) = n.into_parts();
        Nm { coef, scale, neg }
    }
    pub fn dec(self) -> Dec {
        Dec::new(self.neg, self.coef, -(self.scale as i32))
    }
}

impl Dec {
    pub fn new(neg: bool, mut coef: u128, mut exp: i32) -> Dec {
        if coef == 0 {
            return Dec { neg: false, coef: 0, exp: 0 };
        }
        while coef % 10 == 0 {
            coef /= 10;
            exp += 1;
        }
        Dec { neg, coef, exp }
    }
    pub fn of(n: &Number) -> Dec {
        Nm::of(n).dec()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Null,
    Bool(bool),
    Num(Nm),
    Str(String),
    Arr(Vec<M>),
    Obj(Vec<(String, M)>),
}

pub fn s(v: &str) -> M {
    M::Str(v.to_string())
}
pub fn n(v: i64) -> M {
    M::Num(Nm::int(v))
}
pub fn obj(v: &[(&str, M)]) -> M {
    M::Obj(v.iter().map(|(k, m)| (k.to_string(), m.clone())).collect())
}

/// The order of members: key length, then bytes.
pub fn key_cmp(a: &str, b: &str) -> Ordering {
    (a.len(), a.as_bytes()).cmp(&(b.len(), b.as_bytes()))
}

/// Indexes of the members in document order.
pub fn member_order(v: &[(String, M)]) -> Vec<usize> {
    let mut o: Vec<usize> = (0..v.len()).collect();
    o.sort_by(|&i, &j| key_cmp(&v[i].0, &v[j].0));
    o
}

impl M {
    pub fn ty(&self) -> DataType {
        match self {
            M::Null => DataType::Null,
            M::Bool(_) => DataType::Bool,
            M::Num(_) => DataType::Number,
            M::Str(_) => DataType::String,
            M::Arr(_) => DataType::Array,
            M::Obj(_) => DataType::Object,
        }
    }

    pub fn is_container(&self) -> bool {
        matches!(self, M::Arr(_) | M::Obj(_))
    }

    /// The same document with members in document order.
    pub fn canonical(&self) -> M {
        match self {
            M::Arr(v) => M::Arr(v.iter().map(|m| m.canonical()).collect()),
            M::Obj(v) => M::Obj(member_order(v).into_iter().map(|i| (v[i].0.clone(), v[i].1.canonical())).collect()),
            m => m.clone(),
        }
    }

    /// A serialisation equal for two models exactly when they denote the same document.
    pub fn key(&self, out: &mut Vec<u8>) {
        match self {
            M::Null => out.push(b'z'),
            M::Bool(b) => out.push(if *b { b't' } else { b'f' }),
            M::Num(v) => {
                let d = v.dec();
                out.push(b'n');
                out.push(d.neg as u8);
                out.extend_from_slice(&d.coef.to_le_bytes());
                out.extend_from_slice(&d.exp.to_le_bytes());
            }
            M::Str(v) => {
                out.push(b's');
                out.extend_from_slice(&(v.len() as u32).to_le_bytes());
                out.extend_from_slice(v.as_bytes());
            }
            M::Arr(v) => {
                out.push(b'a');
                out.extend_from_slice(&(v.len() as u32).to_le_bytes());
                v.iter().for_each(|m| m.key(out));
            }
            M::Obj(v) => {
                out.push(b'o');
                out.extend_from_slice(&(v.len() as u32).to_le_bytes());
                for i in member_order(v) {
                    out.extend_from_slice(&(v[i].0.len() as u32).to_le_bytes());
                    out.extend_from_slice(v[i].0.as_bytes());
                    v[i].1.key(out);
                }
            }
        }
    }

    pub fn keyed(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.key(&mut v);
        v
    }

    pub fn same(&self, o: &M) -> bool {
        self.keyed() == o.keyed()
    }

    pub fn hash(&self) -> u64 {
        crate::ctx::hash(&self.keyed()[..])
    }

    pub fn nodes(&self) -> usize {
        1 + match self {
            M::Arr(v) => v.iter().map(|m| m.nodes()).sum(),
            M::Obj(v) => v.iter().map(|m| m.1.nodes()).sum(),
            _ => 0,
        }
    }

    /// Nesting depth of containers.
    pub fn depth(&self) -> usize {
        match self {
            M::Arr(v) => 1 + v.iter().map(|m| m.depth()).max().unwrap_or(0),
            M::Obj(v) => 1 + v.iter().map(|m| m.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }

    /// Every part of the document, itself first.
    pub fn each<'a>(&'a self, f: &mut dyn FnMut(&'a M)) {
        f(self);
        match self {
            M::Arr(v) => v.iter().for_each(|m| m.each(f)),
            M::Obj(v) => v.iter().for_each(|m| m.1.each(f)),
            _ => {}
        }
    }

    /// Whether JSON import keeps every number of the document (magnitudes below 1e126, none below 1e-130).
    pub fn importable(&self) -> bool {
        let mut y = true;
        self.each(&mut |m| {
            if let M::Num(v) = m {
                y &= crate::jsonref::BigDec::of(v.dec()).import() == Ok(v.dec());
            }
        });
        y
    }

    pub fn show(&self) -> String {
        crate::ctx::clip(&crate::jsonref::render(self), 600)
    }
}

/// Deep trees are dropped and cloned on the worker's large stack; nothing special is needed here.
pub fn chain(depth: usize, pattern: impl Fn(usize) -> bool, leaf: M) -> M {
    let mut m = leaf;
    for level in (0..depth).rev() {
        m = if pattern(level) { M::Obj(vec![("k".into(), m)]) } else { M::Arr(vec![m]) };
    }
    m
}
