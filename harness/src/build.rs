//! Builds model documents through the library's builders, in every style the interface offers.
use crate::model::{member_order, Nm, M};
use yason::{ArrayBuilder, ArrayRefBuilder, BuildError, Number, ObjectBuilder, ObjectRefBuilder, Scalar, Yason, YasonBuf};

pub type BR<T> = Result<T, BuildError>;

pub trait OB {
    fn nul(&mut self, k: &str) -> BR<()>;
    fn boo(&mut self, k: &str, v: bool) -> BR<()>;
    fn num(&mut self, k: &str, v: &Number) -> BR<()>;
    fn st(&mut self, k: &str, v: &str) -> BR<()>;
    fn ob(&mut self, k: &str, n: u16, sorted: bool) -> BR<ObjectRefBuilder<'_>>;
    fn ar(&mut self, k: &str, n: u16) -> BR<ArrayRefBuilder<'_>>;
}
pub trait AB {
    fn nul(&mut self) -> BR<()>;
    fn boo(&mut self, v: bool) -> BR<()>;
    fn num(&mut self, v: &Number) -> BR<()>;
    fn st(&mut self, v: &str) -> BR<()>;
    fn ob(&mut self, n: u16, sorted: bool) -> BR<ObjectRefBuilder<'_>>;
    fn ar(&mut self, n: u16) -> BR<ArrayRefBuilder<'_>>;
}

macro_rules! imp {
    ($o:ty, $a:ty) => {
        impl OB for $o {
            fn nul(&mut self, k: &str) -> BR<()> {
                self.push_null(k).map(|_| ())
            }
            fn boo(&mut self, k: &str, v: bool) -> BR<()> {
                self.push_bool(k, v).map(|_| ())
            }
            fn num(&mut self, k: &str, v: &Number) -> BR<()> {
                self.push_number(k, v).map(|_| ())
            }
            fn st(&mut self, k: &str, v: &str) -> BR<()> {
                self.push_string(k, v).map(|_| ())
            }
            fn ob(&mut self, k: &str, n: u16, sorted: bool) -> BR<ObjectRefBuilder<'_>> {
                self.push_object(k, n, sorted)
            }
            fn ar(&mut self, k: &str, n: u16) -> BR<ArrayRefBuilder<'_>> {
                self.push_array(k, n)
            }
        }
        impl AB for $a {
            fn nul(&mut self) -> BR<()> {
                self.push_null().map(|_| ())
            }
            fn boo(&mut self, v: bool) -> BR<()> {
                self.push_bool(v).map(|_| ())
            }
            fn num(&mut self, v: &Number) -> BR<()> {
                self.push_number(v).map(|_| ())
            }
            fn st(&mut self, v: &str) -> BR<()> {
                self.push_string(v).map(|_| ())
            }
            fn ob(&mut self, n: u16, sorted: bool) -> BR<ObjectRefBuilder<'_>> {
                self.push_object(n, sorted)
            }
            fn ar(&mut self, n: u16) -> BR<ArrayRefBuilder<'_>> {
                self.push_array(n)
            }
        }
    };
}
imp!(ObjectBuilder<'_>, ArrayBuilder<'_>);
imp!(ObjectRefBuilder<'_>, ArrayRefBuilder<'_>);

/// In which order members are pushed and what the builder is told about it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Order {
    /// as listed in the model, declared unsorted
    Listed,
    /// reverse of the listing, declared unsorted
    Reversed,
    /// document order, declared sorted
    Sorted,
    /// document order, declared unsorted
    SortedUndeclared,
}

pub const ORDERS: [Order; 4] = [Order::Listed, Order::Reversed, Order::Sorted, Order::SortedUndeclared];

fn member_seq(v: &[(String, M)], o: Order) -> (Vec<usize>, bool) {
    match o {
        Order::Listed => ((0..v.len()).collect(), false),
        Order::Reversed => ((0..v.len()).rev().collect(), false),
        Order::Sorted => (member_order(v), true),
        Order::SortedUndeclared => (member_order(v), false),
    }
}

fn cnt(n: usize) -> u16 {
    u16::try_from(n).expect("harness: count")
}

pub fn fill_obj(b: &mut impl OB, v: &[(String, M)], o: Order) -> BR<()> {
    for i in member_seq(v, o).0 {
        let (k, m) = (&v[i].0, &v[i].1);
        match m {
            M::Null => b.nul(k)?,
            M::Bool(x) => b.boo(k, *x)?,
            M::Num(x) => b.num(k, &x.number())?,
            M::Str(x) => b.st(k, x)?,
            M::Arr(x) => {
                let mut c = b.ar(k, cnt(x.len()))?;
                fill_arr(&mut c, x, o)?;
                c.finish()?;
            }
            M::Obj(x) => {
                let mut c = b.ob(k, cnt(x.len()), o == Order::Sorted)?;
                fill_obj(&mut c, x, o)?;
                c.finish()?;
            }
        }
    }
    Ok(())
}

pub fn fill_arr(b: &mut impl AB, v: &[M], o: Order) -> BR<()> {
    for m in v {
        match m {
            M::Null => b.nul()?,
            M::Bool(x) => b.boo(*x)?,
            M::Num(x) => b.num(&x.number())?,
            M::Str(x) => b.st(x)?,
            M::Arr(x) => {
                let mut c = b.ar(cnt(x.len()))?;
                fill_arr(&mut c, x, o)?;
                c.finish()?;
            }
            M::Obj(x) => {
                let mut c = b.ob(cnt(x.len()), o == Order::Sorted)?;
                fill_obj(&mut c, x, o)?;
                c.finish()?;
            }
        }
    }
    Ok(())
}

/// Builds with the owned builders.
pub fn owned(m: &M, o: Order) -> BR<YasonBuf> {
    match m {
        M::Null => Scalar::null(),
        M::Bool(x) => Scalar::bool(*x),
        M::Num(x) => Scalar::number(x.number()),
        M::Str(x) => Scalar::string(x),
        M::Arr(v) => {
            let mut b = ArrayBuilder::try_new(cnt(v.len()))?;
            fill_arr(&mut b, v, o)?;
            b.finish()
        }
        M::Obj(v) => {
            let mut b = ObjectBuilder::try_new(cnt(v.len()), o == Order::Sorted)?;
            fill_obj(&mut b, v, o)?;
            b.finish()
        }
    }
}

/// Builds into a caller's buffer.
pub fn into<'a>(m: &M, o: Order, buf: &'a mut Vec<u8>) -> BR<&'a Yason> {
    match m {
        M::Null => Scalar::null_with_vec(buf),
        M::Bool(x) => Scalar::bool_with_vec(*x, buf),
        M::Num(x) => Scalar::number_with_vec(x.number(), buf),
        M::Str(x) => Scalar::string_with_vec(x, buf),
        M::Arr(v) => {
            let mut b = ArrayRefBuilder::try_new(buf, cnt(v.len()))?;
            fill_arr(&mut b, v, o)?;
            b.finish()
        }
        M::Obj(v) => {
            let mut b = ObjectRefBuilder::try_new(buf, cnt(v.len()), o == Order::Sorted)?;
            fill_obj(&mut b, v, o)?;
            b.finish()
        }
    }
}

/// The plain way used wherever the building route does not matter.
pub fn doc(m: &M) -> Result<YasonBuf, String> {
    owned(m, Order::Listed).map_err(|e| format!("building {}: {e}", m.show()))
}

pub fn number(v: Nm) -> Number {
    v.number()
}
