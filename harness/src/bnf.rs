//! An independent strict decoder and a layout-choosing encoder of the published binary grammar
//! (crate documentation, "Yason binary format"), restricted to the types the library supports.
use crate::model::{key_cmp, member_order, Nm, M};
use yason::Number;

type D<T> = Result<T, String>;

fn u16_at(b: &[u8], p: usize) -> D<usize> {
    Ok(u16::from_le_bytes(b.get(p..p + 2).ok_or("short u16")?.try_into().unwrap()) as usize)
}
fn u32_at(b: &[u8], p: usize) -> D<usize> {
    Ok(u32::from_le_bytes(b.get(p..p + 4).ok_or("short u32")?.try_into().unwrap()) as usize)
}

thread_local! {
    static REPEATS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// As `decode`, for documents whose objects may hold a key more than once.
pub fn decode_repeats(b: &[u8]) -> D<M> {
    REPEATS.with(|r| r.set(true));
    let d = decode(b);
    REPEATS.with(|r| r.set(false));
    d
}

/// Decodes a whole document; every byte must be accounted for.
pub fn decode(b: &[u8]) -> D<M> {
    let (m, end) = typed(b, 0)?;
    if end != b.len() {
        return Err(format!("document ends at {end} of {} bytes", b.len()));
    }
    Ok(m)
}

fn typed(b: &[u8], p: usize) -> D<(M, usize)> {
    let t = *b.get(p).ok_or("short type")?;
    value(b, t, p + 1)
}

/// The value of type `t` stored at `p` and its end.
fn value(b: &[u8], t: u8, p: usize) -> D<(M, usize)> {
    match t {
        1 => object(b, p),
        2 => array(b, p),
        3 => {
            let mut len = 0usize;
            let mut q = p;
            loop {
                let c = *b.get(q).ok_or("short data length")?;
                if q - p == 4 {
                    return Err("data length of more than 4 bytes".into());
                }
                len |= ((c & 0x7f) as usize) << (7 * (q - p));
                q += 1;
                if c & 0x80 == 0 {
                    if c == 0 && q - p > 1 {
                        return Err("data length is not minimal".into());
                    }
                    break;
                }
            }
            let s = b.get(q..q + len).ok_or("short string")?;
            Ok((M::Str(std::str::from_utf8(s).map_err(|e| e.to_string())?.to_string()), q + len))
        }
        4 => {
            let len = *b.get(p).ok_or("short number")? as usize;
            if len == 0 {
                return Err("empty number".into());
            }
            let d = b.get(p + 1..p + 1 + len).ok_or("short number")?;
            Ok((M::Num(Nm::of(&Number::decode(d))), p + 1 + len))
        }
        5 => match b.get(p) {
            Some(0) => Ok((M::Bool(false), p + 1)),
            Some(1) => Ok((M::Bool(true), p + 1)),
            v => Err(format!("bad bool {v:?}")),
        },
        6 => Ok((M::Null, p)),
        t => Err(format!("bad type {t}")),
    }
}

fn object(b: &[u8], p: usize) -> D<(M, usize)> {
    let size = u32_at(b, p)?;
    let base = p + 4;
    let end = base + size;
    if size > i32::MAX as usize || end > b.len() {
        return Err(format!("object size {size} does not fit"));
    }
    let b = &b[..end];
    let n = u16_at(b, base)?;
    let mut spans = vec![];
    let mut members: Vec<(String, M)> = Vec::with_capacity(n);
    for i in 0..n {
        let off = u32_at(b, base + 2 + 4 * i)?;
        let kp = base + off;
        let klen = u16_at(b, kp)?;
        let k = b.get(kp + 2..kp + 2 + klen).ok_or("short key")?;
        let k = std::str::from_utf8(k).map_err(|e| e.to_string())?.to_string();
        let (m, e) = typed(b, kp + 2 + klen)?;
        if let Some(l) = members.last() {
            let o = key_cmp(&l.0, &k);
            if o == std::cmp::Ordering::Greater || o == std::cmp::Ordering::Equal && !REPEATS.with(|r| r.get()) {
                return Err(format!("key offsets not ordered: {:?} before {:?}", l.0, k));
            }
        }
        members.push((k, m));
        spans.push((kp, e));
    }
    tiled(spans, base + 2 + 4 * n, end)?;
    Ok((M::Obj(members), end))
}

fn array(b: &[u8], p: usize) -> D<(M, usize)> {
    let size = u32_at(b, p)?;
    let base = p + 4;
    let end = base + size;
    if size > i32::MAX as usize || end > b.len() {
        return Err(format!("array size {size} does not fit"));
    }
    let b = &b[..end];
    let n = u16_at(b, base)?;
    let mut spans = vec![];
    let mut elems = Vec::with_capacity(n);
    for i in 0..n {
        let ep = base + 2 + 5 * i;
        let t = *b.get(ep).ok_or("short value entry")?;
        let v = u32_at(b, ep + 1)?;
        match t {
            5 => elems.push(M::Bool(match v {
                0 => false,
                1 => true,
                v => return Err(format!("bad inlined bool {v}")),
            })),
            6 => {
                // the grammar gives null no value; the writer must still not leave the slot undefined (C04)
                elems.push(M::Null)
            }
            1 | 2 => {
                let vp = base + v;
                if b.get(vp) != Some(&t) {
                    return Err(format!("entry type {t} but outlined type {:?}", b.get(vp)));
                }
                let (m, e) = value(b, t, vp + 1)?;
                spans.push((vp, e));
                elems.push(m);
            }
            3 | 4 => {
                let (m, e) = value(b, t, base + v)?;
                spans.push((base + v, e));
                elems.push(m);
            }
            t => return Err(format!("bad entry type {t}")),
        }
    }
    tiled(spans, base + 2 + 5 * n, end)?;
    Ok((M::Arr(elems), end))
}

/// The stored parts fill the area exactly, in any order.
fn tiled(mut spans: Vec<(usize, usize)>, from: usize, to: usize) -> D<()> {
    spans.sort();
    let mut at = from;
    for (s, e) in spans {
        if s != at {
            return Err(format!("stored part at {s}, expected at {at}"));
        }
        at = e;
    }
    if at != to {
        return Err(format!("stored parts end at {at}, container at {to}"));
    }
    Ok(())
}

/// How the encoder lays out a container: the storage order of its parts is a permutation of the logical order
/// chosen by the number `perm` (in the factorial number system), and numbers may use the long form.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    pub perm: usize,
    pub long_numbers: bool,
}

pub const PLAIN: Layout = Layout { perm: 0, long_numbers: false };

impl Layout {
    /// A few layouts that differ from the one the builders choose.
    pub fn some() -> [Layout; 3] {
        [
            Layout { perm: 1, long_numbers: false },
            Layout { perm: 5, long_numbers: true },
            Layout { perm: usize::MAX, long_numbers: true },
        ]
    }
}

fn permutation(n: usize, mut k: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    for i in (1..=n).rev() {
        out.push(rest.remove(k % i));
        k /= i;
    }
    out
}

pub fn encode(m: &M, l: Layout) -> Vec<u8> {
    let mut v = vec![];
    put_typed(m, l, &mut v);
    v
}

fn code(m: &M) -> u8 {
    match m {
        M::Obj(_) => 1,
        M::Arr(_) => 2,
        M::Str(_) => 3,
        M::Num(_) => 4,
        M::Bool(_) => 5,
        M::Null => 6,
    }
}

fn put_typed(m: &M, l: Layout, out: &mut Vec<u8>) {
    out.push(code(m));
    put_value(m, l, out);
}

fn put_value(m: &M, l: Layout, out: &mut Vec<u8>) {
    match m {
        M::Null => {}
        M::Bool(b) => out.push(*b as u8),
        M::Str(s) => {
            let mut n = s.len();
            while n >= 0x80 {
                out.push((n & 0x7f) as u8 | 0x80);
                n >>= 7;
            }
            out.push(n as u8);
            out.extend_from_slice(s.as_bytes());
        }
        M::Num(v) => {
            let mut b = vec![];
            let num = v.number();
            if l.long_numbers {
                num.encode(&mut b).unwrap();
            } else {
                num.compact_encode(&mut b).unwrap();
            }
            out.push(b.len() as u8);
            out.extend_from_slice(&b);
        }
        M::Arr(v) => {
            let base = out.len() + 4;
            out.extend_from_slice(&[0; 4]);
            out.extend_from_slice(&(v.len() as u16).to_le_bytes());
            out.resize(base + 2 + 5 * v.len(), 0);
            for i in permutation(v.len(), l.perm) {
                let ep = base + 2 + 5 * i;
                out[ep] = code(&v[i]);
                let inl = match &v[i] {
                    M::Null => 0u32,
                    M::Bool(b) => *b as u32,
                    m => {
                        let off = out.len() - base;
                        if m.is_container() {
                            out.push(code(m));
                        }
                        put_value(m, l, out);
                        off as u32
                    }
                };
                out[ep + 1..ep + 5].copy_from_slice(&inl.to_le_bytes());
            }
            let size = (out.len() - base) as i32;
            out[base - 4..base].copy_from_slice(&size.to_le_bytes());
        }
        M::Obj(v) => {
            let base = out.len() + 4;
            out.extend_from_slice(&[0; 4]);
            out.extend_from_slice(&(v.len() as u16).to_le_bytes());
            out.resize(base + 2 + 4 * v.len(), 0);
            let order = member_order(v);
            for rank in permutation(v.len(), l.perm) {
                let (k, m) = &v[order[rank]];
                let off = (out.len() - base) as u32;
                out[base + 2 + 4 * rank..base + 6 + 4 * rank].copy_from_slice(&off.to_le_bytes());
                out.extend_from_slice(&(k.len() as u16).to_le_bytes());
                out.extend_from_slice(k.as_bytes());
                put_typed(m, l, out);
            }
            let size = (out.len() - base) as i32;
            out[base - 4..base].copy_from_slice(&size.to_le_bytes());
        }
    }
}

/// Where a scalar value of an encoded document has its type code.
#[derive(Clone, Debug, PartialEq)]
pub struct Leaf {
    /// child numbers from the root, members counted in key order
    pub path: Vec<usize>,
    pub type_at: usize,
    /// the value itself, or the inlined field of an array's value entry
    pub value_at: usize,
    pub in_array: bool,
}

/// The scalar values of an encoded document, in document order.
pub fn leaves(b: &[u8]) -> Vec<Leaf> {
    fn go(b: &[u8], t: u8, type_at: usize, value_at: usize, in_array: bool, path: &mut Vec<usize>, out: &mut Vec<Leaf>) {
        if t != 1 && t != 2 {
            out.push(Leaf { path: path.clone(), type_at, value_at, in_array });
            return;
        }
        let base = value_at + 4;
        for i in 0..u16_at(b, base).unwrap() {
            path.push(i);
            if t == 1 {
                let kp = base + u32_at(b, base + 2 + 4 * i).unwrap();
                let tp = kp + 2 + u16_at(b, kp).unwrap();
                go(b, b[tp], tp, tp + 1, false, path, out);
            } else {
                let ep = base + 2 + 5 * i;
                let at = match b[ep] {
                    1 | 2 => base + u32_at(b, ep + 1).unwrap() + 1,
                    3 | 4 => base + u32_at(b, ep + 1).unwrap(),
                    _ => ep + 1,
                };
                go(b, b[ep], ep, at, true, path, out);
            }
            path.pop();
        }
    }
    let mut out = vec![];
    go(b, b[0], 0, 1, false, &mut vec![], &mut out);
    out
}
