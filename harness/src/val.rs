//! The data model of the harnesses: values with symbolic payloads, and their
//! translation into what the public API takes.
use crate::sym;

#[derive(Clone)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Text(String),
    Bytes(Vec<u8>),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
}
use V::*;

/// An integer of the CBOR data model (-2^64 .. 2^64-1).
pub fn cint(i: i128) -> ciborium::value::Integer {
    match ciborium::value::Integer::try_from(i) {
        Ok(x) => x,
        Err(_) => {
            sym::assume(false);
            loop {}
        }
    }
}

impl V {
    pub fn cbor(&self) -> ciborium::Value {
        use ciborium::Value as C;
        match self {
            Null => C::Null,
            Bool(b) => C::Bool(*b),
            Int(i) => C::Integer(cint(*i)),
            Float(f) => C::Float(*f),
            Text(t) => C::Text(t.clone()),
            Bytes(b) => C::Bytes(b.clone()),
            Arr(a) => C::Array(a.iter().map(V::cbor).collect()),
            Map(m) => C::Map(m.iter().map(|(k, v)| (k.cbor(), v.cbor())).collect()),
        }
    }
    pub fn is_json(&self) -> bool {
        match self {
            Null | Bool(_) | Text(_) => true,
            Int(i) => *i >= i64::MIN as i128 && *i <= u64::MAX as i128,
            Float(f) => f.is_finite(),
            Bytes(_) => false,
            Arr(a) => a.iter().all(V::is_json),
            Map(m) => m.iter().all(|(k, v)| matches!(k, Text(_)) && v.is_json()),
        }
    }
    pub fn json(&self) -> serde_json::Value {
        use serde_json::Value as J;
        match self {
            Null => J::Null,
            Bool(b) => J::Bool(*b),
            Int(i) => {
                if *i >= 0 {
                    J::from(*i as u64)
                } else {
                    J::from(*i as i64)
                }
            }
            Float(f) => J::from(*f),
            Text(t) => J::String(t.clone()),
            Bytes(_) => J::Null,
            Arr(a) => J::Array(a.iter().map(V::json).collect()),
            Map(m) => J::Object(
                m.iter()
                    .map(|(k, v)| {
                        let k = match k {
                            Text(t) => t.clone(),
                            _ => String::new(),
                        };
                        (k, v.json())
                    })
                    .collect(),
            ),
        }
    }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (Null, Null) => true,
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
            (Text(a), Text(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Arr(a), Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (Map(a), Map(b)) => {
                a.len() == b.len()
                    && a.iter()
                        .zip(b)
                        .all(|(x, y)| x.0.same(&y.0) && x.1.same(&y.1))
            }
            _ => false,
        }
    }
}

pub fn t(s: &str) -> V {
    Text(String::from(s))
}
pub fn b(s: &[u8]) -> V {
    Bytes(s.to_vec())
}

/// Any integer of the CBOR data model.
pub fn any_int() -> V {
    let m = sym::u64();
    let neg = sym::u8();
    sym::assume(neg < 2);
    let x = m as i128;
    Int(if neg == 1 { -1 - x } else { x })
}
/// An integer within 8 of a power of two where widths, signs or float
/// precision change; only three bits of it are arbitrary.
pub fn edge_int() -> i128 {
    edge_pair().0
}
/// An edge integer and a number of three further arbitrary bits.
pub fn edge_pair() -> (i128, i128) {
    const B: [u32; 11] = [0, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64];
    let base = 1i128 << B[sym::choose(11)];
    let o = sym::u8();
    sym::assume(o < 64);
    let x = base - 4 + (o & 7) as i128;
    (if sym::choose(2) == 0 { x } else { -1 - x }, (o >> 3) as i128)
}
/// An edge integer of the CBOR data model.
pub fn edge_v() -> V {
    let x = edge_int();
    sym::assume(x < 1i128 << 64);
    sym::assume(x >= -(1i128 << 64));
    Int(x)
}
/// Any 64-bit signed integer.
pub fn i64v() -> V {
    Int(sym::u64() as i64 as i128)
}
pub fn any_bool() -> V {
    let x = sym::u8();
    sym::assume(x < 2);
    Bool(x == 1)
}
/// Any double except NaN and the zeros' signs (negative zero).
pub fn any_float() -> f64 {
    let bits = sym::u64();
    let abs = bits & 0x7fff_ffff_ffff_ffff;
    sym::assume(abs <= 0x7ff0_0000_0000_0000);
    sym::assume(bits != 0x8000_0000_0000_0000);
    f64::from_bits(bits)
}
/// Any n bytes.
pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    v
}
/// Any n ASCII characters.
pub fn any_ascii(n: usize) -> String {
    let v = any_bytes(n);
    for x in &v {
        sym::assume(*x < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any Unicode scalar value with the given UTF-8 length, appended.
pub fn any_char(len: usize, out: &mut Vec<u8>) -> u32 {
    let c = sym::u32();
    match len {
        1 => {
            sym::assume(c < 0x80);
            out.push(c as u8);
        }
        2 => {
            sym::assume(c >= 0x80 && c < 0x800);
            out.push(0xc0 | (c >> 6) as u8);
            out.push(0x80 | (c & 0x3f) as u8);
        }
        3 => {
            sym::assume(c >= 0x800);
            sym::assume(c < 0x10000);
            sym::assume((c >> 11) != 0x1b);
            out.push(0xe0 | (c >> 12) as u8);
            out.push(0x80 | (c >> 6 & 0x3f) as u8);
            out.push(0x80 | (c & 0x3f) as u8);
        }
        _ => {
            sym::assume(c >= 0x10000);
            sym::assume(c < 0x110000);
            out.push(0xf0 | (c >> 18) as u8);
            out.push(0x80 | (c >> 12 & 0x3f) as u8);
            out.push(0x80 | (c >> 6 & 0x3f) as u8);
            out.push(0x80 | (c & 0x3f) as u8);
        }
    }
    c
}
/// A scalar of every kind, each with an arbitrary payload (text and byte
/// strings up to 3 bytes), and small containers.
pub fn any_value() -> V {
    match sym::choose(12) {
        0 => Null,
        1 => any_bool(),
        2 => any_int(),
        3 => Float(any_float()),
        4 => Text(any_ascii(sym::choose(4))),
        5 => Bytes(any_bytes(sym::choose(4))),
        6 => Arr(vec![]),
        7 => Arr(vec![any_int()]),
        8 => Map(vec![]),
        9 => Map(vec![(t("a"), any_int())]),
        10 => {
            let mut o = vec![];
            any_char(2 + sym::choose(3), &mut o);
            Text(unsafe { String::from_utf8_unchecked(o) })
        }
        _ => Arr(vec![Null, t("a")]),
    }
}
