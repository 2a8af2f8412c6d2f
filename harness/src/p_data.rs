//! C15: embedded CBOR. C23: conversion of decoded data. C24: encoded documents.
use crate::gen::*;
use crate::p_lit::text_of;
use crate::p_parse::ascii;
use crate::real::*;
use crate::recog;
use crate::refi::*;
use crate::sym;
use crate::val::*;
use cddl_cat::value::Value;
use cddl_cat::{validate_cbor_bytes, validate_json_str};

/// Why an item has no value.
#[derive(Clone, Copy, PartialEq)]
pub enum Bad {
    /// not well-formed
    Broken,
    /// well-formed, but not in the data model: a tag or a simple value
    Outside,
}
/// A small CBOR decoder (RFC 8949), with no limits and no shortcuts.
struct Dec<'a> {
    b: &'a [u8],
    i: usize,
    outside: bool,
}
impl<'a> Dec<'a> {
    fn byte(&mut self) -> Result<u8, Bad> {
        if self.i >= self.b.len() {
            return Err(Bad::Broken);
        }
        self.i += 1;
        Ok(self.b[self.i - 1])
    }
    fn uint(&mut self, n: usize) -> Result<u64, Bad> {
        let mut x = 0;
        for _ in 0..n {
            x = x << 8 | self.byte()? as u64;
        }
        Ok(x)
    }
    /// The argument of a head; None for indefinite length.
    fn arg(&mut self, ai: u8) -> Result<Option<u64>, Bad> {
        match ai {
            0..=23 => Ok(Some(ai as u64)),
            24 => Ok(Some(self.uint(1)?)),
            25 => Ok(Some(self.uint(2)?)),
            26 => Ok(Some(self.uint(4)?)),
            27 => Ok(Some(self.uint(8)?)),
            31 => Ok(None),
            _ => Err(Bad::Broken),
        }
    }
    fn run(&mut self, n: u64) -> Result<Vec<u8>, Bad> {
        if n > (self.b.len() - self.i) as u64 {
            return Err(Bad::Broken);
        }
        let n = sym::concretize(n) as usize;
        self.i += n;
        Ok(self.b[self.i - n..self.i].to_vec())
    }
    fn string(&mut self, major: u8, n: Option<u64>) -> Result<Vec<u8>, Bad> {
        let one = |v: Vec<u8>| {
            if major == 3 && std::str::from_utf8(&v).is_err() {
                return Err(Bad::Broken);
            }
            Ok(v)
        };
        match n {
            Some(n) => one(self.run(n)?),
            None => {
                let mut o = vec![];
                loop {
                    let h = self.byte()?;
                    if h == 0xff {
                        return Ok(o);
                    }
                    if h >> 5 != major {
                        return Err(Bad::Broken);
                    }
                    match self.arg(h & 31)? {
                        Some(n) => o.extend_from_slice(&one(self.run(n)?)?),
                        // (malformed, but the decoder used reads it)
                        None => sym::assume(false),
                    }
                }
            }
        }
    }
    fn ended(&mut self, k: u64, n: Option<u64>) -> Result<bool, Bad> {
        match n {
            Some(n) => Ok(k == n),
            None => {
                if self.i < self.b.len() && self.b[self.i] == 0xff {
                    self.i += 1;
                    return Ok(true);
                }
                Ok(false)
            }
        }
    }
    fn item(&mut self) -> Result<V, Bad> {
        let h = self.byte()?;
        let (major, ai) = (h >> 5, h & 31);
        if major == 7 {
            return match ai {
                20 => Ok(V::Bool(false)),
                21 => Ok(V::Bool(true)),
                22 => Ok(V::Null),
                // undefined: may be read as null
                23 => {
                    sym::assume(false);
                    Ok(V::Null)
                }
                24 => {
                    // (below 32: malformed, but read as the short form)
                    let x = self.uint(1)?;
                    sym::assume(x >= 32);
                    self.outside = true;
                    Ok(V::Null)
                }
                25 => Ok(V::Float(half(self.uint(2)? as u16))),
                26 => Ok(V::Float(f32::from_bits(self.uint(4)? as u32) as f64)),
                27 => Ok(V::Float(f64::from_bits(self.uint(8)?))),
                28..=31 => Err(Bad::Broken),
                _ => {
                    self.outside = true;
                    Ok(V::Null)
                }
            };
        }
        let n = self.arg(ai)?;
        match (major, n) {
            (0, Some(n)) => Ok(V::Int(n as i128)),
            (1, Some(n)) => Ok(V::Int(-1 - n as i128)),
            (2, n) => Ok(V::Bytes(self.string(2, n)?)),
            (3, n) => Ok(V::Text(text_of(self.string(3, n)?))),
            (4, n) => {
                let mut v = vec![];
                while !self.ended(v.len() as u64, n)? {
                    v.push(self.item()?);
                }
                Ok(V::Arr(v))
            }
            (5, n) => {
                let mut v = vec![];
                while !self.ended(v.len() as u64, n)? {
                    let k = self.item()?;
                    // (what becomes of a repeated key is unspecified)
                    for (o, _) in &v {
                        sym::assume(!k.same(o));
                    }
                    v.push((k, self.item()?));
                }
                Ok(V::Map(v))
            }
            (6, Some(n)) => {
                // (bignums may be read as integers)
                sym::assume(n != 2);
                sym::assume(n != 3);
                self.item()?;
                self.outside = true;
                Ok(V::Null)
            }
            _ => Err(Bad::Broken),
        }
    }
}
fn half(x: u16) -> f64 {
    let e = x >> 10 & 31;
    let m = (x & 1023) as u64;
    let s = ((x >> 15) as u64) << 63;
    if e == 31 {
        return f64::from_bits(s | 0x7ff0_0000_0000_0000 | m << 42);
    }
    if e == 0 {
        let f = m as f64 * (1.0 / 16777216.0);
        return if s != 0 { -f } else { f };
    }
    f64::from_bits(s | (e as u64 + 1008) << 52 | m << 42)
}
/// The one item all of `b` encodes.
pub fn decode(b: &[u8]) -> Result<V, Bad> {
    let mut d = Dec { b, i: 0, outside: false };
    let v = d.item()?;
    if d.i != b.len() {
        return Err(Bad::Broken);
    }
    if d.outside {
        return Err(Bad::Outside);
    }
    Ok(v)
}

/// A small JSON decoder.
struct Js<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Js<'a> {
    fn at(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn blank(&mut self) {
        while matches!(self.at(), b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn word(&mut self, w: &[u8], v: V) -> Option<V> {
        if self.s.len() - self.i >= w.len() && &self.s[self.i..self.i + w.len()] == w {
            self.i += w.len();
            return Some(v);
        }
        None
    }
    fn string(&mut self) -> Option<String> {
        if self.at() != b'"' {
            return None;
        }
        let from = self.i + 1;
        let mut j = from;
        loop {
            if j >= self.s.len() || self.s[j] < 0x20 {
                return None;
            }
            match self.s[j] {
                b'"' => break,
                b'\\' => j += 2,
                _ => j += 1,
            }
        }
        self.i = j + 1;
        recog::unescape(&self.s[from..j], b'"').map(text_of)
    }
    fn digits(&mut self) -> Option<usize> {
        let from = self.i;
        while self.at().wrapping_sub(b'0') < 10 {
            self.i += 1;
        }
        if self.i == from {
            None
        } else {
            Some(self.i - from)
        }
    }
    fn number(&mut self) -> Option<V> {
        let neg = self.at() == b'-';
        if neg {
            self.i += 1;
        }
        let from = self.i;
        let n = self.digits()?;
        let int = &self.s[from..from + n];
        if n > 1 && int[0] == b'0' {
            return None;
        }
        let mut x = 0u128;
        for c in int {
            x = (x << 3).wrapping_add(x << 1).wrapping_add((*c - b'0') as u128);
        }
        let x = x as i128;
        let mut float = x > u64::MAX as i128 || neg && x > 1 << 63;
        // (minus zero may be read as a float or as an integer)
        sym::assume(!neg || int[0] != b'0');
        if self.at() == b'.' {
            self.i += 1;
            self.digits()?;
            float = true;
        }
        if self.at() == b'e' || self.at() == b'E' {
            self.i += 1;
            if self.at() == b'+' || self.at() == b'-' {
                self.i += 1;
            }
            // (beyond the range of floats)
            let n = self.digits()?;
            sym::assume(n < 3);
            float = true;
        }
        Some(if float { V::Float(0.1) } else { V::Int(if neg { -x } else { x }) })
    }
    fn item(&mut self) -> Option<V> {
        self.blank();
        match self.at() {
            b'n' => self.word(b"null", V::Null),
            b't' => self.word(b"true", V::Bool(true)),
            b'f' => self.word(b"false", V::Bool(false)),
            b'"' => Some(V::Text(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.blank();
                if self.at() == b']' {
                    self.i += 1;
                    return Some(V::Arr(v));
                }
                loop {
                    v.push(self.item()?);
                    self.blank();
                    let c = self.at();
                    self.i += 1;
                    if c == b']' {
                        return Some(V::Arr(v));
                    }
                    if c != b',' {
                        return None;
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v: Vec<(V, V)> = vec![];
                self.blank();
                if self.at() == b'}' {
                    self.i += 1;
                    return Some(V::Map(v));
                }
                loop {
                    self.blank();
                    let k = V::Text(self.string()?);
                    for (o, _) in &v {
                        sym::assume(!k.same(o));
                    }
                    self.blank();
                    if self.at() != b':' {
                        return None;
                    }
                    self.i += 1;
                    v.push((k, self.item()?));
                    self.blank();
                    let c = self.at();
                    self.i += 1;
                    if c == b'}' {
                        return Some(V::Map(v));
                    }
                    if c != b',' {
                        return None;
                    }
                }
            }
            _ => self.number(),
        }
    }
}
fn decode_json(s: &[u8]) -> Option<V> {
    let mut j = Js { s, i: 0 };
    let v = j.item()?;
    j.blank();
    if j.i == s.len() {
        Some(v)
    } else {
        None
    }
}

/// Schemas for documents; each has a rule `a`.
const DOC: &[&str] = &[
    "a = any",
    "a = int / [* a]",
    "a = [* (int / tstr)] / {* any => any}",
    "a = bstr / tstr / bool / nil",
    "a = float / 0..9 / [any, any]",
    "a = {? \"k\": int, * tstr => a} / uint",
];
const JDOC: &[&str] = &["a = any", "a = int / [* a] / {* tstr => a}", "a = tstr / nil / float", "a = {\"k\": 0..9} / [1, ? a] / bool"];

pub fn doc(schema: &str, bytes: &[u8]) {
    let want = match decode(bytes) {
        Ok(v) => Ref::new(schema.as_bytes()).outcome("a", &v),
        Err(_) => VALUE,
    };
    let got = cls(&validate_cbor_bytes("a", schema, bytes));
    sym::observe(got as u64);
    sym::check(got == want, "document-outcome");
    sym::reach(match want {
        OK => "accepted",
        MIS => "mismatch",
        _ => "value-error",
    });
}
pub fn jdoc(schema: &str, text: &str) {
    sym::note(text);
    let want = match decode_json(text.as_bytes()) {
        Some(v) => Ref::new(schema.as_bytes()).outcome("a", &v),
        None => VALUE,
    };
    let got = cls(&validate_json_str("a", schema, text));
    sym::observe(got as u64);
    sym::check(got == want, "document-outcome");
    sym::reach(match want {
        OK => "accepted",
        MIS => "mismatch",
        _ => "value-error",
    });
}
/// Document beginnings: each is followed by arbitrary bytes.
const HEADS: &[&[u8]] = &[
    b"\x82\x01", b"\x83\x61a", b"\xa1\x61k", b"\x9f\x01", b"\xbf\x61k", b"\x5f\x41a", b"\x7f\x61a", b"\x62", b"\x63\xe2", b"\x64\xf0\x9f", b"\x81\x81", b"\xa1\x01", b"\xa2\x61k\x01",
    b"\xc1", b"\xd8\x20", b"\x18", b"\x19\x01", b"\x1a\x00\x00", b"\x38", b"\x39", b"\x58\x02", b"\x59\x00", b"\x78\x01", b"\x98", b"\xb8", b"\xf8", b"\xf9", b"\x9a\xff\xff", b"\x5a\xff\xff",
    b"\xbb\xff\xff\xff\xff\xff\xff", b"\x7b\xff\xff\xff\xff\xff\xff", b"\x82\x82\x01\x02", b"\x9f\x9f\xff", b"\xa1\xa1\x01\x02",
];
/// Whole numbers of every width, all payload bytes arbitrary.
fn wide() -> Vec<u8> {
    let (h, n) = [(0x18u8, 1), (0x19, 2), (0x1a, 4), (0x1b, 8), (0x38, 1), (0x39, 2), (0x3a, 4), (0x3b, 8)][sym::choose(8)];
    let mut b = vec![h];
    b.extend_from_slice(&any_bytes(n));
    b
}
/// Floats of every width: halves arbitrary, others with one arbitrary byte; not-a-number in one form only.
fn wide_float() -> Vec<u8> {
    let mut b = [
        &b"\xf9\x00\x00"[..], b"\xfa\x00\x00\x00\x00", b"\xfa\x3f\xc0\x00\x00", b"\xfa\xc7\x80\xff\xff", b"\xfb\x00\x00\x00\x00\x00\x00\x00\x00", b"\xfb\x3f\xf8\x00\x00\x00\x00\x00\x00",
        b"\xfb\xc0\x51\xff\xff\xff\xff\xff\xff", b"\xf9\x7e\x00", b"\xfa\x7f\xc0\x00\x00", b"\xfb\x7f\xf8\x00\x00\x00\x00\x00\x00",
    ][sym::choose(10)].to_vec();
    if b[1] >= 0x7e && b[1] < 0xc0 {
        return b;
    }
    let at = match b.len() {
        3 => 1,
        5 => 1 + sym::choose(4),
        _ => [1usize, 2, 4, 5, 8][sym::choose(5)],
    };
    b[at] = sym::u8();
    if b.len() == 3 {
        b[1] = sym::concretize(sym::u8() as u64) as u8;
        b[2] = sym::u8();
    }
    // an exponent of all ones is left to infinity
    match b.len() {
        3 => sym::assume(b[1] & 0x7c != 0x7c || b[1] & 3 == 0 && b[2] == 0),
        5 => sym::assume(b[1] & 0x7f != 0x7f || b[2] & 0x80 == 0 || b[2] == 0x80 && b[3] == 0 && b[4] == 0),
        _ => sym::assume(b[1] & 0x7f != 0x7f || b[2] & 0xf0 != 0xf0 || b[2] == 0xf0 && b[3] == 0 && b[4] == 0 && b[5] == 0 && b[6] == 0 && b[7] == 0 && b[8] == 0),
    }
    b
}

fn eq(x: &Value, v: &V) -> bool {
    match (x, v) {
        (Value::Null, V::Null) => true,
        (Value::Bool(a), V::Bool(b)) => a == b,
        (Value::Integer(a), V::Int(b)) => a == b,
        (Value::Float(a), V::Float(b)) => a.0.to_bits() == b.to_bits(),
        (Value::Text(a), V::Text(b)) => a == b,
        (Value::Bytes(a), V::Bytes(b)) => a == b,
        (Value::Array(a), V::Arr(b)) => {
            if a.len() != b.len() {
                return false;
            }
            for (p, q) in a.iter().zip(b) {
                if !eq(p, q) {
                    return false;
                }
            }
            true
        }
        (Value::Map(a), V::Map(b)) => {
            if a.len() != b.len() {
                return false;
            }
            for (k, w) in b {
                let mut found = false;
                for (p, q) in a {
                    if eq(p, k) {
                        found = eq(q, w);
                        break;
                    }
                }
                if !found {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}
/// A scalar of any kind; every double.
fn scalar() -> V {
    match sym::choose(6) {
        0 => V::Null,
        1 => any_bool(),
        2 => any_int(),
        3 => V::Float(f64::from_bits(sym::u64())),
        4 => {
            let mut o = vec![];
            for _ in 0..sym::choose(3) {
                any_char(1 + sym::choose(4), &mut o);
            }
            V::Text(text_of(o))
        }
        _ => V::Bytes(any_bytes(sym::choose(4))),
    }
}
/// A scalar of a given kind, distinct for distinct n.
fn small(kind: usize, n: u8) -> V {
    match kind {
        0 => V::Null,
        1 => V::Bool(n == 0),
        2 => any_int(),
        3 => V::Float(any_float()),
        4 => V::Text(any_ascii(1)),
        5 => V::Bytes(any_bytes(1)),
        6 => V::Arr(vec![any_int()]),
        _ => V::Map(vec![(V::Text(any_ascii(1)), any_int())]),
    }
}
fn distinct(m: &[(V, V)]) {
    for i in 0..m.len() {
        for j in 0..i {
            sym::assume(!m[i].0.same(&m[j].0));
        }
    }
}
pub fn converts(v: &V) {
    match Value::try_from(&v.cbor()) {
        Ok(x) => sym::check(eq(&x, v), "cbor-value-kept"),
        Err(_) => sym::check(false, "cbor-value-converts"),
    }
    match Value::try_from(v.cbor()) {
        Ok(x) => sym::check(eq(&x, v), "cbor-value-kept"),
        Err(_) => sym::check(false, "cbor-value-converts"),
    }
    sym::reach("cbor");
    if v.is_json() {
        match Value::try_from(&v.json()) {
            Ok(x) => sym::check(eq(&x, v), "json-value-kept"),
            Err(_) => sym::check(false, "json-value-converts"),
        }
        match Value::try_from(v.json()) {
            Ok(x) => sym::check(eq(&x, v), "json-value-kept"),
            Err(_) => sym::check(false, "json-value-converts"),
        }
        sym::reach("json");
    }
}
/// T in `bstr .cbor T`.
const INNER: &[&str] = &["any", "int", "tstr / bool / nil", "[* int]", "{* any => any}", "bstr / float", "[int, ? tstr]", "0..9", "bstr .cbor int", "b\nb = [* b] / uint"];

pub fn embedded(inner: &str, content: &[u8], form: usize) {
    let text = match form {
        0 => cat(&["a = bstr .cbor (", inner, ")"]),
        1 => cat(&["a = [b, ? nil]\nb = bytes .cbor i\ni = ", inner]),
        _ => cat(&["a = {k: (bstr .cbor i) / int}\ni = ", inner]),
    };
    // (names a rule b of its own)
    if form == 1 {
        sym::assume(inner.as_bytes()[0] != b'b');
    }
    let text = if form == 0 && inner.as_bytes()[0] == b'b' && inner.len() > 8 && inner.as_bytes()[1] == b'\n' { cat(&["a = bstr .cbor ", inner]) } else { text };
    sym::note(&text);
    let c = must_load(&text);
    let v = V::Bytes(content.to_vec());
    let v = match form {
        0 => v,
        1 => V::Arr(vec![v]),
        _ => V::Map(vec![(t("k"), v)]),
    };
    let got = run_cbor(&c, "a", &v);
    sym::observe(got as u64);
    match decode(content) {
        Ok(x) => {
            let mut src = String::from("a = ");
            src.push_str(inner);
            let want = Ref::new(src.as_bytes()).outcome("a", &x);
            sym::check(got == want, "embedded-verdict");
            sym::reach(if want == OK { "accepted" } else { "mismatch" });
        }
        Err(Bad::Broken) => {
            sym::check(got == MIS, "broken-content-is-mismatch");
            sym::reach("broken");
        }
        Err(Bad::Outside) => sym::check(got != OK, "tag-accepted"),
    }
}

entries! {
    c15_bytes "C15" "q" ["accepted", "mismatch", "broken"] "byte strings of up to 3 arbitrary bytes against 10 types" {
        let inner = pick(INNER);
        let b = any_bytes(sym::choose(4));
        embedded(inner, &b, 0);
    }
    c15_place "C15" "q" ["accepted", "mismatch", "broken"] "byte strings of up to 2 arbitrary bytes, .cbor in arrays, maps, choices and behind names" {
        let inner = pick(INNER);
        let b = any_bytes(sym::choose(3));
        embedded(inner, &b, 1 + sym::choose(2));
    }
    c15_heads "C15" "q" ["accepted", "mismatch", "broken"] "34 beginnings of items followed by up to 2 arbitrary bytes" {
        let inner = INNER[[0usize, 3, 4, 5, 9][sym::choose(5)]];
        let mut b = HEADS[sym::choose(HEADS.len())].to_vec();
        b.extend_from_slice(&any_bytes(sym::choose(3)));
        embedded(inner, &b, 0);
    }
    c15_float "C15" "q" ["accepted", "mismatch"] "every half-width float; single and double floats with an arbitrary byte in any of 4 or 5 places" {
        let inner = INNER[[0usize, 1, 5][sym::choose(3)]];
        embedded(inner, &wide_float(), 0);
    }
    c15_wide "C15" "q" ["accepted", "mismatch", "broken"] "integers of every width with arbitrary payload, whole, cut short or with a byte left over" {
        let inner = INNER[[0usize, 1, 5, 7][sym::choose(4)]];
        let mut b = wide();
        match sym::choose(3) {
            0 => {}
            1 => {
                b.pop();
            }
            _ => b.push(sym::u8()),
        }
        embedded(inner, &b, 0);
    }
    c15_kind "C15" "q" ["mismatch"] "values of every kind but byte strings against .cbor" {
        let v = any_value();
        if let V::Bytes(_) = v {
            sym::assume(false);
        }
        let text = cat(&["a = bstr .cbor ", pick(&["any", "int", "tstr"])]);
        let c = must_load(&text);
        sym::check(run_cbor(&c, "a", &v) == MIS, "not-bytes-is-mismatch");
        sym::reach("mismatch");
    }
    c15_nested "C15" "q" ["accepted", "mismatch", "broken"] ".cbor inside .cbor, up to 2 arbitrary bytes in the inner byte string and one around it" {
        let n = sym::choose(3);
        let mut b = vec![0x40 + n as u8];
        b.extend_from_slice(&any_bytes(n));
        b.extend_from_slice(&any_bytes(sym::choose(2)));
        let c = must_load("a = bstr .cbor b\nb = bstr .cbor (int / [* int])");
        let got = run_cbor(&c, "a", &V::Bytes(b.clone()));
        match decode(&b) {
            Ok(V::Bytes(x)) => match decode(&x) {
                Ok(y) => {
                    let want = Ref::new(b"a = int / [* int]").outcome("a", &y);
                    sym::check(got == want, "embedded-verdict");
                    sym::reach(if want == OK { "accepted" } else { "mismatch" });
                }
                Err(Bad::Broken) => {
                    sym::check(got == MIS, "broken-content-is-mismatch");
                    sym::reach("broken");
                }
                Err(Bad::Outside) => sym::check(got != OK, "tag-accepted"),
            },
            Ok(_) => sym::check(got == MIS, "embedded-verdict"),
            Err(Bad::Broken) => sym::check(got == MIS, "broken-content-is-mismatch"),
            Err(Bad::Outside) => sym::check(got != OK, "tag-accepted"),
        }
    }
    c15_target "C15" "q" ["refused"] "a target of .cbor that is not a byte string type: refused when the schema is loaded, for 18 targets in 8 places" {
        let x = pick(&["tstr", "text", "any", "int", "uint", "nil", "bool", "float", "7", "\"x\"", "h'00'", "[bstr]", "{a: bstr}", "(tstr)", "(bstr / tstr)", "bstr .size 3", "nosuch2<bstr>", "1 .. 2"]);
        let x = if x.as_bytes().contains(&b'.') { cat(&["(", x, ")"]) } else { String::from(x) };
        let tpl = pick(&["a = $ .cbor int", "a = [$ .cbor [int]]", "a = {k: $ .cbor tstr}", "a = tstr / $ .cbor any", "a = g<$ .cbor int> g<x> = x", "a = int\nb = ($ .cbor c) c = 1", "a = &(k: $ .cbor int)", "a = {$ .cbor int => any}"]);
        let s = subst(tpl, &x, "");
        sym::note(&s);
        match load(&s) {
            Ok(_) => sym::check(false, "refused-at-load"),
            Err(e) => {
                sym::check(e == STRUCTURAL, "refused-as-schema-error");
                sym::reach("refused");
            }
        }
    }
    c15_bytes4 "C15" "t" ["accepted", "mismatch", "broken"] "byte strings of 4 arbitrary bytes against 10 types" {
        let inner = pick(INNER);
        let b = any_bytes(4);
        embedded(inner, &b, 0);
    }
    c23_scalar "C23" "q" ["cbor", "json"] "every null, boolean, integer and double, texts of up to 2 arbitrary characters, byte strings of up to 3 arbitrary bytes" {
        converts(&scalar());
    }
    c23_array "C23" "q" ["cbor", "json"] "arrays of up to 3 arbitrary scalars, nested up to depth 3" {
        let mut v = vec![];
        for _ in 0..sym::choose(3) {
            v.push(scalar());
        }
        let mut v = V::Arr(v);
        for _ in 0..sym::choose(3) {
            v = V::Arr(vec![any_bool(), v, any_int()]);
        }
        converts(&v);
    }
    c23_map "C23" "q" ["cbor"] "maps of two entries with distinct keys of every kind (containers too) and arbitrary scalars, in both orders" {
        let k1 = sym::choose(8);
        let k2 = sym::choose(8);
        let m = vec![(small(k1, 0), any_int()), (small(k2, 1), small(sym::choose(6), 0))];
        distinct(&m);
        converts(&V::Map(m));
    }
    c23_map3 "C23" "q" ["cbor", "json"] "maps of up to 3 distinct arbitrary one-character keys, with integers, arrays and maps as values" {
        let mut m = vec![];
        for _ in 0..1 + sym::choose(3) {
            m.push((V::Text(any_ascii(1)), any_int()));
        }
        distinct(&m);
        let v = V::Map(m);
        let v = match sym::choose(3) {
            0 => v,
            1 => V::Arr(vec![v, V::Null]),
            _ => V::Map(vec![(t("x"), v), (t("y"), V::Float(any_float()))]),
        };
        converts(&v);
    }
    c23_keys "C23" "q" ["cbor", "json"] "maps of one or two entries with unusual text keys (empty, blank, control characters, sigils, names of types) and scalars of every kind" {
        const K: &[&str] = &["", " ", "\u{0}", "$", "$ref", "@type", "__proto__", "null", "0", "-1", "a b", "\u{feff}", "\u{e9}", "\u{1f600}", "$serde_json::private::Number", "@@TAG@@"];
        let k = pick(K);
        let mut m = vec![(t(k), scalar())];
        if sym::choose(2) == 1 {
            m.push((V::Text(any_ascii(sym::choose(2))), any_int()));
        }
        distinct(&m);
        let v = V::Map(m);
        converts(&if sym::choose(2) == 0 { v } else { V::Arr(vec![v]) });
    }
    c23_int_keys "C23" "q" ["cbor"] "maps of 3 distinct arbitrary integer or float keys" {
        let f = sym::choose(2) == 1;
        let mut m = vec![];
        for i in 0..3u8 {
            m.push((if f && i != 1 { V::Float(any_float()) } else { any_int() }, V::Int(i as i128)));
        }
        distinct(&m);
        converts(&V::Map(m));
    }
    c23_agree "C23" "q" ["accepted", "mismatch"] "values of every kind JSON has, nested in arrays and maps, against 14 schemas: JSON and CBOR verdicts" {
        let s = pick(&[
            "a = any", "a = int", "a = uint / nil", "a = float", "a = tstr", "a = bool / 5", "a = [* int]", "a = {* tstr => any}", "a = {? a: int}", "a = [* (tstr / nil / float)]",
            "a = 0..9223372036854775807", "a = int .lt 0", "a = tstr .size 2", "a = {k: b} / [b] / b\nb = -5..18446744073709551615",
        ]);
        let v = any_value();
        sym::assume(v.is_json());
        let v = match sym::choose(3) {
            0 => v,
            1 => V::Arr(vec![v]),
            _ => V::Map(vec![(t("k"), v)]),
        };
        let c = must_load(s);
        let x = run_cbor(&c, "a", &v);
        let y = run_json(&c, "a", &v);
        sym::check(x == y, "same-verdict");
        sym::check(x == Ref::new(s.as_bytes()).outcome("a", &v), "verdict");
        sym::reach(if x == OK { "accepted" } else { "mismatch" });
    }
    c23_tag "C23" "q" ["value-error"] "a tag with arbitrary number, alone or inside arrays, map keys and map values" {
        use ciborium::Value as C;
        let inner = [V::Null, V::Int(1), V::Arr(vec![])][sym::choose(3)].cbor();
        let tag = C::Tag(sym::u64(), Box::new(inner));
        let v = match sym::choose(6) {
            0 => tag,
            1 => C::Array(vec![C::Null, tag]),
            2 => C::Map(vec![(C::Text(String::from("k")), tag)]),
            3 => C::Map(vec![(tag, C::Null)]),
            4 => C::Array(vec![C::Array(vec![tag]), C::Null]),
            _ => C::Tag(1, Box::new(tag)),
        };
        let c = must_load(pick(&["a = any", "a = [* any]", "a = int / {* any => any}"]));
        match c.rules.get("a") {
            Some(r) => {
                let got = cls(&cddl_cat::validate_cbor(r, &v, &c));
                sym::check(got == VALUE, "tag-is-value-error");
                sym::reach("value-error");
            }
            None => sym::check(false, "schema-loads"),
        }
    }
    c24_bytes "C24" "q" ["accepted", "mismatch", "value-error"] "documents of up to 3 arbitrary bytes against 6 schemas" {
        let s = pick(DOC);
        doc(s, &any_bytes(sym::choose(4)));
    }
    c24_heads "C24" "q" ["accepted", "mismatch", "value-error"] "34 beginnings of documents followed by up to 2 arbitrary bytes" {
        let s = DOC[sym::choose(3)];
        let mut b = HEADS[sym::choose(HEADS.len())].to_vec();
        b.extend_from_slice(&any_bytes(sym::choose(3)));
        doc(s, &b);
    }
    c24_float "C24" "q" ["accepted", "mismatch"] "every half-width float; single and double floats with an arbitrary byte in any of 4 or 5 places" {
        let s = pick(&["a = any", "a = int", "a = float", "a = 1.5 / 0..9"]);
        doc(s, &wide_float());
    }
    c24_wide "C24" "q" ["accepted", "mismatch", "value-error"] "integers of every width with arbitrary payload, whole, cut short, or with a byte left over" {
        let s = pick(&["a = any", "a = int", "a = 1..18446744073709551615", "a = float", "a = -4294967296..255"]);
        let mut b = wide();
        match sym::choose(3) {
            0 => {}
            1 => {
                b.pop();
            }
            _ => b.push(sym::u8()),
        }
        doc(s, &b);
    }
    c24_deep "C24" "q" ["value-error"] "documents nested 20 and 300 deep, whole or cut, ending in arbitrary bytes" {
        let h = [0x81u8, 0x9f, 0xbf, 0xc1, 0xa1][sym::choose(5)];
        let n = [20usize, 300][sym::choose(2)];
        let mut b = vec![];
        for _ in 0..n {
            b.push(h);
            if h == 0xa1 || h == 0xbf {
                b.push(0x01);
            }
        }
        b.extend_from_slice(&any_bytes(1));
        let got = cls(&validate_cbor_bytes("a", "a = any", &b));
        sym::check(got == OK || got == VALUE, "document-outcome");
        if got == VALUE {
            sym::reach("value-error");
        }
        let h = [b'[', b'{'][sym::choose(2)];
        let mut b = vec![];
        for _ in 0..n {
            b.push(h);
            if h == b'{' {
                b.extend_from_slice(b"\"k\":");
            }
        }
        b.push(b'1');
        let got = cls(&validate_json_str("a", "a = any", &text_of(b)));
        sym::check(got == VALUE, "document-outcome");
    }
    c24_json "C24" "q" ["accepted", "mismatch", "value-error"] "JSON texts of up to 3 arbitrary ASCII characters against 4 schemas" {
        let s = pick(JDOC);
        jdoc(s, &text_of(ascii(sym::choose(4))));
    }
    c24_json_hole "C24" "q" ["accepted", "mismatch", "value-error"] "JSON documents with up to 2 arbitrary ASCII characters in a place" {
        let s = pick(JDOC);
        let p = pick(&[
            "[$]", "{$}", "{\"k\":$}", "{\"k\"$1}", "[1$2]", "[1,$]", "\"$\"", "\"a$", "\"\\$\"", "\"\\u00$\"", "\"\\ud83d\\u$e00\"", "1$", "-$", "1.$", "1.5$", "1e$", "$1", "nul$", "tru$", "{\"k\":1$}",
            "{\"k\":1,$}", "[[$]]", "[]$", "18446744073709551$15", " $1 ", "-922337203685477580$", "{\"$\":1,\"k\":2}",
        ]);
        // (the value of a fraction is left to one arbitrary digit)
        let float = matches!(p, "1.$" | "1.5$" | "1e$" | "1$" | "-$" | "{\"k\":1$}" | "$1" | " $1 ");
        let h = ascii(sym::choose(if float { 2 } else { 3 }));
        jdoc(s, &crate::p_parse::fill(p, &[&h]));
    }
    c24_json_wide "C24" "q" ["accepted", "mismatch", "value-error"] "an arbitrary Unicode character of every length in JSON documents" {
        let mut h = vec![];
        any_char(1 + sym::choose(4), &mut h);
        let p = pick(&["\"$\"", "{\"$\":1}", "[\"a$\"]", "$", "[$]", "1$", "$1", "$\"a\"", "[$1]", "[1$]", "{$\"a\":1}", "{\"a\"$:1}", "{\"a\":1}$", " $ 1", "1 $"]);
        let s = pick(&["a = any", "a = tstr .size 2", "a = {tstr => 1}"]);
        jdoc(s, &crate::p_parse::fill(p, &[&h]));
    }
    c24_schema "C24" "q" ["parse-error", "missing"] "a broken schema or a missing rule, with documents of up to 2 arbitrary bytes" {
        let b = any_bytes(sym::choose(3));
        let j = ascii(sym::choose(3));
        let (s, rule, want) = [
            ("a = ", "a", PARSE), ("a = [int", "a", PARSE), ("", "a", PARSE), ("a = int\nb = }", "a", PARSE), ("b = int", "a", MISSING), ("a = int", "A", MISSING), ("a = int", "", MISSING),
            ("a = int", "int", MISSING), ("a<t> = t b = a<int>", "t", MISSING), ("a = \"\\q\"", "a", PARSE), ("a = int ?", "b", PARSE),
        ][sym::choose(11)];
        sym::check(cls(&validate_cbor_bytes(rule, s, &b)) == want, "schema-outcome");
        sym::check(cls(&validate_json_str(rule, s, &text_of(j))) == want, "schema-outcome");
        sym::reach(if want == PARSE { "parse-error" } else { "missing" });
    }
    c24_bytes4 "C24" "t" ["accepted", "mismatch", "value-error"] "documents of 4 arbitrary bytes against 6 schemas" {
        let s = pick(DOC);
        doc(s, &any_bytes(4));
    }
    c24_json4 "C24" "t" ["accepted", "mismatch", "value-error"] "JSON texts of 4 arbitrary ASCII characters against 4 schemas" {
        let s = pick(JDOC);
        jdoc(s, &text_of(ascii(4)));
    }
}
