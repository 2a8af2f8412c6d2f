//! C19 and C20: what literals denote.
use crate::gen::*;
use crate::real::*;
use crate::recog;
use crate::refi::*;
use crate::sym;
use crate::val::*;
use cddl_cat::ivt::{Literal, Node};

pub fn text_of(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn join(p: &[&[u8]]) -> String {
    let mut o = vec![];
    for x in p {
        o.extend_from_slice(x);
    }
    text_of(o)
}
/// n digits, the first one not zero unless it is the only one.
fn dec(n: usize) -> Vec<u8> {
    let v = any_bytes(n);
    for (i, c) in v.iter().enumerate() {
        sym::assume(*c <= b'9');
        sym::assume(*c >= if i == 0 && n > 1 { b'1' } else { b'0' });
    }
    v
}
fn num(d: &[u8]) -> u64 {
    let mut x = 0u64;
    for c in d {
        x = x.wrapping_mul(10).wrapping_add((*c as u32).wrapping_sub(48) as u64);
    }
    x
}
/// Places a literal can stand in, with the data around its value.
pub const LPOS: &[&str] = &[
    "a = $",
    "a = [$]",
    "a = {k: $}",
    "a = {$ => any}",
    "a = [\"xyzzyx\"/$, b]\nb = nil",
    "a = w<$>\nw<x> = x",
    "a = {$: any}",
    "a = &(p: nil, q: $)",
    "a = [? k: $]",
    "a = {? \"k\" => nil / $}",
];
pub fn at_pos(i: usize, v: V) -> V {
    match i {
        1 | 8 => V::Arr(vec![v]),
        2 | 9 => V::Map(vec![(t("k"), v)]),
        3 | 6 => V::Map(vec![(v, V::Null)]),
        4 => V::Arr(vec![v, V::Null]),
        _ => v,
    }
}
pub fn put(tpl: &str, lit: &[u8]) -> String {
    let mut o = vec![];
    for c in tpl.as_bytes() {
        if *c == b'$' {
            o.extend_from_slice(lit);
        } else {
            o.push(*c);
        }
    }
    text_of(o)
}
/// The literal `lit`, at position p, denotes the integer `want` (or, if None,
/// the text is refused with a parse error).
fn denotes_int(lit: &[u8], p: usize, want: Option<i128>) {
    let text = put(LPOS[p], lit);
    sym::note(&text);
    match (load(&text), want) {
        (Ok(c), Some(w)) => {
            let m = sym::u64() as i128;
            let v = V::Int(if sym::choose(2) == 0 { m } else { -1 - m });
            let same = match &v {
                V::Int(i) => *i == w,
                _ => false,
            };
            let got = run_cbor(&c, "a", &at_pos(p, v));
            sym::observe(got as u64);
            sym::check(got == if same { OK } else { MIS }, "integer-literal-value");
            sym::check(run_cbor(&c, "a", &at_pos(p, V::Float(any_float()))) == MIS, "integer-literal-kind");
            sym::reach("exact");
        }
        (Err(e), None) => {
            sym::check(e == PARSE, "integer-literal-refused");
            sym::reach("refused");
        }
        (Ok(_), None) => sym::check(false, "integer-literal-out-of-range-accepted"),
        (Err(_), Some(_)) => sym::check(false, "integer-literal-loads"),
    }
}

/// A digit string with a window of symbolic digits in it.
fn windowed(back: &[u8], at: usize, w: usize) -> Vec<u8> {
    let mut d = back.to_vec();
    let x = any_bytes(w);
    for i in 0..w {
        sym::assume(x[i] <= b'9');
        sym::assume(x[i] >= if at + i == 0 { b'1' } else { b'0' });
        d[at + i] = x[i];
    }
    d
}
const BACK: &[&[u8]] = &[
    b"1000000000000000", b"99999999999999999", b"100000000000000000", b"999999999999999999", b"1000000000000000000", b"9223372036854775807", b"9999999999999999999",
    b"10000000000000000000", b"18446744073709551615", b"36893488147419103231", b"92233720368547758070", b"100000000000000000000", b"184467440737095516150",
    b"340282366920938463463374607431768211455",
];


/// Hexadecimal digits: those of `back`, with `w` arbitrary ones from `at` on.
fn hexed(back: &[u8], at: usize, w: usize) -> Vec<u8> {
    let mut d = back.to_vec();
    for i in at..at + w {
        let x = sym::u8();
        match sym::choose(3) {
            0 => {
                sym::assume(x >= b'0');
                sym::assume(x <= b'9');
            }
            1 => {
                sym::assume(x >= b'a');
                sym::assume(x <= b'f');
            }
            _ => {
                sym::assume(x >= b'A');
                sym::assume(x <= b'F');
            }
        }
        d[i] = x;
    }
    d
}
fn hexnum(d: &[u8]) -> u128 {
    let mut x = 0u128;
    for c in d {
        x = x << 4 | recog::hexval(*c) as u128;
    }
    x
}
fn binnum(d: &[u8]) -> u128 {
    let mut x = 0u128;
    for c in d {
        x = x << 1 | (*c & 1) as u128;
    }
    x
}
/// What an integer literal of this magnitude denotes.
fn limited(neg: bool, m: u128) -> Option<i128> {
    if neg {
        // -2^63 may be accepted or refused
        sym::assume(m != 1 << 63);
        if m < 1 << 63 {
            Some(-(m as i128))
        } else {
            None
        }
    } else if m <= u64::MAX as u128 {
        Some(m as i128)
    } else {
        None
    }
}
const HEXBACK: &[&[u8]] = &[
    b"0", b"00", b"7f", b"000", b"0010", b"fFfFfFf", b"80000000", b"123456789", b"7fffffffffffffff", b"8000000000000000", b"ffffffffffffffff", b"0123456789abcdef", b"10000000000000000", b"0ffffffffffffffff",
    b"00000000000000000000007b", b"fffffffffffffffff",
];
const BINBACK: &[&[u8]] = &[
    b"0", b"01", b"111", b"00001111", b"10101010101010101010101010101010", b"111111111111111111111111111111111111111111111111111111111111111",
    b"1111111111111111111111111111111111111111111111111111111111111111", b"1000000000000000000000000000000000000000000000000000000000000000",
    b"01111111111111111111111111111111111111111111111111111111111111111", b"10000000000000000000000000000000000000000000000000000000000000000",
];

/// Is `f` the double nearest to digits * 10^e (ties to even)?
fn nearest(digits: &[u8], e: i32, f: f64) -> bool {
    let mut dec = Big::new();
    for c in digits {
        dec.mul(10);
        dec.add((*c - b'0') as u32);
    }
    let bits = f.to_bits();
    if bits >> 63 != 0 {
        return false;
    }
    let x = (bits >> 52) as i32;
    if x == 0x7ff {
        // beyond the largest double by half a unit or more
        return false;
    }
    let (m, q) = if x == 0 { (bits, -1074) } else { (bits & ((1 << 52) - 1) | 1 << 52, x - 1075) };
    // compare 2*dec*10^e with (2m+1)*2^q and (2m-1)*2^q
    dec.mul(2);
    let side = |k: u64| {
        let mut b = Big::new();
        b.v.push(k as u32);
        b.v.push((k >> 32) as u32);
        b
    };
    let scale10 = |b: &mut Big, n: i32| {
        for _ in 0..n {
            b.mul(10);
        }
    };
    let shift = |b: &mut Big, n: i32| {
        for _ in 0..n / 16 {
            b.mul(1 << 16);
        }
        b.mul(1 << (n % 16) as u32);
    };
    let mut hi = side(2 * m + 1);
    let mut lo = if m == 0 {
        side(0)
    } else {
        // below a power of two the spacing is half as wide
        if bits & ((1 << 52) - 1) == 0 && x > 1 {
            side(4 * m - 1)
        } else {
            side(4 * m - 2)
        }
    };
    let mut dlo = dec.clone();
    dlo.mul(2);
    if e >= 0 {
        scale10(&mut dec, e);
        scale10(&mut dlo, e);
    } else {
        scale10(&mut hi, -e);
        scale10(&mut lo, -e);
    }
    if q >= 0 {
        shift(&mut hi, q);
        shift(&mut lo, q);
    } else {
        shift(&mut dec, -q);
        shift(&mut dlo, -q);
    }
    let even = m % 2 == 0;
    let a = lo.cmp(&dlo);
    let b = dec.cmp(&hi);
    (a < 0 || (a == 0 && (even || m == 0))) && (b < 0 || (b == 0 && even))
}
#[derive(Clone)]
struct Big {
    v: Vec<u32>,
}
impl Big {
    fn new() -> Big {
        Big { v: vec![] }
    }
    fn mul(&mut self, k: u32) {
        let mut c = 0u64;
        for x in self.v.iter_mut() {
            let t = *x as u64 * k as u64 + c;
            *x = t as u32;
            c = t >> 32;
        }
        if c != 0 {
            self.v.push(c as u32);
        }
    }
    fn add(&mut self, k: u32) {
        let mut c = k as u64;
        for x in self.v.iter_mut() {
            let t = *x as u64 + c;
            *x = t as u32;
            c = t >> 32;
        }
        if c != 0 {
            self.v.push(c as u32);
        }
    }
    fn cmp(&self, o: &Big) -> i32 {
        let n = if self.v.len() > o.v.len() { self.v.len() } else { o.v.len() };
        for i in (0..n).rev() {
            let a = if i < self.v.len() { self.v[i] } else { 0 };
            let b = if i < o.v.len() { o.v[i] } else { 0 };
            if a != b {
                return if a < b { -1 } else { 1 };
            }
        }
        0
    }
}
/// The float a schema `a = LITERAL` was loaded with.
fn loaded_float(text: &str) -> f64 {
    let c = must_load(text);
    match c.rules.get("a").map(|r| &r.node) {
        Some(Node::Literal(Literal::Float(f))) => *f,
        _ => {
            sym::check(false, "float-literal-kind");
            loop {}
        }
    }
}
/// Hard conversions: ties, neighbours of ties, subnormals, the ends of the range.
const HARD: &[(&[u8], i32)] = &[
    (b"9007199254740993", 0),
    (b"9007199254740995", 0),
    (b"90071992547409930000000000000000000001", -22),
    (b"179769313486231570", 291),
    (b"1797693134862315807", 290),
    (b"22250738585072014", -324),
    (b"22250738585072011", -324),
    (b"49406564584124654", -340),
    (b"247032822920623272", -341),
    (b"24703282292062327208299999999999999999", -361),
    (b"8988465674311580", 292),
    (b"12345678901234567890123456789", -10),
    (b"30000000000000000000000000000000001", -35),
    (b"100000000000000008388608", 0),
    (b"7205759403792793199999", -5),
    (b"5000000000000000000000", -324),
    (b"1090544144181609348835077142190", 10),
    (b"630000000000000011", -17),
];
fn dec_text(n: i64) -> Vec<u8> {
    let mut o = vec![];
    let mut x = if n < 0 { -n } else { n };
    loop {
        o.insert(0, b'0' + (x % 10) as u8);
        x /= 10;
        if x == 0 {
            break;
        }
    }
    if n < 0 {
        o.insert(0, b'-');
    }
    o
}
fn pow10(n: usize) -> f64 {
    let mut x = 1.0;
    for _ in 0..n {
        x *= 10.0;
    }
    x
}
/// Digits of an integer part: no leading zero.
fn digits(n: usize, lead: bool) -> Vec<u8> {
    let v = any_bytes(n);
    for (i, c) in v.iter().enumerate() {
        sym::assume(*c <= b'9');
        sym::assume(*c >= if i == 0 && n > 1 && lead { b'1' } else { b'0' });
    }
    v
}
/// The literal `lit` at position p denotes the float `want`.
fn denotes_float(lit: &[u8], p: usize, want: f64) {
    let text = put(LPOS[p], lit);
    sym::note(&text);
    let c = must_load(&text);
    sym::check(run_cbor(&c, "a", &at_pos(p, V::Float(want))) == OK, "float-literal-value");
    let y = any_float();
    let same = y == want;
    sym::check(run_cbor(&c, "a", &at_pos(p, V::Float(y))) == if same { OK } else { MIS }, "float-literal-exact");
    sym::check(run_cbor(&c, "a", &at_pos(p, any_int())) == MIS, "float-literal-kind");
    sym::reach("exact");
}
fn limits_of(text: &str) -> Result<(usize, usize), u8> {
    let c = load(text)?;
    match c.rules.get("a").map(|r| &r.node) {
        Some(Node::Array(a)) if a.members.len() == 1 => match &a.members[0] {
            Node::Occur(o) => Ok(o.limits()),
            _ => Err(99),
        },
        _ => Err(99),
    }
}
/// A limit in one of the notations: its text and value.
fn limit() -> (Vec<u8>, u128) {
    match sym::choose(5) {
        0 => {
            let n = 1 + sym::choose(3);
            let d = dec(n);
            let v = num(&d) as u128;
            (d, v)
        }
        1 => {
            let back = HEXBACK[sym::choose(HEXBACK.len())];
            let d = hexed(back, sym::choose(back.len()), 1);
            let v = if recog::fits_u64(&d, 16) { hexnum(&d) } else { u128::MAX };
            (join(&[b"0x", &d]).into_bytes(), v)
        }
        2 => {
            let back = BINBACK[sym::choose(BINBACK.len())];
            let mut d = back.to_vec();
            let at = sym::choose(back.len());
            d[at] = b'0' + sym::choose(2) as u8;
            let v = if recog::fits_u64(&d, 2) { binnum(&d) } else { u128::MAX };
            (join(&[b"0b", &d]).into_bytes(), v)
        }
        3 => {
            let back = BACK[sym::choose(BACK.len())];
            let d = windowed(back, sym::choose(back.len()), 1);
            let v = if recog::fits_u64(&d, 10) { num(&d) as u128 } else { u128::MAX };
            (d, v)
        }
        _ => (vec![], 0),
    }
}

entries! {
    c19_dec "C19" "q" ["exact"] "decimal integers of 1 to 4 arbitrary digits" {
        let n = 1 + sym::choose(4);
        let d = dec(n);
        denotes_int(&d, sym::choose(2), Some(num(&d) as i128));
    }
    c19_neg "C19" "q" ["exact"] "negative decimal integers of 1 to 4 arbitrary digits" {
        let n = 1 + sym::choose(4);
        let d = dec(n);
        denotes_int(&join(&[b"-", &d]).into_bytes(), sym::choose(2), Some(-(num(&d) as i128)));
    }
    c19_wide "C19" "q" ["exact", "refused"] "14 digit strings around the limits, of 16 to 39 digits, with 2 consecutive arbitrary digits anywhere in them, with and without minus" {
        let back = BACK[sym::choose(BACK.len())];
        let at = sym::choose(back.len() - 1);
        let d = windowed(back, at, 2);
        let p = sym::choose(2);
        if sym::choose(2) == 0 {
            let want = if recog::fits_u64(&d, 10) { Some(num(&d) as i128) } else { None };
            denotes_int(&d, p, want);
        } else {
            // -2^63 may be accepted or refused
            let want = if d.len() < 19 || (d.len() == 19 && recog::not_above(&d, b"9223372036854775807")) { Some(-(num(&d) as i128)) } else { None };
            denotes_int(&join(&[b"-", &d]).into_bytes(), p, want);
        }
    }
    c19_place "C19" "q" ["exact"] "integers of two arbitrary digits in ten places of a schema" {
        let d = dec(2);
        let p = sym::choose(LPOS.len());
        match sym::choose(3) {
            0 => denotes_int(&d, p, Some(num(&d) as i128)),
            1 => denotes_int(&join(&[b"-", &d]).into_bytes(), p, Some(-(num(&d) as i128))),
            _ => {
                let d = hexed(b"7f", 0, 2);
                denotes_int(&join(&[b"-0x", &d]).into_bytes(), p, Some(-(hexnum(&d) as i128)))
            }
        }
    }
    c19_hex "C19" "q" ["exact", "refused"] "0x literals: 16 digit strings of 1 to 24 digits with up to 2 arbitrary digits anywhere, both cases, with and without minus" {
        let back = HEXBACK[sym::choose(HEXBACK.len())];
        let w = if back.len() < 2 { 1 } else { 2 };
        let d = hexed(back, sym::choose(back.len() + 1 - w), w);
        let m = if recog::fits_u64(&d, 16) { hexnum(&d) } else { u128::MAX };
        let neg = sym::choose(2) == 1;
        denotes_int(&join(&[if neg { b"-0x" } else { b"0x" }, &d]).into_bytes(), sym::choose(2), limited(neg, m));
    }
    c19_bin "C19" "q" ["exact", "refused"] "0b literals: 10 digit strings of 1 to 65 digits with up to 3 arbitrary digits anywhere, with and without minus" {
        let back = BINBACK[sym::choose(BINBACK.len())];
        let mut d = back.to_vec();
        let w = if back.len() < 3 { back.len() } else { 3 };
        let at = sym::choose(back.len() + 1 - w);
        let x = any_bytes(w);
        for i in 0..w {
            sym::assume(x[i] >= b'0');
            sym::assume(x[i] <= b'1');
            d[at + i] = x[i];
        }
        let m = if recog::fits_u64(&d, 2) { binnum(&d) } else { u128::MAX };
        let neg = sym::choose(2) == 1;
        denotes_int(&join(&[if neg { b"-0b" } else { b"0b" }, &d]).into_bytes(), sym::choose(2), limited(neg, m));
    }
    c19_float "C19" "q" ["exact"] "floats I.F: eight digit strings with any one digit arbitrary, with and without minus" {
        const FB: &[(&[u8], usize)] = &[(b"00", 1), (b"15", 1), (b"1234", 2), (b"1000", 1), (b"0001", 1), (b"1234567125", 7), (b"18446744073709551616125", 20), (b"9999999999", 5)];
        let (back, point) = FB[sym::choose(FB.len())];
        let at = sym::choose(back.len());
        let mut d = back.to_vec();
        let x = sym::u8();
        sym::assume(x >= if at == 0 && point > 1 { b'1' } else { b'0' });
        sym::assume(x <= b'9');
        if back.len() > 4 {
            // (solved one digit at a time)
            d[at] = sym::concretize(x as u64) as u8;
        } else {
            d[at] = x;
        }
        let neg = sym::choose(2) == 1;
        let f = if back.len() < 19 {
            num(&d) as f64 / pow10(back.len() - point)
        } else {
            let f = loaded_float(&join(&[b"a = ", &d[..point], b".", &d[point..]]));
            sym::check(nearest(&d, point as i32 - back.len() as i32, f), "float-literal-nearest");
            f
        };
        sym::assume(!neg || f != 0.0);
        denotes_float(&join(&[if neg { b"-" } else { b"" }, &d[..point], b".", &d[point..]]).into_bytes(), sym::choose(2), if neg { -f } else { f });
    }
    c19_exp "C19" "q" ["exact"] "floats I[.F]e[+-]X of one arbitrary digit each, exponents -20 to 20" {
        let i = digits(1, true);
        let f = digits(sym::choose(2), false);
        let mut m = num(&i);
        let mut lit = i;
        if f.len() > 0 {
            let g = sym::concretize(f[0] as u64) as u8;
            m = num(&[lit[0], g]);
            lit.push(b'.');
            lit.push(g);
        }
        lit.push(b'e');
        let x = sym::choose(21);
        let down = match sym::choose(3) {
            0 => false,
            1 => {
                lit.push(b'+');
                false
            }
            _ => {
                lit.push(b'-');
                true
            }
        };
        if sym::choose(2) == 1 {
            lit.push(b'0');
        }
        lit.extend_from_slice(&dec_text(x as i64));
        let v = if down {
            m as f64 / pow10(x + f.len())
        } else if x >= f.len() {
            m as f64 * pow10(x - f.len())
        } else {
            m as f64 / pow10(f.len() - x)
        };
        denotes_float(&lit, 0, v);
    }
    c19_float_place "C19" "q" ["exact"] "a float of one arbitrary digit in ten places of a schema" {
        let d = digits(1, false);
        denotes_float(&join(&[&d, b".25"]).into_bytes(), sym::choose(LPOS.len()), num(&d) as f64 + 0.25);
    }
    c19_powers "C19" "q" ["exact"] "d, d.0 and d.d with every exponent from -330 to 309" {
        let d = b'1' + sym::choose(9) as u8;
        let e = sym::choose(640) as i32 - 330;
        let (m, lit, k) = match sym::choose(3) {
            0 => (vec![d], vec![d], e),
            1 => (vec![d], vec![d, b'.', b'0'], e),
            _ => (vec![d, b'7'], vec![d, b'.', b'7'], e - 1),
        };
        let text = join(&[b"a = ", &lit, b"e", &dec_text(e as i64)]);
        sym::note(&text);
        let f = loaded_float(&text);
        if f.is_infinite() {
            sym::check(e > 308 || e == 308 && d > b'1', "float-literal-nearest");
            return;
        }
        sym::check(nearest(&m, k, f), "float-literal-nearest");
        sym::reach("exact");
    }
    c19_hard "C19" "q" ["exact"] "hard decimal conversions (ties, subnormals, the ends of the range) with any value of any one digit, written with exponent or point" {
        let (d, e) = HARD[sym::choose(HARD.len())];
        let mut d = d.to_vec();
        let at = sym::choose(d.len());
        let x = sym::choose(10) as u8;
        if at == 0 {
            sym::assume(x != 0);
        }
        d[at] = b'0' + x;
        let dot = sym::choose(3);
        let lit = match dot {
            0 => join(&[&d, b"e", &dec_text(e as i64)]),
            1 => join(&[&d[..1], b".", &d[1..], b"e", &dec_text(e as i64 + d.len() as i64 - 1)]),
            _ => {
                sym::assume(e > -40);
                sym::assume(e < 40);
                if e >= 0 {
                    let mut o = d.clone();
                    for _ in 0..e {
                        o.push(b'0');
                    }
                    o.extend_from_slice(b".0");
                    text_of(o)
                } else {
                    let mut o = vec![];
                    let n = d.len() as i32 + e;
                    for _ in 0..1 - n {
                        o.push(b'0');
                    }
                    o.extend_from_slice(&d);
                    let n = (o.len() as i32 + e) as usize;
                    o.insert(n, b'.');
                    text_of(o)
                }
            }
        };
        let text = cat(&["a = ", &lit]);
        sym::note(&text);
        let f = loaded_float(&text);
        if f.is_infinite() {
            sym::check(d.len() as i32 + e >= 309, "float-literal-nearest");
            return;
        }
        sym::check(nearest(&d, e, f), "float-literal-nearest");
        sym::reach("exact");
    }
    c19_occur "C19" "q" ["exact", "refused"] "occurrence limits n*m, n*, *m in decimal, hexadecimal and binary with arbitrary digits, up to and beyond 64 bits" {
        let two = sym::choose(2) == 0;
        let (lt, lv) = if two { limit() } else { (vec![], 0) };
        let (ut, uv) = if two { (b"77".to_vec(), 77) } else { limit() };
        if !two && sym::choose(2) == 1 {
            // n* alone
            sym::assume(ut.len() > 0);
            let text = join(&[b"a = [", &ut, b"* int]"]);
            sym::note(&text);
            let got = limits_of(&text);
            if uv == u128::MAX {
                sym::check(got == Err(PARSE), "limit-refused");
                sym::reach("refused");
            } else {
                sym::check(got == Ok((uv as usize, usize::MAX)), "limit-value");
                sym::reach("exact");
            }
            return;
        }
        sym::assume(lt.len() + ut.len() > 0);
        let text = join(&[b"a = [", &lt, b"*", &ut, b" int]"]);
        sym::note(&text);
        let got = limits_of(&text);
        if lv == u128::MAX || uv == u128::MAX {
            sym::check(got == Err(PARSE), "limit-refused");
            sym::reach("refused");
        } else {
            sym::check(got == Ok((lv as usize, uv as usize)), "limit-value");
            sym::reach("exact");
        }
    }
    c19_ops "C19" "q" ["accepted", "mismatch"] "a literal of two arbitrary digits as a range end or operand of a comparison" {
        let base = sym::choose(3);
        let neg = sym::choose(2) == 1;
        let (mut lit, m) = match base {
            0 => {
                let d = dec(2);
                let n = num(&d);
                (d, n as i128)
            }
            1 => {
                let d = hexed(b"00", 0, 2);
                let n = hexnum(&d);
                (join(&[b"0x", &d]).into_bytes(), n as i128)
            }
            _ => (b"0b1011".to_vec(), 11),
        };
        let n = if neg { -m } else { m };
        if neg {
            lit.insert(0, b'-');
        }
        let k = sym::choose(8);
        const TPL: &[&str] = &["a = $..70000", "a = -70000..$", "a = -70000...$", "a = int .lt $", "a = int .le $", "a = int .gt $", "a = int .ge $", "a = $...70000"];
        let text = put(TPL[k], &lit);
        sym::note(&text);
        let c = must_load(&text);
        let x = sym::u64() as i64 as i128;
        let want = match k {
            0 => n <= x && x <= 70000,
            1 => -70000 <= x && x <= n,
            2 => -70000 <= x && x < n,
            3 => x < n,
            4 => x <= n,
            5 => x > n,
            6 => x >= n,
            _ => n <= x && x < 70000,
        };
        sym::check(run_cbor(&c, "a", &V::Int(x)) == if want { OK } else { MIS }, "operand-value");
        sym::reach(if want { "accepted" } else { "mismatch" });
    }
}
