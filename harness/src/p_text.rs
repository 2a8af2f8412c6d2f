//! C20: what text and byte string literals denote.
use crate::p_lit::{at_pos, join, put, text_of, LPOS};
use crate::real::*;
use crate::recog;
use crate::refi::*;
use crate::sym;
use crate::val::*;

/// The value a whole literal denotes; None if it is refused.
/// Skips bodies with a quote in them (the literal would end there).
fn denoted(lit: &[u8]) -> Option<V> {
    let q = lit[lit.len() - 1];
    let start = if lit[0] == b'h' {
        2
    } else if lit[0] == b'b' {
        4
    } else {
        1
    };
    let body = &lit[start..lit.len() - 1];
    let end = recog::string_end(body, q);
    if end < body.len() {
        sym::assume(body[end] != q);
        // a character that may not stand in a literal, or a backslash that
        // takes the closing quote
        return None;
    }
    if q == b'"' {
        return recog::unescape(body, q).map(|v| V::Text(text_of(v)));
    }
    if start == 1 {
        return recog::unescape(body, q).map(V::Bytes);
    }
    if start == 2 {
        let mut o = vec![];
        let mut half = None;
        for c in body {
            if *c == b' ' {
                continue;
            }
            if !recog::hex(*c) {
                return None;
            }
            let d = recog::hexval(*c) as u8;
            match half {
                None => half = Some(d),
                Some(h) => {
                    o.push(h << 4 | d);
                    half = None;
                }
            }
        }
        return if half.is_some() { None } else { Some(V::Bytes(o)) };
    }
    if !recog::base64(body) {
        return None;
    }
    let mut o = vec![];
    let mut acc = 0u32;
    let mut bits = 0;
    for c in body {
        if *c == b'=' {
            break;
        }
        let d = match recog::b64val(*c) {
            Some(d) => d,
            None => return None,
        };
        acc = acc << 6 | d as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(V::Bytes(o))
}
fn payload(v: &V) -> Vec<u8> {
    match v {
        V::Text(s) => s.as_bytes().to_vec(),
        V::Bytes(s) => s.clone(),
        _ => vec![],
    }
}
/// The literal, at position p, denotes what the reference reads (or is refused).
pub fn literal(lit: &[u8], p: usize) {
    let want = denoted(lit);
    let text = put(LPOS[p], lit);
    sym::note(&text);
    match (load(&text), want) {
        (Ok(c), Some(v)) => {
            let run = |v: V| run_cbor(&c, "a", &at_pos(p, v));
            let raw = payload(&v);
            let is_text = matches!(v, V::Text(_));
            sym::check(run(v) == OK, "literal-value");
            // other contents: the last byte differs, one byte more, the other kind
            if is_text {
                sym::check(run(V::Bytes(raw.clone())) == MIS, "literal-kind");
            } else {
                let mut ascii = true;
                for x in &raw {
                    ascii &= *x < 0x80;
                }
                if ascii {
                    sym::check(run(V::Text(text_of(raw.clone()))) == MIS, "literal-kind");
                }
            }
            let mut more = raw.clone();
            more.push(b' ');
            sym::check(run(if is_text { V::Text(text_of(more)) } else { V::Bytes(more) }) == MIS, "literal-exact");
            if raw.len() > 0 {
                let mut other = raw.clone();
                let at = if is_text && raw[0] >= 0x80 { 0 } else { sym::choose(raw.len()) };
                if is_text {
                    // a character of one byte against any other one
                    if raw[at] < 0x80 {
                        let x = sym::u8();
                        sym::assume(x < 0x80);
                        other[at] = x;
                        let same = x == raw[at];
                        sym::check(run(V::Text(text_of(other))) == if same { OK } else { MIS }, "literal-exact");
                    }
                } else {
                    let x = sym::u8();
                    other[at] = x;
                    let same = x == raw[at];
                    sym::check(run(V::Bytes(other)) == if same { OK } else { MIS }, "literal-exact");
                }
            }
            sym::reach("exact");
        }
        (Err(e), None) => {
            sym::check(e == PARSE, "literal-refused");
            sym::reach("refused");
        }
        (Ok(_), None) => sym::check(false, "malformed-literal-accepted"),
        (Err(_), Some(_)) => sym::check(false, "literal-loads"),
    }
}
/// A literal with `body` in it: 0 "..." 1 '...' 2 h'...' 3 b64'...'.
pub fn quoted(kind: usize, body: &[u8]) -> Vec<u8> {
    match kind {
        0 => join(&[b"\"", body, b"\""]),
        1 => join(&[b"'", body, b"'"]),
        2 => join(&[b"h'", body, b"'"]),
        _ => join(&[b"b64'", body, b"'"]),
    }
    .into_bytes()
}
/// An arbitrary hexadecimal digit: of one sort only, or of any.
fn hexdigit(sort: usize) -> u8 {
    let x = sym::u8();
    match sort {
        0 => {
            sym::assume(x >= b'0');
            sym::assume(x <= b'9');
        }
        1 => {
            sym::assume(x >= b'a');
            sym::assume(x <= b'f');
        }
        _ => {
            sym::assume(x >= b'A');
            sym::assume(x <= b'F');
        }
    }
    x
}

entries! {
    c20_ascii "C20" "q" ["exact", "refused"] "each sort of literal with up to 2 arbitrary ASCII characters, in eleven places" {
        let kind = sym::choose(4);
        let n = sym::choose(3);
        let b = any_ascii(n).into_bytes();
        let p = if n < 2 { sym::choose(LPOS.len()) } else { 0 };
        literal(&quoted(kind, &b), p);
    }
    c20_three "C20" "q" ["exact", "refused"] "text and plain byte string literals with 3 arbitrary ASCII characters" {
        let kind = sym::choose(2);
        let b = any_ascii(3).into_bytes();
        literal(&quoted(kind, &b), 0);
    }
    c20_wide "C20" "q" ["exact", "refused"] "literals of one or two arbitrary Unicode characters of every length, alone or after a backslash" {
        let kind = sym::choose(4);
        let mut b = vec![];
        if sym::choose(2) == 1 {
            b.push(b'\\');
        }
        any_char(1 + sym::choose(4), &mut b);
        if sym::choose(2) == 1 {
            any_char(2 + sym::choose(3), &mut b);
        }
        literal(&quoted(kind, &b), 0);
    }
    c20_escape "C20" "q" ["exact", "refused"] "a backslash and up to 2 arbitrary ASCII characters, with characters before and behind" {
        let kind = sym::choose(2);
        let mut b = match sym::choose(3) {
            0 => vec![],
            1 => b"x\\\\".to_vec(),
            _ => "\u{10fffd}".as_bytes().to_vec(),
        };
        b.push(b'\\');
        b.extend_from_slice(any_ascii(1 + sym::choose(2)).as_bytes());
        if sym::choose(2) == 1 {
            b.extend_from_slice(b"n ;");
        }
        literal(&quoted(kind, &b), 0);
    }
    c20_u "C20" "q" ["exact", "refused"] "\\u and 4 arbitrary hexadecimal digits, alone or followed by another character" {
        let kind = sym::choose(2);
        let mut b = b"\\u".to_vec();
        for _ in 0..4 {
            b.push(hexdigit(sym::choose(3)));
        }
        if sym::choose(2) == 1 {
            b.push(b'0');
        }
        literal(&quoted(kind, &b), 0);
    }
    c20_u_bad "C20" "q" ["exact", "refused"] "\\u followed by digits of which any two are arbitrary ASCII characters, or by too few" {
        let kind = sym::choose(2);
        let mut b = b"\\u20aC".to_vec();
        let i = sym::choose(4);
        let j = sym::choose(4);
        let x = any_ascii(2);
        b[2 + i] = x.as_bytes()[0];
        b[2 + j] = x.as_bytes()[1];
        let n = 3 + sym::choose(4);
        b.truncate(n);
        literal(&quoted(kind, &b), 0);
    }
    c20_pair "C20" "q" ["exact", "refused"] "surrogate pairs and unpaired surrogates, with arbitrary low digits and arbitrary second halves" {
        let kind = sym::choose(2);
        let mut b = b"\\u".to_vec();
        b.push(if sym::choose(2) == 0 { b'd' } else { b'D' });
        b.push(b"7 89abAB cdefDF"[sym::choose(15)]);
        let s = sym::choose(3);
        b.push(hexdigit(s));
        b.push(hexdigit(s));
        match sym::choose(5) {
            0 => {}
            1 => b.extend_from_slice(b"\\n"),
            2 => b.extend_from_slice(b"\\u0041"),
            _ => {
                b.extend_from_slice(b"\\u");
                b.push(if sym::choose(2) == 0 { b'd' } else { b'D' });
                b.push(b"89cdefCDEF"[sym::choose(10)]);
                let s = sym::choose(3);
                b.push(hexdigit(s));
                b.push(hexdigit(s));
            }
        }
        literal(&quoted(kind, &b), 0);
    }
    c20_hex "C20" "q" ["exact", "refused"] "h'...' with 4 arbitrary hexadecimal digits or spaces, or 6 with two arbitrary ASCII characters among them" {
        let mut b = vec![];
        if sym::choose(2) == 0 {
            for _ in 0..4 {
                b.push(match sym::choose(4) {
                    3 => b' ',
                    s => hexdigit(s),
                });
            }
            if sym::choose(2) == 1 {
                b.push(b'e');
            }
        } else {
            b.extend_from_slice(b"00fFa9");
            let x = any_ascii(2);
            b[sym::choose(6)] = x.as_bytes()[0];
            b[sym::choose(6)] = x.as_bytes()[1];
        }
        literal(&quoted(2, &b), sym::choose(3));
    }
    c20_b64 "C20" "q" ["exact", "refused"] "b64'...' of 4 or 12 characters, any 2 of the last 4 or one of the first 4 arbitrary" {
        let mut b = b"aB3-_z09QUFB".to_vec();
        let n = 4 * (1 + 2 * sym::choose(2));
        b.truncate(n);
        match sym::choose(3) {
            0 => {}
            1 => b[n - 1] = b'=',
            _ => {
                b[n - 1] = b'=';
                b[n - 2] = b'=';
            }
        }
        if n == 4 || sym::choose(2) == 0 {
            let x = any_ascii(2);
            b[n - 4 + sym::choose(4)] = x.as_bytes()[0];
            b[n - 4 + sym::choose(4)] = x.as_bytes()[1];
        } else {
            b[sym::choose(4)] = any_ascii(1).as_bytes()[0];
        }
        literal(&quoted(3, &b), 0);
    }
    c20_b64_len "C20" "q" ["exact", "refused"] "b64'...' of 1 to 9 characters with an arbitrary last one" {
        let mut b = b"AAECAwQFBgcICQ".to_vec();
        b.truncate(1 + sym::choose(9));
        let n = b.len();
        b[n - 1] = any_ascii(1).as_bytes()[0];
        literal(&quoted(3, &b), 0);
    }
    c20_open "C20" "q" ["refused"] "literals that are not closed, ending in up to 2 arbitrary ASCII characters" {
        let kind = sym::choose(4);
        let b = any_ascii(sym::choose(3)).into_bytes();
        let mut lit = quoted(kind, &b);
        let q = lit.pop();
        for c in &b {
            sym::assume(Some(*c) != q);
        }
        let text = match sym::choose(4) {
            0 => join(&[b"a = ", &lit]),
            1 => join(&[b"a = [", &lit, b"]"]),
            2 => join(&[b"a = ", &lit, b"\nb = int"]),
            _ => join(&[b"a = int / ", &lit]),
        };
        sym::note(&text);
        match load(&text) {
            Err(e) => {
                sym::check(e == PARSE, "literal-refused");
                sym::reach("refused");
            }
            // (what stands before the literal is a schema only if it is whole)
            Ok(_) => sym::check(false, "unterminated-literal-accepted"),
        }
    }
    c20_long "C20" "q" ["exact"] "literals of 40 characters with an arbitrary one at any place" {
        let kind = sym::choose(3);
        let mut b = if kind == 2 { b"0123456789abcdefABCDEF00ff0123456789abcd".to_vec() } else { b"The quick brown fox jumps over (a) dog. ".to_vec() };
        let at = sym::choose(b.len());
        b[at] = any_ascii(1).as_bytes()[0];
        literal(&quoted(kind, &b), 0);
    }
    c20_four "C20" "t" ["exact", "refused"] "text and byte string literals of every sort with 4 arbitrary ASCII characters" {
        let kind = sym::choose(4);
        let b = any_ascii(4).into_bytes();
        literal(&quoted(kind, &b), 0);
    }
}
