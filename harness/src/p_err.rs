//! C30: a parse error names the kind of the literal that is malformed.
use crate::gen::*;
use crate::p_parse::{ascii, fill};
use crate::sym;
use crate::val::*;
use cddl_cat::parse_cddl;
use cddl_cat::parser::{slice_parse_cddl, ErrorKind, ParseError};

/// Places a literal can stand in.
const PLACES: &[&str] = &[
    "a = $",
    "a = [$]",
    "a = [int, $]",
    "a = [$, int]",
    "a = [* $]",
    "a = [1*2 $, int]",
    "a = [? (int, $)]",
    "a = [int // $]",
    "a = [$ // int]",
    "a = int / $",
    "a = $ / int",
    "a = ($ / int)",
    "a = ((($)))",
    "a = [($)]",
    "a = [(int / $)]",
    "a = {k: $}",
    "a = {k: $, l: int}",
    "a = {? \"k\": int, l: $}",
    "a = {\"k\" => $}",
    "a = {* tstr ^ => $}",
    "a = {1: $}",
    "a = {$: int}",
    "a = {$ => int}",
    "a = {$ ^ => int}",
    "a = {k: int / $}",
    "a = {k: $ / int}",
    "a = {int => int / nil / $}",
    "a = {(k: int // l: $)}",
    "a = {k: {l: [m: $]}}",
    "a = {? (k: int, l: $), * any => any}",
    "a = (k: $)",
    "a = (int, k: $)",
    "a = k: $",
    "a = &(k: $)",
    "a = &(k: 1, $)",
    "a = p<$>\np<t> = t",
    "a = [p<int, $>]\np<t, u> = t",
    "a = 1 .. $",
    "a = $ .. 5",
    "a = $ ... 5",
    "a = {k: 1 .. $}",
    "a = tstr .size $",
    "a = [uint .lt $]",
    "a = {k: uint .size ($ .. 4)}",
    "a = int\nb = $",
    "a = int\nb = {k: $}\nc = int",
    "; text\na<t> = $ ; more\n\n",
    "a = [ ; one\n  $ , ; two\n]",
    "a=[$]b=int",
    "a = [[[[[[[[[[{k: [[[[[[[[[[$]]]]]]]]]]}]]]]]]]]]]",
    "a = ~b\nb = [$]",
    "a = [$",
    "a = {k: $ ! int}",
    "a = $ $",
];

fn digits(first: &[u8], n: usize, base: u8) -> Vec<u8> {
    let mut v = first.to_vec();
    let d = any_bytes(n);
    for c in d {
        let ok = match base {
            2 => c == b'0' || c == b'1',
            10 => c.is_ascii_digit(),
            _ => c.is_ascii_hexdigit(),
        };
        sym::assume(ok);
        v.push(c);
    }
    v
}
fn quoted(open: &str, body: &[u8]) -> Vec<u8> {
    let mut v = open.as_bytes().to_vec();
    v.extend_from_slice(body);
    v.push(open.as_bytes()[open.len() - 1]);
    v
}
/// A malformed literal: its text, its kind, and the part of it that the error shows.
fn malformed() -> (Vec<u8>, ErrorKind, Vec<u8>) {
    match sym::choose(12) {
        0 => {
            // at least 2^64 whatever the digits are
            let d = digits(b"1844674407370955162", 2, 10);
            (d.clone(), ErrorKind::MalformedInteger, d)
        }
        1 => {
            let d = digits(b"18446744073709551", 3, 10);
            sym::assume(d[17] > b'6' || (d[17] == b'6' && d[18] > b'1') || (d[17] == b'6' && d[18] == b'1' && d[19] > b'5'));
            (d.clone(), ErrorKind::MalformedInteger, d)
        }
        2 => {
            let d = digits(b"922337203685477581", 1, 10);
            sym::assume(d[18] > b'8');
            let mut t = b"-".to_vec();
            t.extend_from_slice(&d);
            (t, ErrorKind::MalformedInteger, d)
        }
        3 => {
            let d = digits(b"10000000000000000", 1, 16);
            let mut t = b"0x".to_vec();
            t.extend_from_slice(&d[..17]);
            (t, ErrorKind::MalformedInteger, d[..17].to_vec())
        }
        4 => {
            let mut d = digits(b"1", 2, 2);
            for _ in 0..62 {
                d.push(b'0');
            }
            let mut t = b"0b".to_vec();
            t.extend_from_slice(&d);
            (t, ErrorKind::MalformedInteger, d)
        }
        5 => {
            // an escape there is not
            let c = ascii(1)[0];
            sym::assume(!matches!(c, b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' | b'u'));
            let body = [b'x', b'\\', c, b'y'];
            (quoted("\"", &body), ErrorKind::MalformedText, body.to_vec())
        }
        6 => {
            let mut body = b"\\ud".to_vec();
            let d = digits(b"", 3, 16);
            sym::assume(matches!(d[0], b'8' | b'9' | b'a' | b'b' | b'c' | b'd' | b'e' | b'f' | b'A' | b'B' | b'C' | b'D' | b'E' | b'F'));
            body.extend_from_slice(&d);
            (quoted("\"", &body), ErrorKind::MalformedText, body)
        }
        7 => {
            let c = ascii(1)[0];
            sym::assume(!c.is_ascii_hexdigit() && c >= b' ' && c != 0x7f && c != b'"' && c != b'\\');
            let body = [b'\\', b'u', b'0', b'0', c, b'1'];
            (quoted("\"", &body), ErrorKind::MalformedText, body.to_vec())
        }
        8 => {
            let c = ascii(1)[0];
            sym::assume(!matches!(c, b'\'' | b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' | b'u'));
            sym::assume(c >= b' ' && c != 0x7f);
            let body = [b'\\', c];
            (quoted("'", &body), ErrorKind::MalformedText, body.to_vec())
        }
        9 => {
            let mut d = digits(b"", [1, 3, 5][sym::choose(3)], 16);
            let shown = d.clone();
            if sym::choose(2) == 1 {
                d.insert(1, b' ');
            }
            (quoted("h'", &d), ErrorKind::MalformedHex, shown)
        }
        10 => {
            let c = ascii(1)[0];
            sym::assume(!c.is_ascii_hexdigit() && c > b' ' && c != 0x7f && c != b'\'' && c != b'\\');
            let body = [b'0', c];
            (quoted("h'", &body), ErrorKind::MalformedHex, body.to_vec())
        }
        _ => {
            let c = ascii(1)[0];
            sym::assume(!c.is_ascii_alphanumeric() && c > b' ' && c != 0x7f && c != b'\'' && c != b'\\' && c != b'-' && c != b'_');
            let body = [b'Y', b'W', c, b'j'];
            (quoted("b64'", &body), ErrorKind::MalformedBase64, body.to_vec())
        }
    }
}
fn number(k: &ErrorKind) -> u64 {
    match k {
        ErrorKind::MalformedInteger => 1,
        ErrorKind::MalformedFloat => 2,
        ErrorKind::MalformedHex => 3,
        ErrorKind::MalformedText => 4,
        ErrorKind::MalformedBase64 => 5,
        ErrorKind::Unparseable => 6,
        _ => 7,
    }
}
fn error(text: &str, slice: bool) -> Option<ParseError> {
    if slice {
        slice_parse_cddl(text).err()
    } else {
        parse_cddl(text).err()
    }
}
fn expect(text: &str, slice: bool, kind: ErrorKind, shown: &[u8]) {
    sym::note(text);
    match error(text, slice) {
        None => sym::check(false, "malformed-literal-accepted"),
        Some(e) => {
            sym::observe(number(&e.kind));
            sym::check(e.kind == kind, "error-kind");
            sym::check(e.ctx.as_bytes() == shown, "error-context");
            sym::reach("refused");
        }
    }
}

entries! {
    c30_kind "C30" "q" ["refused"] "12 sorts of malformed literal with arbitrary characters in 54 places, through both parsers" {
        let p = pick(PLACES);
        let (l, kind, shown) = malformed();
        // the first of two, and one before another sort of error
        expect(&fill(p, &[&l, b"1"]), sym::choose(2) == 1, kind, &shown);
    }
    c30_occurrence "C30" "q" ["refused"] "occurrence limits beyond 64 bits, in 8 places" {
        let d = digits(b"1844674407370955162", 2, 10);
        let p = pick(&["a = [$* int]", "a = [1*$ int]", "a = [*$ int]", "a = {$*2 k: int}", "a = {k: [$* int]}", "a = (int, 0*$ tstr)", "a = [int // 2*$ (int)]", "a = {* int => {*$ tstr => int}}"]);
        expect(&fill(p, &[&d]), false, ErrorKind::MalformedInteger, &d);
    }
    c30_long "C30" "q" ["refused"] "malformed literals of 21 to 200 characters: the whole of it is shown" {
        let n = [21usize, 39, 40, 64, 80, 100, 128, 200][sym::choose(8)];
        let k = sym::choose(4);
        let at = [0usize, n / 2, n - 1][sym::choose(3)];
        let c = any_bytes(1)[0];
        let mut body = vec![b'1'; n];
        body[at] = c;
        let (l, kind) = match k {
            0 => {
                sym::assume(c.is_ascii_digit() && c != b'0');
                (body.clone(), ErrorKind::MalformedInteger)
            }
            1 => {
                sym::assume(c >= b' ' && c < 0x7f && c != b'"' && c != b'\\');
                body.push(b'\\');
                body.push(b'q');
                (quoted("\"", &body), ErrorKind::MalformedText)
            }
            2 => {
                sym::assume(c > b' ' && c < 0x7f && c != b'\'' && c != b'\\' && !c.is_ascii_hexdigit());
                (quoted("h'", &body), ErrorKind::MalformedHex)
            }
            _ => {
                sym::assume(c > b' ' && c < 0x7f && c != b'\'' && c != b'\\' && !c.is_ascii_alphanumeric() && c != b'-' && c != b'_' && c != b'=');
                (quoted("b64'", &body), ErrorKind::MalformedBase64)
            }
        };
        expect(&fill(pick(&["a = $", "a = {k: $}", "a = [int, $]"]), &[&l]), false, kind, &body);
    }
    c30_other "C30" "q" ["refused", "loads"] "texts whose literals are all well-formed: if refused, as unparseable" {
        let p = pick(&["a = [int$ int]", "a = {k$ int}", "a = {k: int$}", "a $ int", "a = int$b = int", "a = [$]", "a = (k: $)", "a = {k =$ int}", "a = int .$ze b", "a = &$x: int)", "a = p<$>", "a = $b", "a = \"x\" $", "a = h'00' $ b", "a = [1 $ 2]", "a = 1 .$ 2", "a = [1*$ int]",
            "a = 1$", "a = 0x$", "a = 0b$", "a = 1.$", "a = 1.5$", "a = 1e$", "a = -$"]);
        let h = ascii(1);
        let s = fill(p, &[&h]);
        sym::note(&s);
        match error(&s, false) {
            None => sym::reach("loads"),
            Some(e) => {
                sym::observe(number(&e.kind));
                sym::check(e.kind == ErrorKind::Unparseable, "error-kind-other");
                sym::reach("refused");
            }
        }
    }
    c30_open "C30" "q" ["refused"] "literals that are not closed are unparseable, not malformed" {
        let o = pick(&["\"", "'", "h'", "b64'"]);
        let mut l = o.as_bytes().to_vec();
        for c in ascii(2) {
            sym::assume(c != b'"' && c != b'\'' && c != b'\\');
            l.push(c);
        }
        let s = fill(pick(&["a = $", "a = {k: $}", "a = [$]", "a = {$ => int}", "a = int\nb = $\n"]), &[&l]);
        sym::note(&s);
        match error(&s, false) {
            None => sym::check(false, "open-literal-accepted"),
            Some(e) => {
                sym::observe(number(&e.kind));
                sym::check(e.kind == ErrorKind::Unparseable, "error-kind-open");
                sym::reach("refused");
            }
        }
    }
}
