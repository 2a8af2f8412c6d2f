//! C25: the .regexp control operator.
use crate::gen::*;
use crate::p_lit::text_of;
use crate::p_parse::{ascii, fill};
use crate::real::*;
use crate::refi::*;
use crate::sym;
use crate::val::*;

/// A regular expression over characters, matched by sets of positions.
enum R {
    /// one character in the ranges, or outside them
    Set(Vec<(u32, u32)>, bool),
    Cat(Vec<R>),
    Alt(Vec<R>),
    Rep(Box<R>, u32, u32),
    Start,
    End,
}
macro_rules! ends {
    ($ends:ident, $w:ident) => {
    fn $ends(&self, t: &[u32], from: $w) -> $w {
        match self {
            R::Set(rs, not) => {
                let mut o: $w = 0;
                for (i, c) in t.iter().enumerate() {
                    let mut hit = 0u32;
                    for (a, b) in rs {
                        hit |= (*a <= *c) as u32 & (*c <= *b) as u32;
                    }
                    hit ^= *not as u32;
                    o |= (from >> i & hit as $w & 1) << (i + 1);
                }
                o
            }
            R::Cat(v) => {
                let mut s = from;
                for r in v {
                    s = r.$ends(t, s);
                }
                s
            }
            R::Alt(v) => {
                let mut s = 0;
                for r in v {
                    s |= r.$ends(t, from);
                }
                s
            }
            R::Rep(r, lo, hi) => {
                let mut s = from;
                for _ in 0..*lo {
                    s = r.$ends(t, s);
                }
                let mut all = s;
                // (more rounds than characters add nothing)
                for _ in *lo..(*hi).min(lo + t.len() as u32 + 1) {
                    s = r.$ends(t, s);
                    all |= s;
                }
                all
            }
            R::Start => from & 1,
            R::End => from & 1 << t.len(),
        }
    }
    };
}
impl R {
    // Where matches beginning at one of `from` (a set of bits) end.
    ends!(ends, u32);
    ends!(ends_long, u128);
    fn matches(&self, t: &[u32]) -> bool {
        if t.len() < 31 {
            self.ends(t, (2u32 << t.len()) - 1) != 0
        } else {
            self.ends_long(t, (2u128 << t.len()) - 1) != 0
        }
    }
}
/// Reads a pattern (a subset of the syntax, all of it concrete).
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn at(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn next(&mut self) -> u8 {
        self.i += 1;
        self.s[self.i - 1]
    }
    fn alt(&mut self) -> R {
        let mut v = vec![self.cat()];
        while self.at() == b'|' {
            self.i += 1;
            v.push(self.cat());
        }
        R::Alt(v)
    }
    fn cat(&mut self) -> R {
        let mut v = vec![];
        while self.i < self.s.len() && self.at() != b'|' && self.at() != b')' {
            let r = self.atom();
            v.push(self.suffix(r));
        }
        R::Cat(v)
    }
    fn num(&mut self) -> u32 {
        let mut n = 0;
        while self.at().wrapping_sub(b'0') < 10 {
            n = n * 10 + (self.next() - b'0') as u32;
        }
        n
    }
    fn suffix(&mut self, r: R) -> R {
        let (lo, hi) = match self.at() {
            b'*' => (0, 9999),
            b'+' => (1, 9999),
            b'?' => (0, 1),
            b'{' => {
                self.i += 1;
                let lo = self.num();
                let mut hi = lo;
                if self.at() == b',' {
                    self.i += 1;
                    hi = if self.at() == b'}' { 9999 } else { self.num() };
                }
                (lo, hi)
            }
            _ => return r,
        };
        self.i += 1;
        if self.at() == b'?' {
            self.i += 1;
        }
        R::Rep(Box::new(r), lo, hi)
    }
    fn class(&mut self) -> u32 {
        let c = self.next();
        (if c == b'\\' { self.next() } else { c }) as u32
    }
    fn atom(&mut self) -> R {
        match self.next() {
            b'^' => R::Start,
            b'$' => R::End,
            b'.' => R::Set(vec![(10, 10)], true),
            b'(' => {
                if self.at() == b'?' {
                    self.i += 2;
                }
                let r = self.alt();
                self.i += 1;
                r
            }
            b'[' => {
                let not = self.at() == b'^';
                if not {
                    self.i += 1;
                }
                let mut v = vec![];
                while self.at() != b']' {
                    let a = self.class();
                    let mut b = a;
                    if self.at() == b'-' {
                        self.i += 1;
                        b = self.class();
                    }
                    v.push((a, b));
                }
                self.i += 1;
                R::Set(v, not)
            }
            b'\\' => match self.next() {
                b'n' => R::Set(vec![(10, 10)], false),
                c => R::Set(vec![(c as u32, c as u32)], false),
            },
            c => R::Set(vec![(c as u32, c as u32)], false),
        }
    }
}
/// Patterns, with `/` for the backslash.
pub const PAT: &[&str] = &[
    "", "a", "^", "$", "^$", "^a", "a$", "^a$", "ab", "^ab$", ".", "^.$", "^..$", "a.b", "a*", "^a*$", "a+b", "^a+$", "^a?b$", "a|b", "^(a|b)$", "^a|b$", "^(ab)*$", "^(a|bc)+$", "[a-c]", "^[a-c]+$",
    "[^a]", "^[^a-c]*$", "^[a-z0-9]+$", "^(0|[1-9][0-9]*)$", "^a{2}$", "^a{1,2}$", "^a{2,}$", "/.", "^/.$", "^[.]$", "a/+", "x/*y", "^(a(b|c))?d$", "^a.*b$", "^(a*)*b$", "(?:ab|cd)", "^(?:a|b)?$",
    "a*?b", "^[ -~]*$", "^[/]]$", "/^", "^/[a/]$", "$^", "a^", "[0-9]{3}", "^-?[0-9]+$", "^()$", "ab|cd|ef", "^a||b$",
];
fn source(p: &str) -> String {
    let mut o = vec![];
    for c in p.as_bytes() {
        o.push(if *c == b'/' { b'\\' } else { *c });
    }
    text_of(o)
}
/// The pattern as a text literal.
fn quoted(p: &str) -> String {
    let mut o = vec![];
    for c in p.as_bytes() {
        if *c == b'\\' || *c == b'"' {
            o.push(b'\\');
        }
        match *c {
            b'\n' => o.extend_from_slice(b"\\n"),
            b'\r' => o.extend_from_slice(b"\\r"),
            b'\t' => o.extend_from_slice(b"\\t"),
            c => o.push(c),
        }
    }
    text_of(o)
}
fn points(s: &str) -> Vec<u32> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = sym::concretize(if b[i] < 0x80 { 1 } else if b[i] < 0xe0 { 2 } else if b[i] < 0xf0 { 3 } else { 4 }) as usize;
        let mut x = if n == 1 { b[i] as u32 } else { (b[i] as u32) & (0x7f >> n) };
        for k in 1..n {
            x = x << 6 | (b[i + k] & 0x3f) as u32;
        }
        o.push(x);
        i += n;
    }
    o
}
pub fn case(p: &str, s: String, form: usize) {
    let p = source(p);
    let want = P { s: p.as_bytes(), i: 0 }.alt().matches(&points(&s));
    let q = quoted(&p);
    let text = match form {
        0 => cat(&["a = tstr .regexp \"", &q, "\""]),
        1 => cat(&["a = [? int, b]\nb = text .regexp \"", &q, "\""]),
        2 => cat(&["a = {k: int / (tstr .regexp \"", &q, "\")}"]),
        _ => cat(&["a = {(tstr .regexp \"", &q, "\") => any}"]),
    };
    sym::note(&text);
    sym::note(&s);
    let c = must_load(&text);
    let v = V::Text(s);
    let v = match form {
        0 => v,
        1 => V::Arr(vec![v]),
        2 => V::Map(vec![(t("k"), v)]),
        _ => V::Map(vec![(v, V::Null)]),
    };
    let got = if sym::choose(2) == 0 { run_cbor(&c, "a", &v) } else { run_json(&c, "a", &v) };
    sym::observe(got as u64);
    sym::check(got == if want { OK } else { MIS }, "pattern-verdict");
    sym::reach(if want { "accepted" } else { "mismatch" });
}

/// Malformed patterns, with `/` for the backslash.
const BADPAT: &[&str] = &["(", ")", "[", "[a", "a**b(", "*", "+a", "?", "a{2", "{2}", "a{3,1}", "[b-a]", "/", "(?", "(?P<", "/q", "/p{Nope}", "a)b", "(a|", "[[:no:]", "(?z)a", "/1", "(?=a)", "a{99999999}"];

entries! {
    c25_text "C25" "q" ["accepted", "mismatch"] "55 patterns, texts of up to 3 arbitrary ASCII characters" {
        let p = pick(PAT);
        case(p, text_of(ascii(sym::choose(4))), 0);
    }
    c25_place "C25" "q" ["accepted", "mismatch"] "55 patterns behind a name, in an array, in a choice, as the key of a map entry; texts of up to 2 arbitrary ASCII characters" {
        let p = pick(PAT);
        case(p, text_of(ascii(sym::choose(3))), 1 + sym::choose(3));
    }
    c25_wide "C25" "q" ["accepted", "mismatch"] "55 patterns, texts with an arbitrary Unicode character of every length alone, before, after or between two characters" {
        let p = pick(PAT);
        let mut h = vec![];
        if sym::choose(2) == 1 {
            h.push(b'a');
        }
        any_char(1 + sym::choose(4), &mut h);
        if sym::choose(2) == 1 {
            h.push([b'a', b'b'][sym::choose(2)]);
        }
        case(p, text_of(h), 0);
    }
    c25_hole "C25" "q" ["accepted", "mismatch"] "12 patterns with an arbitrary letter or digit in a place, texts of up to 2 arbitrary ASCII characters" {
        let c = sym::u8();
        sym::assume(c.wrapping_sub(b'0') < 10 || c.wrapping_sub(b'a') < 26 || c.wrapping_sub(b'A') < 26);
        let p = fill(pick(&["#", "^#*!", "^#", "#!", "[#]", "^[^#]*!", "^(a|#)+!", "a#", "^[0-#]!", "^[#-z]!", "#?!", "^a|#!"]), &[]);
        let mut o = vec![];
        for x in p.as_bytes() {
            o.push(match *x {
                b'#' => c,
                b'!' => b'$',
                x => x,
            });
        }
        // (ranges in order)
        if p.as_bytes().len() > 5 && p.as_bytes()[2] == b'0' {
            sym::assume(c >= b'0');
        }
        let p = text_of(o);
        case(&p, text_of(ascii(sym::choose(3))), 0);
    }
    c25_plain "C25" "q" ["accepted", "mismatch"] "patterns made of characters that stand for themselves (blanks, line ends, punctuation, letters of both cases), against the same text with one character arbitrary or added" {
        const C: &[u8] = b" \n\r\t#&~-=:;,'<>!%@_`\"aZ0";
        let (x, y) = (C[sym::choose(C.len())], C[sym::choose(C.len())]);
        let p = text_of([vec![b'^'], vec![x, b'b', y], vec![b'$']].concat());
        let mut d = vec![x, b'b', y];
        match sym::choose(4) {
            0 => d[0] = ascii(1)[0],
            1 => d[2] = ascii(1)[0],
            2 => d.push(ascii(1)[0]),
            _ => {
                d.remove(sym::choose(3));
            }
        }
        case(&p, text_of(d), 0);
    }
    c25_kind "C25" "q" ["mismatch"] "values of every kind but text against .regexp" {
        let v = any_value();
        if let V::Text(_) = v {
            sym::assume(false);
        }
        let p = pick(&["", "a", "^", ".*", "^$", "(?s)^.*$"]);
        let c = must_load(&cat(&["a = ", pick(&["tstr", "text"]), " .regexp \"", p, "\""]));
        sym::check(run_cbor(&c, "a", &v) == MIS, "not-text-is-mismatch");
        if v.is_json() {
            sym::check(run_json(&c, "a", &v) == MIS, "not-text-is-mismatch");
        }
        sym::reach("mismatch");
    }
    c25_bad "C25" "q" ["refused"] "malformed patterns, patterns of other types and targets that are not text, in 5 places: refused when the schema is loaded" {
        let ty = match sym::choose(3) {
            0 => cat(&["tstr .regexp \"", &quoted(&source(pick(BADPAT))), "\""]),
            1 => cat(&["tstr .regexp ", pick(&["1", "-1", "1.5", "'a'", "h'61'", "true", "int", "tstr", "(1..2)", "[\"a\"]", "{}", "(\"a\" / \"b\")", "null"])]),
            _ => cat(&[pick(&["int", "bstr", "uint", "any", "bool", "nil", "float", "1", "\"a\"", "(1..2)", "[tstr]", "{* tstr => any}", "(tstr / int)", "'a'"]), " .regexp \"a\""]),
        };
        let (x, y) = [("a = ", ""), ("a = [* ", "]"), ("a = {? k: ", "}"), ("a = int / ", ""), ("a = int\nb = ", "")][sym::choose(5)];
        let text = cat(&[x, &ty, y]);
        sym::note(&text);
        match load(&text) {
            Ok(_) => sym::check(false, "bad-pattern-refused"),
            Err(e) => sym::check(e == STRUCTURAL || e == UNSUPPORTED, "bad-pattern-class"),
        }
        sym::reach("refused");
    }
    c25_text5 "C25" "t" ["accepted", "mismatch"] "55 patterns, texts of 4 and 5 arbitrary ASCII characters" {
        let p = pick(PAT);
        case(p, text_of(ascii(4 + sym::choose(2))), 0);
    }
}
