//! C18: the schema parser is total, and accepts only what it understood.
use crate::gen::*;
use crate::real::*;
use crate::recog;
use crate::refi::*;
use crate::sym;
use crate::val::*;
use cddl_cat::flatten::flatten_from_str;

fn text_of(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// `tpl` with the next of `holes` in place of each `$`.
pub fn fill(tpl: &str, holes: &[&[u8]]) -> String {
    let mut o = vec![];
    let mut k = 0;
    for &c in tpl.as_bytes() {
        if c == b'$' {
            o.extend_from_slice(holes[k]);
            k += 1;
        } else {
            o.push(c);
        }
    }
    text_of(o)
}
/// Any n ASCII characters.
pub fn ascii(n: usize) -> Vec<u8> {
    let v = any_bytes(n);
    for x in &v {
        sym::assume(*x < 0x80);
    }
    v
}
/// The text is refused with an error, or all of it reads as rules.
pub fn total(text: &str) {
    sym::note(text);
    let c = match flatten_from_str(text) {
        Ok(r) => {
            sym::check(!r.is_empty(), "accepted-means-rules");
            OK
        }
        Err(e) => cls_e(&e),
    };
    sym::observe(c as u64);
    if c == OK {
        sym::reach("loaded");
        sym::check(recog::is_schema(text.as_bytes()), "accepted-means-understood");
    } else {
        sym::reach("refused");
        sym::check(c == PARSE || c == STRUCTURAL || c == UNSUPPORTED || c == GENERIC || c == MISSING, "load-error-class");
    }
}

/// A text that reads as rules is not refused by the parser.
pub fn complete(text: &str) {
    sym::note(text);
    let c = match flatten_from_str(text) {
        Ok(_) => OK,
        Err(e) => cls_e(&e),
    };
    sym::observe(c as u64);
    let good = recog::is_schema(text.as_bytes());
    if good {
        sym::check(c != PARSE, "well-formed-accepted");
        sym::reach("loaded");
    } else {
        sym::check(c != OK, "accepted-means-understood");
        sym::reach("refused");
    }
}

pub const SKEL: &[&str] = &[
    "$", "a$", "a=$", "a =$b", "a = $", "a = b$", "a = 1$", "a = 0$", "a = -$", "a = 0x$", "a = 0b$", "a = 1.$", "a = 1e$", "a = 1.5e$", "a = 1.5$",
    "a = \"$", "a = \"$\"", "a = \"\\$\"", "a = \"\\u$\"", "a = \"x$\"", "a = '$'", "a = '\\$'", "a = h'$'", "a = h'1$'", "a = b64'$'", "a = b64'QQ$'",
    "a = [$]", "a = [b$]", "a = [$b]", "a = [1$]", "a = {$}", "a = {b$}", "a = {b:$}", "a = {b=>$}", "a = {b$c}", "a = ($)", "a = (b$)", "a = ($b)",
    "a = b<$>", "a = b<$", "a = b<c$>", "a<$> = b", "a<b$> = b", "a = ~$", "a = &$", "a = &($)", "a = 1..$", "a = 1.$2", "a = b .$", "a = b .size$",
    "a = b .size $", "a = b /$", "a = [b //$]", "a = b;$", "a = b ;$\nc = d", "a = [1*$b]", "a = [2$b]", "a = {?$b: c}", "a = [* $]", "$a = b",
    "a = b\n$", "a = b $ c = d", "a = {b: c,$}", "a = [(b$)]", "a = {b ^$ c}", "a = {1$ c}", "a = {\"b\"$ c}", "a = {b<c>$ d}",
    "a = {[b]$ c}", "a = {b..c$ d}", "a = {(b)$ c}", "a = {~b$ c}", "a = {b / c$ d}", "a = (b)$", "a = [b]$", "a = {b}$", "a = \"b\"$", "a = 'b'$",
    "a = h'00'$", "a = b<c>$", "a = ~b$", "a = &b$", "a = &(b)$", "a = 1..2$", "a = b .size 2$", "a = b / c$", "a = ? b$", "a = 2*3 b$", "a = (b: c)$",
    "a = (b, c)$", "a = 1.5$e2", "a = b;c\n$", "a = b;c\r\n$", ";$", ";c\n$", " $", "\n$a = b",
];
pub const SKEL2: &[&str] = &[
    "a$=$b", "a = [$int$]", "a = {$a: int$}", "a = ($a: int$)", "a = $ int $", "a = int$ / $text", "a = \"$$\"", "a = {a$ $int}", "a$<$b> = c", "a = b<$c$>",
    "a = 1$.$2", "a = [1$*$2 b]", "a = 1$e$2", "a = 0$b$1", "a = [a$//$b]", "a = tstr$.size$3", "a = $(b)$", "a = $[b]$", "a = &$(b)$", "a = ~$b$", "a = b$c$= d",
    "a = '$'$", "a = h'$'$", "a = \"$\"$", "a = {b: c$ d$ e}", "a = 1..$2$",
];
pub const VALID: &[&str] = &[
    "a = int", "a = [int]", "a = {a: int}", "a = (a: int)", "a = 1", "a = 1.5", "a = \"x\"", "a = 'x'", "a = h'00'", "a = b64'QQ=='", "a = b<int>", "a = ~b", "a = &b",
    "a = &(b: c)", "a = 1..2", "a = tstr .size 3", "a = b / c", "a = ? b", "a<b> = b", "a = [* b]", "a = {* b => c}", "a = {(b ^ => c)}", "a = int\nb = [a]", "a = int ;c\n",
];

entries! {
    c18_bytes "C18" "q" ["refused"] "texts of up to 5 arbitrary ASCII characters" {
        total(&text_of(ascii(sym::choose(6))));
    }
    c18_rule "C18" "q" ["loaded", "refused"] "texts of the form `a=` and up to 3 arbitrary ASCII characters" {
        let mut t = b"a=".to_vec();
        t.extend_from_slice(&ascii(sym::choose(4)));
        total(&text_of(t));
    }
    c18_hole "C18" "q" ["loaded", "refused"] "over a hundred partial schemas, completed by up to 2 arbitrary ASCII characters" {
        let s = pick(SKEL);
        let h = ascii(sym::choose(3));
        total(&fill(s, &[&h]));
    }
    c18_two "C18" "q" ["loaded", "refused"] "partial schemas with an arbitrary ASCII character in each of two places" {
        let s = pick(SKEL2);
        let h = ascii(2);
        total(&fill(s, &[&h[..1], &h[1..]]));
    }
    c18_trailing "C18" "q" ["loaded", "refused"] "valid schemas of every shape followed by up to 2 arbitrary ASCII characters on the same or the next line" {
        let s = pick(VALID);
        let h = ascii(sym::choose(3));
        let sep = pick(&["", " ", "\n"]);
        let t = fill("$$$", &[s.as_bytes(), sep.as_bytes(), &h]);
        total(&t);
    }
    c18_wide "C18" "q" ["loaded", "refused"] "a character of each UTF-8 length (every Unicode scalar value) in every partial schema" {
        let s = pick(SKEL);
        let mut h = vec![];
        any_char(2 + sym::choose(3), &mut h);
        total(&fill(s, &[&h]));
    }
    c18_regexp "C18" "q" ["loaded", "refused"] "a pattern of up to 2 arbitrary ASCII characters" {
        let h = ascii(sym::choose(3));
        total(&fill("a = tstr .regexp \"$\"", &[&h]));
    }
    c18_nest "C18" "q" ["loaded", "refused"] "brackets of 13 sorts nested 1 to 24 and 5000 deep, closed or not, around an arbitrary character" {
        let (open, close) = [
            ("[", "]"), ("{b: ", "}"), ("(", ")"), ("([", "])"), ("([", "], b: int)"), ("{b: (", ")}"), ("b<", ">"), ("&(b: ", ")"), ("[? (b, ", ")]"),
            ("[1..(", ")]"), ("[b / ([", "])]"), ("[b // (", ")]"), ("{(", " => b)}"),
        ][sym::choose(13)];
        let n = [1usize, 2, 3, 24, 5000][sym::choose(5)];
        let closed = sym::choose(2) == 0;
        let mut t = b"a = [".to_vec();
        for _ in 0..n {
            t.extend_from_slice(open.as_bytes());
        }
        t.extend_from_slice(&ascii(1));
        if closed {
            for _ in 0..n {
                t.extend_from_slice(close.as_bytes());
            }
            t.push(b']');
        }
        let t = text_of(t);
        if n > 3 {
            sym::note(&t);
            let c = match flatten_from_str(&t) {
                Ok(_) => OK,
                Err(e) => cls_e(&e),
            };
            sym::observe(c as u64);
        } else {
            total(&t);
        }
    }
    c18_bytes6 "C18" "t" ["refused"] "texts of 6 arbitrary ASCII characters" {
        total(&text_of(ascii(6)));
    }
    c18_two4 "C18" "t" ["loaded", "refused"] "partial schemas with up to 2 arbitrary ASCII characters in each of two places" {
        let s = pick(SKEL2);
        let n = 1 + sym::choose(2);
        let h = ascii(n + 2);
        total(&fill(s, &[&h[..2], &h[2..]]));
    }
    c18_rule4 "C18" "q" ["loaded", "refused"] "texts of the form `a=` and 4 arbitrary ASCII characters" {
        let mut t = b"a=".to_vec();
        t.extend_from_slice(&ascii(4));
        total(&text_of(t));
    }
    c18_hole3 "C18" "t" ["loaded", "refused"] "over a hundred partial schemas, completed by 3 arbitrary ASCII characters" {
        let s = pick(SKEL);
        let h = ascii(3);
        total(&fill(s, &[&h]));
    }
    c27_short "C27" "q" ["loaded", "refused"] "texts of up to 2 arbitrary ASCII characters, or `a=` and up to 3" {
        let mut t = if sym::choose(2) == 0 { b"a=".to_vec() } else { vec![] };
        t.extend_from_slice(&ascii(sym::choose(4)));
        complete(&text_of(t));
    }
    c27_hole "C27" "q" ["loaded", "refused"] "over a hundred partial schemas, completed by up to 2 arbitrary ASCII characters" {
        let s = pick(SKEL);
        let h = ascii(sym::choose(3));
        complete(&fill(s, &[&h]));
    }
    c27_two "C27" "q" ["loaded", "refused"] "partial schemas with an arbitrary ASCII character in each of two places" {
        let s = pick(SKEL2);
        let h = ascii(2);
        complete(&fill(s, &[&h[..1], &h[1..]]));
    }
    c27_trailing "C27" "q" ["loaded", "refused"] "valid schemas of every shape followed by up to 2 arbitrary ASCII characters on the same or the next line" {
        let s = pick(VALID);
        let h = ascii(sym::choose(3));
        let sep = pick(&["", " ", "\n"]);
        complete(&fill("$$$", &[s.as_bytes(), sep.as_bytes(), &h]));
    }
    c27_wide "C27" "q" ["loaded", "refused"] "a character of each UTF-8 length (every Unicode scalar value) in every partial schema" {
        let s = pick(SKEL);
        let mut h = vec![];
        any_char(2 + sym::choose(3), &mut h);
        complete(&fill(s, &[&h]));
    }
    c27_hole3 "C27" "t" ["loaded", "refused"] "over a hundred partial schemas, completed by 3 arbitrary ASCII characters" {
        let s = pick(SKEL);
        let h = ascii(3);
        complete(&fill(s, &[&h]));
    }
    c27_rule4 "C27" "t" ["loaded", "refused"] "texts of the form `a=` and 4 arbitrary ASCII characters" {
        let mut t = b"a=".to_vec();
        t.extend_from_slice(&ascii(4));
        complete(&text_of(t));
    }
    c27_two4 "C27" "t" ["loaded", "refused"] "partial schemas with up to 2 arbitrary ASCII characters in each of two places" {
        let s = pick(SKEL2);
        let n = 1 + sym::choose(2);
        let h = ascii(n + 2);
        complete(&fill(s, &[&h[..2], &h[2..]]));
    }
}
