//! C21: layout does not matter. C22: the source-preserving loader.
use crate::gen::*;
use crate::p_lit::text_of;
use crate::p_parse::{ascii, fill, SKEL, SKEL2, VALID};
use crate::real::*;
use crate::recog;
use crate::sym;
use crate::val::*;
use cddl_cat::flatten::{flatten_from_str, slice_flatten_from_str};
use cddl_cat::ivt::RulesByName;
use cddl_cat::parser::{parse_cddl, slice_parse_cddl};

/// `|` a place where layout may stand, `!` one where it must, `%` an optional
/// comma. Between them these use every production of the grammar.
const TPL: &[&str] = &[
    "|a|=|int|/|tstr|/|nil!b|=|a|",
    "|a|=|[|int%int%tstr%]!b|=|[|]!c|=|{|}|",
    "|a|=|{|k|:|int%\"q\"|=>|[|1|]%1|^|=>|int%'x'|:|nil%?|z|:|b%*|tstr|=>|any%}!b|=|nil|",
    "|a|=|x<|int|,|nil|>!x<|p|,|q|>|=|[|p%q%y<|p|>%]!y<|p|>|=|p|",
    "|a|=|(|int|/|tstr|)|/|1|..|2|/|1.5|...|2.5|/|~|b|/|&|c|/|&|(|x|:|1%y|:|2%)!b|=|int!c|=|(|x|:|1%y|:|2%)|",
    "|a|=|[|(|int%int|//|tstr|//|)%2*3|(|x|:|int%)%+|bool%5*|nil%*5|b%]!b|=|int|",
    "|a|=|tstr!.size|(|1|..|3|)!b|=|bstr!.cbor!a!c|=|(|uint|)|.le!5|/|tstr!.regexp|\"[a-z]*\"|",
    "|a|=|{|(|k|:|int%?|j|:|tstr%)|//|m|:|1|//|g%}!g|=|(|n|:|1%?|(|o|:|2%)%)|",
    "|a|=|{|*|tstr|=>|int|//|[|1|]|^|=>|h'00'%b64'AA=='|:|1%1.5|:|-2%}|",
    "|a|=|[|?|x|=>|int%~|b%&|c%x<|1|>%0x10%1e3%]!b|=|[|int|]!c|=|(|1|)!x<|t|>|=|t|",
    "|a|=|k|:|int!b|=|?|int!c|=|*|tstr|=>|int!d|=|(|int%?|tstr|//|nil|)|",
];

/// An arbitrary piece of layout.
fn filler(kind: usize, o: &mut Vec<u8>) {
    let blank = |o: &mut Vec<u8>| {
        let x = sym::u8();
        sym::assume(x == b' ' || x == b'\t' || x == b'\n');
        o.push(x);
    };
    let printable = |o: &mut Vec<u8>| {
        let x = sym::u8();
        sym::assume(x >= 0x20);
        sym::assume(x < 0x7f);
        o.push(x);
    };
    match kind {
        0 => blank(o),
        1 => o.extend_from_slice(b"\r\n"),
        2 => {
            blank(o);
            blank(o);
        }
        3 => {
            o.push(b';');
            printable(o);
            printable(o);
            o.push(b'\n');
        }
        4 => {
            o.push(b';');
            any_char(2 + sym::choose(3), o);
            o.extend_from_slice(b"\r\n");
        }
        5 => {
            o.extend_from_slice(b"\n\n ;");
            printable(o);
            o.extend_from_slice(b"\n;\n\t");
        }
        6 => o.extend_from_slice(b";] } ) > \" ' = // => ,\n"),
        _ => {
            o.extend_from_slice(b" ;;");
            printable(o);
            o.extend_from_slice(b"\r\n\r\n");
        }
    }
}
const FILLERS: usize = 8;

#[derive(Clone, Copy, PartialEq)]
enum What {
    /// the number of places
    Count,
    /// the plain layout
    Plain,
    /// layout of this kind at this place (everywhere if negative); at a comma
    /// 0: layout, comma, layout; 1: layout only; 2: comma only
    At(isize, usize, usize),
    /// two places
    Two(usize, usize, usize),
}
fn lay(tpl: &str, w: What) -> (Vec<u8>, usize) {
    let mut o = vec![];
    let mut n = 0;
    for &c in tpl.as_bytes() {
        if c != b'|' && c != b'!' && c != b'%' {
            o.push(c);
            continue;
        }
        let mut put = None;
        match w {
            What::At(at, k, comma) => {
                if at < 0 || at as usize == n {
                    put = Some((k, comma));
                }
            }
            What::Two(x, y, k) => {
                if x == n {
                    put = Some((0, 1));
                }
                if y == n {
                    put = Some((k, 0));
                }
            }
            _ => {}
        }
        n += 1;
        match (put, c) {
            (None, b'|') => {}
            (None, b'!') => o.push(b' '),
            (None, _) => o.push(b','),
            (Some((k, comma)), b'%') => match comma {
                0 => {
                    filler(k, &mut o);
                    o.push(b',');
                    filler(k, &mut o);
                }
                1 => filler(k, &mut o),
                _ => o.push(b','),
            },
            (Some((k, _)), _) => filler(k, &mut o),
        }
    }
    (o, n)
}
pub fn same_rules(a: &RulesByName, b: &RulesByName) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (k, v) in a {
        match b.get(k) {
            Some(w) => {
                if v != w {
                    return false;
                }
            }
            None => return false,
        }
    }
    true
}
fn layout(tpl: &str, w: What) {
    let plain = text_of(lay(tpl, What::Plain).0);
    let other = text_of(lay(tpl, w).0);
    sym::note(&plain);
    sym::note(&other);
    let a = match flatten_from_str(&plain) {
        Ok(a) => a,
        Err(_) => return sym::check(false, "schema-loads"),
    };
    match flatten_from_str(&other) {
        Ok(b) => sym::check(same_rules(&a, &b), "same-rules"),
        Err(_) => sym::check(false, "layout-accepted"),
    }
    sym::reach("same");
}

/// Both loaders agree on `text`.
pub fn agree(text: &str) {
    sym::note(text);
    let plain = flatten_from_str(text);
    let kept = slice_flatten_from_str(text);
    match (plain, kept) {
        (Ok(a), Ok(b)) => {
            sym::reach("loaded");
            sym::check(a.len() == b.len(), "same-rule-names");
            for (k, (rd, s)) in &b {
                sym::check(a.get(k) == Some(rd), "same-rules");
                // the text alone gives the same rule
                match flatten_from_str(s) {
                    Ok(c) => {
                        sym::check(c.len() == 1, "text-is-one-rule");
                        sym::check(c.get(k) == Some(rd), "text-gives-rule");
                    }
                    Err(_) => sym::check(false, "text-loads"),
                }
            }
            // the texts, in order, are the input but for layout
            match slice_parse_cddl(text) {
                Ok(sl) => {
                    let b = text.as_bytes();
                    let mut at = recog::blanks(b, 0);
                    for (_, s) in &sl.rules {
                        let s = s.as_bytes();
                        sym::check(s.len() > 0, "text-not-empty");
                        sym::check(b.len() - at >= s.len() && &b[at..at + s.len()] == s, "text-is-part-of-input");
                        at = recog::blanks(b, at + s.len());
                    }
                    sym::check(at == b.len(), "texts-cover-input");
                    match parse_cddl(text) {
                        Ok(p) => {
                            sym::check(p.rules.len() == sl.rules.len(), "same-rule-list");
                            for (x, y) in p.rules.iter().zip(&sl.rules) {
                                sym::check(*x == y.0, "same-rule-list");
                            }
                        }
                        Err(_) => sym::check(false, "same-parse"),
                    }
                }
                Err(_) => sym::check(false, "same-parse"),
            }
        }
        (Err(a), Err(b)) => {
            sym::check(cls_e(&a) == cls_e(&b), "same-error");
            sym::reach("refused");
        }
        (Ok(_), Err(_)) => sym::check(false, "slice-loader-refuses"),
        (Err(_), Ok(_)) => sym::check(false, "slice-loader-accepts"),
    }
}

entries! {
    c21_one "C21" "q" ["same"] "11 schemas using every production: layout of 8 sorts (blanks, line ends, comments with arbitrary characters) at any one place" {
        let tpl = pick(TPL);
        let n = lay(tpl, What::Count).1;
        let at = sym::choose(n) as isize;
        layout(tpl, What::At(at, sym::choose(FILLERS), 0));
    }
    c21_comma "C21" "q" ["same"] "the same schemas with any one optional comma replaced by layout" {
        let tpl = pick(TPL);
        let n = lay(tpl, What::Count).1;
        let at = sym::choose(n);
        let mut k = 0;
        for &c in tpl.as_bytes() {
            if c == b'|' || c == b'!' || c == b'%' {
                if k == at {
                    sym::assume(c == b'%');
                }
                k += 1;
            }
        }
        layout(tpl, What::At(at as isize, sym::choose(FILLERS), 1));
    }
    c21_all "C21" "q" ["same"] "the same schemas with one sort of layout at every place, commas kept or dropped" {
        let tpl = pick(TPL);
        let k = [1usize, 6][sym::choose(2)];
        layout(tpl, What::At(-1, k, sym::choose(2)));
    }
    c21_two "C21" "t" ["same"] "the same schemas with a blank at one place and layout of any sort at another" {
        let tpl = pick(TPL);
        let n = lay(tpl, What::Count).1;
        let x = sym::choose(n);
        let y = sym::choose(n);
        sym::assume(x != y);
        layout(tpl, What::Two(x, y, sym::choose(FILLERS)));
    }
    c22_hole "C22" "q" ["loaded", "refused"] "over a hundred partial schemas, completed by an arbitrary ASCII character or none" {
        let s = pick(SKEL);
        let h = ascii(sym::choose(2));
        agree(&fill(s, &[&h]));
    }
    c22_two "C22" "q" ["loaded", "refused"] "partial schemas with an arbitrary ASCII character in each of two places" {
        let s = pick(SKEL2);
        let h = ascii(2);
        agree(&fill(s, &[&h[..1], &h[1..]]));
    }
    c22_rules "C22" "q" ["loaded", "refused"] "two valid schemas with up to 2 arbitrary ASCII characters before, between or behind them" {
        let s = pick(VALID);
        let t = pick(&["a = tstr", "b = {k: [int]}", "c<t> = t ; x", "d = (x: int)"]);
        let h = ascii(1 + sym::choose(2));
        let text = match sym::choose(3) {
            0 => fill("$$\n$", &[&h, s.as_bytes(), t.as_bytes()]),
            1 => fill("$\n$$", &[s.as_bytes(), &h, t.as_bytes()]),
            _ => fill("$\n$$", &[s.as_bytes(), t.as_bytes(), &h]),
        };
        agree(&text);
    }
    c22_layout "C22" "q" ["loaded"] "schemas using every production with layout of 8 sorts at any one place" {
        let tpl = pick(TPL);
        let n = lay(tpl, What::Count).1;
        let at = sym::choose(n) as isize;
        agree(&text_of(lay(tpl, What::At(at, sym::choose(FILLERS), 0)).0));
    }
    c22_wide "C22" "q" ["loaded", "refused"] "an arbitrary Unicode character of each length in a comment, a literal, or anywhere, before and inside rules" {
        let mut h = vec![];
        any_char(2 + sym::choose(3), &mut h);
        let s = pick(&["a = \"$\" b = int", ";$\na = '$x'", "a = int ;$\nb = [\"$\"]", "a = h'$'", "$ a = int", "a = int $ b = int", "a = {\"$$\": int} ; $", "a = int\n;$"]);
        let mut o = vec![];
        for &c in s.as_bytes() {
            if c == b'$' {
                o.extend_from_slice(&h);
            } else {
                o.push(c);
            }
        }
        agree(&text_of(o));
    }
    c22_hole2 "C22" "t" ["loaded", "refused"] "over a hundred partial schemas, completed by 2 arbitrary ASCII characters" {
        let s = pick(SKEL);
        let h = ascii(2);
        agree(&fill(s, &[&h]));
    }
}
