//! C07, C10, C11: arrays, backtracking and occurrences.
use crate::gen::*;
use crate::real::*;
use crate::sym;
use crate::val::*;

const OCC: &[&str] = &["", "? ", "* ", "+ ", "2*2 ", "0*0 ", "1*2 ", "*1 "];
const BODY: &[&str] = &["int", "tstr", "(int, tstr)", "g", "(int // tstr)", "(int, ? tstr)", "~u"];
const RULES: &str = "\ng = (int, int)\nu = [int, tstr]\n";

fn members(n: usize, occ: &[&str], body: &[&str]) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(pick(occ));
        s.push_str(pick(body));
    }
    s
}
/// An array of up to `max` elements, each an arbitrary 64-bit integer or "x".
pub fn data(max: usize) -> V {
    let n = sym::choose(max + 1);
    V::Arr((0..n).map(|_| if sym::choose(2) == 0 { i64v() } else { t("x") }).collect())
}
/// Replaces each `$` of `tpl` by one of `parts`, independently.
pub fn fill(tpl: &str, parts: &[&str]) -> String {
    let mut s = String::new();
    for c in tpl.as_bytes() {
        if *c == b'$' {
            s.push_str(pick(parts));
        } else {
            s.push(*c as char);
        }
    }
    s
}

const BACK: &[&str] = &[
    "a = [($, $) // ($, $)]",
    "a = [? ($, $), $]",
    "a = [* ($, $), $]",
    "a = [($, ($, $)) // $]",
    "a = [($ // ($, $)), $]",
    "a = [? ($, ? ($, $)), * any]",
    "a = [h, $] h = (($, $) // $)",
    "a = [? h, $] h = ($, ($, $))",
    "a = [~w // ~v] w = [$, $] v = [$, $]",
    "a = [? ~w, $] w = [$, $]",
    "a = [h / k, $] h = (int, $) k = (int, $)",
    "a = [1*2 ($, $), ? ($)]",
    "a = [+ (? ($), $), $]",
    "a = [((($, int) // $)) // $]",
    "a = [~w, $] w = [($, tstr) // $]",
    "a = [? (int, ~w, $), int, $, ? any] w = [$]",
    "a = [(int, ~w, tstr) // (int, $, $)] w = [$]",
    "a = [* (int, ~w, $), int, ($), ? any] w = [int]",
    "a = [? (int, (int, ~w), tstr), int, $, * int] w = [? int, $]",
    "a = [? (int, h, tstr), int, $, * any] h = (~w, $) w = [? int, $]",
    "a = [? (int, * (? tstr), $, nil), int, $]",
    "a = [? (int, + ($), int, nil), int, ? any, ? any]",
    "a = [(int, 2*3 e, $, nil) // (int, $)] e = (? nil)",
    "a = [? (int, ? ~w, int, nil), int, $] w = [* nil]",
    "a = [2*3 ($) // $, $]",
    "a = [(2*4 int // $), ? any, ? any]",
    "a = [g, ? ($)] g = (3* int // $)",
    "a = [? (int, (2*3 int // nil), $), int, ? any]",
    "a = [(2* ~w // int), $] w = [($)]",
];
const PART: &[&str] = &["int", "tstr", "(int, tstr)", "(tstr // int)", "g2", "? int", "* tstr"];
const G2: &str = "\ng2 = (int, ? int)\n";

const KINDS: &[&str] = &[
    "a = [? ($, $, $), $, int, * any]",
    "a = [($, $, $, int) // ($, int, * any)]",
    "a = [? ($, ($, nil)), $, int, any]",
    "a = [* ($, $), $, int, ? any]",
    "a = [? h, $, int, tstr, ? any] h = ($, $, (int, tstr // nil))",
    "a = [? ~u, $, int, * any] u = [$, $, [int]]",
];
/// Up to `max` elements of five kinds.
fn kinds(max: usize) -> V {
    let n = sym::choose(max + 1);
    V::Arr((0..n).map(|_| match sym::choose(5) {
        0 => i64v(),
        1 => t("x"),
        2 => V::Bool(true),
        3 => V::Null,
        _ => V::Arr(vec![]),
    }).collect())
}

const MBACK: &[&str] = &[
    "a = {($, $) // ($, $)}",
    "a = {? ($, $), $}",
    "a = {($, ($, $)) // $}",
    "a = {($ // ($, $)), * any => any}",
    "a = {h, $} h = (($, $) // $)",
    "a = {? h, * tstr => any} h = ($, ($, $))",
    "a = {~w // ~v} w = {$, $} v = {$}",
    "a = {? ~w, $} w = {$, $}",
    "a = {* ($, $), ? ($)}",
    "a = {h / k, $} h = (p: int, $) k = ($)",
    "a = {? (p => int, q => int, r => tstr), * tstr => any} p = \"p\" q = \"q\" r = \"r\"",
    "a = {? (p: int, ~w, $), p: any, ? ($), ? q: any, ? r: any} w = {$}",
    "a = {(p: int, ~w, r: tstr) // (p: int, $, ? r: any)} w = {$}",
    "a = {? (p: int, (q: int, ~w), $), p: any, q: any, ? ($)} w = {? r: int}",
    "a = {? (p: int, h, $), p: any, ? q: any, ? r: any} h = (~w, $) w = {? r: int}",
    "a = {? (p: int, * (? q: int), $, r: tstr), p: any, ? q: any, ? r: any}",
    "a = {? (p: int, + ($), $, nosuch: int), p: any, ? q: any, ? r: any}",
    "a = {2*3 tstr => int // * tstr => any}",
    "a = {(3* tstr => int // $), ? p: any, ? q: any}",
    "a = {? (p: any, (2* tstr => int // q: any), $), p: any, ? q: any, ? r: any}",
];
const MPART: &[&str] = &["p: int", "q: int", "p: tstr", "? q: tstr", "* tstr => int", "\"p\" => int", "(p: int, q: int)", "g3"];
const G3: &str = "\ng3 = (p: tstr // q: int)\n";

/// A map with any of the keys "p" "q" "r", each with an integer or text.
pub fn map_data() -> V {
    let mut m = vec![];
    for k in ["p", "q", "r"] {
        match sym::choose(3) {
            0 => {}
            1 => m.push((t(k), i64v())),
            _ => m.push((t(k), t("x"))),
        }
    }
    V::Map(m)
}

entries! {
    c07_two "C07" "q" ["accepted", "mismatch"] "two members (8 occurrences x 7 bodies each, with groups, group choices and unwraps) against arrays of up to 3 elements" {
        let sc = Sch::new(&cat(&["a = [", &members(2, OCC, BODY), "]", RULES]));
        sc.agree("a", &data(3), "array");
    }
    c07_three "C07" "q" ["accepted", "mismatch"] "three members (4 occurrences x 3 bodies each) against arrays of up to 3 elements" {
        let sc = Sch::new(&cat(&["a = [", &members(3, &["", "? ", "* ", "2*2 "], &["int", "tstr", "(int, tstr)"]), "]"]));
        sc.agree("a", &data(3), "array");
    }
    c07_three_deep "C07" "t" ["accepted", "mismatch"] "three members (6 occurrences x 5 bodies each) against arrays of up to 4 elements" {
        let sc = Sch::new(&cat(&["a = [", &members(3, &["", "? ", "* ", "+ ", "1*2 ", "0*0 "], &["int", "tstr", "(int, tstr)", "g", "~u"]), "]", RULES]));
        sc.agree("a", &data(4), "array");
    }
    c07_ranges "C07" "q" ["accepted", "mismatch"] "members that are literals and ranges with arbitrary integers, so that how far a repetition reaches depends on the values; up to 4 elements of any 64-bit value" {
        let tpl = ["a = [* 7000 .. 7001, 7002]", "a = [? 7000 .. 7001, * 7002 ... 7003]", "a = [* 7000, * 7001, ? 7002]", "a = [1*2 (7000 .. 7001, 7002), ? 7003]",
            "a = [(7000, 7001) // (7002 .. 7003, 7000)]", "a = [* (7000 .. 7001 // 7002), 7003]", "a = [+ uint .lt 7000, * nint]", "a = [? 7000 .. 7001, ? 7000 .. 7001, uint]"];
        let mut sc = Sch::new(tpl[sym::choose(tpl.len())]);
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let n = sym::choose(5);
        let v = V::Arr((0..n).map(|_| i64v()).collect());
        sc.agree("a", &v, "array-values");
    }
    c07_order "C07" "q" ["accepted", "mismatch"] "sequences of up to 4 elements of five kinds after a group that matched some of them and failed: order is kept" {
        let s = fill(KINDS[sym::choose(KINDS.len())], &["int", "tstr", "bool", "nil"]);
        let sc = Sch::new(&s);
        sc.agree("a", &kinds(4), "array-order");
    }
    c07_values "C07" "q" ["accepted", "mismatch"] "literals and one-element ranges in sequence against elements that are arbitrary 64-bit integers: which element meets which member" {
        let tpl = pick(&["a = [7000, 7001, 7002]", "a = [? (7000, 7001, 7002), 7000, 7001, 7003]", "a = [(7000, 7001, 7002, 7003) // (7000, 7001, 7003, 7002)]", "a = [* (7000, 7001), 7000, 7002]", "a = [? 7000, ? 7001, ? 7002, ? 7003]",
            "a = [(7000, ? 7001), (7001, ? 7000), * 7002]", "a = [~u, 7002] u = [7000, ? 7001]", "a = [g, g] g = (7000, ? 7001)", "a = [? ~u, 7000, 7001, 7003] u = [7000, 7001, 7002]"]);
        let mut sc = Sch::new(tpl);
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let n = sym::choose(5);
        sc.agree("a", &V::Arr((0..n).map(|_| i64v()).collect()), "array-positions");
    }
    c07_nothing "C07" "q" ["accepted", "mismatch"] "repeated groups that may match no element, alone, first, last and in another group, against up to 3 elements: repetitions that take nothing count" {
        let tpl = pick(&["a = [&@]", "a = [int, &@]", "a = [? tstr, &@]", "a = [&@, * int]", "a = [&@, &@]", "a = [? int // &@, tstr]", "a = [(int, &@)]", "a = [? (int, &@), int]", "a = [* int, [&@]]", "a = [~y] y = [&@]", "a = [* tstr, k] k = (&@)"]);
        let mut s = String::new();
        for c in tpl.as_bytes() {
            match *c {
                b'&' => s.push_str(pick(&["+ ", "2*2 ", "1*3 ", "3* "])),
                b'@' => s.push_str(pick(&["(? int)", "e", "()", "h", "~z", "(* tstr // int)"])),
                c => s.push(c as char),
            }
        }
        s.push_str("\ne = ()\nh = (* tstr)\nz = [? int, ? tstr]\n");
        let sc = Sch::new(&s);
        let v = if tpl.contains("[&@]]") {
            let mut v = vec![];
            if sym::choose(2) == 1 {
                v.push(i64v());
            }
            v.push(data(2));
            V::Arr(v)
        } else {
            data(3)
        };
        sc.agree("a", &v, "array-nothing");
    }
    c07_long "C07" "q" ["accepted", "mismatch"] "4 to 9 required members of five kinds in sequence, flat or partly in groups, against the array that fits with one element removed, added, replaced or two neighbours exchanged, at any place" {
        const M: &[&str] = &["int", "tstr", "bool", "nil", "[]"];
        let el = |k: usize| match k {
            0 => i64v(),
            1 => t("x"),
            2 => V::Bool(true),
            3 => V::Null,
            _ => V::Arr(vec![]),
        };
        let n = 4 + sym::choose(6);
        let r = sym::choose(5);
        let form = sym::choose(4);
        let mut s = String::from("a = [");
        let mut d = vec![];
        for i in 0..n {
            // runs of the same kind and changes of kind
            let k = (r + i * i / 2) % 5;
            if i > 0 {
                s.push_str(", ");
            }
            match form {
                1 if i == 1 => s.push_str("("),
                2 if i == n - 3 => s.push_str("("),
                3 if i == 2 => s.push_str("? (bool, int, nil), ("),
                _ => {}
            }
            s.push_str(M[k]);
            match form {
                1 if i == n - 2 => s.push_str(")"),
                2 if i == n - 2 => s.push_str(")"),
                3 if i == 2 => s.push_str(")"),
                _ => {}
            }
            d.push(el(k));
        }
        s.push_str("]");
        let sc = Sch::new(&s);
        let at = sym::choose(n);
        match sym::choose(5) {
            0 => {}
            1 => {
                d.remove(at);
            }
            2 => d.insert(at, el(sym::choose(5))),
            3 => d[at] = el(sym::choose(5)),
            _ => {
                if at > 0 {
                    d.swap(at, at - 1);
                }
            }
        }
        sc.agree("a", &V::Arr(d), "array-long");
    }
    c07_runs "C07" "q" ["accepted", "mismatch"] "runs of repeated members one after the other, against up to 8 elements in runs of any lengths" {
        let sc = Sch::new(pick(&["a = [* int, * tstr, * bool]", "a = [+ int, * tstr, + int]", "a = [* (int, tstr), * bool]", "a = [2* int, *2 tstr, 1*3 int]", "a = [* int, ? (tstr, * int, bool), * any]", "a = [* (int // bool), + tstr, * int]", "a = [3*4 int, * (tstr, tstr)]",
            "a = [* g, * tstr] g = (* int, bool)", "a = [~u, * tstr] u = [* int, * bool]", "a = [4*5 (int / tstr), * bool]", "a = [+ (+ int, tstr), ? bool]"]));
        let mut d = vec![];
        for _ in 0..4 {
            let k = sym::choose(3);
            for _ in 0..sym::choose(3) {
                d.push(match k {
                    0 => V::Int(1),
                    1 => t("x"),
                    _ => V::Bool(true),
                });
            }
        }
        sc.agree("a", &V::Arr(d), "array-runs");
    }
    c07_other "C07" "q" ["mismatch", "accepted"] "array schemas against values of every kind" {
        let sc = Sch::new(pick(&["a = []", "a = [* any]", "a = [? any]", "a = [int]", "a = [any]", "a = [+ int]", "a = [(int // tstr)]", "a = [~u] u = [int]", "a = [g] g = (any)", "a = [? (int, tstr)]"]));
        sc.agree("a", &any_value(), "array-kind");
    }
    c07_keys "C07" "q" ["accepted", "mismatch"] "member keys inside an array are ignored: every key form, in the array, in groups, in unwrapped arrays" {
        let k = pick(&["k: ", "\"k\": ", "\"k\" => ", "1: ", "1 => ", "int => ", "kk ^ => ", "tstr => ", "nosuch => ", "'b' => ", "-2: ", "2.5 => "]);
        let m = pick(&["int", "tstr", "7 .. 9", "(int / nil)"]);
        let o = pick(&["", "? ", "* ", "2*2 "]);
        let tpl = pick(&["a = [$]", "a = [$, any]", "a = [int, $]", "a = [($, tstr)]", "a = [g] g = ($)", "a = [~u] u = [$]", "a = [(tstr // $)]"]);
        let with = subst(tpl, &cat(&[o, k, m]), "");
        let without = subst(tpl, &cat(&[o, m]), "");
        let c1 = must_load(&with);
        let sc = Sch::new(&without);
        let d = data(3);
        let got = run_cbor(&c1, "a", &d);
        sym::observe(got as u64);
        let want = sc.agree("a", &d, "array-keyless");
        sym::check(got == want, "array-keyed");
    }
    c07_nested "C07" "q" ["accepted", "mismatch"] "arrays in arrays, in maps and behind names; the inner and the outer elements are counted separately" {
        let o = pick(&["", "? ", "* ", "+ ", "1*2 "]);
        let p = pick(&["", "? ", "* "]);
        let tpl = pick(&["a = [@[$int], ? tstr]", "a = [@i] i = [$int]", "a = {k: [@[$int]]}", "a = [@(i // tstr)] i = [$int]", "a = [@[[$int]]]"]);
        let sc = Sch::new(&subst(tpl, o, p));
        let n = sym::choose(3);
        let mut v = vec![];
        for _ in 0..n {
            match sym::choose(4) {
                0 => v.push(t("x")),
                1 => v.push(V::Arr(vec![V::Arr(vec![i64v()])])),
                2 => v.push(V::Arr(vec![])),
                _ => v.push(V::Arr(vec![i64v(), i64v()])),
            }
        }
        let v = if tpl.starts_with("a = {") { V::Map(vec![(t("k"), V::Arr(v))]) } else { V::Arr(v) };
        sc.agree("a", &v, "array-nested");
    }

    c10_array "C10" "q" ["accepted", "mismatch"] "29 schema shapes whose groups, alternatives, repetitions and unwraps can fail partway (each hole one of 5 parts), against arrays of up to 3 elements" {
        let s = fill(BACK[sym::choose(BACK.len())], &["int", "tstr", "(int, tstr)", "g2", "? int"]);
        let sc = Sch::new(&cat(&[&s, G2]));
        sc.agree("a", &data(3), "array-backtrack");
    }
    c10_order "C10" "q" ["accepted", "mismatch"] "what a failed group had taken comes back in its original order: sequences of up to 4 elements of five kinds" {
        let s = fill(KINDS[sym::choose(KINDS.len())], &["int", "tstr", "bool", "nil"]);
        let sc = Sch::new(&s);
        sc.agree("a", &kinds(4), "restored-order");
    }
    c10_long "C10" "q" ["accepted", "mismatch"] "groups, alternatives and unwraps of 3 to 6 members that fail at any member (each element fits or not), alone, nested and repeated; what follows sees everything they had taken" {
        let n = 3 + sym::choose(4);
        let mut g = String::new();
        for i in 0..n {
            if i > 0 {
                g.push_str(", ");
            }
            g.push_str(["int", "tstr", "int", "bool", "tstr", "int"][i]);
        }
        let tpl = pick(&["a = [? ($), * any]", "a = [($) // (int, * any)]", "a = [? h, int, tstr, * any] h = ($)", "a = [? ~u, int, * any] u = [$]", "a = [? (int, ? ($)), * (int / tstr / bool)]", "a = [* ($), ? int, ? tstr, ? int, ? bool]", "a = [(($, nil) // ($)), * any]",
            "a = [((int, tstr, ($)) // ($)), ? int]", "a = [~u, ? any] u = [($) // (int, tstr, * any)]", "a = [1*2 ($), ? int, ? tstr]"]);
        let sc = Sch::new(&subst(tpl, &g, ""));
        let len = n - 1 + sym::choose(3);
        let bad = sym::choose(len + 1);
        let mut d = vec![];
        for i in 0..len {
            d.push(if i == bad {
                V::Null
            } else {
                match i % n {
                    3 => V::Bool(true),
                    1 | 4 => t("x"),
                    _ => i64v(),
                }
            });
        }
        sc.agree("a", &V::Arr(d), "array-backtrack-long");
    }
    c10_array_deep "C10" "t" ["accepted", "mismatch"] "the same shapes with 7 parts, arrays of up to 5 elements" {
        let s = fill(BACK[sym::choose(BACK.len())], PART);
        let sc = Sch::new(&cat(&[&s, G2]));
        sc.agree("a", &data(5), "array-backtrack");
    }
    c10_map "C10" "q" ["accepted", "mismatch"] "20 map schema shapes whose groups, alternatives and unwraps can fail partway (each hole one of 8 parts), against maps over 3 keys with values of two kinds" {
        let s = fill(MBACK[sym::choose(MBACK.len())], &["p: int", "q: int", "? q: tstr", "* tstr => int", "\"p\" => int", "(p: int, q: int)"]);
        let sc = Sch::new(&cat(&[&s, G3]));
        sc.agree_any_order("a", &map_data(), "map-backtrack");
    }
    c10_map_deep "C10" "t" ["accepted", "mismatch"] "the same shapes with 8 parts" {
        let s = fill(MBACK[sym::choose(MBACK.len())], MPART);
        let sc = Sch::new(&cat(&[&s, G3]));
        sc.agree_any_order("a", &map_data(), "map-backtrack");
    }
    c10_values "C10" "q" ["accepted", "mismatch"] "where in a group the failure happens depends on arbitrary integers" {
        let tpl = pick(&["a = [(7000, 7001, 7002) // (7000, 7001) // * int]", "a = [? (7000, ? (7001, 7002)), * int]", "a = [* (7000, 7001), ? 7000, * tstr]",
            "a = [(~w // ~v), ? int] w = [7000, 7001] v = [7000, 7002]", "a = [g / h] g = (7000, 7001) h = (7000, ? 7002)", "a = [((7000, 7001), 7002) // (7000, (7001, 7003))]"]);
        let mut sc = Sch::new(tpl);
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let n = sym::choose(4);
        let v = V::Arr((0..n).map(|_| i64v()).collect());
        sc.agree("a", &v, "array-backtrack-values");
    }

    c11_text "C11" "q" ["accepted", "mismatch"] "every one-digit n*m, n*, *m (symbolic digits in the schema text) before 6 kinds of array member, against arrays of 0 to 5 elements" {
        let form = sym::choose(3);
        let mut o: Vec<u8> = vec![];
        let digit = |o: &mut Vec<u8>| {
            let d = sym::u8();
            sym::assume(d >= b'0');
            sym::assume(d <= b'9');
            o.push(d);
        };
        if form != 1 {
            digit(&mut o);
        }
        o.push(b'*');
        if form != 2 {
            digit(&mut o);
        }
        let o = unsafe { String::from_utf8_unchecked(o) };
        let tpl = pick(&["a = [$ int, ? tstr]", "a = [$ (int, ? tstr)]", "a = [$ g] g = (int)", "a = [g] g = ($ int)", "a = [$ (int // tstr)]", "a = [$ ~u] u = [int]"]);
        let sc = Sch::new(&subst(tpl, &o, ""));
        let n = sym::choose(6);
        let mut v: Vec<V> = (0..n).map(|_| i64v()).collect();
        if sym::choose(2) == 1 {
            v.push(t("x"));
        }
        sc.agree("a", &V::Arr(v), "occurrence");
    }
    c11_limits "C11" "q" ["accepted", "mismatch"] "arbitrary 64-bit limits n and m, before 10 kinds of member, against 0 to 4 elements or entries" {
        let tpl = pick(&["a = [5*6 int]", "a = [5*6 int, * int]", "a = [5*6 (int, int), ? int]", "a = [5*6 g, * int] g = (int)", "a = [g, * int] g = (5*6 int)", "a = [h, * int] h = g g = (5*6 int)",
            "a = {5*6 tstr => int}", "a = {5*6 tstr => int, * any => any}", "a = {5*6 p: int, * any => any}", "a = {g, * any => any} g = (5*6 tstr => int)"]);
        let mut sc = Sch::new(tpl);
        let lo = sym::u64();
        let hi = sym::u64();
        sc.patch_limits(lo, hi);
        let n = sym::choose(5);
        let v = if tpl.as_bytes()[4] == b'[' {
            V::Arr((0..n).map(|_| i64v()).collect())
        } else {
            V::Map((0..n).map(|i| (t(["p", "q", "r", "s", "t"][i]), i64v())).collect())
        };
        sc.agree_any_order("a", &v, "occurrence-limits");
    }
    c11_marks "C11" "q" ["accepted", "mismatch"] "? * + and fixed counts on array and map members, groups, named groups and unwraps, directly and nested" {
        let o = pick(&["? ", "* ", "+ ", "0*0 ", "*0 ", "0* ", "1* ", "*1 ", "2*2 ", "1*1 ", "3*2 ", "2*3 ", "*2 "]);
        let p = pick(&["", "? ", "* ", "+ ", "0*1 ", "2*2 "]);
        let tpl = pick(&["a = [$int, ? tstr]", "a = [$(@int, tstr)]", "a = [$g] g = (@int, tstr)", "a = [@(g)] g = ($int)", "a = [$~u] u = [@int]", "a = [$int, @int]", "a = [@($int)]", "a = [$g] g = h h = (@int)",
            "a = [g<int>, ? tstr] g<x> = ($x, @tstr)"]);
        let sc = Sch::new(&subst(tpl, o, p));
        sc.agree("a", &data(4), "occurrence-marks");
    }
    c11_map_marks "C11" "q" ["accepted", "mismatch"] "the same before map members" {
        let o = pick(&["? ", "* ", "+ ", "0*0 ", "*0 ", "1* ", "2*2 ", "1*1 ", "3*2 ", "2*3 ", "*2 "]);
        let p = pick(&["", "? ", "* ", "2*2 "]);
        let tpl = pick(&["a = {$tstr => int, ? r: tstr}", "a = {$p: int, @tstr => any}", "a = {$p => int, @tstr => any} p = \"p\"", "a = {$(p: int), * tstr => any}", "a = {$g} g = (@tstr => int)", "a = {$(tstr => int, @tstr => tstr)}",
            "a = {@~u, * tstr => any} u = {$tstr => int}", "a = {@g, q: any, * tstr => tstr} g = ($p: int)"]);
        let sc = Sch::new(&subst(tpl, o, p));
        sc.agree_any_order("a", &map_data(), "occurrence-map");
    }
    c11_many "C11" "q" ["accepted", "mismatch"] "limits around the number of elements or entries, 0 to 7 of them, with one that does not fit anywhere among them" {
        let o = pick(&["* ", "+ ", "3*5 ", "4* ", "*4 ", "5*5 ", "2*6 ", "6* ", "7*7 ", "*6 "]);
        let tpl = pick(&["a = [$int, ? tstr, * any]", "a = [$(int), * (int / tstr)]", "a = [$g, ? tstr, * int] g = (int)", "a = [h, ? any] h = ($int)", "a = {$tstr => int, * any => any}", "a = {$tstr => int, ? tstr => tstr}", "a = {g, * any => any} g = ($tstr => int)"]);
        let sc = Sch::new(&subst(tpl, o, ""));
        let n = sym::choose(8);
        let bad = sym::choose(n + 1);
        let mut a = vec![];
        let mut m = vec![];
        for i in 0..n {
            let v = if i == bad { t("x") } else { V::Int(1) };
            a.push(v.clone());
            m.push((t(["p", "q", "r", "s", "t", "u", "v"][i]), v));
        }
        sc.agree_any_order("a", &if tpl.as_bytes()[4] == b'[' { V::Arr(a) } else { V::Map(m) }, "occurrence-many");
    }
    c11_big "C11" "q" ["accepted", "mismatch"] "limits of several digits, up to 2^64-1, read from the text" {
        let o = pick(&["10*10 ", "*10 ", "9*11 ", "18446744073709551615*18446744073709551615 ", "*18446744073709551615 ", "0*4294967296 ", "4294967296* ", "256*256 ", "12*13 "]);
        let tpl = pick(&["a = [$int]", "a = [$int, * any]", "a = [$(int)]", "a = [g] g = ($int)"]);
        let sc = Sch::new(&subst(tpl, o, ""));
        let n = [0usize, 1, 9, 10, 11, 12, 255, 256, 257][sym::choose(9)];
        let v: Vec<V> = (0..n).map(|_| V::Int(1)).collect();
        sc.agree("a", &V::Arr(v), "occurrence-big");
    }
}
