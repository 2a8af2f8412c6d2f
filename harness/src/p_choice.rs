//! C06, C14: type choices, group choices, choices from groups.
use crate::gen::*;
use crate::p_arr::{data, fill, map_data};
use crate::real::*;
use crate::refi::*;
use crate::sym;
use crate::val::*;

const ALT: &[&str] = &["int", "tstr", "nil", "7000", "\"ab\"", "'ab'", "[int, int]", "[* tstr]", "{p: int}", "{? p ^ => int}", "{* tstr => any}", "7001 .. 7002", "uint .lt 7001", "tstr .size 2", "al", "&(x: 7000, y: nil)", "(int / tstr)", "true", "{(p: int // q: int)}", "[int, ? tstr]"];
const ALT_S: &[&str] = &["int", "tstr", "7000", "[int, int]", "[int, ? tstr]", "{? p ^ => int}", "{* tstr => any}", "7001 .. 7002", "al", "\"x\"", "&(x: 7000, y: nil)"];
const RULES: &str = "\nal = bl / float\nbl = nil / bytes\np = \"p\"\n";

/// Values near the alternatives.
fn near() -> V {
    match sym::choose(15) {
        12 => V::Arr(vec![i64v(), i64v()]),
        13 => V::Arr(vec![i64v(), t("x")]),
        14 => {
            let mut m = vec![];
            for k in ["p", "q"] {
                match sym::choose(3) {
                    0 => {}
                    1 => m.push((t(k), i64v())),
                    _ => m.push((t(k), t("x"))),
                }
            }
            V::Map(m)
        }
        11 => t("x"),
        10 => V::Arr(vec![t("x")]),
        0 => V::Null,
        1 => any_bool(),
        2 => any_int(),
        3 => V::Float(any_float()),
        4 => V::Text(any_ascii(sym::choose(3))),
        5 => V::Bytes(any_bytes(sym::choose(3))),
        6 => V::Arr(vec![]),
        7 => V::Arr(vec![any_int()]),
        8 => V::Map(vec![]),
        _ => t("ab"),
    }
}
fn lits(sc: &mut Sch) {
    sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
}

const GB: &[&str] = &["int", "int, int", "? int, tstr", "* int, tstr", "(int // tstr), tstr", "g", "tstr, ? int", "int, (tstr, int)"];
const GM: &[&str] = &["p: int", "p: int, q: int", "? p: int, r: tstr", "* tstr => int", "(p: int // q: int), ? r: any", "gm", "q: tstr, ? p: any"];
const AMPK: &[&str] = &["k: ", "1 => ", "tstr ^ => ", ""];

/// A member of a group under `&`, and the type it stands for.
fn amp_member(s: &mut String, alt: &mut String) {
    if !alt.is_empty() {
        s.push_str(", ");
        alt.push_str(" / ");
    }
    match sym::choose(2) {
        0 => {
            s.push_str("gg");
            alt.push_str("7000 / tstr");
        }
        _ => {
            let ty = pick(&["int", "7001", "[int, int]", "{? p ^ => int}", "al", "(nil / \"x\")"]);
            let k = pick(AMPK);
            // without a key, a parenthesis or a name would be read as a group
            s.push_str(if k.is_empty() && (ty == "al" || ty.as_bytes()[0] == b'(') { "z: " } else { k });
            s.push_str(ty);
            alt.push_str(ty);
        }
    }
}

entries! {
    c06_two "C06" "q" ["accepted", "mismatch"] "choices of two out of 20 alternatives with arbitrary integer literals, in 4 places, against values of every kind with arbitrary payloads" {
        let p = [0usize, 1, 3, 6][sym::choose(4)];
        let ty = fill("($ / $)", ALT);
        let mut sc = Sch::new(&cat(&[&subst(POS[p], &ty, ""), RULES]));
        lits(&mut sc);
        sc.agree("a", &in_pos(p, near()), "choice");
    }
    c06_three "C06" "q" ["accepted", "mismatch"] "choices of three out of 11 alternatives" {
        let ty = fill("$ / $ / $", ALT_S);
        let tpl = pick(&["a = $", "a = [$]"]);
        let mut sc = Sch::new(&cat(&[&subst(tpl, &ty, ""), RULES]));
        lits(&mut sc);
        let v = near();
        sc.agree("a", &if tpl.len() > 5 { V::Arr(vec![v]) } else { v }, "choice-of-three");
    }
    c06_ints "C06" "q" ["accepted", "mismatch"] "choices of three or four small literals, repeated ones too, and ranges among them, against any 64-bit integer" {
        const D: &[&str] = &["1", "2", "3", "5", "-1"];
        let s = match sym::choose(4) {
            0 => fill("a = $ / $ / $", D),
            1 => fill("a = $ / $ / $ / $", &D[..3]),
            2 => fill("a = $ / $ .. $ / $", &D[..4]),
            _ => fill("a = $ / \"1\" / $ / $", D),
        };
        let sc = Sch::new(&s);
        sc.agree("a", &i64v(), "choice-of-numbers");
    }
    c06_literals "C06" "q" ["accepted", "mismatch"] "choices of three literals of all kinds (similar ones, and the same in two kinds) as values and as keys" {
        const L: &[&str] = &["1", "1.0", "\"1\"", "'1'", "true", "nil", "\"12\"", "2", "false", "1.5"];
        let s = fill("$ / $ / $", L);
        let key = sym::choose(3) == 2;
        let s = if key { cat(&["a = {(", &s, ") => any}"]) } else { cat(&["a = ", &s]) };
        let sc = Sch::new(&s);
        let v = match sym::choose(8) {
            0 => i64v(),
            1 => V::Float(1.0),
            2 => V::Float(any_float()),
            3 => V::Text(any_ascii(1)),
            4 => V::Text(any_ascii(2)),
            5 => V::Bytes(any_bytes(1)),
            6 => any_bool(),
            _ => V::Null,
        };
        sc.agree("a", &if key { V::Map(vec![(v, V::Null)]) } else { v }, "choice-of-literals");
    }
    c06_places "C06" "q" ["accepted", "mismatch"] "choices of two out of 6 alternatives in 22 places, with and without parentheses" {
        let ty = fill("$ / $", &["int", "\"x\"", "[int, ? tstr]", "{? p ^ => int}", "al", "7000"]);
        let tpl = ["a = $", "a = [$]", "a = {k: $}", "a = {\"k\" => $}", "a = b\nb = c\nc = $", "a = w<($)>\nw<x> = x", "a = [? $]", "a = [* $]", "a = [2*2 ($)]", "a = &(p: $, q: 5)",
            "a = [($)]", "a = [(k: $)]", "a = {($) => any}", "a = {* ($) => any}", "a = {c => any}\nc = $", "a = [? (k: $ // l: $)]", "a = ($)", "a = [g]\ng = ($)", "a = {g}\ng = (k: $)", "a = {? k: $, * any => any}", "a = w<b>\nw<x> = nil / x\nb = $", "a = [~u]\nu = [$]"];
        let i = sym::choose(tpl.len());
        let mut sc = Sch::new(&cat(&[&subst(tpl[i], &ty, ""), RULES]));
        lits(&mut sc);
        let v = near();
        let v = match i {
            0 | 4 | 5 | 9 | 16 | 20 => v,
            2 | 3 | 18 | 19 => V::Map(vec![(t("k"), v)]),
            12..=14 => V::Map(vec![(v, V::Null)]),
            7 | 8 => V::Arr(vec![v.clone(), v]),
            _ => V::Arr(vec![v]),
        };
        sc.agree("a", &v, "choice-place");
    }
    c06_single "C06" "q" ["accepted", "mismatch"] "a choice accepts iff one of its alternatives does when validated on its own, and so does the choice in the other order; operators, .cbor and .regexp alternatives included" {
        let al = ["bstr .cbor int", "tstr .regexp \"a.*\"", "bytes .size 1", "int .gt 7000", "nint .le 7001", "7000 ... 7001", "7000.5 .. 9000.5", "uint .size 1", "[* {p: int}]", "{p: [* any], ? q: nil}", "al", "bstr .cbor [* any]", "bstr .cbor tstr", "float"];
        let x = al[sym::choose(al.len())];
        let y = al[sym::choose(al.len())];
        let s = cat(&["a = ", x, " / ", y, "\nb = ", y, " / ", x, "\nc = ", x, "\nd = ", y, RULES]);
        sym::note(&s);
        let mut c = must_load(&s);
        patch(&mut c, &[sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let v = match sym::choose(7) {
            0 => any_int(),
            1 => V::Float(any_float()),
            2 => V::Bytes(any_bytes(1)),
            3 => V::Text(any_ascii(2)),
            4 => V::Map(vec![(t("p"), V::Arr(vec![])), (t("q"), V::Null)]),
            5 => V::Arr(vec![V::Map(vec![(t("p"), any_int())])]),
            _ => V::Null,
        };
        let rc = run_cbor(&c, "c", &v);
        let rd = run_cbor(&c, "d", &v);
        let ra = run_cbor(&c, "a", &v);
        let rb = run_cbor(&c, "b", &v);
        sym::observe(ra as u64);
        let want = if rc == OK || rd == OK { OK } else { MIS };
        sym::check((rc == OK || rc == MIS) && (rd == OK || rd == MIS), "alternative-verdict");
        sym::check(ra == want, "choice-is-or");
        sym::check(rb == want, "choice-order");
        sym::reach(if want == OK { "accepted" } else { "mismatch" });
    }
    c06_group_array "C06" "q" ["accepted", "mismatch"] "group choices of two or three out of 8 groups in arrays: tried in order, the first that fits is taken" {
        let b = if sym::choose(2) == 0 { fill("$ // $", GB) } else { fill("$ // $ // $", &GB[..6]) };
        let tpl = pick(&["a = [$]", "a = [($), * any]", "a = [? ($), ? tstr]"]);
        let sc = Sch::new(&cat(&[&subst(tpl, &b, ""), "\ng = (int, tstr)\n"]));
        sc.agree("a", &data(3), "group-choice");
    }
    c06_group_map "C06" "q" ["accepted", "mismatch"] "group choices of two or three out of 7 groups in maps" {
        let b = if sym::choose(2) == 0 { fill("$ // $", GM) } else { fill("$ // $ // $", &GM[..5]) };
        let tpl = pick(&["a = {$}", "a = {($), * any => any}", "a = {? r: any, ($)}"]);
        let sc = Sch::new(&cat(&[&subst(tpl, &b, ""), "\ngm = (q: int, ? r: tstr)\n"]));
        sc.agree_any_order("a", &map_data(), "group-choice-map");
    }
    c06_many "C06" "q" ["accepted", "mismatch"] "choices of 4 to 12 alternatives: arbitrary integer literals in any order, alone or with one alternative of another kind in any place, against any 64-bit integer and other values" {
        let n = [4usize, 5, 6, 8, 9, 12][sym::choose(6)];
        let odd = pick(&["7000", "\"x\"", "tstr", "7001 .. 7002", "nil", "al", "[int]", "{p: int}", "float"]);
        let at = sym::choose(n);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(" / ");
            }
            if i == at {
                s.push_str(odd);
            } else {
                s.push_str(["7003", "7004", "7005", "7006", "7007", "7008", "7009", "7010", "7011", "7012", "7013", "7014"][i]);
            }
        }
        let p = [0usize, 1, 3][sym::choose(3)];
        let mut sc = Sch::new(&cat(&[&subst(POS[p], &cat(&["(", &s, ")"]), ""), RULES]));
        let v: Vec<i128> = (0..15).map(|_| sym::u64() as i64 as i128).collect();
        sc.patch(&v, &[]);
        let d = match sym::choose(7) {
            0 => i64v(),
            1 => t("x"),
            2 => V::Null,
            3 => V::Float(any_float()),
            4 => V::Arr(vec![i64v()]),
            5 => V::Map(vec![(t("p"), i64v())]),
            _ => V::Bytes(any_bytes(1)),
        };
        sc.agree("a", &in_pos(p, d), "choice-of-many");
    }
    c06_many_kinds "C06" "q" ["accepted", "mismatch"] "choices of 5 to 9 alternatives of different kinds rotated to start anywhere, against values of every kind" {
        const K: &[&str] = &["7000", "\"ab\"", "[int]", "{p: int}", "7001 .. 7002", "'ab'", "nil", "{* tstr => tstr}", "[tstr, int]"];
        let n = 5 + sym::choose(5);
        let r = sym::choose(n);
        let rev = sym::choose(2) == 1;
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(" / ");
            }
            let j = (i + r) % n;
            s.push_str(K[if rev { n - 1 - j } else { j }]);
        }
        let mut sc = Sch::new(&cat(&["a = ", &s]));
        lits(&mut sc);
        sc.agree("a", &near(), "choice-of-many-kinds");
    }
    c06_many_groups "C06" "q" ["accepted", "mismatch"] "group choices of 4 to 7 groups in arrays and maps, rotated to start anywhere" {
        const A: &[&str] = &["int, int, int", "tstr", "int, tstr", "tstr, int", "? int, tstr, tstr", "* int", "nil"];
        const M: &[&str] = &["p: int, q: int, r: int", "q: tstr, ? r: int", "p: tstr", "r: any", "q: int, p: tstr", "* tstr => int", "z: nil"];
        let n = 4 + sym::choose(4);
        let r = sym::choose(n);
        let map = sym::choose(2) == 1;
        let mut s = String::from(if map { "a = {" } else { "a = [" });
        for i in 0..n {
            if i > 0 {
                s.push_str(" // ");
            }
            s.push_str(if map { M } else { A }[(i + r) % n]);
        }
        s.push_str(if map { "}" } else { "]" });
        let sc = Sch::new(&s);
        sc.agree_any_order("a", &if map { map_data() } else { data(3) }, "group-choice-of-many");
    }
    c06_four "C06" "t" ["accepted", "mismatch"] "choices of four out of 11 alternatives" {
        let ty = fill("$ / $ / $ / $", ALT_S);
        let mut sc = Sch::new(&cat(&[&subst("a = $", &ty, ""), RULES]));
        lits(&mut sc);
        sc.agree("a", &near(), "choice-of-four");
    }

    c14_inline "C14" "q" ["accepted", "mismatch"] "& on written-out and named groups of one to two members (4 key forms, 6 types, other groups by name) is the choice of the members' types; 8 forms and places; arbitrary integer literals" {
        let n = 1 + sym::choose(2);
        let mut g = String::new();
        let mut alt = String::new();
        for _ in 0..n {
            amp_member(&mut g, &mut alt);
        }
        let (form, i) = [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 2), (2, 3), (3, 4)][sym::choose(8)];
        let (e, extra) = match form {
            0 => (cat(&["&(", &g, ")"]), String::new()),
            1 => (String::from("&gr"), cat(&["\ngr = (", &g, ", zz: 9)\n"])),
            2 => (String::from("& gq"), cat(&["\ngq = gr\ngr = (", &g, ", zz: 9)\n"])),
            _ => (String::from("&gr<9>"), cat(&["\ngr<v> = (", &g, ", zz: v)\n"])),
        };
        let tpl = ["a = $", "a = [$]", "a = {k: $}", "a = {$ => any}", "a = b\nb = nil / $"];
        let alt = if extra.is_empty() { alt } else { cat(&[&alt, " / 9"]) };
        let rules = cat(&[RULES, "gg = (m: 7000, n: tstr)\n"]);
        let mut sc = Sch::new(&cat(&[&subst(tpl[i], &e, ""), &extra, &rules]));
        let alt = cat(&["(", &alt, ")"]);
        let mut sa = Sch::new(&cat(&[&subst(tpl[i], &alt, ""), &rules]));
        let vals = [sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128];
        sc.patch(&vals, &[]);
        sa.patch(&vals, &[]);
        let v = near();
        let v = match i {
            1 => V::Arr(vec![v]),
            2 => V::Map(vec![(t("k"), v)]),
            3 => V::Map(vec![(v, V::Null)]),
            _ => v,
        };
        let r1 = run_cbor(&sc.ctx, "a", &v);
        let r2 = run_cbor(&sa.ctx, "a", &v);
        sym::observe(r1 as u64);
        sym::check(r1 == r2, "group-choice-is-type-choice");
        let want = sa.expect("a", &v);
        sym::check(r1 == want, "group-choice-value");
        sym::reach(if want == OK { "accepted" } else { "mismatch" });
    }
    c14_many "C14" "q" ["accepted", "mismatch"] "& on groups of 3 to 8 members with arbitrary integers, one of another kind in any place, written out, named, or in two groups" {
        let n = 3 + sym::choose(6);
        let odd = sym::choose(n);
        let ty = pick(&["tstr", "nil", "7000 .. 7001", "[int]", "7002 / \"x\""]);
        let half = sym::choose(3);
        let mut g = String::new();
        let mut h = String::new();
        let mut alt = String::new();
        for i in 0..n {
            let to = if half == 2 && i >= n / 2 { &mut h } else { &mut g };
            if !to.is_empty() {
                to.push_str(", ");
            }
            to.push_str(["k", "l", "m", "n", "o", "p", "q", "r"][i]);
            to.push_str(": ");
            let m = if i == odd { ty } else { ["7003", "7004", "7005", "7006", "7007", "7008", "7009", "7010"][i] };
            to.push_str(m);
            if i > 0 {
                alt.push_str(" / ");
            }
            alt.push_str(m);
        }
        let s = match half {
            0 => cat(&["a = &(", &g, ")"]),
            1 => cat(&["a = [&w] w = (", &g, ")"]),
            _ => cat(&["a = &w w = (", &g, ", x) x = (", &h, ")"]),
        };
        let mut sc = Sch::new(&s);
        let mut sa = Sch::new(&if half == 1 { cat(&["a = [(", &alt, ")]"]) } else { cat(&["a = ", &alt]) });
        let v: Vec<i128> = (0..11).map(|_| sym::u64() as i64 as i128).collect();
        sc.patch(&v, &[]);
        sa.patch(&v, &[]);
        let d = match sym::choose(5) {
            0 => i64v(),
            1 => t("x"),
            2 => V::Null,
            3 => V::Arr(vec![i64v()]),
            _ => V::Float(any_float()),
        };
        let d = if half == 1 { V::Arr(vec![d]) } else { d };
        let r1 = run_cbor(&sc.ctx, "a", &d);
        let r2 = run_cbor(&sa.ctx, "a", &d);
        sym::observe(r1 as u64);
        sym::check(r1 == r2, "group-choice-of-many");
        let want = sa.expect("a", &d);
        sym::check(r1 == want, "group-choice-of-many-value");
        sym::reach(if want == OK { "accepted" } else { "mismatch" });
    }
    c14_nested "C14" "q" ["accepted", "mismatch"] "groups mentioning groups, two levels, generic groups, and & inside & members" {
        let s = pick(&["a = &g g = (x: 7000, h) h = (y: 7001, z: tstr)", "a = &g g = (h, i) h = (y: 7001) i = (z: nil, j) j = (w: [int])", "a = &g<7000> g<v> = (x: v, h<tstr>) h<v> = (y: v)",
            "a = &(x: &(y: 7000, z: nil), w: tstr)", "a = &(x: b, w: tstr) b = &h h = (y: 7001)", "a = &g g = (h) h = (x: 7000 / tstr)", "a = &w<g> w<x> = x g = (y: 7001, z: tstr)", "a = [* &g] g = (x: 7000, y: [* &g])", "a = &(g, int) g = (x: [int])", "a = &(ty, x: nil) ty = 7000 .. 7001",
            "a = &(h2, x: bool) h2 = h h = (y: 7000, z: tstr)", "a = &g g = (h2<7000>, x: bool) h2<v> = h<tstr, v> h<v, w> = (y: w, z: v)", "a = [* &(h3)] h3 = h2 h2 = h h = (y: 7000, i) i = j j = (z: 7001 / nil)"]);
        let mut sc = Sch::new(s);
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        sc.agree("a", &near(), "choice-of-nested-groups");
    }
    c14_not_group "C14" "q" ["error"] "& on the name of something that is not a group" {
        let x = pick(&["int", "7", "[int]", "{a: int}", "b / c", "tstr .size 3", "1 .. 2", "\"t\"", "~u", "&gg"]);
        let s = match sym::choose(4) {
            0 => cat(&["a = &n n = ", x]),
            1 => cat(&["a = [&n] n = ", x]),
            2 => cat(&["a = &m m = n n = ", x]),
            _ => cat(&["a = {* any => &n} n = ", x]),
        };
        let s = cat(&[&s, "\nb = 1\nc = 2\ngg = (a: 1)\nu = [int]\n"]);
        let c = must_load(&s);
        sym::note(&s);
        let v = near();
        let v = if s.as_bytes()[4] == b'[' { V::Arr(vec![v]) } else if s.as_bytes()[4] == b'{' { V::Map(vec![(V::Null, v)]) } else { v };
        let got = run_cbor(&c, "a", &v);
        sym::observe(got as u64);
        sym::check(got == STRUCTURAL, "choice-of-non-group");
        sym::reach("error");
    }
}
