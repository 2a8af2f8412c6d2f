//! C08, C09, C26: maps, cuts and member keys.
use crate::gen::*;
use crate::p_arr::{fill, map_data};
use crate::real::*;
use crate::refi::*;
use crate::sym;
use crate::val::*;

const MEMBERS: &[&str] = &["p: int", "? q: int", "\"q\" => tstr", "? p => any", "* tstr => int", "+ k => tstr", "r: any", "? (p: int, q: int)", "(q: int // r: tstr)", "g"];
const MRULES: &str = "\nk = \"q\" / \"r\"\ng = (r: tstr, ? q: int)\np = \"p\"\n";

fn key_of(i: usize) -> V {
    match i {
        0 => V::Null,
        1 => V::Bool(true),
        2 => i64v(),
        3 => V::Float(any_float()),
        4 => V::Text(any_ascii(sym::choose(3))),
        5 => V::Bytes(any_bytes(sym::choose(3))),
        6 => V::Arr(vec![i64v()]),
        7 => V::Arr(vec![]),
        8 => V::Map(vec![(t("p"), i64v())]),
        _ => V::Map(vec![]),
    }
}
/// The i-th order of three entries.
fn perm(i: usize, m: &[(V, V)]) -> V {
    let o = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][i];
    V::Map(o.iter().map(|j| m[*j].clone()).collect())
}

const CUTS: &[&str] = &["? p: int", "? \"p\": int", "? \"p\" ^ => int", "? p ^ => int", "* tstr ^ => int", "* p ^ => int", "? p => int", "? \"p\" => int", "* tstr => int", "+ tstr ^ => int", "p: int", "? pq ^ => int"];
const LATER: &[&str] = &["* tstr => any", "? p: any", "? \"p\" => any", "* any => any", "p => tstr", "? q: int", "g2"];
const CRULES: &str = "\np = \"p\"\npq = \"p\" / \"q\"\ng2 = (* tstr => any)\nm2 = {* tstr => any}\n";
const CPOS: &[&str] = &[
    "a = {$, @}",
    "a = {($, @)}",
    "a = {h, @} h = ($)",
    "a = {($), @}",
    "a = {$, @ // * tstr => any}",
    "a = {$ // @}",
    "a = {h // @} h = ($)",
    "a = {~u, @} u = {$}",
    "a = {(($, @) // q: any, @)}",
    "a = {? ($, q: any), @}",
    "a = {$, @} / m2",
    "a = {? ($ // @), * tstr => any}",
    "a = {q: {$, @}} / {q: any, * tstr => any}",
    "a = {* tstr => ({$, @} / tstr / int)}",
    "a = [? {$, @}, any]",
];
fn cut_data(i: usize) -> V {
    let m = map_data();
    match i {
        12 => V::Map(vec![(t("q"), m)]),
        13 => V::Map(vec![(t("p"), m)]),
        14 => V::Arr(vec![m]),
        _ => m,
    }
}

entries! {
    c08_three "C08" "q" ["accepted", "mismatch"] "three members out of 10 kinds (required, optional, repeated, groups, choices, named group) against maps over 3 text keys with values of two kinds" {
        let s = fill("a = {$, $, $}", &MEMBERS[..9]);
        let sc = Sch::new(&cat(&[&s, MRULES]));
        sc.agree_any_order("a", &map_data(), "map");
    }
    c08_two "C08" "q" ["accepted", "mismatch"] "two members with every occurrence" {
        let o1 = pick(&["", "? ", "* ", "+ ", "2*2 ", "0*0 ", "*1 "]);
        let o2 = pick(&["", "? ", "* ", "2* "]);
        let m1 = pick(&["p: int", "tstr => int", "\"q\" => any", "(p: int, q: any)", "(p: int // r: tstr)", "g", "~u"]);
        let m2 = pick(&["q: int", "tstr => any", "g", "(r: any)", "k => int", "any => tstr"]);
        let sc = Sch::new(&cat(&["a = {", o1, m1, ", ", o2, m2, "}", MRULES, "u = {p: int, ? r: tstr}\n"]));
        sc.agree_any_order("a", &map_data(), "map");
    }
    c08_optional "C08" "q" ["accepted", "mismatch"] "groups that can match nothing or something, under every occurrence, named and not, alone or before another member, against maps of none to three entries" {
        let o = pick(&["", "? ", "* ", "+ ", "1*1 ", "2*2 ", "1*3 ", "3* ", "0*0 "]);
        let g = pick(&["(? p: int)", "(? p: int, ? q: tstr)", "(* tstr => int)", "(? p: int // ? q: int)", "(? p: int, q: any)", "go", "~uo", "(go)", "()", "(? \"p\" => int, ? (q: int, r: any))"]);
        let tpl = pick(&["a = {$@}", "a = {$@, ? r: tstr}", "a = {p: any, $@}", "a = {($@) // * any => any}", "a = {h} h = ($@)", "a = {$@, * tstr => tstr}"]);
        let s = cat(&[&subst(tpl, o, g), "\ngo = (? p: int, * tstr => tstr)\nuo = {? q: int}\n"]);
        let sc = Sch::new(&s);
        sc.agree_any_order("a", &map_data(), "map-of-optional-groups");
    }
    c08_order "C08" "q" ["accepted", "mismatch"] "the order of three entries in the data never matters: text keys and arbitrary integer values, 2 x 6 orders" {
        let s = fill("a = {$, $}", MEMBERS);
        let c = must_load(&cat(&[&s, MRULES]));
        sym::note(&s);
        let m = match sym::choose(3) {
            0 => vec![(t("p"), i64v()), (t("q"), i64v()), (t("r"), t("x"))],
            1 => vec![(t("q"), t("x")), (t("p"), i64v()), (t("r"), t("x"))],
            _ => vec![(t("r"), i64v()), (t("q"), i64v()), (V::Int(1), V::Null)],
        };
        let base = run_cbor(&c, "a", &V::Map(m.clone()));
        sym::observe(base as u64);
        let other = run_cbor(&c, "a", &perm(1 + sym::choose(5), &m));
        sym::check(base == other, "entry-order");
        sym::reach(if base == OK { "accepted" } else { "mismatch" });
    }
    c08_order_keys "C08" "q" ["accepted", "mismatch"] "the same with arbitrary keys: two different 64-bit integers, and keys of different kinds" {
        let s = pick(&["a = {7000 => int, * int => any}", "a = {? 7000 => tstr, 7001 => int}", "a = {* uint => int, * any => any}", "a = {7000 => int, * any => any}", "a = {+ int => int, ? any => any}", "a = {* 7000 .. 7001 => int, ? tstr => any, ? any => int}", "a = {? 7000 ^ => tstr, * int => any, ? any => any}"]);
        let mut sc = Sch::new(s);
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let k1 = i64v();
        let k2 = key_of([2usize, 4, 5, 0, 6][sym::choose(5)]);
        sym::assume(!k1.same(&k2));
        let m = vec![(k1, i64v()), (k2, if sym::choose(2) == 0 { i64v() } else { t("x") })];
        let rev = V::Map(vec![m[1].clone(), m[0].clone()]);
        let m = V::Map(m);
        let x = sc.agree_any_order("a", &m, "map-keys");
        if x != 255 {
            sc.agree_any_order("a", &rev, "map-keys-reversed");
        }
    }
    c08_key_kinds "C08" "q" ["accepted", "mismatch"] "keys of every kind (arrays and maps too) against key types of every kind" {
        let k = pick(&["int", "tstr", "bstr", "float", "bool", "nil", "any", "[int]", "[* any]", "{p: int}", "{* any => any}", "7000", "(7000 / tstr)", "7000 .. 7001", "uint .lt 7000", "tstr .size 2", "kk", "&(x: 7000, y: tstr)", "[~u]"]);
        let tpl = pick(&["a = {$ => int}", "a = {? $ => int, * any => any}", "a = {* $ => any}", "a = {$ ^ => int, * any => any}"]);
        let mut sc = Sch::new(&cat(&[&subst(tpl, k, ""), "\nkk = k2\nk2 = [] / 7001 / bstr\nu = [int]\n"]));
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let v = if sym::choose(2) == 0 { i64v() } else { t("x") };
        sc.agree("a", &V::Map(vec![(key_of(sym::choose(10)), v)]), "map-key-kind");
    }
    c08_left "C08" "q" ["accepted", "mismatch"] "an entry no member takes, with any key and a value of any kind, next to entries that are taken" {
        let tpl = pick(&["a = {}", "a = {p: any}", "a = {? q: any}", "a = {* int => any}", "a = {? p: nil, ? q: bool}", "a = {(p: any // q: any)}", "a = {g} g = (p: any)", "a = {~u} u = {? p: any}", "a = {p: any} / {q: any}", "a = {+ bstr => any, ? p: any}", "a = {* tstr => nil}"]);
        let sc = Sch::new(tpl);
        let mut m = vec![];
        if sym::choose(2) == 1 {
            m.push((t("p"), V::Null));
        }
        let k = key_of(sym::choose(10));
        if let V::Text(x) = &k {
            sym::assume(x.as_bytes() != b"p");
        }
        let v = any_value();
        if sym::choose(2) == 0 {
            m.push((k, v));
        } else {
            m.insert(0, (k, v));
        }
        sc.agree_any_order("a", &V::Map(m), "map-leftover");
    }
    c08_values "C08" "q" ["accepted", "mismatch"] "members with value types of every kind, alone and repeated, against one or two entries with values of every kind" {
        let ty = pick(&["any", "nil", "bool", "false", "int", "0", "float", "tstr", "\"\"", "bstr", "[]", "[* any]", "{}", "{* any => any}", "int / nil", "v"]);
        let m = pick(&["p: ", "? p: ", "* tstr => ", "+ tstr => ", "? p ^ => ", "* any => ", "2*2 tstr => "]);
        let tail = pick(&["", ", ? q: any", ", * tstr => nil"]);
        let sc = Sch::new(&cat(&["a = {", m, ty, tail, "}\nv = nil / []\np = \"p\"\n"]));
        let mut d = vec![(t("p"), any_value())];
        match sym::choose(4) {
            0 => {}
            1 => d.push((t("q"), V::Null)),
            2 => d.push((t("q"), V::Arr(vec![]))),
            _ => d.push((t("r"), i64v())),
        }
        sc.agree_any_order("a", &V::Map(d), "map-value");
    }
    c08_kind "C08" "q" ["accepted", "mismatch"] "map schemas against values of every kind" {
        let sc = Sch::new(pick(&["a = {}", "a = {* any => any}", "a = {? p: int}", "a = {a: int}", "a = {any => any}", "a = {+ any => any}", "a = {(a: int // b: int)}", "a = {~u} u = {a: int}", "a = {g} g = (a: int)", "a = {* tstr => int}"]));
        sc.agree("a", &any_value(), "map-kind");
    }
    c08_once "C08" "q" ["accepted", "mismatch"] "each entry satisfies one member only, and greedy members leave what their limits leave" {
        let s = fill("a = {$, $, $}", &["p: int", "\"p\" => int", "tstr => int", "? p: int", "2*2 tstr => any", "*1 tstr => any", "+ tstr => int"]);
        let sc = Sch::new(&s);
        sc.agree_any_order("a", &map_data(), "map-once");
    }
    c08_nested "C08" "q" ["accepted", "mismatch"] "maps in maps and arrays, values behind names, choices and ranges of arbitrary integers" {
        let s = pick(&["a = {p: {q: int}, ? q: any}", "a = {p: i} i = {? q: int, ? r: tstr}", "a = {* tstr => {* tstr => int}}", "a = {p: [{q: int}]}", "a = {p: int / {q: int}, ? q: 7000 .. 7001}", "a = {q: 7000 .. 7001, ? p: {* any => any}}", "a = {p: i} i = {q: j} j = 7000 .. 7001"]);
        let mut sc = Sch::new(s);
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let inner = match sym::choose(4) {
            0 => V::Map(vec![]),
            1 => V::Map(vec![(t("q"), i64v())]),
            2 => V::Map(vec![(t("q"), i64v()), (t("r"), t("x"))]),
            _ => i64v(),
        };
        let inner = if sym::choose(3) == 2 { V::Arr(vec![inner]) } else { inner };
        let mut m = vec![];
        if sym::choose(3) != 2 {
            m.push((t("p"), inner.clone()));
        }
        match sym::choose(3) {
            0 => m.push((t("q"), i64v())),
            1 => m.push((t("q"), inner)),
            _ => {}
        }
        sc.agree("a", &V::Map(m), "map-nested");
    }
    c08_many "C08" "q" ["accepted", "mismatch"] "4 to 8 members with distinct keys (text and integers; required or optional), flat or partly in a group, against the map that fits with one entry removed, added, or given another key or value" {
        const K: &[&str] = &["p: ", "\"q\" => ", "1: ", "2 => ", "r: ", "s: ", "'t' => ", "-7: "];
        let n = 4 + sym::choose(5);
        let opt = sym::choose(n);
        let form = sym::choose(3);
        let mut s = String::from("a = {");
        let mut d = vec![];
        for i in 0..n {
            if i > 0 {
                s.push_str(", ");
            }
            if form == 1 && i == 1 {
                s.push_str("(");
            }
            if i == opt {
                s.push_str("? ");
            }
            s.push_str(K[i]);
            s.push_str(if i % 3 == 1 { "tstr" } else { "int" });
            if form == 1 && i == n - 2 {
                s.push_str(")");
            }
            let key = match i {
                0 => t("p"),
                1 => t("q"),
                2 => V::Int(1),
                3 => V::Int(2),
                4 => t("r"),
                5 => t("s"),
                6 => b(b"t"),
                _ => V::Int(-7),
            };
            d.push((key, if i % 3 == 1 { t("x") } else { i64v() }));
        }
        s.push_str(if form == 2 { ", * tstr => any}" } else { "}" });
        let sc = Sch::new(&s);
        let at = sym::choose(n);
        match sym::choose(5) {
            0 => {}
            1 => {
                d.remove(at);
            }
            2 => d.insert(at, (if sym::choose(2) == 0 { t("zz") } else { V::Int(3) }, i64v())),
            3 => d[at].1 = if sym::choose(2) == 0 { t("y") } else { V::Null },
            _ => d[at].0 = [t("zz"), V::Int(3), V::Null, b(b"p")][sym::choose(4)].clone(),
        }
        sc.agree_any_order("a", &V::Map(d), "map-many");
    }
    c08_four "C08" "t" ["accepted", "mismatch"] "four members out of 10 kinds" {
        let s = fill("a = {$, $, $, $}", MEMBERS);
        let sc = Sch::new(&cat(&[&s, MRULES]));
        sc.agree_any_order("a", &map_data(), "map");
    }

    c09_cut "C09" "q" ["accepted", "mismatch"] "12 cutting and non-cutting members, 7 later members, 15 places (groups, named groups, unwraps, alternatives, nested maps), maps over 3 keys with values of two kinds" {
        let i = sym::choose(CPOS.len());
        let s = subst(CPOS[i], pick(CUTS), pick(LATER));
        let sc = Sch::new(&cat(&[&s, CRULES]));
        sc.agree_any_order("a", &cut_data(i), "cut");
    }
    c09_values "C09" "q" ["accepted", "mismatch"] "whether the key or the value fits depends on arbitrary integers" {
        let k = pick(&["? 7000: 7001 .. 7002", "? 7000 ^ => 7001 .. 7002", "? 7000 => 7001 .. 7002", "* 7000 .. 7001 ^ => uint", "* 7000 .. 7001 => uint", "* kk ^ => 7002"]);
        let tpl = pick(&["a = {$, * int => any}", "a = {$, * any => tstr // * int => any}", "a = {($, * int => any)}", "a = {? ($), ? 7000: any}"]);
        let mut sc = Sch::new(&cat(&[&subst(tpl, k, ""), "\nkk = 7000 / 7001\n"]));
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[]);
        let k1 = i64v();
        let mut m = vec![(k1.clone(), i64v())];
        if sym::choose(2) == 1 {
            let k2 = i64v();
            sym::assume(!k1.same(&k2));
            m.push((k2, i64v()));
        }
        sc.agree_any_order("a", &V::Map(m), "cut-values");
    }

    c09_many "C09" "q" ["accepted", "mismatch"] "repeated cutting and non-cutting members with limits, before a catch-all, against maps of 0 to 5 entries each with a value of either kind: one wrong value after any number of right ones" {
        let m = pick(&["* tstr ^ =>", "+ tstr ^ =>", "2* tstr ^ =>", "*3 tstr ^ =>", "0*4 tstr ^ =>", "1*2 tstr ^ =>", "* tstr =>", "*3 tstr =>", "* kk ^ =>", "? \"t\" ^ =>", "? t:", "? q: int, ? s:", "? p: int, ? q: int, ? r: int, ? s: int, ? t:", "*2 tstr ^ => int, *2 tstr ^ =>"]);
        let tpl = pick(&["a = {$ int, * any => any}", "a = {($ int), * tstr => tstr}", "a = {g, ? t: any, * any => any} g = ($ int)", "a = {$ int // * any => any}", "a = {~u, * any => any} u = {$ int}", "a = {? ($ int, z: any), * any => any}", "a = {$ int, 0*1 tstr => any, * any => tstr}"]);
        let sc = Sch::new(&cat(&[&subst(tpl, m, ""), "\nkk = \"p\" / \"r\" / \"t\"\n"]));
        let n = sym::choose(6);
        let mut d = vec![];
        for k in &["p", "q", "r", "s", "t"][..n] {
            d.push((t(k), if sym::choose(2) == 0 { V::Int(1) } else { t("x") }));
        }
        sc.agree_any_order("a", &V::Map(d), "cut-many");
    }
    c09_kinds "C09" "q" ["accepted", "mismatch"] "cutting and non-cutting members whose keys are of every kind (arrays, maps, byte strings, floats, null, booleans, integers, text, a named key, a group of keys) before a catch-all that would take a wrong value" {
        const KK: &[&str] = &["[int]", "[* any]", "{k: int}", "{* any => any}", "'k'", "bstr", "1.5", "float", "nil", "true", "bool", "7", "uint", "nint", "\"k\"", "any", "kn", "kk", "kg<[int]>", "0 .. 9", "tstr .size 1", "uint .lt 10"];
        let k = pick(KK);
        let m = match sym::choose(6) {
            0 => cat(&["? ", k, " ^ => int"]),
            1 => cat(&["? ", k, " => int"]),
            2 => cat(&["* ", k, " ^ => int"]),
            3 => cat(&["*1 ", k, " ^ => int, *1 ", k, " => tstr"]),
            4 => cat(&["? (", k, " ^ => int)"]),
            _ => cat(&["? (x: any // ", k, " ^ => int)"]),
        };
        let tpl = pick(&["a = {$, * any => any}", "a = {$ // * any => tstr}", "a = {? g, * any => any} g = ($)", "a = {~u, * any => any} u = {$}"]);
        let sc = Sch::new(&cat(&[&subst(tpl, &m, ""), "\nkn = [int]\nkk = {k: int} / 'k' / nil\nkg<t> = t\n"]));
        let key = match sym::choose(11) {
            0 => V::Arr(vec![V::Int(1)]),
            1 => V::Arr(vec![]),
            2 => V::Map(vec![(t("k"), V::Int(1))]),
            3 => V::Map(vec![]),
            4 => b(b"k"),
            5 => V::Float(1.5),
            6 => V::Null,
            7 => V::Bool(sym::choose(2) == 0),
            8 => V::Int(7),
            9 => V::Int(-7),
            _ => t("k"),
        };
        let v = [V::Int(1), t("x"), V::Null][sym::choose(3)].clone();
        sc.agree_any_order("a", &V::Map(vec![(key, v)]), "cut-kinds");
    }
    c26_forms "C26" "q" ["accepted", "mismatch"] "every key form, alone and before a catch-all (which shows the cut), against keys of every kind with arbitrary payloads" {
        let k = pick(&["nm:", "\"nm\":", "\"nm\" =>", "\"nm\" ^ =>", "1:", "1 =>", "1 ^ =>", "-1:", "-1 =>", "1.5:", "1.5 =>", "'nm':", "'nm' =>", "h'6e6d' =>", "h'6e6d':", "tn =>", "tn ^ =>", "tn:", "int:", "int =>", "int ^ =>",
            "tstr:", "tstr =>", "bool:", "true:", "nil:", "any:", "any =>", "any ^ =>", "nil =>", "(\"nm\" / 1) =>", "(\"nm\" / 1) ^ =>", "0:", "lit =>", "lit:", "g<1> =>", "[int] =>", "b-1.x_y:", "@z:", "$z:"]);
        let o = pick(&["", "? ", "* "]);
        let tail = pick(&["", ", * any => any"]);
        let sc = Sch::new(&cat(&["a = {", o, k, " int", tail, "}\ntn = \"nm\" / bstr\nlit = -1\ng<x> = x\n"]));
        let key = match sym::choose(6) {
            0 => t(pick(&["nm", "tn", "int", "tstr", "bool", "true", "nil", "any", "lit", "b-1.x_y", "@z", "$z", "1", "1.5", "-1", ""])),
            1 => V::Text(any_ascii(2)),
            2 => any_int(),
            3 => V::Float(any_float()),
            4 => V::Bytes(any_bytes(2)),
            _ => key_of([0usize, 1, 6, 8][sym::choose(4)]),
        };
        let v = if sym::choose(2) == 0 { i64v() } else { t("x") };
        sc.agree("a", &V::Map(vec![(key, v)]), "key-form");
    }
    c26_names "C26" "q" ["accepted", "mismatch"] "barewords of 1 to 3 arbitrary name characters, as keys and (with =>) as type names" {
        let n = 1 + sym::choose(3);
        let b = any_bytes(n);
        for (i, c) in b.iter().enumerate() {
            let al = c.is_ascii_alphabetic() || *c == b'_' || *c == b'@' || *c == b'$';
            let more = c.is_ascii_digit() || *c == b'-' || *c == b'.';
            sym::assume(al || (i > 0 && more && (i < n - 1 || c.is_ascii_digit())));
        }
        let name = unsafe { String::from_utf8_unchecked(b) };
        let sc = must_load(&subst("a = {? $: int, * any => any}", &name, ""));
        let key = V::Text(any_ascii(n));
        let same = match &key {
            V::Text(k) => k.as_bytes() == name.as_bytes(),
            _ => false,
        };
        let v = if sym::choose(2) == 0 { i64v() } else { t("x") };
        let int = matches!(&v, V::Int(_));
        let got = run_cbor(&sc, "a", &V::Map(vec![(key, v)]));
        sym::observe(got as u64);
        sym::check(got == if same && !int { MIS } else { OK }, "bareword-key");
        sym::reach(if got == OK { "accepted" } else { "mismatch" });
    }
    c26_bare "C26" "q" ["refused"] "a bare type as a map member never matches an entry, whatever it is" {
        let ty = pick(&["int", "any", "tstr", "\"nm\"", "1", "tn", "[int]", "{a: int}", "(1 / 2)", "1 .. 2", "int / tstr", "uint .lt 5", "nil", "&(a: 1)"]);
        let o = pick(&["", "? ", "* ", "+ "]);
        let tpl = pick(&["a = {$}", "a = {$, * any => any}", "a = {(q: int // $)}", "a = {g} g = ($)"]);
        let c = match load(&cat(&[&subst(tpl, &cat(&[o, ty]), ""), "\ntn = \"nm\"\n"])) {
            Ok(c) => c,
            Err(_) => {
                sym::reach("refused");
                return;
            }
        };
        let tail = tpl.as_bytes().contains(&b'*');
        let m = match sym::choose(3) {
            0 => vec![(t("nm"), i64v())],
            1 => vec![(i64v(), i64v())],
            _ => vec![(i64v(), V::Arr(vec![i64v()]))],
        };
        let got = run_cbor(&c, "a", &V::Map(m));
        sym::observe(got as u64);
        sym::check(got != OK || tail, "bare-member");
        sym::check(got != VALUE && got != PARSE && got != CUT, "bare-member-class");
        sym::reach("refused");
    }
}
