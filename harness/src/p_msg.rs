//! C32: the text of an error names its subject.
use crate::gen::*;
use crate::p_parse::fill;
use crate::real::*;
use crate::sym;
use crate::val::*;
use cddl_cat::parser::ErrorKind;
use cddl_cat::util::ValidateError;

/// Where a type may stand, and the value it then meets; what goes wrong with
/// it is what goes wrong with the whole.
const PLACE: &[(&str, usize)] = &[
    ("a = $", 0),
    ("a = b b = $", 0),
    ("a = ($)", 0),
    ("a = w<$> w<x> = x", 0),
    ("a = w<int, $> w<y, x> = v<x> v<y> = y", 0),
    ("a = [$]", 1),
    ("a = [k: $]", 1),
    ("a = [[$]]", 2),
    ("a = [? \"zz\", $]", 1),
    ("a = [g] g = (k: $)", 1),
    ("a = [~u] u = [$]", 1),
    ("a = {k: $}", 3),
    ("a = {\"k\" => $}", 3),
    ("a = {? l: $, k: $}", 3),
    ("a = {k: [$]}", 4),
    ("a = {g} g = (k: $)", 3),
    ("a = {~u} u = {k: $}", 3),
    ("a = w<$> w<x> = {k: x}", 3),
];
fn wrap(w: usize, v: V) -> V {
    match w {
        0 => v,
        1 => V::Arr(vec![v]),
        2 => V::Arr(vec![V::Arr(vec![v])]),
        3 => V::Map(vec![(t("k"), v)]),
        _ => V::Map(vec![(t("k"), V::Arr(vec![v]))]),
    }
}
fn is(text: &str, want: &[&str]) -> bool {
    // (case aside: a prelude type is written "int" by one message and "Int"
    // by another)
    text.as_bytes().eq_ignore_ascii_case(cat(want).as_bytes())
}
/// A value of a kind.
fn kind(k: usize) -> V {
    match k {
        0 => V::Null,
        1 => V::Bool(sym::choose(2) == 1),
        2 => V::Int(sym::u64() as i128),
        3 => V::Int(-1 - sym::u64() as i128),
        4 => V::Float(any_float()),
        5 => V::Text(any_ascii(1)),
        6 => V::Bytes(any_bytes(1)),
        7 => V::Arr(vec![V::Int(1)]),
        _ => V::Map(vec![]),
    }
}

/// `def` in one of the places, the value not fitting: says `want`.
fn refuses(def: &str, v: V, want: &[&str]) {
    let (tpl, w) = PLACE[sym::choose(PLACE.len())];
    refuses_at(&subst(tpl, def, ""), wrap(w, v), want);
}
fn refuses_at(text: &str, v: V, want: &[&str]) {
    sym::note(text);
    let ctx = must_load(text);
    let rd = ctx.rules.get("a").unwrap();
    let json = v.is_json() && sym::choose(2) == 1;
    sym::formats();
    let r = if json { cddl_cat::validate_json(rd, &v.json(), &ctx) } else { cddl_cat::validate_cbor(rd, &v.cbor(), &ctx) };
    match r {
        Ok(()) => sym::check(false, "refused"),
        Err(e) => {
            sym::check(cls_e(&e) == crate::refi::MIS, "a-mismatch");
            let s = e.to_string();
            sym::note(&s);
            sym::check(is(&s, want), "says-what-was-expected");
            sym::reach("named");
        }
    }
}

entries! {
    c32_types "C32" "q" ["named"] "11 names of prelude types in 18 places against arbitrary values of every kind they exclude" {
        const P: &[(&str, &str, &[usize])] = &[
            ("nil", "nil", &[1, 2, 5, 7]),
            ("null", "nil", &[1, 4, 8]),
            ("bool", "bool", &[0, 2, 3, 5, 8]),
            ("int", "int", &[0, 1, 4, 5, 6, 7, 8]),
            ("uint", "uint", &[0, 1, 3, 4, 5, 6, 7]),
            ("nint", "nint", &[0, 1, 2, 4, 5, 8]),
            ("float", "float", &[0, 1, 2, 3, 5, 6]),
            ("tstr", "tstr", &[0, 1, 2, 4, 6, 7]),
            ("text", "tstr", &[2, 8]),
            ("bstr", "bstr", &[0, 2, 5, 7]),
            ("bytes", "bstr", &[1, 5, 8]),
        ];
        let (n, want, ks) = P[sym::choose(P.len())];
        refuses(n, kind(ks[sym::choose(ks.len())]), &["Mismatch(expected ", want, ")"]);
    }
    c32_literals "C32" "q" ["named"] "text literals with arbitrary characters, integers of every width, and floats, in 18 places, against other values" {
        match sym::choose(5) {
            4 => {
                let c = any_bytes(1);
                sym::assume(c[0] >= 0x20 && c[0] < 0x7f && c[0] != b'"' && c[0] != b'\\');
                let n = [0, 1, 15, 16, 17, 40, 41, 64, 65, 120, 200][sym::choose(11)];
                let mut x = String::from("\"");
                for i in 0..n {
                    x.push(((i % 26) as u8 + b'a') as char);
                }
                x.push_str("$\"");
                let def = fill(&x, &[&c]);
                refuses(&def, V::Null, &["Mismatch(expected ", &def, ")"]);
            }
            0 => {
                let c = any_bytes(2);
                for x in &c {
                    sym::assume(*x >= 0x20 && *x < 0x7f && *x != b'"' && *x != b'\\');
                }
                let def = fill("\"$\"", &[&c]);
                let v = if sym::choose(2) == 0 { t("x") } else { V::Null };
                refuses(&def, v, &["Mismatch(expected ", &def, ")"]);
            }
            1 => {
                let l = pick(&["0", "7", "-7", "65536", "4294967296", "-4294967297"]);
                let v = if sym::choose(2) == 0 { V::Int(3) } else { t("7") };
                refuses(l, v, &["Mismatch(expected ", l, ")"]);
            }
            2 => {
                let (l, d) = [("0x10", "16"), ("0b101", "5"), ("-0x1", "-1"), ("1.5", "1.5"), ("-0.25", "-0.25"), ("1e3", "1000"), ("true", "true"), ("false", "false")][sym::choose(8)];
                refuses(l, t("y"), &["Mismatch(expected ", d, ")"]);
            }
            _ => {
                let l = pick(&["h'00'", "'ab'", "b64'AA=='"]);
                refuses(l, V::Bytes(vec![9]), &["Mismatch(expected LiteralBytes)"]);
            }
        }
    }
    c32_ranges "C32" "q" ["named"] "ranges of integers and floats, with both ends or without the upper, in 18 places, against values outside" {
        let (l, lo, hi) = [("1..5", 0, 6), ("-5..7", -6, 8), ("-20 .. -3", -21, -2), ("0..4294967296", -1, 4294967297), ("1...5", 0, 5), ("-5 ... 7", -6, 7), ("1.5..2.5", 2, 3), ("-0.5 ... 0.25", 0, 1), ("2.25...1024.5", 3, 4), ("7..7", 6, 8), ("9...9", 9, 8)][sym::choose(11)];
        let want: Vec<u8> = l.bytes().filter(|c| *c != b' ').collect();
        let want = String::from_utf8(want).unwrap();
        let v = match sym::choose(3) {
            0 => V::Int(lo),
            1 => V::Int(hi),
            _ => t("3"),
        };
        refuses(l, v, &["Mismatch(expected ", &want, ")"]);
    }
    c32_shapes "C32" "q" ["named"] "what an array, a map, a choice or a member that is missing, left over or of another kind is reported as" {
        let k = |k: &str| V::Map(vec![(t(k), V::Int(1))]);
        let (s, v, want) = match sym::choose(16) {
            0 => ("a = [int]", kind([0, 2, 5, 8][sym::choose(4)]), "array"),
            1 => ("a = {k: int}", kind([0, 2, 5, 7][sym::choose(4)]), "map"),
            2 => ("a = [int]", V::Arr(vec![V::Int(1), kind(sym::choose(9))]), "shorter array"),
            3 => ("a = []", V::Arr(vec![kind(sym::choose(9))]), "shorter array"),
            4 => ("a = {}", k("k"), "shorter map"),
            5 => ("a = {? l: int}", k("k"), "shorter map"),
            6 => ("a = tstr / bool", kind([0, 2, 4, 7][sym::choose(4)]), "choice of 2"),
            7 => ("a = tstr / bool / 7 / nil", kind([3, 4, 7][sym::choose(3)]), "choice of 4"),
            8 => ("a = [tstr / [nil]]", V::Arr(vec![kind([0, 2, 4][sym::choose(3)])]), "choice of 2"),
            9 => ("a = {k: tstr / [nil]}", k("k"), "choice of 2"),
            10 => ("a = [[int]]", V::Arr(vec![kind([0, 2, 5][sym::choose(3)])]), "array"),
            11 => ("a = [{k: int}]", V::Arr(vec![kind([0, 2, 5][sym::choose(3)])]), "map"),
            12 => ("a = {k: [int]}", k("k"), "array"),
            13 => ("a = {k: {k: int}}", k("k"), "map"),
            14 => ("a = [int, tstr]", V::Arr(vec![V::Int(1), kind([0, 2, 4, 6][sym::choose(4)])]), "tstr"),
            _ => ("a = [int, tstr, [bool]]", V::Arr(vec![V::Int(1), t("x"), V::Arr(vec![kind([0, 2, 5][sym::choose(3)])])]), "bool"),
        };
        refuses_at(s, v, &["Mismatch(expected ", want, ")"]);
    }
    c32_choices "C32" "q" ["named"] "choices of 2 to 300 alternatives of several kinds, in 18 places: the number of alternatives" {
        let n = [2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 32, 33, 40, 100, 256, 300][sym::choose(19)];
        let style = sym::choose(5);
        let mut def = String::from("(");
        for i in 0..n {
            if i > 0 {
                def.push_str(" / ");
            }
            let alts: &[&str] = match style {
                0 => &["int"],
                1 => &["nil", "int", "tstr", "bool", "7", "\"x\""],
                2 => &["[int]", "{k: int}", "(nil / tstr)", "1 .. 5"],
                3 => &["tstr", "tstr .size 3", "zq", "zg<nil>"],
                _ => &["&(x: 1, y: 2)", "nil", "\"x\"", "\"x\"", "nil"],
            };
            def.push_str(alts[i % alts.len()]);
        }
        def.push(')');
        let (tpl, w) = PLACE[sym::choose(PLACE.len())];
        let text = cat(&[&subst(tpl, &def, ""), "\nzq = nil / tstr\nzg<x> = x\n"]);
        let num = crate::p_size::dec(n);
        refuses_at(&text, wrap(w, kind(if style == 0 { 1 } else { 4 })), &["Mismatch(expected choice of ", &num, ")"]);
    }
    c32_within "C32" "q" ["named"] "the same messages for arrays and maps in 18 places: of another kind, with something left over, with a member absent" {
        let k = |k: &str| V::Map(vec![(t(k), V::Int(1))]);
        let (def, v, want) = match sym::choose(11) {
            0 => ("[int]", kind([0, 2, 5, 8][sym::choose(4)]), "array"),
            1 => ("{k: int}", kind([0, 2, 5, 7][sym::choose(4)]), "map"),
            2 => ("[int]", V::Arr(vec![V::Int(1), kind(sym::choose(9))]), "shorter array"),
            3 => ("[]", V::Arr(vec![kind(sym::choose(9))]), "shorter array"),
            4 => ("{}", k("k"), "shorter map"),
            5 => ("{? l: int}", k("k"), "shorter map"),
            6 => ("{l: int}", k("k"), "map{\"l\"}"),
            7 => ("{k: int, l: int}", k("k"), "map{\"l\"}"),
            8 => ("{k: tstr}", k("k"), "tstr"),
            9 => ("[int, nint]", V::Arr(vec![V::Int(1)]), "array element nint"),
            _ => ("[tstr, int]", V::Arr(vec![V::Int(1)]), "tstr"),
        };
        refuses(def, v, &["Mismatch(expected ", want, ")"]);
    }
    c32_absent "C32" "q" ["named"] "an absent array element or map member, of 9 types and literals, and with arbitrary names and keys: named as such" {
        match sym::choose(2) {
            0 => {
                let (l, w) = [("int", "int"), ("uint", "uint"), ("bstr", "bstr"), ("bool", "bool"), ("float", "float"), ("17", "17"), ("-3", "-3"), ("\"x\"", "\"x\""), ("nil", "nil")][sym::choose(9)];
                let (tpl, v) = [("a = [$]", V::Arr(vec![])), ("a = [bool, $]", V::Arr(vec![V::Bool(true)])), ("a = [n: $]", V::Arr(vec![])), ("a = [2*2 int, $]", V::Arr(vec![V::Int(1), V::Int(2)])), ("a = [[$]]", V::Arr(vec![V::Arr(vec![])])), ("a = {k: [$]}", V::Map(vec![(t("k"), V::Arr(vec![]))])), ("a = w<$> w<t> = [t]", V::Arr(vec![]))][sym::choose(7)].clone();
                refuses_at(&subst(tpl, l, ""), v, &["Mismatch(expected array element ", w, ")"]);
            }
            _ => {
                let b = any_bytes(2);
                let al = |c: u8| (c | 0x20).wrapping_sub(b'a') < 26 || c == b'@' || c == b'_' || c == b'$';
                sym::assume(al(b[0]));
                sym::assume(al(b[1]) || b[1].wrapping_sub(b'0') < 10);
                let k = String::from_utf8(b).unwrap();
                let (tpl, w) = [("a = {$: int}", 0), ("a = {\"$\": int}", 0), ("a = {\"$\" => int}", 0), ("a = {? l: int, $: int}", 0), ("a = {g} g = ($: int)", 0), ("a = [{$: bool}]", 1), ("a = [m: {$ : {}}]", 1)][sym::choose(7)];
                let v = V::Map(vec![]);
                refuses_at(&fill(tpl, &[k.as_bytes()]), if w == 1 { V::Arr(vec![v]) } else { v }, &["Mismatch(expected map{\"", &k, "\"})"]);
            }
        }
    }
    c32_missing "C32" "q" ["named"] "undefined names of one or two arbitrary characters in 27 places: the error carries the name" {
        let b = any_bytes(2);
        let al = |c: u8| (c | 0x20).wrapping_sub(b'a') < 26 || c == b'@' || c == b'_' || c == b'$';
        sym::assume(al(b[0]));
        let n = match sym::choose(2) {
            0 => {
                sym::assume(b[0] != b'a' && b[0] != b'b' && b[0] != b'g' && b[0] != b'h' && b[0] < b'u');
                vec![b[0]]
            }
            _ => {
                sym::assume(al(b[1]) || b[1].wrapping_sub(b'0') < 10);
                vec![b[0], b[1]]
            }
        };
        let n = String::from_utf8(n).unwrap();
        let (tpl, w) = match sym::choose(2) {
            0 => PLACE[sym::choose(PLACE.len())],
            _ => [("a = tstr / $", 0), ("a = [* $]", 1), ("a = [~$]", 1), ("a = {~$}", 3), ("a = {$ => any}", 3), ("a = {$}", 3), ("a = &$", 0), ("a = $<int>", 0), ("a = {* $ => any}", 3)][sym::choose(9)],
        };
        let s = subst(tpl, &n, "");
        sym::note(&s);
        let ctx = must_load(&s);
        let rd = ctx.rules.get("a").unwrap();
        sym::formats();
        match cddl_cat::validate_cbor(rd, &wrap(w, V::Int(1)).cbor(), &ctx) {
            Err(e) => {
                if let ValidateError::MissingRule(m) = &e {
                    sym::check(m.as_bytes() == n.as_bytes(), "missing-name");
                    sym::check(is(&e.to_string(), &["MissingRule(", m, ")"]), "missing-name-shown");
                    sym::reach("named");
                } else {
                    sym::check(false, "missing");
                }
            }
            Ok(()) => sym::check(false, "missing"),
        }
    }
    c32_asked "C32" "q" ["named"] "asking for a rule by a name of up to two arbitrary characters that the schema does not define" {
        let n = any_bytes(sym::choose(3));
        for c in &n {
            sym::assume(*c >= 0x20 && *c < 0x7f);
        }
        let n = String::from_utf8(n).unwrap();
        sym::assume(n.as_bytes() != b"a");
        sym::formats();
        let r = if sym::choose(2) == 0 { cddl_cat::validate_cbor_bytes(&n, "a = int\n", &[1]) } else { cddl_cat::validate_json_str(&n, "a = int\n", "1") };
        match r {
            Err(ValidateError::MissingRule(m)) => {
                sym::check(m.as_bytes() == n.as_bytes(), "missing-name");
                sym::reach("named");
            }
            _ => sym::check(false, "missing"),
        }
    }
    c32_parse "C32" "q" ["named"] "malformed schemas of 8 sorts with an arbitrary character: the text is the kind and, in parentheses, the context" {
        let c = any_bytes(1);
        sym::assume(c[0] > 0x20 && c[0] < 0x7f);
        let tpl = pick(&["a = 1844674407370955161$9", "a = h'0$'", "a = b64'A$'", "a = \"\\$\"", "a = [int $", "$ = int", "a = int $", "a == $", "a = 9$ int"]);
        let s = fill(tpl, &[&c]);
        sym::note(&s);
        sym::formats();
        match cddl_cat::parse_cddl(&s) {
            Ok(_) => {}
            Err(e) => {
                let k = match e.kind {
                    ErrorKind::MalformedInteger => "MalformedInteger",
                    ErrorKind::MalformedFloat => "MalformedFloat",
                    ErrorKind::MalformedHex => "MalformedHex",
                    ErrorKind::MalformedText => "MalformedText",
                    ErrorKind::MalformedBase64 => "MalformedBase64",
                    ErrorKind::Unparseable => "Unparseable",
                    _ => "?",
                };
                let s1 = e.to_string();
                sym::check(is(&s1, &[k, "(", &e.ctx, ")"]), "kind-and-context");
                match cddl_cat::validate_cbor_bytes("a", &s, &[0]) {
                    Err(e2) => sym::check(e2.to_string().as_bytes() == s1.as_bytes(), "the-same-from-validation"),
                    Ok(()) => sym::check(false, "the-same-from-validation"),
                }
                sym::reach("named");
            }
        }
    }
}
