//! C01 to C05: scalar types, literals, ranges and comparisons.
use crate::gen::*;
use crate::real::*;
use crate::refi::*;
use crate::sym;
use crate::val::*;

const NAMES: &[&str] = &[
    "any", "nil", "null", "bool", "true", "false", "int", "uint", "nint", "float", "float16", "float32", "float64", "float16-32", "float32-64",
    "tstr", "text", "bstr", "bytes",
];
const NAMES_TXT: &[&str] = &["tdate", "uri", "b64url", "b64legacy", "regexp", "mime-message"];
const NAMES_BIN: &[&str] = &["biguint", "bignint", "encoded-cbor"];
const NAMES_ANY: &[&str] = &["eb64url", "eb64legacy", "eb16", "cbor-any"];
const UNSUP: &[&str] = &["time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined"];

/// Like any_value, with every double (NaN and negative zero too).
fn value_all() -> V {
    if sym::choose(2) == 0 {
        V::Float(f64::from_bits(sym::u64()))
    } else {
        any_value()
    }
}

/// The schema must be refused when it is loaded, as a schema problem.
pub fn load_fails(text: &str, id: &'static str) {
    let c = match load(text) {
        Ok(_) => 0,
        Err(c) => c,
    };
    sym::observe(c as u64);
    sym::check(schema_err(c), id);
    sym::reach("refused");
}
/// The schema must be refused when it is loaded, or give a schema error for
/// every value.
pub fn never_verdict(text: &str, rule: &str, v: &V, id: &'static str) {
    let c = match load(text) {
        Ok(c) => run_cbor(&c, rule, v),
        Err(c) => c,
    };
    sym::observe(c as u64);
    sym::check(schema_err(c), id);
    sym::reach("refused");
}

const OPS: &[&str] = &["lt", "le", "gt", "ge"];
const IT: &[&str] = &["int", "uint", "nint"];

fn c05_len() -> usize {
    [0usize, 1, 2, 3, 23, 24, 255, 256, 257][sym::choose(9)]
}
fn sized_data() -> V {
    match sym::choose(6) {
        0 => any_int(),
        1 => {
            // one character of each width, and ASCII around it
            let mut o = any_bytes(sym::choose(3));
            for x in &o {
                sym::assume(*x < 0x80);
            }
            any_char(1 + sym::choose(4), &mut o);
            V::Text(unsafe { String::from_utf8_unchecked(o) })
        }
        2 => V::Bytes(vec![0u8; c05_len()]),
        3 => V::Text(unsafe { String::from_utf8_unchecked(vec![b'x'; c05_len()]) }),
        4 => V::Bytes(any_bytes(sym::choose(4))),
        _ => any_value(),
    }
}
fn sym_i128() -> i128 {
    let hi = sym::u64();
    let lo = sym::u64();
    ((hi as u128) << 64 | lo as u128) as i128
}
fn sym_size() -> i128 {
    let lo = sym::u64();
    lo as i128
}

entries! {
    c01_names "C01" "q" ["accepted", "mismatch"] "every supported prelude name, in 11 positions, against a value of any kind with an arbitrary payload" {
        let n = pick(NAMES);
        let p = sym::choose(POS.len());
        let sc = Sch::new(&subst(POS[p], n, ""));
        sc.agree("a", &in_pos(p, value_all()), "prelude-member");
    }
    c01_edges "C01" "q" ["accepted", "mismatch"] "integer names against integers within 4 of the powers of two where widths change, positive and negative" {
        let sc = Sch::new(&cat(&["a = ", pick(&["int", "uint", "nint", "float", "any", "float64"])]));
        sc.agree("a", &edge_v(), "prelude-edge");
    }
    c01_json "C01" "q" ["accepted", "mismatch"] "every supported prelude name against JSON data of any kind" {
        let n = pick(NAMES);
        let sc = Sch::new(&cat(&["a = ", n]));
        let v = value_all();
        sym::assume(v.is_json());
        let got = run_json(&sc.ctx, "a", &v);
        let want = sc.expect("a", &v);
        sym::observe(got as u64);
        sym::check(got == want, "prelude-member-json");
        sym::reach(if want == OK { "accepted" } else { "mismatch" });
    }
    c01_alias "C01" "q" ["accepted", "mismatch"] "the remaining prelude names this implementation maps to text, bytes or any" {
        let (n, same) = match sym::choose(3) {
            0 => (pick(NAMES_TXT), "tstr"),
            1 => (pick(NAMES_BIN), "bstr"),
            _ => (pick(NAMES_ANY), "any"),
        };
        let c = must_load(&cat(&["a = ", n, "\nb = ", same]));
        let v = value_all();
        let got = run_cbor(&c, "a", &v);
        let want = Ref::new(cat(&["a = ", same]).as_bytes()).outcome("a", &v);
        sym::observe(got as u64);
        sym::check(got == want, "prelude-alias");
        sym::reach(if want == OK { "accepted" } else { "mismatch" });
    }
    c01_unsupported "C01" "q" ["refused"] "unsupported prelude names, wherever they stand, are refused at load" {
        let n = pick(UNSUP);
        let tpl = ["a = $", "a = [$]", "a = [* $]", "a = {k: $}", "a = {$ => int}", "a = int / $", "a = (b: $)", "a = w<$> w<x> = x",
            "a = b b = [int] c = $", "a = $ .size 3", "a = &(p: $)", "a = [int // $]", "a = bstr .cbor $", "a = [($, int)]", "a = ~$", "a = [~$]",
            "a = $<int>", "a = $ .. 5", "a = &$", "a = [? (p: int, q: $)]"];
        load_fails(&subst(tpl[sym::choose(tpl.len())], n, ""), "unsupported-prelude");
    }
    c01_args "C01" "q" ["refused"] "a prelude name takes no generic arguments" {
        let n = pick(NAMES);
        let p = sym::choose(POS.len());
        load_fails(&subst(POS[p], &cat(&[n, "<int>"]), ""), "prelude-arguments");
    }

    c02_int "C02" "q" ["accepted", "mismatch"] "an arbitrary (128-bit) integer literal, in 11 positions, against any value" {
        let p = sym::choose(POS.len());
        let mut sc = Sch::new(&subst(POS[p], "7000", ""));
        sc.patch(&[sym_i128()], &[]);
        sc.agree("a", &in_pos(p, any_value()), "int-literal");
    }
    c02_edges "C02" "q" ["accepted", "mismatch"] "integer literals and values within 4 of the powers of two where widths, signs and float precision change" {
        let p = [0usize, 1, 3][sym::choose(3)];
        let mut sc = Sch::new(&subst(POS[p], "7000", ""));
        let (l, d) = edge_pair();
        sc.patch(&[l], &[]);
        // the same number, a close one, or one that agrees in its low 32 bits
        let v = match sym::choose(4) {
            0 => l + d - 4,
            1 => l + (1i128 << 32),
            2 => l - (1i128 << 32),
            _ => -l,
        };
        sym::assume(v >= -(1i128 << 64) && v < 1i128 << 64);
        sc.agree("a", &in_pos(p, V::Int(v)), "int-literal-edge");
    }
    c02_other_kind "C02" "q" ["mismatch"] "an integer literal against the float of the same value and a float literal against the integer of the same value; text against the same bytes and the reverse; true against 1 and the text" {
        let l = edge_int();
        let (s, v) = match sym::choose(8) {
            0 => ("7000", V::Float(l as f64)),
            1 => ("7000.5", V::Int(l)),
            2 => ("\"ab\"", b(b"ab")),
            3 => ("'ab'", t("ab")),
            4 => ("true", V::Int(1)),
            5 => ("false", V::Int(0)),
            6 => ("true", t("true")),
            _ => ("false", V::Null),
        };
        if let V::Int(i) = &v {
            sym::assume(*i >= -(1i128 << 64) && *i < 1i128 << 64);
        }
        let p = [0usize, 1, 3][sym::choose(3)];
        let mut sc = Sch::new(&subst(POS[p], s, ""));
        sc.patch(&[l], &[l as f64]);
        sc.agree("a", &in_pos(p, v), "literal-of-other-kind");
    }
    c02_float "C02" "q" ["accepted", "mismatch"] "an arbitrary float literal (not NaN or negative zero), in 11 positions, against any value" {
        let p = sym::choose(POS.len());
        let mut sc = Sch::new(&subst(POS[p], "7000.5", ""));
        sc.patch(&[], &[any_float()]);
        sc.agree("a", &in_pos(p, any_value()), "float-literal");
    }
    c02_text "C02" "q" ["accepted", "mismatch"] "an arbitrary text literal up to 3 bytes, in 11 positions, against any value" {
        let p = sym::choose(POS.len());
        let mut sc = Sch::new(&subst(POS[p], "\"$0\"", ""));
        let l = any_ascii(sym::choose(4));
        sc.patch_text(l.as_bytes());
        sc.agree("a", &in_pos(p, any_value()), "text-literal");
    }
    c02_bytes "C02" "q" ["accepted", "mismatch"] "an arbitrary byte string literal up to 3 bytes, in 11 positions, against any value" {
        let p = sym::choose(POS.len());
        let mut sc = Sch::new(&subst(POS[p], "'$0'", ""));
        let l = any_bytes(sym::choose(4));
        sc.patch_bytes(&l);
        sc.agree("a", &in_pos(p, any_value()), "bytes-literal");
    }
    c02_long "C02" "q" ["accepted", "mismatch"] "text and byte literals of 1 to 40 bytes against arbitrary strings of neighbouring lengths" {
        let full = "the quick brown fox jumps over the lazy dog";
        let n = [1usize, 7, 8, 9, 16, 17, 40][sym::choose(7)];
        let txt = sym::choose(2) == 0;
        let p = [0usize, 2, 3][sym::choose(3)];
        let q = if txt { "\"" } else { "'" };
        let sc = Sch::new(&subst(POS[p], &cat(&[q, &full[..n], q]), ""));
        let m = n - 1 + sym::choose(3);
        let v = if sym::choose(2) == 0 { V::Text(any_ascii(m)) } else { V::Bytes(any_bytes(m)) };
        sc.agree("a", &in_pos(p, v), "long-literal");
    }
    c02_key "C02" "q" ["accepted", "mismatch"] "literals as map keys next to other entries" {
        let k = pick(&["7000", "\"ab\"", "'ab'", "7000.5", "true", "false", "-1"]);
        let tpl = pick(&["a = {$ => int}", "a = {? $ => int, * any => any}", "a = {$: int}", "a = {? $: int, * any => any}", "a = {+ $ => int}"]);
        let tpl = if k == "true" || k == "false" { "a = {? $ => int, * any => any}" } else { tpl };
        let mut sc = Sch::new(&subst(tpl, k, ""));
        sc.patch(&[sym::u64() as i64 as i128], &[1.5]);
        let key = any_value();
        let v = match sym::choose(2) { 0 => i64v(), _ => V::Null };
        sc.agree("a", &V::Map(vec![(key, v)]), "literal-key");
    }

    c03_int "C03" "q" ["accepted", "mismatch"] "integer ranges with arbitrary endpoints, inclusive and exclusive, endpoints written out, named or generic, in 11 positions" {
        let p = sym::choose(POS.len());
        let op = pick(&[" .. ", " ... "]);
        let (r, extra) = match sym::choose(5) {
            0 => (cat(&["7000", op, "7001"]), ""),
            1 => (cat(&["lo", op, "7001"]), "lo = 7000\n"),
            2 => (cat(&["7000", op, "hi"]), "hi = hh\nhh = 7001\n"),
            3 => (cat(&["lo", op, "hi"]), "hi = 7001\nlo = 7000\n"),
            _ => (cat(&["rg<7000, h>"]), if op == " .. " { "rg<l, h> = l .. h\nh = 7001\n" } else { "rg<l, h> = l ... h\nh = 7001\n" }),
        };
        let mut sc = Sch::new(&cat(&[&subst(POS[p], &r, ""), extra]));
        sc.patch(&[sym_i128(), sym_i128()], &[]);
        sc.agree("a", &in_pos(p, any_value()), "int-range");
    }
    c03_edges "C03" "q" ["accepted", "mismatch"] "integer ranges one of whose endpoints and whose value are within 4 of the same power of two (where widths, signs and float precision change)" {
        let op = pick(&[" .. ", " ... "]);
        let mut sc = Sch::new(&cat(&["a = 7000", op, "7001"]));
        let (x, o) = edge_pair();
        let v = x - 4 + o;
        sym::assume(v >= -(1i128 << 64) && v < 1i128 << 64);
        let (lo, hi) = match sym::choose(5) {
            0 => (x, 1i128 << 65),
            1 => (-(1i128 << 65), x),
            2 => (x, x),
            3 => (x, x + 2),
            _ => (x - 2, x),
        };
        sc.patch(&[lo, hi], &[]);
        sc.agree("a", &V::Int(v), "int-range-edge");
    }
    c03_float "C03" "q" ["accepted", "mismatch"] "float ranges with arbitrary endpoints (not NaN or negative zero) against any value" {
        let p = [0usize, 1, 3][sym::choose(3)];
        let op = pick(&[" .. ", " ... "]);
        let (r, extra) = match sym::choose(2) {
            0 => (cat(&["7000.5", op, "7001.5"]), ""),
            _ => (cat(&["lo", op, "hi"]), "hi = 7001.5\nlo = 7000.5\n"),
        };
        let mut sc = Sch::new(&cat(&[&subst(POS[p], &r, ""), extra]));
        let lo = any_float();
        let hi = any_float();
        sc.patch(&[], &[lo, hi]);
        sc.agree("a", &in_pos(p, any_value()), "float-range");
    }
    c03_every_double "C03" "q" ["accepted", "mismatch"] "float ranges with arbitrary endpoints against every double, NaN and the infinities included (negative zero apart); and integer ranges and float literals against NaN" {
        let tpl = pick(&["a = 7000.5 .. 7001.5", "a = 7000.5 ... 7001.5", "a = {* 7000.5 .. 7001.5 => any}", "a = [* lo ... hi]\nlo = 7000.5\nhi = 7001.5", "a = 7000 .. 7001", "a = 7000.5", "a = uint / 7000.5 .. 7001.5"]);
        let mut sc = Sch::new(tpl);
        sc.patch(&[sym::u64() as i64 as i128, sym::u64() as i64 as i128], &[any_float(), any_float()]);
        let bits = sym::u64();
        sym::assume(bits != 0x8000_0000_0000_0000);
        let v = V::Float(f64::from_bits(bits));
        let v = match tpl.as_bytes()[4] {
            b'{' => V::Map(vec![(v, V::Null)]),
            b'[' => V::Arr(vec![v]),
            _ => v,
        };
        sc.agree("a", &v, "float-range-every-double");
    }
    c03_kinds "C03" "q" ["mismatch", "error"] "ranges whose endpoints are of other kinds, do not resolve to literals, or do not resolve at all" {
        const E: &[&str] = &["1", "9.5", "\"a\"", "'a'", "true", "ri", "rf", "rt", "rx", "ra", "rc", "rr", "none", "loop"];
        let x = pick(E);
        let y = pick(E);
        let op = pick(&[" .. ", " ... "]);
        let s = cat(&["a = ", x, op, y, "\nri = 8\nrf = 2.5\nrt = \"q\"\nrx = int\nra = [1]\nrc = 1 / 2\nrr = 1 .. 2\nloop = loop\n"]);
        let sc = Sch::new(&s);
        sc.agree("a", &any_value(), "range-kinds");
    }
    c03_bad_syntax "C03" "q" ["refused"] "endpoints that are neither literals nor names are refused, or an error for every value" {
        let x = pick(&["int", "[1]", "{a: 1}", "(1)", "&(a: 1)", "tstr"]);
        let tpl = pick(&["a = 1 .. $", "a = $ .. 1", "a = 1 ... $", "a = $ ... 1"]);
        never_verdict(&subst(tpl, x, ""), "a", &any_value(), "range-endpoint-type");
    }

    c04_ops "C04" "q" ["accepted", "mismatch"] "every comparison and integer target with an arbitrary limit: literal, named, through two names, generic; in 11 positions" {
        let p = sym::choose(POS.len());
        let tg = pick(IT);
        let op = pick(OPS);
        let (r, extra) = match sym::choose(5) {
            0 => (cat(&[tg, " .", op, " 7000"]), String::new()),
            1 => (cat(&[tg, " .", op, " lim"]), String::from("lim = 7000\n")),
            2 => (cat(&[tg, " .", op, " l1"]), String::from("l2 = 7000\nl1 = l2\n")),
            3 => (cat(&["tt .", op, " 7000"]), cat(&["tt = t2\nt2 = ", tg, "\n"])),
            _ => (cat(&["cmp<", tg, ", 7000>"]), cat(&["cmp<t, n> = t .", op, " n\n"])),
        };
        let mut sc = Sch::new(&cat(&[&subst(POS[p], &r, ""), &extra]));
        sc.patch(&[sym_i128()], &[]);
        sc.agree("a", &in_pos(p, any_value()), "comparison");
    }
    c04_edges "C04" "q" ["accepted", "mismatch"] "limits and values within 4 of the powers of two where widths, signs and float precision change" {
        let mut sc = Sch::new(&cat(&["a = ", pick(IT), " .", pick(OPS), " 7000"]));
        let (x, o) = edge_pair();
        sc.patch(&[x], &[]);
        let v = match sym::choose(3) {
            0 => x - 4 + o,
            1 => -x,
            _ => x ^ (1i128 << 40),
        };
        sym::assume(v >= -(1i128 << 64) && v < 1i128 << 64);
        sc.agree("a", &V::Int(v), "comparison-edge");
    }
    c04_bad "C04" "q" ["error"] "targets and limits of the wrong kind are a schema error for every value" {
        let op = pick(OPS);
        let (tg, lim) = match sym::choose(2) {
            0 => (pick(&["float", "tstr", "bstr", "any", "bool", "nil", "5", "1 .. 9", "rx", "[int]", "{a: int}", "(int / nint)", "rm", "float32"]), "5"),
            _ => (pick(IT), pick(&["rf", "rt", "rx", "rr", "ra", "rm"])),
        };
        let tg2 = if tg == "1 .. 9" { "(1 .. 9)" } else { tg };
        let s = cat(&["a = ", tg2, " .", op, " ", lim, "\nrf = 2.5\nrt = \"q\"\nrx = float\nrr = 1 .. 2\nra = [1]\n"]);
        let sc = Sch::new(&s);
        sc.agree("a", &any_value(), "comparison-schema-error");
    }
    c04_bad_load "C04" "q" ["refused"] "limits that are not integers never give a verdict" {
        let op = pick(OPS);
        let lim = pick(&["1.5", "\"a\"", "'a'", "int", "[1]", "{a: 1}", "(1 / 2)", "&(a: 1)", "true"]);
        let s = cat(&["a = ", pick(IT), " .", op, " ", lim]);
        never_verdict(&s, "a", &any_value(), "comparison-limit-type");
    }

    c05_strings "C05" "q" ["accepted", "mismatch"] "tstr and bstr .size with an arbitrary size or range, written out or named, against strings of 0 to 257 bytes" {
        let tg = pick(&["tstr", "bstr", "text", "bytes"]);
        let (lim, extra) = size_form();
        let mut sc = Sch::new(&cat(&["a = ", tg, " .size ", lim, extra]));
        sc.patch(&[sym_size(), sym_size()], &[]);
        sc.agree("a", &sized_data(), "string-size");
    }
    c05_uint "C05" "q" ["accepted", "mismatch"] "uint .size with an arbitrary size, or proper range, against any integer" {
        let (lim, extra) = size_form();
        let mut sc = Sch::new(&cat(&["a = uint .size ", lim, extra]));
        let a = sym_size();
        let b = sym_size();
        sym::assume(a < b);
        sc.patch(&[a, b], &[]);
        sc.agree("a", &sized_data(), "uint-size");
    }
    c05_edges "C05" "q" ["accepted", "mismatch"] "uint .size with sizes and ranges of 0 to 20 against integers within 4 of the powers of two" {
        let (lim, extra) = size_form();
        let mut sc = Sch::new(&cat(&["a = uint .size ", lim, extra]));
        let a = sym::choose(10);
        let b = a + 1 + sym::choose(10);
        sc.patch(&[a as i128, b as i128], &[]);
        sc.agree("a", &edge_v(), "uint-size-edge");
    }
    c05_pos "C05" "q" ["accepted", "mismatch"] ".size in 11 positions and through named targets and generics" {
        let p = sym::choose(POS.len());
        let (r, extra) = match sym::choose(3) {
            0 => (cat(&[pick(&["tstr", "bstr", "uint"]), " .size 7000"]), String::new()),
            1 => (String::from("tt .size 7000"), cat(&["tt = t2\nt2 = ", pick(&["tstr", "bstr", "uint"]), "\n"])),
            _ => (cat(&["sz<", pick(&["tstr", "bstr", "uint"]), ", 7000>"]), String::from("sz<t, n> = t .size n\n")),
        };
        let mut sc = Sch::new(&cat(&[&subst(POS[p], &r, ""), &extra]));
        sc.patch(&[sym_size()], &[]);
        sc.agree("a", &in_pos(p, any_value()), "size-position");
    }
    c05_negative "C05" "q" ["error"] "a negative size is a schema error for every value" {
        let tg = pick(&["tstr", "bstr", "uint"]);
        let (lim, extra) = size_form();
        let mut sc = Sch::new(&cat(&["a = ", tg, " .size ", lim, extra]));
        let a = sym_size();
        let b = sym_size();
        let m = sym::choose(3);
        let a = if m != 1 { -1 - a } else { a };
        let b = if m != 0 { -1 - b } else { b };
        let range = lim.len() > 5 || extra.len() > 10;
        sym::assume(a < 0 || range);
        sc.patch(&[a, b], &[]);
        let got = run_cbor(&sc.ctx, "a", &any_value());
        sym::observe(got as u64);
        sym::check(schema_err(got), "negative-size");
        sym::reach("error");
    }
    c05_bad "C05" "q" ["error"] "other targets, and sizes that are not integers, are a schema error for every value" {
        let (tg, lim) = match sym::choose(2) {
            0 => (pick(&["int", "nint", "float", "any", "bool", "nil", "5", "(1 .. 9)", "rx", "[int]", "{a: int}", "(tstr / bstr)", "rm", "\"abc\""]), pick(&["5", "(1 .. 3)", "(1 ... 3)", "rok", "rex"])),
            _ => (pick(&["tstr", "bstr", "uint"]), pick(&["rf", "rt", "rx", "ra", "rm", "rrf"])),
        };
        let s = cat(&["a = ", tg, " .size ", lim, "\nrf = 2.5\nrt = \"q\"\nrx = float\nra = [1]\nrrf = 1.5 .. 2.5\nrok = 4\nrex = 1 ... 9\n"]);
        let sc = Sch::new(&s);
        sc.agree("a", &any_value(), "size-schema-error");
    }
    c05_bad_load "C05" "q" ["refused"] "size arguments that are not integers or integer ranges never give a verdict" {
        let lim = pick(&["1.5", "\"a\"", "'a'", "int", "[1]", "{a: 1}", "(1 / 2)", "&(a: 1)", "true", "(1.5 .. 2.5)", "(\"a\" .. \"b\")"]);
        let s = cat(&["a = ", pick(&["tstr", "bstr", "uint"]), " .size ", lim]);
        never_verdict(&s, "a", &any_value(), "size-limit-type");
    }
}
fn size_form() -> (&'static str, &'static str) {
    [
        ("7000", ""),
        ("(7000 .. 7001)", ""),
        ("(7000 ... 7001)", ""),
        ("n", "\nn = 7000"),
        ("n", "\nn = m\nm = 7000 .. 7001"),
        ("n", "\nn = 7000 ... 7001"),
        ("(n)", "\nn = 7000"),
    ][sym::choose(7)]
}
