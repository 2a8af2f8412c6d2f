//! C28 (every way in gives the same outcome) and C29 (outcomes do not depend
//! on what was done before).
use crate::gen::*;
use crate::p_parse::{ascii, fill};
use crate::real::*;
use crate::refi::*;
use crate::sym;
use crate::val::*;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::flatten::{flatten, flatten_from_str, slice_flatten, slice_flatten_from_str};
use cddl_cat::ivt::{RuleDef, RulesByName};
use cddl_cat::parser::slice_parse_cddl;
use cddl_cat::{parse_cddl, validate_cbor, validate_cbor_bytes, validate_json, validate_json_str, ValidateError};

/// A lookup context of our own: a list, searched in order.
struct List {
    rules: Vec<(String, RuleDef)>,
    /// what becomes of other names
    other: u8,
}
impl LookupContext for List {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        for (n, r) in &self.rules {
            if n == name {
                return Ok(r);
            }
        }
        Err(match self.other {
            STRUCTURAL => ValidateError::Structural(String::from(name)),
            UNSUPPORTED => ValidateError::Unsupported(String::from(name)),
            GENERIC => ValidateError::GenericError,
            _ => ValidateError::MissingRule(String::from(name)),
        })
    }
}

/// The rules of a text, loaded in one of five ways.
fn rules(way: usize, text: &str) -> Result<RulesByName, u8> {
    let e = |e: ValidateError| cls_e(&e);
    match way {
        0 => flatten_from_str(text).map_err(e),
        1 => match parse_cddl(text) {
            Ok(c) => flatten(&c).map_err(e),
            Err(p) => Err(cls_e(&ValidateError::from(p))),
        },
        2 => slice_flatten_from_str(text).map(|m| m.into_iter().map(|(k, (r, _))| (k, r)).collect()).map_err(e),
        _ => match slice_parse_cddl(text) {
            Ok(c) => slice_flatten(&c).map(|m| m.into_iter().map(|(k, (r, _))| (k, r)).collect()).map_err(e),
            Err(p) => Err(cls_e(&ValidateError::from(p))),
        },
    }
}
enum Data {
    Cbor(ciborium::Value),
    Json(serde_json::Value),
}
fn one(r: &RuleDef, d: &Data, c: &dyn LookupContext) -> u8 {
    cls(&match d {
        Data::Cbor(v) => validate_cbor(r, v, c),
        Data::Json(v) => validate_json(r, v, c),
    })
}
/// Outcome of the step-by-step ways in.
fn stepwise(way: usize, text: &str, rule: &str, d: &Data) -> u8 {
    match rules(way % 4, text) {
        Err(c) => c,
        Ok(r) if way < 4 => {
            let c = BasicContext::new(r);
            match c.rules.get(rule) {
                Some(r) => one(r, d, &c),
                None => MISSING,
            }
        }
        Ok(r) => {
            let c = List { rules: r.into_iter().collect(), other: MISSING };
            match c.lookup_rule(rule) {
                Ok(r) => one(r, d, &c),
                Err(e) => cls_e(&e),
            }
        }
    }
}
fn same(whole: u8, rest: &dyn Fn(usize) -> u8) {
    let way = sym::choose(8);
    let got = rest(way);
    sym::observe(got as u64);
    sym::check(got == whole, "ways-in-agree");
    sym::reach(match whole {
        OK => "accepted",
        MIS => "mismatch",
        _ => "error",
    });
}
fn cbor_ways(text: &str, rule: &str, bytes: &[u8]) {
    sym::note(text);
    let whole = cls(&validate_cbor_bytes(rule, text, bytes));
    let mut rd = bytes;
    let v: Result<ciborium::Value, _> = ciborium::from_reader(&mut rd);
    match v {
        Ok(v) if rd.is_empty() => {
            let d = Data::Cbor(v);
            same(whole, &|w| stepwise(w, text, rule, &d));
        }
        // only the whole way in decodes; a broken document shows if schema and name are good
        _ => same(whole, &|w| match stepwise(w, text, rule, &Data::Cbor(ciborium::Value::Null)) {
            c @ (PARSE | MISSING) if rules(0, text).map_or(true, |r| !r.contains_key(rule)) => c,
            c @ (STRUCTURAL | UNSUPPORTED | GENERIC) if rules(0, text).is_err() => c,
            _ => VALUE,
        }),
    }
}
fn json_ways(text: &str, rule: &str, doc: &str) {
    sym::note(text);
    sym::note(doc);
    let whole = cls(&validate_json_str(rule, text, doc));
    match serde_json::from_str(doc) {
        Ok(v) => {
            let d = Data::Json(v);
            same(whole, &|w| stepwise(w, text, rule, &d));
        }
        Err(_) => same(whole, &|w| match stepwise(w, text, rule, &Data::Json(serde_json::Value::Null)) {
            c @ (PARSE | MISSING) if rules(0, text).map_or(true, |r| !r.contains_key(rule)) => c,
            c @ (STRUCTURAL | UNSUPPORTED | GENERIC) if rules(0, text).is_err() => c,
            _ => VALUE,
        }),
    }
}

/// Schemas of every kind of node, and broken ones.
const SCHEMAS: &[&str] = &[
    "a = any",
    "a = int",
    "a = 0..9 / tstr",
    "a = [* int]",
    "a = [b, ? c]\nb = int\nc = (int, int)",
    "a = {? 1 => int, * int => any}",
    "a = {x: 1..5, ? y: tstr}",
    "a = {* tstr ^ => int}",
    "a = p<int>\np<t> = [+ t]",
    "a = [~b, int]\nb = [int]",
    "a = &g\ng = (x: 1, y: 2)",
    "a = &(1, \"x\")",
    "a = uint .size 1",
    "a = int .lt 3",
    "a = tstr .regexp \"[x-z]+\"",
    "a = bstr .cbor int",
    "a = bstr .size 1",
    "a = tstr .size (1..2)",
    "a = (int)",
    "a = (int, int)",
    "a = [b // c]\nb = (int, tstr)\nc = (int)",
    "a = {(\"x\" => 1 // \"x\" => 2)}",
    "a = float / nil / bool",
    "a = a",
    "a = [? a]",
    "a = b",
    "a = [* b]",
    "a = p<int, int>\np<t> = t",
    "a<t> = t",
    "a = p\np<t> = t",
    "b = int",
    "a = tstr .size tstr",
    "a = number",
    "a = int .foo 1",
    "a = 1..b\nb = int",
    "a = 1..1.5",
    "a = tstr .regexp \"[\"",
    "a = [1",
    "a = 99999999999999999999",
    "a = h'1'",
    "",
    "a = int\na = tstr",
    "a = int ; the\n\n  b = tstr ; rest",
    "a<t> = int\na = int",
];
/// Documents with `#` for an arbitrary byte.
fn cbor_doc() -> Vec<u8> {
    let x = || sym::u8();
    match sym::choose(20) {
        12 => vec![0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, x()],
        13 => vec![0x1b, 0x80, 0, 0, 0, 0, 0, 0, x()],
        14 => vec![0xf9, x(), x() & 3],
        15 => vec![0xfa, x(), x() & 0x80, 0, 0],
        16 => vec![0xfb, x(), 0xf0, 0, 0, 0, 0, 0, 0],
        17 => vec![0x81, 0xa1, x() & 0x3f, 0x41, x()],
        18 => vec![0x9f, x() & 0x1f, 0xff],
        19 => vec![0xc1, x() & 0x1f],
        0 => vec![x()],
        1 => vec![0x18, x()],
        2 => vec![0x81, x() & 0x3f],
        3 => vec![0x82, x() & 0x1f, x() & 0x1f],
        4 => vec![0xa1, 0x01, x()],
        5 => vec![0xa1, 0x61, x() & 0x7f, x() & 0x1f],
        6 => vec![0x61, x()],
        7 => vec![0x41, x()],
        8 => vec![0x42, 0x18, x()],
        9 => vec![0x3b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, x()],
        10 => vec![x() & 0x1f, 0x00],
        _ => vec![0xa2, 0x61, b'x', x() & 0x3f, 0x61, b'y', 0x61, b'q'],
    }
}
const JDOCS: &[&str] = &["1844674407370955161$", "922337203685477580$", "-922337203685477580$", "[1844674407370955161$]", "{\"x\":-922337203685477580$}", "1e$", "1.$", "0.$e1", "[[$]]", "{\"x\":{\"$\":[null]}}", "\"\\u00e$\"", "[true,$]", "$", "1$", "-$", "[$]", "[1,$]", "[1,\"$\"]", "{\"x\":$}", "{\"$\":1}", "\"$\"", "\"x$\"", "{\"x\":1,\"y\":\"$\"}", "nul$", "1$5", " $ "];

fn outcome_cbor(c: &BasicContext, rule: &str, v: &V) -> u8 {
    run_cbor(c, rule, v)
}
fn load_class(text: &str) -> u8 {
    match load(text) {
        Ok(_) => OK,
        Err(c) => c,
    }
}
fn again() -> V {
    match sym::choose(8) {
        0 => any_int(),
        1 => V::Arr(vec![any_int(), V::Int(sym::u8() as i128)]),
        2 => V::Map(vec![(t("x"), any_int()), (t("y"), t("q"))]),
        3 => V::Map(vec![(any_int(), V::Int(1))]),
        4 => V::Text(any_ascii(2)),
        5 => V::Bytes(any_bytes(1)),
        6 => V::Arr(vec![V::Arr(vec![any_int()])]),
        _ => V::Float(1.5),
    }
}
fn nested(b: usize, n: usize) -> String {
    let (o, c) = [("[", "]"), ("(", ")"), ("{x: ", "}"), ("&(", ")"), ("[(", ")]"), ("p<", ">")][b];
    let mut s = String::from("p<t> = t\na = ");
    for _ in 0..n {
        s.push_str(o);
    }
    s.push_str("int");
    for _ in 0..n {
        s.push_str(c);
    }
    s
}

entries! {
    c28_cbor "C28" "q" ["accepted", "mismatch", "error"] "44 schemas against documents of 12 shapes with one or two arbitrary bytes, through validate_cbor_bytes and 8 step-by-step ways (4 loaders, 2 lookup contexts)" {
        let s = pick(SCHEMAS);
        let d = cbor_doc();
        cbor_ways(s, "a", &d);
    }
    c28_json "C28" "q" ["accepted", "mismatch", "error"] "the same schemas against JSON texts of 14 shapes with an arbitrary ASCII character" {
        let s = pick(SCHEMAS);
        let d = fill(pick(JDOCS), &[&ascii(1)]);
        json_ways(s, "a", &d);
    }
    c28_text "C28" "q" ["accepted", "mismatch", "error"] "partial schemas completed by an arbitrary ASCII character" {
        let p = pick(&[
            "a = in$", "a = $", "a$= int", "a = 1$2", "a = [$int]", "a = [int$]", "a = {x$ int}", "a = int$b = tstr", "a = int\n$ = tstr", "a = int ; $", "a = \"$\"", "a = h'0$'", "a = int / $", "a = p<int>\np$t> = t",
            "a = &($)", "a = ~$", "a = uint .size $", "a = $..3", "$a = int", "a = int $", "a = b\n$ = int",
        ]);
        let s = fill(p, &[&ascii(1)]);
        cbor_ways(&s, "a", [&[0x01u8][..], &[0x81, 0x01], &[0x61, 0x78], &[0xff]][sym::choose(4)]);
    }
    c28_name "C28" "q" ["accepted", "mismatch", "error"] "asking for a rule by up to 2 arbitrary ASCII characters" {
        let n = ascii(sym::choose(3));
        let n = fill("$", &[&n]);
        let s = pick(&["a = int\nab = tstr\nb<t> = t", "A = int\na = tstr\nb = (c)\n_b = int", "@ = int\na = tstr\n$a = int"]);
        cbor_ways(s, &n, &[0x01]);
    }
    c28_generic "C28" "q" ["error"] "asking for a rule with 1 to 3 parameters, used or not, through the whole-way entry points and the steps: refused in the same way" {
        let p = pick(&["<t>", "<tt, uu>", "<t, u, v>", "<zz>", "<a>", "<int>", "<b, t>"]);
        let d = pick(&["int", "t", "[int]", "[* b]", "{k: int}", "{* tstr => t}", "nil / int", "(int)", "(k: t, int)", "1 .. 5", "1", "\"x\"", "uint .size 1", "&(x: 1)", "~u", "b<int>", "t / zz"]);
        let s = cat(&["a", p, " = ", d, "\nb = int\nu = [int]\n"]);
        let one = [0x01u8];
        match sym::choose(2) {
            0 => cbor_ways(&s, "a", &one),
            _ => json_ways(&s, "a", "1"),
        }
        sym::check(cls(&validate_cbor_bytes("a", &s, &one)) == GENERIC, "generic-root");
        sym::check(cls(&validate_json_str("a", &s, "1")) == GENERIC, "generic-root");
    }
    c28_context "C28" "q" ["accepted", "mismatch", "error"] "a context that does not have the rule asked for itself, that has other rules too, and that reports a missing name as an error of its own choice: the outcome is as with all rules, or the context's error exactly where a name is consulted that it does not have" {
        let s = pick(&["a = [* b]\nb = int", "a = nil / b\nb = int", "a = b / nil\nb = int", "a = {k: b}\nb = int", "a = {* b => any}\nb = int / tstr", "a = [g, ? int]\ng = (int)\nb = int", "a = [~u]\nu = [b]\nb = int", "a = &g\ng = (x: b)\nb = int", "a = int .lt b\nb = 5", "a = 1 .. b\nb = 9", "a = p<b>\np<t> = [t] / nil\nb = int",
            "a = bstr .cbor b\nb = int", "a = {? b ^ => any, * any => any}\nb = int", "a = uint .size b\nb = 1", "a = b\nb = [b] / int", "a = [? (int, b), * any]\nb = tstr"]);
        sym::note(s);
        let all = must_load(s);
        let v = again();
        let want = run_cbor(&all, "a", &v);
        let other = [STRUCTURAL, UNSUPPORTED, GENERIC, MISSING][sym::choose(4)];
        let rd = &all.rules["a"];
        let data = v.cbor();
        let keep = |drop: &str| {
            let mut l: Vec<(String, RuleDef)> = vec![];
            for (n, r) in &all.rules {
                if n != drop {
                    l.push((n.clone(), r.clone()));
                }
            }
            l
        };
        let full = List { rules: keep("a"), other };
        let got = cls(&validate_cbor(rd, &data, &full));
        sym::check(got == want, "context-without-root");
        let part = List { rules: keep("b"), other };
        let mut basic = std::collections::BTreeMap::new();
        for (n, r) in keep("b") {
            basic.insert(n, r);
        }
        let base = cls(&validate_cbor(rd, &data, &BasicContext::new(basic)));
        let got = cls(&validate_cbor(rd, &data, &part));
        sym::observe(got as u64);
        sym::check(got == if base == MISSING { other } else { base }, "context-error");
        sym::reach(match got {
            OK => "accepted",
            MIS => "mismatch",
            _ => "error",
        });
    }
    c29_nesting "C29" "q" ["loads", "refused"] "a schema nested up to the limit loads the same before and after texts nested beyond it, broken or cut short inside brackets of 6 sorts" {
        let b = sym::choose(6);
        let n = [20, 49, 50, 99, 100, 101][sym::choose(6)];
        let text = nested(b, n);
        let before = load_class(&text);
        let p = sym::choose(6);
        let other = match sym::choose(5) {
            0 => nested(p, 150),
            1 => {
                let mut s = nested(p, 60);
                s.truncate(100);
                s
            }
            2 => fill(pick(&["a = [[[$", "a = ((($", "a = {x: {y: $", "a = &(&($", "a = p<p<$", "a = [1 / \"\\q$\"]"]), &[&ascii(1)]),
            3 => String::from("a = [[[99999999999999999999]]]"),
            _ => nested(p, 30),
        };
        for _ in 0..2 {
            let first = load_class(&other);
            sym::check(first == load_class(&other), "load-repeats");
        }
        let after = load_class(&text);
        sym::check(before == after, "load-after-load");
        sym::reach(if after == OK { "loads" } else { "refused" });
    }
    c29_text "C29" "q" ["loads", "refused"] "two texts with an arbitrary ASCII character each: the second is loaded as it was before the first" {
        let p = &["a = $", "a = [$", "a = \"$", "a = 1$", "a = (int$", "a = h'$", "a = p<$"];
        let s = fill(pick(p), &[&ascii(1)]);
        let q = fill(pick(&["a = $", "b = [int$]", "c = 1.$", "a = {k$ int}"]), &[&ascii(1)]);
        let before = load_class(&q);
        let _ = load_class(&s);
        let after = load_class(&q);
        sym::check(before == after, "load-after-load");
        sym::reach(if after == OK { "loads" } else { "refused" });
    }
    c29_values "C29" "q" ["accepted", "mismatch", "error"] "36 loaded schemas: a value with arbitrary integers, texts or bytes gets the same outcome before and after another such value" {
        let s = SCHEMAS[sym::choose(36)];
        sym::note(s);
        let c = match load(s) {
            Ok(c) => c,
            Err(_) => {
                sym::reach("error");
                return;
            }
        };
        let v = again();
        let w = again();
        let before = outcome_cbor(&c, "a", &v);
        let other = outcome_cbor(&c, "a", &w);
        let after = outcome_cbor(&c, "a", &v);
        sym::check(before == after, "verdict-after-verdict");
        sym::check(outcome_cbor(&c, "a", &w) == other, "verdict-after-verdict");
        sym::reach(match after {
            OK => "accepted",
            MIS => "mismatch",
            _ => "error",
        });
    }
    c29_repeat "C29" "q" ["accepted", "mismatch", "error"] "the same value validated, or the same text loaded, 300 times (whatever the outcome), and then another: each as the first time" {
        let s = SCHEMAS[sym::choose(SCHEMAS.len())];
        sym::note(s);
        let v = [V::Int(7), V::Int(1), t("x"), V::Arr(vec![V::Int(1), t("x")]), V::Map(vec![(t("x"), V::Int(9)), (t("y"), V::Null)]), V::Bytes(vec![0x61]), V::Arr(vec![V::Arr(vec![]), V::Null])][sym::choose(7)].clone();
        let out = |v: &V| match load(s) {
            Ok(c) => run_cbor(&c, "a", v),
            Err(c) => c,
        };
        let good = must_load("z = [* y]\ny = {k: x}\nx = (((int)))");
        let gv = V::Arr(vec![V::Map(vec![(t("k"), V::Int(1))])]);
        let first = out(&v);
        sym::check(run_cbor(&good, "z", &gv) == OK, "verdict-before");
        match load(s) {
            Ok(c) => {
                for _ in 0..300 {
                    sym::check(run_cbor(&c, "a", &v) == first, "verdict-repeats");
                }
            }
            Err(e) => {
                for _ in 0..300 {
                    sym::check(load_class(s) == e, "load-repeats");
                }
            }
        }
        sym::check(out(&v) == first, "verdict-repeats");
        sym::check(run_cbor(&good, "z", &gv) == OK, "verdict-after");
        sym::check(load_class("z = [[[[[{k: (((int)))}]]]]]") == OK, "load-after");
        sym::observe(first as u64);
        sym::reach(match first {
            OK => "accepted",
            MIS => "mismatch",
            _ => "error",
        });
    }
    c29_fresh "C29" "q" ["accepted", "mismatch"] "a context that has been used agrees with one just loaded, whichever rule was asked for before" {
        let s = pick(&[
            "a = [* b]\nb = int / c\nc = tstr\n", "a = {* b => c}\nb = tstr\nc = int", "a = p<b>\np<t> = [t, c]\nb = int\nc = int", "a = [~b, c]\nb = [int]\nc = int", "a = &b\nb = (x: 1, c)\nc = 5..7",
            "a = tstr .regexp \"x+y\"\nb = tstr .regexp \"y\"\nc = a / b", "a = uint .size b\nb = 1\nc = int .lt b",
        ]);
        let used = must_load(s);
        let r = pick(&["a", "b", "c"]);
        let _ = run_cbor(&used, pick(&["a", "b", "c"]), &again());
        let v = again();
        let x = run_cbor(&used, r, &v);
        let y = run_cbor(&must_load(s), r, &v);
        sym::check(x == y, "used-context");
        sym::reach(if x == OK { "accepted" } else { "mismatch" });
    }
    c29_texts "C29" "q" ["accepted", "mismatch"] "two or three schema texts that define the same rule differently (same length, same beginning, same end, other definitions of names they refer to), asked one after the other for the same document or another, give the verdict of the text given, through both whole-way entry points" {
        const T: &[&str] = &["a = int", "a = nil", "a = [b]\nb = int", "a = [b]\nb = nil", "a = [b]\nc = int\nb = nil", "a = [* c]\nc = int", "a = {* c => b}\nb = int\nc = any", "a = {* c => b}\nb = nil\nc = any", "a = w<int>\nw<x> = x", "a = w<nil>\nw<x> = x"];
        const D: &[(&str, &[u8])] = &[("7", &[0x07]), ("null", &[0xf6]), ("[7]", &[0x81, 0x07]), ("[null]", &[0x81, 0xf6]), ("{\"k\":7}", &[0xa1, 0x61, b'k', 0x07])];
        const DV: &[fn() -> V] = &[|| V::Int(7), || V::Null, || V::Arr(vec![V::Int(7)]), || V::Arr(vec![V::Null]), || V::Map(vec![(t("k"), V::Int(7))])];
        const PAD: &str = "\n; the rules of this schema are few, but explained at some length: this is the explanation,\n; which goes on for two lines so that nothing can be told from the first.\nzz = [* zz]\n";
        let long = sym::choose(2) == 1;
        for _ in 0..2 {
            let s = pick(T);
            let d = sym::choose(D.len());
            let json = sym::choose(2) == 0;
            let want = Ref::new(s.as_bytes()).outcome("a", &DV[d]());
            // far from either end of the text
            let s = &if long { cat(&[PAD, s, PAD]) } else { String::from(s) };
            let got = if json { cls(&validate_json_str("a", s, D[d].0)) } else { cls(&validate_cbor_bytes("a", s, D[d].1)) };
            sym::check(got == want, "text-after-text");
            sym::reach(if want == OK { "accepted" } else { "mismatch" });
        }
    }
    c29_controls "C29" "q" ["accepted", "mismatch"] "the same for .regexp, .cbor, .size and comparisons: two contexts of one rule each, used in turn on arbitrary two-byte data" {
        const T: &[&str] = &["a = tstr .regexp \"x.\"", "a = tstr .regexp \"y.\"", "a = tstr .regexp \".x\"", "a = tstr .regexp \"xx\"", "a = bstr .cbor int", "a = bstr .cbor tstr", "a = tstr .size 2", "a = tstr .size 3", "a = bstr .size 2"];
        let i = sym::choose(T.len());
        let j = sym::choose(T.len());
        let c = [must_load(T[i]), must_load(T[j])];
        for k in [0usize, 1, 0] {
            let x = any_bytes(2);
            for y in &x {
                sym::assume(*y < 0x80);
                sym::assume(*y != b'\n');
            }
            let text = sym::choose(2) == 0;
            let want = match [i, j][k] {
                0 => text && x[0] == b'x',
                1 => text && x[0] == b'y',
                2 => text && x[1] == b'x',
                3 => text && x[0] == b'x' && x[1] == b'x',
                4 => !text && (x[0] == 0x18 || x[0] == 0x38),
                5 => !text && (x[0] == 0x61 || (x[0] == 0x78 && x[1] == 0)),
                6 => text,
                7 => false,
                _ => !text,
            };
            let v = if text { V::Text(unsafe { String::from_utf8_unchecked(x) }) } else { V::Bytes(x) };
            let got = run_cbor(&c[k], "a", &v);
            sym::check(matches!(got, OK | MIS | VALUE), "verdict-after-other-rule");
            sym::check((got == OK) == want, "verdict-after-other-rule");
            sym::reach(if want { "accepted" } else { "mismatch" });
        }
    }
}
