//! C34: schemas put together by hand, without any text behind them: numbers
//! and shapes the language cannot spell.
use crate::gen::*;
use crate::real::*;
use crate::refi::{GENERIC, MIS, OK, STRUCTURAL};
use crate::sym;
use crate::val::*;
use cddl_cat::context::BasicContext;
use cddl_cat::ivt::*;
use cddl_cat::normalize::normalize_size_range;

fn int(i: i128) -> Node {
    Node::Literal(Literal::Int(i))
}
/// Any 128-bit integer.
fn wide() -> i128 {
    ((sym::u64() as u128) << 64 | sym::u64() as u128) as i128
}
fn bx(n: Node) -> Box<Node> {
    Box::new(n)
}
fn name(n: &str) -> Node {
    Node::Rule(Rule { name: String::from(n), generic_args: vec![] })
}
fn pre(k: usize) -> Node {
    use PreludeType::*;
    Node::PreludeType([Any, Nil, Bool, Int, Uint, Nint, Float, Tstr, Bstr][k])
}
fn def(node: Node) -> RuleDef {
    RuleDef { generic_parms: vec![], node }
}
/// The outcome for a rule `a` among other rules.
fn run(a: Node, rest: Vec<(&str, RuleDef)>, v: &V) -> u8 {
    let mut rules = RulesByName::new();
    rules.insert(String::from("a"), def(a));
    for (n, d) in rest {
        rules.insert(String::from(n), d);
    }
    let c = BasicContext::new(rules);
    let got = run_cbor(&c, "a", v);
    sym::observe(got as u64);
    got
}
/// `n` as it is, behind a name, as a generic argument, as the only member of a
/// group or the only option of a choice, and the rules that takes. The value
/// it applies to is the same.
fn behind(n: Node, rest: &mut Vec<(&'static str, RuleDef)>) -> Node {
    match sym::choose(6) {
        0 => n,
        1 => {
            rest.push(("n", def(n)));
            name("n")
        }
        2 => {
            rest.push(("id", RuleDef { generic_parms: vec![String::from("t")], node: name("t") }));
            Node::Rule(Rule { name: String::from("id"), generic_args: vec![n] })
        }
        3 => Node::Group(Group { members: vec![n] }),
        4 => Node::Choice(Choice { options: vec![n] }),
        _ => {
            rest.push(("n", def(Node::Group(Group { members: vec![Node::Choice(Choice { options: vec![n] })] }))));
            name("n")
        }
    }
}
fn verdict(got: u8, want: bool, id: &'static str) {
    sym::check(got == if want { OK } else { MIS }, id);
    sym::reach(if want { "accepted" } else { "mismatch" });
}
/// A node of one of 22 kinds, with `x` inside where there is room.
fn any_node(k: usize, x: Node) -> Node {
    let r = |n: &str, a: Vec<Node>| Rule { name: String::from(n), generic_args: a };
    match k {
        0 => int(wide()),
        1 => Node::Literal(Literal::Text(String::from("k"))),
        2 => pre(0),
        3 => name("g"),
        4 => Node::Rule(r("w", vec![x])),
        5 => Node::Choice(Choice { options: vec![] }),
        6 => Node::Choice(Choice { options: vec![int(7), x] }),
        7 => Node::Map(Map { members: vec![x] }),
        8 => Node::Array(Array { members: vec![x] }),
        9 => Node::Group(Group { members: vec![] }),
        10 => Node::Group(Group { members: vec![x] }),
        11 => Node::Group(Group { members: vec![pre(7), x] }),
        12 => Node::KeyValue(KeyValue { key: bx(pre(7)), value: bx(x), cut: sym::choose(2) == 1 }),
        13 => Node::KeyValue(KeyValue { key: bx(x), value: bx(pre(0)), cut: sym::choose(2) == 1 }),
        14 => Node::Occur(Occur { limit: limit(), node: bx(x) }),
        15 => Node::Unwrap(r(["m", "l", "g", "w", "none"][sym::choose(5)], vec![])),
        16 => Node::Unwrap(r("w", vec![x])),
        17 => Node::Range(Range { start: bx(x), end: bx(int(wide())), inclusive: sym::choose(2) == 1 }),
        18 => Node::Range(Range { start: bx(int(3)), end: bx(x), inclusive: true }),
        19 => {
            let (t, l) = (bx(pre([3, 4, 7, 8][sym::choose(4)])), bx(x));
            Node::Control(match sym::choose(5) {
                0 => Control::Size(CtlOpSize { target: t, size: l }),
                1 => Control::Lt(CtlOpLt { target: t, lt: l }),
                2 => Control::Le(CtlOpLe { target: t, le: l }),
                3 => Control::Gt(CtlOpGt { target: t, gt: l }),
                _ => Control::Ge(CtlOpGe { target: t, ge: l }),
            })
        }
        20 => {
            let (t, l) = (bx(x), bx(int(wide())));
            Node::Control(match sym::choose(3) {
                0 => Control::Size(CtlOpSize { target: t, size: l }),
                1 => Control::Lt(CtlOpLt { target: t, lt: l }),
                _ => Control::Ge(CtlOpGe { target: t, ge: l }),
            })
        }
        21 => Node::Choiceify(r(["g", "m", "w", "none"][sym::choose(4)], vec![])),
        22 => Node::Choiceify(r("w", vec![x])),
        _ => Node::ChoiceifyInline(Array { members: vec![x] }),
    }
}
fn limit() -> OccurLimit {
    match sym::choose(5) {
        0 => OccurLimit::Optional,
        1 => OccurLimit::ZeroOrMore,
        2 => OccurLimit::OneOrMore,
        3 => OccurLimit::Numbered(sym::u64() as usize, sym::u64() as usize),
        _ => OccurLimit::Numbered(0, 0),
    }
}
fn total(a: Node, v: &V) {
    let kv = Node::KeyValue(KeyValue { key: bx(Node::Literal(Literal::Text(String::from("k")))), value: bx(pre(3)), cut: true });
    let rest = vec![
        ("g", def(Node::Group(Group { members: vec![kv.clone()] }))),
        ("m", def(Node::Map(Map { members: vec![kv] }))),
        ("l", def(Node::Array(Array { members: vec![pre(3)] }))),
        ("w", RuleDef { generic_parms: vec![String::from("t")], node: name("t") }),
    ];
    run(a, rest, v);
    sym::reach("ended");
}
fn data() -> V {
    match sym::choose(7) {
        0 => any_int(),
        1 => t("k"),
        2 => V::Arr(vec![]),
        3 => V::Arr(vec![any_int(), t("k")]),
        4 => V::Map(vec![]),
        5 => V::Map(vec![(t("k"), any_int())]),
        _ => V::Map(vec![(V::Int(7), t("k")), (t("k"), V::Null)]),
    }
}

entries! {
    c34_literal "C34" "q" ["accepted", "mismatch"] "any 128-bit integer literal against any integer, in place and 5 ways round about" {
        let x = wide();
        let mut rest = vec![];
        let n = behind(int(x), &mut rest);
        let v = any_int();
        let i = match &v { V::Int(i) => *i, _ => 0 };
        verdict(run(n, rest, &v), i == x, "wide-literal");
    }
    c34_range "C34" "q" ["accepted", "mismatch", "error"] "ranges between any two 128-bit integers, any two floats, or one of each, inclusive or not, against any integer and any float" {
        let inclusive = sym::choose(2) == 1;
        let mut rest = vec![];
        let is_int = sym::choose(2) == 0;
        match sym::choose(3) {
            0 => {
                let (x, y) = (wide(), wide());
                let n = behind(Node::Range(Range { start: bx(int(x)), end: bx(int(y)), inclusive }), &mut rest);
                let v = if is_int { any_int() } else { V::Float(any_float()) };
                let want = match &v {
                    V::Int(i) => *i >= x && (*i < y || inclusive && *i == y),
                    _ => false,
                };
                verdict(run(n, rest, &v), want, "wide-range");
            }
            1 => {
                let (x, y) = (any_float(), any_float());
                let n = behind(Node::Range(Range { start: bx(Node::Literal(Literal::Float(x))), end: bx(Node::Literal(Literal::Float(y))), inclusive }), &mut rest);
                let v = if is_int { any_int() } else { V::Float(any_float()) };
                let want = match &v {
                    V::Float(f) => *f >= x && (*f < y || inclusive && *f == y),
                    _ => false,
                };
                verdict(run(n, rest, &v), want, "wide-range");
            }
            _ => {
                let (x, y) = (int(wide()), Node::Literal(Literal::Float(any_float())));
                let (x, y) = if sym::choose(2) == 0 { (x, y) } else { (y, x) };
                let n = behind(Node::Range(Range { start: bx(x), end: bx(y), inclusive }), &mut rest);
                let v = if is_int { any_int() } else { V::Float(any_float()) };
                sym::check(run(n, rest, &v) == STRUCTURAL, "wide-range");
                sym::reach("error");
            }
        }
    }
    c34_compare "C34" "q" ["accepted", "mismatch"] ".lt, .le, .gt and .ge of int, uint and nint with any 128-bit limit (named or not) against any integer" {
        let x = wide();
        let k = 3 + sym::choose(3);
        let mut rest = vec![];
        let l = if sym::choose(2) == 0 {
            int(x)
        } else {
            rest.push(("l", def(int(x))));
            name("l")
        };
        let (target, l) = (bx(pre(k)), bx(l));
        let op = sym::choose(4);
        let n = Node::Control(match op {
            0 => Control::Lt(CtlOpLt { target, lt: l }),
            1 => Control::Le(CtlOpLe { target, le: l }),
            2 => Control::Gt(CtlOpGt { target, gt: l }),
            _ => Control::Ge(CtlOpGe { target, ge: l }),
        });
        let n = behind(n, &mut rest);
        let v = any_int();
        let i = match &v { V::Int(i) => *i, _ => 0 };
        let of_kind = match k { 3 => true, 4 => i >= 0, _ => i < 0 };
        let within = match op { 0 => i < x, 1 => i <= x, 2 => i > x, _ => i >= x };
        verdict(run(n, rest, &v), of_kind && within, "wide-compare");
    }
    c34_size "C34" "q" ["accepted", "mismatch", "error"] ".size of uint, tstr and bstr with any 128-bit size or range of sizes, against any unsigned integer or strings of up to 20 bytes" {
        let (x, y, inclusive, range) = if sym::choose(2) == 0 {
            let x = wide();
            (x, x, true, false)
        } else {
            (wide(), wide(), sym::choose(2) == 1, true)
        };
        let mut rest = vec![];
        let size = if range { Node::Range(Range { start: bx(int(x)), end: bx(int(y)), inclusive }) } else { int(x) };
        let size = match sym::choose(2) {
            0 => size,
            _ => {
                rest.push(("l", def(size)));
                name("l")
            }
        };
        let kind = sym::choose(3);
        let n = Node::Control(Control::Size(CtlOpSize { target: bx(pre([4, 7, 8][kind])), size: bx(size) }));
        let n = behind(n, &mut rest);
        let bytes = sym::choose(21);
        let v = match kind {
            0 => V::Int(sym::u64() as i128),
            1 => V::Text(crate::p_lit::text_of(vec![b'a'; bytes])),
            _ => V::Bytes(vec![b'a'; bytes]),
        };
        let got = run(n, rest, &v);
        let bad = |i: i128| i < 0 || i > u64::MAX as i128;
        if bad(x) || bad(y) {
            sym::check(got == STRUCTURAL, "wide-size");
            sym::reach("error");
            return;
        }
        let (len, whole) = match &v {
            V::Int(i) => {
                let mut n = 0;
                while n < 8 && *i >= 1i128 << (8 * n) {
                    n += 1;
                }
                (n as i128, !range || x == y && inclusive)
            }
            _ => (bytes as i128, false),
        };
        // (an exact size of a number is the most it may take)
        let want = if whole { len <= x } else { len >= x && (len < y || inclusive && len == y) };
        verdict(got, want, "wide-size");
    }
    c34_occur "C34" "q" ["accepted", "mismatch"] "an occurrence with any two limits, the lower above the upper too, of int, a choice of one, or a group, alone in an array of up to 5 elements or a map of up to 5 entries" {
        let (lo, hi) = (sym::u64() as usize, sym::u64() as usize);
        let limit = match sym::choose(4) {
            0 => OccurLimit::Optional,
            1 => OccurLimit::ZeroOrMore,
            2 => OccurLimit::OneOrMore,
            _ => OccurLimit::Numbered(lo, hi),
        };
        let (lo, hi) = match &limit {
            OccurLimit::Optional => (0, 1),
            OccurLimit::ZeroOrMore => (0, usize::MAX),
            OccurLimit::OneOrMore => (1, usize::MAX),
            _ => (lo, hi),
        };
        let map = sym::choose(2) == 1;
        let x = if map { Node::KeyValue(KeyValue { key: bx(pre(3)), value: bx(pre(3)), cut: false }) } else { pre(3) };
        let mut rest = vec![];
        let x = match sym::choose(4) {
            0 => x,
            1 => Node::Group(Group { members: vec![x] }),
            2 => Node::Choice(Choice { options: vec![Node::Group(Group { members: vec![x] })] }),
            _ => {
                rest.push(("n", def(Node::Group(Group { members: vec![x] }))));
                name("n")
            }
        };
        let o = Occur::new(limit.clone(), x);
        sym::check(o.limits() == (lo, hi), "limits");
        sym::check(o.limit == limit, "limits");
        let n = sym::choose(6);
        let v = if map { V::Map((0..n).map(|i| (V::Int(i as i128), V::Int(1))).collect()) } else { V::Arr((0..n).map(|i| V::Int(i as i128)).collect()) };
        let members = vec![Node::Occur(o)];
        let a = if map { Node::Map(Map { members }) } else { Node::Array(Array { members }) };
        verdict(run(a, rest, &v), n >= lo && n <= hi, "any-limits");
    }
    c34_symbol "C34" "q" ["same"] "the symbol of an occurrence: ? * + and n*m for limits of up to 3 digits, one of them arbitrary, and for the largest" {
        let put = |n: usize| crate::p_size::dec(n);
        let x = sym::choose(6);
        let d = sym::u8();
        sym::assume(d < 10);
        let lo = [0usize, 1, 9, 10, 120, usize::MAX][x];
        let hi = match sym::choose(4) {
            0 => d as usize,
            1 => 20 + d as usize,
            2 => 300,
            _ => usize::MAX,
        };
        let (limit, want) = match sym::choose(4) {
            0 => (OccurLimit::Optional, String::from("?")),
            1 => (OccurLimit::ZeroOrMore, String::from("*")),
            2 => (OccurLimit::OneOrMore, String::from("+")),
            _ => {
                // (0* for no limits at all; a number as large as can be is left open)
                sym::assume(lo == 0 || hi != usize::MAX && lo != usize::MAX);
                let h = if lo == 0 && hi == usize::MAX { String::new() } else { put(hi) };
                (OccurLimit::Numbered(lo, hi), cat(&[&put(lo), "*", &h]))
            }
        };
        let o = Occur::new(limit, pre(3));
        sym::formats();
        sym::check(o.symbol().as_bytes() == want.as_bytes(), "symbol");
        sym::reach("same");
    }
    c34_normalize "C34" "q" ["same", "refused"] "normalize_size_range of any 128-bit integer, any range of two, and 8 other nodes" {
        let fits = |i: i128| i >= 0 && i <= u64::MAX as i128;
        let (x, y, inclusive) = (wide(), wide(), sym::choose(2) == 1);
        let range = |s: Node, e: Node| Node::Range(Range { start: bx(s), end: bx(e), inclusive });
        let k = sym::choose(10);
        let (n, want) = match k {
            0 => (int(x), if fits(x) { Some((x, x, true)) } else { None }),
            1 => (range(int(x), int(y)), if fits(x) && fits(y) { Some((x, y, inclusive)) } else { None }),
            2 => (range(int(x), Node::Literal(Literal::Float(1.0))), None),
            3 => (range(Node::Literal(Literal::Text(String::from("1"))), int(x)), None),
            4 => (range(int(1), name("l")), None),
            5 => (name("l"), None),
            6 => (Node::Literal(Literal::Float(2.0)), None),
            7 => (Node::Literal(Literal::Bool(true)), None),
            8 => (pre(4), None),
            _ => (Node::Choice(Choice { options: vec![int(1)] }), None),
        };
        match (normalize_size_range(&n), want) {
            (Ok(r), Some((x, y, inc))) => {
                sym::check(*r.start == int(x) && *r.end == int(y) && r.inclusive == inc, "size-range");
                sym::reach("same");
            }
            (Err(e), None) => {
                sym::check(cls_e(&e) == STRUCTURAL, "size-range");
                sym::reach("refused");
            }
            _ => sym::check(false, "size-range"),
        }
    }
    c34_choice "C34" "q" ["accepted", "mismatch"] "choices of none to three alternatives, and choices of those, as a type, an array's only member, a map's key and value" {
        let opts = |k: usize| -> (Node, Vec<i128>) {
            let n = sym::choose(4);
            let xs: Vec<i128> = (0..n).map(|i| (10 * k + i) as i128).collect();
            (Node::Choice(Choice { options: xs.iter().map(|x| int(*x)).collect() }), xs)
        };
        let (c, mut xs) = opts(1);
        let n = if sym::choose(2) == 0 {
            c
        } else {
            let (c2, ys) = opts(2);
            xs.extend_from_slice(&ys);
            Node::Choice(Choice { options: if sym::choose(2) == 0 { vec![c, c2] } else { vec![c2, c] } })
        };
        let v = any_int();
        let i = match &v { V::Int(i) => *i, _ => 0 };
        let want = xs.iter().any(|x| *x == i);
        let kv = |k: Node, v: Node| Node::Map(Map { members: vec![Node::KeyValue(KeyValue { key: bx(k), value: bx(v), cut: sym::choose(2) == 1 })] });
        let (n, v) = match sym::choose(4) {
            0 => (n, v),
            1 => (Node::Array(Array { members: vec![n] }), V::Arr(vec![v])),
            2 => (kv(n, pre(0)), V::Map(vec![(v, V::Null)])),
            _ => (kv(int(1), n), V::Map(vec![(V::Int(1), v)])),
        };
        verdict(run(n, vec![], &v), want, "few-alternatives");
    }
    c34_root "C34" "q" ["accepted", "error"] "a rule definition with no, one or two parameters given to validation" {
        let k = sym::choose(3);
        let d = RuleDef { generic_parms: [&[][..], &["t"], &["t", "u"]][k].iter().map(|s| String::from(*s)).collect(), node: [pre(3), name("t"), int(7)][sym::choose(if k == 0 { 1 } else { 3 })].clone() };
        let c = BasicContext::new(RulesByName::new());
        let got = cls(&cddl_cat::validate_cbor(&d, &any_int().cbor(), &c));
        let js = cls(&cddl_cat::validate_json(&d, &V::Int(7).json(), &c));
        sym::check(got == if k == 0 { OK } else { GENERIC }, "parameters-at-the-root");
        sym::check(js == if k == 0 { OK } else { GENERIC }, "parameters-at-the-root");
        sym::reach(if k == 0 { "accepted" } else { "error" });
    }
    c34_total "C34" "q" ["ended"] "every node kind in every other, as a rule: any one of 24 in any of 24, against 7 values: a verdict or an error, no panic" {
        let x = any_node(sym::choose(24), pre(3));
        total(any_node(sym::choose(24), x), &data());
    }
    c34_total_member "C34" "q" ["ended"] "every node kind in every other, as the member of an array or a map, before or after another: a verdict or an error, no panic" {
        let x = any_node(sym::choose(24), pre(3));
        let x = any_node(sym::choose(24), x);
        let members = vec![x, Node::Occur(Occur { limit: OccurLimit::ZeroOrMore, node: bx(Node::KeyValue(KeyValue { key: bx(pre(0)), value: bx(pre(0)), cut: false })) })];
        let a = if sym::choose(2) == 0 { Node::Array(Array { members }) } else { Node::Map(Map { members }) };
        total(a, &data());
    }
    c34_total_three "C34" "t" ["ended"] "three levels of any node in any node, as a rule or as a member: a verdict or an error, no panic" {
        let x = any_node(sym::choose(24), pre(3));
        let x = any_node(sym::choose(24), x);
        let x = any_node(sym::choose(24), x);
        let a = match sym::choose(3) {
            0 => x,
            1 => Node::Array(Array { members: vec![x] }),
            _ => Node::Map(Map { members: vec![x] }),
        };
        total(a, &data());
    }
}
