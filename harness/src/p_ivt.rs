//! C33: the flattened schema says what the syntax tree says. Trees are built
//! by hand, as a program that writes its own schemas would.
use crate::gen::*;
use crate::sym;
use crate::val::*;
use cddl_cat::ast::{self, GrpChoice, GrpEnt, GrpEntVal, Member, MemberKey, MemberKeyVal, NameGeneric, RuleVal, Type, Type1, Type2, TypeControl, TypeRange};
use cddl_cat::flatten::{flatten, slice_flatten};
use cddl_cat::ivt::*;

// What a tree stands for, or Err where it stands for nothing.
type R<X> = Result<X, ()>;

fn w_type(t: &Type) -> R<Node> {
    if t.0.len() == 1 {
        return w_type1(&t.0[0]);
    }
    let mut options = vec![];
    for x in &t.0 {
        options.push(w_type1(x)?);
    }
    Ok(Node::Choice(Choice { options }))
}
fn w_type1(t: &Type1) -> R<Node> {
    match t {
        Type1::Simple(x) => w_type2(x),
        Type1::Range(r) => {
            let end = |x: &Type2| -> R<Box<Node>> {
                match (x, w_type2(x)?) {
                    (Type2::Value(_), n) => Ok(Box::new(n)),
                    (Type2::Typename(_), n @ (Node::Rule(_) | Node::Literal(_))) => Ok(Box::new(n)),
                    _ => Err(()),
                }
            };
            Ok(Node::Range(Range { start: end(&r.start)?, end: end(&r.end)?, inclusive: r.inclusive }))
        }
        Type1::Control(c) => {
            let target = w_type2(&c.target)?;
            let arg = w_type2(&c.arg)?;
            let limit = matches!(arg, Node::Rule(_) | Node::Literal(Literal::Int(_)));
            let size = limit || matches!(arg, Node::Range(_));
            let (target, arg) = (Box::new(target), Box::new(arg));
            Ok(Node::Control(match c.op.as_bytes() {
                b"size" if size => Control::Size(CtlOpSize { target, size: arg }),
                b"lt" if limit => Control::Lt(CtlOpLt { target, lt: arg }),
                b"le" if limit => Control::Le(CtlOpLe { target, le: arg }),
                b"gt" if limit => Control::Gt(CtlOpGt { target, gt: arg }),
                b"ge" if limit => Control::Ge(CtlOpGe { target, ge: arg }),
                _ => return Err(()),
            }))
        }
    }
}
fn w_value(v: &ast::Value) -> Node {
    Node::Literal(match v {
        ast::Value::Text(s) => Literal::Text(s.clone()),
        ast::Value::Uint(u) => Literal::Int(*u as i128),
        ast::Value::Nint(i) => Literal::Int(*i as i128),
        ast::Value::Float(f) => Literal::Float(*f),
        ast::Value::Bytes(b) => Literal::Bytes(b.clone()),
    })
}
fn w_name(n: &str) -> R<Node> {
    use PreludeType::*;
    const KNOWN: &[(&[u8], PreludeType)] = &[
        (b"any", Any), (b"nil", Nil), (b"null", Nil), (b"bool", Bool), (b"int", Int), (b"uint", Uint), (b"nint", Nint), (b"tstr", Tstr), (b"text", Tstr), (b"bstr", Bstr), (b"bytes", Bstr),
        (b"float", Float), (b"float16", Float), (b"float32", Float), (b"float64", Float), (b"float16-32", Float), (b"float32-64", Float),
        (b"tdate", Tstr), (b"uri", Tstr), (b"b64url", Tstr), (b"b64legacy", Tstr), (b"regexp", Tstr), (b"mime-message", Tstr),
        (b"biguint", Bstr), (b"bignint", Bstr), (b"encoded-cbor", Bstr), (b"eb64url", Any), (b"eb64legacy", Any), (b"eb16", Any), (b"cbor-any", Any),
    ];
    const REFUSED: &[&[u8]] = &[b"time", b"bigint", b"integer", b"unsigned", b"number", b"decfrac", b"bigfloat", b"undefined"];
    for (k, p) in KNOWN {
        if *k == n.as_bytes() {
            return Ok(Node::PreludeType(*p));
        }
    }
    if n.as_bytes() == b"true" || n.as_bytes() == b"false" {
        return Ok(Node::Literal(Literal::Bool(n.len() == 4)));
    }
    for k in REFUSED {
        if *k == n.as_bytes() {
            return Err(());
        }
    }
    Ok(Node::Rule(Rule { name: String::from(n), generic_args: vec![] }))
}
fn w_generic(n: &NameGeneric) -> R<Node> {
    match w_name(&n.name)? {
        Node::Rule(mut r) => {
            for a in &n.generic_args {
                r.generic_args.push(w_type1(a)?);
            }
            Ok(Node::Rule(r))
        }
        x if n.generic_args.is_empty() => Ok(x),
        _ => Err(()),
    }
}
fn w_rule(n: &NameGeneric) -> R<Rule> {
    match w_generic(n)? {
        Node::Rule(r) => Ok(r),
        _ => Err(()),
    }
}
fn w_type2(t: &Type2) -> R<Node> {
    Ok(match t {
        Type2::Value(v) => w_value(v),
        Type2::Typename(n) => w_generic(n)?,
        Type2::Parethesized(t) => w_type(t)?,
        Type2::Map(g) => Node::Map(Map { members: w_group(g)? }),
        Type2::Array(g) => Node::Array(Array { members: w_group(g)? }),
        Type2::Unwrap(n) => Node::Unwrap(w_rule(n)?),
        Type2::Choiceify(n) => Node::Choiceify(w_rule(n)?),
        Type2::ChoiceifyInline(g) => Node::ChoiceifyInline(Array { members: w_group(g)? }),
    })
}
fn w_group(g: &ast::Group) -> R<Vec<Node>> {
    let mut all = vec![];
    for c in &g.0 {
        let mut members = vec![];
        for e in &c.0 {
            members.push(w_entry(e)?);
        }
        all.push(members);
    }
    if all.len() == 1 {
        return Ok(all.pop().unwrap());
    }
    let mut options = vec![];
    for members in all {
        options.push(Node::Group(Group { members }));
    }
    Ok(vec![Node::Choice(Choice { options })])
}
fn w_entry(e: &GrpEnt) -> R<Node> {
    let n = match &e.val {
        GrpEntVal::Groupname(n) => w_name(n)?,
        GrpEntVal::Parenthesized(g) => Node::Group(Group { members: w_group(g)? }),
        GrpEntVal::Member(m) => {
            let v = w_type(&m.value)?;
            match &m.key {
                None => v,
                Some(k) => {
                    let key = match &k.val {
                        MemberKeyVal::Bareword(s) => Node::Literal(Literal::Text(s.clone())),
                        MemberKeyVal::Value(v) => w_value(v),
                        MemberKeyVal::Type1(t) => w_type1(t)?,
                    };
                    Node::KeyValue(KeyValue { key: Box::new(key), value: Box::new(v), cut: k.cut })
                }
            }
        }
    };
    Ok(match &e.occur {
        None => n,
        Some(o) => Node::Occur(Occur { limit: o.clone(), node: Box::new(n) }),
    })
}

/// Flattens the rules, plain and with their texts, and compares.
fn agree(rules: Vec<ast::Rule>) {
    let mut want: R<Vec<(String, RuleDef)>> = Ok(vec![]);
    for r in &rules {
        let node = match &r.val {
            RuleVal::AssignType(t) => w_type(t),
            RuleVal::AssignGroup(g) => w_entry(g),
        };
        match (node, &mut want) {
            (Ok(node), Ok(w)) => w.push((r.name.clone(), RuleDef { generic_parms: r.generic_parms.clone(), node })),
            _ => want = Err(()),
        }
    }
    let cddl = ast::Cddl { rules };
    let got = flatten(&cddl);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            sym::check(w.len() == g.len(), "every-rule-and-no-other");
            for (n, d) in w {
                match g.get(n) {
                    Some(x) => {
                        sym::check(x.generic_parms == d.generic_parms, "parameters-in-order");
                        sym::check(x.node == d.node, "node-of-the-tree");
                    }
                    None => sym::check(false, "every-rule-and-no-other"),
                }
            }
            sym::reach("same");
        }
        (Err(()), Err(_)) => sym::reach("refused"),
        (Ok(_), Err(_)) => sym::check(false, "loads"),
        (Err(()), Ok(_)) => sym::check(false, "refused-as-a-schema-error"),
    }
    let mut k = 0u8;
    let slice = ast::CddlSlice {
        rules: cddl
            .rules
            .into_iter()
            .map(|r| {
                k += 1;
                let mut s = String::from(if k % 2 == 0 { " " } else { "\n\t" });
                s.push_str(&r.name);
                s.push((b'0' + k) as char);
                s.push_str(if k % 3 == 0 { "; c \n" } else { "" });
                (r, s)
            })
            .collect(),
    };
    match (slice_flatten(&slice), got) {
        (Ok(a), Ok(b)) => {
            sym::check(a.len() == b.len(), "the-same-with-texts");
            for (r, s) in &slice.rules {
                let x = a.get(&r.name);
                sym::check(x.is_some(), "the-same-with-texts");
                if let Some((d, t)) = x {
                    sym::check(t.as_bytes() == s.as_bytes(), "its-own-text");
                    sym::check(Some(d) == b.get(&r.name), "the-same-with-texts");
                }
            }
        }
        (a, b) => sym::check(a.is_err() == b.is_err(), "the-same-with-texts"),
    }
}

fn tn(n: &str) -> Type2 {
    Type2::Typename(NameGeneric { name: String::from(n), generic_args: vec![] })
}
fn one(t: Type2) -> Type {
    Type(vec![Type1::Simple(t)])
}
fn ent(v: Type) -> GrpEnt {
    GrpEnt { occur: None, val: GrpEntVal::Member(Member { key: None, value: v }) }
}
fn grp(e: Vec<GrpEnt>) -> ast::Group {
    ast::Group(vec![GrpChoice(e)])
}
fn keyed(k: MemberKeyVal, cut: bool, v: Type) -> GrpEnt {
    GrpEnt { occur: None, val: GrpEntVal::Member(Member { key: Some(MemberKey { val: k, cut }), value: v }) }
}
fn rule(n: &str, val: RuleVal) -> ast::Rule {
    ast::Rule { name: String::from(n), generic_parms: vec![], val }
}
/// `t` in one of 20 places.
fn place(t: Type2) -> RuleVal {
    let b = sym::choose(2) == 1;
    RuleVal::AssignType(one(match sym::choose(20) {
        0 => t,
        1 => Type2::Parethesized(one(t)),
        2 => Type2::Parethesized(Type(vec![Type1::Simple(tn("int")), Type1::Simple(t)])),
        3 => Type2::Parethesized(Type(vec![Type1::Simple(t), Type1::Simple(tn("k")), Type1::Simple(tn("nil"))])),
        4 => Type2::Array(grp(vec![ent(one(tn("int"))), ent(one(t))])),
        5 => Type2::Map(grp(vec![keyed(MemberKeyVal::Bareword(String::from("k")), b, one(t))])),
        6 => Type2::Map(grp(vec![keyed(MemberKeyVal::Type1(Type1::Simple(t)), b, one(tn("any")))])),
        7 => Type2::ChoiceifyInline(grp(vec![ent(one(t)), ent(one(tn("x")))])),
        8 => Type2::Typename(NameGeneric { name: String::from("x"), generic_args: vec![Type1::Simple(tn("y")), Type1::Simple(t)] }),
        9 => Type2::Unwrap(NameGeneric { name: String::from("x"), generic_args: vec![Type1::Simple(t)] }),
        10 => Type2::Choiceify(NameGeneric { name: String::from("x"), generic_args: vec![Type1::Simple(t)] }),
        11 => Type2::Parethesized(Type(vec![Type1::Range(TypeRange { start: t, end: tn("z"), inclusive: b })])),
        12 => Type2::Parethesized(Type(vec![Type1::Range(TypeRange { start: Type2::Value(ast::Value::Uint(1)), end: t, inclusive: b })])),
        13 => Type2::Parethesized(Type(vec![Type1::Control(TypeControl { target: t, arg: tn("z"), op: String::from(if b { "size" } else { "ge" }) })])),
        14 => Type2::Parethesized(Type(vec![Type1::Control(TypeControl { target: tn("bytes"), arg: t, op: String::from(if b { "gt" } else { "lt" }) })])),
        15 => Type2::Array(ast::Group(vec![GrpChoice(vec![ent(one(t))]), GrpChoice(vec![]), GrpChoice(vec![ent(one(tn("k")))])])),
        16 => Type2::Array(grp(vec![GrpEnt { occur: Some(ast::Occur::ZeroOrMore), val: GrpEntVal::Parenthesized(grp(vec![ent(one(t))])) }])),
        17 => return RuleVal::AssignGroup(GrpEnt { occur: None, val: GrpEntVal::Parenthesized(grp(vec![ent(one(t)), ent(one(tn("k")))])) }),
        18 => return RuleVal::AssignGroup(ent(one(t))),
        _ => Type2::Map(grp(vec![GrpEnt { occur: Some(ast::Occur::Optional), val: GrpEntVal::Parenthesized(ast::Group(vec![GrpChoice(vec![keyed(MemberKeyVal::Value(ast::Value::Nint(-1)), b, one(t))]), GrpChoice(vec![])])) }])),
    }))
}
fn text(b: Vec<u8>) -> String {
    for c in &b {
        sym::assume(*c >= 0x20 && *c < 0x7f);
    }
    String::from_utf8(b).unwrap()
}

entries! {
    c33_names "C33" "q" ["same", "refused"] "names of up to 4 arbitrary characters (so that they may be any prelude name of that length), alone, with arguments, unwrapped, made a choice, and as a group name" {
        let n = text(any_bytes(1 + sym::choose(4)));
        let args = match sym::choose(3) {
            0 => vec![],
            1 => vec![Type1::Simple(tn("int"))],
            _ => vec![Type1::Simple(tn("q")), Type1::Simple(Type2::Value(ast::Value::Uint(7)))],
        };
        let g = NameGeneric { name: n.clone(), generic_args: args };
        let v = match sym::choose(4) {
            0 => place_few(Type2::Typename(g)),
            1 => place_few(Type2::Unwrap(g)),
            2 => place_few(Type2::Choiceify(g)),
            _ => RuleVal::AssignType(one(Type2::Map(grp(vec![GrpEnt { occur: None, val: GrpEntVal::Groupname(n) }])))),
        };
        agree(vec![rule("a", v)]);
    }
    c33_prelude "C33" "q" ["same", "refused"] "the 42 names of the prelude and some that differ from them in a letter, in 20 places" {
        let n = pick(&["any", "nil", "null", "bool", "true", "false", "int", "uint", "nint", "tstr", "text", "bstr", "bytes", "float", "float16", "float32", "float64", "float16-32", "float32-64", "tdate", "uri", "b64url", "b64legacy", "regexp",
            "mime-message", "biguint", "bignint", "encoded-cbor", "eb64url", "eb64legacy", "eb16", "cbor-any", "time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined",
            "Any", "NULL", "float8", "float16-64", "byte", "str", "string", "number1", "eb32", "b64", "cbor_any", "uint8", "u64", "boolean", "none", "$any", "float128", "bigInt"]);
        agree(vec![rule("a", place(tn(n)))]);
    }
    c33_values "C33" "q" ["same", "refused"] "literals of arbitrary 64-bit integers, floats, texts and bytes, in 20 places" {
        let v = match sym::choose(5) {
            0 => ast::Value::Uint(sym::u64()),
            1 => ast::Value::Nint(sym::u64() as i64),
            2 => {
                let f = any_float();
                sym::assume(f == f);
                ast::Value::Float(f)
            }
            3 => ast::Value::Text(text(any_bytes(sym::choose(3)))),
            _ => ast::Value::Bytes(any_bytes(sym::choose(3))),
        };
        agree(vec![rule("a", place(Type2::Value(v)))]);
    }
    c33_ops "C33" "q" ["same", "refused"] "9 operators and ranges, of 12 targets and 14 arguments, in 20 places" {
        let arg = |k: usize| match k {
            0 => Type2::Value(ast::Value::Uint(sym::u64())),
            1 => Type2::Value(ast::Value::Nint(sym::u64() as i64)),
            2 => tn("k"),
            3 => tn("uint"),
            4 => tn("bytes"),
            5 => tn("tstr"),
            6 => Type2::Parethesized(Type(vec![Type1::Range(TypeRange { start: Type2::Value(ast::Value::Uint(1)), end: tn("m"), inclusive: sym::choose(2) == 1 })])),
            7 => Type2::Array(grp(vec![ent(one(tn("int")))])),
            8 => Type2::Value(ast::Value::Text(String::from("t"))),
            9 => Type2::Value(ast::Value::Float(1.5)),
            10 => Type2::Parethesized(Type(vec![Type1::Simple(tn("bstr")), Type1::Simple(tn("k"))])),
            11 => Type2::Parethesized(one(tn("bstr"))),
            12 => tn("true"),
            _ => Type2::Unwrap(NameGeneric { name: String::from("k"), generic_args: vec![] }),
        };
        let target = arg([2, 3, 4, 5, 0, 6, 7, 8, 10, 11, 12, 13][sym::choose(12)]);
        let a = arg(sym::choose(14));
        let op = sym::choose(11);
        let t = match op {
            0 => Type1::Range(TypeRange { start: target, end: a, inclusive: true }),
            1 => Type1::Range(TypeRange { start: target, end: a, inclusive: false }),
            _ => Type1::Control(TypeControl { target, arg: a, op: String::from(["size", "lt", "le", "gt", "ge", "bits", "Size", "", "g"][op - 2]) }),
        };
        agree(vec![rule("a", place_few(Type2::Parethesized(Type(vec![t]))))]);
    }
    c33_members "C33" "q" ["same"] "two entries of every occurrence (arbitrary limits), key and body, in arrays, maps, groups and choices from groups, with other alternatives before or after" {
        let e = |k: usize| {
            let occur = match sym::choose(5) {
                0 => None,
                1 => Some(ast::Occur::Optional),
                2 => Some(ast::Occur::ZeroOrMore),
                3 => Some(ast::Occur::OneOrMore),
                _ => Some(ast::Occur::Numbered(sym::u64() as usize, sym::u64() as usize)),
            };
            let v = Type(vec![Type1::Simple(tn("int")), Type1::Simple(tn("k"))]);
            let val = match k {
                0 => GrpEntVal::Groupname(String::from("g")),
                1 => GrpEntVal::Groupname(String::from("tstr")),
                2 => GrpEntVal::Parenthesized(grp(vec![])),
                3 => GrpEntVal::Parenthesized(grp(vec![ent(v)])),
                4 => GrpEntVal::Parenthesized(ast::Group(vec![GrpChoice(vec![ent(v), ent(one(tn("k")))]), GrpChoice(vec![ent(one(tn("nil")))])])),
                5 => GrpEntVal::Member(Member { key: None, value: v }),
                _ => {
                    let key = match k {
                        6 => MemberKeyVal::Bareword(String::from("true")),
                        7 => MemberKeyVal::Value(ast::Value::Text(String::from("k"))),
                        8 => MemberKeyVal::Value(ast::Value::Uint(sym::u64())),
                        9 => MemberKeyVal::Type1(Type1::Simple(tn("true"))),
                        10 => MemberKeyVal::Type1(Type1::Simple(tn("k"))),
                        _ => MemberKeyVal::Type1(Type1::Range(TypeRange { start: tn("k"), end: tn("l"), inclusive: false })),
                    };
                    GrpEntVal::Member(Member { key: Some(MemberKey { val: key, cut: sym::choose(2) == 1 }), value: v })
                }
            };
            GrpEnt { occur, val }
        };
        let k = sym::choose(12);
        let two = vec![e(k), e([0, 5, 7][sym::choose(3)])];
        let g = match sym::choose(3) {
            0 => ast::Group(vec![GrpChoice(two)]),
            1 => ast::Group(vec![GrpChoice(two), GrpChoice(vec![])]),
            _ => ast::Group(vec![GrpChoice(vec![ent(one(tn("nil")))]), GrpChoice(two), GrpChoice(vec![ent(one(tn("k")))])]),
        };
        let v = match sym::choose(5) {
            0 => RuleVal::AssignType(one(Type2::Map(g))),
            1 => RuleVal::AssignType(one(Type2::Array(g))),
            2 => RuleVal::AssignType(one(Type2::ChoiceifyInline(g))),
            3 => RuleVal::AssignGroup(GrpEnt { occur: None, val: GrpEntVal::Parenthesized(g) }),
            _ => RuleVal::AssignGroup(GrpEnt { occur: Some(ast::Occur::Numbered(2, 5)), val: GrpEntVal::Parenthesized(g) }),
        };
        agree(vec![rule("a", v)]);
    }
    c33_rules "C33" "q" ["same"] "one to nine rules, types and groups, with 0 to 9 parameters, in any of several orders" {
        let n = 1 + sym::choose(9);
        let step = [1usize, 2, 4, 5, 7, 8][sym::choose(6)];
        let np = sym::choose(10);
        let mut rules = vec![];
        for i in 0..n {
            let k = if n == 9 { (i * step) % 9 } else { i };
            let name = ["a", "zz", "b-1", "B", "int", "@x", "b", "a-", "a1"][k];
            let val = if (k + np) % 3 == 0 { RuleVal::AssignGroup(ent(one(Type2::Value(ast::Value::Uint(k as u64))))) } else { RuleVal::AssignType(Type(vec![Type1::Simple(tn("k")), Type1::Simple(Type2::Value(ast::Value::Uint(k as u64)))])) };
            let mut ps = vec![];
            for j in 0..(np * (k + 1)) % 10 {
                ps.push(String::from(["t", "u", "int", "a", "T", "v", "p9", "s", "$"][(j * 2 + k) % 9]));
            }
            rules.push(ast::Rule { name: String::from(name), generic_parms: ps, val });
        }
        agree(rules);
    }
    c33_texts "C33" "q" ["same"] "the texts kept with two rules: up to 4 arbitrary ASCII characters, or line ends, tabs, comments and wide characters, before, within and after" {
        let rules = vec![rule("a", RuleVal::AssignType(one(tn("int")))), rule("b", RuleVal::AssignGroup(ent(one(tn("k")))))];
        let mut texts = vec![];
        for i in 0..2 {
            let x = if i == 0 && sym::choose(2) == 0 {
                let b = any_bytes(sym::choose(5));
                for c in &b {
                    sym::assume(*c < 0x80);
                }
                unsafe { String::from_utf8_unchecked(b) }
            } else {
                String::from(pick(&["", "\r\n", "\n\n", "\r", "\t", "  ", "; note\r\n", ";\n", "\u{feff}", "\u{85}\u{a0}", "\u{2028}", "é", "\0", "\"a  b\"", "'x\r\ny'", "\\n", "\u{1f600}"]))
            };
            texts.push(match sym::choose(4) {
                0 => x,
                1 => cat(&["a = ", &x, "int"]),
                2 => cat(&["a = int", &x]),
                _ => cat(&[&x, "a =", &x, &x, "int"]),
            });
        }
        let want = texts.clone();
        let mut texts = texts.into_iter();
        let slice = ast::CddlSlice { rules: rules.into_iter().map(|r| (r, texts.next().unwrap())).collect() };
        match slice_flatten(&slice) {
            Ok(g) => {
                for (r, w) in slice.rules.iter().zip(&want) {
                    sym::check(g.get(&r.0.name).map(|x| x.1.as_bytes() == w.as_bytes()) == Some(true), "its-own-text");
                }
                sym::reach("same");
            }
            Err(_) => sym::check(false, "loads"),
        }
    }
    c33_nested "C33" "q" ["same"] "three levels of nesting in every combination of 10 kinds, and choices, groups and arguments of up to 40" {
        let wrap = |t: Type2, k: usize| match k {
            0 => Type2::Parethesized(one(t)),
            1 => Type2::Parethesized(Type(vec![Type1::Simple(t), Type1::Simple(tn("int"))])),
            2 => Type2::Array(grp(vec![ent(one(t))])),
            3 => Type2::Map(grp(vec![keyed(MemberKeyVal::Bareword(String::from("m")), true, one(t))])),
            4 => Type2::ChoiceifyInline(grp(vec![ent(one(t)), ent(one(tn("x")))])),
            5 => Type2::Typename(NameGeneric { name: String::from("x"), generic_args: vec![Type1::Simple(t)] }),
            6 => Type2::Unwrap(NameGeneric { name: String::from("x"), generic_args: vec![Type1::Simple(t), Type1::Simple(tn("y"))] }),
            7 => Type2::Array(grp(vec![GrpEnt { occur: None, val: GrpEntVal::Parenthesized(grp(vec![ent(one(t)), ent(one(tn("k")))])) }])),
            8 => Type2::Map(grp(vec![keyed(MemberKeyVal::Type1(Type1::Simple(t)), false, one(tn("any")))])),
            _ => Type2::Map(ast::Group(vec![GrpChoice(vec![ent(one(t))]), GrpChoice(vec![ent(one(tn("k")))])])),
        };
        let t = match sym::choose(2) {
            0 => {
                let t = wrap(tn("k"), sym::choose(10));
                let t = wrap(t, sym::choose(10));
                wrap(t, sym::choose(10))
            }
            _ => {
                let n = [2usize, 5, 8, 9, 16, 17, 32, 33, 40][sym::choose(9)];
                let v = |i: usize| Type2::Value(ast::Value::Uint(i as u64));
                match sym::choose(5) {
                    0 => Type2::Parethesized(Type((0..n).map(|i| Type1::Simple(v(i))).collect())),
                    1 => Type2::Array(grp((0..n).map(|i| ent(one(v(i)))).collect())),
                    2 => Type2::Map(ast::Group((0..n).map(|i| GrpChoice(vec![ent(one(v(i)))])).collect())),
                    3 => Type2::Typename(NameGeneric { name: String::from("x"), generic_args: (0..n).map(|i| Type1::Simple(v(i))).collect() }),
                    _ => (0..n).fold(tn("k"), |t, _| Type2::Parethesized(one(t))),
                }
            }
        };
        agree(vec![rule("a", RuleVal::AssignType(one(t)))]);
    }
}

fn place_few(t: Type2) -> RuleVal {
    RuleVal::AssignType(match sym::choose(4) {
        0 => one(t),
        1 => Type(vec![Type1::Simple(tn("nil")), Type1::Simple(t)]),
        2 => one(Type2::Array(grp(vec![ent(one(t))]))),
        _ => one(Type2::Map(grp(vec![keyed(MemberKeyVal::Type1(Type1::Simple(t)), false, one(tn("any")))]))),
    })
}
