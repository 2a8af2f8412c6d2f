//! C31: the syntax tree says what the text says. A tree is built and spelled
//! at the same time; the parser must give the tree back.
use crate::gen::*;
use crate::sym;
use crate::val::*;
use cddl_cat::ast::*;
use cddl_cat::parse_cddl;
use cddl_cat::parser::slice_parse_cddl;

type T = Vec<u8>;

fn put(o: &mut T, s: &str) {
    o.extend_from_slice(s.as_bytes());
}
fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
fn simple(t: Type2) -> Type1 {
    Type1::Simple(t)
}
fn plain(name: &str) -> Type2 {
    Type2::Typename(NameGeneric { name: name.to_string(), generic_args: vec![] })
}
fn one(t: Type2) -> Type {
    Type(vec![simple(t)])
}
fn member(v: Type) -> GrpEnt {
    GrpEnt { occur: None, val: GrpEntVal::Member(Member { key: None, value: v }) }
}

/// A name of one or two characters, any that may stand there.
fn name(o: &mut T) -> String {
    let b = any_bytes(2);
    let al = |c: u8| (c | 0x20).wrapping_sub(b'a') < 26 || c == b'@' || c == b'_' || c == b'$';
    sym::assume(al(b[0]));
    let n = match sym::choose(3) {
        0 => vec![b[0]],
        1 => {
            sym::assume(al(b[1]) || b[1].wrapping_sub(b'0') < 10);
            vec![b[0], b[1]]
        }
        _ => {
            sym::assume(b[1] == b'-' || b[1] == b'.');
            vec![b[0], b[1], b'9']
        }
    };
    o.extend_from_slice(&n);
    text(n)
}
fn digit() -> u8 {
    let d = any_bytes(1)[0];
    sym::assume(d.wrapping_sub(b'0') < 10);
    d
}

const LEAVES: usize = 18;
/// A literal or a name; `free` of arbitrary characters or with one.
fn leaf(o: &mut T, k: usize) -> Type2 {
    match k {
        0 => {
            let d = digit();
            o.extend_from_slice(&[b'4', d]);
            Type2::Value(Value::Uint(40 + (d - b'0') as u64))
        }
        1 => {
            let d = digit();
            o.extend_from_slice(&[b'-', b'1', d]);
            Type2::Value(Value::Nint(-10 - (d - b'0') as i64))
        }
        2 => {
            put(o, "-2.5e1");
            Type2::Value(Value::Float(-25.0))
        }
        3 | 4 => {
            let c = any_bytes(1)[0];
            sym::assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\'' && c != b'\\');
            let q = if k == 3 { b'"' } else { b'\'' };
            o.extend_from_slice(&[q, c, b'y', q]);
            Type2::Value(if k == 3 { Value::Text(text(vec![c, b'y'])) } else { Value::Bytes(vec![c, b'y']) })
        }
        5 => {
            put(o, "h'0aFF'");
            Type2::Value(Value::Bytes(vec![0x0a, 0xff]))
        }
        6 => {
            let name = name(o);
            Type2::Typename(NameGeneric { name, generic_args: vec![] })
        }
        7 => {
            put(o, "0x1F");
            Type2::Value(Value::Uint(31))
        }
        8 => {
            put(o, "b64'_w=='");
            Type2::Value(Value::Bytes(vec![0xff]))
        }
        9 => {
            put(o, "x<int>");
            Type2::Typename(NameGeneric { name: "x".to_string(), generic_args: vec![simple(plain("int"))] })
        }
        10 => {
            put(o, "x<7, y, \"z\">");
            Type2::Typename(NameGeneric {
                name: "x".to_string(),
                generic_args: vec![simple(Type2::Value(Value::Uint(7))), simple(plain("y")), simple(Type2::Value(Value::Text("z".to_string())))],
            })
        }
        11 => {
            put(o, "~ m-1");
            Type2::Unwrap(NameGeneric { name: "m-1".to_string(), generic_args: vec![] })
        }
        12 => {
            put(o, "~m<x<y>>");
            let y = NameGeneric { name: "x".to_string(), generic_args: vec![simple(plain("y"))] };
            Type2::Unwrap(NameGeneric { name: "m".to_string(), generic_args: vec![simple(Type2::Typename(y))] })
        }
        13 => {
            put(o, "& m.1");
            Type2::Choiceify(NameGeneric { name: "m.1".to_string(), generic_args: vec![] })
        }
        14 => {
            put(o, "\"\"");
            Type2::Value(Value::Text(String::new()))
        }
        15 => {
            put(o, "0b101");
            Type2::Value(Value::Uint(5))
        }
        16 => {
            put(o, "-0");
            Type2::Value(Value::Nint(0))
        }
        _ => {
            put(o, "18446744073709551615");
            Type2::Value(Value::Uint(u64::MAX))
        }
    }
}
/// A leaf without arbitrary characters.
fn fixed(o: &mut T, k: usize) -> Type2 {
    let s = ["int", "7", "\"t\"", "g"][k];
    put(o, s);
    match k {
        1 => Type2::Value(Value::Uint(7)),
        2 => Type2::Value(Value::Text("t".to_string())),
        _ => plain(s),
    }
}
fn gap(o: &mut T) {
    put(o, pick(&["", " ", " ; ] ) }\n"]));
}

const OPS: &[&str] = &["..", "...", ".size", ".lt", ".regexp", ".within", ".x-y"];
/// `a op b`
fn operator(a: Type2, op: &str, b: Type2) -> Type1 {
    match op {
        ".." => Type1::Range(TypeRange { start: a, end: b, inclusive: true }),
        "..." => Type1::Range(TypeRange { start: a, end: b, inclusive: false }),
        _ => Type1::Control(TypeControl { target: a, arg: b, op: op[1..].to_string() }),
    }
}

/// An occurrence and what it stands for.
fn occur(o: &mut T, k: usize) -> Option<Occur> {
    let (s, r) = match k {
        0 => return None,
        1 => ("?", Occur::Optional),
        2 => ("* ", Occur::ZeroOrMore),
        3 => ("+", Occur::OneOrMore),
        4 => {
            let d = digit();
            o.extend_from_slice(&[b'1', d, b'*', b' ']);
            return Some(Occur::Numbered(10 + (d - b'0') as usize, usize::MAX));
        }
        5 => ("*3 ", Occur::Numbered(0, 3)),
        6 => ("2*0x10 ", Occur::Numbered(2, 16)),
        _ => {
            let d = digit();
            o.extend_from_slice(&[b'0', b'*', b'1', d, b' ']);
            return Some(Occur::Numbered(0, 10 + (d - b'0') as usize));
        }
    };
    put(o, s);
    Some(r)
}

/// A key before a value: 0 none.
fn key(o: &mut T, k: usize) -> Option<MemberKey> {
    let (val, cut) = match k {
        0 => return None,
        1 => {
            let n = name(o);
            put(o, ": ");
            (MemberKeyVal::Bareword(n), true)
        }
        2 => {
            put(o, "\"k\" :");
            (MemberKeyVal::Value(Value::Text("k".to_string())), true)
        }
        3 => {
            put(o, "-5:");
            (MemberKeyVal::Value(Value::Nint(-5)), true)
        }
        4 | 5 => {
            let l = leaf(o, [0, 3, 6, 9, 11, 13][sym::choose(6)]);
            put(o, if k == 4 { " =>" } else { " ^ => " });
            (MemberKeyVal::Type1(simple(l)), k == 5)
        }
        6 => {
            put(o, "1 .. 5 ^=> ");
            (MemberKeyVal::Type1(operator(Type2::Value(Value::Uint(1)), "..", Type2::Value(Value::Uint(5)))), true)
        }
        7 => {
            put(o, "h'00' : ");
            (MemberKeyVal::Value(Value::Bytes(vec![0])), true)
        }
        8 => {
            put(o, "(int / tstr) => ");
            (MemberKeyVal::Type1(simple(Type2::Parethesized(Type(vec![simple(plain("int")), simple(plain("tstr"))])))), false)
        }
        _ => {
            put(o, "tstr .size 3 =>");
            (MemberKeyVal::Type1(operator(plain("tstr"), ".size", Type2::Value(Value::Uint(3)))), false)
        }
    };
    Some(MemberKey { val, cut })
}

const BODIES: usize = 9;
/// The part of an entry after its occurrence: keys come with a value only.
fn body(o: &mut T, k: usize) -> GrpEntVal {
    match k {
        0..=2 => {
            let key = key(o, [0, 2, 6][k]);
            let v = fixed(o, 0);
            GrpEntVal::Member(Member { key, value: one(v) })
        }
        3 => {
            put(o, "(k: int, 7)");
            let key = Some(MemberKey { val: MemberKeyVal::Bareword("k".to_string()), cut: true });
            let m = GrpEnt { occur: None, val: GrpEntVal::Member(Member { key, value: one(plain("int")) }) };
            GrpEntVal::Parenthesized(Group(vec![GrpChoice(vec![m, member(one(Type2::Value(Value::Uint(7))))])]))
        }
        4 => {
            put(o, "(? int // )");
            let m = GrpEnt { occur: Some(Occur::Optional), val: GrpEntVal::Member(Member { key: None, value: one(plain("int")) }) };
            GrpEntVal::Parenthesized(Group(vec![GrpChoice(vec![m]), GrpChoice(vec![])]))
        }
        5 => {
            put(o, "(int / g)");
            let t = Type(vec![simple(plain("int")), simple(plain("g"))]);
            GrpEntVal::Member(Member { key: None, value: one(Type2::Parethesized(t)) })
        }
        6 => {
            put(o, "int / [g] / 7");
            let a = Type2::Array(Group(vec![GrpChoice(vec![member(one(plain("g")))])]));
            GrpEntVal::Member(Member { key: None, value: Type(vec![simple(plain("int")), simple(a), simple(Type2::Value(Value::Uint(7)))]) })
        }
        7 => {
            put(o, "(int) .. 5");
            let t = operator(Type2::Parethesized(one(plain("int"))), "..", Type2::Value(Value::Uint(5)));
            GrpEntVal::Member(Member { key: None, value: Type(vec![t]) })
        }
        _ => {
            put(o, "()");
            GrpEntVal::Parenthesized(Group(vec![GrpChoice(vec![])]))
        }
    }
}

/// Puts a type2 in a place of its own, as the right side of a rule.
const PLACES: usize = 17;
fn place(o: &mut T, p: usize, f: &mut dyn FnMut(&mut T) -> Type2) -> RuleVal {
    let group = |e: Vec<GrpEnt>| Group(vec![GrpChoice(e)]);
    let ty = match p {
        0 => one(f(o)),
        1 => {
            put(o, "int / ");
            let t = f(o);
            Type(vec![simple(plain("int")), simple(t)])
        }
        2 => {
            let t = f(o);
            put(o, "/int /nil");
            Type(vec![simple(t), simple(plain("int")), simple(plain("nil"))])
        }
        3 | 4 => {
            let op = pick(OPS);
            if p == 3 {
                let t = f(o);
                put(o, &cat(&[" ", op, " x"]));
                Type(vec![operator(t, op, plain("x"))])
            } else {
                put(o, &cat(&["x ", op, " "]));
                let t = f(o);
                Type(vec![operator(plain("x"), op, t)])
            }
        }
        5 => {
            put(o, "(");
            gap(o);
            let t = f(o);
            gap(o);
            put(o, ")");
            one(Type2::Parethesized(one(t)))
        }
        6 => {
            put(o, "[ ");
            let t = f(o);
            put(o, ", int]");
            one(Type2::Array(group(vec![member(one(t)), member(one(plain("int")))])))
        }
        7 => {
            put(o, "[int ");
            let t = f(o);
            put(o, " ]");
            one(Type2::Array(group(vec![member(one(plain("int"))), member(one(t))])))
        }
        8 => {
            put(o, "{k:");
            let t = f(o);
            put(o, "}");
            let key = Some(MemberKey { val: MemberKeyVal::Bareword("k".to_string()), cut: true });
            one(Type2::Map(group(vec![GrpEnt { occur: None, val: GrpEntVal::Member(Member { key, value: one(t) }) }])))
        }
        9 => {
            put(o, "{* ");
            let t = f(o);
            put(o, " => any}");
            let key = Some(MemberKey { val: MemberKeyVal::Type1(simple(t)), cut: false });
            one(Type2::Map(group(vec![GrpEnt { occur: Some(Occur::ZeroOrMore), val: GrpEntVal::Member(Member { key, value: one(plain("any")) }) }])))
        }
        10 => {
            put(o, "w<");
            let t = f(o);
            put(o, ">");
            one(Type2::Typename(NameGeneric { name: "w".to_string(), generic_args: vec![simple(t)] }))
        }
        11 => {
            put(o, "w< int , ");
            let t = f(o);
            put(o, " .. 9 >");
            let t = operator(t, "..", Type2::Value(Value::Uint(9)));
            one(Type2::Typename(NameGeneric { name: "w".to_string(), generic_args: vec![simple(plain("int")), t] }))
        }
        12 => {
            put(o, "&( int, ");
            let t = f(o);
            put(o, ")");
            one(Type2::ChoiceifyInline(group(vec![member(one(plain("int"))), member(one(t))])))
        }
        13 => {
            put(o, "[+ (");
            let t = f(o);
            put(o, ")]");
            let v = GrpEntVal::Member(Member { key: None, value: one(Type2::Parethesized(one(t))) });
            one(Type2::Array(group(vec![GrpEnt { occur: Some(Occur::OneOrMore), val: v }])))
        }
        14 => {
            put(o, "[int // ");
            let t = f(o);
            put(o, "]");
            one(Type2::Array(Group(vec![GrpChoice(vec![member(one(plain("int")))]), GrpChoice(vec![member(one(t))])])))
        }
        15 => {
            put(o, "(int, ");
            let t = f(o);
            put(o, ")");
            return RuleVal::AssignGroup(GrpEnt { occur: None, val: GrpEntVal::Parenthesized(group(vec![member(one(plain("int"))), member(one(t))])) });
        }
        _ => {
            put(o, "? ");
            let t = f(o);
            return RuleVal::AssignGroup(GrpEnt { occur: Some(Occur::Optional), val: GrpEntVal::Member(Member { key: None, value: one(t) }) });
        }
    };
    RuleVal::AssignType(ty)
}

/// The parsers give these rules, in this order, for `text`; the second
/// also the text of each, which is that between the given positions, if
/// need be with the layout behind it.
fn gives(s: Vec<u8>, rules: Vec<Rule>, spans: &[(usize, usize)]) {
    let s = text(s);
    sym::note(&s);
    match parse_cddl(&s) {
        Err(_) => sym::check(false, "parsed"),
        Ok(c) => sym::check(c.rules == rules, "the-tree-written"),
    }
    match slice_parse_cddl(&s) {
        Err(_) => sym::check(false, "parsed-with-text"),
        Ok(c) => {
            sym::check(c.rules.len() == rules.len(), "as-many-rules");
            for (i, (r, t)) in c.rules.iter().enumerate() {
                sym::check(*r == rules[i], "the-tree-written-with-text");
                // layout after the rule may be in its text, another rule not
                let (from, end) = (spans[i].0, spans[i].0 + t.len());
                let limit = if i + 1 < spans.len() { spans[i + 1].0 } else { s.len() };
                sym::check(end >= spans[i].1 && end <= limit, "the-text-of-one-rule");
                sym::check(t.as_bytes() == &s.as_bytes()[from..end.min(s.len())], "the-text-of-the-rule");
            }
        }
    }
    sym::observe(rules.len() as u64);
    sym::reach("parsed");
}
fn rule_a(mut o: T, val: RuleVal) {
    let n = o.len();
    put(&mut o, "\n");
    gives(o, vec![Rule { name: "a".to_string(), generic_parms: vec![], val }], &[(0, n)]);
}

/// Two entries in a bracket; of `both` or of one any sort.
fn two_entries(both: bool) {
    let mut o = b"a =".to_vec();
    let k = sym::choose(4);
    put(&mut o, ["[", " {", "& (", " ( "][k]);
    let full = if both { 2 } else { sym::choose(2) };
    let entry = |o: &mut T, i: usize| {
        let occ = occur(o, if both || i == full { sym::choose(8) } else { [0, 2, 7][sym::choose(3)] });
        let val = body(o, if both || i == full { sym::choose(BODIES) } else { [0, 1, 4, 6][sym::choose(4)] });
        GrpEnt { occur: occ, val }
    };
    let x = entry(&mut o, 0);
    let s = sym::choose(5);
    put(&mut o, [", ", " ", " , ;\n", " // ", "//"][s]);
    let y = entry(&mut o, 1);
    let g = if s < 3 { Group(vec![GrpChoice(vec![x, y])]) } else { Group(vec![GrpChoice(vec![x]), GrpChoice(vec![y])]) };
    put(&mut o, ["]", ",}", " )", ")"][k]);
    let v = match k {
        0 => RuleVal::AssignType(one(Type2::Array(g))),
        1 => RuleVal::AssignType(one(Type2::Map(g))),
        2 => RuleVal::AssignType(one(Type2::ChoiceifyInline(g))),
        _ => RuleVal::AssignGroup(GrpEnt { occur: None, val: GrpEntVal::Parenthesized(g) }),
    };
    rule_a(o, v);
}

entries! {
    c31_leaf "C31" "q" ["parsed"] "18 sorts of literal, name and reference, with arbitrary characters, in 17 places" {
        let mut o = b"a = ".to_vec();
        let k = sym::choose(LEAVES);
        let v = place(&mut o, sym::choose(PLACES), &mut |o| leaf(o, k));
        rule_a(o, v);
    }
    c31_entries "C31" "q" ["parsed"] "arrays, maps, & groups and parenthesised groups of two entries: one of 8 occurrences x 9 bodies, the other of 3 x 4, with and without comma, in one alternative or two" {
        two_entries(false);
    }
    c31_keys "C31" "q" ["parsed"] "9 forms of key with arbitrary characters, behind 8 occurrences, before values of 4 sorts, alone, first and last, and as a rule without parentheses" {
        let mut o = b"a = ".to_vec();
        let w = sym::choose(5);
        put(&mut o, ["{", "{int => nil, ", "[", "", "[g // "][w]);
        let occ = occur(&mut o, sym::choose(8));
        let k = key(&mut o, 1 + sym::choose(9));
        let v = fixed(&mut o, sym::choose(4));
        put(&mut o, " / ");
        let u = fixed(&mut o, 0);
        let e = GrpEnt { occur: occ, val: GrpEntVal::Member(Member { key: k, value: Type(vec![simple(v), simple(u)]) }) };
        let n = || GrpEnt {
            occur: None,
            val: GrpEntVal::Member(Member { key: Some(MemberKey { val: MemberKeyVal::Type1(simple(plain("int"))), cut: false }), value: one(plain("nil")) }),
        };
        let val = match w {
            0 => {
                put(&mut o, " int => nil }");
                RuleVal::AssignType(one(Type2::Map(Group(vec![GrpChoice(vec![e, n()])]))))
            }
            1 => {
                put(&mut o, "}");
                RuleVal::AssignType(one(Type2::Map(Group(vec![GrpChoice(vec![n(), e])]))))
            }
            2 => {
                put(&mut o, ",int]");
                RuleVal::AssignType(one(Type2::Array(Group(vec![GrpChoice(vec![e, member(one(plain("int")))])]))))
            }
            3 => RuleVal::AssignGroup(e),
            _ => {
                put(&mut o, " // ]");
                RuleVal::AssignType(one(Type2::Array(Group(vec![GrpChoice(vec![member(one(plain("g")))]), GrpChoice(vec![e]), GrpChoice(vec![])]))))
            }
        };
        rule_a(o, val);
    }
    c31_nested "C31" "q" ["parsed"] "types three brackets deep, each of 8 sorts, round 4 sorts of leaf" {
        fn down(o: &mut T, d: u32) -> Type2 {
            if d == 0 {
                return fixed(o, sym::choose(4));
            }
            let k = sym::choose(8);
            put(o, ["(", "[", "{", "&(", "w<", "(nil /", "[* (7, ", "{k: "][k]);
            let t = down(o, d - 1);
            put(o, [")", "]", "}", ")", ">", ")", ")]", "}"][k]);
            let group = |e: Vec<GrpEnt>| Group(vec![GrpChoice(e)]);
            match k {
                0 => Type2::Parethesized(one(t)),
                1 => Type2::Array(group(vec![member(one(t))])),
                2 => Type2::Map(group(vec![member(one(t))])),
                3 => Type2::ChoiceifyInline(group(vec![member(one(t))])),
                4 => Type2::Typename(NameGeneric { name: "w".to_string(), generic_args: vec![simple(t)] }),
                5 => Type2::Parethesized(Type(vec![simple(plain("nil")), simple(t)])),
                6 => {
                    let v = GrpEntVal::Parenthesized(group(vec![member(one(Type2::Value(Value::Uint(7)))), member(one(t))]));
                    Type2::Array(group(vec![GrpEnt { occur: Some(Occur::ZeroOrMore), val: v }]))
                }
                _ => {
                    let key = Some(MemberKey { val: MemberKeyVal::Bareword("k".to_string()), cut: true });
                    Type2::Map(group(vec![GrpEnt { occur: None, val: GrpEntVal::Member(Member { key, value: one(t) }) }]))
                }
            }
        }
        let mut o = b"a = ".to_vec();
        let t = down(&mut o, 3);
        rule_a(o, RuleVal::AssignType(one(t)));
    }
    c31_operators "C31" "q" ["parsed"] "ranges and control operators of 7 sorts and an arbitrary letter between any two of 18 leaves" {
        let mut o = b"a = ".to_vec();
        let a = leaf(&mut o, sym::choose(LEAVES));
        put(&mut o, " ");
        let k = sym::choose(OPS.len() + 1);
        let op = if k < OPS.len() {
            OPS[k].to_string()
        } else {
            let c = any_bytes(1)[0];
            sym::assume((c | 0x20).wrapping_sub(b'a') < 26);
            text(vec![b'.', c])
        };
        put(&mut o, &op);
        gap(&mut o);
        // a digit would belong to a control operator's name
        put(&mut o, " ");
        let b = leaf(&mut o, sym::choose(LEAVES));
        rule_a(o, RuleVal::AssignType(Type(vec![operator(a, &op, b)])));
    }
    c31_rules "C31" "q" ["parsed"] "one to four rules of 6 sorts in any order, with up to three parameters, an arbitrary name, and other layouts between them" {
        let n = 1 + sym::choose(4);
        let mut o: T = pick(&["", " ", "; a = int\n"]).as_bytes().to_vec();
        let sep = pick(&["\n", " ", "\r\n; b = tstr\n"]);
        let mut rules = vec![];
        let mut spans = vec![];
        let odd = sym::choose(n);
        for i in 0..n {
            let from = o.len();
            let nm = if i == odd {
                name(&mut o)
            } else {
                put(&mut o, ["d", "c", "b", "a"][i]);
                ["d", "c", "b", "a"][i].to_string()
            };
            let k = if n > 2 && i != odd { (i + n) % 6 } else { sym::choose(6) };
            put(&mut o, ["= ", " =", "<t> = ", "<u, t>=", "< v , u, t > = ", "="][k]);
            let parms: &[&str] = [&[][..], &[], &["t"], &["u", "t"], &["v", "u", "t"], &[]][k];
            let val = match k {
                1 => {
                    put(&mut o, "(k: int, t)");
                    let key = Some(MemberKey { val: MemberKeyVal::Bareword("k".to_string()), cut: true });
                    let m = GrpEnt { occur: None, val: GrpEntVal::Member(Member { key, value: one(plain("int")) }) };
                    RuleVal::AssignGroup(GrpEnt { occur: None, val: GrpEntVal::Parenthesized(Group(vec![GrpChoice(vec![m, member(one(plain("t")))])])) })
                }
                5 => {
                    put(&mut o, "\"x\" / d");
                    RuleVal::AssignType(Type(vec![simple(Type2::Value(Value::Text("x".to_string()))), simple(plain("d"))]))
                }
                _ => {
                    put(&mut o, "[t]");
                    RuleVal::AssignType(one(Type2::Array(Group(vec![GrpChoice(vec![member(one(plain("t")))])]))))
                }
            };
            spans.push((from, o.len()));
            put(&mut o, sep);
            rules.push(Rule { name: nm, generic_parms: parms.iter().map(|s| s.to_string()).collect(), val });
        }
        gives(o, rules, &spans);
    }
    c31_limits "C31" "q" ["parsed"] "n*m, n* and *m of up to two arbitrary digits each, or of a limit of 32 or 64 bits, before members of 4 sorts in 4 brackets" {
        fn limit(o: &mut T) -> usize {
            const W: &[&str] = &["4294967295", "4294967296", "18446744073709551615", "0xff", "0b0", "9007199254740993"];
            const N: &[usize] = &[u32::MAX as usize, 1 << 32, usize::MAX, 255, 0, 9007199254740993];
            match sym::choose(3) {
                0 => {
                    let d = digit();
                    o.push(d);
                    (d - b'0') as usize
                }
                1 => {
                    let (d, e) = (digit(), digit());
                    sym::assume(d > b'0');
                    o.extend_from_slice(&[d, e]);
                    (d - b'0') as usize * 10 + (e - b'0') as usize
                }
                _ => {
                    let k = sym::choose(W.len());
                    put(o, W[k]);
                    N[k]
                }
            }
        }
        let mut o = b"a = ".to_vec();
        let k = sym::choose(4);
        put(&mut o, ["[", "{", "[int, ", "&("][k]);
        let form = sym::choose(3);
        let n = if form < 2 { limit(&mut o) } else { 0 };
        put(&mut o, "*");
        let m = if form != 1 { limit(&mut o) } else { usize::MAX };
        put(&mut o, " ");
        let v = match sym::choose(4) {
            0 => {
                put(&mut o, "int");
                GrpEntVal::Member(Member { key: None, value: one(plain("int")) })
            }
            1 => {
                put(&mut o, "k: 7");
                let key = Some(MemberKey { val: MemberKeyVal::Bareword("k".to_string()), cut: true });
                GrpEntVal::Member(Member { key, value: one(Type2::Value(Value::Uint(7))) })
            }
            2 => {
                put(&mut o, "(int, g)");
                GrpEntVal::Parenthesized(Group(vec![GrpChoice(vec![member(one(plain("int"))), member(one(plain("g")))])]))
            }
            _ => {
                put(&mut o, "8 => g");
                let key = Some(MemberKey { val: MemberKeyVal::Type1(simple(Type2::Value(Value::Uint(8)))), cut: false });
                GrpEntVal::Member(Member { key, value: one(plain("g")) })
            }
        };
        let e = GrpEnt { occur: Some(Occur::Numbered(n, m)), val: v };
        let g = Group(vec![GrpChoice(if k == 2 { vec![member(one(plain("int"))), e] } else { vec![e] })]);
        put(&mut o, ["]", "}", "]", ")"][k]);
        let t = match k {
            1 => Type2::Map(g),
            3 => Type2::ChoiceifyInline(g),
            _ => Type2::Array(g),
        };
        rule_a(o, RuleVal::AssignType(one(t)));
    }
    c31_alternatives "C31" "q" ["parsed"] "one to four alternatives, each of 7 sorts, as a rule, in parentheses, as a member's value and as a key" {
        let mut o = b"a = ".to_vec();
        let w = sym::choose(4);
        put(&mut o, ["", "(", "{k: ", "{ ("][w]);
        let n = 1 + sym::choose(4);
        let mut ts = vec![];
        for i in 0..n {
            if i > 0 {
                put(&mut o, "/");
            }
            let k = sym::choose(7);
            put(&mut o, ["int", "\"x\"", "(int / nil)", "(g)", "1..5", "((7/8)/9)", "[int // g]"][k]);
            let seven = |n: u64| simple(Type2::Value(Value::Uint(n)));
            ts.push(match k {
                0 => simple(plain("int")),
                1 => simple(Type2::Value(Value::Text("x".to_string()))),
                2 => simple(Type2::Parethesized(Type(vec![simple(plain("int")), simple(plain("nil"))]))),
                3 => simple(Type2::Parethesized(one(plain("g")))),
                4 => operator(Type2::Value(Value::Uint(1)), "..", Type2::Value(Value::Uint(5))),
                5 => simple(Type2::Parethesized(Type(vec![simple(Type2::Parethesized(Type(vec![seven(7), seven(8)]))), seven(9)]))),
                _ => simple(Type2::Array(Group(vec![GrpChoice(vec![member(one(plain("int")))]), GrpChoice(vec![member(one(plain("g")))])]))),
            });
        }
        put(&mut o, ["", ")", "}", ") => int}"][w]);
        let t = Type(ts);
        let map = |e: Member| one(Type2::Map(Group(vec![GrpChoice(vec![GrpEnt { occur: None, val: GrpEntVal::Member(e) }])])));
        let t = match w {
            0 => t,
            1 => one(Type2::Parethesized(t)),
            2 => map(Member { key: Some(MemberKey { val: MemberKeyVal::Bareword("k".to_string()), cut: true }), value: t }),
            _ => map(Member { key: Some(MemberKey { val: MemberKeyVal::Type1(simple(Type2::Parethesized(t))), cut: false }), value: one(plain("int")) }),
        };
        rule_a(o, RuleVal::AssignType(t));
    }
    c31_many "C31" "q" ["parsed"] "9 to 300 alternatives, entries, group alternatives, arguments, parameters or rules: all of them, in order" {
        let n = [9, 17, 33, 100, 256, 300][sym::choose(6)];
        let k = sym::choose(6);
        let names: Vec<String> = (0..n).map(|i| if i < 100 { text(vec![b'p' + (i % 10) as u8, b'0' + (i / 10) as u8]) } else { text(vec![b'p' + (i % 10) as u8, b'0' + (i / 10 % 10) as u8, b'a' + (i / 100) as u8]) }).collect();
        let mut o = b"a = ".to_vec();
        if k == 5 {
            let mut rules = vec![];
            let mut spans = vec![];
            let mut o = vec![];
            for s in names.iter().rev() {
                let from = o.len();
                put(&mut o, &cat(&[s, " = [int, ", s, "]"]));
                spans.push((from, o.len()));
                put(&mut o, "\n");
                let t = Type2::Array(Group(vec![GrpChoice(vec![member(one(plain("int"))), member(one(plain(s)))])]));
                rules.push(Rule { name: s.to_string(), generic_parms: vec![], val: RuleVal::AssignType(one(t)) });
            }
            gives(o, rules, &spans);
            return;
        }
        if k == 4 {
            let mut o = b"a<".to_vec();
            for (i, s) in names.iter().enumerate() {
                put(&mut o, if i > 0 { "," } else { "" });
                put(&mut o, s);
            }
            put(&mut o, "> = p0");
            let e = o.len();
            gives(o, vec![Rule { name: "a".to_string(), generic_parms: names, val: RuleVal::AssignType(one(plain("p0"))) }], &[(0, e)]);
            return;
        }
        put(&mut o, ["", "[", "[", "w<"][k]);
        for (i, s) in names.iter().enumerate() {
            if i > 0 {
                put(&mut o, [" / ", ", ", " // ", ", "][k]);
            }
            put(&mut o, s);
        }
        put(&mut o, ["", "]", "]", ">"][k]);
        let t = match k {
            0 => Type(names.iter().map(|s| simple(plain(s))).collect()),
            1 => one(Type2::Array(Group(vec![GrpChoice(names.iter().map(|s| member(one(plain(s)))).collect())]))),
            2 => one(Type2::Array(Group(names.iter().map(|s| GrpChoice(vec![member(one(plain(s)))])).collect()))),
            _ => one(Type2::Typename(NameGeneric { name: "w".to_string(), generic_args: names.iter().map(|s| simple(plain(s))).collect() })),
        };
        rule_a(o, RuleVal::AssignType(t));
    }
    c31_listed "C31" "q" ["parsed"] "4 to 40 alternatives as an array's member, after another, as a member's value, as a key, under an occurrence, in parentheses, in an & group and as a group rule: all of them, in order" {
        let n = [4, 5, 6, 7, 8, 9, 12, 16, 40][sym::choose(9)];
        let k = sym::choose(9);
        let names: Vec<String> = (0..n).map(|i| text(vec![b'p' + (i * 7 % 10) as u8, b'0' + (i / 10) as u8])).collect();
        let mut o = b"a = ".to_vec();
        put(&mut o, ["[", "[int, ", "{k: ", "{(", "[* ", "(", "&(", "[(int, ", "{1 ^ => "][k]);
        for (i, s) in names.iter().enumerate() {
            put(&mut o, if i > 0 { [" / ", "/"][i % 2] } else { "" });
            put(&mut o, s);
        }
        put(&mut o, ["]", "]", "}", ") => int}", "]", ")", ")", ")]", "}"][k]);
        let t = Type(names.iter().map(|s| simple(plain(s))).collect());
        let keyed = |val: MemberKeyVal, cut: bool, value: Type| GrpEnt { occur: None, val: GrpEntVal::Member(Member { key: Some(MemberKey { val, cut }), value }) };
        let g = |es: Vec<GrpEnt>| Group(vec![GrpChoice(es)]);
        let t = match k {
            0 => one(Type2::Array(g(vec![member(t)]))),
            1 => one(Type2::Array(g(vec![member(one(plain("int"))), member(t)]))),
            2 => one(Type2::Map(g(vec![keyed(MemberKeyVal::Bareword("k".to_string()), true, t)]))),
            3 => one(Type2::Map(g(vec![keyed(MemberKeyVal::Type1(simple(Type2::Parethesized(t))), false, one(plain("int")))]))),
            4 => one(Type2::Array(g(vec![GrpEnt { occur: Some(Occur::ZeroOrMore), val: GrpEntVal::Member(Member { key: None, value: t }) }]))),
            5 => one(Type2::Parethesized(t)),
            6 => one(Type2::ChoiceifyInline(g(vec![member(t)]))),
            7 => one(Type2::Array(g(vec![GrpEnt { occur: None, val: GrpEntVal::Parenthesized(g(vec![member(one(plain("int"))), member(t)])) }]))),
            _ => one(Type2::Map(g(vec![keyed(MemberKeyVal::Type1(simple(Type2::Value(Value::Uint(1)))), true, t)]))),
        };
        rule_a(o, RuleVal::AssignType(t));
    }
    c31_entries_both "C31" "t" ["parsed"] "as c31_entries, with 8 occurrences x 9 bodies in both entries" {
        two_entries(true);
    }
}
