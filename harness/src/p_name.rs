//! C12, C13, C16, C17: names, generics, unwrap, schema errors, termination.
use crate::gen::*;
use crate::p_arr::{data, map_data};
use crate::real::*;
use crate::refi::*;
use crate::sym;
use crate::val::*;

fn vals() -> [i128; 3] {
    [sym::u64() as i64 as i128, sym::u64() as i64 as i128, sym::u64() as i64 as i128]
}
fn small() -> V {
    match sym::choose(8) {
        0 => V::Null,
        1 => any_int(),
        2 => t("x"),
        3 => V::Arr(vec![]),
        4 => V::Arr(vec![i64v()]),
        5 => V::Arr(vec![i64v(), t("x")]),
        6 => V::Map(vec![(t("p"), i64v())]),
        _ => V::Map(vec![]),
    }
}
fn wrap(i: usize, v: V) -> V {
    match i {
        1 => V::Arr(vec![v]),
        2 => V::Arr(vec![v.clone(), v]),
        3 => V::Map(vec![(t("k"), v)]),
        4 => V::Map(vec![(v, V::Null)]),
        _ => v,
    }
}
/// Places for a type; the digit is the wrapper of the data.
const TPL: &[(&str, usize)] = &[
    ("a = $", 0),
    ("a = nil / $", 0),
    ("a = [$]", 1),
    ("a = [? $, ? any]", 1),
    ("a = [* $]", 2),
    ("a = [+ $, $]", 2),
    ("a = [($, any)]", 2),
    ("a = [(int, int, int // $)]", 1),
    ("a = [(k: $)]", 1),
    ("a = {k: $}", 3),
    ("a = {? \"k\" ^ => $}", 3),
    ("a = {* tstr => $}", 3),
    ("a = {$ => any}", 4),
    ("a = {* $ => nil}", 4),
    ("a = w<$> w<x> = x", 0),
    ("a = w<nil, $> w<x, y> = [y] / x", 1),
    ("a = [g] g = ($)", 1),
    ("a = {g} g = (k: $)", 3),
    ("a = &(l: $, m: nil)", 0),
    ("a = &g g = (l: $, m: nil)", 0),
    ("a = [~u] u = [$]", 1),
    ("a = {~u} u = {k: $}", 3),
    ("a = [& (l: $)]", 1),
    ("a = [2*2 ($)]", 2),
];
const DEFS: &[&str] = &["int", "7000 .. 7001", "\"x\" / 7002", "[* int]", "[int, ? tstr]", "{p: int}", "{? p: tstr, * any => any}", "tstr .size 1", "int .ge 7000", "any"];

/// Ways of writing a type: in place, by name, through names, generic.
fn spell(i: usize, def: &str) -> (String, String) {
    match i {
        0 => (cat(&["(", def, ")"]), String::new()),
        1 => (String::from("n1"), cat(&["n1 = ", def, "\n"])),
        2 => (String::from("n1"), cat(&["n3 = ", def, "\nn2 = n3\nn1 = n2\n"])),
        3 => (String::from("n1"), cat(&["n1 = n2\nn2 = (n3)\nn3 = ", def, "\n"])),
        4 => (cat(&["id<(", def, ")>"]), String::from("id<y> = y\n")),
        5 => (String::from("id<n1>"), cat(&["id<y> = jd<y>\njd<z> = z\nn1 = ", def, "\n"])),
        _ => (String::from("cn<nil>"), cat(&["cn<y> = ", def, "\n"])),
    }
}
const GTPL: &[&str] = &["a = [$]", "a = [$, ? int]", "a = [? $, * any]", "a = [* $]", "a = [+ $, ? tstr]", "a = [1*2 $]", "a = [($, $)]", "a = [($ // tstr)]", "a = [(nil // $), ? any]", "a = [w] w = $", "a = [h<int>, ? any] h<x> = (x, $)"];
const GDEFS: &[&str] = &["(int, tstr)", "(int, ? tstr)", "(int // tstr)", "(* int)", "((int, int) // tstr)", "(k: int, l: tstr)", "(? int, ? tstr)"];
const MTPL: &[&str] = &["a = {$}", "a = {$, * tstr => any}", "a = {? $, q: int}", "a = {($ // q: int)}", "a = {* $}", "a = {($), ? r: tstr}", "a = {+ $, * any => any}", "a = {w} w = $"];
const MDEFS: &[&str] = &["(p: int, q: int)", "(p: int, ? q: tstr)", "(p: int // q: tstr)", "(* tstr => int)", "(\"p\" => int)", "((p: int, q: int) // r: tstr)", "(? p ^ => int, q: any) p = \"p\""];

const GEN: &[(&str, usize)] = &[
    // parameters do not leak into the rules a body mentions
    ("a = w<tstr> w<x> = [x, y] y = x x = int", 5),
    ("a = w<tstr> w<x> = y / x y = [x] x = int", 4),
    ("a = w<tstr> w<x> = [g] g = (x, ? tstr) x = int", 5),
    ("a = w<tstr> w<x> = [v<int>, x] v<y> = y / x x = nil", 5),
    // arguments are read where they are written
    ("a = w<x> w<y> = v<y> v<x> = [x] x = int", 4),
    ("a = w<x, tstr> w<y, x> = [y, x] x = int", 5),
    ("a = w<int, tstr> w<x, y> = v<y, x> v<x, y> = [y, x]", 5),
    ("a = w<int> w<x> = v<[x]> v<x> = x", 4),
    ("a = w<int> w<x> = v<x, tstr> v<y, x> = [y, x]", 5),
    ("a = w<int> w<x> = v<x> v<y> = u<y> u<x> = [x]", 4),
    ("a = w<x, y> w<y, x> = [x, y] x = tstr y = int", 5),
    ("a = f<int> f<t> = [t, g<tstr>] g<t> = t / h<t> h<u> = [u]", 5),
    ("a = p<o<int>> p<x> = x o<x> = [x]", 4),
    ("a = p<p<p<int>>> p<x> = [? x]", 4),
    // generic groups, and as keys, unwrapped, in choices
    ("a = [g<int>, ? tstr] g<t> = (t, ? t)", 5),
    ("a = [* g<int, tstr>] g<t, u> = (t, u)", 5),
    ("a = {g<int>} g<t> = (p: t)", 6),
    ("a = {g<\"p\", int>} g<k, v> = (k => v)", 6),
    ("a = {k<\"p\"> => int} k<t> = t / nil", 6),
    ("a = [~u<int>, ? tstr] u<t> = [t]", 5),
    ("a = {~u<int>} u<t> = {p: t}", 6),
    ("a = w<u> w<t> = [~t, ? tstr] u = [int]", 5),
    ("a = w<u> w<t> = {~t} u = {p: int}", 6),
    ("a = w<g> w<t> = &t g = (m: int, n: tstr)", 1),
    ("a = w<g> w<t> = [t, ? nil] g = (int, tstr)", 5),
    ("a = w<g> w<t> = {t} g = (p: int)", 6),
    ("a = w<7000, 7001> w<l, h> = l .. h", 1),
    ("a = w<uint, 7000> w<t, n> = t .lt n", 1),
    ("a = w<lim> w<n> = int .ge n lim = 7000", 1),
    ("a = w<int> w<x> = v<x> / [x] v<x> = nil", 4),
    ("a = w<int, x> / [w<x, int>] w<x, y> = [y, ? x] x = tstr", 5),
    ("a = [w<tstr>] / tstr w<x> = [* z] z = x / w<x> x = int", 4),
    // a parameter's own name as argument
    ("a = w<int> w<x> = [v<x>] v<x> = u<x> u<x> = x", 4),
    ("x = [int] a = v<x> v<x> = w<x> w<x> = x", 4),
    // unused parameters are never consulted
    ("a = w<nosuch> w<x> = int", 1),
    ("a = w<int, 1 .. \"b\"> w<x, y> = x", 1),
    ("a = [w<nosuch>] w<x> = nil / [int] / x", 1),
    // names that only look alike
    ("a = w<int> w<x> = X", 1),
    ("a = w<int> w<xy> = x", 1),
    ("a = w<int> w<x> = x1 / tstr", 1),
    ("a = w<int, tstr> w<x, X> = [X, x]", 5),
    ("a = w<int, tstr> w<x, x1> = [x1, x]", 5),
    ("a = w<int, tstr> w<x-1, x_1> = [x_1, x-1]", 5),
    ("a = [W<int>] w<x> = x W<x> = tstr", 5),
    ("a = [w<int>] W<x> = x", 5),
    ("a = [~U] u = [int]", 4),
    ("a = [~U] u = [int] U = [tstr]", 4),
    ("a = &G g = (k: int) G = (k: tstr)", 1),
    ("a = Int", 1),
    ("a = Tstr / INT / int", 1),
    ("a = [int1] int1 = tstr", 5),
    ("a = [uint-x] uint-x = tstr", 5),
    // wrong numbers of arguments
    ("a = w<int> w<x, y> = x", 1),
    ("a = w<int, tstr> w<x> = x", 1),
    ("a = w w<x> = x", 1),
    ("a = i<int> i = int", 1),
    ("a = [* w] w<x> = int", 5),
    ("a = {p: w} w<x> = int", 6),
    ("a = {* w => int} w<x> = tstr", 6),
    ("a = [g] g<x> = (int)", 4),
    ("a = {g<int>} g = (p: int)", 6),
    ("a = [~u] u<x> = [int]", 4),
    ("a = [~u<int>] u = [int]", 4),
    ("a = &g g<x> = (p: int)", 1),
    ("a = w<v> w<x> = x v<y> = y", 1),
    ("a = tstr / w<int> w<x, y> = x", 1),
];

fn any_of(k: usize) -> V {
    match k {
        6 => map_data(),
        4 | 5 => {
            if sym::choose(3) == 0 {
                small()
            } else {
                data(2)
            }
        }
        _ => small(),
    }
}

const UA: &[&str] = &["int, tstr", "* int", "? int, tstr", "int // tstr", "(int, int) // int", "g, ? tstr", "~v", "k: int, l: tstr", "", "2*2 int", "? (int, tstr), int"];
const UATPL: &[&str] = &["a = [$]", "a = [$, ? int]", "a = [int, $]", "a = [? $, * any]", "a = [* $]", "a = [1*2 $, * int]", "a = [($ // int, int)]", "a = [(tstr // $)]", "a = [$, $]", "a = [g2] g2 = ($)", "a = [w<int>] w<x> = [x, $] / tstr", "a = [[$], ? int]"];
const UM: &[&str] = &["p: int", "p: int, q: int", "? p: int, q: tstr", "* tstr => int", "p: int // q: tstr", "(p: int, r: any) // q: any", "gm, ? r: tstr", "~vm", "", "? p ^ => tstr", "\"p\" => any"];
const UMTPL: &[&str] = &["a = {$}", "a = {$, * tstr => any}", "a = {q: int, $}", "a = {? $, * any => any}", "a = {* $}", "a = {($ // q: int)}", "a = {(r: tstr // $), ? p: any}", "a = {$, $}", "a = {g2} g2 = ($)", "a = {+ $, * any => int}"];
const URULES: &str = "\ng = (int, ? int)\nv = [tstr, ? int]\ngm = (q: int)\nvm = {r: any}\np = \"p\"\n";

/// Schema errors, and the rules they need.
const BAD: &[&str] = &["nosuch", "w", "w<int>", "w<int, int, int>", "i<int>", "w<int, nosuch>", "1 .. \"b\"", "1 .. nosuch", "nosuch ... 4", "~ua", "~i", "~nosuch", "&i", "&nosuch", "&w", "float .lt 5", "int .lt nosuch", "int .gt rt", "tstr .size nosuch", "int .size 3",
    "tstr .size rm", "rm .size 3", "nosuch .size 3", "nosuch .lt 5", "i .lt nosuch", "&(x: nosuch)", "&(gx)", "[nosuch]", "{p: nosuch}", "{nosuch => int}", "(nosuch / int)", "(tstr / nosuch)", "rm", "[* nosuch]", "{? nosuch => any}", "[gx]", "{gx}", "{~i}", "[~nosuch]", "[? nosuch]", "gg", "2.5 .. 9", "uint .size (1 .. rt)"];
const BRULES: &str = "\nw<x, y> = x / y\ni = int\nua = [int]\nrt = \"t\"\nrm = nosuch\ngx = (k: nosuch)\ngg = (int, tstr)\n";

const REC: &[&str] = &[
    "a = a",
    "a = b b = c c = a",
    "a = (a)",
    "a = a / int",
    "a = int / a",
    "a = b / int b = a / tstr",
    "a = [a]",
    "a = [? a]",
    "a = [* a]",
    "a = [+ a]",
    "a = [a, a]",
    "a = [* a] / int",
    "a = [2*2 a] / tstr",
    "a = {* tstr => a}",
    "a = {p: a}",
    "a = {? p: a, ? q: a}",
    "a = {a => int}",
    "a = {* a => a}",
    "a = {? a => any, * any => any}",
    "a = w<a> w<x> = x",
    "a = w<int> w<x> = w<x>",
    "a = w<int> w<x> = w<[x]>",
    "a = w<int> w<x> = x / w<[x]>",
    "a = w<int> w<x> = [w<x>] / x",
    "a = w<int> w<x> = v<x> v<x> = w<x>",
    "a = w<int, tstr> w<x, y> = w<y, x>",
    "a = w<a, a> w<x, y> = [x, y] / int",
    "a = b<a> b<x> = [* x]",
    "a = b<a> b<x> = nil / b<x>",
    "x = w<x> w<x> = x a = x",
    "a = ~a",
    "a = [~a]",
    "a = [int, ~a]",
    "a = [? int, ~a]",
    "a = [* ~a]",
    "a = [~b] b = [~a]",
    "a = [? ~b, int] b = [? ~a, tstr]",
    "a = {~a}",
    "a = {? p: int, ~a}",
    "a = {* ~a}",
    "a = {~b} b = c c = a",
    "a = &a",
    "a = &g g = (g)",
    "a = &g g = (x: int, g)",
    "a = &g g = h h = g",
    "a = &g g = (x: a)",
    "a = [g] g = (g)",
    "a = [g] g = (int, g)",
    "a = [g] g = (int // g)",
    "a = [g] g = (? int, g)",
    "a = [* g] g = (? int)",
    "a = [* g] g = (* int)",
    "a = [+ g] g = (* tstr)",
    "a = [* g] g = (* g)",
    "a = [? g] g = (? g)",
    "a = [g] g = h h = g",
    "a = {g} g = (g)",
    "a = {g} g = (p: int, g)",
    "a = {* g} g = (? p: int)",
    "a = {* g} g = (* tstr => int)",
    "a = {+ g, * any => any} g = (? p: int, ? q: int)",
    "a = {g} g = (p: int // g)",
    "a = [* (? int)]",
    "a = [* (* (* int))]",
    "a = [+ (? (? tstr))]",
    "a = [* (? int, ? tstr)]",
    "a = [* ()]",
    "a = [+ (), ? int]",
    "a = {* ()}",
    "a = {* (? p: int)}",
    "a = [* (int // ? tstr)]",
    "a = [* ~u] u = []",
    "a = [* ~u] u = [? int]",
    "a = {* ~u} u = {}",
    "a = [3* (? int), * tstr]",
    "a = {2*3 (* tstr => int)}",
    "a = a .size 3",
    "a = uint .size a",
    "a = tstr .size (1 .. a)",
    "a = a .lt 3",
    "a = int .lt a",
    "a = int .ge b b = a",
    "a = a .. 5",
    "a = 1 .. a",
    "a = b ... b b = b",
    "a = bstr .cbor a",
    "a = bstr .cbor b b = [b] / int",
    "a = w<b> w<x> = x .size 3 b = w<b>",
    "a = [w<int>] w<x> = (x, w<x>)",
    "a = [w<int>] w<x> = (? x, ? w<[x]>)",
    "a = {w<int>} w<x> = (* tstr => w<x>)",
    "a = [~w<int>] w<x> = [? x, ~w<x>]",
    "a = &w<int> w<x> = (p: x, w<x>)",
    "a = [* (a / b)] b = [* (b / a)]",
    "a = {* tstr => b / a} b = {* tstr => a / b}",
    "a = {? (p: a // q: a), * any => any}",
    "a = [18446744073709551615*18446744073709551615 (? int)]",
    "a = [18446744073709551615* int, * any]",
    "a = {18446744073709551615* (? p: any)}",
    "a = -170141183460469231731687303715884105728 .. 5",
    "a = uint .size 18446744073709551615",
    "a = uint .size (0 .. 18446744073709551615)",
    "a = tstr .size (5 ... 0)",
    "a = uint .size (0 ... 0)",
];
/// Nested data.
fn tree(d: usize) -> V {
    match sym::choose(if d == 0 { 2 } else { 7 }) {
        0 => i64v(),
        1 => t("x"),
        2 => V::Arr(vec![]),
        3 => V::Arr(vec![tree(d - 1)]),
        4 => V::Arr(vec![tree(0), tree(d - 1)]),
        5 => V::Map(vec![]),
        _ => V::Map(vec![(t("p"), tree(d - 1))]),
    }
}
/// Schemas whose recursion always consumes data, against which the verdict is known.
const WELL: &[&str] = &["a = [* a] / int", "a = [? a] / tstr", "a = {* tstr => a} / int", "a = {? p: a} / [* a] / 7000", "a = int / [a, ? b] b = tstr / [a]", "a = w<a> w<x> = [* x] / int", "a = [* g] / tstr g = (a, ? int)", "a = {? ~u} / [* a] / int u = {p: a}", "a = &g g = (x: int, y: [* a], z: {* tstr => a})", "a = l<int> l<x> = [? x, ? l<x>] / tstr"];

fn generic_limit(id: &'static str) {
    let r = pick(&["y", "x", "w<y>", "w<x>", "v<y, x>", "v<x, y>", "k", "w<k>", "n<y>", "n<x>", "w<w<y>>", "w<v<x, y>>", "v<w<x>, w<y>>", "m<y>", "m<x>", "q", "w<q>"]);
    let o = pick(&["int .lt $", "int .ge $", "uint .le $", "w<int> .gt $", "v<$, int> .lt $", "uint .size $", "[$]", "$", "int / $", "z<int, $>", "{* $ => any}", "{* z<uint, $> ^ => any}"]);
    let sc = Sch::new(&cat(&["a = b<2, 7>\nb<x, y> = ", &subst(o, r, ""), "\nw<x> = x\nv<x, y> = y\nn<y> = w<y>\nm<x> = v<4, x>\nz<y, x> = y .ge x\nk = 3\nq = kk\nkk = w<5>\n"]));
    let v = V::Int(sym::u64() as i64 as i128);
    let v = match o.as_bytes()[0] {
        b'[' => V::Arr(vec![v]),
        b'{' => V::Map(vec![(v, V::Null)]),
        _ => v,
    };
    sc.agree("a", &v, id);
}
entries! {
    c12_types "C12" "q" ["accepted", "mismatch"] "10 types with arbitrary integer literals, in 24 places, written in place and in 6 other ways (name, chains of names in either order, generic identity, unused parameter): the same outcome, and the reference's" {
        let (tpl, w) = TPL[sym::choose(TPL.len())];
        let def = pick(DEFS);
        let (x, xr) = spell(0, def);
        let (y, yr) = spell(1 + sym::choose(6), def);
        let mut s1 = Sch::new(&cat(&[&subst(tpl, &x, ""), "\n", &xr]));
        let mut s2 = Sch::new(&cat(&[&yr, &subst(tpl, &y, "")]));
        let vs = vals();
        s1.patch(&vs, &[]);
        s2.patch(&vs, &[]);
        let v = wrap(w, small());
        let r2 = run_cbor(&s2.ctx, "a", &v);
        let r1 = s1.agree("a", &v, "definition-in-place");
        sym::check(r1 == r2, "name-is-definition");
    }
    c12_groups "C12" "q" ["accepted", "mismatch"] "7 groups in 11 places in arrays, written in place, named, through two names, generic" {
        let tpl = pick(GTPL);
        let def = pick(GDEFS);
        let (y, yr) = match sym::choose(4) {
            0 => (String::from("n1"), cat(&["n1 = ", def, "\n"])),
            1 => (String::from("n1"), cat(&["n3 = ", def, "\nn1 = n2\nn2 = n3\n"])),
            2 => (String::from("id<n1>"), cat(&["id<x> = (x)\nn1 = ", def, "\n"])),
            _ => (String::from("n1<nil>"), cat(&["n1<q> = ", def, "\n"])),
        };
        let s1 = Sch::new(&subst(tpl, def, ""));
        let s2 = Sch::new(&cat(&[&subst(tpl, &y, ""), "\n", &yr]));
        let v = data(3);
        let r2 = run_cbor(&s2.ctx, "a", &v);
        let r1 = s1.agree("a", &v, "group-in-place");
        sym::check(r1 == r2, "group-name-is-definition");
    }
    c12_map_groups "C12" "q" ["accepted", "mismatch"] "7 groups in 8 places in maps" {
        let tpl = pick(MTPL);
        let def = pick(MDEFS);
        let (d, tail) = if def.ends_with("\"p\"") { ("(? p ^ => int, q: any)", "\np = \"p\"\n") } else { (def, "\n") };
        let (y, yr) = match sym::choose(4) {
            0 => (String::from("n1"), cat(&["n1 = ", d, "\n"])),
            1 => (String::from("n1"), cat(&["n3 = ", d, "\nn1 = n2\nn2 = n3\n"])),
            2 => (String::from("id<n1>"), cat(&["id<x> = (x)\nn1 = ", d, "\n"])),
            _ => (String::from("n1<nil>"), cat(&["n1<z> = ", d, "\n"])),
        };
        let s1 = Sch::new(&cat(&[&subst(tpl, d, ""), tail]));
        let s2 = Sch::new(&cat(&[&subst(tpl, &y, ""), tail, &yr]));
        let v = map_data();
        let r2 = run_cbor(&s2.ctx, "a", &v);
        let r1 = s1.expect("a", &v);
        let r0 = run_cbor(&s1.ctx, "a", &v);
        sym::observe(r2 as u64);
        sym::check(r0 == r2, "map-group-name-is-definition");
        if s1.agree_any_order("a", &v, "map-group-in-place") != 255 {
            sym::check(r1 == r0, "map-group-in-place");
        }
    }
    c12_generics "C12" "q" ["accepted", "mismatch", "error"] "66 schemas with generics: shadowing, arguments naming parameters or rules of the same name, nesting, groups, keys, unwraps, wrong numbers of arguments" {
        let (s, k) = GEN[sym::choose(GEN.len())];
        let mut sc = Sch::new(s);
        let vs = vals();
        sc.patch(&vs, &[]);
        sc.agree("a", &any_of(k), "generic");
    }
    c12_scope "C12" "q" ["accepted", "mismatch"] "every assignment of the names x, y, t to the parameters, arguments and rules of a two-level generic" {
        let n = ["x", "y", "t"];
        let s = cat(&["a = w<", pick(&n), ", ", pick(&n), "> w<", "x, y> = v<", pick(&n), ", ", pick(&n), "> v<t, ", pick(&["x", "y"]), "> = [", pick(&n), ", ", pick(&n), "] x = int y = tstr t = nil"]);
        let sc = Sch::new(&s);
        let e = || match sym::choose(3) {
            0 => i64v(),
            1 => t("x"),
            _ => V::Null,
        };
        let v = V::Arr(vec![e(), e()]);
        sc.agree("a", &v, "generic-scope");
    }
    c12_exact "C12" "q" ["accepted", "mismatch", "error"] "a reference of two arbitrary name characters and a rule of two arbitrary name characters are the same name exactly when all characters are; 12 kinds of reference" {
        let name = || {
            let b = any_bytes(2);
            let al = b[0].is_ascii_alphabetic() || b[0] == b'_' || b[0] == b'@' || b[0] == b'$';
            sym::assume(al && (b[1].is_ascii_alphanumeric() || b[1] == b'_' || b[1] == b'@' || b[1] == b'$'));
            b
        };
        let x = name();
        let y = name();
        let same = x == y;
        let (tpl, def, w) = [("a = ", "int", 0), ("a = [", "int", 1), ("a = [? tstr, ", "(int)", 1), ("a = nil / ", "int", 0), ("a = {k: ", "int", 3), ("a = {* any => ", "int", 4), ("a = tstr / ", "(int)", 0), ("a = &", "(k: int)", 0), ("a = [~", "[int]", 1),
            ("a = {", "(k: int)", 3), ("a = int .gt ", "5", 0), ("a = 5 .. ", "9", 0)][sym::choose(12)];
        let mut s: Vec<u8> = vec![];
        s.extend_from_slice(tpl.as_bytes());
        s.extend_from_slice(&x);
        match *tpl.as_bytes().get(4).unwrap_or(&b' ') {
            b'[' => s.push(b']'),
            b'{' => s.push(b'}'),
            _ => {}
        }
        s.push(b'\n');
        s.extend_from_slice(&y);
        s.extend_from_slice(b" = ");
        s.extend_from_slice(def.as_bytes());
        let s = unsafe { String::from_utf8_unchecked(s) };
        sym::note(&s);
        let c = must_load(&s);
        let v = if w == 4 { V::Map(vec![(V::Null, V::Int(7))]) } else { wrap(w, V::Int(7)) };
        let got = run_cbor(&c, "a", &v);
        sym::observe(got as u64);
        sym::check(got == if same { OK } else { MISSING }, "name-exact");
        let bad = if w == 4 { V::Map(vec![(V::Null, V::Bool(true))]) } else { wrap(w, V::Bool(true)) };
        let got = run_cbor(&c, "a", &bad);
        sym::check(!same || got == MIS, "name-exact-mismatch");
        sym::reach(if same { "accepted" } else { "error" });
        sym::reach("mismatch");
    }
    c12_near "C12" "q" ["accepted", "error"] "a reference and a rule whose names differ in one arbitrary character of three, or are any two of 18 like-looking names" {
        let one = |n: &[u8; 3]| {
            let mut b = n.to_vec();
            b[1] = sym::u8();
            let c = b[1];
            sym::assume(c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'.' || c == b'@' || c == b'$');
            unsafe { String::from_utf8_unchecked(b) }
        };
        const NEAR: &[&str] = &["my-type", "my_type", "my.type", "mytype", "My-type", "MY-TYPE", "my-typ", "my-types", "y-type", "my--type", "$my-type", "$$my-type", "@my-type", "_my-type", "my-type_", "my-type1", "my-type01", "my-$type"];
        let (x, y) = if sym::choose(2) == 0 { (one(b"n?m"), one(b"n?m")) } else { (String::from(pick(NEAR)), String::from(pick(NEAR))) };
        let same = x.as_bytes() == y.as_bytes();
        let (f, b, w) = [("a = ", "", 0), ("a = [", "]", 1), ("a = [? tstr, ", "]", 1), ("a = {k: ", "}", 3), ("a = int .ge ", "", 0), ("a = w<", ">\nw<t> = t", 0), ("a = [~", "]", 1)][sym::choose(7)];
        let def = if f.as_bytes()[f.len() - 1] == b'~' { " = [7]" } else { " = 7" };
        let s = cat(&[f, &x, b, "\n", &y, def]);
        sym::note(&s);
        let c = must_load(&s);
        let got = run_cbor(&c, "a", &wrap(w, V::Int(7)));
        sym::observe(got as u64);
        sym::check(got == if same { OK } else { MISSING }, "name-exact");
        sym::check(cls(&cddl_cat::validate_json_str(&x, &s, "7")) == if !same { MISSING } else if def.len() == 4 { OK } else { MIS }, "root-name-exact");
        sym::reach(if same { "accepted" } else { "error" });
    }
    c12_limits "C12" "q" ["accepted", "mismatch"] "limits, targets, endpoints and sizes given through generics whose parameters have the names of other parameters in scope, against an arbitrary integer" {
        generic_limit("generic-limit");
    }
    c04_generic "C04" "q" ["accepted", "mismatch"] "limits and targets given through generics whose parameters have the names of other parameters in scope, against an arbitrary integer" {
        generic_limit("comparison-generic");
    }
    c12_params "C12" "q" ["accepted", "mismatch"] "generics of 2 to 6 parameters, passed on in rotated or reversed order through one or two levels; each element of the result fits one parameter only" {
        const P: &[&str] = &["p", "q", "r", "s", "t", "u"];
        const A: &[&str] = &["int", "tstr", "nil", "bool", "[]", "{}"];
        let n = 2 + sym::choose(5);
        let rot = sym::choose(n);
        let rev = sym::choose(2) == 1;
        let lv = 1 + sym::choose(2);
        let ix = |i: usize| {
            let j = (i + rot) % n;
            if rev { n - 1 - j } else { j }
        };
        let list = |names: &[&str], f: &dyn Fn(usize) -> usize| {
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push_str(", ");
                }
                s.push_str(names[f(i)]);
            }
            s
        };
        let same = list(P, &|i| i);
        let other = list(P, &ix);
        let mut s = cat(&["a = w<", &list(A, &|i| i), ">\n"]);
        if lv == 1 {
            s.push_str(&cat(&["w<", &same, "> = [", &other, "]\n"]));
        } else {
            s.push_str(&cat(&["v<", &same, "> = [", &same, "]\nw<", &same, "> = v<", &other, ">\n"]));
        }
        let sc = Sch::new(&s);
        let mut d = vec![];
        let wrong = sym::choose(n + 1);
        for i in 0..n {
            let k = if i == wrong { sym::choose(6) } else { ix(i) };
            d.push(match k {
                0 => i64v(),
                1 => t("x"),
                2 => V::Null,
                3 => V::Bool(true),
                4 => V::Arr(vec![]),
                _ => V::Map(vec![]),
            });
        }
        sc.agree("a", &V::Arr(d), "generic-parameters");
    }
    c12_chain "C12" "q" ["accepted", "mismatch"] "chains of 1 to 8 names, written in either order and with other rules among them, to a type, a group, an array, a literal or a generic" {
        const N: &[&str] = &["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8"];
        let n = 1 + sym::choose(8);
        let up = sym::choose(2) == 1;
        let (tpl, def) = [("a = $\n", "7000 / [tstr]"), ("a = [$, ? int]\n", "(int, ? tstr)"), ("a = [~$, ? int]\n", "[int, ? tstr]"), ("a = 7000 .. $\n", "7001"), ("a = int .lt $\n", "7001"), ("a = $ .lt 7001\n", "uint"), ("a = &$\n", "(p: 7000, q: tstr)"), ("a = [$, $]\n", "i<int>")][sym::choose(8)];
        let mut s = subst(tpl, "n0", "");
        for k in 0..n {
            let i = if up { k } else { n - 1 - k };
            s.push_str(N[i]);
            s.push_str(" = ");
            s.push_str(if i + 1 == n { def } else { N[i + 1] });
            s.push_str("\n");
            if k == 2 {
                s.push_str("i<x> = x / nil\nn = tstr\nn10 = nil\n");
            }
        }
        if n < 3 {
            s.push_str("i<x> = x / nil\n");
        }
        let mut sc = Sch::new(&s);
        let vs = vals();
        sc.patch(&vs, &[]);
        let v = match sym::choose(5) {
            0 => i64v(),
            1 => t("x"),
            2 => V::Arr(vec![i64v(), t("x")]),
            3 => V::Arr(vec![t("x")]),
            _ => V::Arr(vec![V::Null, i64v()]),
        };
        sc.agree("a", &v, "name-chain");
    }
    c12_rules "C12" "q" ["accepted", "mismatch"] "any one of 4 to 40 rules, in a schema where each is a different type and refers to its neighbour" {
        let n = [4usize, 8, 9, 16, 17, 33, 40][sym::choose(7)];
        let name = |i: usize, s: &mut String| {
            s.push('n');
            if i >= 10 {
                s.push((b'0' + (i / 10) as u8) as char);
            }
            s.push((b'0' + (i % 10) as u8) as char);
        };
        let mut s = String::new();
        for i in 0..n {
            name(i, &mut s);
            s.push_str(" = ");
            match i % 3 {
                0 => s.push_str("7000"),
                1 => {
                    s.push_str("[* ");
                    name(i - 1, &mut s);
                    s.push_str("]");
                }
                _ => {
                    s.push_str("tstr / ");
                    name(i - 2, &mut s);
                }
            }
            s.push_str("\n");
        }
        let mut sc = Sch::new(&s);
        let vs = vals();
        sc.patch(&vs, &[]);
        let mut q = String::new();
        name([0usize, 1, n / 2, n - 2, n - 1][sym::choose(5)], &mut q);
        let v = match sym::choose(3) {
            0 => i64v(),
            1 => t("x"),
            _ => V::Arr(vec![i64v()]),
        };
        sc.agree(&q, &v, "one-rule-of-many");
    }
    c12_root "C12" "q" ["accepted", "error"] "the rule asked for, of one to three arbitrary name characters, is found exactly when it is the rule's whole name" {
        let n = 1 + sym::choose(3);
        let q = unsafe { String::from_utf8_unchecked(any_bytes(n)) };
        for c in q.as_bytes() {
            sym::assume(*c < 0x80);
        }
        let c = must_load("nm = int\nn = tstr\nn-m = tstr\nNM = tstr\n");
        let got = run_cbor(&c, &q, &V::Int(3));
        let js = cls(&cddl_cat::validate_json_str(&q, "nm = int\nn = tstr\nn-m = tstr\nNM = tstr\n", "3"));
        let want = match q.as_bytes() {
            b"nm" => OK,
            b"n" | b"n-m" | b"NM" => MIS,
            _ => MISSING,
        };
        sym::observe(got as u64);
        sym::check(got == want, "root-name-exact");
        sym::check(js == want, "root-name-exact-json");
        sym::reach(if want == OK { "accepted" } else { "error" });
    }
    c12_order "C12" "q" ["accepted", "mismatch"] "the order in which five rules are written never matters (all 120 orders)" {
        let r = ["a = {g, ? q: w<b>}\n", "g = (p: b)\n", "b = c / nil\n", "c = [* w<int>]\n", "w<x> = x / tstr\n"];
        let mut left = vec![0usize, 1, 2, 3, 4];
        let mut s = String::new();
        while !left.is_empty() {
            let i = left.remove(sym::choose(left.len()));
            s.push_str(r[i]);
        }
        let sc = Sch::new(&s);
        let mut m = vec![];
        match sym::choose(4) {
            0 => {}
            1 => m.push((t("p"), V::Null)),
            2 => m.push((t("p"), data(1))),
            _ => m.push((t("p"), t("x"))),
        }
        if sym::choose(2) == 1 {
            m.push((t("q"), t("x")));
        }
        sc.agree("a", &V::Map(m), "rule-order");
    }

    c13_array "C13" "q" ["accepted", "mismatch"] "~name of 11 array types in 12 places behaves as the members written in place as a group; named directly, through a second name, or generic" {
        let tpl = pick(UATPL);
        let def = pick(UA);
        let (x, xr) = match sym::choose(4) {
            0 => (String::from("~u"), cat(&["u = [", def, "]\n"])),
            1 => (String::from("~ u1"), cat(&["u1 = u2\nu2 = [", def, "]\n"])),
            2 => (String::from("~u<int>"), cat(&["u<z> = [", def, "]\n"])),
            _ => (String::from("~un<u>"), cat(&["un<z> = z\nu = [", def, "]\n"])),
        };
        let s1 = Sch::new(&cat(&[&subst(tpl, &cat(&["(", def, ")"]), ""), URULES]));
        let s2 = Sch::new(&cat(&[&subst(tpl, &x, ""), URULES, &xr]));
        let v = data(3);
        let r2 = run_cbor(&s2.ctx, "a", &v);
        let r1 = s1.agree("a", &v, "members-in-place");
        sym::check(r1 == r2, "unwrap-is-members");
    }
    c13_map "C13" "q" ["accepted", "mismatch"] "the same for maps: 11 map types in 10 places" {
        let tpl = pick(UMTPL);
        let def = pick(UM);
        let (x, xr) = match sym::choose(3) {
            0 => (String::from("~u"), cat(&["u = {", def, "}\n"])),
            1 => (String::from("~u1"), cat(&["u1 = u2\nu2 = {", def, "}\n"])),
            _ => (String::from("~u<int>"), cat(&["u<z> = {", def, "}\n"])),
        };
        let s1 = Sch::new(&cat(&[&subst(tpl, &cat(&["(", def, ")"]), ""), URULES]));
        let s2 = Sch::new(&cat(&[&subst(tpl, &x, ""), URULES, &xr]));
        let v = map_data();
        let r1 = run_cbor(&s1.ctx, "a", &v);
        let r2 = run_cbor(&s2.ctx, "a", &v);
        sym::observe(r2 as u64);
        sym::check(r1 == r2, "unwrap-is-members-map");
        s1.agree_any_order("a", &v, "members-in-place-map");
    }
    c13_generic "C13" "q" ["accepted", "mismatch"] "unwrapping generic containers, with arguments from the surrounding rule, and containers of arbitrary ranges" {
        let s = pick(&["a = [~u<7000>, ? tstr] u<x> = [x, ? x]", "a = w<7000> w<y> = [~u<y>, ? tstr] u<x> = [* x]", "a = [* ~u<7000, 7001>] u<x, y> = [x, y]", "a = w<u> w<y> = [~y, ? int] u = [7000 .. 7001]", "a = [~u<v>] u<x> = [~x, ? tstr] v = [7000 .. 7001, ? int]",
            "a = [~u<tstr>] u<x> = [int, y] y = x x = 7000", "a = [? ~u<7000>, * int] u<x> = [x, x]", "a = [~u<7000> // int, int] u<x> = [x, tstr]"]);
        let mut sc = Sch::new(s);
        let vs = vals();
        sc.patch(&vs, &[]);
        sc.agree("a", &data(3), "unwrap-generic");
    }
    c13_generic_map "C13" "q" ["accepted", "mismatch"] "the same for maps: parameters as keys and values, shadowing names, nested" {
        let s = pick(&["a = {~u<7000>, ? r: tstr} u<x> = {p: x, ? q: x}", "a = w<7000> w<y> = {~u<y>, * tstr => tstr} u<x> = {* tstr => x}", "a = {~u<\"p\", int>, * tstr => any} u<k, v> = {k => v, ? q: v}", "a = w<u> w<y> = {~y, ? q: int} u = {p: 7000 .. 7001}",
            "a = {~u<v>} u<x> = {~x, ? q: tstr} v = {p: 7000 .. 7001, ? r: any}", "a = {~u<tstr>} u<x> = {p: int, ? q: y, * z => any} y = x z = \"r\" x = 7000", "a = {? ~u<7000>, * tstr => any} u<x> = {p: x, q: x}", "a = {~u<7000> // * tstr => tstr} u<x> = {p: x, r: tstr}",
            "x = tstr a = {~u<int>, ? r: x} u<x> = {p: x, ? q: x}", "a = w<tstr> w<x> = {~u<int>, ? r: x} u<x> = {p: x, ? q: x}", "a = w<tstr> w<x> = {~u, ? r: x} u = {p: x, ? q: x} x = 7000", "a = [~u<7000>, * tstr] u<x> = [x, ~v<tstr>] v<x> = [? x]"]);
        let mut sc = Sch::new(s);
        let vs = vals();
        sc.patch(&vs, &[]);
        let v = if s.as_bytes()[4] == b'[' { data(3) } else { map_data() };
        sc.agree_any_order("a", &v, "unwrap-generic-map");
    }
    c13_chain "C13" "q" ["accepted", "mismatch"] "unwrapping through chains of one to three generic aliases that pass their parameters on in other orders and under other names, some of them the same as the caller's" {
        let s = pick(&[
            "a = [~b<int>] b<t> = c<t, tstr> c<u, t> = [u, t]",
            "a = [~b<int>, ? tstr] b<t> = c<tstr, t> c<t, u> = [t, ? u]",
            "a = [~b<int, tstr>] b<x, y> = c<y, x> c<x, y> = d<y, x> d<x, y> = [x, * y]",
            "a = [~b<7000>, * int] b<x> = c<x, 7001> c<y, x> = [y, ? x]",
            "a = [~b<7000, 7001>] b<x, y> = c<y> c<x> = [x, ? x]",
            "a = w<7000> w<t> = [~b<7001>, t] b<t> = c<t> c<u> = [u]",
            "a = w<7000> w<t> = [~b<tstr>, t] b<u> = c c = [t] t = 7001",
            "a = [~b<7000>] b<t> = c<t> c<u> = [u, v<u>] v<t> = t / tstr",
            "a = [? ~b<int>, int] b<t> = c<t, tstr> c<u, t> = [u, t, u]",
            "a = [~b<int> // ~b<tstr>] b<t> = c<t, 7000> c<u, t> = [u, t]",
            "a = [~b<c>] b<x> = x c = d<int> d<x> = [x, ? tstr]",
            "a = [* ~b<int>] b<t> = c<t, tstr> c<u, t> = [u, ? t]",
        ]);
        let mut sc = Sch::new(s);
        let vs = vals();
        sc.patch(&vs, &[]);
        sc.agree("a", &data(3), "unwrap-alias");
    }
    c13_chain_map "C13" "q" ["accepted", "mismatch"] "the same for maps" {
        let s = pick(&[
            "a = {~b<int>} b<t> = c<t, tstr> c<u, t> = {p: u, q: t}",
            "a = {~b<int>, ? r: tstr} b<t> = c<tstr, t> c<t, u> = {p: t, ? q: u}",
            "a = {~b<int, tstr>} b<x, y> = c<y, x> c<x, y> = d<y, x> d<x, y> = {p: x, * tstr => y}",
            "a = {~b<7000>, * tstr => int} b<x> = c<x, 7001> c<y, x> = {p: y, ? q: x}",
            "a = {~b<\"p\">, * tstr => int} b<k> = c<\"q\", k> c<k, l> = {k => int, ? l => tstr}",
            "a = w<7000> w<t> = {~b<7001>, q: t} b<t> = c<t> c<u> = {p: u}",
            "a = w<7000> w<t> = {~b<tstr>, q: t} b<u> = c c = {p: t} t = 7001",
            "a = {? ~b<int>, * any => any} b<t> = c<t, tstr> c<u, t> = {p: u, q: t}",
            "a = {~b<int> // ~b<tstr>} b<t> = c<t, 7000> c<u, t> = {p: u, q: t}",
            "a = {~b<c>} b<x> = x c = d<int> d<x> = {p: x, ? q: tstr}",
        ]);
        let mut sc = Sch::new(s);
        let vs = vals();
        sc.patch(&vs, &[]);
        sc.agree_any_order("a", &map_data(), "unwrap-alias-map");
    }
    c13_param "C13" "q" ["accepted", "mismatch"] "unwrapping a parameter, whose argument uses names that are also parameters or rules, directly, aliased, and through a second generic" {
        let s = pick(&[
            "a = w<x, bool> w<p, x> = {~p, ? k: x} x = {p: 7000, ? q: x2} x2 = tstr",
            "a = w<y, tstr> w<p, x> = {~p, ? q: x} y = {p: x} x = 7000",
            "a = w<y, tstr> w<p, x> = {? ~p, * tstr => x} y = z z = {p: x, ? q: x} x = 7000",
            "a = w<u<7000>, tstr> w<p, x> = {~p, ? r: x} u<x> = {p: x, ? q: p} p = int",
            "a = w<u<x>, tstr> w<p, x> = {~p, ? r: x} u<p> = {p: p} x = 7000",
            "a = v<7000> v<x> = w<u<x>, tstr> w<p, x> = {~p, ? q: x} u<y> = {p: y}",
            "a = v<7000> v<p> = w<{p: p}, tstr> w<p, x> = {~p, ? q: x}",
            "a = w<y, tstr> w<p, x> = [~p, ? x] y = [x, ? p] x = 7000 p = 7001",
            "a = w<y, tstr> w<p, x> = [* ~p, ? x] y = z z = [x] x = 7000",
            "a = w<u<7000>, tstr> w<p, x> = [~p, ? x] u<x> = [x, ? p] p = int",
            "a = w<u<x>, tstr> w<p, x> = [~p, ? x] u<p> = [p, ? x] x = 7000",
            "a = v<7000> v<x> = w<u<x>, tstr> w<p, x> = [~p, ? x] u<y> = [y, ? y]",
            "a = v<7000> v<p> = w<[p], tstr> w<p, x> = [? ~p, ? x]",
            "a = w<x, tstr> w<p, x> = [(~p // x), ? x] x = [7000, p] p = 7001",
            "a = v<7000, tstr> v<x, p> = w<x, p> w<p, x> = [~p2, ? x] p2 = [p, x] p = 7001 x = nil / int",
            "a = w<y, tstr> w<g, x> = [g, ? x] y = [x] x = 7000",
            "a = w<g1, tstr> w<g, x> = [g, ? x] g1 = (x, ? g) x = 7000 g = 7001",
            "a = w<g1, tstr> w<g, x> = {g, ? q: x} g1 = (p: x, ? r: g) x = 7000 g = 7001",
        ]);
        let mut sc = Sch::new(s);
        let vs = vals();
        sc.patch(&vs, &[]);
        let v = if s.as_bytes().contains(&b'{') { map_data() } else { data(3) };
        sc.agree_any_order("a", &v, "unwrap-parameter");
    }
    c13_kind "C13" "q" ["accepted", "mismatch"] "unwrapping something that is not of the enclosing kind of container matches nothing" {
        let x = pick(&["int", "{p: int}", "[int]", "nil", "7", "tstr / int", "[int] / [tstr]", "{* any => any}", "\"x\"", "1 .. 3", "tstr .size 1"]);
        let o = pick(&["", "? ", "* ", "1* "]);
        let tpl = pick(&["a = [$~u, ? int]", "a = {$~u, ? p: int}", "a = [($~u // int)]", "a = {($~u // p: int)}", "a = [$~w] w = u", "a = [g, ? int] g = ($~u)"]);
        let s = cat(&[&subst(tpl, o, ""), "\nu = ", x]);
        let sc = Sch::new(&s);
        let v = if tpl.as_bytes()[4] == b'[' { data(2) } else { map_data() };
        sc.agree("a", &v, "unwrap-kind");
    }

    c16_places "C16" "q" ["error", "accepted", "mismatch"] "43 schema errors in 24 places: the error, of its class, exactly when validation consults it" {
        let (tpl, w) = TPL[sym::choose(TPL.len())];
        let bad = pick(BAD);
        let bad = if bad.as_bytes().contains(&b' ') { cat(&["(", bad, ")"]) } else { String::from(bad) };
        let sc = Sch::new(&cat(&[&subst(tpl, &bad, ""), BRULES]));
        sc.agree("a", &wrap(w, small()), "schema-error");
    }
    c16_around "C16" "q" ["error", "accepted", "mismatch"] "errors next to members that fit or do not: in sequences, choices, group choices, occurrences, keys, cuts and nested groups" {
        let bad = pick(&["nosuch", "w", "i<int>", "(1 .. \"b\")", "&i", "(float .lt 5)", "[nosuch]"]);
        let tpl = ["a = [int, $]", "a = [? int, $]", "a = [(int, $ // int)]", "a = [(tstr // $)]", "a = [* int, ? $]", "a = [? ($, int), * any]", "a = [? (int, $), * any]", "a = [* (tstr / $)]", "a = [(int, (int, $)) // * any]", "a = [+ (int, ? $)]", "a = [g] g = (int // $)",
            "a = [~u, ? int] u = [int, $]", "a = [0*0 $, * any]", "a = {p: $}", "a = {? p: $, * any => any}", "a = {$ => int}", "a = {* $ => any}", "a = {* tstr => int / $}", "a = {p: tstr / $, * any => any}", "a = {(p: $ // p: any)}", "a = {(p: int, q: $ // * any => any)}",
            "a = {? (p: int, $ => int), * any => any}", "a = {~u, * any => any} u = {? p: $}", "a = {g} g = (p: $ // p: int)", "a = {p: int, ? $ => any, * any => any}", "a = {p: any, * tstr => $}", "a = {0*0 p: $, * any => any}",
            "a = {$ ^ => int}", "a = {? $ ^ => any, * any => any}", "a = {* $ ^ => int}", "a = {* (tstr / $) ^ => any}", "a = {* (int / $) ^ => any, * any => any}", "a = {($ ^ => int // * any => any)}"];
        let t0 = tpl[sym::choose(tpl.len())];
        let sc = Sch::new(&cat(&[&subst(t0, bad, ""), BRULES]));
        let v = if t0.as_bytes()[4] == b'[' { data(2) } else { map_data() };
        sc.agree_any_order("a", &v, "schema-error-around");
    }
    c16_entries "C16" "q" ["error", "accepted", "mismatch"] "a member that several entries fit, whose key or value meets a schema error for values of one kind only: maps of 1 to 3 entries with values of 4 kinds" {
        let bad = pick(&["nosuch", "w", "i<int>", "(1 .. \"b\")", "(float .lt 5)"]);
        let m = pick(&["* tstr => tstr / [$]", "* tstr => {k: $} / [$]", "? tstr => [* $] / nil", "+ tstr => [int, ? $]", "* any => tstr / [any, $]", "* tstr ^ => int / [$]", "2* tstr => int / [$]", "* (\"p\" / \"q\") => nil / [$]", "tstr => [$] / {}", "* ([$] / tstr) => int", "? (tstr => [$], tstr => tstr)", "* (tstr => tstr / [$])"]);
        let tpl = pick(&["a = {$, * any => any}", "a = {$}", "a = {($ // * any => any)}", "a = {~u, * any => int} u = {$}", "a = {g, * any => any} g = ($)", "a = {? ($), * any => any}"]);
        let sc = Sch::new(&cat(&[&subst(tpl, &subst(m, bad, ""), ""), BRULES]));
        let n = 1 + sym::choose(3);
        let mut d = vec![];
        for k in &["p", "q", "r"][..n] {
            d.push((t(k), [V::Int(1), t("x"), V::Arr(vec![V::Int(1)]), V::Null][sym::choose(4)].clone()));
        }
        sc.agree_any_order("a", &V::Map(d), "schema-error-entries");
    }
    c16_group_names "C16" "q" ["error"] "missing and misused group and container names" {
        let tpl = pick(&["a = [g] g = (nosuch)", "a = {g} g = (nosuch)", "a = {nosuch}", "a = [~nosuch]", "a = {~nosuch}", "a = {p: int, nosuch}", "a = &(nosuch)", "a = [~u] u = nosuch", "a = {~u} u = nosuch", "a = {(nosuch // p: any)}", "a = {? nosuch}", "a = {* w}", "a = {w<int>}", "a = {i<int>}", "a = [? ~w]", "a = {~w<int>}"]);
        let sc = Sch::new(&cat(&[tpl, BRULES]));
        let c = sc.expect("a", &V::Null);
        let v = match tpl.as_bytes()[4] {
            b'[' => V::Arr(vec![i64v()]),
            b'{' => V::Map(vec![(t("p"), i64v())]),
            _ => i64v(),
        };
        let _ = c;
        sc.agree("a", &v, "group-name-error");
    }
    c16_root "C16" "q" ["error", "accepted", "mismatch"] "asking for a rule: undefined names, generic rules, groups; through the byte and text interfaces" {
        let rule = pick(&["a", "nosuch", "w", "", "int", "A", "a "]);
        let s = "a = int\nw<x> = x\n";
        let neg = sym::choose(2) == 1;
        let d = sym::u8();
        sym::assume(d < 24);
        let b = [if neg { 0x60 } else { d }];
        let got = cls(&cddl_cat::validate_cbor_bytes(rule, s, &b));
        let js = cls(&cddl_cat::validate_json_str(rule, s, if neg { "\"\"" } else { "7" }));
        let want = match rule {
            "a" => if neg { MIS } else { OK },
            "w" => GENERIC,
            _ => MISSING,
        };
        sym::observe(got as u64);
        sym::check(got == want, "root-rule-cbor");
        sym::check(js == want, "root-rule-json");
        sym::reach(match want { OK => "accepted", MIS => "mismatch", _ => "error" });
    }

    c17_recursion "C17" "q" ["ended"] "105 self-referring, empty-repeating and extreme schemas against nested data of depth up to 2: always a verdict or an error, within the instruction budget and the stack" {
        let s = REC[sym::choose(REC.len())];
        sym::note(s);
        let c = match load(s) {
            Ok(c) => c,
            Err(e) => {
                sym::observe(e as u64);
                sym::reach("ended");
                return;
            }
        };
        let v = if sym::choose(4) == 0 { V::Bytes(any_bytes(2)) } else { tree(2) };
        let got = run_cbor(&c, "a", &v);
        sym::observe(got as u64);
        sym::check(got != CUT && got != PARSE, "recursion-outcome");
        sym::reach("ended");
    }
    c17_verdict "C17" "q" ["accepted", "mismatch"] "recursion that consumes data ends in the right verdict: nested data of depth up to 3" {
        let mut sc = Sch::new(pick(WELL));
        let vs = vals();
        sc.patch(&vs, &[]);
        sc.agree("a", &tree(3), "recursive-verdict");
    }
    c17_deep "C17" "q" ["ended"] "data nested up to 60 levels" {
        let s = pick(&["a = [* a] / int", "a = [? a]", "a = {* tstr => a} / int", "a = any", "a = w<a> w<x> = [* x] / {* tstr => x} / int", "a = [? ~u] u = [a]", "a = [g] / int g = (* a)"]);
        sym::note(s);
        let c = must_load(s);
        let n = [1usize, 10, 20, 60][sym::choose(4)];
        let map = sym::choose(2) == 1;
        let mut v = i64v();
        for _ in 0..n {
            v = if map { V::Map(vec![(t("p"), v)]) } else { V::Arr(vec![v]) };
        }
        let got = run_cbor(&c, "a", &v);
        sym::observe(got as u64);
        sym::check(got == OK || got == MIS || schema_err(got), "deep-outcome");
        if n <= 10 {
            sym::check(got == OK || got == MIS, "deep-verdict");
        }
        sym::reach("ended");
    }
}
