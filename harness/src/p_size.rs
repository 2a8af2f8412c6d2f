//! The same guarantees at sizes far beyond ordinary use: hundreds to tens of
//! thousands of elements, entries, characters, rules and alternatives.
use crate::gen::*;
use crate::p_lit::text_of;
use crate::real::*;
use crate::sym;
use crate::val::*;

pub fn dec(mut n: usize) -> String {
    let mut d = vec![];
    loop {
        d.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    d.reverse();
    text_of(d)
}
fn size() -> usize {
    [64usize, 65, 100, 128, 255, 256, 257, 300, 1000][sym::choose(9)]
}
/// (Maps are compared with a reference that takes the square of their size.)
fn map_size() -> usize {
    [64usize, 100, 128, 256, 257][sym::choose(5)]
}
/// A place among `n`.
fn place(n: usize) -> usize {
    let p = [0usize, 1, n / 2, n - 2, n - 1, 63, 64, 127, 128, 255, 256][sym::choose(11)];
    sym::assume(p < n);
    p
}
fn odd() -> V {
    match sym::choose(4) {
        0 => any_int(),
        1 => t("x"),
        2 => V::Null,
        _ => V::Arr(vec![V::Int(1)]),
    }
}
fn numbers(n: usize) -> Vec<V> {
    (0..n).map(|i| V::Int(i as i128)).collect()
}
fn list(n: usize, sep: &str) -> String {
    let mut s = vec![];
    for i in 0..n {
        if i > 0 {
            s.extend_from_slice(sep.as_bytes());
        }
        s.extend_from_slice(dec(i).as_bytes());
    }
    text_of(s)
}
fn fill(n: usize, c: u8) -> Vec<u8> {
    vec![c; n]
}

entries! {
    c07_huge "C07" "q" ["accepted", "mismatch"] "arrays of 64 to 1000 elements, one of them, at any of 11 places, arbitrary or of another kind" {
        let sc = Sch::new(pick(&["a = [* int]", "a = [+ (int / tstr)]", "a = [* int, tstr, * uint]", "a = [* g]\ng = (int, ? tstr)", "a = [* (uint, int)]", "a = [* ~b]\nb = [int, ? nil, int]", "a = [0, 1, * int, ? [* int], * any]"]));
        let n = size();
        let mut v = numbers(n);
        v[place(n)] = odd();
        sc.agree("a", &V::Arr(v), "wide-array");
    }
    c08_huge "C08" "q" ["accepted", "mismatch"] "maps of 64 to 257 entries, the key or value of one of them, at any of 11 places, arbitrary or of another kind" {
        let sc = Sch::new(pick(&["a = {* int => int}", "a = {+ int => int / tstr}", "a = {? 64: tstr, * uint => int}", "a = {* g, * any => any}\ng = (int => int)", "a = {* tstr => any, * int => uint}", "a = {0: 0, 1: 1, * uint => uint, ? tstr => int}",
            "a = {tstr ^ => int / tstr, * uint => any}", "a = {? nil ^ => int, ? tstr ^ => any, * uint => int}", "a = {(200..400) ^ => int, * any => any}", "a = {120*400 (0..300 ^ => any), * any => any}"]));
        let n = map_size();
        let mut m: Vec<(V, V)> = numbers(n).into_iter().map(|v| (v.clone(), v)).collect();
        let at = place(n);
        match sym::choose(3) {
            0 => m[at].1 = odd(),
            1 => m[at].0 = t("x"),
            _ => m[at].0 = V::Null,
        }
        sc.agree_any_order("a", &V::Map(m), "wide-map");
    }
    c09_huge "C09" "q" ["accepted", "mismatch"] "maps of 64 to 257 entries, one with a value of another kind, against cutting and non-cutting members" {
        let sc = Sch::new(pick(&["a = {* uint ^ => int, * any => any}", "a = {* uint => int, * any => any}", "a = {* g}\ng = (uint ^ => int // int => tstr)", "a = {0: int, 255: int, 256: int, * any => any}", "a = {? 64 ^ => int, ? 255 ^ => int, * any => any}"]));
        let n = map_size();
        let mut m: Vec<(V, V)> = numbers(n).into_iter().map(|v| (v.clone(), v)).collect();
        let at = place(n);
        m[at].1 = odd();
        sc.agree_any_order("a", &V::Map(m), "wide-cut");
    }
    c10_huge "C10" "q" ["accepted", "mismatch"] "groups that fail after taking up to 1000 elements or 257 entries: all of them are there for what follows" {
        let tpl = pick(&["a = [(* uint, nil) // (* int)]", "a = [(* uint, nil) // (0, 1, * int)]", "a = [? (* (uint, ? bool), nil), * (0 / int)]", "a = [* (* uint, nil), * uint, ? int, * uint]", "a = [~b // (* any)]\nb = [* uint, nil]", "a = [600*700 uint // 0, * any]",
            "a = {(* uint => uint, nil => any) // (* int => int)}", "a = {? (* uint => uint, \"x\" => nil), * int => any}", "a = {~b // (* any => uint)}\nb = {* uint => any, \"x\" => any}", "a = {200*700 uint => any // 0 => 0, * any => any}"]);
        let sc = Sch::new(tpl);
        let map = tpl.as_bytes()[4] == b'{';
        let n = if map { map_size() } else { size() };
        let v = if !map {
            let mut v = numbers(n);
            v[place(n)] = odd();
            V::Arr(v)
        } else {
            let mut m: Vec<(V, V)> = numbers(n).into_iter().map(|v| (v.clone(), v)).collect();
            m[place(n)].1 = odd();
            V::Map(m)
        };
        sc.agree_any_order("a", &v, "wide-backtracking");
    }
    c11_huge "C11" "q" ["accepted", "mismatch"] "arbitrary 64-bit limits against 255 to 300 elements or entries" {
        let tpl = pick(&["a = [5*6 int, * any]", "a = [5*6 int]", "a = [5*6 (int, ? nil)]", "a = {5*6 uint => int}"]);
        let mut sc = Sch::new(tpl);
        let lo = sym::u64();
        let hi = sym::u64();
        sym::assume(lo <= hi);
        sc.patch_limits(lo, hi);
        let n = [255usize, 256, 300][sym::choose(3)];
        let v = if tpl.as_bytes()[4] == b'[' { V::Arr(numbers(n)) } else { V::Map(numbers(n).into_iter().map(|v| (v.clone(), v)).collect()) };
        sc.agree("a", &v, "wide-occurrence");
    }
    c02_huge "C02" "q" ["accepted", "mismatch"] "text and byte literals of 255 to 70000 bytes against strings of neighbouring lengths, one byte of either arbitrary" {
        let n = [255usize, 256, 257, 1000, 65535, 65536, 70000][sym::choose(7)];
        let is_text = sym::choose(2) == 0;
        let mut sc = Sch::new(if is_text { "a = \"$0\"" } else { "a = '$0'" });
        let mut lit = fill(n, b'a');
        let x = sym::u8();
        sym::assume(x < 0x80);
        let at = [0usize, 1, 128, 254, n / 2, n - 2, n - 1][sym::choose(7)];
        let mut data = fill(n + sym::choose(3) - 1, b'a');
        if sym::choose(2) == 0 {
            lit[at] = x;
        } else {
            sym::assume(at < data.len());
            data[at] = x;
        }
        if is_text {
            sc.patch_text(&lit);
            sc.agree("a", &V::Text(text_of(data)), "long-literal");
        } else {
            sc.patch_bytes(&lit);
            sc.agree("a", &V::Bytes(data), "long-literal");
        }
    }
    c05_huge "C05" "q" ["accepted", "mismatch"] "strings of 300 to 70000 bytes against an arbitrary size or range" {
        let n = [300usize, 1000, 65535, 65536, 65537, 70000][sym::choose(6)];
        let mut sc = Sch::new(pick(&["a = tstr .size 7000", "a = bstr .size 7000", "a = tstr .size (7000..7001)", "a = bstr .size (7000...7001)"]));
        let (x, y) = (sym::u64() as i128, sym::u64() as i128);
        sym::assume(x < y);
        sc.patch(&[x, y], &[]);
        let s = fill(n, b'a');
        sc.agree("a", &if sym::choose(2) == 0 { V::Text(text_of(s)) } else { V::Bytes(s) }, "long-size");
    }
    c06_huge "C06" "q" ["accepted", "mismatch"] "choices of 64 to 300 alternatives against any integer" {
        let n = [64usize, 100, 256, 257, 300][sym::choose(5)];
        let (text, arr) = match sym::choose(4) {
            0 => (cat(&["a = ", &list(n, " / ")]), 0),
            1 => (cat(&["a = [", &list(n, " // "), "]"]), 1),
            2 => (cat(&["a = [tstr / ", &list(n, " / "), " / nil]"]), 1),
            _ => (cat(&["a = {k: b}\nb = ", &list(n, " / ")]), 2),
        };
        let sc = Sch::new(&text);
        let v = any_int();
        let v = match arr {
            0 => v,
            1 => V::Arr(vec![v]),
            _ => V::Map(vec![(t("k"), v)]),
        };
        sc.agree("a", &v, "wide-choice");
    }
    c14_huge "C14" "q" ["accepted", "mismatch"] "& on groups of 64 to 300 members against any integer" {
        let n = [64usize, 100, 256, 257, 300][sym::choose(5)];
        let sc = Sch::new(&match sym::choose(3) {
            0 => cat(&["a = &(", &list(n, ", "), ")"]),
            1 => cat(&["a = &g\ng = (", &list(n, ", "), ")"]),
            _ => cat(&["a = [&g / nil]\ng = (h, tstr)\nh = (", &list(n, ", "), ")"]),
        });
        let v = any_int();
        let v = if sym::choose(2) == 0 { v } else { V::Arr(vec![v]) };
        sc.agree("a", &v, "wide-choiceify");
    }
    c12_huge "C12" "q" ["accepted", "mismatch"] "schemas of 64 to 300 rules; names of 40 to 300 characters that differ in one; rules with 40 parameters; chains of 40 names" {
        let mut s = vec![];
        match sym::choose(4) {
            0 => {
                let n = [64usize, 128, 256, 257, 300][sym::choose(5)];
                s.extend_from_slice(cat(&["a = r", &dec(place(n)), "\n"]).as_bytes());
                for i in 0..n {
                    s.extend_from_slice(cat(&["r", &dec(i), " = ", &dec(i), "\n"]).as_bytes());
                }
            }
            1 => {
                let n = [40usize, 255, 256, 300][sym::choose(4)];
                let at = [0usize, n / 2, n - 1][sym::choose(3)];
                let mut x = fill(n, b'n');
                let mut y = fill(n, b'n');
                x[at] = b'x';
                y[at] = b'y';
                let (x, y) = (text_of(x), text_of(y));
                let long = text_of(fill(n, b'n'));
                let which = [&x, &y, &long][sym::choose(3)];
                s.extend_from_slice(cat(&["a = ", which, "\n", &x, " = 1\n", &long, " = 3\n", &y, " = 2\n"]).as_bytes());
            }
            2 => {
                let n = 40;
                let k = [0usize, 1, 15, 16, 31, 32, 39][sym::choose(7)];
                s.extend_from_slice(b"a = w<");
                s.extend_from_slice(list(n, ", ").as_bytes());
                s.extend_from_slice(b">\nw<");
                for i in 0..n {
                    s.extend_from_slice(cat(&[if i > 0 { ", p" } else { "p" }, &dec(i)]).as_bytes());
                }
                s.extend_from_slice(cat(&["> = p", &dec(k)]).as_bytes());
            }
            _ => {
                let n = 40;
                s.extend_from_slice(b"a = r0\n");
                for i in 0..n {
                    s.extend_from_slice(cat(&["r", &dec(i), " = r", &dec(i + 1), "\n"]).as_bytes());
                }
                s.extend_from_slice(b"r40 = 7 / tstr");
            }
        }
        let sc = Sch::new(&text_of(s));
        sc.agree("a", &odd(), "many-names");
    }
    c12_arity "C12" "q" ["accepted", "error"] "generics of up to 300 parameters with as many arguments, one more or fewer, or 256 more or fewer" {
        let n = [1usize, 2, 40, 255, 256, 257, 300][sym::choose(7)];
        let m = match sym::choose(5) {
            0 => n,
            1 => n + 1,
            2 => n + 256,
            3 => n.wrapping_sub(1),
            _ => n.wrapping_sub(256),
        };
        sym::assume(m < 600);
        let mut s = vec![];
        s.extend_from_slice(b"a = w");
        if m > 0 {
            s.push(b'<');
            s.extend_from_slice(list(m, ", ").as_bytes());
            s.push(b'>');
        }
        s.extend_from_slice(b"\nw<");
        for i in 0..n {
            s.extend_from_slice(cat(&[if i > 0 { ", p" } else { "p" }, &dec(i)]).as_bytes());
        }
        s.extend_from_slice(b"> = p0");
        let c = must_load(&text_of(s));
        let got = run_cbor(&c, "a", &V::Int(0));
        sym::observe(got as u64);
        sym::check(got == if n == m { crate::refi::OK } else { crate::refi::GENERIC }, "generic-arity");
        sym::reach(if n == m { "accepted" } else { "error" });
    }
    c13_huge "C13" "q" ["accepted", "mismatch"] "~ of arrays and maps of 40 to 100 members" {
        let n = [40usize, 100][sym::choose(2)];
        let at = [0usize, 1, n / 2, n - 1][sym::choose(4)];
        if sym::choose(2) == 0 {
            let sc = Sch::new(&cat(&[pick(&["a = [~b]", "a = [~b, ? int]", "a = [? ~b, * any]", "a = [tstr // ~b]"]), "\nb = [", &list(n, ", "), "]"]));
            let mut v = numbers(n);
            v[at] = odd();
            sc.agree("a", &V::Arr(v), "wide-unwrap");
        } else {
            let mut s = vec![];
            for i in 0..n {
                s.extend_from_slice(cat(&[if i > 0 { ", " } else { "" }, &dec(i), ": int"]).as_bytes());
            }
            let sc = Sch::new(&cat(&[pick(&["a = {~b}", "a = {? ~b, * any => any}", "a = {k: int // ~b}"]), "\nb = {", &text_of(s), "}"]));
            let mut m: Vec<(V, V)> = numbers(n).into_iter().map(|v| (v.clone(), v)).collect();
            m[at].1 = odd();
            sc.agree("a", &V::Map(m), "wide-unwrap");
        }
    }
    c16_huge "C16" "q" ["error", "accepted", "mismatch"] "an undefined name consulted only after 64 to 300 elements, entries or alternatives" {
        let n = [64usize, 100, 256, 300][sym::choose(4)];
        let (s, kind) = match sym::choose(5) {
            0 => (String::from("a = [* (uint / nope)]"), 0),
            1 => (String::from("a = [* uint, nope]"), 0),
            2 => (String::from("a = {* uint => (uint / nope)}"), 1),
            3 => (String::from("a = {* (uint / nope) => uint}"), 1),
            _ => (cat(&["a = ", &list(n, " / "), " / nope"]), 2),
        };
        let sc = Sch::new(&s);
        let at = place(n);
        let v = match kind {
            0 => {
                let mut v = numbers(n);
                v[at] = odd();
                V::Arr(v)
            }
            1 => {
                let mut m: Vec<(V, V)> = numbers(n).into_iter().map(|v| (v.clone(), v)).collect();
                if sym::choose(2) == 0 {
                    m[at].1 = odd();
                } else {
                    m[at].0 = t("x");
                }
                V::Map(m)
            }
            _ => odd(),
        };
        sc.agree("a", &v, "error-far-in");
    }
    c20_huge "C20" "q" ["exact", "refused"] "literals of 256 to 3000 characters with an arbitrary one at any of 7 places" {
        let kind = sym::choose(3);
        let n = [256usize, 300, 3000][sym::choose(3)];
        let mut b = fill(n, b'a');
        let at = [0usize, 1, 127, 255, n / 2, n - 2, n - 1][sym::choose(7)];
        b[at] = any_ascii(1).as_bytes()[0];
        crate::p_text::literal(&crate::p_text::quoted(kind, &b), 0);
    }
    c21_huge "C21" "q" ["same"] "300 and 5000 blanks, line ends, comment lines, or characters of a comment (one of them arbitrary) between any two tokens" {
        let n = [300usize, 5000][sym::choose(2)];
        let mut f = match sym::choose(4) {
            0 => fill(n, b' '),
            1 => fill(n, b'\n'),
            2 => {
                let mut f = vec![b'\n'];
                for _ in 0..n / 2 {
                    f.extend_from_slice(b";\n");
                }
                f
            }
            _ => {
                let mut f = vec![b';'];
                f.extend_from_slice(&fill(n, b'c'));
                let x = sym::u8();
                sym::assume(x >= 0x20 && x < 0x7f);
                let at = [1usize, 2, n / 2, n][sym::choose(4)];
                f[at] = x;
                f.push(b'\n');
                f
            }
        };
        let (l, r) = [("a =", "[int, tstr] b = {k: nil}"), ("a = [", "int, tstr]\nb = {k: nil}"), ("a = [int", ", tstr]\nb = {k: nil}"), ("a = [int,", "tstr]\nb = {k: nil}"), ("a = [int, tstr]", "b = {k: nil}"), ("a = [int, tstr] b = {k:", "nil}"),
            ("a = [int, tstr]\nb = {k: nil", "}"), ("a = [int, tstr]\nb = {k: nil}", ""), ("", "a = [int, tstr]\nb = {k: nil}"), ("a", "= [int, tstr]\nb = {k: nil}")][sym::choose(10)];
        let mut s = l.as_bytes().to_vec();
        s.append(&mut f);
        s.extend_from_slice(r.as_bytes());
        let s = text_of(s);
        let want = must_load("a = [int, tstr]\nb = {k: nil}");
        match cddl_cat::flatten::flatten_from_str(&s) {
            Ok(got) => sym::check(crate::p_layout::same_rules(&got, &want.rules), "same-rules"),
            Err(_) => sym::check(false, "layout-accepted"),
        }
        sym::reach("same");
    }
    c22_huge "C22" "q" ["loaded"] "schemas of 64 to 300 rules and rules of 300 and 5000 characters, through both loaders" {
        let mut s = vec![];
        match sym::choose(2) {
            0 => {
                let n = [64usize, 128, 300][sym::choose(3)];
                for i in 0..n {
                    s.extend_from_slice(cat(&["r", &dec(i), " = [", &dec(i), ", r", &dec(n - 1 - i), "]", if i % 3 == 0 { " ; c\n" } else { "\n" }]).as_bytes());
                }
            }
            _ => {
                let n = [300usize, 5000][sym::choose(2)];
                let mut f = fill(n, b'c');
                let x = sym::u8();
                sym::assume(x.is_ascii_alphanumeric());
                let at = [0usize, n / 2, n - 1][sym::choose(3)];
                f[at] = x;
                let f = text_of(f);
                s.extend_from_slice(match sym::choose(3) {
                    0 => cat(&["a = \"", &f, "\"\nb = a"]),
                    1 => cat(&["a = {", &f, ": int} b = a"]),
                    _ => cat(&["a = [int, ;", &f, "\n tstr] ;", &f, "\nb = a"]),
                }
                .as_bytes());
            }
        }
        crate::p_layout::agree(&text_of(s));
    }
    c23_huge "C23" "q" ["cbor", "json"] "arrays and maps of 100 to 257 scalars, strings of 300 to 70000 bytes, 60 levels of nesting; one part arbitrary" {
        let n = [100usize, 256, 257][sym::choose(3)];
        let v = match sym::choose(5) {
            0 => {
                let mut v = numbers(n);
                v[place(n)] = odd();
                V::Arr(v)
            }
            1 => {
                let mut m: Vec<(V, V)> = numbers(n).into_iter().map(|v| (v.clone(), v)).collect();
                m[place(n)].1 = odd();
                V::Map(m)
            }
            2 => {
                let mut m: Vec<(V, V)> = (0..n).map(|i| (V::Text(cat(&["k", &dec(i)])), V::Int(i as i128))).collect();
                m[place(n)].1 = odd();
                V::Map(m)
            }
            3 => {
                let n = [300usize, 65535, 65536, 70000][sym::choose(4)];
                let mut s = fill(n, b'a');
                let x = sym::u8();
                sym::assume(x < 0x80);
                let at = [0usize, 255, n / 2, n - 1][sym::choose(4)];
                s[at] = x;
                if sym::choose(2) == 0 { V::Text(text_of(s)) } else { V::Bytes(s) }
            }
            _ => {
                let mut v = any_int();
                for i in 0..60 {
                    v = if i % 2 == 0 { V::Arr(vec![v]) } else { V::Map(vec![(t("k"), v)]) };
                }
                v
            }
        };
        crate::p_data::converts(&v);
    }
    c24_huge "C24" "q" ["accepted", "mismatch", "value-error"] "documents of 256 to 70000 bytes, whole, cut, or with a byte more; one byte arbitrary" {
        let n = [256usize, 257, 300, 1000][sym::choose(4)];
        let m = [n - 1, n, n + 1][sym::choose(3)];
        let x = sym::u8();
        match sym::choose(4) {
            0 => {
                let mut b = vec![0x99, (n >> 8) as u8, n as u8];
                b.extend_from_slice(&fill(m, 1));
                let at = [3usize, 258, m / 2, m + 2][sym::choose(4)];
                sym::assume(at < b.len());
                b[at] = sym::concretize((x & 0x17) as u64) as u8;
                crate::p_data::doc("a = [* int]", &b);
            }
            1 => {
                let n = [n, 65535, 65536, 70000][sym::choose(4)];
                let m = [n - 1, n, n + 1][sym::choose(3)];
                let h = if n > 65535 { vec![0x7a, 0, (n >> 16) as u8, (n >> 8) as u8, n as u8] } else { vec![0x79, (n >> 8) as u8, n as u8] };
                let k = h.len();
                let mut b = h;
                b.extend_from_slice(&fill(m, b'a'));
                let at = [0usize, m / 2, m - 1][sym::choose(3)];
                b[k + at] = x;
                crate::p_data::doc("a = tstr", &b);
            }
            2 => {
                let mut b = vec![b'['];
                for i in 0..n {
                    b.extend_from_slice(if i > 0 { b",1" } else { b"1" });
                }
                match m {
                    _ if m < n => {}
                    _ if m == n => b.push(b']'),
                    _ => b.extend_from_slice(b"]]"),
                }
                let at = [1usize, 2, n, n + 1, b.len() - 1][sym::choose(5)];
                sym::assume(x < 0x80);
                b[at] = x;
                crate::p_data::jdoc("a = [* int]", &text_of(b));
            }
            _ => {
                let mut b = vec![b'"'];
                b.extend_from_slice(&fill(n, b'a'));
                match m {
                    _ if m < n => {}
                    _ if m == n => b.push(b'"'),
                    _ => b.extend_from_slice(b"\"\""),
                }
                let at = [0usize, 1, n / 2, n, b.len() - 1][sym::choose(5)];
                sym::assume(x < 0x80);
                b[at] = x;
                crate::p_data::jdoc("a = tstr", &text_of(b));
            }
        }
    }
    c25_huge "C25" "q" ["accepted", "mismatch"] "55 patterns, texts of 64 and 100 characters alike, or two, but for an arbitrary one" {
        let p = pick(crate::p_regex::PAT);
        // (nested repetition takes the reference the cube of the length)
        sym::assume(p != "^(a*)*b$");
        let n = [64usize, 100][sym::choose(2)];
        let mut s = fill(n, [b'a', b'1', b' '][sym::choose(3)]);
        if sym::choose(2) == 0 {
            s[n / 2] = b'b';
        }
        let x = sym::u8();
        sym::assume(x < 0x80);
        let at = [0usize, n - 1][sym::choose(2)];
        s[at] = x;
        crate::p_regex::case(p, text_of(s), 0);
    }
    c15_huge "C15" "q" ["accepted", "mismatch", "broken"] "byte strings holding arrays of 256 to 1000 elements, whole, cut, or with a byte more; one byte arbitrary" {
        let n = [256usize, 300, 1000][sym::choose(3)];
        let m = [n - 1, n, n + 1][sym::choose(3)];
        let mut b = vec![0x99, (n >> 8) as u8, n as u8];
        b.extend_from_slice(&fill(m, 1));
        let at = [3usize, 258, m + 2][sym::choose(3)];
        sym::assume(at < b.len());
        b[at] = sym::u8() & 0x37;
        crate::p_data::embedded("[* uint]", &b, sym::choose(3));
    }
    c27_huge "C27" "q" ["loaded", "refused"] "names, literals, comments and blanks of 300 and 5000 characters, one of them arbitrary; 300 rules, entries, alternatives, arguments" {
        let n = [300usize, 5000][sym::choose(2)];
        let s = match sym::choose(6) {
            0 => {
                let mut f = fill(n, b'n');
                let x = sym::u8();
                sym::assume(x < 0x80);
                let at = [0usize, n / 2, n - 1][sym::choose(3)];
                f[at] = x;
                let f = text_of(f);
                match sym::choose(5) {
                    0 => cat(&["a = ", &f]),
                    1 => cat(&[&f, " = int"]),
                    2 => cat(&["a = \"", &f, "\""]),
                    3 => cat(&["a = {", &f, ": int}"]),
                    _ => cat(&["a = '", &f, "'"]),
                }
            }
            1 => cat(&["a = [", &list(300, ", "), "]"]),
            2 => cat(&["a = ", &list(300, " / ")]),
            3 => cat(&["a = [", &list(300, " // "), "]"]),
            4 => cat(&["a = w<", &list(300, ", "), ">"]),
            _ => {
                let mut f = fill(n, b'1');
                let x = sym::u8();
                sym::assume(x < 0x80);
                f[n - 1] = x;
                cat(&["a = 1.", &text_of(f)])
            }
        };
        crate::p_parse::complete(&s);
    }
    c33_huge "C33" "q" ["loaded"] "choices of 64 to 300 alternatives, entries and arguments keep all of them, and occurrences of every 300th" {
        let n = [64usize, 255, 256, 300][sym::choose(4)];
        use cddl_cat::ivt::*;
        let k = sym::choose(4);
        let c = must_load(&match k {
            0 => cat(&["a = ", &list(n, " / ")]),
            1 => cat(&["a = [", &list(n, ", "), "]"]),
            2 => cat(&["a = {", &list(n, ": int, "), ": int}"]),
            _ => cat(&["a = w<", &list(n, ", "), ">"]),
        });
        let got: &Vec<Node> = match &c.rules["a"].node {
            Node::Choice(c) => &c.options,
            Node::Array(a) => &a.members,
            Node::Map(m) => &m.members,
            Node::Rule(r) => &r.generic_args,
            _ => return sym::check(false, "all-parts-in-order"),
        };
        sym::check(got.len() == n, "all-parts-in-order");
        for (i, x) in got.iter().enumerate() {
            let want = Node::Literal(Literal::Int(i as i128));
            sym::check(
                match x {
                    Node::KeyValue(kv) => k == 2 && *kv.key == want && *kv.value == Node::PreludeType(PreludeType::Int),
                    _ => k != 2 && *x == want,
                },
                "all-parts-in-order",
            );
        }
        sym::reach("loaded");
    }
}
