//! Shared generators: schema contexts and data around a value.
use crate::sym;
use crate::val::*;

pub fn pick<'a>(p: &[&'a str]) -> &'a str {
    p[sym::choose(p.len())]
}
pub fn cat(p: &[&str]) -> String {
    let mut s = String::new();
    for x in p {
        s.push_str(x);
    }
    s
}
/// Replaces every `$` in `tpl` by `x`, and every `@` by `y`.
pub fn subst(tpl: &str, x: &str, y: &str) -> String {
    let mut s = String::new();
    let mut from = 0;
    let bt = tpl.as_bytes();
    for i in 0..bt.len() {
        if bt[i] == b'$' || bt[i] == b'@' {
            s.push_str(&tpl[from..i]);
            s.push_str(if bt[i] == b'$' { x } else { y });
            from = i + 1;
        }
    }
    s.push_str(&tpl[from..]);
    s
}

/// Places a type can stand in, each with the data around a value of it.
pub const POS: &[&str] = &[
    "a = $\n",
    "a = [$]\n",
    "a = {k: $}\n",
    "a = {* $ => any}\n",
    "a = b\nb = c\nc = $\n",
    "a = w<$>\nw<x> = x\n",
    "a = [? $]\n",
    "a = \"zz\" / $\n",
    "a = {? \"k\" => $}\n",
    "a = &(p: $, q: \"zz\")\n",
    "a = [+ ($)]\n",
];
pub fn in_pos(i: usize, v: V) -> V {
    match i {
        1 | 6 | 10 => V::Arr(vec![v]),
        2 | 8 => V::Map(vec![(t("k"), v)]),
        3 => V::Map(vec![(v, V::Null)]),
        _ => v,
    }
}
