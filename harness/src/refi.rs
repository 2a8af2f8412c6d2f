//! A small, separate implementation of the language, written from the property
//! statements: a recursive-descent reader for (valid) schema text and an
//! evaluator without mutation or backtracking state. Member matching is
//! left to right and greedy; positions and sets of unused entries are passed
//! by value, so a failed attempt cannot leave anything behind.
use crate::val::V;
use std::rc::Rc;

pub const OK: u8 = 0;
pub const MIS: u8 = 1;
pub const STRUCTURAL: u8 = 2;
pub const MISSING: u8 = 3;
pub const UNSUPPORTED: u8 = 4;
pub const VALUE: u8 = 5;
pub const GENERIC: u8 = 6;
pub const PARSE: u8 = 7;
pub const CUT: u8 = 8;
pub const DEEP: u8 = 9;

#[derive(Clone)]
pub enum N {
    Pre(&'static str),
    Lit(V),
    Range(Rc<N>, Rc<N>, bool),
    Alt(Vec<N>),
    Arr(G),
    Map(G),
    Grp(G),
    Name(String, Vec<N>),
    Ctl(String, Rc<N>, Rc<N>),
    Amp(Rc<N>),
    Unw(String, Vec<N>),
}
#[derive(Clone)]
pub struct Ent {
    pub lo: u64,
    pub hi: u64,
    pub occ: bool,
    pub key: Option<(N, bool)>,
    pub val: N,
}
pub type G = Vec<Vec<Ent>>;
pub struct RRule {
    pub name: String,
    pub params: Vec<String>,
    pub ent: Ent,
}

const PRE: &[(&str, &str)] = &[
    ("any", "any"),
    ("nil", "nil"),
    ("null", "nil"),
    ("bool", "bool"),
    ("true", "true"),
    ("false", "false"),
    ("int", "int"),
    ("uint", "uint"),
    ("nint", "nint"),
    ("float", "float"),
    ("float16", "float"),
    ("float32", "float"),
    ("float64", "float"),
    ("float16-32", "float"),
    ("float32-64", "float"),
    ("tstr", "tstr"),
    ("text", "tstr"),
    ("bstr", "bstr"),
    ("bytes", "bstr"),
];

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn at(&self, t: &[u8]) -> bool {
        self.s[self.i..].starts_with(t)
    }
    fn eat(&mut self, t: &[u8]) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) {
        loop {
            match self.peek() {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.peek() != b'\n' {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn ident(&mut self) -> Option<String> {
        let st = self.i;
        let al = |c: u8| c.is_ascii_alphabetic() || c == b'@' || c == b'_' || c == b'$';
        if !al(self.peek()) {
            return None;
        }
        let mut end = self.i;
        let mut j = self.i;
        while j < self.s.len() {
            let c = self.s[j];
            if al(c) || c.is_ascii_digit() {
                j += 1;
                end = j;
            } else if c == b'-' || c == b'.' {
                j += 1;
            } else {
                break;
            }
        }
        self.i = end;
        Some(unsafe { String::from_utf8_unchecked(self.s[st..end].to_vec()) })
    }
    fn num(&mut self) -> u64 {
        let mut x = 0u64;
        while self.peek().is_ascii_digit() {
            x = x * 10 + (self.peek() - b'0') as u64;
            self.i += 1;
        }
        x
    }
    fn number(&mut self) -> V {
        let neg = self.eat(b"-");
        let x = self.num();
        if self.peek() == b'.' && self.i + 1 < self.s.len() && self.s[self.i + 1].is_ascii_digit() {
            self.i += 1;
            let st = self.i;
            let f = self.num();
            let mut d = 1.0f64;
            for _ in st..self.i {
                d *= 10.0;
            }
            // few digits only: sums and quotient are exact enough to be the nearest double
            let y = (x as f64 * d + f as f64) / d;
            return V::Float(if neg { -y } else { y });
        }
        let x = x as i128;
        V::Int(if neg { -x } else { x })
    }
    fn quoted(&mut self, q: u8) -> Vec<u8> {
        self.i += 1;
        let st = self.i;
        while self.peek() != q {
            self.i += 1;
        }
        let r = self.s[st..self.i].to_vec();
        self.i += 1;
        r
    }
    fn args(&mut self) -> Vec<N> {
        let mut a = vec![];
        if self.eat(b"<") {
            loop {
                self.ws();
                a.push(self.type1());
                self.ws();
                if !self.eat(b",") {
                    break;
                }
            }
            self.eat(b">");
        }
        a
    }
    fn type2(&mut self) -> N {
        let c = self.peek();
        match c {
            b'"' => {
                let q = self.quoted(b'"');
                N::Lit(V::Text(unsafe { String::from_utf8_unchecked(q) }))
            }
            b'\'' => N::Lit(V::Bytes(self.quoted(b'\''))),
            b'h' if self.at(b"h'") => {
                self.i += 1;
                let q = self.quoted(b'\'');
                let hv = |c: u8| if c >= b'a' { c - b'a' + 10 } else { c - b'0' };
                N::Lit(V::Bytes(q.chunks(2).map(|p| hv(p[0]) * 16 + hv(p[1])).collect()))
            }
            b'-' | b'0'..=b'9' => N::Lit(self.number()),
            b'(' => {
                self.i += 1;
                let g = self.group();
                self.eat(b")");
                N::Grp(g)
            }
            b'[' => {
                self.i += 1;
                let g = self.group();
                self.eat(b"]");
                N::Arr(g)
            }
            b'{' => {
                self.i += 1;
                let g = self.group();
                self.eat(b"}");
                N::Map(g)
            }
            b'~' => {
                self.i += 1;
                self.ws();
                let n = self.ident().unwrap_or_default();
                let a = self.args();
                N::Unw(n, a)
            }
            b'&' => {
                self.i += 1;
                self.ws();
                N::Amp(Rc::new(self.type2()))
            }
            _ => {
                let n = self.ident().unwrap_or_default();
                for (k, p) in PRE {
                    if n.as_bytes() == k.as_bytes() {
                        return match *p {
                            "true" => N::Lit(V::Bool(true)),
                            "false" => N::Lit(V::Bool(false)),
                            _ => N::Pre(p),
                        };
                    }
                }
                let a = self.args();
                N::Name(n, a)
            }
        }
    }
    fn type1(&mut self) -> N {
        let a = self.type2();
        let save = self.i;
        self.ws();
        if self.eat(b"...") {
            self.ws();
            return N::Range(Rc::new(a), Rc::new(self.type2()), false);
        }
        if self.eat(b"..") {
            self.ws();
            return N::Range(Rc::new(a), Rc::new(self.type2()), true);
        }
        if self.peek() == b'.' {
            self.i += 1;
            let op = self.ident().unwrap_or_default();
            self.ws();
            return N::Ctl(op, Rc::new(a), Rc::new(self.type2()));
        }
        self.i = save;
        a
    }
    fn alt(&mut self, first: N) -> N {
        let mut v = vec![first];
        loop {
            let save = self.i;
            self.ws();
            if self.peek() == b'/' && !self.at(b"//") {
                self.i += 1;
                self.ws();
                v.push(self.type1());
            } else {
                self.i = save;
                break;
            }
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            N::Alt(v)
        }
    }
    fn ty(&mut self) -> N {
        let f = self.type1();
        self.alt(f)
    }
    fn entry(&mut self) -> Ent {
        let (mut lo, mut hi, mut occ) = (1u64, 1u64, true);
        let save = self.i;
        let c = self.peek();
        if c == b'?' {
            self.i += 1;
            lo = 0;
        } else if c == b'+' {
            self.i += 1;
            hi = u64::MAX;
        } else if c == b'*' || c.is_ascii_digit() {
            lo = if c == b'*' { 0 } else { self.num() };
            if self.eat(b"*") {
                hi = if self.peek().is_ascii_digit() { self.num() } else { u64::MAX };
            } else {
                self.i = save;
                lo = 1;
                occ = false;
            }
        } else {
            occ = false;
        }
        self.ws();
        // a name before a colon is text, whatever else it may name
        let save = self.i;
        if let Some(n) = self.ident() {
            self.ws();
            if self.eat(b":") {
                self.ws();
                let val = self.ty();
                return Ent { lo, hi, occ, key: Some((N::Lit(V::Text(n)), true)), val };
            }
        }
        self.i = save;
        let f = self.type1();
        let save = self.i;
        self.ws();
        if self.peek() == b':' {
            let k = match &f {
                N::Lit(_) => Some(f.clone()),
                _ => None,
            };
            if let Some(k) = k {
                self.i += 1;
                self.ws();
                let val = self.ty();
                return Ent { lo, hi, occ, key: Some((k, true)), val };
            }
        }
        let cut = self.eat(b"^");
        self.ws();
        if self.eat(b"=>") {
            self.ws();
            let val = self.ty();
            return Ent { lo, hi, occ, key: Some((f, cut)), val };
        }
        self.i = save;
        let val = self.alt(f);
        Ent { lo, hi, occ, key: None, val }
    }
    fn group(&mut self) -> G {
        let mut g = vec![];
        let mut cur = vec![];
        loop {
            self.ws();
            if self.eat(b"//") {
                g.push(cur);
                cur = vec![];
                continue;
            }
            match self.peek() {
                b')' | b']' | b'}' | 0 => break,
                _ => {}
            }
            cur.push(self.entry());
            self.ws();
            self.eat(b",");
        }
        g.push(cur);
        g
    }
}

pub fn parse(text: &[u8]) -> Vec<RRule> {
    let mut p = P { s: text, i: 0 };
    let mut out: Vec<RRule> = vec![];
    loop {
        p.ws();
        let name = match p.ident() {
            Some(n) => n,
            None => return out,
        };
        let mut params = vec![];
        if p.eat(b"<") {
            loop {
                p.ws();
                params.push(p.ident().unwrap_or_default());
                p.ws();
                if !p.eat(b",") {
                    break;
                }
            }
            p.eat(b">");
        }
        p.ws();
        p.eat(b"=");
        p.ws();
        let ent = p.entry();
        out.push(RRule { name, params, ent });
    }
}

#[derive(Clone)]
pub struct Env(Option<Rc<Vec<(String, N, Env)>>>);

pub struct Ref {
    pub rules: Vec<RRule>,
    /// Search the entries of a map from the last to the first.
    pub rev: std::cell::Cell<bool>,
}

type Pos = Result<usize, u8>;
type Used = Result<Vec<bool>, u8>;

enum Def<'a> {
    Ent(&'a Ent),
    Node(&'a N),
}

fn patch_n(n: &mut N, f: &dyn Fn(&mut V)) {
    match n {
        N::Pre(_) => {}
        N::Lit(v) => f(v),
        N::Range(a, b, _) => {
            patch_rc(a, f);
            patch_rc(b, f);
        }
        N::Alt(o) | N::Name(_, o) | N::Unw(_, o) => o.iter_mut().for_each(|x| patch_n(x, f)),
        N::Arr(g) | N::Map(g) | N::Grp(g) => g.iter_mut().for_each(|c| c.iter_mut().for_each(|e| patch_e(e, f))),
        N::Ctl(_, a, b) => {
            patch_rc(a, f);
            patch_rc(b, f);
        }
        N::Amp(a) => patch_rc(a, f),
    }
}
fn patch_rc(n: &mut Rc<N>, f: &dyn Fn(&mut V)) {
    if let Some(n) = Rc::get_mut(n) {
        patch_n(n, f);
    }
}
fn patch_e(e: &mut Ent, f: &dyn Fn(&mut V)) {
    if let Some((k, _)) = &mut e.key {
        patch_n(k, f);
    }
    patch_n(&mut e.val, f);
}

fn limits_e(e: &mut Ent, lo: u64, hi: u64) {
    if e.lo == 5 && e.hi == 6 {
        e.lo = lo;
        e.hi = hi;
    }
    limits_n(&mut e.val, lo, hi);
}
fn limits_n(n: &mut N, lo: u64, hi: u64) {
    match n {
        N::Alt(o) => o.iter_mut().for_each(|x| limits_n(x, lo, hi)),
        N::Arr(g) | N::Map(g) | N::Grp(g) => g.iter_mut().for_each(|c| c.iter_mut().for_each(|e| limits_e(e, lo, hi))),
        _ => {}
    }
}
impl Ref {
    pub fn patch_limits(&mut self, lo: u64, hi: u64) {
        self.rules.iter_mut().for_each(|r| limits_e(&mut r.ent, lo, hi));
    }
    pub fn patch(&mut self, f: &dyn Fn(&mut V)) {
        self.rules.iter_mut().for_each(|r| patch_e(&mut r.ent, f));
    }
    pub fn new(text: &[u8]) -> Ref {
        Ref { rules: parse(text), rev: std::cell::Cell::new(false) }
    }
    pub fn rule(&self, n: &str) -> Option<&RRule> {
        self.rules.iter().rev().find(|r| r.name.as_bytes() == n.as_bytes())
    }
    /// The outcome of validating `v` against the rule `n`.
    pub fn outcome(&self, n: &str, v: &V) -> u8 {
        let r = match self.rule(n) {
            Some(r) => r,
            None => return MISSING,
        };
        if !r.params.is_empty() {
            return GENERIC;
        }
        match self.ev_ent(&r.ent, v, &Env(None), 0) {
            CUT => MIS,
            x => x,
        }
    }
    // What a name stands for: an argument (read in the environment of the
    // point of use) or a rule (whose body sees only its own parameters).
    fn resolve<'a>(&'a self, n: &str, args: &[N], env: &'a Env, d: u32) -> Result<(Def<'a>, Env), u8> {
        if d > 45 {
            return Err(DEEP);
        }
        if let Some(b) = &env.0 {
            for (k, node, e) in b.iter() {
                if k.as_bytes() == n.as_bytes() {
                    return Ok((Def::Node(node), e.clone()));
                }
            }
        }
        let r = match self.rule(n) {
            Some(r) => r,
            None => return Err(MISSING),
        };
        if r.params.len() != args.len() {
            return Err(GENERIC);
        }
        if args.is_empty() {
            return Ok((Def::Ent(&r.ent), Env(None)));
        }
        let b = r.params.iter().zip(args).map(|(p, a)| (p.clone(), a.clone(), env.clone())).collect();
        Ok((Def::Ent(&r.ent), Env(Some(Rc::new(b)))))
    }
    fn ev_ent(&self, e: &Ent, v: &V, env: &Env, d: u32) -> u8 {
        if e.occ || e.key.is_some() {
            return STRUCTURAL;
        }
        self.ev(&e.val, v, env, d)
    }
    fn literal(&self, n: &N, env: &Env, d: u32) -> Result<V, u8> {
        match n {
            N::Lit(v) => Ok(v.clone()),
            N::Name(x, a) => {
                let (def, e) = self.resolve(x, a, env, d)?;
                match def {
                    Def::Node(n) => self.literal(n, &e, d + 1),
                    Def::Ent(en) if !en.occ && en.key.is_none() => self.literal(&en.val, &e, d + 1),
                    _ => Err(STRUCTURAL),
                }
            }
            N::Grp(g) if g.len() == 1 && g[0].len() == 1 && !g[0][0].occ && g[0][0].key.is_none() => self.literal(&g[0][0].val, env, d),
            _ => Err(STRUCTURAL),
        }
    }
    // The node a chain of names ends in.
    fn chase<'a>(&'a self, n: &'a N, env: &Env, d: u32) -> Result<(N, Env), u8> {
        match n {
            N::Name(x, a) => {
                let env2 = env.clone();
                let (def, e) = self.resolve(x, a, &env2, d)?;
                match def {
                    Def::Node(n) => {
                        let n = n.clone();
                        self.chase_owned(n, &e, d + 1)
                    }
                    Def::Ent(en) if !en.occ && en.key.is_none() => self.chase_owned(en.val.clone(), &e, d + 1),
                    _ => Err(STRUCTURAL),
                }
            }
            N::Grp(g) if g.len() == 1 && g[0].len() == 1 && !g[0][0].occ && g[0][0].key.is_none() => self.chase_owned(g[0][0].val.clone(), env, d),
            _ => Ok((n.clone(), env.clone())),
        }
    }
    fn chase_owned(&self, n: N, env: &Env, d: u32) -> Result<(N, Env), u8> {
        // (the reference keeps no borrowed nodes across a resolution)
        match self.chase(&n, env, d) {
            Ok(x) => Ok(x),
            Err(e) => Err(e),
        }
    }
    pub fn ev(&self, n: &N, v: &V, env: &Env, d: u32) -> u8 {
        let yes = |b: bool| if b { OK } else { MIS };
        match n {
            N::Pre(p) => yes(match (*p, v) {
                ("any", _) => true,
                ("nil", V::Null) => true,
                ("bool", V::Bool(_)) => true,
                ("int", V::Int(_)) => true,
                ("uint", V::Int(i)) => *i >= 0,
                ("nint", V::Int(i)) => *i < 0,
                ("float", V::Float(_)) => true,
                ("tstr", V::Text(_)) => true,
                ("bstr", V::Bytes(_)) => true,
                _ => false,
            }),
            N::Lit(l) => yes(l.same(v)),
            N::Range(a, b, incl) => {
                let a = match self.literal(a, env, d) {
                    Ok(x) => x,
                    Err(e) => return e,
                };
                let b = match self.literal(b, env, d) {
                    Ok(x) => x,
                    Err(e) => return e,
                };
                match (&a, &b) {
                    (V::Int(a), V::Int(b)) => match v {
                        V::Int(x) => yes(*a <= *x && if *incl { *x <= *b } else { *x < *b }),
                        _ => MIS,
                    },
                    (V::Float(a), V::Float(b)) => match v {
                        V::Float(x) => yes(*a <= *x && if *incl { *x <= *b } else { *x < *b }),
                        _ => MIS,
                    },
                    (V::Text(_), V::Text(_)) | (V::Bytes(_), V::Bytes(_)) | (V::Bool(_), V::Bool(_)) => MIS,
                    _ => STRUCTURAL,
                }
            }
            N::Alt(o) => {
                for x in o {
                    match self.ev(x, v, env, d) {
                        MIS | CUT => {}
                        r => return r,
                    }
                }
                MIS
            }
            N::Arr(g) => match v {
                V::Arr(a) => match self.arr_grp(g, a, 0, env, d) {
                    Ok(p) => yes(p == a.len()),
                    Err(e) => e,
                },
                _ => MIS,
            },
            N::Map(g) => match v {
                V::Map(m) => match self.map_grp(g, m, vec![false; m.len()], env, d) {
                    Ok(u) => yes(u.iter().all(|x| *x)),
                    Err(CUT) => MIS,
                    Err(e) => e,
                },
                _ => MIS,
            },
            N::Grp(g) => {
                if g.len() == 1 && g[0].len() == 1 {
                    self.ev_ent(&g[0][0], v, env, d)
                } else {
                    UNSUPPORTED
                }
            }
            N::Name(x, a) => match self.resolve(x, a, env, d) {
                Err(e) => e,
                Ok((Def::Node(n), e)) => self.ev(n, v, &e, d + 1),
                Ok((Def::Ent(en), e)) => self.ev_ent(en, v, &e, d + 1),
            },
            N::Unw(..) => STRUCTURAL,
            N::Amp(x) => self.amp(x, v, env, d),
            N::Ctl(op, t, l) => self.ctl(op, t, l, v, env, d),
        }
    }
    // `&`: some member of the group has a type that accepts the value.
    fn amp(&self, n: &N, v: &V, env: &Env, d: u32) -> u8 {
        match n {
            N::Grp(g) => {
                for c in g {
                    for e in c {
                        let r = match (&e.key, &e.val) {
                            (None, N::Name(x, a)) => self.amp_name(x, a, v, env, d),
                            _ => self.ev(&e.val, v, env, d),
                        };
                        if r != MIS && r != CUT {
                            return r;
                        }
                    }
                }
                MIS
            }
            N::Name(x, a) => match self.resolve(x, a, env, d) {
                Err(e) => e,
                Ok((Def::Node(n), e)) => self.amp(n, v, &e, d + 1),
                Ok((Def::Ent(en), e)) => {
                    if en.occ || en.key.is_some() {
                        STRUCTURAL
                    } else {
                        self.amp(&en.val, v, &e, d + 1)
                    }
                }
            },
            _ => STRUCTURAL,
        }
    }
    // A name without a key in a group under `&`: a group or a type.
    fn amp_name(&self, x: &str, a: &[N], v: &V, env: &Env, d: u32) -> u8 {
        let (n, e) = match self.resolve(x, a, env, d) {
            Err(e) => return e,
            Ok((Def::Node(n), e)) => (n, e),
            Ok((Def::Ent(en), e)) => {
                if en.occ || en.key.is_some() {
                    return STRUCTURAL;
                }
                (&en.val, e)
            }
        };
        match n {
            N::Name(x, a) => self.amp_name(x, a, v, &e, d + 1),
            N::Grp(_) => self.amp(n, v, &e, d + 1),
            _ => self.ev(n, v, &e, d + 1),
        }
    }
    fn ctl(&self, op: &str, t: &N, l: &N, v: &V, env: &Env, d: u32) -> u8 {
        let yes = |b: bool| if b { OK } else { MIS };
        if op.as_bytes() == b"cbor" {
            match self.chase(t, env, d) {
                Ok((N::Pre("bstr"), _)) => {}
                Ok(_) => return STRUCTURAL,
                Err(e) => return e,
            }
            return match v {
                V::Bytes(b) => match crate::p_data::decode(b) {
                    Ok(x) => self.ev(l, &x, env, d),
                    Err(crate::p_data::Bad::Broken) => MIS,
                    Err(crate::p_data::Bad::Outside) => {
                        crate::sym::assume(false);
                        MIS
                    }
                },
                _ => MIS,
            };
        }
        let (l, le) = match self.chase(l, env, d) {
            Ok(x) => x,
            Err(e) => return e,
        };
        if op.as_bytes() == b"size" {
            let (lo, hi, point) = match &l {
                N::Lit(V::Int(n)) => (*n, *n, true),
                N::Range(a, b, incl) => {
                    let a = self.literal(a, &le, d);
                    let b = self.literal(b, &le, d);
                    match (a, b) {
                        (Ok(V::Int(a)), Ok(V::Int(b))) => (a, if *incl { b } else { b - 1 }, false),
                        _ => return STRUCTURAL,
                    }
                }
                _ => return STRUCTURAL,
            };
            if lo < 0 || hi < (if point { 0 } else { -1 }) {
                return STRUCTURAL;
            }
            let (t, _) = match self.chase(t, env, d) {
                Ok(x) => x,
                Err(e) => return e,
            };
            let n = match (&t, v) {
                (N::Pre("tstr"), V::Text(s)) => s.len() as i128,
                (N::Pre("bstr"), V::Bytes(s)) => s.len() as i128,
                (N::Pre("uint"), V::Int(x)) if *x >= 0 => {
                    let mut w = 0i128;
                    for k in 0..8 {
                        if *x >> (8 * k) != 0 {
                            w = k + 1;
                        }
                    }
                    if point {
                        return yes(w <= hi);
                    }
                    w
                }
                (N::Pre("tstr"), _) | (N::Pre("bstr"), _) | (N::Pre("uint"), _) => return MIS,
                _ => return STRUCTURAL,
            };
            return yes(lo <= n && n <= hi);
        }
        let lim = match &l {
            N::Lit(V::Int(n)) => *n,
            _ => return STRUCTURAL,
        };
        let (t, _) = match self.chase(t, env, d) {
            Ok(x) => x,
            Err(e) => return e,
        };
        let x = match (&t, v) {
            (N::Pre("int"), V::Int(x)) => *x,
            (N::Pre("uint"), V::Int(x)) if *x >= 0 => *x,
            (N::Pre("nint"), V::Int(x)) if *x < 0 => *x,
            (N::Pre("int"), _) | (N::Pre("uint"), _) | (N::Pre("nint"), _) => return MIS,
            _ => return STRUCTURAL,
        };
        match op.as_bytes() {
            b"lt" => yes(x < lim),
            b"le" => yes(x <= lim),
            b"gt" => yes(x > lim),
            b"ge" => yes(x >= lim),
            _ => UNSUPPORTED,
        }
    }

    // ---- arrays ----
    fn arr_grp(&self, g: &G, a: &[V], p: usize, env: &Env, d: u32) -> Pos {
        let mut last = MIS;
        for c in g {
            match self.arr_seq(c, a, p, env, d) {
                Ok(q) => return Ok(q),
                Err(MIS) => last = MIS,
                Err(e) => return Err(e),
            }
        }
        Err(last)
    }
    fn arr_seq(&self, c: &[Ent], a: &[V], mut p: usize, env: &Env, d: u32) -> Pos {
        for e in c {
            p = self.arr_ent(e, a, p, env, d)?;
        }
        Ok(p)
    }
    fn arr_ent(&self, e: &Ent, a: &[V], p: usize, env: &Env, d: u32) -> Pos {
        let mut q = p;
        let mut n = 0u64;
        while n < e.hi {
            let r = if e.key.is_some() { self.arr_elem(&e.val, a, q, env, d) } else { self.arr_one(&e.val, a, q, env, d) };
            match r {
                Ok(x) if x == q => return Ok(q), // matches nothing, as often as asked
                Ok(x) => q = x,
                Err(MIS) => break,
                Err(x) => return Err(x),
            }
            n += 1;
        }
        if n < e.lo {
            Err(MIS)
        } else {
            Ok(q)
        }
    }
    fn arr_elem(&self, n: &N, a: &[V], p: usize, env: &Env, d: u32) -> Pos {
        if p >= a.len() {
            return Err(MIS);
        }
        match self.ev(n, &a[p], env, d) {
            OK => Ok(p + 1),
            CUT => Err(MIS),
            e => Err(e),
        }
    }
    fn arr_one(&self, n: &N, a: &[V], p: usize, env: &Env, d: u32) -> Pos {
        match n {
            N::Grp(g) => self.arr_grp(g, a, p, env, d),
            N::Alt(o) => {
                for x in o {
                    match self.arr_one(x, a, p, env, d) {
                        Err(MIS) => {}
                        r => return r,
                    }
                }
                Err(MIS)
            }
            N::Name(x, ar) => match self.resolve(x, ar, env, d)? {
                (Def::Node(n), e) => self.arr_one(n, a, p, &e, d + 1),
                (Def::Ent(en), e) => self.arr_ent(en, a, p, &e, d + 1),
            },
            N::Unw(x, ar) => {
                let (n, e) = self.chase(&N::Name(x.clone(), ar.clone()), env, d)?;
                match n {
                    N::Arr(g) => self.arr_grp(&g, a, p, &e, d + 1),
                    _ => Err(MIS),
                }
            }
            _ => self.arr_elem(n, a, p, env, d),
        }
    }

    // ---- maps ----
    fn map_grp(&self, g: &G, m: &[(V, V)], u: Vec<bool>, env: &Env, d: u32) -> Used {
        if g.len() == 1 {
            return self.map_seq(&g[0], m, u, env, d);
        }
        for c in g {
            match self.map_seq(c, m, u.clone(), env, d) {
                Err(MIS) | Err(CUT) => {}
                r => return r,
            }
        }
        Err(MIS)
    }
    fn map_seq(&self, c: &[Ent], m: &[(V, V)], mut u: Vec<bool>, env: &Env, d: u32) -> Used {
        for e in c {
            u = self.map_ent(e, m, u, env, d)?;
        }
        Ok(u)
    }
    fn map_ent(&self, e: &Ent, m: &[(V, V)], u: Vec<bool>, env: &Env, d: u32) -> Used {
        let mut q = u;
        let mut n = 0u64;
        while n < e.hi {
            let r = match &e.key {
                Some((k, cut)) => self.map_kv(k, *cut, &e.val, m, q.clone(), env, d),
                None => self.map_one(&e.val, m, q.clone(), env, d),
            };
            match r {
                Ok(x) => {
                    let same = x.iter().zip(&q).all(|(a, b)| a == b);
                    q = x;
                    if same {
                        return Ok(q);
                    }
                }
                Err(MIS) => break,
                Err(x) => return Err(x),
            }
            n += 1;
        }
        if n < e.lo {
            Err(MIS)
        } else {
            Ok(q)
        }
    }
    fn map_kv(&self, k: &N, cut: bool, val: &N, m: &[(V, V)], mut u: Vec<bool>, env: &Env, d: u32) -> Used {
        for j in 0..m.len() {
            let i = if self.rev.get() { m.len() - 1 - j } else { j };
            if u[i] {
                continue;
            }
            match self.ev(k, &m[i].0, env, d) {
                OK => {}
                MIS | CUT => continue,
                e => return Err(e),
            }
            match self.ev(val, &m[i].1, env, d) {
                OK => {
                    u[i] = true;
                    return Ok(u);
                }
                MIS | CUT => {
                    if cut {
                        return Err(CUT);
                    }
                }
                e => return Err(e),
            }
        }
        Err(MIS)
    }
    fn map_one(&self, n: &N, m: &[(V, V)], u: Vec<bool>, env: &Env, d: u32) -> Used {
        // a group forgets the cuts made inside it
        let soft = |r: Used| match r {
            Err(CUT) => Err(MIS),
            r => r,
        };
        match n {
            N::Grp(g) => soft(self.map_grp(g, m, u, env, d)),
            N::Alt(o) => {
                for x in o {
                    match self.map_one(x, m, u.clone(), env, d) {
                        Err(MIS) => {}
                        r => return r,
                    }
                }
                Err(MIS)
            }
            N::Name(x, ar) => match self.resolve(x, ar, env, d)? {
                (Def::Node(n), e) => self.map_one(n, m, u, &e, d + 1),
                (Def::Ent(en), e) => self.map_ent(en, m, u, &e, d + 1),
            },
            N::Unw(x, ar) => {
                let (n, e) = self.chase(&N::Name(x.clone(), ar.clone()), env, d)?;
                match n {
                    N::Map(g) => soft(self.map_grp(&g, m, u, &e, d + 1)),
                    _ => Err(MIS),
                }
            }
            _ => Err(STRUCTURAL),
        }
    }
}
