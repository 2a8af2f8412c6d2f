//! Calls into the crate under test.
use crate::refi::*;
use crate::sym;
use crate::val::V;
use cddl_cat::context::BasicContext;
use cddl_cat::flatten::flatten_from_str;
use cddl_cat::ivt::*;
use cddl_cat::{ValidateError, ValidateResult};

pub fn cls_e(e: &ValidateError) -> u8 {
    match e {
        ValidateError::Mismatch(_) => MIS,
        ValidateError::MapCut(_) => CUT,
        ValidateError::Structural(_) => STRUCTURAL,
        ValidateError::MissingRule(_) => MISSING,
        ValidateError::Unsupported(_) => UNSUPPORTED,
        ValidateError::ValueError(_) => VALUE,
        ValidateError::GenericError => GENERIC,
        ValidateError::ParseError(_) => PARSE,
        _ => 99,
    }
}
pub fn cls(r: &ValidateResult) -> u8 {
    match r {
        Ok(()) => OK,
        Err(e) => cls_e(e),
    }
}
/// A schema error of any class (not a verdict about the data).
pub fn schema_err(c: u8) -> bool {
    c == STRUCTURAL || c == UNSUPPORTED || c == GENERIC || c == MISSING
}

/// A loaded schema; `Err` holds the class of the load error.
pub fn load(text: &str) -> Result<BasicContext, u8> {
    match flatten_from_str(text) {
        Ok(r) => Ok(BasicContext::new(r)),
        Err(e) => Err(cls_e(&e)),
    }
}
pub fn must_load(text: &str) -> BasicContext {
    match load(text) {
        Ok(c) => c,
        Err(_) => {
            sym::check(false, "schema-loads");
            loop {}
        }
    }
}
pub fn run_cbor(c: &BasicContext, rule: &str, v: &V) -> u8 {
    let rd = match c.rules.get(rule) {
        Some(r) => r,
        None => return MISSING,
    };
    cls(&cddl_cat::validate_cbor(rd, &v.cbor(), c))
}
pub fn run_json(c: &BasicContext, rule: &str, v: &V) -> u8 {
    let rd = match c.rules.get(rule) {
        Some(r) => r,
        None => return MISSING,
    };
    cls(&cddl_cat::validate_json(rd, &v.json(), c))
}

/// A schema loaded by the crate and read by the reference.
pub struct Sch {
    pub ctx: BasicContext,
    pub re: Ref,
}
impl Sch {
    pub fn new(text: &str) -> Sch {
        sym::note(text);
        Sch { ctx: must_load(text), re: Ref::new(text.as_bytes()) }
    }
    pub fn expect(&self, rule: &str, v: &V) -> u8 {
        match self.re.outcome(rule, v) {
            DEEP => STRUCTURAL,
            x => x,
        }
    }
    /// The crate's outcome for `v` is the reference's.
    pub fn agree(&self, rule: &str, v: &V, id: &'static str) -> u8 {
        let got = run_cbor(&self.ctx, rule, v);
        let want = self.expect(rule, v);
        sym::observe(got as u64);
        sym::check(got == want, id);
        match want {
            OK => sym::reach("accepted"),
            MIS => sym::reach("mismatch"),
            _ => sym::reach("error"),
        }
        want
    }
}

impl Sch {
    pub fn patch(&mut self, vals: &[i128], fl: &[f64]) {
        patch(&mut self.ctx, vals, fl);
        self.re.patch(&|v: &mut V| match v {
            V::Int(i) => {
                if *i >= 7000 && *i < 7000 + vals.len() as i128 {
                    *i = vals[(*i - 7000) as usize];
                }
            }
            V::Float(f) => {
                for (i, x) in fl.iter().enumerate() {
                    if *f == 7000.5 + i as f64 {
                        *f = *x;
                        break;
                    }
                }
            }
            _ => {}
        });
    }
    /// Replaces the text literal "$0".
    pub fn patch_text(&mut self, x: &[u8]) {
        let new = || unsafe { String::from_utf8_unchecked(x.to_vec()) };
        for rd in self.ctx.rules.values_mut() {
            each_literal(&mut rd.node, &mut |l| match l {
                Literal::Text(s) if s.as_bytes() == b"$0" => *s = new(),
                _ => {}
            });
        }
        self.re.patch(&|v: &mut V| match v {
            V::Text(s) if s.as_bytes() == b"$0" => *s = new(),
            _ => {}
        });
    }
    /// Replaces the byte string literal '$0'.
    pub fn patch_bytes(&mut self, x: &[u8]) {
        for rd in self.ctx.rules.values_mut() {
            each_literal(&mut rd.node, &mut |l| match l {
                Literal::Bytes(s) if s.as_slice() == b"$0" => *s = x.to_vec(),
                _ => {}
            });
        }
        self.re.patch(&|v: &mut V| match v {
            V::Bytes(s) if s.as_slice() == b"$0" => *s = x.to_vec(),
            _ => {}
        });
    }
}

/// Replaces the integer literals 7000+i of a loaded schema by `vals[i]`
/// and the float literals 7000.5+i by `fl[i]`.
pub fn patch(c: &mut BasicContext, vals: &[i128], fl: &[f64]) {
    for rd in c.rules.values_mut() {
        patch_node(&mut rd.node, vals, fl);
    }
}
fn patch_node(n: &mut Node, vals: &[i128], fl: &[f64]) {
    each_literal(n, &mut |l| match l {
        Literal::Int(i) => {
            if *i >= 7000 && *i < 7000 + vals.len() as i128 {
                *i = vals[(*i - 7000) as usize];
            }
        }
        Literal::Float(f) => {
            for (i, x) in fl.iter().enumerate() {
                if *f == 7000.5 + i as f64 {
                    *f = *x;
                    break;
                }
            }
        }
        _ => {}
    });
}
fn each_literal(n: &mut Node, f: &mut dyn FnMut(&mut Literal)) {
    let mut all = |v: &mut Vec<Node>| {
        for x in v.iter_mut() {
            each_literal(x, f);
        }
    };
    match n {
        Node::Literal(l) => f(l),
        Node::Rule(r) | Node::Unwrap(r) | Node::Choiceify(r) => all(&mut r.generic_args),
        Node::Choice(c) => all(&mut c.options),
        Node::Map(m) => all(&mut m.members),
        Node::Array(m) => all(&mut m.members),
        Node::ChoiceifyInline(m) => all(&mut m.members),
        Node::Group(m) => all(&mut m.members),
        Node::KeyValue(kv) => {
            each_literal(&mut kv.key, f);
            each_literal(&mut kv.value, f);
        }
        Node::Occur(o) => each_literal(&mut o.node, f),
        Node::Range(r) => {
            each_literal(&mut r.start, f);
            each_literal(&mut r.end, f);
        }
        Node::Control(ctl) => {
            let (x, y) = match ctl {
                Control::Size(c) => (&mut c.target, &mut c.size),
                Control::Lt(c) => (&mut c.target, &mut c.lt),
                Control::Le(c) => (&mut c.target, &mut c.le),
                Control::Gt(c) => (&mut c.target, &mut c.gt),
                Control::Ge(c) => (&mut c.target, &mut c.ge),
                _ => return,
            };
            each_literal(x, f);
            each_literal(y, f);
        }
        _ => {}
    }
}
fn each_occur(n: &mut Node, f: &dyn Fn(&mut OccurLimit)) {
    let all = |v: &mut Vec<Node>| {
        for x in v.iter_mut() {
            each_occur(x, f);
        }
    };
    match n {
        Node::Choice(c) => all(&mut c.options),
        Node::Map(m) => all(&mut m.members),
        Node::Array(m) => all(&mut m.members),
        Node::Group(m) => all(&mut m.members),
        Node::KeyValue(kv) => each_occur(&mut kv.value, f),
        Node::Occur(o) => {
            f(&mut o.limit);
            each_occur(&mut o.node, f);
        }
        _ => {}
    }
}
impl Sch {
    /// Replaces the limits of every occurrence written `5*6`.
    pub fn patch_limits(&mut self, lo: u64, hi: u64) {
        for rd in self.ctx.rules.values_mut() {
            each_occur(&mut rd.node, &|l| {
                if *l == OccurLimit::Numbered(5, 6) {
                    *l = OccurLimit::Numbered(lo as usize, hi as usize);
                }
            });
        }
        self.re.patch_limits(lo, hi);
    }
    /// Like `agree`, where it does not depend on which of several fitting map
    /// entries a member takes.
    pub fn agree_any_order(&self, rule: &str, v: &V, id: &'static str) -> u8 {
        let a = self.expect(rule, v);
        self.re.rev.set(true);
        let b = self.expect(rule, v);
        self.re.rev.set(false);
        if a != b {
            sym::reach("ambiguous");
            return 255;
        }
        self.agree(rule, v, id)
    }
}
