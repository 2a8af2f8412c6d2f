//! Hash-consed bit-vector expression DAG with simplification, concrete
//! evaluation and support (free-variable) sets.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    // floating point (IEEE bit patterns)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpCvt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const SUPW: usize = 4;
pub type Sup = [u64; SUPW];
pub const MAXVARS: usize = 64 * SUPW;

pub fn sup_or(a: &Sup, b: &Sup) -> Sup {
    let mut r = *a;
    for i in 0..SUPW {
        r[i] |= b[i];
    }
    r
}
pub fn sup_meets(a: &Sup, b: &Sup) -> bool {
    (0..SUPW).any(|i| a[i] & b[i] != 0)
}
pub fn sup_subset(a: &Sup, b: &Sup) -> bool {
    (0..SUPW).all(|i| a[i] & !b[i] == 0)
}
pub fn sup_empty(a: &Sup) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn sup_single(a: &Sup) -> Option<usize> {
    let n: u32 = a.iter().map(|x| x.count_ones()).sum();
    if n != 1 {
        return None;
    }
    for i in 0..SUPW {
        if a[i] != 0 {
            return Some(i * 64 + a[i].trailing_zeros() as usize);
        }
    }
    None
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    rng: Vec<(u128, u128)>,
    consts: Vec<u128>,
    cmap: FxMap<(u16, u128), Ex>,
    map: FxMap<Node, Ex>,
    pub tt: FxMap<Ex, [u64; 4]>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();

pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            ARENA = Box::leak(Box::new(Arena {
                nodes: vec![],
                sup: vec![],
                rng: vec![],
                consts: vec![],
                cmap: Default::default(),
                map: Default::default(),
                tt: Default::default(),
            }));
            // index 0 is reserved so that "0" can mean "concrete byte"
            (*ARENA).raw(
                Node {
                    op: Op::Const,
                    w: 0,
                    a: 0,
                    b: 0,
                    c: 0,
                },
                [0; SUPW],
                (0, 0),
            );
            (*ARENA).consts.push(0);
        }
        &mut *ARENA
    }
}

impl Arena {
    fn raw(&mut self, n: Node, s: Sup, r: (u128, u128)) -> Ex {
        let id = self.nodes.len() as Ex;
        self.nodes.push(n);
        self.sup.push(s);
        self.rng.push(r);
        id
    }
    fn intern(&mut self, n: Node) -> Ex {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let mut s = [0u64; SUPW];
        match n.op {
            Op::Var => s[(n.a / 64) as usize] |= 1 << (n.a % 64),
            Op::Not
            | Op::Extract
            | Op::ZExt
            | Op::SExt
            | Op::FpToSi
            | Op::FpToUi
            | Op::SiToFp
            | Op::UiToFp
            | Op::FpCvt => s = self.sup[n.a as usize],
            Op::Ite => {
                s = sup_or(&self.sup[n.a as usize], &self.sup[n.b as usize]);
                s = sup_or(&s, &self.sup[n.c as usize]);
            }
            _ => s = sup_or(&self.sup[n.a as usize], &self.sup[n.b as usize]),
        }
        let r = self.range_of(&n);
        let id = self.raw(n, s, r);
        self.map.insert(n, id);
        id
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w as u32);
        let full = (0, m);
        let ra = |e: Ex| self.rng[e as usize];
        match n.op {
            Op::Add => {
                let (a, b) = (ra(n.a), ra(n.b));
                match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                    (Some(h), Some(l)) if h <= m => (l, h),
                    _ => {
                        // constant addition that always wraps
                        if n.w < 128 {
                            let (l, h) = (a.0 + b.0, a.1 + b.1);
                            if l > m {
                                (l - m - 1, h - m - 1)
                            } else {
                                full
                            }
                        } else {
                            full
                        }
                    }
                }
            }
            Op::Sub => {
                let (a, b) = (ra(n.a), ra(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (ra(n.a), ra(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (ra(n.a), ra(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (ra(n.a), ra(n.b));
                if b.0 > 0 {
                    if a.1 < b.0 {
                        a
                    } else {
                        (0, (b.1 - 1).min(a.1))
                    }
                } else {
                    full
                }
            }
            Op::And => (0, ra(n.a).1.min(ra(n.b).1)),
            Op::Or => {
                let (a, b) = (ra(n.a), ra(n.b));
                let hb = 128 - (a.1 | b.1).leading_zeros();
                (a.0.max(b.0), mask(hb))
            }
            Op::Xor => {
                let (a, b) = (ra(n.a), ra(n.b));
                let hb = 128 - (a.1 | b.1).leading_zeros();
                (0, mask(hb))
            }
            Op::LShr => {
                let (a, b) = (ra(n.a), ra(n.b));
                if b.0 == b.1 && b.0 < 128 {
                    (a.0 >> b.0, a.1 >> b.0)
                } else {
                    (0, a.1)
                }
            }
            Op::Ite => {
                let (a, b) = (ra(n.b), ra(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w as u32;
                let (a, b) = (ra(n.a), ra(n.b));
                ((a.0 << lw) | b.0, (a.1 << lw) | b.1)
            }
            Op::ZExt => ra(n.a),
            Op::Extract => {
                let a = ra(n.a);
                let lo = n.b;
                let (l, h) = (a.0 >> lo, a.1 >> lo);
                if h <= m {
                    (l, h)
                } else {
                    full
                }
            }
            _ => full,
        }
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn range(&self, e: Ex) -> (u128, u128) {
        self.rng[e as usize]
    }
    pub fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    pub fn cval(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn k(&mut self, w: u32, v: u128) -> Ex {
        assert!(w > 0 && w <= 128, "const width {}", w);
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(w as u16, v)) {
            return *e;
        }
        let idx = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.raw(
            Node {
                op: Op::Const,
                w: w as u16,
                a: idx,
                b: 0,
                c: 0,
            },
            [0; SUPW],
            (v, v),
        );
        self.cmap.insert((w as u16, v), id);
        id
    }
    pub fn var(&mut self, idx: usize, w: u32) -> Ex {
        assert!(idx < MAXVARS, "too many symbolic variables");
        self.intern(Node {
            op: Op::Var,
            w: w as u16,
            a: idx as u32,
            b: 0,
            c: 0,
        })
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = self.n(a);
        let w = n.w as u32;
        if let Some(v) = self.cval(a) {
            return self.k(w, !v);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if w == 1 {
            // not (a < b) -> b <= a
            match n.op {
                Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.intern(Node {
            op: Op::Not,
            w: w as u16,
            a,
            b: 0,
            c: 0,
        })
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::Eq, a, b)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let cn = self.n(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let bn = self.n(b);
        if bn.op == Op::Ite && bn.b == a {
            let cc = self.bin(Op::Or, c, bn.a);
            return self.ite(cc, a, bn.c);
        }
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.intern(Node {
            op: Op::Ite,
            w: w as u16,
            a: c,
            b: a,
            c: b,
        })
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        debug_assert!((n.w as u32) < w);
        if let Some(v) = self.cval(a) {
            return self.k(w, v);
        }
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.intern(Node {
            op: Op::ZExt,
            w: w as u16,
            a,
            b: 0,
            c: 0,
        })
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.k(w, sext(v, aw) as u128);
        }
        let r = self.range(a);
        if r.1 < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        match n.op {
            Op::SExt => return self.sext(n.a, w),
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.sext(n.b, w);
                    let y = self.sext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if aw == 1 {
            let o = self.k(w, u128::MAX);
            let z = self.k(w, 0);
            return self.ite(a, o, z);
        }
        self.intern(Node {
            op: Op::SExt,
            w: w as u16,
            a,
            b: 0,
            c: 0,
        })
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let n = self.n(a);
        let aw = n.w as u32;
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw, "extract {} {} from {}", lo, w, aw);
        if let Some(v) = self.cval(a) {
            return self.k(w, v >> lo);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor if self.cval(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && self.cval(n.b).is_some() => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        // known-zero upper bits
        let r = self.range(a);
        if lo < 128 && (r.1 >> lo) == 0 {
            return self.k(w, 0);
        }
        self.intern(Node {
            op: Op::Extract,
            w: w as u16,
            a,
            b: lo,
            c: 0,
        })
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w as u32 + ln.w as u32;
        assert!(w <= 128, "concat too wide {}", w);
        if let Some(hv) = self.cval(h) {
            if let Some(lv) = self.cval(l) {
                return self.k(w, (hv << ln.w) | lv);
            }
            if hv == 0 {
                return self.zext(l, w);
            }
        }
        // merge adjacent extracts
        if hn.op == Op::Extract
            && ln.op == Op::Extract
            && hn.a == ln.a
            && hn.b == ln.b + ln.w as u32
        {
            return self.extract(hn.a, ln.b, w);
        }
        // concat(extract(x, k..), x[0..k] where l = whole lower? ) : x = zext form
        if hn.op == Op::Extract && hn.a == l && false {
            return l;
        }
        if hn.op == Op::ZExt {
            let x = self.concat(hn.a, l);
            return self.zext(x, w);
        }
        // concat(extract(x,hi), concat(extract(x,mid), rest))
        if ln.op == Op::Concat {
            let lh = self.n(ln.a);
            if hn.op == Op::Extract
                && lh.op == Op::Extract
                && hn.a == lh.a
                && hn.b == lh.b + lh.w as u32
            {
                let m = self.extract(hn.a, lh.b, hn.w as u32 + lh.w as u32);
                return self.concat(m, ln.b);
            }
            if let (Some(hv), Some(mv)) = (self.cval(h), self.cval(ln.a)) {
                let m = self.k(hn.w as u32 + lh.w as u32, (hv << lh.w) | mv);
                return self.concat(m, ln.b);
            }
        }
        if hn.op == Op::Concat {
            let hl = self.n(hn.b);
            if ln.op == Op::Extract
                && hl.op == Op::Extract
                && hl.a == ln.a
                && hl.b == ln.b + ln.w as u32
            {
                let m = self.extract(ln.a, ln.b, hl.w as u32 + ln.w as u32);
                return self.concat(hn.a, m);
            }
        }
        // same-condition ite pieces with constants
        if hn.op == Op::Ite && ln.op == Op::Ite && hn.a == ln.a {
            let x = self.concat(hn.b, ln.b);
            let y = self.concat(hn.c, ln.c);
            return self.ite(hn.a, x, y);
        }
        self.intern(Node {
            op: Op::Concat,
            w: w as u16,
            a: h,
            b: l,
            c: 0,
        })
    }
    fn trailing_zeros(&self, e: Ex) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                let v = self.cval(e).unwrap();
                if v == 0 {
                    n.w as u32
                } else {
                    v.trailing_zeros()
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let t = self.trailing_zeros(n.b);
                if t == lw {
                    lw + self.trailing_zeros(n.a)
                } else {
                    t
                }
            }
            Op::ZExt | Op::SExt => {
                let t = self.trailing_zeros(n.a);
                t
            }
            Op::Ite => self.trailing_zeros(n.b).min(self.trailing_zeros(n.c)),
            _ => 0,
        }
    }
    pub fn tz(&self, e: Ex) -> u32 {
        self.trailing_zeros(e)
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::Or, a, b)
    }
    fn cmp_w(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
    }
    pub fn bin(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if Self::cmp_w(op) { 1 } else { w };
        let (mut ca, mut cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = eval_bin(op, w, x, y) {
                return self.k(rw, v);
            }
        }
        // canonical: constant on the right for commutative ops
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        let an = self.n(a);
        let bn = self.n(b);
        let m = mask(w);
        // push through ite with constants
        if let Some(_) = cb {
            if an.op == Op::Ite
                && self.cval(an.b).is_some()
                && (self.cval(an.c).is_some() || self.n(an.c).op == Op::Ite)
                && !matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem)
                && w > 1
            {
                let x = self.bin(op, an.b, b);
                let y = self.bin(op, an.c, b);
                return self.ite(an.a, x, y);
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = cb {
                    if an.op == Op::Add {
                        if let Some(k2) = self.cval(an.b) {
                            let kk = self.k(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, an.a, kk);
                        }
                    }
                } else {
                    // float constants outwards: (x + c) + y -> (x + y) + c
                    if an.op == Op::Add {
                        if let Some(_) = self.cval(an.b) {
                            let s = self.bin(Op::Add, an.a, b);
                            return self.bin(Op::Add, s, an.b);
                        }
                    }
                    if bn.op == Op::Add {
                        if let Some(_) = self.cval(bn.b) {
                            let s = self.bin(Op::Add, a, bn.a);
                            return self.bin(Op::Add, s, bn.b);
                        }
                    }
                }
            }
            Op::Sub => {
                if let Some(k) = cb {
                    let kk = self.k(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, kk);
                }
                if a == b {
                    return self.k(w, 0);
                }
                // (x + c) - x etc.
                if an.op == Op::Add && an.a == b {
                    return an.b;
                }
                if an.op == Op::Add && self.cval(an.b).is_some() {
                    let s = self.bin(Op::Sub, an.a, b);
                    return self.bin(Op::Add, s, an.b);
                }
                if bn.op == Op::Add {
                    if let Some(k) = self.cval(bn.b) {
                        let s = self.bin(Op::Sub, a, bn.a);
                        let kk = self.k(w, k.wrapping_neg());
                        return self.bin(Op::Add, s, kk);
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if self.range(a).1 < k && k != 0 {
                        return self.k(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.k(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if self.range(a).1 < k && k != 0 {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if an.op == Op::And {
                        if let Some(k2) = self.cval(an.b) {
                            let kk = self.k(w, k & k2);
                            return self.bin(Op::And, an.a, kk);
                        }
                    }
                    // low mask
                    if (k & (k + 1)) == 0 {
                        let lw = k.trailing_ones();
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                    // contiguous mask
                    let tz = k.trailing_zeros();
                    let sh = k >> tz;
                    if (sh & (sh + 1)) == 0 {
                        let lw = sh.trailing_ones();
                        let x = self.extract(a, tz, lw);
                        let z = self.k(tz, 0);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                    if an.op == Op::ZExt {
                        let iw = self.w(an.a);
                        let kk = self.k(iw, k);
                        let x = self.bin(Op::And, an.a, kk);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    if an.op == Op::Not && an.a == b || bn.op == Op::Not && bn.a == a {
                        return self.k(1, 0);
                    }
                    // absorption: a & (a | x)
                    if bn.op == Op::Or && (bn.a == a || bn.b == a) {
                        return a;
                    }
                    if an.op == Op::Or && (an.a == b || an.b == b) {
                        return b;
                    }
                    if bn.op == Op::And && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if an.op == Op::And && (an.a == b || an.b == b) {
                        return a;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    if an.op == Op::Not && an.a == b || bn.op == Op::Not && bn.a == a {
                        return self.k(1, 1);
                    }
                    if bn.op == Op::And && (bn.a == a || bn.b == a) {
                        return a;
                    }
                    if an.op == Op::And && (an.a == b || an.b == b) {
                        return b;
                    }
                    if bn.op == Op::Or && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if an.op == Op::Or && (an.a == b || an.b == b) {
                        return a;
                    }
                } else {
                    // disjoint pieces -> concat
                    for (x, y) in [(a, b), (b, a)] {
                        let t = self.tz(x);
                        if t > 0 && t < w {
                            let ry = self.range(y);
                            if ry.1 < (1u128 << t) {
                                let h = self.extract(x, t, w - t);
                                let l = self.extract(y, 0, t);
                                return self.concat(h, l);
                            }
                        }
                    }
                    // both are concats/zexts splitting at the same place
                    let sp = |s: &Self, n: &Node| -> Option<u32> {
                        match n.op {
                            Op::Concat => Some(s.w(n.b)),
                            Op::ZExt => Some(s.w(n.a)),
                            _ => None,
                        }
                    };
                    if an.op == Op::Concat || bn.op == Op::Concat {
                        let c = if an.op == Op::Concat {
                            sp(self, &an)
                        } else {
                            sp(self, &bn)
                        };
                        if let Some(c) = c {
                            let ok = |s: &Self, n: &Node, e: Ex| -> bool {
                                s.cval(e).is_some() || matches!(n.op, Op::Concat | Op::ZExt)
                            };
                            if ok(self, &an, a) && ok(self, &bn, b) {
                                let ha = self.extract(a, c, w - c);
                                let hb = self.extract(b, c, w - c);
                                let la = self.extract(a, 0, c);
                                let lb = self.extract(b, 0, c);
                                let h = self.bin(Op::Or, ha, hb);
                                let l = self.bin(Op::Or, la, lb);
                                return self.concat(h, l);
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.k(w, 0);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                    if an.op == Op::Xor {
                        if let Some(k2) = self.cval(an.b) {
                            let kk = self.k(w, k ^ k2);
                            return self.bin(Op::Xor, an.a, kk);
                        }
                    }
                    if an.op == Op::ZExt && k < (1u128 << self.w(an.a).min(127)) {
                        let iw = self.w(an.a);
                        let kk = self.k(iw, k);
                        let x = self.bin(Op::Xor, an.a, kk);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(w, 0);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.k(k, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(w, 0);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if w == 1 {
                    match cb {
                        Some(1) => return a,
                        Some(0) => return self.not(a),
                        _ => {}
                    }
                }
                let (ra, rb) = (self.range(a), self.range(b));
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    return self.k(1, 0);
                }
                if let Some(k) = cb {
                    match an.op {
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if k > mask(iw) {
                                return self.k(1, 0);
                            }
                            let kk = self.k(iw, k);
                            return self.eq(an.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(an.a);
                            let t = sext(k & mask(iw), iw) as u128 & m;
                            if t != k {
                                return self.k(1, 0);
                            }
                            let kk = self.k(iw, k);
                            return self.eq(an.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(an.b);
                            let kh = self.k(w - lw, k >> lw);
                            let kl = self.k(lw, k);
                            let x = self.eq(an.a, kh);
                            let y = self.eq(an.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cval(an.b) {
                                let kk = self.k(w, k.wrapping_sub(k2));
                                return self.eq(an.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cval(an.b) {
                                let kk = self.k(w, k ^ k2);
                                return self.eq(an.a, kk);
                            }
                        }
                        Op::Not => {
                            let kk = self.k(w, !k);
                            return self.eq(an.a, kk);
                        }
                        Op::Ite => {
                            if let Some(x) = self.cval(an.b) {
                                if x != k {
                                    let nc = self.not(an.a);
                                    let y = self.eq(an.c, b);
                                    return self.bin(Op::And, nc, y);
                                } else {
                                    let y = self.eq(an.c, b);
                                    return self.bin(Op::Or, an.a, y);
                                }
                            }
                            if let Some(x) = self.cval(an.c) {
                                if x != k {
                                    let y = self.eq(an.b, b);
                                    return self.bin(Op::And, an.a, y);
                                } else {
                                    let nc = self.not(an.a);
                                    let y = self.eq(an.b, b);
                                    return self.bin(Op::Or, nc, y);
                                }
                            }
                        }
                        _ => {}
                    }
                } else {
                    if an.op == Op::ZExt && bn.op == Op::ZExt {
                        let (x, y) = (self.w(an.a), self.w(bn.a));
                        let t = x.max(y);
                        let p = self.zext(an.a, t);
                        let q = self.zext(bn.a, t);
                        return self.eq(p, q);
                    }
                    if an.op == Op::SExt && bn.op == Op::SExt && self.w(an.a) == self.w(bn.a) {
                        return self.eq(an.a, bn.a);
                    }
                    if an.op == Op::Concat && bn.op == Op::Concat && self.w(an.a) == self.w(bn.a) {
                        let x = self.eq(an.a, bn.a);
                        let y = self.eq(an.b, bn.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.k(1, (op == Op::Ule) as u128);
                }
                let (ra, rb) = (self.range(a), self.range(b));
                if op == Op::Ult {
                    if ra.1 < rb.0 {
                        return self.k(1, 1);
                    }
                    if ra.0 >= rb.1 {
                        return self.k(1, 0);
                    }
                } else {
                    if ra.1 <= rb.0 {
                        return self.k(1, 1);
                    }
                    if ra.0 > rb.1 {
                        return self.k(1, 0);
                    }
                }
                // x < 1 -> x == 0 ; x <= 0 -> x == 0
                if cb == Some(1) && op == Op::Ult || cb == Some(0) && op == Op::Ule {
                    let z = self.k(w, 0);
                    return self.eq(a, z);
                }
                if ca == Some(0) && op == Op::Ult {
                    let z = self.k(w, 0);
                    let e = self.eq(b, z);
                    return self.not(e);
                }
                // canonical: const compare as Ule/Ult with zext stripped
                if let Some(k) = cb {
                    if an.op == Op::ZExt {
                        let iw = self.w(an.a);
                        if k > mask(iw) {
                            return self.k(1, 1);
                        }
                        let kk = self.k(iw, k);
                        return self.bin(op, an.a, kk);
                    }
                    if op == Op::Ult {
                        let kk = self.k(w, k - 1);
                        return self.bin(Op::Ule, a, kk);
                    }
                    if an.op == Op::Concat && self.tz(an.b) == self.w(an.b) {
                        // (h:0) <= k  <=> h <= k >> lw
                        let lw = self.w(an.b);
                        let kk = self.k(w - lw, k >> lw);
                        return self.bin(Op::Ule, an.a, kk);
                    }
                }
                if let Some(k) = ca {
                    if bn.op == Op::ZExt {
                        let iw = self.w(bn.a);
                        if k > mask(iw) {
                            return self.k(1, 0);
                        }
                        let kk = self.k(iw, k);
                        return self.bin(op, kk, bn.a);
                    }
                    if op == Op::Ult && k < m {
                        let kk = self.k(w, k + 1);
                        return self.bin(Op::Ule, kk, b);
                    }
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt {
                    let (x, y) = (self.w(an.a), self.w(bn.a));
                    let t = x.max(y);
                    if t < w {
                        let p = self.zext(an.a, t);
                        let q = self.zext(bn.a, t);
                        return self.bin(op, p, q);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.k(1, (op == Op::Sle) as u128);
                }
                let half = 1u128 << (w - 1);
                let (ra, rb) = (self.range(a), self.range(b));
                if ra.1 < half && rb.1 < half {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                // sext on one side with constant in range
                if an.op == Op::SExt {
                    if let Some(k) = cb {
                        let iw = self.w(an.a);
                        let kv = sext(k, w);
                        let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                        if kv > hi {
                            return self.k(1, 1);
                        }
                        if kv < lo {
                            return self.k(1, 0);
                        }
                        let kk = self.k(iw, k);
                        return self.bin(op, an.a, kk);
                    }
                    if bn.op == Op::SExt && self.w(an.a) == self.w(bn.a) {
                        return self.bin(op, an.a, bn.a);
                    }
                }
                if bn.op == Op::SExt {
                    if let Some(k) = ca {
                        let iw = self.w(bn.a);
                        let kv = sext(k, w);
                        let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                        if kv > hi {
                            return self.k(1, 0);
                        }
                        if kv < lo {
                            return self.k(1, 1);
                        }
                        let kk = self.k(iw, k);
                        return self.bin(op, kk, bn.a);
                    }
                }
                if ra.1 < half && ca.is_none() {
                    if let Some(k) = cb {
                        if k >= half {
                            return self.k(1, 0);
                        }
                    }
                }
                if rb.1 < half {
                    if let Some(k) = ca {
                        if k >= half {
                            return self.k(1, 1);
                        }
                    }
                }
            }
            _ => {}
        }
        self.intern(Node {
            op,
            w: rw as u16,
            a,
            b,
            c: 0,
        })
    }
    pub fn fun(&mut self, op: Op, a: Ex, w: u32) -> Ex {
        if let Some(v) = self.cval(a) {
            if let Some(r) = eval_cvt(op, self.w(a), w, v) {
                return self.k(w, r);
            }
        }
        self.intern(Node {
            op,
            w: w as u16,
            a,
            b: 0,
            c: 0,
        })
    }
    pub fn support(&self, e: Ex) -> &Sup {
        &self.sup[e as usize]
    }

    // ---- floating point comparisons over bit patterns ----
    fn fparts(w: u32) -> (u32, u32) {
        match w {
            16 => (5, 10),
            32 => (8, 23),
            64 => (11, 52),
            _ => panic!("float width {}", w),
        }
    }
    pub fn f_isnan(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let (_e, m) = Self::fparts(w);
        let x = self.extract(a, 0, w - 1);
        let inf = self.k(w - 1, mask(w - 1 - m) << m);
        self.bin(Op::Ult, inf, x)
    }
    pub fn f_eq(&mut self, a: Ex, b: Ex) -> Ex {
        // ordered equal
        let w = self.w(a);
        let (na, nb) = (self.f_isnan(a), self.f_isnan(b));
        let bits = self.eq(a, b);
        let (xa, xb) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
        let o = self.or(xa, xb);
        let z = self.k(w - 1, 0);
        let bothzero = self.eq(o, z);
        let e = self.or(bits, bothzero);
        let n = self.or(na, nb);
        let nn = self.not(n);
        self.and(nn, e)
    }
    pub fn f_lt(&mut self, a: Ex, b: Ex, orequal: bool) -> Ex {
        let w = self.w(a);
        let (na, nb) = (self.f_isnan(a), self.f_isnan(b));
        let (sa, sb) = (self.extract(a, w - 1, 1), self.extract(b, w - 1, 1));
        let (xa, xb) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
        let o = self.or(xa, xb);
        let z = self.k(w - 1, 0);
        let bothzero = self.eq(o, z);
        // a<b: sa&&!sb: !bothzero ; !sa&&!sb: xa<xb ; sa&&sb: xb<xa ; !sa&&sb: false
        let op = if orequal { Op::Ule } else { Op::Ult };
        let pp = self.bin(op, xa, xb);
        let nnn = self.bin(op, xb, xa);
        let one = self.k(1, 1);
        let mixed = if orequal { one } else { self.not(bothzero) };
        let mixed2 = if orequal { bothzero } else { self.k(1, 0) };
        let t1 = self.ite(sb, nnn, mixed);
        let t2 = self.ite(sb, mixed2, pp);
        let r = self.ite(sa, t1, t2);
        let n = self.or(na, nb);
        let nn = self.not(n);
        self.and(nn, r)
    }

    /// Truth table of a 1-bit expression over a single variable of at most 8 bits.
    pub fn truth(&mut self, e: Ex, var: usize, vw: u32) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let mut memo: FxMap<Ex, u128> = Default::default();
        for v in 0..(1usize << vw) {
            memo.clear();
            if self.eval_with(e, &|i| if i == var { v as u128 } else { 0 }, &mut memo) != 0 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.tt.insert(e, t);
        t
    }

    pub fn eval_with(&self, e: Ex, f: &dyn Fn(usize) -> u128, memo: &mut FxMap<Ex, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return f(n.a as usize) & mask(n.w as u32),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Not => !self.eval_with(n.a, f, memo) & mask(w),
            Op::Ite => {
                if self.eval_with(n.a, f, memo) != 0 {
                    self.eval_with(n.b, f, memo)
                } else {
                    self.eval_with(n.c, f, memo)
                }
            }
            Op::Concat => {
                let h = self.eval_with(n.a, f, memo);
                let l = self.eval_with(n.b, f, memo);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.eval_with(n.a, f, memo) >> n.b) & mask(w),
            Op::ZExt => self.eval_with(n.a, f, memo),
            Op::SExt => sext(self.eval_with(n.a, f, memo), self.w(n.a)) as u128 & mask(w),
            Op::FpToSi | Op::FpToUi | Op::SiToFp | Op::UiToFp | Op::FpCvt => {
                let a = self.eval_with(n.a, f, memo);
                eval_cvt(n.op, self.w(n.a), w, a).expect("float conversion")
            }
            op => {
                let a = self.eval_with(n.a, f, memo);
                let b = self.eval_with(n.b, f, memo);
                eval_bin(op, self.w(n.a), a, b).unwrap_or(match op {
                    Op::UDiv | Op::SDiv => mask(w),
                    _ => a,
                })
            }
        };
        memo.insert(e, v);
        v
    }
}

pub fn eval_bin(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_div(sext(b, w)) as u128 & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_rem(sext(b, w)) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1);
            (sext(a, w) >> s) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => match w {
            64 => {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                let r = match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            }
            32 => {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            }
            _ => panic!("float op width {}", w),
        },
        _ => panic!("eval_bin {:?}", op),
    })
}

fn f16_to_f64(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 1023) as f64;
    if e == 0 {
        s * m * (2f64).powi(-24)
    } else if e == 31 {
        if m == 0.0 {
            s * f64::INFINITY
        } else {
            f64::from_bits(
                ((h as u64 & 0x8000) << 48)
                    | (0x7ffu64 << 52)
                    | ((h as u64 & 1023) << 42)
                    | (1 << 51),
            )
        }
    } else {
        s * (1.0 + m / 1024.0) * (2f64).powi(e - 15)
    }
}

fn f64_to_f16(f: f64) -> u16 {
    // round to nearest even by search over the candidates
    let s = if f.is_sign_negative() { 0x8000u16 } else { 0 };
    let a = f.abs();
    if a.is_nan() {
        return s | 0x7e00;
    }
    if a >= 65520.0 {
        return s | 0x7c00;
    }
    let (mut lo, mut hi) = (0u16, 0x7bffu16);
    while lo < hi {
        let mid = (lo + hi + 1) / 2;
        if f16_to_f64(mid) <= a {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    let (x, y) = (
        f16_to_f64(lo),
        if lo == 0x7bff {
            65536.0
        } else {
            f16_to_f64(lo + 1)
        },
    );
    let (dx, dy) = (a - x, y - a);
    let r = if dx < dy || (dx == dy && lo & 1 == 0) {
        lo
    } else {
        lo + 1
    };
    s | r
}

pub fn eval_cvt(op: Op, fw: u32, tw: u32, a: u128) -> Option<u128> {
    let asf = |v: u128| -> f64 {
        match fw {
            64 => f64::from_bits(v as u64),
            32 => f32::from_bits(v as u32) as f64,
            16 => f16_to_f64(v as u16),
            _ => panic!("float width {}", fw),
        }
    };
    Some(match op {
        Op::FpCvt => {
            let x = asf(a);
            match tw {
                64 => x.to_bits() as u128,
                32 => (x as f32).to_bits() as u128,
                16 => f64_to_f16(x) as u128,
                _ => return None,
            }
        }
        Op::FpToSi => (asf(a) as i128) as u128 & mask(tw),
        Op::FpToUi => (asf(a) as u128) & mask(tw),
        Op::SiToFp => {
            let v = sext(a, fw);
            match tw {
                64 => (v as f64).to_bits() as u128,
                32 => (v as f32).to_bits() as u128,
                _ => return None,
            }
        }
        Op::UiToFp => match tw {
            64 => (a as f64).to_bits() as u128,
            32 => (a as f32).to_bits() as u128,
            _ => return None,
        },
        _ => return None,
    })
}
