//! Symbolic executor over decoded LLVM IR: states, memory, forking, stubs.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;

pub const PG: usize = 1024;

#[derive(Clone)]
pub struct Page {
    b: [u8; PG],
    s: Option<Box<[Ex; PG]>>,
}

#[derive(Clone, Default)]
pub struct Mem {
    rw: Vec<Option<Rc<Page>>>,
    st: Vec<Option<Rc<Page>>>,
    hp: Vec<Option<Rc<Page>>>,
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    block: u32,
    ip: u32,
    base: u32,
    sp: u64,
    dst: Option<u32>,
    edge: Option<&'static Edge>,
    invoke_done: bool,
}

#[derive(Clone, Debug)]
pub enum Input {
    Var(usize),
    Choice(u64),
}

#[derive(Clone)]
pub struct State {
    pub entry: u32,
    frames: Vec<Frame>,
    regs: Vec<Val>,
    mem: Mem,
    sp: u64,
    heap: u64,
    pc: Vec<Ex>,
    known: FxMap<Ex, bool>,
    pub model: Vec<u128>,
    pub widths: Vec<u16>,
    dom: Vec<[u64; 4]>,
    linked: Sup,
    fixed: Sup,
    pub inputs: Vec<Input>,
    forced: Option<u64>,
    pub obs: Vec<Vec<Val>>,
    pub steps: u64,
    pub forks: u32,
    /// Text formatting is executed, not skipped.
    formats: bool,
}

#[derive(Clone, Debug)]
pub enum End {
    /// Not at its end: other work may go first.
    Yield,
    Done,
    Infeasible,
    Panic(String),
    Hang,
    Overflow,
    Error(String),
}

/// Control flow inside an instruction: the path ends.
pub struct Stop(pub End);
type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop(End::Error(s.into())))
}

pub struct Failure {
    pub entry: u32,
    pub kind: String,
    pub id: String,
    pub inputs: Vec<(String, u32, u128)>,
    pub detail: String,
}

pub struct Exec {
    pub prog: Prog,
    pub solver: Solver,
    pub work: Vec<State>,
    pub max_instr: u64,
    pub max_depth: usize,
    memo: FxMap<Ex, u128>,
    pub failures: Vec<Failure>,
    pub fail_keys: FxMap<(u32, String), u32>,
    pub reach: FxMap<(u32, String), u64>,
    pub asserts: u64,
    pub assert_queries: u64,
    pub tt_decisions: u64,
    pub forks: u64,
    pub instrs: u64,
    pub called: FxMap<u32, u64>,
    pub trace: bool,
    trace_ins: bool,
    pub ghost: Vec<u64>,
}

// ---- stubs -------------------------------------------------------------
pub mod s {
    pub const NONE: u32 = 0;
    pub const NOP: u32 = 1;
    pub const MEMCPY: u32 = 2;
    pub const MEMSET: u32 = 3;
    pub const UMIN: u32 = 4;
    pub const UMAX: u32 = 5;
    pub const SMIN: u32 = 6;
    pub const SMAX: u32 = 7;
    pub const FSHL: u32 = 8;
    pub const FSHR: u32 = 9;
    pub const BSWAP: u32 = 10;
    pub const CTTZ: u32 = 11;
    pub const CTLZ: u32 = 12;
    pub const CTPOP: u32 = 13;
    pub const BITREV: u32 = 14;
    pub const UADDO: u32 = 15;
    pub const USUBO: u32 = 16;
    pub const UMULO: u32 = 17;
    pub const SADDO: u32 = 18;
    pub const SSUBO: u32 = 19;
    pub const SMULO: u32 = 20;
    pub const UADDS: u32 = 21;
    pub const USUBS: u32 = 22;
    pub const SADDS: u32 = 23;
    pub const SSUBS: u32 = 24;
    pub const SCMP: u32 = 25;
    pub const UCMP: u32 = 26;
    pub const ABS: u32 = 27;
    pub const FABS: u32 = 28;
    pub const FALSE: u32 = 29;
    pub const ARG0: u32 = 30;
    pub const LOADREL: u32 = 31;
    pub const TRAP: u32 = 32;
    pub const PMOVMSKB: u32 = 33;
    pub const FPTOSI_SAT: u32 = 34;
    pub const FPTOUI_SAT: u32 = 35;
    pub const VREDUCE_OR: u32 = 36;
    pub const VREDUCE_AND: u32 = 37;
    pub const VREDUCE_ADD: u32 = 38;
    pub const FTRUNC: u32 = 39;
    pub const OBJSIZE: u32 = 41;
    pub const COPYSIGN: u32 = 42;
    pub const VREDUCE_UMAX: u32 = 43;
    pub const VREDUCE_UMIN: u32 = 44;
    pub const FROUND: u32 = 45;
    pub const FCONC: u32 = 46;
    pub const FMINMAX: u32 = 47;
    pub const ALLOC: u32 = 50;
    pub const ALLOCZ: u32 = 51;
    pub const REALLOC: u32 = 52;
    pub const DEALLOC: u32 = 53;
    pub const BCMP: u32 = 54;
    pub const MEMCMP: u32 = 55;
    pub const STRLEN: u32 = 56;
    pub const LIBMEMCPY: u32 = 57;
    pub const LIBMEMSET: u32 = 58;
    pub const PANICFMT: u32 = 60;
    pub const ABORT: u32 = 61;
    pub const FORMAT: u32 = 62;
    pub const FMTWRITE: u32 = 63;
    pub const RANDKEYS: u32 = 64;
    pub const ZERO: u32 = 65;
    pub const CPUS: u32 = 66;
    pub const SYM: u32 = 70;
    pub const CHOOSE: u32 = 71;
    pub const ASSUME: u32 = 72;
    pub const ASSERT: u32 = 73;
    pub const REACH: u32 = 74;
    pub const OBSERVE: u32 = 75;
    pub const CONCRETIZE: u32 = 76;
    pub const SYMBYTES: u32 = 77;
    pub const OBSBYTES: u32 = 78;
    pub const ISSYMEX: u32 = 79;
    pub const FORMATS: u32 = 80;
}

pub fn stub_id(n: &str) -> u32 {
    use s::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let t: &[(&str, u32)] = &[
            ("lifetime", NOP),
            ("experimental.noalias", NOP),
            ("dbg", NOP),
            ("assume", NOP),
            ("prefetch", NOP),
            ("invariant", NOP),
            ("x86.sse2.pause", NOP),
            ("memcpy", MEMCPY),
            ("memmove", MEMCPY),
            ("memset", MEMSET),
            ("umin.", UMIN),
            ("umax.", UMAX),
            ("smin.", SMIN),
            ("smax.", SMAX),
            ("fshl.", FSHL),
            ("fshr.", FSHR),
            ("bswap.", BSWAP),
            ("cttz.", CTTZ),
            ("ctlz.", CTLZ),
            ("ctpop.", CTPOP),
            ("bitreverse.", BITREV),
            ("uadd.with", UADDO),
            ("usub.with", USUBO),
            ("umul.with", UMULO),
            ("sadd.with", SADDO),
            ("ssub.with", SSUBO),
            ("smul.with", SMULO),
            ("uadd.sat", UADDS),
            ("usub.sat", USUBS),
            ("sadd.sat", SADDS),
            ("ssub.sat", SSUBS),
            ("scmp.", SCMP),
            ("ucmp.", UCMP),
            ("abs.", ABS),
            ("fabs.", FABS),
            ("is.constant", FALSE),
            ("expect", ARG0),
            ("threadlocal.address", ARG0),
            ("launder", ARG0),
            ("strip", ARG0),
            ("load.relative", LOADREL),
            ("trap", TRAP),
            ("x86.sse2.pmovmskb.128", PMOVMSKB),
            ("fptosi.sat", FPTOSI_SAT),
            ("fptoui.sat", FPTOUI_SAT),
            ("vector.reduce.or", VREDUCE_OR),
            ("vector.reduce.and", VREDUCE_AND),
            ("vector.reduce.add", VREDUCE_ADD),
            ("vector.reduce.umax", VREDUCE_UMAX),
            ("vector.reduce.umin", VREDUCE_UMIN),
            ("trunc.f", FTRUNC),
            ("floor.f", FROUND),
            ("ceil.f", FROUND),
            ("round.f", FROUND),
            ("roundeven.f", FROUND),
            ("rint.f", FROUND),
            ("nearbyint.f", FROUND),
            ("powi.f64", FCONC),
            ("pow.f64", FCONC),
            ("exp.f64", FCONC),
            ("exp2.f64", FCONC),
            ("log.f64", FCONC),
            ("log2.f64", FCONC),
            ("log10.f64", FCONC),
            ("sqrt.f64", FCONC),
            ("fma.f64", FCONC),
            ("minnum.", FMINMAX),
            ("minimumnum.", FMINMAX),
            ("maximumnum.", FMINMAX),
            ("maxnum.", FMINMAX),
            ("objectsize", OBJSIZE),
            ("copysign", COPYSIGN),
        ];
        for (p, i) in t {
            if r.starts_with(p) {
                return *i;
            }
        }
        return NONE;
    }
    match n {
        "memcmp" => return MEMCMP,
        "bcmp" => return BCMP,
        "strlen" => return STRLEN,
        "memcpy" | "memmove" => return LIBMEMCPY,
        "memset" => return LIBMEMSET,
        "abort" | "exit" | "_exit" => return ABORT,
        "__cxa_thread_atexit_impl" | "__cxa_atexit" => return ZERO,
        "__sym_note" => return NOP,
        "__sym_u8" | "__sym_u16" | "__sym_u32" | "__sym_u64" | "__sym_u128" => return SYM,
        "__sym_choose" => return CHOOSE,
        "__sym_assume" => return ASSUME,
        "__sym_assert" => return ASSERT,
        "__sym_reach" => return REACH,
        "__sym_observe" => return OBSERVE,
        "__sym_observe_bytes" => return OBSBYTES,
        "__sym_concretize" => return CONCRETIZE,
        "__sym_bytes" => return SYMBYTES,
        "__sym_is_symbolic" => return ISSYMEX,
        "__sym_formats" => return FORMATS,
        _ => {}
    }
    if n.ends_with("7___rustc12___rust_alloc") {
        return ALLOC;
    }
    if n.ends_with("7___rustc19___rust_alloc_zeroed") {
        return ALLOCZ;
    }
    if n.ends_with("7___rustc14___rust_realloc") {
        return REALLOC;
    }
    if n.ends_with("7___rustc14___rust_dealloc") {
        return DEALLOC;
    }
    if n.contains("35___rust_no_alloc_shim_is_unstable") {
        return NOP;
    }
    if n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.ends_with("17rust_begin_unwind")
    {
        return PANICFMT;
    }
    if n.contains("5alloc3fmt6format12format_inner")
        || n.ends_with("5alloc3fmt6format")
        || n.contains("3fmt6format12format_inner")
    {
        return FORMAT;
    }
    if n.contains("4core3fmt5write") && !n.contains("4core3fmt5writeB") && !n.contains("5write_") {
        return FMTWRITE;
    }
    if n.contains("19hashmap_random_keys") {
        return RANDKEYS;
    }
    if n.ends_with("6thread9functions21available_parallelism") {
        return CPUS;
    }
    NONE
}

impl Mem {
    fn seg(&self, a: u64) -> Option<&Vec<Option<Rc<Page>>>> {
        match a >> 32 {
            2 => Some(&self.rw),
            3 => Some(&self.st),
            4 => Some(&self.hp),
            _ => None,
        }
    }
    #[inline]
    fn page_mut(&mut self, prog: &Prog, a: u64) -> R<&mut Page> {
        let v = match a >> 32 {
            2 => &mut self.rw,
            3 => &mut self.st,
            4 => &mut self.hp,
            _ => return err(format!("store to invalid address {:#x}", a)),
        };
        let i = ((a & 0xffff_ffff) as usize) / PG;
        if i >= v.len() {
            if i > 1 << 20 {
                return err(format!("address out of range {:#x}", a));
            }
            v.resize(i + 1, None);
        }
        if v[i].is_none() {
            let mut p = Page {
                b: [0; PG],
                s: None,
            };
            if a >> 32 == 2 {
                let o = i * PG;
                if o < prog.rw.len() {
                    let e = (o + PG).min(prog.rw.len());
                    p.b[..e - o].copy_from_slice(&prog.rw[o..e]);
                }
            }
            v[i] = Some(Rc::new(p));
        }
        Ok(Rc::make_mut(v[i].as_mut().unwrap()))
    }
    /// one byte: (concrete value, shadow expr or 0)
    fn rd1(&self, prog: &Prog, a: u64) -> R<(u8, Ex)> {
        let o = (a & 0xffff_ffff) as usize;
        match a >> 32 {
            1 => {
                if o < prog.ro.len() {
                    return Ok((prog.ro[o], 0));
                }
            }
            2..=4 => {
                let v = self.seg(a).unwrap();
                if let Some(Some(p)) = v.get(o / PG) {
                    let k = o % PG;
                    return Ok((p.b[k], p.s.as_ref().map_or(0, |s| s[k])));
                }
                if a >> 32 == 2 {
                    return Ok((prog.rw.get(o).copied().unwrap_or(0), 0));
                }
                return Ok((0, 0));
            }
            _ => {}
        }
        err(format!("load from invalid address {:#x}", a))
    }
    /// little-endian concrete read of up to 16 bytes; None if any byte is symbolic
    #[inline]
    fn rdc(&self, prog: &Prog, a: u64, n: usize) -> R<Option<u128>> {
        let o = (a & 0xffff_ffff) as usize;
        let mut buf = [0u8; 16];
        match a >> 32 {
            1 => {
                if o + n <= prog.ro.len() {
                    buf[..n].copy_from_slice(&prog.ro[o..o + n]);
                    return Ok(Some(u128::from_le_bytes(buf)));
                }
                return err(format!("load from invalid address {:#x}", a));
            }
            2..=4 => {
                let k = o % PG;
                if k + n <= PG {
                    if let Some(Some(p)) = self.seg(a).unwrap().get(o / PG) {
                        if let Some(s) = &p.s {
                            if s[k..k + n].iter().any(|x| *x != 0) {
                                return Ok(None);
                            }
                        }
                        buf[..n].copy_from_slice(&p.b[k..k + n]);
                        return Ok(Some(u128::from_le_bytes(buf)));
                    }
                }
                for i in 0..n {
                    let (b, s) = self.rd1(prog, a + i as u64)?;
                    if s != 0 {
                        return Ok(None);
                    }
                    buf[i] = b;
                }
                Ok(Some(u128::from_le_bytes(buf)))
            }
            _ => err(format!("load from invalid address {:#x}", a)),
        }
    }
    #[inline]
    fn wrc(&mut self, prog: &Prog, a: u64, n: usize, v: u128) -> R<()> {
        let k = (a & 0xffff_ffff) as usize % PG;
        let bs = v.to_le_bytes();
        if k + n <= PG {
            let p = self.page_mut(prog, a)?;
            p.b[k..k + n].copy_from_slice(&bs[..n]);
            if let Some(s) = &mut p.s {
                s[k..k + n].iter_mut().for_each(|x| *x = 0);
            }
            return Ok(());
        }
        for i in 0..n {
            self.wr1(prog, a + i as u64, bs[i], 0)?;
        }
        Ok(())
    }
    fn wr1(&mut self, prog: &Prog, a: u64, b: u8, e: Ex) -> R<()> {
        let k = (a & 0xffff_ffff) as usize % PG;
        let p = self.page_mut(prog, a)?;
        p.b[k] = b;
        match &mut p.s {
            Some(s) => s[k] = e,
            None => {
                if e != 0 {
                    let mut s = Box::new([0; PG]);
                    s[k] = e;
                    p.s = Some(s);
                }
            }
        }
        Ok(())
    }
    fn copy(&mut self, prog: &Prog, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        // page-wise into a temporary, then out
        let mut b = vec![0u8; n as usize];
        let mut sh: Option<Vec<Ex>> = None;
        let mut i = 0usize;
        while i < n as usize {
            let a = s + i as u64;
            let o = (a & 0xffff_ffff) as usize;
            match a >> 32 {
                1 => {
                    let l = n as usize - i;
                    if o + l > prog.ro.len() {
                        return err(format!("copy from invalid address {:#x}", a));
                    }
                    b[i..i + l].copy_from_slice(&prog.ro[o..o + l]);
                    i += l;
                }
                2..=4 => {
                    let k = o % PG;
                    let l = (PG - k).min(n as usize - i);
                    if let Some(Some(p)) = self.seg(a).unwrap().get(o / PG) {
                        b[i..i + l].copy_from_slice(&p.b[k..k + l]);
                        if let Some(ss) = &p.s {
                            if ss[k..k + l].iter().any(|x| *x != 0) {
                                let v = sh.get_or_insert_with(|| vec![0; n as usize]);
                                v[i..i + l].copy_from_slice(&ss[k..k + l]);
                            }
                        }
                    } else if a >> 32 == 2 {
                        for j in 0..l {
                            b[i + j] = prog.rw.get(o + j).copied().unwrap_or(0);
                        }
                    }
                    i += l;
                }
                _ => return err(format!("copy from invalid address {:#x}", a)),
            }
        }
        let mut i = 0usize;
        while i < n as usize {
            let a = d + i as u64;
            let k = (a & 0xffff_ffff) as usize % PG;
            let l = (PG - k).min(n as usize - i);
            let p = self.page_mut(prog, a)?;
            p.b[k..k + l].copy_from_slice(&b[i..i + l]);
            match (&mut p.s, &sh) {
                (Some(x), Some(v)) => x[k..k + l].copy_from_slice(&v[i..i + l]),
                (Some(x), None) => x[k..k + l].iter_mut().for_each(|z| *z = 0),
                (None, Some(v)) => {
                    if v[i..i + l].iter().any(|z| *z != 0) {
                        let mut x = Box::new([0; PG]);
                        x[k..k + l].copy_from_slice(&v[i..i + l]);
                        p.s = Some(x);
                    }
                }
                (None, None) => {}
            }
            i += l;
        }
        Ok(())
    }
}

#[inline]
fn mk(e: Ex) -> Val {
    match ar().cval(e) {
        Some(c) => Val::C(c),
        None => Val::S(e),
    }
}
#[inline]
fn bits(v: &Val, w: u32) -> Ex {
    match v {
        Val::C(c) => ar().k(w, *c),
        Val::S(e) => *e,
        Val::A(_) => panic!("aggregate used as scalar"),
    }
}
/// Rounds the 64-bit float with these bits toward zero.
fn f64_trunc(x: Ex) -> Ex {
    let e = ar().extract(x, 52, 11);
    let e = ar().zext(e, 64);
    let sign = ar().k(64, 1 << 63);
    let sign = ar().bin(Op::And, x, sign);
    // how many bits of the fraction stay
    let k1023 = ar().k(64, 1023);
    let keep = ar().bin(Op::Sub, e, k1023);
    let k12 = ar().k(64, (-1i64 << 52) as u64 as u128);
    let m = ar().bin(Op::AShr, k12, keep);
    let cut = ar().bin(Op::And, x, m);
    let small = ar().bin(Op::Ult, e, k1023);
    let k1075 = ar().k(64, 1075);
    let frac = ar().bin(Op::Ult, e, k1075);
    let r = ar().ite(frac, cut, x);
    ar().ite(small, sign, r)
}
fn f64_round(name: &str, x: Ex) -> Ex {
    let t = f64_trunc(x);
    let sign = ar().k(64, 1 << 63);
    let sign = ar().bin(Op::And, x, sign);
    let zero = ar().k(64, 0);
    let neg = ar().eq(sign, zero);
    let neg = ar().not(neg);
    let whole = ar().eq(t, x);
    let one = ar().k(64, 1f64.to_bits() as u128);
    let with_sign = |f: f64| {
        let k = ar().k(64, f.to_bits() as u128);
        ar().bin(Op::Or, k, sign)
    };
    if name.contains("floor") {
        let d = ar().bin(Op::FSub, t, one);
        let r = ar().ite(neg, d, t);
        ar().ite(whole, x, r)
    } else if name.contains("ceil") {
        let u = ar().bin(Op::FAdd, t, one);
        let r = ar().ite(neg, t, u);
        ar().ite(whole, x, r)
    } else if name.contains(".round.") {
        let h = with_sign(f64::from_bits(0.5f64.to_bits() - 1));
        let y = ar().bin(Op::FAdd, x, h);
        let y = f64_trunc(y);
        ar().ite(whole, x, y)
    } else {
        // to even: adding 2^52 leaves no room for a fraction
        let h = with_sign(4503599627370496.0);
        let y = ar().bin(Op::FAdd, x, h);
        let y = ar().bin(Op::FSub, y, h);
        let k63 = ar().k(64, mask(63));
        let y = ar().bin(Op::And, y, k63);
        let y = ar().bin(Op::Or, y, sign);
        ar().ite(whole, x, y)
    }
}
fn binop(op: Op, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        return Val::C(eval_bin(op, w, *x, *y).unwrap_or(0));
    }
    mk(ar().bin(op, bits(a, w), bits(b, w)))
}
fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    let (op, sw, neg) = match p {
        Pred::Eq => (Op::Eq, false, false),
        Pred::Ne => (Op::Eq, false, true),
        Pred::Ult => (Op::Ult, false, false),
        Pred::Ule => (Op::Ule, false, false),
        Pred::Ugt => (Op::Ult, true, false),
        Pred::Uge => (Op::Ule, true, false),
        Pred::Slt => (Op::Slt, false, false),
        Pred::Sle => (Op::Sle, false, false),
        Pred::Sgt => (Op::Slt, true, false),
        Pred::Sge => (Op::Sle, true, false),
    };
    let (a, b) = if sw { (b, a) } else { (a, b) };
    match binop(op, w, a, b) {
        Val::C(c) => Val::C(c ^ neg as u128),
        Val::S(e) => {
            if neg {
                mk(ar().not(e))
            } else {
                Val::S(e)
            }
        }
        x => x,
    }
}
fn notv(v: &Val, w: u32) -> Val {
    mk(ar().not(bits(v, w)))
}

impl State {
    pub fn new(entry: u32, f: &'static Func) -> State {
        State {
            entry,
            frames: vec![Frame {
                f,
                block: 0,
                ip: 0,
                base: 0,
                sp: STACK + 64,
                dst: None,
                edge: None,
                invoke_done: false,
            }],
            regs: vec![Val::C(0); f.nregs as usize],
            mem: Mem::default(),
            sp: STACK + 64 + f.frame,
            heap: HEAP + 64,
            pc: vec![],
            known: Default::default(),
            model: vec![],
            widths: vec![],
            dom: vec![],
            linked: [0; SUPW],
            fixed: [0; SUPW],
            inputs: vec![],
            forced: None,
            obs: vec![],
            steps: 0,
            forks: 0,
            formats: false,
        }
    }
    fn get<'a>(&'a self, o: &Opd) -> &'a Val {
        let fr = self.frames.last().unwrap();
        match o {
            Opd::R(r) => &self.regs[fr.base as usize + *r as usize],
            Opd::K(k) => &fr.f.consts[*k as usize],
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: Val) {
        let b = self.frames.last().unwrap().base as usize;
        self.regs[b + d as usize] = v;
    }
    pub fn where_am_i(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(12) {
            s.push_str(&f.f.name);
            s.push_str(" <- ");
        }
        s
    }
}

impl Exec {
    pub fn new(prog: Prog, rlimit: u32) -> Exec {
        Exec {
            prog,
            solver: Solver::new(rlimit),
            work: vec![],
            max_instr: 50_000_000,
            max_depth: 3000,
            memo: Default::default(),
            failures: vec![],
            fail_keys: Default::default(),
            reach: Default::default(),
            asserts: 0,
            assert_queries: 0,
            tt_decisions: 0,
            forks: 0,
            instrs: 0,
            called: Default::default(),
            trace: std::env::var("SYMEX_TRACE").is_ok(),
            trace_ins: std::env::var("SYMEX_INS").is_ok(),
            ghost: vec![],
        }
    }

    pub fn eval(&mut self, st: &State, e: Ex) -> u128 {
        let m = &st.model;
        ar().eval_with(e, &|i| m.get(i).copied().unwrap_or(0), &mut self.memo)
    }
    pub fn eval_val(&mut self, st: &State, v: &Val) -> u128 {
        match v {
            Val::C(c) => *c,
            Val::S(e) => self.eval(st, *e),
            _ => 0,
        }
    }

    /// Add a constraint known to be satisfied by st.model.
    fn push_pc(&mut self, st: &mut State, c: Ex) {
        let n = ar().n(c);
        if n.op == Op::Const {
            return;
        }
        if let Some(true) = st.known.get(&c) {
            return;
        }
        st.known.insert(c, true);
        let nc = ar().not(c);
        st.known.insert(nc, false);
        if n.op == Op::And {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let i = ar().n(n.a);
            if i.op == Op::Or && i.w == 1 {
                let (x, y) = (ar().not(i.a), ar().not(i.b));
                self.push_pc(st, x);
                self.push_pc(st, y);
                return;
            }
        }
        let sup = *ar().support(c);
        if let Some(v) = sup_single(&sup) {
            let w = st.widths[v] as u32;
            if w <= 8 {
                let t = ar().truth(c, v, w);
                let mut cnt = 0;
                for i in 0..4 {
                    st.dom[v][i] &= t[i];
                    cnt += st.dom[v][i].count_ones();
                }
                if cnt == 1 {
                    st.fixed[v / 64] |= 1 << (v % 64);
                }
            } else if n.op == Op::Eq
                && (ar().n(n.a).op == Op::Var && ar().cval(n.b).is_some()
                    || ar().n(n.b).op == Op::Var && ar().cval(n.a).is_some())
            {
                st.fixed[v / 64] |= 1 << (v % 64);
            }
        } else {
            st.linked = sup_or(&st.linked, &sup);
        }
        st.pc.push(c);
    }

    /// Is pc /\ c satisfiable? Returns model updates.
    fn query(&mut self, st: &State, c: Ex) -> R<Option<Vec<(usize, u128)>>> {
        let mut sup = *ar().support(c);
        let mut q = vec![c];
        let mut used = vec![false; st.pc.len()];
        let mut changed = true;
        let nf = |s: &Sup| {
            let mut r = *s;
            for i in 0..SUPW {
                r[i] &= !st.fixed[i];
            }
            r
        };
        while changed {
            changed = false;
            let act = nf(&sup);
            for (i, p) in st.pc.iter().enumerate() {
                if !used[i] {
                    let ps = ar().support(*p);
                    if sup_meets(ps, &act) {
                        used[i] = true;
                        changed = true;
                        sup = sup_or(&sup, ps);
                        q.push(*p);
                    }
                }
            }
        }
        for v in 0..st.widths.len() {
            if sup[v / 64] >> (v % 64) & 1 != 0 && st.fixed[v / 64] >> (v % 64) & 1 != 0 {
                let w = st.widths[v] as u32;
                let x = ar().var(v, w);
                let k = ar().k(w, st.model[v]);
                let e = ar().eq(x, k);
                q.push(e);
            }
        }
        q.sort();
        q.dedup();
        match self.solver.check(&q, &st.widths) {
            Res::Sat(m) => {
                // validate the model concretely against the query
                let mut full = st.model.clone();
                for (i, v) in &m {
                    full[*i] = *v;
                }
                let mut memo: FxMap<Ex, u128> = Default::default();
                for e in &q {
                    if ar().eval_with(*e, &|i| full[i], &mut memo) == 0 {
                        return err(
                            "solver model does not satisfy the query under concrete evaluation",
                        );
                    }
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver returned unknown (resource limit)"),
        }
    }

    /// Truth value of `c` on this path; forks if both values are possible.
    fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(v) = ar().cval(c) {
            return Ok(v != 0);
        }
        if let Some(b) = st.known.get(&c) {
            return Ok(*b);
        }
        let sup = *ar().support(c);
        let cur = self.eval(st, c) != 0;
        if sup_subset(&sup, &st.fixed) {
            return Ok(cur);
        }
        let other = if cur { ar().not(c) } else { c };
        let this = if cur { c } else { ar().not(c) };
        let mut upd: Option<Vec<(usize, u128)>> = None;
        let mut done = false;
        if let Some(v) = sup_single(&sup) {
            let w = st.widths[v] as u32;
            if w <= 8 {
                let t = ar().truth(other, v, w);
                let mut first = None;
                for i in 0..4 {
                    let x = st.dom[v][i] & t[i];
                    if x != 0 {
                        first = Some(i * 64 + x.trailing_zeros() as usize);
                        break;
                    }
                }
                match first {
                    None => done = true,
                    Some(x) => {
                        if st.linked[v / 64] >> (v % 64) & 1 == 0 {
                            upd = Some(vec![(v, x as u128)]);
                            done = true;
                        }
                    }
                }
                if done {
                    self.tt_decisions += 1;
                }
            }
        }
        if !done {
            upd = self.query(st, other)?;
        }
        match upd {
            None => {
                st.known.insert(this, true);
                st.known.insert(other, false);
                Ok(cur)
            }
            Some(m) => {
                let mut ns = st.clone();
                ns.forks += 1;
                for (i, v) in m {
                    ns.model[i] = v;
                }
                self.push_pc(&mut ns, other);
                self.work.push(ns);
                self.forks += 1;
                self.push_pc(st, this);
                st.forks += 1;
                Ok(cur)
            }
        }
    }
    fn decide_v(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 != 0),
            Val::S(e) => self.decide(st, *e),
            _ => err("decide on aggregate"),
        }
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                let x = self.eval(st, *e);
                let w = ar().w(*e);
                let k = ar().k(w, x);
                let q = ar().eq(*e, k);
                let r = self.decide(st, q)?;
                if !r {
                    return err("concretize");
                }
                Ok(x)
            }
            _ => err("concretize aggregate"),
        }
    }

    // ---- memory with types ----
    fn load(&mut self, st: &mut State, ty: TyId, a: u64) -> R<Val> {
        let t = &self.prog.tys[ty as usize];
        match &t.ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store as usize;
                let w = match t.ty {
                    Ty::Int(w) | Ty::Float(w) => w,
                    _ => 64,
                };
                if let Some(v) = st.mem.rdc(&self.prog, a, n)? {
                    return Ok(Val::C(v & mask(w)));
                }
                let mut e: Ex = 0;
                for i in 0..n {
                    let (b, s) = st.mem.rd1(&self.prog, a + i as u64)?;
                    let x = if s != 0 { s } else { ar().k(8, b as u128) };
                    e = if i == 0 { x } else { ar().concat(x, e) };
                }
                if w < n as u32 * 8 {
                    e = ar().extract(e, 0, w);
                }
                if ar().cval(e).is_none() && sup_subset(ar().support(e), &st.fixed) {
                    let v = self.eval(st, e);
                    return Ok(Val::C(v));
                }
                Ok(mk(e))
            }
            Ty::Struct(_, es) => {
                let es = es.clone();
                let offs = t.offs.clone();
                let mut v = vec![];
                for (i, e) in es.iter().enumerate() {
                    v.push(self.load(st, *e, a + offs[i])?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Array(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.prog.tys[e as usize].size;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, e, a + i * s)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Vector(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.prog.tys[e as usize].size;
                if let Ty::Int(w) = self.prog.tys[e as usize].ty {
                    if w % 8 != 0 {
                        return err("load of bit vector");
                    }
                }
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.load(st, e, a + i * s)?);
                }
                Ok(Val::A(v.into()))
            }
            _ => err("load type"),
        }
    }
    fn store(&mut self, st: &mut State, ty: TyId, a: u64, v: &Val) -> R<()> {
        let t = &self.prog.tys[ty as usize];
        match &t.ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store as usize;
                match v {
                    Val::C(c) => st.mem.wrc(&self.prog, a, n, *c),
                    Val::S(e) => {
                        let mut e = *e;
                        if ar().w(e) < n as u32 * 8 {
                            e = ar().zext(e, n as u32 * 8);
                        }
                        for i in 0..n {
                            let b = ar().extract(e, i as u32 * 8, 8);
                            match ar().cval(b) {
                                Some(c) => st.mem.wr1(&self.prog, a + i as u64, c as u8, 0)?,
                                None => st.mem.wr1(&self.prog, a + i as u64, 0, b)?,
                            }
                        }
                        Ok(())
                    }
                    _ => err("store aggregate as scalar"),
                }
            }
            Ty::Struct(_, es) => {
                let es = es.clone();
                let offs = t.offs.clone();
                if let Val::A(x) = v {
                    for (i, e) in es.iter().enumerate() {
                        self.store(st, *e, a + offs[i], &x[i])?;
                    }
                }
                Ok(())
            }
            Ty::Array(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.prog.tys[e as usize].size;
                if let Val::A(x) = v {
                    for i in 0..n {
                        self.store(st, e, a + i * s, &x[i as usize])?;
                    }
                }
                Ok(())
            }
            Ty::Vector(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.prog.tys[e as usize].size;
                if let Ty::Int(w) = self.prog.tys[e as usize].ty {
                    if w % 8 != 0 {
                        return err("store of bit vector");
                    }
                }
                if let Val::A(x) = v {
                    for i in 0..n as u64 {
                        self.store(st, e, a + i * s, &x[i as usize])?;
                    }
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    /// Load through a symbolic address: small read-only tables become ITE
    /// chains, anything else forks on the address.
    fn load_sym(&mut self, st: &mut State, ty: TyId, e: Ex) -> R<Val> {
        let (lo, hi) = ar().range(e);
        let tinfo = &self.prog.tys[ty as usize];
        let scalar = matches!(tinfo.ty, Ty::Int(_) | Ty::Ptr | Ty::Float(_));
        let w = match tinfo.ty {
            Ty::Int(w) | Ty::Float(w) => w,
            _ => 64,
        };
        let n = tinfo.store as usize;
        let isptr = matches!(tinfo.ty, Ty::Ptr);
        if scalar
            && !isptr
            && hi - lo <= 4096
            && lo >> 32 == hi >> 32
            && lo >> 32 >= 1
            && (lo >> 32) <= 4
        {
            let nd = ar().n(e);
            let (x, base) = if nd.op == Op::Add && ar().cval(nd.b).is_some() {
                (nd.a, ar().cval(nd.b).unwrap())
            } else {
                (e, 0)
            };
            let stride = 1u128 << ar().tz(x).min(12);
            // first address >= lo that is base mod stride
            let mut a0 = lo;
            while a0.wrapping_sub(base) % stride != 0 {
                a0 += 1;
            }
            let cnt = (hi - a0) / stride + 1;
            if cnt <= 1100 {
                let mut runs: Vec<(u128, u128)> = vec![]; // (last address, value)
                let mut ok = true;
                let mut a = a0;
                while a <= hi {
                    let v = match st.mem.rdc(&self.prog, a as u64, n) {
                        Ok(Some(v)) => v & mask(w),
                        _ => {
                            ok = false;
                            break;
                        }
                    };
                    match runs.last_mut() {
                        Some(r) if r.1 == v => r.0 = a,
                        _ => runs.push((a, v)),
                    }
                    a += stride;
                }
                if ok && runs.len() <= 300 {
                    let mut r = ar().k(w, runs.last().unwrap().1);
                    for i in (0..runs.len() - 1).rev() {
                        let k = ar().k(64, runs[i].0);
                        let c = ar().bin(Op::Ule, e, k);
                        let v = ar().k(w, runs[i].1);
                        r = ar().ite(c, v, r);
                    }
                    return Ok(mk(r));
                }
            }
        }
        let a = self.conc(st, &Val::S(e))?;
        self.load(st, ty, a as u64)
    }

    fn heap_alloc(&mut self, st: &mut State, size: u64, align: u64) -> R<u64> {
        let al = align.max(16);
        let a = (st.heap + al - 1) / al * al;
        st.heap = a + size.max(1);
        if st.heap - HEAP > 256 << 20 {
            return err("heap limit");
        }
        Ok(a)
    }

    fn fail(&mut self, st: &State, kind: &str, id: &str, model: &[u128]) {
        let key = (st.entry, format!("{}:{}", kind, id));
        let n = self.fail_keys.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 {
            return;
        }
        let inputs = st
            .inputs
            .iter()
            .map(|i| match i {
                Input::Var(v) => ("v".to_string(), st.widths[*v] as u32, model[*v]),
                Input::Choice(c) => ("c".to_string(), 64, *c as u128),
            })
            .collect();
        self.failures.push(Failure {
            entry: st.entry,
            kind: kind.to_string(),
            id: id.to_string(),
            inputs,
            detail: st.where_am_i(),
        });
    }

    fn rd_str(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let mut s = vec![];
        for i in 0..n.min(300) {
            s.push(st.mem.rd1(&self.prog, p + i)?.0);
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    fn newvar(&mut self, st: &mut State, w: u32) -> R<Ex> {
        let i = st.widths.len();
        if i >= MAXVARS {
            return err("too many symbolic variables");
        }
        st.widths.push(w as u16);
        st.model.push(0);
        let mut d = [0u64; 4];
        if w <= 8 {
            for v in 0..(1usize << w) {
                d[v / 64] |= 1 << (v % 64);
            }
        }
        st.dom.push(d);
        st.inputs.push(Input::Var(i));
        Ok(ar().var(i, w))
    }

    /// Run one state until it ends. Forks go to self.work.
    pub fn run(&mut self, st: &mut State) -> End {
        self.memo.clear();
        let mut tick = 0u32;
        let mut queries = self.solver.queries;
        let t0 = std::time::Instant::now();
        loop {
            match self.step(st) {
                Ok(true) => {
                    if self.solver.queries != queries {
                        queries = self.solver.queries;
                        if t0.elapsed().as_millis() > 2000 {
                            st.steps += 1;
                            self.instrs += 1;
                            return End::Yield;
                        }
                    }
                    st.steps += 1;
                    self.instrs += 1;
                    tick += 1;
                    if tick & 0xfff == 0 {
                        if st.steps > self.max_instr {
                            return End::Hang;
                        }
                        if crate::stop_requested() {
                            return End::Error("time budget exhausted".into());
                        }
                    }
                }
                Ok(false) => return End::Done,
                Err(Stop(e)) => return e,
            }
        }
    }

    fn take_edge(&mut self, st: &mut State, e: &'static Edge) {
        let n = e.moves.len();
        if n == 1 {
            let v = st.get(&e.moves[0].1).clone();
            st.set(e.moves[0].0, v);
        } else if n > 1 {
            let mut tmp: Vec<Val> = Vec::with_capacity(n);
            for (_, o) in &e.moves {
                tmp.push(st.get(o).clone());
            }
            for ((d, _), v) in e.moves.iter().zip(tmp) {
                st.set(*d, v);
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = e.to;
        fr.ip = 0;
    }

    fn addr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        match st.get(o) {
            Val::C(c) => Ok(*c as u64),
            v => {
                let v = v.clone();
                Ok(self.conc(st, &v)? as u64)
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<bool> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let ins: &'static Ins = &f.blocks[fr.block as usize][fr.ip as usize];
        if self.trace_ins {
            eprintln!("{}:{}:{} {:?}", f.name, fr.block, fr.ip, ins);
        }
        match ins {
            Ins::Bin {
                op,
                w,
                lanes,
                dst,
                a,
                b,
            } => {
                let (x, y) = (st.get(a), st.get(b));
                if *w > 128 {
                    return err(format!("arithmetic on {} bits", w));
                }
                let v = if *lanes == 0 {
                    match (x, y) {
                        (Val::C(p), Val::C(q)) => Val::C(eval_bin(*op, *w, *p, *q).unwrap_or(0)),
                        _ => {
                            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem)
                                && !matches!(y, Val::C(_))
                            {
                                // LLVM UB on zero; the compiler guards it
                            }
                            binop(*op, *w, x, y)
                        }
                    }
                } else {
                    self.vec2(x, y, |p, q| binop(*op, *w, p, q))
                };
                st.set(*dst, v);
            }
            Ins::ICmp {
                p,
                w,
                lanes,
                dst,
                a,
                b,
            } => {
                let (x, y) = (st.get(a), st.get(b));
                let v = if *lanes == 0 {
                    icmp(*p, *w, x, y)
                } else {
                    self.vec2(x, y, |q, r| icmp(*p, *w, q, r))
                };
                st.set(*dst, v);
            }
            Ins::FCmp { p, w, dst, a, b } => {
                let (x, y) = (bits(st.get(a), *w), bits(st.get(b), *w));
                let mut r = ar().k(1, 0);
                if p & 1 != 0 {
                    let t = ar().f_lt(x, y, false);
                    r = ar().or(r, t);
                }
                if p & 2 != 0 {
                    let t = ar().f_eq(x, y);
                    r = ar().or(r, t);
                }
                if p & 4 != 0 {
                    let t = ar().f_lt(y, x, false);
                    r = ar().or(r, t);
                }
                if p & 8 != 0 {
                    let t = ar().f_isnan(x);
                    let u = ar().f_isnan(y);
                    let t = ar().or(t, u);
                    r = ar().or(r, t);
                }
                st.set(*dst, mk(r));
            }
            Ins::FNeg { w, dst, a } => {
                let x = st.get(a).clone();
                let v = binop(Op::Xor, *w, &x, &Val::C(1u128 << (w - 1)));
                st.set(*dst, v);
            }
            Ins::Select {
                ty,
                lanes,
                dst,
                c,
                a,
                b,
            } => {
                let v = if *lanes > 0 {
                    let (cv, x, y) = (st.get(c).clone(), st.get(a).clone(), st.get(b).clone());
                    let w = self.elem_w(*ty);
                    match (cv, x, y) {
                        (Val::A(cv), Val::A(x), Val::A(y)) => {
                            let mut o = vec![];
                            for i in 0..cv.len() {
                                o.push(match &cv[i] {
                                    Val::C(k) => {
                                        if *k & 1 != 0 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    Val::S(e) => mk(ar().ite(*e, bits(&x[i], w), bits(&y[i], w))),
                                    _ => return err("select"),
                                });
                            }
                            Val::A(o.into())
                        }
                        _ => return err("vector select"),
                    }
                } else {
                    match st.get(c) {
                        Val::C(k) => {
                            if *k & 1 != 0 {
                                st.get(a).clone()
                            } else {
                                st.get(b).clone()
                            }
                        }
                        Val::S(e) => {
                            let e = *e;
                            let (x, y) = (st.get(a).clone(), st.get(b).clone());
                            let w = match self.prog.tys[*ty as usize].ty {
                                Ty::Int(w) | Ty::Float(w) => w,
                                _ => 0,
                            };
                            if w > 0 {
                                mk(ar().ite(e, bits(&x, w), bits(&y, w)))
                            } else if self.decide(st, e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => return err("select"),
                    }
                };
                st.set(*dst, v);
            }
            Ins::Cast {
                op,
                from,
                to,
                dst,
                a,
            } => {
                let x = st.get(a).clone();
                let v = self.cast(*op, *from, *to, &x)?;
                st.set(*dst, v);
            }
            Ins::Copy { dst, a } => {
                let v = st.get(a).clone();
                st.set(*dst, v);
            }
            Ins::Load { ty, dst, p } => {
                let v = match st.get(p) {
                    Val::C(c) => {
                        let c = *c as u64;
                        self.load(st, *ty, c)?
                    }
                    Val::S(e) => {
                        let e = *e;
                        self.load_sym(st, *ty, e)?
                    }
                    _ => return err("load address"),
                };
                st.set(*dst, v);
            }
            Ins::Store { ty, v, p } => {
                let a = self.addr(st, p)?;
                let v = st.get(v).clone();
                self.store(st, *ty, a, &v)?;
            }
            Ins::Gep {
                dst,
                base,
                off,
                idx,
            } => {
                let mut cur: Val = st.get(base).clone();
                let mut k = *off;
                for (o, w, scale) in idx {
                    match st.get(o) {
                        Val::C(c) => {
                            k = k.wrapping_add((sext(*c, *w) as i64 as u64).wrapping_mul(*scale))
                        }
                        Val::S(e) => {
                            let x = if *w < 64 {
                                ar().sext(*e, 64)
                            } else if *w > 64 {
                                ar().extract(*e, 0, 64)
                            } else {
                                *e
                            };
                            let s = ar().k(64, *scale as u128);
                            let t = ar().bin(Op::Mul, x, s);
                            let b = bits(&cur, 64);
                            cur = mk(ar().bin(Op::Add, t, b));
                        }
                        _ => return err("gep vector"),
                    }
                }
                let v = match cur {
                    Val::C(c) => Val::C((c as u64).wrapping_add(k) as u128),
                    Val::S(e) => {
                        let kk = ar().k(64, k as u128);
                        mk(ar().bin(Op::Add, e, kk))
                    }
                    _ => return err("gep vector"),
                };
                st.set(*dst, v);
            }
            Ins::Alloca { dst, off } => {
                let a = st.frames.last().unwrap().sp + off;
                st.set(*dst, Val::C(a as u128));
            }
            Ins::AllocaDyn { dst, size, n } => {
                let k = self.addr(st, n)?;
                let a = (st.sp + 15) / 16 * 16;
                st.sp = a + size * k;
                st.set(*dst, Val::C(a as u128));
            }
            Ins::ExtractValue { dst, a, path } => {
                let mut v = st.get(a);
                for i in path {
                    v = match v {
                        Val::A(x) => &x[*i as usize],
                        _ => return err("extractvalue"),
                    };
                }
                let v = v.clone();
                st.set(*dst, v);
            }
            Ins::InsertValue { dst, a, v, path } => {
                let x = insert(st.get(a), path, st.get(v));
                st.set(*dst, x);
            }
            Ins::ExtractElem { dst, a, i } => {
                let i = self.addr(st, i)?;
                let v = match st.get(a) {
                    Val::A(x) => x[i as usize].clone(),
                    _ => return err("extractelement"),
                };
                st.set(*dst, v);
            }
            Ins::InsertElem { dst, a, v, i } => {
                let i = self.addr(st, i)?;
                let x = insert(st.get(a), &[i as u32], st.get(v));
                st.set(*dst, x);
            }
            Ins::Shuffle { dst, a, b, m } => {
                let v = match (st.get(a), st.get(b), st.get(m)) {
                    (Val::A(x), Val::A(y), Val::A(m)) => {
                        let mut o = vec![];
                        for k in m.iter() {
                            let k = match k {
                                Val::C(c) => *c as usize,
                                _ => return err("shuffle mask"),
                            };
                            o.push(if k < x.len() {
                                x[k].clone()
                            } else {
                                y[k - x.len()].clone()
                            });
                        }
                        Val::A(o.into())
                    }
                    _ => return err("shuffle"),
                };
                st.set(*dst, v);
            }
            Ins::Rmw {
                op,
                w,
                ty,
                dst,
                p,
                v,
            } => {
                let a = self.addr(st, p)?;
                let old = self.load(st, *ty, a)?;
                let x = st.get(v).clone();
                let n = match op {
                    0 => x,
                    1 => binop(Op::Add, *w, &old, &x),
                    2 => binop(Op::Sub, *w, &old, &x),
                    3 => binop(Op::And, *w, &old, &x),
                    4 => binop(Op::Or, *w, &old, &x),
                    5 => binop(Op::Xor, *w, &old, &x),
                    _ => {
                        let c = icmp(Pred::Ult, *w, &old, &x);
                        let c = bits(&c, 1);
                        let (p, q) = (bits(&old, *w), bits(&x, *w));
                        mk(if *op == 6 {
                            ar().ite(c, q, p)
                        } else {
                            ar().ite(c, p, q)
                        })
                    }
                };
                self.store(st, *ty, a, &n)?;
                st.set(*dst, old);
            }
            Ins::CmpXchg { ty, dst, p, c, n } => {
                let a = self.addr(st, p)?;
                let old = self.load(st, *ty, a)?;
                let w = self.elem_w(*ty);
                let e = icmp(Pred::Eq, w, &old, &st.get(c).clone());
                let ok = self.decide_v(st, &e)?;
                if ok {
                    let v = st.get(n).clone();
                    self.store(st, *ty, a, &v)?;
                }
                st.set(*dst, Val::A(vec![old, Val::C(ok as u128)].into()));
            }
            Ins::Call { .. } => return self.call(st, ins),
            Ins::Br(e) => {
                self.take_edge(st, e);
                return Ok(true);
            }
            Ins::CondBr { c, t, f } => {
                let cv = st.get(c);
                let b = match cv {
                    Val::C(c) => *c & 1 != 0,
                    v => {
                        let v = v.clone();
                        self.decide_v(st, &v)?
                    }
                };
                self.take_edge(st, if b { t } else { f });
                return Ok(true);
            }
            Ins::Switch { w, v, def, cases } => {
                let e = match st.get(v) {
                    Val::C(c) => {
                        let c = *c;
                        let e = cases.iter().find(|x| x.0 == c).map(|x| &x.1).unwrap_or(def);
                        self.take_edge(st, e);
                        return Ok(true);
                    }
                    Val::S(e) => *e,
                    _ => return err("switch"),
                };
                let cur = self.eval(st, e);
                let hit = cases
                    .iter()
                    .find(|x| x.0 == cur)
                    .map(|x| &x.1)
                    .unwrap_or(def);
                let same = |a: &Edge, b: &Edge| {
                    a.to == b.to
                        && a.moves.len() == b.moves.len()
                        && a.moves.iter().zip(b.moves.iter()).all(|(x, y)| {
                            x.0 == y.0
                                && match (x.1, y.1) {
                                    (Opd::R(p), Opd::R(q)) => p == q,
                                    (Opd::K(p), Opd::K(q)) => p == q,
                                    _ => false,
                                }
                        })
                };
                // condition for taking this target
                let mut cond = ar().k(1, 0);
                let isdef = same(hit, def);
                for (k, ed) in cases {
                    let s = same(ed, hit);
                    if s != isdef {
                        let kk = ar().k(*w, *k);
                        let q = ar().eq(e, kk);
                        cond = ar().or(cond, q);
                    }
                }
                if isdef {
                    cond = ar().not(cond);
                }
                let ok = self.decide(st, cond)?;
                if !ok {
                    return err("switch decision");
                }
                self.take_edge(st, hit);
                return Ok(true);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| st.get(o).clone());
                let fr = st.frames.pop().unwrap();
                st.regs.truncate(fr.base as usize);
                st.sp = fr.sp;
                if st.frames.is_empty() {
                    return Ok(false);
                }
                if let (Some(d), Some(v)) = (fr.dst, v) {
                    st.set(d, v);
                }
                match fr.edge {
                    Some(e) => self.take_edge(st, e),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(true);
            }
            Ins::Unreachable => {
                return Err(Stop(End::Error(format!(
                    "unreachable executed in {}",
                    f.name
                ))))
            }
            Ins::Resume => return err("unwinding is not modelled"),
            Ins::Nop => {}
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(true)
    }

    fn elem_w(&self, t: TyId) -> u32 {
        match self.prog.tys[t as usize].ty {
            Ty::Int(w) | Ty::Float(w) => w,
            Ty::Ptr => 64,
            Ty::Vector(_, e) => self.elem_w(e),
            _ => 0,
        }
    }

    fn vec2(&self, x: &Val, y: &Val, f: impl Fn(&Val, &Val) -> Val) -> Val {
        match (x, y) {
            (Val::A(p), Val::A(q)) => Val::A(
                p.iter()
                    .zip(q.iter())
                    .map(|(a, b)| f(a, b))
                    .collect::<Vec<_>>()
                    .into(),
            ),
            _ => panic!("vector op on scalars"),
        }
    }

    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, x: &Val) -> R<Val> {
        let (ft, tt) = (
            self.prog.tys[from as usize].ty.clone(),
            self.prog.tys[to as usize].ty.clone(),
        );
        if op == CastOp::Bit {
            // vector <-> int
            match (&ft, &tt) {
                (Ty::Vector(n, e), Ty::Vector(m, d)) => {
                    if n == m {
                        return Ok(x.clone());
                    }
                    let (fw, tw) = (self.elem_w(*e), self.elem_w(*d));
                    let i = self.vec_to_int(x, fw)?;
                    return self.int_to_vec(i, *m, tw);
                }
                (Ty::Vector(_, e), _) => {
                    let fw = self.elem_w(*e);
                    let i = self.vec_to_int(x, fw)?;
                    return Ok(mk(i));
                }
                (_, Ty::Vector(m, d)) => {
                    let tw = self.elem_w(*d);
                    let i = bits(x, self.elem_w(from));
                    return self.int_to_vec(i, *m, tw);
                }
                _ => return Ok(x.clone()),
            }
        }
        if let (Ty::Vector(_, e), Ty::Vector(_, d)) = (&ft, &tt) {
            if let Val::A(v) = x {
                let mut o = vec![];
                for k in v.iter() {
                    o.push(self.cast(op, *e, *d, k)?);
                }
                return Ok(Val::A(o.into()));
            }
            return err("vector cast");
        }
        let (fw, tw) = (self.elem_w(from), self.elem_w(to));
        if fw > 128 || tw > 128 {
            return err(format!("cast from {} to {} bits", fw, tw));
        }
        Ok(match op {
            CastOp::Trunc => match x {
                Val::C(c) => Val::C(c & mask(tw)),
                _ => mk(ar().extract(bits(x, fw), 0, tw)),
            },
            CastOp::ZExt => match x {
                Val::C(c) => Val::C(*c),
                _ => mk(ar().zext(bits(x, fw), tw)),
            },
            CastOp::SExt => match x {
                Val::C(c) => Val::C(sext(*c, fw) as u128 & mask(tw)),
                _ => mk(ar().sext(bits(x, fw), tw)),
            },
            CastOp::Bit => unreachable!(),
            CastOp::FpToSi => mk(ar().fun(Op::FpToSi, bits(x, fw), tw)),
            CastOp::FpToUi => mk(ar().fun(Op::FpToUi, bits(x, fw), tw)),
            CastOp::SiToFp => mk(ar().fun(Op::SiToFp, bits(x, fw), tw)),
            CastOp::UiToFp => mk(ar().fun(Op::UiToFp, bits(x, fw), tw)),
            CastOp::FpCvt => mk(ar().fun(Op::FpCvt, bits(x, fw), tw)),
        })
    }
    fn vec_to_int(&mut self, x: &Val, w: u32) -> R<Ex> {
        match x {
            Val::A(v) => {
                let mut e = bits(&v[0], w);
                for k in v[1..].iter() {
                    e = ar().concat(bits(k, w), e);
                }
                Ok(e)
            }
            _ => err("vec_to_int"),
        }
    }
    fn int_to_vec(&mut self, e: Ex, n: u32, w: u32) -> R<Val> {
        let mut o = vec![];
        for i in 0..n {
            o.push(mk(ar().extract(e, i * w, w)));
        }
        Ok(Val::A(o.into()))
    }

    fn call(&mut self, st: &mut State, ins: &'static Ins) -> R<bool> {
        let (dst, rty, f, args, argtys, edge) = match ins {
            Ins::Call {
                dst,
                rty,
                f,
                args,
                argtys,
                edge,
            } => (dst, *rty, f, args, argtys, edge),
            _ => unreachable!(),
        };
        let id = match f {
            Callee::Direct(i) => *i,
            Callee::Indirect(o) => {
                let a = self.addr(st, o)?;
                if a >> 32 != FUNC >> 32 {
                    return err(format!("indirect call of {:#x}", a));
                }
                ((a - FUNC) / 16 - 1) as u32
            }
            Callee::Asm(t) => {
                let v = if t.contains("cpuid") {
                    self.prog.zero(rty)
                } else if matches!(self.prog.tys[rty as usize].ty, Ty::Void) {
                    self.prog.zero(rty)
                } else if args.len() >= 1 && t.trim_start().starts_with("/*") || t.trim().is_empty()
                {
                    if args.is_empty() {
                        self.prog.zero(rty)
                    } else {
                        st.get(&args[0]).clone()
                    }
                } else {
                    return err(format!("inline asm {}", t));
                };
                if let Some(d) = dst {
                    st.set(*d, v);
                }
                return self.finish_call(st, edge);
            }
        };
        let stub = self.prog.funcs[id as usize].stub;
        if stub != s::NONE && !(st.formats && (stub == s::FORMAT || stub == s::FMTWRITE)) {
            let v = self.stub(st, stub, id, rty, args, argtys)?;
            if let Some(d) = dst {
                match v {
                    Some(v) => st.set(*d, v),
                    None => {
                        let z = self.prog.zero(rty);
                        st.set(*d, z)
                    }
                }
            }
            return self.finish_call(st, edge);
        }
        if let FKind::Ext = self.prog.funcs[id as usize].kind {
            return err(format!(
                "call of undefined function {} from {}",
                self.prog.funcs[id as usize].name,
                st.where_am_i()
            ));
        }
        if st.frames.len() >= self.max_depth {
            return Err(Stop(End::Overflow));
        }
        let g = self.prog.decode(id);
        *self.called.entry(id).or_insert(0) += 1;
        if self.trace {
            eprintln!("{}call {}", " ".repeat(st.frames.len()), g.name);
        }
        let base = st.regs.len() as u32;
        let mut av: Vec<Val> = Vec::with_capacity(args.len());
        for a in args {
            av.push(st.get(a).clone());
        }
        let nargs = g.nargs as usize;
        st.regs.extend(av.into_iter().take(nargs));
        st.regs
            .resize(base as usize + (g.nregs as usize).max(nargs), Val::C(0));
        let sp = (st.sp + 63) / 64 * 64;
        st.sp = sp + g.frame;
        if st.sp - STACK > 64 << 20 {
            return Err(Stop(End::Overflow));
        }
        st.frames.push(Frame {
            f: g,
            block: 0,
            ip: 0,
            base,
            sp,
            dst: *dst,
            edge: edge.as_ref(),
            invoke_done: false,
        });
        Ok(true)
    }
    fn finish_call(&mut self, st: &mut State, edge: &'static Option<Edge>) -> R<bool> {
        match edge {
            Some(e) => self.take_edge(st, e),
            None => st.frames.last_mut().unwrap().ip += 1,
        }
        Ok(true)
    }

    fn lanewise(&mut self, a: &[Val], f: &dyn Fn(&[Val]) -> R<Val>) -> R<Val> {
        if let Val::A(x) = &a[0] {
            let n = x.len();
            let mut o = vec![];
            for i in 0..n {
                let b: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::A(y) => y[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                o.push(f(&b)?);
            }
            return Ok(Val::A(o.into()));
        }
        f(a)
    }

    fn stub(
        &mut self,
        st: &mut State,
        stub: u32,
        id: u32,
        rty: TyId,
        args: &'static [Opd],
        argtys: &'static [TyId],
    ) -> R<Option<Val>> {
        use s::*;
        let a: Vec<Val> = args.iter().map(|o| st.get(o).clone()).collect();
        let w = if argtys.is_empty() {
            0
        } else {
            self.elem_w(argtys[0])
        };
        let v = match stub {
            NOP => return Ok(None),
            ZERO => return Ok(None),
            MEMCPY | LIBMEMCPY => {
                let n = self.conc(st, &a[2])? as u64;
                if n > 0 {
                    let (d, s) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                    st.mem.copy(&self.prog, d, s, n)?;
                }
                return Ok(Some(a[0].clone()));
            }
            MEMSET | LIBMEMSET => {
                let n = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])? as u64;
                if n > 64 << 20 {
                    return err("memset size");
                }
                let bv = match &a[1] {
                    Val::S(e) if ar().w(*e) > 8 => mk(ar().extract(*e, 0, 8)),
                    v => v.clone(),
                };
                for i in 0..n {
                    match &bv {
                        Val::C(c) => st.mem.wr1(&self.prog, d + i, *c as u8, 0)?,
                        Val::S(e) => st.mem.wr1(&self.prog, d + i, 0, *e)?,
                        _ => {}
                    }
                }
                return Ok(Some(a[0].clone()));
            }
            UMIN | UMAX | SMIN | SMAX => self.lanewise(&a, &|a| {
                let p = match stub {
                    UMIN => Pred::Ult,
                    UMAX => Pred::Ugt,
                    SMIN => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = icmp(p, w, &a[0], &a[1]);
                let c = bits(&c, 1);
                Ok(mk(ar().ite(c, bits(&a[0], w), bits(&a[1], w))))
            })?,
            FSHL | FSHR => {
                let x = ar().concat(bits(&a[0], w), bits(&a[1], w));
                let s = bits(&a[2], w);
                let kw = ar().k(w, w as u128);
                let s = ar().bin(Op::URem, s, kw);
                let s = ar().zext(s, 2 * w);
                mk(if stub == FSHL {
                    let t = ar().bin(Op::Shl, x, s);
                    ar().extract(t, w, w)
                } else {
                    let t = ar().bin(Op::LShr, x, s);
                    ar().extract(t, 0, w)
                })
            }
            BSWAP => {
                let x = bits(&a[0], w);
                let mut e = ar().extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = ar().extract(x, i * 8, 8);
                    e = ar().concat(e, b);
                }
                mk(e)
            }
            BITREV => {
                let x = bits(&a[0], w);
                let mut e = ar().extract(x, 0, 1);
                for i in 1..w {
                    let b = ar().extract(x, i, 1);
                    e = ar().concat(e, b);
                }
                mk(e)
            }
            CTTZ | CTLZ => self.lanewise(&a, &|a| {
                Ok(match &a[0] {
                    Val::C(c) => {
                        let n = if stub == CTTZ {
                            (c.trailing_zeros()).min(w)
                        } else {
                            c.leading_zeros() - (128 - w)
                        };
                        Val::C(n as u128)
                    }
                    v => {
                        let x = bits(v, w);
                        let mut r = ar().k(w, w as u128);
                        for i in 0..w {
                            // last assignment wins: for cttz iterate from high to low
                            let b = if stub == CTTZ { w - 1 - i } else { i };
                            let bit = ar().extract(x, b, 1);
                            let n = if stub == CTTZ { b } else { w - 1 - b };
                            let k = ar().k(w, n as u128);
                            r = ar().ite(bit, k, r);
                        }
                        mk(r)
                    }
                })
            })?,
            CTPOP => self.lanewise(&a, &|a| {
                Ok(match &a[0] {
                    Val::C(c) => Val::C(c.count_ones() as u128),
                    v => {
                        let x = bits(v, w);
                        let mut r = ar().k(w, 0);
                        for i in 0..w {
                            let b = ar().extract(x, i, 1);
                            let b = ar().zext(b, w);
                            r = ar().bin(Op::Add, r, b);
                        }
                        mk(r)
                    }
                })
            })?,
            UADDO | USUBO | UMULO | SADDO | SSUBO | SMULO => {
                let op = match stub {
                    UADDO | SADDO => Op::Add,
                    USUBO | SSUBO => Op::Sub,
                    _ => Op::Mul,
                };
                let sg = matches!(stub, SADDO | SSUBO | SMULO);
                let r = binop(op, w, &a[0], &a[1]);
                let o = match (&a[0], &a[1]) {
                    (Val::C(x), Val::C(y)) if w <= 64 => {
                        if sg {
                            let (x, y) = (sext(*x, w), sext(*y, w));
                            let t = match op {
                                Op::Add => x + y,
                                Op::Sub => x - y,
                                _ => x * y,
                            };
                            let lim = 1i128 << (w - 1);
                            Val::C((t < -lim || t >= lim) as u128)
                        } else {
                            let t = match op {
                                Op::Add => x.checked_add(*y),
                                Op::Sub => x.checked_sub(*y),
                                _ => x.checked_mul(*y),
                            };
                            Val::C(t.map_or(true, |t| t > mask(w)) as u128)
                        }
                    }
                    _ => match stub {
                        UADDO => icmp(Pred::Ult, w, &r, &a[0]),
                        USUBO => icmp(Pred::Ult, w, &a[0], &a[1]),
                        SADDO | SSUBO => {
                            let x = bits(&a[0], w);
                            let y = bits(&a[1], w);
                            let rr = bits(&r, w);
                            let y2 = if stub == SADDO { y } else { ar().not(y) };
                            // overflow iff x and y2 have the same sign and r differs
                            let t = ar().bin(Op::Xor, x, rr);
                            let u = ar().bin(Op::Xor, x, y2);
                            let u = ar().not(u);
                            let t = ar().bin(Op::And, t, u);
                            mk(ar().extract(t, w - 1, 1))
                        }
                        _ => {
                            if w > 64 && (sg || w != 128) {
                                return err("mul overflow width");
                            }
                            if w > 64 {
                                // halves: x = p 2^64 + q, y = u 2^64 + v
                                let ar = ar();
                                let (x, y) = (bits(&a[0], w), bits(&a[1], w));
                                let half = |ar: &mut Arena, e: Ex, lo: u32| {
                                    let h = ar.extract(e, lo, 64);
                                    ar.zext(h, 128)
                                };
                                let (p, q) = (half(ar, x, 64), half(ar, x, 0));
                                let (u, v) = (half(ar, y, 64), half(ar, y, 0));
                                let pv = ar.bin(Op::Mul, p, v);
                                let qu = ar.bin(Op::Mul, q, u);
                                let qv = ar.bin(Op::Mul, q, v);
                                let z = ar.k(128, 0);
                                let (pz, uz) = (ar.eq(p, z), ar.eq(u, z));
                                // at most one of p and u is not zero, so that the
                                // sum of the middle terms is one of them
                                let both = ar.bin(Op::Or, pz, uz);
                                let mid = ar.bin(Op::Add, pv, qu);
                                let mhi = half(ar, mid, 64);
                                let mfit = ar.eq(mhi, z);
                                let qvh = half(ar, qv, 64);
                                let mlo = half(ar, mid, 0);
                                let top = ar.bin(Op::Add, mlo, qvh);
                                let thi = half(ar, top, 64);
                                let tfit = ar.eq(thi, z);
                                let f = ar.bin(Op::And, both, mfit);
                                let f = ar.bin(Op::And, f, tfit);
                                return Ok(Some(Val::A(vec![r, mk(ar.not(f))].into())));
                            }
                            let (x, y) = (bits(&a[0], w), bits(&a[1], w));
                            if sg {
                                let (x, y) = (ar().sext(x, 2 * w), ar().sext(y, 2 * w));
                                let t = ar().bin(Op::Mul, x, y);
                                let lo = ar().extract(t, 0, w);
                                let lo = ar().sext(lo, 2 * w);
                                let e = ar().eq(lo, t);
                                mk(ar().not(e))
                            } else {
                                let (x, y) = (ar().zext(x, 2 * w), ar().zext(y, 2 * w));
                                let t = ar().bin(Op::Mul, x, y);
                                let hi = ar().extract(t, w, w);
                                let z = ar().k(w, 0);
                                let e = ar().eq(hi, z);
                                mk(ar().not(e))
                            }
                        }
                    },
                };
                Val::A(vec![r, o].into())
            }
            UADDS | USUBS => self.lanewise(&a, &|a| {
                Ok(if stub == UADDS {
                    let r = binop(Op::Add, w, &a[0], &a[1]);
                    let o = icmp(Pred::Ult, w, &r, &a[0]);
                    mk(ar().ite(bits(&o, 1), ar().k(w, u128::MAX), bits(&r, w)))
                } else {
                    let r = binop(Op::Sub, w, &a[0], &a[1]);
                    let o = icmp(Pred::Ult, w, &a[0], &a[1]);
                    mk(ar().ite(bits(&o, 1), ar().k(w, 0), bits(&r, w)))
                })
            })?,
            SADDS | SSUBS => self.lanewise(&a, &|a| {
                let r = binop(if stub == SADDS { Op::Add } else { Op::Sub }, w, &a[0], &a[1]);
                // overflow: the sign of the result is not that of the first
                // operand, and the operands' signs let it be (equal for a sum,
                // unlike for a difference)
                let xr = binop(Op::Xor, w, &a[0], &r);
                let xy = binop(Op::Xor, w, &a[0], &a[1]);
                let xy = if stub == SADDS {
                    binop(Op::Xor, w, &xy, &Val::C(mask(w)))
                } else {
                    xy
                };
                let o = icmp(Pred::Slt, w, &binop(Op::And, w, &xr, &xy), &Val::C(0));
                let neg = icmp(Pred::Slt, w, &a[0], &Val::C(0));
                let end = ar().ite(
                    bits(&neg, 1),
                    ar().k(w, 1 << (w - 1)),
                    ar().k(w, mask(w - 1)),
                );
                Ok(mk(ar().ite(bits(&o, 1), end, bits(&r, w))))
            })?,
            SCMP | UCMP => {
                let rw = self.elem_w(rty);
                let lt = icmp(
                    if stub == SCMP { Pred::Slt } else { Pred::Ult },
                    w,
                    &a[0],
                    &a[1],
                );
                let eq = icmp(Pred::Eq, w, &a[0], &a[1]);
                let (m1, z, o) = (ar().k(rw, u128::MAX), ar().k(rw, 0), ar().k(rw, 1));
                let t = ar().ite(bits(&eq, 1), z, o);
                mk(ar().ite(bits(&lt, 1), m1, t))
            }
            ABS => {
                let n = binop(Op::Sub, w, &Val::C(0), &a[0]);
                let c = icmp(Pred::Slt, w, &a[0], &Val::C(0));
                mk(ar().ite(bits(&c, 1), bits(&n, w), bits(&a[0], w)))
            }
            FABS => binop(Op::And, w, &a[0], &Val::C(mask(w - 1))),
            COPYSIGN => {
                let x = binop(Op::And, w, &a[0], &Val::C(mask(w - 1)));
                let y = binop(Op::And, w, &a[1], &Val::C(1 << (w - 1)));
                binop(Op::Or, w, &x, &y)
            }
            FALSE => Val::C(0),
            ARG0 => a[0].clone(),
            OBJSIZE => Val::C(mask(self.elem_w(rty))),
            LOADREL => {
                let p = self.conc(st, &a[0])? as u64;
                let o = self.conc(st, &a[1])? as u64;
                let d = st.mem.rdc(&self.prog, p.wrapping_add(o), 4)?;
                match d {
                    Some(d) => Val::C(p.wrapping_add(sext(d, 32) as i64 as u64) as u128),
                    None => return err("load.relative"),
                }
            }
            TRAP => return Err(Stop(End::Panic("trap".into()))),
            ABORT => return Err(Stop(End::Panic(format!("abort in {}", st.where_am_i())))),
            PMOVMSKB => {
                let mut r = 0;
                if let Val::A(v) = &a[0] {
                    for (i, x) in v.iter().enumerate() {
                        let b = ar().extract(bits(x, 8), 7, 1);
                        r = if i == 0 { b } else { ar().concat(b, r) };
                    }
                }
                mk(ar().zext(r, 32))
            }
            VREDUCE_OR | VREDUCE_AND | VREDUCE_ADD | VREDUCE_UMAX | VREDUCE_UMIN => match &a[0] {
                Val::A(v) => {
                    let mut r = v[0].clone();
                    for x in v[1..].iter() {
                        r = match stub {
                            VREDUCE_OR => binop(Op::Or, w, &r, x),
                            VREDUCE_AND => binop(Op::And, w, &r, x),
                            VREDUCE_ADD => binop(Op::Add, w, &r, x),
                            _ => {
                                let c = icmp(
                                    if stub == VREDUCE_UMAX {
                                        Pred::Ugt
                                    } else {
                                        Pred::Ult
                                    },
                                    w,
                                    &r,
                                    x,
                                );
                                mk(ar().ite(bits(&c, 1), bits(&r, w), bits(x, w)))
                            }
                        };
                    }
                    r
                }
                _ => return err("vector.reduce"),
            },
            FTRUNC => {
                if w != 64 {
                    return err("trunc width");
                }
                mk(f64_trunc(bits(&a[0], 64)))
            }
            FROUND => {
                if w != 64 {
                    return err("rounding width");
                }
                mk(f64_round(&self.prog.funcs[id as usize].name, bits(&a[0], 64)))
            }
            FMINMAX => {
                let (x, y) = (bits(&a[0], w), bits(&a[1], w));
                let less = if self.prog.funcs[id as usize].name.contains("min") { ar().f_lt(x, y, false) } else { ar().f_lt(y, x, false) };
                let (nx, ny) = (ar().f_isnan(x), ar().f_isnan(y));
                let r = ar().ite(less, x, y);
                let r = ar().ite(ny, x, r);
                mk(ar().ite(nx, y, r))
            }
            FCONC => {
                let name = &self.prog.funcs[id as usize].name;
                let f = |v: &Val| match v {
                    Val::C(c) => Ok(f64::from_bits(*c as u64)),
                    _ => err(format!("{} of a symbolic number", name)),
                };
                let x = f(&a[0])?;
                let r = if name.contains("powi") {
                    let Val::C(n) = a[1] else { return err("powi of a symbolic number") };
                    x.powi(n as u32 as i32)
                } else if name.contains("pow") {
                    x.powf(f(&a[1])?)
                } else if name.contains("fma") {
                    x.mul_add(f(&a[1])?, f(&a[2])?)
                } else if name.contains("exp2") {
                    x.exp2()
                } else if name.contains("exp") {
                    x.exp()
                } else if name.contains("log2") {
                    x.log2()
                } else if name.contains("log10") {
                    x.log10()
                } else if name.contains("log") {
                    x.ln()
                } else {
                    x.sqrt()
                };
                Val::C(r.to_bits() as u128)
            }
            FPTOSI_SAT | FPTOUI_SAT => {
                let tw = self.elem_w(rty);
                if let (Val::C(c), 64) = (&a[0], w) {
                    let x = f64::from_bits(*c as u64);
                    return Ok(Some(Val::C(if stub == FPTOSI_SAT {
                        match tw {
                            64 => x as i64 as u128 & mask(64),
                            32 => x as i32 as u128 & mask(32),
                            _ => return err("fptosi.sat"),
                        }
                    } else {
                        match tw {
                            64 => x as u64 as u128,
                            32 => x as u32 as u128,
                            _ => return err("fptoui.sat"),
                        }
                    })));
                }
                if w != 64 {
                    return err("fpto*.sat width");
                }
                let x = bits(&a[0], w);
                // thresholds are powers of two, exact in f64
                let (lo, hi, klo, khi) = if stub == FPTOSI_SAT {
                    let p = (2f64).powi(tw as i32 - 1);
                    (-p, p, !mask(tw - 1) & mask(tw), mask(tw - 1))
                } else {
                    (0.0, (2f64).powi(tw as i32), 0, mask(tw))
                };
                let (elo, ehi) = (
                    ar().k(64, lo.to_bits() as u128),
                    ar().k(64, hi.to_bits() as u128),
                );
                let below = ar().f_lt(x, elo, true);
                let above = ar().f_lt(ehi, x, true);
                let nan = ar().f_isnan(x);
                let r = ar().fun(
                    if stub == FPTOSI_SAT {
                        Op::FpToSi
                    } else {
                        Op::FpToUi
                    },
                    x,
                    tw,
                );
                let (kl, kh, z) = (ar().k(tw, klo), ar().k(tw, khi), ar().k(tw, 0));
                let r = ar().ite(below, kl, r);
                let r = ar().ite(above, kh, r);
                mk(ar().ite(nan, z, r))
            }
            ALLOC | ALLOCZ => {
                let n = self.conc(st, &a[0])? as u64;
                let al = self.conc(st, &a[1])? as u64;
                Val::C(self.heap_alloc(st, n, al)? as u128)
            }
            REALLOC => {
                let p = self.conc(st, &a[0])? as u64;
                let old = self.conc(st, &a[1])? as u64;
                let al = self.conc(st, &a[2])? as u64;
                let n = self.conc(st, &a[3])? as u64;
                let q = self.heap_alloc(st, n, al)?;
                st.mem.copy(&self.prog, q, p, old.min(n))?;
                Val::C(q as u128)
            }
            DEALLOC => return Ok(None),
            BCMP | MEMCMP => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let (p, q) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                let mut xs = vec![];
                let mut allc = true;
                for i in 0..n {
                    let x = st.mem.rd1(&self.prog, p + i)?;
                    let y = st.mem.rd1(&self.prog, q + i)?;
                    if x.1 == 0 && y.1 == 0 {
                        if x.0 != y.0 {
                            if allc {
                                return Ok(Some(Val::C((x.0 as i32 - y.0 as i32) as u32 as u128)));
                            }
                            if stub == BCMP {
                                return Ok(Some(Val::C(1)));
                            }
                            xs.push((ar().k(8, x.0 as u128), ar().k(8, y.0 as u128)));
                            break;
                        }
                        continue;
                    }
                    allc = false;
                    let ex = if x.1 != 0 {
                        x.1
                    } else {
                        ar().k(8, x.0 as u128)
                    };
                    let ey = if y.1 != 0 {
                        y.1
                    } else {
                        ar().k(8, y.0 as u128)
                    };
                    xs.push((ex, ey));
                }
                if stub == BCMP {
                    let mut c = ar().k(1, 1);
                    for (x, y) in xs {
                        let e = ar().eq(x, y);
                        c = ar().and(c, e);
                    }
                    let (z, o) = (ar().k(32, 0), ar().k(32, 1));
                    mk(ar().ite(c, z, o))
                } else {
                    let mut r = ar().k(32, 0);
                    for (x, y) in xs.into_iter().rev() {
                        let e = ar().eq(x, y);
                        let (zx, zy) = (ar().zext(x, 32), ar().zext(y, 32));
                        let d = ar().bin(Op::Sub, zx, zy);
                        r = ar().ite(e, r, d);
                    }
                    mk(r)
                }
            }
            STRLEN => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0;
                loop {
                    let (b, s) = st.mem.rd1(&self.prog, p + n)?;
                    if s != 0 {
                        return err("strlen of symbolic data");
                    }
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::C(n as u128)
            }
            PANICFMT => {
                let mut m = String::new();
                if let Some(Val::C(l)) = a.last() {
                    let l = *l as u64;
                    if let (Ok(Some(p)), Ok(Some(n)), Ok(Some(line))) = (
                        st.mem.rdc(&self.prog, l, 8),
                        st.mem.rdc(&self.prog, l + 8, 8),
                        st.mem.rdc(&self.prog, l + 16, 4),
                    ) {
                        if n < 400 {
                            m = self.rd_str(st, p as u64, n as u64).unwrap_or_default();
                            m = m.trim_end_matches('\0').to_string();
                            m = format!("{}:{}", m, line);
                        }
                    }
                }
                return Err(Stop(End::Panic(m)));
            }
            FORMAT => {
                // String returned through sret: {cap, ptr, len} all empty
                let p = self.conc(st, &a[0])? as u64;
                st.mem.wrc(&self.prog, p, 8, 0)?;
                st.mem.wrc(&self.prog, p + 8, 8, 1)?;
                st.mem.wrc(&self.prog, p + 16, 8, 0)?;
                return Ok(None);
            }
            FMTWRITE => Val::C(0),
            // Ok(1)
            CPUS => Val::A(vec![Val::C(0), Val::C(1)].into()),
            RANDKEYS => Val::A(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)].into()),
            SYM => {
                let w = self.elem_w(rty);
                mk(self.newvar(st, w)?)
            }
            SYMBYTES => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                for i in 0..n {
                    let e = self.newvar(st, 8)?;
                    st.mem.wr1(&self.prog, p + i, 0, e)?;
                }
                return Ok(None);
            }
            CHOOSE => {
                let n = self.conc(st, &a[0])? as u64;
                let v = match st.forced.take() {
                    Some(v) => v,
                    None => {
                        if n == 0 {
                            return Err(Stop(End::Infeasible));
                        }
                        for i in (1..n).rev() {
                            let mut ns = st.clone();
                            ns.forced = Some(i);
                            self.forks += 1;
                            self.work.push(ns);
                        }
                        0
                    }
                };
                st.inputs.push(Input::Choice(v));
                Val::C(v as u128)
            }
            ASSUME => {
                match &a[0] {
                    Val::C(c) => {
                        if *c & 1 == 0 {
                            return Err(Stop(End::Infeasible));
                        }
                    }
                    Val::S(e) => {
                        let e = if ar().w(*e) > 1 {
                            ar().extract(*e, 0, 1)
                        } else {
                            *e
                        };
                        if self.eval(st, e) == 0 {
                            match self.query(st, e)? {
                                None => return Err(Stop(End::Infeasible)),
                                Some(m) => {
                                    for (i, v) in m {
                                        st.model[i] = v;
                                    }
                                    self.memo.clear();
                                }
                            }
                        }
                        self.push_pc(st, e);
                    }
                    _ => {}
                }
                return Ok(None);
            }
            ASSERT => {
                let p = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                self.asserts += 1;
                let c = match &a[0] {
                    Val::C(c) => *c & 1 != 0,
                    Val::S(e) => {
                        let e = if ar().w(*e) > 1 {
                            ar().extract(*e, 0, 1)
                        } else {
                            *e
                        };
                        let ne = ar().not(e);
                        self.assert_queries += 1;
                        match self.query(st, ne)? {
                            None => true,
                            Some(m) => {
                                let id = self.rd_str(st, p, n)?;
                                let mut full = st.model.clone();
                                for (i, v) in m {
                                    full[i] = v;
                                }
                                self.fail(st, "assert", &id, &full);
                                return Err(Stop(End::Infeasible));
                            }
                        }
                    }
                    _ => return err("assert"),
                };
                if !c {
                    let id = self.rd_str(st, p, n)?;
                    let m = st.model.clone();
                    self.fail(st, "assert", &id, &m);
                    return Err(Stop(End::Infeasible));
                }
                return Ok(None);
            }
            REACH => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let id = self.rd_str(st, p, n)?;
                *self.reach.entry((st.entry, id)).or_insert(0) += 1;
                return Ok(None);
            }
            OBSERVE => {
                st.obs.push(vec![a[0].clone()]);
                return Ok(None);
            }
            OBSBYTES => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let mut v = vec![];
                for i in 0..n {
                    let (b, s) = st.mem.rd1(&self.prog, p + i)?;
                    v.push(if s != 0 { Val::S(s) } else { Val::C(b as u128) });
                }
                st.obs.push(v);
                return Ok(None);
            }
            CONCRETIZE => Val::C(self.conc(st, &a[0])?),
            ISSYMEX => Val::C(1),
            FORMATS => {
                st.formats = true;
                return Ok(None);
            }
            _ => return err(format!("stub for {}", self.prog.funcs[id as usize].name)),
        };
        let _ = notv;
        Ok(Some(v))
    }
}

fn insert(a: &Val, path: &[u32], v: &Val) -> Val {
    if path.is_empty() {
        return v.clone();
    }
    match a {
        Val::A(x) => {
            let mut o: Vec<Val> = x.to_vec();
            o[path[0] as usize] = insert(&x[path[0] as usize], &path[1..], v);
            Val::A(o.into())
        }
        _ => panic!("insertvalue into scalar"),
    }
}
