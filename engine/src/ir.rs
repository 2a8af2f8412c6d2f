//! LLVM textual IR loader: module index, lazy function decoding, globals.
use crate::expr::*;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, TyId),
    Struct(bool, Vec<TyId>),
    Vector(u32, TyId),
    Label,
    Meta,
    Opaque,
}

pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,  // alloc size
    pub store: u64, // store size
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(Ex),
    A(Rc<[Val]>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpCvt,
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Asm(String),
}

#[derive(Debug)]
pub enum Ins {
    Bin {
        op: Op,
        w: u32,
        lanes: u32,
        dst: u32,
        a: Opd,
        b: Opd,
    },
    ICmp {
        p: Pred,
        w: u32,
        lanes: u32,
        dst: u32,
        a: Opd,
        b: Opd,
    },
    FCmp {
        p: u8,
        w: u32,
        dst: u32,
        a: Opd,
        b: Opd,
    }, // p: bit0 lt, bit1 eq, bit2 gt, bit3 uno
    FNeg {
        w: u32,
        dst: u32,
        a: Opd,
    },
    Select {
        ty: TyId,
        lanes: u32,
        dst: u32,
        c: Opd,
        a: Opd,
        b: Opd,
    },
    Cast {
        op: CastOp,
        from: TyId,
        to: TyId,
        dst: u32,
        a: Opd,
    },
    Copy {
        dst: u32,
        a: Opd,
    },
    Load {
        ty: TyId,
        dst: u32,
        p: Opd,
    },
    Store {
        ty: TyId,
        v: Opd,
        p: Opd,
    },
    Gep {
        dst: u32,
        base: Opd,
        off: u64,
        idx: Vec<(Opd, u32, u64)>,
    },
    Alloca {
        dst: u32,
        off: u64,
    },
    AllocaDyn {
        dst: u32,
        size: u64,
        n: Opd,
    },
    ExtractValue {
        dst: u32,
        a: Opd,
        path: Vec<u32>,
    },
    InsertValue {
        dst: u32,
        a: Opd,
        v: Opd,
        path: Vec<u32>,
    },
    ExtractElem {
        dst: u32,
        a: Opd,
        i: Opd,
    },
    InsertElem {
        dst: u32,
        a: Opd,
        v: Opd,
        i: Opd,
    },
    Shuffle {
        dst: u32,
        a: Opd,
        b: Opd,
        m: Opd,
    },
    Rmw {
        op: u8,
        w: u32,
        ty: TyId,
        dst: u32,
        p: Opd,
        v: Opd,
    },
    CmpXchg {
        ty: TyId,
        dst: u32,
        p: Opd,
        c: Opd,
        n: Opd,
    },
    Call {
        dst: Option<u32>,
        rty: TyId,
        f: Callee,
        args: Vec<Opd>,
        argtys: Vec<TyId>,
        edge: Option<Edge>,
    },
    Br(Edge),
    CondBr {
        c: Opd,
        t: Edge,
        f: Edge,
    },
    Switch {
        w: u32,
        v: Opd,
        def: Edge,
        cases: Vec<(u128, Edge)>,
    },
    Ret(Option<Opd>),
    Unreachable,
    Resume,
    Nop,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nargs: u32,
    pub frame: u64,
    pub consts: Vec<Val>,
    pub blocks: Vec<Vec<Ins>>,
    pub ninstr: u64,
}

pub enum FKind {
    Def { module: usize, pos: usize },
    Ext,
}
pub struct FSlot {
    pub name: String,
    pub kind: FKind,
    pub code: Option<&'static Func>,
    pub stub: u32,
    pub calls: u64,
}

pub struct Module {
    pub file: String,
    pub t: &'static [u8],
    types: FxMap<&'static [u8], usize>,
    tycache: FxMap<&'static [u8], TyId>,
    local_f: FxMap<&'static [u8], usize>,
    glob: FxMap<&'static [u8], usize>,
}

pub struct Prog {
    pub mods: Vec<Module>,
    gfun: FxMap<&'static [u8], (usize, usize)>,
    gglob: FxMap<&'static [u8], (usize, usize)>,
    pub tys: Vec<TyInfo>,
    tymap: FxMap<Ty, TyId>,
    pub funcs: Vec<FSlot>,
    fids: FxMap<(usize, &'static [u8]), u32>, // (module or usize::MAX, name)
    gaddr: FxMap<(usize, &'static [u8]), u64>,
    pub ro: Vec<u8>,
    pub rw: Vec<u8>,
    pending: Vec<(usize, usize, u64)>, // module, pos of initializer, address
    pub thread_ctr: u64,
}

pub const RO: u64 = 1 << 32;
pub const RW: u64 = 2 << 32;
pub const STACK: u64 = 3 << 32;
pub const HEAP: u64 = 4 << 32;
pub const FUNC: u64 = 5 << 32;

const GLOBALMOD: usize = usize::MAX;

pub fn die(s: String) -> ! {
    eprintln!("symex: fatal: {}", s);
    std::process::exit(4)
}

struct Cur<'p> {
    t: &'static [u8],
    p: usize,
    m: usize,
    prog: &'p mut Prog,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl Prog {
    pub fn new() -> Prog {
        let mut p = Prog {
            mods: vec![],
            gfun: Default::default(),
            gglob: Default::default(),
            tys: vec![],
            tymap: Default::default(),
            funcs: vec![],
            fids: Default::default(),
            gaddr: Default::default(),
            ro: vec![0; 64],
            rw: vec![0; 64],
            pending: vec![],
            thread_ctr: 0,
        };
        p.ty(Ty::Void);
        p
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        let (size, store, align, offs) = match &t {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => (0, 0, 1, vec![]),
            Ty::Int(w) => {
                let st = (*w as u64 + 7) / 8;
                let al = st.next_power_of_two().min(16);
                (up(st, al), st, al, vec![])
            }
            Ty::Ptr => (8, 8, 8, vec![]),
            Ty::Float(w) => {
                let s = *w as u64 / 8;
                (s, s, s, vec![])
            }
            Ty::Array(n, e) => {
                let i = &self.tys[*e as usize];
                (i.size * n, i.size * n, i.align, vec![])
            }
            Ty::Vector(n, e) => {
                let w = match self.tys[*e as usize].ty {
                    Ty::Int(w) => w as u64,
                    Ty::Float(w) => w as u64,
                    Ty::Ptr => 64,
                    _ => panic!("vector elem"),
                };
                let st = (w * *n as u64 + 7) / 8;
                let al = st.next_power_of_two();
                (up(st, al), st, al, vec![])
            }
            Ty::Struct(packed, es) => {
                let mut o = 0;
                let mut al = 1;
                let mut offs = vec![];
                for e in es {
                    let i = &self.tys[*e as usize];
                    if !*packed {
                        o = up(o, i.align);
                        al = al.max(i.align);
                    }
                    offs.push(o);
                    o += i.size;
                }
                let s = up(o, al);
                (s, s, al, offs)
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(TyInfo {
            ty: t.clone(),
            size,
            store,
            align,
            offs,
        });
        self.tymap.insert(t, id);
        id
    }

    pub fn load_module(&mut self, path: &str) {
        let text: &'static [u8] = Box::leak(
            std::fs::read(path)
                .unwrap_or_else(|e| die(format!("{}: {}", path, e)))
                .into_boxed_slice(),
        );
        let m = self.mods.len();
        let mut md = Module {
            file: path.to_string(),
            t: text,
            types: Default::default(),
            tycache: Default::default(),
            local_f: Default::default(),
            glob: Default::default(),
        };
        let mut p = 0;
        let n = text.len();
        while p < n {
            let eol = memchr_nl(text, p);
            let line = &text[p..eol];
            if line.starts_with(b"define ") {
                // name
                let at = find_name_at(line);
                let (name, _) = read_name(line, at);
                let hdr = &line[..at];
                let local = has_word(hdr, b"internal") || has_word(hdr, b"private");
                if local {
                    md.local_f.insert(name, p);
                } else {
                    self.gfun.entry(name).or_insert((m, p));
                }
                // skip the body: find "\n}" line
                let mut q = eol + 1;
                loop {
                    if q >= n {
                        break;
                    }
                    let e = memchr_nl(text, q);
                    if text[q] == b'}' && e == q + 1 {
                        q = e;
                        break;
                    }
                    q = e + 1;
                }
                p = q + 1;
                continue;
            } else if line.starts_with(b"@") {
                let (name, e) = read_name(line, 0);
                let rest = &line[e..];
                // linkage words sit between '=' and 'global'/'constant'/'alias'
                let kw = linkage_prefix(rest);
                if has_word(kw, b"external") || has_word(kw, b"extern_weak") {
                    if has_word(kw, b"extern_weak") {
                        md.glob.entry(name).or_insert(usize::MAX);
                    }
                } else if has_word(kw, b"private") || has_word(kw, b"internal") {
                    md.glob.insert(name, p);
                } else {
                    self.gglob.entry(name).or_insert((m, p));
                }
            } else if line.starts_with(b"%") {
                if let Some(i) = find(line, b" = type ") {
                    md.types.insert(&line[..i], p + i + 8);
                }
            }
            p = eol + 1;
        }
        self.mods.push(md);
    }

    pub fn lookup_fn(&mut self, m: usize, name: &'static [u8]) -> u32 {
        if let Some(i) = self.fids.get(&(m, name)) {
            return *i;
        }
        let (key, kind) = if m != GLOBALMOD && self.mods[m].local_f.contains_key(name) {
            (
                (m, name),
                FKind::Def {
                    module: m,
                    pos: self.mods[m].local_f[name],
                },
            )
        } else {
            if let Some(i) = self.fids.get(&(GLOBALMOD, name)) {
                return *i;
            }
            match self.gfun.get(name) {
                Some((mm, p)) => (
                    (GLOBALMOD, name),
                    FKind::Def {
                        module: *mm,
                        pos: *p,
                    },
                ),
                None => {
                    // alias?
                    if let Some((mm, p)) = self.gglob.get(name).copied() {
                        if let Some(t) = self.alias_target(mm, p) {
                            let id = self.lookup_fn(mm, t);
                            self.fids.insert((GLOBALMOD, name), id);
                            return id;
                        }
                    }
                    ((GLOBALMOD, name), FKind::Ext)
                }
            }
        };
        let id = self.funcs.len() as u32;
        let sname = String::from_utf8_lossy(name).into_owned();
        let stub = crate::exec::stub_id(&sname);
        self.funcs.push(FSlot {
            name: sname,
            kind,
            code: None,
            stub,
            calls: 0,
        });
        self.fids.insert(key, id);
        id
    }

    fn is_fn(&self, m: usize, name: &[u8]) -> bool {
        (m != GLOBALMOD && self.mods[m].local_f.contains_key(name)) || self.gfun.contains_key(name)
    }

    fn alias_target(&self, m: usize, p: usize) -> Option<&'static [u8]> {
        let t = self.mods[m].t;
        let eol = memchr_nl(t, p);
        let line = &t[p..eol];
        let (_, e) = read_name(line, 0);
        let i = find(&line[e..], b" alias ")? + e;
        // only if "alias" precedes any '@' after '='
        let at = line[e..].iter().position(|c| *c == b'@')? + e;
        if i > at {
            return None;
        }
        Some(read_name(line, at).0)
    }

    /// Address of a global symbol (function or variable) as seen from module m.
    pub fn sym_addr(&mut self, m: usize, name: &'static [u8]) -> u64 {
        if let Some(a) = self.gaddr.get(&(m, name)) {
            return *a;
        }
        let is_local_glob = self.mods[m].glob.contains_key(name);
        if !is_local_glob {
            if let Some(a) = self.gaddr.get(&(GLOBALMOD, name)) {
                return *a;
            }
        }
        if !is_local_glob && self.is_fn(m, name) {
            let id = self.lookup_fn(m, name);
            let a = FUNC + 16 * (id as u64 + 1);
            self.gaddr.insert((m, name), a);
            return a;
        }
        let (mm, pos, key) = if is_local_glob {
            let p = self.mods[m].glob[name];
            if p == usize::MAX {
                self.gaddr.insert((m, name), 0);
                return 0;
            }
            (m, p, (m, name))
        } else if let Some((mm, p)) = self.gglob.get(name).copied() {
            (mm, p, (GLOBALMOD, name))
        } else {
            // undefined: assume an external function
            let id = self.lookup_fn(m, name);
            let a = FUNC + 16 * (id as u64 + 1);
            self.gaddr.insert((m, name), a);
            return a;
        };
        if let Some(t) = self.alias_target(mm, pos) {
            let a = self.sym_addr(mm, t);
            self.gaddr.insert(key, a);
            return a;
        }
        // parse "... global|constant <ty> <init>"
        let t = self.mods[mm].t;
        let eol = memchr_nl(t, pos);
        let line = &t[pos..eol];
        let (_, e) = read_name(line, 0);
        let pre = linkage_prefix(&line[e..]);
        let isconst = has_word(pre, b"constant");
        let start = pos + e + pre.len();
        let (tid, p2) = {
            let mut c = Cur {
                t,
                p: start,
                m: mm,
                prog: self,
            };
            let ty = c.ty();
            (ty, c.p)
        };
        let size = self.tys[tid as usize].size;
        let align = if isconst {
            self.tys[tid as usize].align.max(16)
        } else {
            1024
        };
        let img = if isconst { &mut self.ro } else { &mut self.rw };
        let pad = (align - img.len() as u64 % align) % align;
        img.resize(img.len() + pad as usize, 0);
        let off = img.len() as u64;
        img.resize((off + size + 16) as usize, 0);
        let addr = if isconst { RO } else { RW } + off;
        self.gaddr.insert(key, addr);
        self.pending.push((mm, p2, addr));
        let _ = tid;
        self.pending_ty.with(addr, tid);
        addr
    }

    pub fn zero(&mut self, ty: TyId) -> Val {
        match self.tys[ty as usize].ty.clone() {
            Ty::Array(n, e) => {
                let z = self.zero(e);
                Val::A((0..n).map(|_| z.clone()).collect())
            }
            Ty::Vector(n, e) => {
                let z = self.zero(e);
                Val::A((0..n).map(|_| z.clone()).collect())
            }
            Ty::Struct(_, es) => Val::A(es.iter().map(|e| self.zero(*e)).collect()),
            _ => Val::C(0),
        }
    }
    pub fn flush_globals(&mut self) {
        while let Some((m, p, addr)) = self.pending.pop() {
            let t = self.mods[m].t;
            let tid = TYS.with(|x| x.borrow_mut().remove(&addr)).unwrap();
            let v = {
                let mut c = Cur {
                    t,
                    p,
                    m,
                    prog: self,
                };
                c.constant(tid)
            };
            self.write_const(addr, tid, &v);
        }
    }

    fn write_const(&mut self, addr: u64, tid: TyId, v: &Val) {
        match self.tys[tid as usize].ty.clone() {
            Ty::Array(n, e) => {
                let s = self.tys[e as usize].size;
                match v {
                    Val::A(x) => {
                        for i in 0..n {
                            self.write_const(addr + i * s, e, &x[i as usize]);
                        }
                    }
                    _ => {}
                }
            }
            Ty::Struct(_, es) => match v {
                Val::A(x) => {
                    for (i, e) in es.iter().enumerate() {
                        let o = self.tys[tid as usize].offs[i];
                        self.write_const(addr + o, *e, &x[i]);
                    }
                }
                _ => {}
            },
            Ty::Vector(n, e) => {
                let s = self.tys[e as usize].size;
                if let Val::A(x) = v {
                    for i in 0..n as u64 {
                        self.write_const(addr + i * s, e, &x[i as usize]);
                    }
                }
            }
            _ => {
                let sz = self.tys[tid as usize].store as usize;
                let x = match v {
                    Val::C(c) => *c,
                    _ => panic!("const"),
                };
                let (img, off) = if addr >> 32 == RO >> 32 {
                    (&mut self.ro, addr - RO)
                } else {
                    (&mut self.rw, addr - RW)
                };
                img[off as usize..off as usize + sz].copy_from_slice(&x.to_le_bytes()[..sz]);
            }
        }
    }

    pub fn decode(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize].code {
            return f;
        }
        let (m, pos) = match self.funcs[id as usize].kind {
            FKind::Def { module, pos } => (module, pos),
            FKind::Ext => die(format!(
                "call of undefined function {}",
                self.funcs[id as usize].name
            )),
        };
        let name = self.funcs[id as usize].name.clone();
        let t = self.mods[m].t;
        let f = decode_fn(
            Cur {
                t,
                p: pos,
                m,
                prog: self,
            },
            name,
        );
        self.flush_globals();
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize].code = Some(f);
        f
    }
}

// side table: type of a pending global
pub struct PendTy;
impl PendTy {
    fn with(&self, a: u64, t: TyId) {
        TYS.with(|x| x.borrow_mut().insert(a, t));
    }
}
thread_local! {
    static TYS: std::cell::RefCell<FxMap<u64, TyId>> = Default::default();
}
impl std::ops::Deref for Prog {
    type Target = PendHolder;
    fn deref(&self) -> &PendHolder {
        &PEND
    }
}
pub struct PendHolder {
    pub pending_ty: PendTy,
}
static PEND: PendHolder = PendHolder { pending_ty: PendTy };

fn memchr_nl(t: &[u8], p: usize) -> usize {
    extern "C" {
        fn memchr(s: *const u8, c: i32, n: usize) -> *const u8;
    }
    if p >= t.len() {
        return t.len();
    }
    unsafe {
        let r = memchr(t.as_ptr().add(p), 10, t.len() - p);
        if r.is_null() {
            t.len()
        } else {
            r as usize - t.as_ptr() as usize
        }
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn has_word(h: &[u8], w: &[u8]) -> bool {
    h.split(|c| *c == b' ').any(|x| x == w)
}
/// everything up to and including the word global/constant/alias
fn linkage_prefix(rest: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < rest.len() {
        while i < rest.len() && rest[i] == b' ' {
            i += 1;
        }
        let s = i;
        while i < rest.len() && rest[i] != b' ' {
            i += 1;
        }
        let w = &rest[s..i];
        if w == b"global" || w == b"constant" || w == b"alias" {
            return &rest[..i];
        }
    }
    rest
}
/// index of '@' that starts the function name in a define line
fn find_name_at(line: &[u8]) -> usize {
    line.iter().position(|c| *c == b'@').unwrap()
}
/// reads @name or @"name" at `i`; returns (name without sigil/quotes, end)
fn read_name(t: &'static [u8], i: usize) -> (&'static [u8], usize) {
    let mut p = i + 1;
    if t[p] == b'"' {
        p += 1;
        let s = p;
        while t[p] != b'"' {
            p += 1;
        }
        return (&t[s..p], p + 1);
    }
    let s = p;
    while p < t.len() && is_id(t[p]) {
        p += 1;
    }
    (&t[s..p], p)
}

const VALUE_WORDS: &[&[u8]] = &[
    b"true",
    b"false",
    b"null",
    b"undef",
    b"poison",
    b"zeroinitializer",
    b"getelementptr",
    b"ptrtoint",
    b"inttoptr",
    b"bitcast",
    b"trunc",
    b"sub",
    b"add",
    b"xor",
    b"splat",
    b"asm",
    b"ptrtoaddr",
    b"dso_local_equivalent",
    b"no_cfi",
    b"none",
    b"inf",
    b"nan",
];

impl<'p> Cur<'p> {
    fn ws(&mut self) {
        while self.p < self.t.len()
            && (self.t[self.p] == b' '
                || self.t[self.p] == b'\n'
                || self.t[self.p] == b'\t'
                || self.t[self.p] == b'\r')
        {
            self.p += 1;
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        if self.p < self.t.len() {
            self.t[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.pk() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn fail(&self, what: &str) -> ! {
        let s = self.p.saturating_sub(80);
        let e = (self.p + 120).min(self.t.len());
        die(format!(
            "IR parse ({}) in {} near: {} <HERE> {}",
            what,
            self.prog.mods[self.m].file,
            String::from_utf8_lossy(&self.t[s..self.p]),
            String::from_utf8_lossy(&self.t[self.p..e])
        ))
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn word(&mut self) -> &'static [u8] {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && is_id(self.t[self.p]) {
            self.p += 1;
        }
        &self.t[s..self.p]
    }
    fn peek_word(&mut self) -> &'static [u8] {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, w: &[u8]) -> bool {
        let p = self.p;
        if self.word() == w {
            return true;
        }
        self.p = p;
        false
    }
    fn skip_line(&mut self) {
        self.p = memchr_nl(self.t, self.p);
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.t[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn int(&mut self) -> u64 {
        let w = self.word();
        std::str::from_utf8(w)
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| self.fail("int"))
    }
    fn is_ty_start(&mut self) -> bool {
        match self.pk() {
            b'{' | b'[' | b'<' => true,
            b'%' => true,
            _ => {
                let w = self.peek_word();
                match w {
                    b"void" | b"ptr" | b"half" | b"float" | b"double" | b"label" | b"metadata"
                    | b"fp128" | b"x86_fp80" | b"token" => true,
                    _ => w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()),
                }
            }
        }
    }
    fn ty(&mut self) -> TyId {
        let t = match self.pk() {
            b'{' => {
                self.p += 1;
                let es = self.tylist(b'}');
                Ty::Struct(false, es)
            }
            b'[' => {
                self.p += 1;
                let n = self.int();
                if !self.eat_word(b"x") {
                    self.fail("x");
                }
                let e = self.ty();
                self.expect(b']');
                Ty::Array(n, e)
            }
            b'<' => {
                self.p += 1;
                if self.pk() == b'{' {
                    self.p += 1;
                    let es = self.tylist(b'}');
                    self.expect(b'>');
                    Ty::Struct(true, es)
                } else {
                    let n = self.int();
                    if !self.eat_word(b"x") {
                        self.fail("x");
                    }
                    let e = self.ty();
                    self.expect(b'>');
                    Ty::Vector(n as u32, e)
                }
            }
            b'%' => {
                let s = self.p;
                self.p += 1;
                if self.t[self.p] == b'"' {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                } else {
                    while is_id(self.t[self.p]) {
                        self.p += 1;
                    }
                }
                let name = &self.t[s..self.p];
                if let Some(t) = self.prog.mods[self.m].tycache.get(name) {
                    return *t;
                }
                let pos = match self.prog.mods[self.m].types.get(name) {
                    Some(p) => *p,
                    None => self.fail("unknown type"),
                };
                let save = self.p;
                self.p = pos;
                let t = if self.peek_word() == b"opaque" {
                    self.prog.ty(Ty::Opaque)
                } else {
                    self.ty()
                };
                self.p = save;
                self.prog.mods[self.m].tycache.insert(name, t);
                return t;
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => Ty::Void,
                    b"ptr" => {
                        if self.peek_word() == b"addrspace" {
                            self.word();
                            self.ws();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    b"half" => Ty::Float(16),
                    b"float" => Ty::Float(32),
                    b"double" => Ty::Float(64),
                    b"fp128" => Ty::Float(128),
                    b"label" => Ty::Label,
                    b"metadata" | b"token" => Ty::Meta,
                    _ if w.len() > 1 && w[0] == b'i' => Ty::Int(
                        std::str::from_utf8(&w[1..])
                            .unwrap()
                            .parse()
                            .unwrap_or_else(|_| self.fail("type")),
                    ),
                    _ => self.fail("type"),
                }
            }
        };
        self.prog.ty(t)
    }
    fn tylist(&mut self, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    pub fn zero(&mut self, ty: TyId) -> Val {
        self.prog.zero(ty)
    }
    /// constant of the given type (no registers)
    fn constant(&mut self, ty: TyId) -> Val {
        match self.pk() {
            b'@' => {
                let (n, e) = read_name(self.t, self.p);
                self.p = e;
                return Val::C(self.prog.sym_addr(self.m, n) as u128);
            }
            b'c' if self.t[self.p + 1] == b'"' => {
                self.p += 2;
                let mut v = vec![];
                while self.t[self.p] != b'"' {
                    if self.t[self.p] == b'\\' {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u128;
                        if self.t[self.p + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u128));
                            self.p += 2;
                        } else {
                            v.push(Val::C(h(self.t[self.p + 1]) * 16 + h(self.t[self.p + 2])));
                            self.p += 3;
                        }
                    } else {
                        v.push(Val::C(self.t[self.p] as u128));
                        self.p += 1;
                    }
                }
                self.p += 1;
                return Val::A(v.into());
            }
            b'[' | b'{' => {
                let close = if self.t[self.p] == b'[' { b']' } else { b'}' };
                self.p += 1;
                return self.constlist(close);
            }
            b'<' => {
                self.p += 1;
                if self.pk() == b'{' {
                    self.p += 1;
                    let v = self.constlist(b'}');
                    self.expect(b'>');
                    return v;
                }
                return self.constlist(b'>');
            }
            _ => {}
        }
        let save = self.p;
        let mut w = self.word();
        // "+inf" style or numbers with '+' inside (1.0e+00)
        if self.p < self.t.len() && self.t[self.p] == b'+' {
            if w.is_empty() {
                self.p += 1;
                w = self.word();
            } else {
                self.p += 1;
                self.word();
                w = &self.t[save..self.p];
                let mut s = 0;
                while w[s] == b' ' || w[s] == b'\n' {
                    s += 1;
                }
                w = &w[s..];
            }
        }
        match w {
            b"true" => return Val::C(1),
            b"false" | b"null" | b"none" => return Val::C(0),
            b"undef" | b"poison" | b"zeroinitializer" => return self.zero(ty),
            b"splat" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.constant(t);
                self.expect(b')');
                let n = match self.prog.tys[ty as usize].ty {
                    Ty::Vector(n, _) => n,
                    _ => self.fail("splat"),
                };
                return Val::A((0..n).map(|_| v.clone()).collect());
            }
            b"dso_local_equivalent" | b"no_cfi" => return self.constant(ty),
            b"getelementptr" => {
                loop {
                    match self.pk() {
                        b'(' => break,
                        _ => {
                            let w = self.word();
                            if w == b"inrange" {
                                self.ws();
                                self.skip_parens();
                            } else if w.is_empty() {
                                self.fail("gep const");
                            }
                        }
                    }
                }
                self.expect(b'(');
                let t0 = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.constant(pt);
                let mut addr = match base {
                    Val::C(c) => c as u64,
                    _ => self.fail("gep base"),
                };
                let mut cur = t0;
                let mut first = true;
                while self.eat(b',') {
                    if self.peek_word() == b"inrange" {
                        self.word();
                    }
                    let it = self.ty();
                    let w = match self.prog.tys[it as usize].ty {
                        Ty::Int(w) => w,
                        _ => self.fail("gep idx"),
                    };
                    let iv = match self.constant(it) {
                        Val::C(c) => sext(c, w) as i64,
                        _ => self.fail("gep idx"),
                    };
                    addr = addr.wrapping_add(self.step(&mut cur, &mut first, iv) as u64);
                }
                self.expect(b')');
                return Val::C(addr as u128);
            }
            b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"ptrtoaddr" | b"zext"
            | b"addrspacecast" => {
                while self.pk() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let v = self.constant(t);
                if !self.eat_word(b"to") {
                    self.fail("to");
                }
                let t2 = self.ty();
                self.expect(b')');
                let c = match v {
                    Val::C(c) => c,
                    _ => self.fail("cast const"),
                };
                let bits = self.prog.tys[t2 as usize].store * 8;
                return Val::C(c & mask(bits as u32));
            }
            b"sub" | b"add" | b"xor" | b"mul" => {
                while self.pk() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.constant(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.constant(t2);
                self.expect(b')');
                let bits = (self.prog.tys[t as usize].store * 8) as u32;
                let (a, b) = match (a, b) {
                    (Val::C(a), Val::C(b)) => (a, b),
                    _ => self.fail("arith const"),
                };
                let o = match w {
                    b"sub" => Op::Sub,
                    b"add" => Op::Add,
                    b"mul" => Op::Mul,
                    _ => Op::Xor,
                };
                return Val::C(eval_bin(o, bits, a, b).unwrap());
            }
            _ => {}
        }
        let s = std::str::from_utf8(w).unwrap_or("");
        match self.prog.tys[ty as usize].ty {
            Ty::Int(bits) => {
                if let Ok(v) = s.parse::<i128>() {
                    return Val::C(v as u128 & mask(bits));
                }
                if let Ok(v) = s.parse::<u128>() {
                    return Val::C(v & mask(bits));
                }
                self.fail("int const")
            }
            Ty::Float(fw) => {
                if let Some(h) = s.strip_prefix("f0x") {
                    return Val::C(
                        u128::from_str_radix(h, 16).unwrap_or_else(|_| self.fail("fhex")),
                    );
                }
                if let Some(h) = s.strip_prefix("0xH") {
                    return Val::C(u128::from_str_radix(h, 16).unwrap());
                }
                let d = if let Some(h) = s.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    match s {
                        "qnan" | "+qnan" => f64::from_bits(0x7ff8_0000_0000_0000),
                        "-qnan" => f64::from_bits(0xfff8_0000_0000_0000),
                        _ => s
                            .parse::<f64>()
                            .unwrap_or_else(|_| self.fail("float const")),
                    }
                };
                Val::C(eval_cvt(Op::FpCvt, 64, fw, d.to_bits() as u128).unwrap())
            }
            Ty::Ptr => {
                self.p = save;
                self.fail("ptr const")
            }
            _ => {
                self.p = save;
                self.fail("const")
            }
        }
    }
    fn constlist(&mut self, close: u8) -> Val {
        let mut v = vec![];
        if self.eat(close) {
            return Val::A(v.into());
        }
        loop {
            let t = self.ty();
            v.push(self.constant(t));
            if self.eat(close) {
                return Val::A(v.into());
            }
            self.expect(b',');
        }
    }
    /// One GEP index step with constant index; returns byte offset.
    fn step(&mut self, cur: &mut TyId, first: &mut bool, iv: i64) -> i64 {
        if *first {
            *first = false;
            return iv.wrapping_mul(self.prog.tys[*cur as usize].size as i64);
        }
        match self.prog.tys[*cur as usize].ty.clone() {
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                *cur = e;
                iv.wrapping_mul(self.prog.tys[e as usize].size as i64)
            }
            Ty::Struct(_, es) => {
                let o = self.prog.tys[*cur as usize].offs[iv as usize];
                *cur = es[iv as usize];
                o as i64
            }
            _ => self.fail("gep into scalar"),
        }
    }
    fn skip_attrs_to_value(&mut self) {
        loop {
            let c = self.pk();
            match c {
                b'%' | b'@' | b'-' | b'[' | b'{' | b'<' | b'+' => return,
                b'0'..=b'9' => return,
                b'c' if self.t[self.p + 1] == b'"' => return,
                b'f' if self.t[self.p..].starts_with(b"f0x") => return,
                b'"' => {
                    // string attribute
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    continue;
                }
                b'!' => return,
                _ => {}
            }
            let w = self.peek_word();
            if w.is_empty() {
                self.fail("attr");
            }
            if VALUE_WORDS.contains(&w) {
                return;
            }
            self.word();
            if w == b"align" && self.pk() != b'(' {
                self.int();
            } else if self.p < self.t.len() && self.t[self.p] == b'(' {
                self.skip_parens();
            }
        }
    }
}

struct FB {
    regs: FxMap<&'static [u8], u32>,
    labels: FxMap<&'static [u8], u32>,
    consts: Vec<Val>,
    cmap: FxMap<u128, u32>,
}

impl FB {
    fn reg(&mut self, n: &'static [u8]) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn k(&mut self, v: Val) -> Opd {
        if let Val::C(c) = v {
            let l = self.consts.len() as u32;
            let i = *self.cmap.entry(c).or_insert(l);
            if i == l {
                self.consts.push(Val::C(c));
            }
            return Opd::K(i);
        }
        self.consts.push(v);
        Opd::K(self.consts.len() as u32 - 1)
    }
}

impl<'p> Cur<'p> {
    fn local_name(&mut self) -> &'static [u8] {
        // at %
        self.ws();
        if self.t[self.p] != b'%' {
            self.fail("%name");
        }
        let (n, e) = read_name(self.t, self.p);
        self.p = e;
        n
    }
    fn val(&mut self, fb: &mut FB, ty: TyId) -> Opd {
        if self.pk() == b'%' {
            let n = self.local_name();
            return Opd::R(fb.reg(n));
        }
        let v = self.constant(ty);
        fb.k(v)
    }
    fn tyval(&mut self, fb: &mut FB) -> (TyId, Opd) {
        let t = self.ty();
        self.skip_attrs_to_value();
        let v = self.val(fb, t);
        (t, v)
    }
    fn label(&mut self) -> &'static [u8] {
        if !self.eat_word(b"label") {
            self.fail("label");
        }
        self.local_name()
    }
    fn scalar_w(&mut self, t: TyId) -> (u32, u32) {
        match self.prog.tys[t as usize].ty.clone() {
            Ty::Int(w) | Ty::Float(w) => (w, 0),
            Ty::Ptr => (64, 0),
            Ty::Vector(n, e) => (self.scalar_w(e).0, n),
            _ => self.fail("scalar type"),
        }
    }
}

enum RawEdge {
    Lbl(&'static [u8]),
}

fn decode_fn(mut c: Cur, name: String) -> Func {
    let mut fb = FB {
        regs: Default::default(),
        labels: Default::default(),
        consts: vec![],
        cmap: Default::default(),
    };
    // header
    let at = c.t[c.p..].iter().position(|x| *x == b'@').unwrap() + c.p;
    let (_, e) = read_name(c.t, at);
    c.p = e;
    c.expect(b'(');
    let mut nargs = 0;
    let mut numbered = 0u32;
    if !c.eat(b')') {
        loop {
            if c.t[c.p..].starts_with(b"...") {
                c.p += 3;
                c.expect(b')');
                break;
            }
            let _t = c.ty();
            loop {
                match c.pk() {
                    b'%' | b',' | b')' => break,
                    b'"' => {
                        c.p += 1;
                        while c.t[c.p] != b'"' {
                            c.p += 1;
                        }
                        c.p += 1;
                    }
                    _ => {
                        let w = c.word();
                        if w.is_empty() {
                            c.fail("param attr");
                        }
                        if w == b"align" && c.pk() != b'(' {
                            c.int();
                        } else if c.t[c.p] == b'(' {
                            c.skip_parens();
                        }
                    }
                }
            }
            if c.pk() == b'%' {
                let n = c.local_name();
                if n.iter().all(|x| x.is_ascii_digit()) {
                    numbered += 1;
                }
                let r = fb.reg(n);
                assert_eq!(r, nargs);
            } else {
                // unnamed parameter
                let n: &'static [u8] =
                    Box::leak(numbered.to_string().into_bytes().into_boxed_slice());
                numbered += 1;
                let r = fb.reg(n);
                assert_eq!(r, nargs);
            }
            nargs += 1;
            if c.eat(b')') {
                break;
            }
            c.expect(b',');
        }
    }
    c.skip_line();
    c.p += 1;

    // first pass: block labels
    let mut q = c.p;
    let mut first = true;
    let entry_lbl: &'static [u8] = Box::leak(numbered.to_string().into_bytes().into_boxed_slice());
    loop {
        let eol = memchr_nl(c.t, q);
        let line = &c.t[q..eol];
        if line == b"}" {
            break;
        }
        let islabel = !line.is_empty()
            && line[0] != b' '
            && line[0] != b'\t'
            && line[0] != b';'
            && line[0] != b'#';
        if islabel {
            let (n, _) = label_of(line);
            let i = fb.labels.len() as u32;
            fb.labels.insert(n, i);
        } else if first && !line.is_empty() {
            fb.labels.insert(entry_lbl, 0);
        }
        if !line.is_empty() {
            first = false;
        }
        q = eol + 1;
    }
    let nb = fb.labels.len();
    let mut blocks: Vec<Vec<Ins>> = (0..nb).map(|_| vec![]).collect();
    let mut phis: Vec<Vec<(u32, Vec<(Opd, &'static [u8])>)>> = (0..nb).map(|_| vec![]).collect();
    let mut cur = 0usize;
    let mut frame = 0u64;
    let mut ninstr = 0;
    let mut names: Vec<&'static [u8]> = vec![b""; nb];
    for (k, v) in &fb.labels {
        names[*v as usize] = k;
    }
    loop {
        let eol = memchr_nl(c.t, c.p);
        let line = &c.t[c.p..eol];
        if line == b"}" {
            break;
        }
        if line.is_empty() || line.iter().all(|x| *x == b' ') {
            c.p = eol + 1;
            continue;
        }
        let mut s = 0;
        while line[s] == b' ' || line[s] == b'\t' {
            s += 1;
        }
        if line[s] == b';' || line[s] == b'#' {
            c.p = eol + 1;
            continue;
        }
        if s == 0 {
            let (n, _) = label_of(line);
            cur = fb.labels[n] as usize;
            c.p = eol + 1;
            continue;
        }
        c.p += s;
        ninstr += 1;
        // dst
        let mut dst: Option<u32> = None;
        if c.t[c.p] == b'%' {
            let n = c.local_name();
            c.expect(b'=');
            dst = Some(fb.reg(n));
        }
        let mut op = c.word();
        while matches!(op, b"tail" | b"musttail" | b"notail") {
            op = c.word();
        }
        let edge = |l: &'static [u8], fb: &FB| -> Edge {
            Edge {
                to: fb.labels[l],
                moves: vec![],
            }
        };
        let ins: Option<Ins> = match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or"
            | b"xor" | b"shl" | b"lshr" | b"ashr" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let t = c.ty();
                let a = c.val(&mut fb, t);
                c.expect(b',');
                let b = c.val(&mut fb, t);
                let (w, lanes) = c.scalar_w(t);
                let o = match op {
                    b"add" => Op::Add,
                    b"sub" => Op::Sub,
                    b"mul" => Op::Mul,
                    b"udiv" => Op::UDiv,
                    b"sdiv" => Op::SDiv,
                    b"urem" => Op::URem,
                    b"srem" => Op::SRem,
                    b"and" => Op::And,
                    b"or" => Op::Or,
                    b"xor" => Op::Xor,
                    b"shl" => Op::Shl,
                    b"lshr" => Op::LShr,
                    b"ashr" => Op::AShr,
                    b"fadd" => Op::FAdd,
                    b"fsub" => Op::FSub,
                    b"fmul" => Op::FMul,
                    _ => Op::FDiv,
                };
                Some(Ins::Bin {
                    op: o,
                    w,
                    lanes,
                    dst: dst.unwrap(),
                    a,
                    b,
                })
            }
            b"fneg" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let t = c.ty();
                let a = c.val(&mut fb, t);
                let (w, _) = c.scalar_w(t);
                Some(Ins::FNeg {
                    w,
                    dst: dst.unwrap(),
                    a,
                })
            }
            b"icmp" => {
                let mut p = c.word();
                if p == b"samesign" {
                    p = c.word();
                }
                let t = c.ty();
                let a = c.val(&mut fb, t);
                c.expect(b',');
                let b = c.val(&mut fb, t);
                let (w, lanes) = c.scalar_w(t);
                let p = match p {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    _ => c.fail("pred"),
                };
                Some(Ins::ICmp {
                    p,
                    w,
                    lanes,
                    dst: dst.unwrap(),
                    a,
                    b,
                })
            }
            b"fcmp" => {
                let mut p = c.word();
                while !c.is_ty_start() {
                    p = c.word();
                }
                let t = c.ty();
                let a = c.val(&mut fb, t);
                c.expect(b',');
                let b = c.val(&mut fb, t);
                let (w, lanes) = c.scalar_w(t);
                if lanes != 0 {
                    c.fail("vector fcmp");
                }
                let p = match p {
                    b"false" => 0,
                    b"oeq" => 2,
                    b"ogt" => 4,
                    b"oge" => 6,
                    b"olt" => 1,
                    b"ole" => 3,
                    b"one" => 5,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 10,
                    b"ugt" => 12,
                    b"uge" => 14,
                    b"ult" => 9,
                    b"ule" => 11,
                    b"une" => 13,
                    b"true" => 15,
                    _ => c.fail("fcmp pred"),
                };
                Some(Ins::FCmp {
                    p,
                    w,
                    dst: dst.unwrap(),
                    a,
                    b,
                })
            }
            b"select" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let tc = c.ty();
                let cc = c.val(&mut fb, tc);
                c.expect(b',');
                let (t, a) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, b) = c.tyval(&mut fb);
                let lanes = match c.prog.tys[tc as usize].ty {
                    Ty::Vector(n, _) => n,
                    _ => 0,
                };
                Some(Ins::Select {
                    ty: t,
                    lanes,
                    dst: dst.unwrap(),
                    c: cc,
                    a,
                    b,
                })
            }
            b"zext" | b"sext" | b"trunc" | b"bitcast" | b"ptrtoint" | b"inttoptr"
            | b"ptrtoaddr" | b"fptosi" | b"fptoui" | b"sitofp" | b"uitofp" | b"fpext"
            | b"fptrunc" | b"addrspacecast" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let (t, a) = c.tyval(&mut fb);
                if !c.eat_word(b"to") {
                    c.fail("to");
                }
                let t2 = c.ty();
                let o = match op {
                    b"zext" => CastOp::ZExt,
                    b"sext" => CastOp::SExt,
                    b"trunc" => CastOp::Trunc,
                    b"fptosi" => CastOp::FpToSi,
                    b"fptoui" => CastOp::FpToUi,
                    b"sitofp" => CastOp::SiToFp,
                    b"uitofp" => CastOp::UiToFp,
                    b"fpext" | b"fptrunc" => CastOp::FpCvt,
                    b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" => {
                        let (w1, _) = c.scalar_w(t);
                        let (w2, _) = c.scalar_w(t2);
                        if w2 > w1 {
                            CastOp::ZExt
                        } else if w2 < w1 {
                            CastOp::Trunc
                        } else {
                            CastOp::Bit
                        }
                    }
                    _ => CastOp::Bit,
                };
                Some(Ins::Cast {
                    op: o,
                    from: t,
                    to: t2,
                    dst: dst.unwrap(),
                    a,
                })
            }
            b"freeze" => {
                let (_, a) = c.tyval(&mut fb);
                Some(Ins::Copy {
                    dst: dst.unwrap(),
                    a,
                })
            }
            b"load" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let t = c.ty();
                c.expect(b',');
                let (_, p) = c.tyval(&mut fb);
                Some(Ins::Load {
                    ty: t,
                    dst: dst.unwrap(),
                    p,
                })
            }
            b"store" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let (t, v) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, p) = c.tyval(&mut fb);
                Some(Ins::Store { ty: t, v, p })
            }
            b"getelementptr" => {
                while !c.is_ty_start() {
                    let w = c.word();
                    if w == b"inrange" {
                        c.ws();
                        c.skip_parens();
                    }
                }
                let t0 = c.ty();
                c.expect(b',');
                let (_, base) = c.tyval(&mut fb);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut curt = t0;
                let mut first = true;
                while c.pk() == b',' {
                    let save = c.p;
                    c.p += 1;
                    if c.pk() == b'!' {
                        c.p = save;
                        break;
                    }
                    let (it, iv) = c.tyval(&mut fb);
                    let (w, lanes) = c.scalar_w(it);
                    if lanes != 0 {
                        c.fail("vector gep");
                    }
                    let kv = match iv {
                        Opd::K(k) => match &fb.consts[k as usize] {
                            Val::C(v) => Some(sext(*v, w) as i64),
                            _ => None,
                        },
                        _ => None,
                    };
                    match kv {
                        Some(k) => off = off.wrapping_add(c.step(&mut curt, &mut first, k)),
                        None => {
                            let scale = c.step(&mut curt, &mut first, 1) as u64;
                            idx.push((iv, w, scale));
                        }
                    }
                }
                Some(Ins::Gep {
                    dst: dst.unwrap(),
                    base,
                    off: off as u64,
                    idx,
                })
            }
            b"alloca" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let t = c.ty();
                let mut size = c.prog.tys[t as usize].size;
                let mut dynn = None;
                let mut align = c.prog.tys[t as usize].align;
                while c.eat(b',') {
                    if c.pk() == b'!' {
                        break;
                    }
                    if c.eat_word(b"align") {
                        align = c.int();
                    } else {
                        let (_, n) = c.tyval(&mut fb);
                        match n {
                            Opd::K(k) => match &fb.consts[k as usize] {
                                Val::C(v) => size *= *v as u64,
                                _ => {}
                            },
                            _ => dynn = Some(n),
                        }
                    }
                }
                match dynn {
                    Some(n) => Some(Ins::AllocaDyn {
                        dst: dst.unwrap(),
                        size,
                        n,
                    }),
                    None => {
                        let al = align.max(1);
                        frame = (frame + al - 1) / al * al;
                        let off = frame;
                        frame += size.max(1);
                        Some(Ins::Alloca {
                            dst: dst.unwrap(),
                            off,
                        })
                    }
                }
            }
            b"extractvalue" => {
                let (_, a) = c.tyval(&mut fb);
                let mut path = vec![];
                while c.eat(b',') {
                    if c.pk() == b'!' {
                        break;
                    }
                    path.push(c.int() as u32);
                }
                Some(Ins::ExtractValue {
                    dst: dst.unwrap(),
                    a,
                    path,
                })
            }
            b"insertvalue" => {
                let (_, a) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, v) = c.tyval(&mut fb);
                let mut path = vec![];
                while c.eat(b',') {
                    if c.pk() == b'!' {
                        break;
                    }
                    path.push(c.int() as u32);
                }
                Some(Ins::InsertValue {
                    dst: dst.unwrap(),
                    a,
                    v,
                    path,
                })
            }
            b"extractelement" => {
                let (_, a) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, i) = c.tyval(&mut fb);
                Some(Ins::ExtractElem {
                    dst: dst.unwrap(),
                    a,
                    i,
                })
            }
            b"insertelement" => {
                let (_, a) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, v) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, i) = c.tyval(&mut fb);
                Some(Ins::InsertElem {
                    dst: dst.unwrap(),
                    a,
                    v,
                    i,
                })
            }
            b"shufflevector" => {
                let (_, a) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, b) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, m) = c.tyval(&mut fb);
                Some(Ins::Shuffle {
                    dst: dst.unwrap(),
                    a,
                    b,
                    m,
                })
            }
            b"atomicrmw" => {
                let mut o = c.word();
                if o == b"volatile" {
                    o = c.word();
                }
                let (_, p) = c.tyval(&mut fb);
                c.expect(b',');
                let (t, v) = c.tyval(&mut fb);
                let (w, _) = c.scalar_w(t);
                let op = match o {
                    b"xchg" => 0,
                    b"add" => 1,
                    b"sub" => 2,
                    b"and" => 3,
                    b"or" => 4,
                    b"xor" => 5,
                    b"umax" => 6,
                    b"umin" => 7,
                    _ => c.fail("atomicrmw"),
                };
                Some(Ins::Rmw {
                    op,
                    w,
                    ty: t,
                    dst: dst.unwrap(),
                    p,
                    v,
                })
            }
            b"cmpxchg" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let (_, p) = c.tyval(&mut fb);
                c.expect(b',');
                let (t, cc) = c.tyval(&mut fb);
                c.expect(b',');
                let (_, n) = c.tyval(&mut fb);
                Some(Ins::CmpXchg {
                    ty: t,
                    dst: dst.unwrap(),
                    p,
                    c: cc,
                    n,
                })
            }
            b"fence" => None,
            b"phi" => {
                while !c.is_ty_start() {
                    c.word();
                }
                let t = c.ty();
                let mut inc = vec![];
                loop {
                    c.expect(b'[');
                    let v = c.val(&mut fb, t);
                    c.expect(b',');
                    let l = c.local_name();
                    c.expect(b']');
                    inc.push((v, l));
                    let save = c.p;
                    if !c.eat(b',') {
                        break;
                    }
                    if c.pk() != b'[' {
                        c.p = save;
                        break;
                    }
                }
                phis[cur].push((dst.unwrap(), inc));
                None
            }
            b"br" => {
                if c.peek_word() == b"label" {
                    let l = c.label();
                    Some(Ins::Br(edge(l, &fb)))
                } else {
                    let (_, cc) = c.tyval(&mut fb);
                    c.expect(b',');
                    let t = c.label();
                    c.expect(b',');
                    let f = c.label();
                    Some(Ins::CondBr {
                        c: cc,
                        t: edge(t, &fb),
                        f: edge(f, &fb),
                    })
                }
            }
            b"switch" => {
                let (t, v) = c.tyval(&mut fb);
                c.expect(b',');
                let d = c.label();
                c.expect(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let ct = c.ty();
                    let k = match c.constant(ct) {
                        Val::C(k) => k,
                        _ => c.fail("case"),
                    };
                    c.expect(b',');
                    let l = c.label();
                    cases.push((k, edge(l, &fb)));
                }
                let (w, _) = c.scalar_w(t);
                Some(Ins::Switch {
                    w,
                    v,
                    def: edge(d, &fb),
                    cases,
                })
            }
            b"ret" => {
                if c.peek_word() == b"void" {
                    Some(Ins::Ret(None))
                } else {
                    let (_, v) = c.tyval(&mut fb);
                    Some(Ins::Ret(Some(v)))
                }
            }
            b"unreachable" => Some(Ins::Unreachable),
            b"resume" => Some(Ins::Resume),
            b"landingpad" => {
                c.skip_line();
                loop {
                    let save = c.p;
                    let w = c.peek_word();
                    if matches!(w, b"cleanup" | b"catch" | b"filter") {
                        c.ws();
                        c.skip_line();
                    } else {
                        c.p = save;
                        break;
                    }
                }
                Some(Ins::Resume)
            }
            b"call" | b"invoke" => {
                // fmf, cc, ret attrs
                while !c.is_ty_start() {
                    let w = c.word();
                    if w.is_empty() {
                        c.fail("call");
                    }
                    if w == b"align" && c.pk() != b'(' {
                        c.int();
                    } else if c.t[c.p] == b'(' {
                        c.skip_parens();
                    }
                }
                let rty = c.ty();
                if c.pk() == b'(' {
                    c.skip_parens();
                }
                let callee = match c.pk() {
                    b'@' => {
                        let (n, e) = read_name(c.t, c.p);
                        c.p = e;
                        let m = c.m;
                        Callee::Direct(c.prog.lookup_fn(m, n))
                    }
                    b'%' => {
                        let n = c.local_name();
                        Callee::Indirect(Opd::R(fb.reg(n)))
                    }
                    _ => {
                        if c.peek_word() == b"asm" {
                            c.word();
                            while c.pk() != b'"' {
                                c.word();
                            }
                            c.p += 1;
                            let s = c.p;
                            while c.t[c.p] != b'"' {
                                c.p += 1;
                            }
                            let txt = String::from_utf8_lossy(&c.t[s..c.p]).into_owned();
                            c.p += 1;
                            c.expect(b',');
                            c.ws();
                            c.p += 1;
                            while c.t[c.p] != b'"' {
                                c.p += 1;
                            }
                            c.p += 1;
                            Callee::Asm(txt)
                        } else {
                            let pt = c.prog.ty(Ty::Ptr);
                            let v = c.constant(pt);
                            Callee::Indirect(fb.k(v))
                        }
                    }
                };
                c.expect(b'(');
                let mut args = vec![];
                let mut argtys = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = c.ty();
                        if matches!(c.prog.tys[t as usize].ty, Ty::Meta) {
                            // metadata argument: skip to , or ) at depth 0
                            let mut d = 0;
                            loop {
                                match c.t[c.p] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    b'"' => {
                                        c.p += 1;
                                        while c.t[c.p] != b'"' {
                                            c.p += 1;
                                        }
                                    }
                                    _ => {}
                                }
                                c.p += 1;
                            }
                            args.push(fb.k(Val::C(0)));
                        } else {
                            c.skip_attrs_to_value();
                            let v = c.val(&mut fb, t);
                            args.push(v);
                        }
                        argtys.push(t);
                        if c.eat(b')') {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                let e = if op == b"invoke" {
                    // find "to label"
                    loop {
                        c.ws();
                        let w = c.peek_word();
                        if w == b"to" {
                            c.word();
                            break;
                        }
                        if w.is_empty() {
                            c.p += 1;
                        } else {
                            c.word();
                        }
                    }
                    let l = c.label();
                    if !c.eat_word(b"unwind") {
                        c.fail("unwind");
                    }
                    c.label();
                    Some(edge(l, &fb))
                } else {
                    None
                };
                // drop no-ops early
                if let Callee::Direct(id) = &callee {
                    let n = &c.prog.funcs[*id as usize].name;
                    if e.is_none()
                        && (n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.assume"))
                    {
                        c.p = eol + 1;
                        continue;
                    }
                }
                Some(Ins::Call {
                    dst,
                    rty,
                    f: callee,
                    args,
                    argtys,
                    edge: e,
                })
            }
            _ => c.fail(&format!("opcode {}", String::from_utf8_lossy(op))),
        };
        if let Some(i) = ins {
            blocks[cur].push(i);
        }
        match op {
            b"landingpad" => c.p += 1,
            b"switch" | b"invoke" => {
                c.skip_line();
                c.p += 1;
            }
            // operand parsing may have looked past the line end
            _ => c.p = eol + 1,
        }
    }
    // attach phi moves to edges
    let fix = |e: &mut Edge, from: &'static [u8]| {
        for (d, inc) in &phis[e.to as usize] {
            for (v, l) in inc {
                if *l == from {
                    e.moves.push((*d, *v));
                    break;
                }
            }
        }
    };
    for (bi, b) in blocks.iter_mut().enumerate() {
        let from = names[bi];
        for i in b.iter_mut() {
            match i {
                Ins::Br(e) => fix(e, from),
                Ins::CondBr { t, f, .. } => {
                    fix(t, from);
                    fix(f, from);
                }
                Ins::Switch { def, cases, .. } => {
                    fix(def, from);
                    for (_, e) in cases {
                        fix(e, from);
                    }
                }
                Ins::Call { edge: Some(e), .. } => fix(e, from),
                _ => {}
            }
        }
    }
    let _ = RawEdge::Lbl(b"");
    Func {
        name,
        nregs: fb.regs.len() as u32,
        nargs,
        frame: (frame + 15) / 16 * 16,
        consts: fb.consts,
        blocks,
        ninstr,
    }
}

fn label_of(line: &'static [u8]) -> (&'static [u8], usize) {
    if line[0] == b'"' {
        let mut p = 1;
        while line[p] != b'"' {
            p += 1;
        }
        return (&line[1..p], p + 2);
    }
    let mut p = 0;
    while is_id(line[p]) {
        p += 1;
    }
    (&line[..p], p + 1)
}
