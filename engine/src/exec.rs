//! The symbolic executor: runs the register code, forking on conditions that
//! are undetermined under the path condition.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::sync::Arc;

pub const ARENA: usize = 768 << 20;
pub const STACK: u64 = 16 << 20;
const MAXREGS: usize = 1 << 20;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    None,
    SymPick,
    SymFork,
    SymWide,
    SymAssume,
    SymAssert,
    SymOut,
    SymConc,
    SymDomain,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Getenv,
    Write,
    Syscall,
    Errno,
    Open,
    Read,
    Fstat,
    Stat,
    Lseek,
    Close,
    ZeroOk,
    Statx,
    Readlink,
    Getcwd,
    Abort,
    Memchr,
    Memrchr,
    Opendir,
    Readdir,
    Closedir,
}

pub fn ext_of(n: &str) -> Ext {
    match n {
        "sym_pick" => Ext::SymPick,
        "sym_fork" => Ext::SymFork,
        "sym_wide" => Ext::SymWide,
        "sym_assume" => Ext::SymAssume,
        "sym_assert" => Ext::SymAssert,
        "sym_out" => Ext::SymOut,
        "sym_conc" => Ext::SymConc,
        "sym_domain" => Ext::SymDomain,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" | "aligned_alloc" => Ext::Memalign,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "memchr" => Ext::Memchr,
        "memrchr" => Ext::Memrchr,
        "getenv" => Ext::Getenv,
        "write" => Ext::Write,
        "syscall" => Ext::Syscall,
        "__errno_location" => Ext::Errno,
        "open64" | "open" => Ext::Open,
        "read" => Ext::Read,
        "fstat64" | "fstat" => Ext::Fstat,
        "stat64" | "stat" | "lstat64" => Ext::Stat,
        "statx" => Ext::Statx,
        "lseek64" | "lseek" => Ext::Lseek,
        "close" => Ext::Close,
        "readlink" => Ext::Readlink,
        "getcwd" => Ext::Getcwd,
        "abort" | "exit" | "_exit" => Ext::Abort,
        "opendir" => Ext::Opendir,
        "readdir64" | "readdir" => Ext::Readdir,
        "closedir" => Ext::Closedir,
        "fcntl" | "fcntl64" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_self" | "gettid" => Ext::ZeroOk,
        _ => Ext::None,
    }
}

/// A Rust function that may only be entered with known, or single-variable,
/// arguments and is then summarised by its table (pure Unicode data lookups).
fn pointwise(n: &str) -> bool {
    n.contains("unicode_data")
}

pub struct Prog {
    pub p: Program,
    pub ext: Vec<Ext>,
    pub pointwise: Vec<bool>,
}
impl Prog {
    pub fn new(p: Program) -> Prog {
        let ext = p.funcs.iter().map(|f| if f.decl { ext_of(&f.name) } else { Ext::None }).collect();
        let pw = p.funcs.iter().map(|f| !f.decl && pointwise(&f.name)).collect();
        Prog { p, ext, pointwise: pw }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub base: u32,
    pub d: u32,
    pub nret: u32,
    pub sp: u64,
}

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Assume,
    Violation { what: String },
    Limit,
}

#[derive(Debug)]
pub enum Stop {
    End(End),
    Engine(String),
    /// first symbolic operation reached during the concrete set-up
    Boundary,
    /// The instruction starts again, knowing more: a candidate was refused. An
    /// alternative taken up later, or replayed, then goes the same way.
    Retry,
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub enum OutByte {
    C(u8),
    E(E),
}

#[derive(Clone)]
pub struct St {
    pub frames: Vec<Frame>,
    pub sp: u64,
    pub doms: Vec<Bits>,
    pub active: Vec<u16>,
    pub cons: Vec<(E, bool)>,
    pub known_log: Vec<E>,
    pub model: Vec<u64>,
    pub outs: Vec<OutByte>,
    pub insts: u64,
    pub asserts: u32,
    pub pending_fork: Option<E>,
}

pub struct Choice {
    pub st: St,
    pub regs: Box<[V]>,
    pub undo: usize,
    pub trail: usize,
    pub alt: (E, bool),
    pub alt_model: Vec<u64>,
}

/// A decision already taken: (candidate value for concretisation, outcome).
pub type Tr = (u64, bool);

pub struct Item {
    pub trail: Vec<Tr>,
    pub model: Vec<(u32, u64)>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub assume_ends: u64,
    /// Paths that the executor could not follow to their end.
    pub given_up: u64,
    pub forks: u64,
    pub forced: u64,
    pub insts: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub replays: u64,
    pub cache_hits: u64,
    pub search_hits: u64,
    pub pointwise: u64,
    pub concretised: u64,
    pub max_path_insts: u64,
    pub unknowns: u64,
    pub recheck: u64,
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub inputs: Vec<u64>,
    pub outs: Vec<u8>,
    pub what: String,
}

type PwKey = (u32, Vec<(u64, E)>);
#[derive(Clone)]
struct PwVal {
    rets: Vec<V>,
    writes: Vec<(u64, V)>, // offset from the first argument
}

pub struct Exec {
    pub prog: Arc<Prog>,
    pub pool: Pool,
    pub mem: Mem,
    pub z3: Z3,
    pub regs: Vec<V>,
    pub top: usize,
    pub st: St,
    pub known: HashMap<E, bool, BH>,
    pub choices: Vec<Choice>,
    pub trail: Vec<Tr>,
    pub replay: usize, // number of trail entries still prescribed are trail[pos..replay]
    pub pos: usize,
    pub stats: Stats,
    pub violations: Vec<Witness>,
    pub limit: u64,
    pub cov: Vec<Box<[u8]>>,
    pub setup: bool,
    pub errno_addr: u64,
    cache: HashMap<u64, Res, BH>,
    certified: HashMap<E, bool, BH>,
    pub certify: bool,
    pw: HashMap<PwKey, Option<PwVal>, BH>,
    pub files: Vec<(String, Vec<u8>, usize)>,
    pub heap_meta: u64,
    pub domain_tables: Vec<Vec<u64>>,
    rng: u64,
    pub nested: bool,
    pub prescribed: Option<Vec<(u32, u64)>>,
    pub stats_level: u8,
}

fn bits_of_model(b: &Bits, v: u64) -> bool {
    bits_has(b, v)
}

impl Exec {
    pub fn new(prog: Arc<Prog>, limit: u64, timeout_ms: u32) -> Exec {
        let p = &prog.p;
        let mut mem = Mem::new(ARENA);
        let ge = p.globals.len();
        mem.raw[GLOBAL_BASE as usize..GLOBAL_BASE as usize + ge].copy_from_slice(&p.globals);
        let mut at = (p.globals_end + 0xffff) & !0xfff;
        let heap_meta = at;
        at += 4096;
        let errno_addr = at;
        at += 64;
        let stack = (at + 0xfff) & !0xfff;
        let heap = stack + STACK;
        mem.high = heap;
        mem.write_raw(heap_meta, 8, heap);
        let cov = p.funcs.iter().map(|f| vec![0u8; f.edges.len() + 1].into_boxed_slice()).collect();
        Exec {
            pool: Pool::new(),
            mem,
            z3: Z3::new(timeout_ms),
            regs: vec![V::c(0); MAXREGS],
            top: 0,
            st: St {
                frames: vec![],
                sp: stack,
                doms: vec![],
                active: vec![],
                cons: vec![],
                known_log: vec![],
                model: vec![],
                outs: vec![],
                insts: 0,
                asserts: 0,
                pending_fork: None,
            },
            known: HashMap::default(),
            choices: vec![],
            trail: vec![],
            replay: 0,
            pos: 0,
            stats: Stats::default(),
            violations: vec![],
            limit,
            cov,
            setup: false,
            errno_addr,
            cache: HashMap::default(),
            certified: HashMap::default(),
            certify: true,
            pw: HashMap::default(),
            files: vec![],
            heap_meta,
            domain_tables: vec![],
            rng: 0x1234_5678_9abc_def1,
            nested: false,
            prescribed: None,
            stats_level: 0,
            prog,
        }
    }

    pub fn enter(&mut self, f: u32, args: &[V]) {
        let fun = &self.prog.p.funcs[f as usize];
        let base = self.top;
        self.top = base + fun.nregs as usize;
        for (i, a) in args.iter().enumerate() {
            self.regs[base + i] = *a;
        }
        self.cov[f as usize][0] = 1;
        self.st.frames.push(Frame { func: f, pc: 0, base: base as u32, d: 0, nret: 0, sp: self.st.sp });
    }

    // ---------------------------------------------------------------- solver

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn ensure_var(&mut self, id: u16) {
        let n = id as usize + 1;
        if self.st.doms.len() < n {
            self.st.doms.resize(n, [0; 4]);
        }
        if self.st.model.len() < n {
            self.st.model.resize(n, 0);
        }
    }

    /// Truth of a condition if it is determined by the path condition without
    /// a solver call: Some(b), or None.
    fn folded(&self, c: E) -> Option<bool> {
        let i = self.pool.info(c);
        if let Node::Const(k) = i.node {
            return Some(k != 0);
        }
        if i.tab != NOTAB {
            let b = &self.pool.bits[i.tab as usize];
            let d = &self.st.doms[i.var as usize];
            if bits_empty(&bits_andn(d, b)) {
                return Some(true);
            }
            if bits_empty(&bits_and(d, b)) {
                return Some(false);
            }
        }
        self.known.get(&c).copied()
    }

    /// Replaces a single-variable expression by its value when the domain
    /// leaves only one.
    fn fold_v(&self, v: V) -> V {
        if v.e == 0 {
            return v;
        }
        let i = self.pool.info(v.e);
        if i.tab == NOTAB {
            if let Node::Const(c) = i.node {
                if i.w <= 64 {
                    return V::c(c as u64);
                }
            }
            return v;
        }
        let t = &self.pool.tabs[i.tab as usize];
        let d = &self.st.doms[i.var as usize];
        let mut first = None;
        for k in bits_iter(d) {
            match first {
                None => first = Some(t[k]),
                Some(f) if f != t[k] => return v,
                _ => {}
            }
        }
        match first {
            Some(f) => V::c(f),
            None => v,
        }
    }

    /// Rebuilds a multi-variable expression with determined parts replaced.
    fn simplify(&mut self, e: E, depth: u32) -> E {
        let i = *self.pool.info(e);
        if i.tab != NOTAB {
            let v = self.fold_v(V { v: 0, e });
            return if v.e == 0 { self.pool.konst(i.w, v.v as u128) } else { e };
        }
        if i.w == 1 {
            if let Some(b) = self.known.get(&e) {
                return self.pool.konst(1, *b as u128);
            }
        }
        if depth == 0 {
            return e;
        }
        let n = i.node;
        let s = |me: &mut Self, x: E| me.simplify(x, depth - 1);
        match n {
            Node::Bin(op, a, b) => {
                let (x, y) = (s(self, a), s(self, b));
                if (x, y) == (a, b) {
                    e
                } else {
                    self.pool.bin(op, i.w, x, y)
                }
            }
            Node::Cmp(p, a, b) => {
                let (x, y) = (s(self, a), s(self, b));
                if (x, y) == (a, b) {
                    e
                } else {
                    let w = self.pool.w(x);
                    self.pool.cmp(p, w, x, y)
                }
            }
            Node::Ite(c, a, b) => {
                let k = s(self, c);
                if let Some(f) = self.folded(k) {
                    return s(self, if f { a } else { b });
                }
                let (x, y) = (s(self, a), s(self, b));
                if (k, x, y) == (c, a, b) {
                    e
                } else {
                    self.pool.ite(k, x, y)
                }
            }
            Node::ZExt(a) => {
                let x = s(self, a);
                if x == a {
                    e
                } else {
                    self.pool.zext(x, i.w)
                }
            }
            Node::SExt(a) => {
                let x = s(self, a);
                if x == a {
                    e
                } else {
                    self.pool.sext(x, i.w)
                }
            }
            Node::Extract(a, lo) => {
                let x = s(self, a);
                if x == a {
                    e
                } else {
                    self.pool.extract(x, lo, i.w)
                }
            }
            Node::Concat(a, b) => {
                let (x, y) = (s(self, a), s(self, b));
                if (x, y) == (a, b) {
                    e
                } else {
                    self.pool.concat(x, y)
                }
            }
            _ => e,
        }
    }

    /// The variables reached from `vars` through multi-variable constraints,
    /// and those constraints.
    fn slice(&self, vars: u128) -> (u128, Vec<(E, bool)>) {
        let mut vs = vars;
        let mut used = vec![false; self.st.cons.len()];
        let mut out = vec![];
        loop {
            let mut more = false;
            for (k, (e, b)) in self.st.cons.iter().enumerate() {
                if !used[k] {
                    let ev = self.pool.info(*e).vars;
                    if ev & vs != 0 {
                        used[k] = true;
                        vs |= ev;
                        out.push((*e, *b));
                        more = true;
                    }
                }
            }
            if !more {
                break;
            }
        }
        out.sort();
        (vs, out)
    }

    fn satisfies(&mut self, cs: &[(E, bool)], m: &[u64]) -> bool {
        self.pool.new_model();
        for (e, b) in cs {
            if (self.pool.eval(*e, m) != 0) != *b {
                return false;
            }
        }
        true
    }

    /// A model of the path condition with c == val, if there is one.
    fn find_model(&mut self, c: E, val: bool) -> R<Option<Vec<u64>>> {
        let inf = *self.pool.info(c);
        let model = self.st.model.clone();
        self.pool.new_model();
        if (self.pool.eval(c, &model) != 0) == val {
            return Ok(Some(model));
        }
        let (vs, mut cs) = self.slice(inf.vars);
        let single = inf.tab != NOTAB;
        if single {
            let b = self.pool.bits[inf.tab as usize];
            let d = self.st.doms[inf.var as usize];
            let d = if val { bits_and(&d, &b) } else { bits_andn(&d, &b) };
            if bits_empty(&d) {
                return Ok(None);
            }
            if cs.is_empty() {
                let mut m = model;
                m[inf.var as usize] = bits_iter(&d).next().unwrap() as u64;
                return Ok(Some(m));
            }
        }
        let mut all = cs.clone();
        all.push((c, val));
        // local search
        let ids: Vec<u16> = self.st.active.iter().copied().filter(|v| vs >> v & 1 == 1).collect();
        let cv: Vec<u16> = ids.iter().copied().filter(|v| inf.vars >> v & 1 == 1).collect();
        let mut m = model.clone();
        for v in &cv {
            if self.pool.vars[*v as usize].n == 0 {
                continue;
            }
            let old = m[*v as usize];
            let vals: Vec<usize> = bits_iter(&self.st.doms[*v as usize]).collect();
            for x in vals {
                m[*v as usize] = x as u64;
                if self.satisfies(&all, &m) {
                    self.stats.search_hits += 1;
                    return Ok(Some(m));
                }
            }
            m[*v as usize] = old;
        }
        for _ in 0..24 {
            let mut m = model.clone();
            for v in &ids {
                if self.pool.vars[*v as usize].n == 0 {
                    continue;
                }
                if self.rnd() & 1 == 0 {
                    let d = self.st.doms[*v as usize];
                    let k = (self.rnd() % bits_count(&d) as u64) as usize;
                    m[*v as usize] = bits_iter(&d).nth(k).unwrap() as u64;
                }
            }
            if self.satisfies(&all, &m) {
                self.stats.search_hits += 1;
                return Ok(Some(m));
            }
        }
        // the solver decides
        cs.push((c, val));
        let doms: Vec<(u16, Bits)> = ids.iter().map(|v| (*v, self.st.doms[*v as usize])).collect();
        let key = {
            use std::hash::{Hash, Hasher};
            let mut h1 = std::collections::hash_map::DefaultHasher::new();
            cs.hash(&mut h1);
            doms.hash(&mut h1);
            h1.finish()
        };
        let res = match self.cache.get(&key) {
            Some(r) => {
                self.stats.cache_hits += 1;
                r.clone()
            }
            None => {
                let r = self.z3.check(&self.pool, &doms, &cs, false);
                if !matches!(r, Res::Unknown) {
                    self.cache.insert(key, r.clone());
                }
                r
            }
        };
        match res {
            Res::Unsat => Ok(None),
            Res::Sat(m2) => {
                let mut m = model;
                for (v, x) in m2 {
                    m[v as usize] = x;
                }
                if !self.satisfies(&cs, &m) {
                    return Err(Stop::Engine("the solver's model does not satisfy the query".into()));
                }
                Ok(Some(m))
            }
            Res::Unknown => {
                self.stats.unknowns += 1;
                Err(Stop::Engine("solver gave no answer".into()))
            }
        }
    }

    /// Adds c == val to the path condition (the model must already satisfy it).
    fn assume_c(&mut self, c: E, val: bool) {
        let i = *self.pool.info(c);
        if i.tab != NOTAB {
            let b = self.pool.bits[i.tab as usize];
            let d = &mut self.st.doms[i.var as usize];
            *d = if val { bits_and(d, &b) } else { bits_andn(d, &b) };
            self.propagate(1u128 << i.var);
        } else {
            if self.known.insert(c, val).is_none() {
                self.st.known_log.push(c);
            }
            let n = self.pool.not(c);
            if n != c && self.known.insert(n, !val).is_none() {
                self.st.known_log.push(n);
            }
            self.st.cons.push((c, val));
            self.propagate(i.vars);
        }
    }

    /// Arc consistency of comparisons between two single-variable expressions.
    fn propagate(&mut self, vars: u128) {
        let mut dirty = vars;
        let mut rounds = 0;
        while dirty != 0 && rounds < 16 {
            rounds += 1;
            let cur = dirty;
            dirty = 0;
            for k in 0..self.st.cons.len() {
                let (e, val) = self.st.cons[k];
                let inf = *self.pool.info(e);
                if inf.vars & cur == 0 {
                    continue;
                }
                let (p, a, b) = match inf.node {
                    Node::Cmp(p, a, b) => (if val { p } else { neg_pred(p) }, a, b),
                    _ => continue,
                };
                let (ia, ib) = (*self.pool.info(a), *self.pool.info(b));
                if ia.tab == NOTAB || ib.tab == NOTAB {
                    continue;
                }
                let (da, db) = (self.st.doms[ia.var as usize], self.st.doms[ib.var as usize]);
                let ta = &self.pool.tabs[ia.tab as usize];
                let tb = &self.pool.tabs[ib.tab as usize];
                let w = ia.w;
                let mut av: Vec<u64> = bits_iter(&da).map(|x| ta[x]).collect();
                av.sort_unstable();
                av.dedup();
                let mut bv: Vec<u64> = bits_iter(&db).map(|x| tb[x]).collect();
                bv.sort_unstable();
                bv.dedup();
                let filt = |d: &Bits, t: &[u64], other: &[u64], left: bool| -> Bits {
                    let mut o = [0u64; 4];
                    let mut memo: Vec<(u64, bool)> = vec![];
                    for x in bits_iter(d) {
                        let y = t[x];
                        let ok = match memo.iter().find(|m| m.0 == y) {
                            Some(m) => m.1,
                            None => {
                                let r = match p {
                                    Pred::Eq => other.binary_search(&y).is_ok(),
                                    Pred::Ne => !(other.len() == 1 && other[0] == y),
                                    _ => other.iter().any(|z| if left { cmp_c(p, w, y, *z) } else { cmp_c(p, w, *z, y) }),
                                };
                                memo.push((y, r));
                                r
                            }
                        };
                        if ok {
                            o[x >> 6] |= 1 << (x & 63);
                        }
                    }
                    o
                };
                let na = filt(&da, ta, &bv, true);
                let nb = filt(&db, tb, &av, false);
                if na != da {
                    self.st.doms[ia.var as usize] = na;
                    dirty |= 1u128 << ia.var;
                }
                if nb != db {
                    self.st.doms[ib.var as usize] = nb;
                    dirty |= 1u128 << ib.var;
                }
            }
        }
    }

    fn certify_cond(&mut self, c: E) -> R<()> {
        if !self.certify {
            return Ok(());
        }
        let i = *self.pool.info(c);
        if i.tab == NOTAB || matches!(i.node, Node::Tab(..)) {
            return Ok(());
        }
        if self.certified.insert(c, true).is_none() {
            match self.z3.certify(&self.pool, c) {
                Res::Unsat => {}
                Res::Unknown => self.stats.unknowns += 1,
                Res::Sat(m) => return Err(Stop::Engine(format!("value table of a condition disagrees with the solver: {:?} at {m:?}", i.node))),
            }
        }
        Ok(())
    }

    /// Decides a condition, forking if both outcomes are possible.
    pub fn decide(&mut self, v: V) -> R<bool> {
        if v.e == 0 {
            return Ok(v.v & 1 != 0);
        }
        self.decide_e(v.e, 0)
    }
    fn decide_e(&mut self, c: E, cand: u64) -> R<bool> {
        if let Some(b) = self.folded(c) {
            return Ok(b);
        }
        let inf = *self.pool.info(c);
        if inf.tab == NOTAB {
            match inf.node {
                Node::Bin(BinOp::And, a, b) => {
                    if !self.decide_e(a, 0)? {
                        return Ok(false);
                    }
                    return self.decide_e(b, 0);
                }
                Node::Bin(BinOp::Or, a, b) => {
                    if self.decide_e(a, 0)? {
                        return Ok(true);
                    }
                    return self.decide_e(b, 0);
                }
                Node::Bin(BinOp::Xor, a, b) => {
                    let x = self.decide_e(a, 0)?;
                    let y = self.decide_e(b, 0)?;
                    return Ok(x ^ y);
                }
                Node::Ite(k, a, b) => {
                    return if self.decide_e(k, 0)? { self.decide_e(a, 0) } else { self.decide_e(b, 0) };
                }
                _ => {}
            }
            let s = self.simplify(c, 12);
            if s != c {
                let b = self.decide_e(s, 0)?;
                if self.known.insert(c, b).is_none() {
                    self.st.known_log.push(c);
                }
                return Ok(b);
            }
        }
        self.fork(c, cand)
    }

    fn fork(&mut self, c: E, cand: u64) -> R<bool> {
        if self.nested {
            return Err(Stop::Engine("symbolic decision inside a summarised call".into()));
        }
        if self.pos < self.replay {
            let (_, b) = self.trail[self.pos];
            self.pos += 1;
            self.assume_c(c, b);
            return Ok(b);
        }
        self.certify_cond(c)?;
        self.pool.new_model();
        let mt = self.pool.eval(c, &self.st.model) != 0;
        let other = self.find_model(c, !mt)?;
        if let Some(m2) = other {
            self.stats.forks += 1;
            let mut st = self.st.clone();
            st.model = m2.clone();
            let regs: Box<[V]> = self.regs[..self.top].into();
            self.choices.push(Choice { st, regs, undo: self.mem.undo.len(), trail: self.trail.len(), alt: (c, !mt), alt_model: m2 });
            // remember the candidate for the alternative's replay
            self.trail.push((cand, mt));
            self.pos = self.trail.len();
            self.replay = self.pos;
        } else {
            self.stats.forced += 1;
            self.trail.push((cand, mt));
            self.pos = self.trail.len();
            self.replay = self.pos;
        }
        self.assume_c(c, mt);
        Ok(mt)
    }

    /// Takes up the most recent pending alternative. False if none is left.
    pub fn backtrack(&mut self) -> bool {
        let ch = match self.choices.pop() {
            None => return false,
            Some(c) => c,
        };
        self.mem.rollback(ch.undo);
        for k in ch.st.known_log.len()..self.st.known_log.len() {
            let e = self.st.known_log[k];
            self.known.remove(&e);
        }
        self.regs[..ch.regs.len()].copy_from_slice(&ch.regs);
        self.top = ch.regs.len();
        self.st = ch.st;
        let cand = self.trail[ch.trail].0;
        self.trail.truncate(ch.trail);
        self.trail.push((cand, ch.alt.1));
        self.pos = self.trail.len();
        self.replay = self.pos;
        self.assume_c(ch.alt.0, ch.alt.1);
        true
    }

    /// Gives away the oldest pending alternative.
    pub fn donate(&mut self) -> Option<Item> {
        if self.choices.is_empty() {
            return None;
        }
        let ch = self.choices.remove(0);
        let mut trail = self.trail[..ch.trail].to_vec();
        trail.push((self.trail[ch.trail].0, ch.alt.1));
        let model = ch.st.active.iter().map(|v| (self.pool.vars[*v as usize].ord, ch.alt_model[*v as usize])).collect();
        Some(Item { trail, model })
    }

    /// A concrete value for v: the path forks over all feasible ones.
    pub fn concretise(&mut self, v: V, w: u16) -> R<u64> {
        let mut v = self.fold_v(v);
        if v.e == 0 {
            return Ok(v.v);
        }
        let inf = *self.pool.info(v.e);
        if inf.tab == NOTAB {
            let e = self.simplify(v.e, 12);
            v = self.pool.v_of(e);
            v = self.fold_v(v);
            if v.e == 0 {
                return Ok(v.v);
            }
        }
        self.stats.concretised += 1;
        let inf = *self.pool.info(v.e);
        let mut tries = 0;
        loop {
            tries += 1;
            if tries > 5000 {
                return Err(Stop::Engine(format!("too many values to concretise: {:?}", inf.node)));
            }
            let cand = if inf.tab != NOTAB {
                let d = self.st.doms[inf.var as usize];
                let t = &self.pool.tabs[inf.tab as usize];
                let vals: Vec<u64> = bits_iter(&d).map(|i| t[i]).collect();
                if vals.iter().all(|x| *x == vals[0]) {
                    return Ok(vals[0]);
                }
                vals.iter().copied().min().unwrap()
            } else if self.pos < self.replay {
                // a value that is already determined left no entry in the trail
                self.pool.new_model();
                let x = self.pool.eval(v.e, &self.st.model) as u64;
                let k = self.pool.konst(w, x as u128);
                let c = self.pool.cmp(Pred::Eq, w, v.e, k);
                if self.folded(c) == Some(true) {
                    return Ok(x);
                }
                self.trail[self.pos].0
            } else {
                self.pool.new_model();
                self.pool.eval(v.e, &self.st.model) as u64
            };
            let k = self.pool.konst(w, cand as u128);
            let c = self.pool.cmp(Pred::Eq, w, v.e, k);
            let f = self.folded(c);
            let taken = match f {
                Some(b) => b,
                None => self.decide_cand(c, cand)?,
            };
            if taken {
                return Ok(cand);
            }
            if f.is_none() {
                return Err(Stop::Retry);
            }
        }
    }
    fn decide_cand(&mut self, c: E, cand: u64) -> R<bool> {
        let inf = *self.pool.info(c);
        if inf.tab == NOTAB {
            if let Node::Bin(BinOp::And, ..) | Node::Bin(BinOp::Or, ..) | Node::Bin(BinOp::Xor, ..) | Node::Ite(..) = inf.node {
                // keep it one decision so that the candidate is replayed
                return self.fork(c, cand);
            }
        }
        self.fork(c, cand)
    }

    // ------------------------------------------------------------ operations

    #[inline(always)]
    fn get(&mut self, base: usize, o: Op) -> V {
        match o {
            Op::R(r) => unsafe { *self.regs.get_unchecked(base + r as usize) },
            Op::C(c) => V::c(c),
            Op::W(i) => {
                let (w, x) = self.prog.p.wide[i as usize];
                V { v: 0, e: self.pool.konst(w, x) }
            }
        }
    }
    #[inline(always)]
    fn set(&mut self, base: usize, d: u32, v: V) {
        unsafe {
            *self.regs.get_unchecked_mut(base + d as usize) = v;
        }
    }

    fn two(&mut self, w: u16, a: V, b: V) -> (E, E) {
        let (mut a, mut b) = (a, b);
        if a.e != 0 && b.e != 0 {
            let (ia, ib) = (self.pool.info(a.e), self.pool.info(b.e));
            if ia.var != ib.var || ia.var == MULTI {
                a = self.fold_v(a);
                b = self.fold_v(b);
            }
        } else if a.e != 0 {
            if self.pool.info(a.e).var == MULTI {
                a = self.fold_v(a);
            }
        }
        (self.pool.e_of(w, a), self.pool.e_of(w, b))
    }

    fn bin_s(&mut self, op: BinOp, w: u16, a: V, b: V) -> R<V> {
        let (x, y) = self.two(w, a, b);
        if let (true, Some(k)) = (matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem), self.pool.is_const(y)) {
            if k == 0 {
                return Err(Stop::Engine("division by zero in the IR".into()));
            }
        }
        let e = self.pool.bin(op, w, x, y);
        Ok(self.pool.v_of(e))
    }
    fn cmp_s(&mut self, p: Pred, w: u16, a: V, b: V) -> V {
        let (x, y) = self.two(w, a, b);
        let e = self.pool.cmp(p, w, x, y);
        let v = self.pool.v_of(e);
        v
    }
    fn bin_v(&mut self, op: BinOp, w: u16, a: V, b: V) -> R<V> {
        if a.e | b.e == 0 {
            return match bin_c(op, w, a.v, b.v) {
                Some(x) => Ok(V::c(x)),
                None => Err(Stop::Engine("division by zero in the IR".into())),
            };
        }
        self.bin_s(op, w, a, b)
    }
    fn cmp_v(&mut self, p: Pred, w: u16, a: V, b: V) -> V {
        if a.e | b.e == 0 {
            return V::c(cmp_c(p, w, a.v, b.v) as u64);
        }
        self.cmp_s(p, w, a, b)
    }
    fn select_v(&mut self, w: u16, c: V, a: V, b: V) -> V {
        let c = self.fold_v(c);
        if c.e == 0 {
            return if c.v & 1 != 0 { a } else { b };
        }
        if let Some(k) = self.folded(c.e) {
            return if k { a } else { b };
        }
        let (mut a, mut b) = (a, b);
        let ci = *self.pool.info(c.e);
        for v in [&mut a, &mut b] {
            if v.e != 0 && self.pool.info(v.e).var != ci.var {
                *v = self.fold_v(*v);
            }
        }
        let x = self.pool.e_of(w, a);
        let y = self.pool.e_of(w, b);
        let e = self.pool.ite(c.e, x, y);
        self.pool.v_of(e)
    }
    fn zext_v(&mut self, a: V, from: u16, to: u16) -> V {
        if a.e == 0 {
            if to <= 64 {
                return a;
            }
            return V { v: 0, e: self.pool.konst(to, a.v as u128) };
        }
        let _ = from;
        let e = self.pool.zext(a.e, to);
        self.pool.v_of(e)
    }
    fn sext_v(&mut self, a: V, from: u16, to: u16) -> V {
        if a.e == 0 {
            let x = sx(a.v, from);
            if to <= 64 {
                return V::c(x as u64 & mask(to));
            }
            return V { v: 0, e: self.pool.konst(to, x as i128 as u128) };
        }
        let e = self.pool.sext(a.e, to);
        self.pool.v_of(e)
    }
    fn trunc_v(&mut self, a: V, to: u16) -> V {
        if a.e == 0 {
            return V::c(a.v & mask(to));
        }
        let e = self.pool.extract(a.e, 0, to);
        self.pool.v_of(e)
    }

    fn load(&mut self, p: V, off: u32, w: u16) -> R<V> {
        let n = (w as u64 + 7) / 8;
        let p = if p.e == 0 { p } else { self.fold_v(p) };
        if p.e == 0 {
            let addr = p.v.wrapping_add(off as u64);
            if !self.mem.ok(addr, n) {
                return Err(Stop::Engine(format!("load of {n} bytes at {addr:#x}")));
            }
            return Ok(self.mem.load(&mut self.pool, addr, w));
        }
        let inf = *self.pool.info(p.e);
        if inf.tab != NOTAB && w <= 64 {
            let d = self.st.doms[inf.var as usize];
            let cnt = self.pool.vars[inf.var as usize].n as usize;
            let mut out = vec![0u64; cnt];
            let mut ok = true;
            for i in 0..cnt {
                let a = self.pool.tabs[inf.tab as usize][i].wrapping_add(off as u64);
                let inside = bits_has(&d, i as u64);
                if !self.mem.ok(a, n) {
                    if inside {
                        return Err(Stop::Engine(format!("load of {n} bytes at {a:#x} (symbolic)")));
                    }
                    continue;
                }
                if !self.mem.concrete(a, n) {
                    if inside {
                        ok = false;
                        break;
                    }
                    continue;
                }
                out[i] = self.mem.read_raw(a, n) & mask(w);
            }
            if ok {
                let e = self.pool.table(inf.var, w, out);
                return Ok(self.pool.v_of(e));
            }
        }
        let a = self.concretise(p, 64)?.wrapping_add(off as u64);
        if !self.mem.ok(a, n) {
            return Err(Stop::Engine(format!("load of {n} bytes at {a:#x} (concretised)")));
        }
        Ok(self.mem.load(&mut self.pool, a, w))
    }
    fn store(&mut self, p: V, off: u32, w: u16, v: V) -> R<()> {
        let n = (w as u64 + 7) / 8;
        let a = if p.e == 0 { p.v } else { self.concretise(p, 64)? };
        let a = a.wrapping_add(off as u64);
        if !self.mem.ok(a, n) || a < self.heap_meta {
            if !(self.mem.ok(a, n)) {
                return Err(Stop::Engine(format!("store of {n} bytes at {a:#x}")));
            }
        }
        self.mem.store(&mut self.pool, a, w, v);
        Ok(())
    }
    fn check_range(&self, a: u64, n: u64) -> R<()> {
        if n > 0 && !self.mem.ok(a, n) {
            return Err(Stop::Engine(format!("access of {n} bytes at {a:#x}")));
        }
        Ok(())
    }

    // ------------------------------------------------------------------ heap

    fn malloc(&mut self, n: u64, align: u64) -> R<u64> {
        if n > (512 << 20) {
            return Ok(0);
        }
        let need = n + 16 + if align > 16 { align } else { 0 };
        let mut k = 64 - (need - 1).leading_zeros() as u64;
        if k < 5 {
            k = 5;
        }
        let size = 1u64 << k;
        let head = self.heap_meta + 8 + k * 8;
        let h = self.mem.read_raw(head, 8);
        let block = if h != 0 && align <= 16 {
            let next = self.mem.read_raw(h + 8, 8);
            self.mem.write_raw(head, 8, next);
            h
        } else {
            let b = self.mem.read_raw(self.heap_meta, 8);
            let b = (b + 15) & !15;
            if b + size > self.mem.raw.len() as u64 {
                return Err(Stop::Engine("the engine's heap is exhausted".into()));
            }
            self.mem.write_raw(self.heap_meta, 8, b + size);
            b
        };
        let mut p = block + 16;
        if align > 16 {
            p = (p + align - 1) & !(align - 1);
        }
        // header directly before the block: class and requested size
        self.mem.store_c(p - 16, 8, k | (block << 8));
        self.mem.store_c(p - 8, 8, n);
        Ok(p)
    }
    fn free(&mut self, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        self.check_range(p - 16, 16)?;
        let hd = self.mem.read_raw(p - 16, 8);
        let k = hd & 0xff;
        let block = hd >> 8;
        if !(5..40).contains(&k) || block >= p || p - block > 1 << k {
            return Err(Stop::Engine(format!("free of {p:#x}")));
        }
        let head = self.heap_meta + 8 + k * 8;
        let h = self.mem.read_raw(head, 8);
        self.mem.store_c(block + 8, 8, h);
        self.mem.store_c(block, 8, k);
        self.mem.write_raw(head, 8, block);
        Ok(())
    }

    fn bytes_eq(&mut self, a: u64, b: u64, n: u64) -> R<V> {
        self.check_range(a, n)?;
        self.check_range(b, n)?;
        if n == 0 {
            return Ok(V::c(1));
        }
        if self.mem.concrete(a, n) && self.mem.concrete(b, n) {
            return Ok(V::c((self.mem.raw[a as usize..(a + n) as usize] == self.mem.raw[b as usize..(b + n) as usize]) as u64));
        }
        let mut cs: Vec<E> = vec![];
        for i in 0..n {
            let x = self.mem.load_byte(a + i);
            let y = self.mem.load_byte(b + i);
            let c = self.cmp_v(Pred::Eq, 8, x, y);
            let c = self.fold_v(c);
            if c.e == 0 {
                if c.v == 0 {
                    return Ok(V::c(0));
                }
                continue;
            }
            match self.folded(c.e) {
                Some(false) => return Ok(V::c(0)),
                Some(true) => {}
                None => cs.push(c.e),
            }
        }
        let mut acc = V::c(1);
        for c in cs.into_iter().rev() {
            acc = if acc.e == 0 {
                V { v: 0, e: c }
            } else {
                let e = self.pool.and1(c, acc.e);
                self.pool.v_of(e)
            };
        }
        Ok(acc)
    }

    // ------------------------------------------------------------- summaries

    /// Summarises a call of a pure function on arguments over one variable.
    fn call_pointwise(&mut self, f: u32, args: &[V]) -> R<Option<PwVal>> {
        let mut var = NOVAR;
        for a in args {
            if a.e != 0 {
                let i = self.pool.info(a.e);
                if i.tab == NOTAB || (var != NOVAR && var != i.var) {
                    return Ok(None);
                }
                var = i.var;
            }
        }
        let nret = self.prog.p.funcs[f as usize].nret as usize;
        let sret = nret == 0;
        let mut key: PwKey = (f, args.iter().map(|a| (a.v, a.e)).collect());
        if sret {
            key.1[0] = (0, 0);
        }
        if let Some(r) = self.pw.get(&key) {
            return Ok(r.clone());
        }
        self.stats.pointwise += 1;
        let cnt = self.pool.vars[var as usize].n as usize;
        let d = self.st.doms[var as usize];
        let mut rets: Vec<Vec<u64>> = vec![vec![0; cnt]; nret];
        let mut writes: HashMap<u64, Vec<Option<u64>>> = HashMap::new();
        for i in 0..cnt {
            let cargs: Vec<V> = args.iter().map(|a| if a.e == 0 { *a } else { V::c(self.pool.tabs[self.pool.info(a.e).tab as usize][i]) }).collect();
            let undo0 = self.mem.undo.len();
            let (log0, nested0) = (self.mem.log, self.nested);
            self.mem.log = true;
            self.nested = true;
            let depth = self.st.frames.len();
            let top0 = self.top;
            let sp0 = self.st.sp;
            let insts0 = self.st.insts;
            self.enter(f, &cargs);
            // results land in scratch registers just above the caller
            let r = self.run(depth, 2_000_000);
            let mut res = r.map(|_| ());
            if res.is_ok() {
                for k in 0..nret {
                    let v = self.regs[top0 + k];
                    if v.e != 0 {
                        res = Err(Stop::Engine("symbolic result of a summarised call".into()));
                    }
                    rets[k][i] = v.v;
                }
                if sret {
                    let base = cargs[0].v;
                    for u in &self.mem.undo[undo0..] {
                        let (a, n) = match u {
                            Undo::Bytes { addr, len, .. } => (*addr, *len as u64),
                            Undo::Block { addr, old } => (*addr, old.len() as u64),
                            Undo::Sh { addr, .. } => (*addr, 1),
                        };
                        for x in a..a + n {
                            if x >= base && x < base + 64 && x < sp0 {
                                writes.entry(x - base).or_insert_with(|| vec![None; cnt])[i] = Some(self.mem.raw[x as usize] as u64);
                            }
                        }
                    }
                }
            }
            self.st.frames.truncate(depth);
            self.top = top0;
            self.st.sp = sp0;
            self.st.insts = insts0;
            self.mem.rollback(undo0);
            self.mem.log = log0;
            self.nested = nested0;
            match res {
                Ok(()) => {}
                Err(Stop::Engine(x)) if bits_has(&d, i as u64) => return Err(Stop::Engine(x)),
                Err(Stop::End(_)) if bits_has(&d, i as u64) => {
                    self.pw.insert(key, None);
                    return Ok(None);
                }
                Err(_) => {}
            }
        }
        let mut out = PwVal { rets: vec![], writes: vec![] };
        let ws = self.prog.p.funcs[f as usize].ret_w.clone();
        for (k, t) in rets.into_iter().enumerate() {
            let e = self.pool.table(var, ws[k], t);
            out.rets.push(self.pool.v_of(e));
        }
        let mut offs: Vec<_> = writes.into_iter().collect();
        offs.sort_by_key(|x| x.0);
        for (o, t) in offs {
            if t.iter().any(|x| x.is_none()) && bits_iter(&d).any(|i| t[i].is_none()) {
                self.pw.insert(key, None);
                return Ok(None);
            }
            let t: Vec<u64> = t.into_iter().map(|x| x.unwrap_or(0)).collect();
            let e = self.pool.table(var, 8, t);
            out.writes.push((o, self.pool.v_of(e)));
        }
        self.pw.insert(key, Some(out.clone()));
        Ok(Some(out))
    }

    // ------------------------------------------------------------------ run

    /// Runs until the frame stack is back at `stop` frames.
    pub fn run(&mut self, stop: usize, limit: u64) -> R<()> {
        let prog = self.prog.clone();
        let prog = &*prog;
        let mut budget = limit.saturating_sub(if stop == 0 { self.st.insts } else { 0 });
        loop {
            match self.run_in(prog, stop, &mut budget) {
                Err(Stop::Retry) => {}
                r => return r,
            }
        }
    }

    fn run_in(&mut self, prog: &Prog, stop: usize, budget: &mut u64) -> R<()> {
        'frames: loop {
            if self.st.frames.len() <= stop {
                return Ok(());
            }
            let fr = *self.st.frames.last().unwrap();
            let fi = fr.func as usize;
            let fun = &prog.p.funcs[fi];
            let base = fr.base as usize;
            let code = &fun.code[..];
            let mut pc = fr.pc as usize;
            let mut count = 0u64;
            macro_rules! get {
                ($o:expr) => {
                    self.get(base, $o)
                };
            }
            // state must be consistent (pc stored) before anything that may fork
            macro_rules! sync {
                () => {{
                    let l = self.st.frames.len() - 1;
                    self.st.frames[l].pc = pc as u32;
                    self.st.insts += count;
                    *budget = budget.saturating_sub(count);
                    #[allow(unused_assignments)]
                    {
                        count = 0;
                    }
                }};
            }
            macro_rules! goto {
                ($e:expr) => {{
                    let id = $e as usize;
                    let ed = &fun.edges[id];
                    self.cov[fi][id + 1] = 1;
                    let mv = &ed.moves;
                    match mv.len() {
                        0 => {}
                        1 => {
                            let v = get!(mv[0].1);
                            self.set(base, mv[0].0, v);
                        }
                        n => {
                            let mut tmp = [V::c(0); 32];
                            if n <= 32 {
                                for k in 0..n {
                                    tmp[k] = get!(mv[k].1);
                                }
                                for k in 0..n {
                                    self.set(base, mv[k].0, tmp[k]);
                                }
                            } else {
                                let t: Vec<V> = mv.iter().map(|m| get!(m.1)).collect();
                                for k in 0..n {
                                    self.set(base, mv[k].0, t[k]);
                                }
                            }
                        }
                    }
                    pc = ed.target as usize;
                    if *budget < count {
                        sync!();
                        return Err(Stop::End(End::Limit));
                    }
                }};
            }
            loop {
                count += 1;
                match unsafe { code.get_unchecked(pc) } {
                    Inst::Bin { op, w, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        let r = if x.e | y.e == 0 {
                            match bin_c(*op, *w, x.v, y.v) {
                                Some(r) => V::c(r),
                                None => return Err(Stop::Engine(format!("division by zero in {}", fun.name))),
                            }
                        } else {
                            sync!();
                            self.bin_s(*op, *w, x, y)?
                        };
                        self.set(base, *d, r);
                    }
                    Inst::ICmp { p, w, d, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        let r = if x.e | y.e == 0 { V::c(cmp_c(*p, *w, x.v, y.v) as u64) } else { self.cmp_s(*p, *w, x, y) };
                        self.set(base, *d, r);
                    }
                    Inst::Select { w, d, c, a, b } => {
                        let (c, x, y) = (get!(*c), get!(*a), get!(*b));
                        let r = if c.e == 0 {
                            if c.v & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.select_v(*w, c, x, y)
                        };
                        self.set(base, *d, r);
                    }
                    Inst::ZExt { d, a, from, to } => {
                        let x = get!(*a);
                        let r = if x.e == 0 && *to <= 64 { x } else { self.zext_v(x, *from, *to) };
                        self.set(base, *d, r);
                    }
                    Inst::SExt { d, a, from, to } => {
                        let x = get!(*a);
                        let r = self.sext_v(x, *from, *to);
                        self.set(base, *d, r);
                    }
                    Inst::Trunc { d, a, to, .. } => {
                        let x = get!(*a);
                        let r = self.trunc_v(x, *to);
                        self.set(base, *d, r);
                    }
                    Inst::Mov { d, a } => {
                        let x = get!(*a);
                        self.set(base, *d, x);
                    }
                    Inst::Load { d, p, off, w } => {
                        let x = get!(*p);
                        let r = if x.e == 0 {
                            let n = (*w as u64 + 7) / 8;
                            let addr = x.v.wrapping_add(*off as u64);
                            if !self.mem.ok(addr, n) {
                                return Err(Stop::Engine(format!("load of {n} bytes at {addr:#x} in {}", fun.name)));
                            }
                            self.mem.load(&mut self.pool, addr, *w)
                        } else {
                            sync!();
                            self.load(x, *off, *w)?
                        };
                        self.set(base, *d, r);
                    }
                    Inst::Store { v, p, off, w } => {
                        let x = get!(*p);
                        let y = get!(*v);
                        if x.e != 0 {
                            sync!();
                        }
                        self.store(x, *off, *w, y)?;
                    }
                    Inst::Gep { d, base: b, off, terms } => {
                        let mut r = get!(*b);
                        if r.e == 0 {
                            r.v = r.v.wrapping_add(*off);
                        } else if *off != 0 {
                            r = self.bin_v(BinOp::Add, 64, r, V::c(*off))?;
                        }
                        for (o, w, s) in terms.iter() {
                            let x = get!(*o);
                            if x.e | r.e == 0 {
                                r.v = r.v.wrapping_add((sx(x.v, *w) as u64).wrapping_mul(*s));
                            } else {
                                let x = if *w < 64 { self.sext_v(x, *w, 64) } else { x };
                                let x = if *s == 1 { x } else { self.bin_v(BinOp::Mul, 64, x, V::c(*s))? };
                                r = self.bin_v(BinOp::Add, 64, r, x)?;
                            }
                        }
                        self.set(base, *d, r);
                    }
                    Inst::Alloca { d, size, align } => {
                        let al = *align as u64;
                        let p = (self.st.sp + al - 1) & !(al - 1);
                        self.st.sp = p + *size as u64;
                        if self.st.sp > self.heap_meta + 8192 + STACK - 4096 {
                            sync!();
                            return Err(Stop::End(End::Violation { what: "stack exhausted".into() }));
                        }
                        self.set(base, *d, V::c(p));
                    }
                    Inst::BitcastN { d, from, to } => {
                        // lanes, least significant first
                        let mut cur: Option<E> = None;
                        let mut conc = true;
                        let mut acc = 0u128;
                        let mut sh = 0u32;
                        let vals: Vec<V> = from.iter().map(|(o, _)| get!(*o)).collect();
                        for (v, (_, w)) in vals.iter().zip(from.iter()) {
                            if v.e != 0 {
                                conc = false;
                            } else {
                                acc |= (v.v as u128) << sh;
                            }
                            sh += *w as u32;
                        }
                        if conc && sh <= 128 {
                            let mut s = 0u32;
                            for (k, w) in to.iter().enumerate() {
                                let x = (acc >> s) & mask128(*w);
                                let v = if *w <= 64 { V::c(x as u64) } else { V { v: 0, e: self.pool.konst(*w, x) } };
                                self.set(base, *d + k as u32, v);
                                s += *w as u32;
                            }
                        } else {
                            for (v, (_, w)) in vals.iter().zip(from.iter()) {
                                let v = self.fold_v(*v);
                                let e = self.pool.e_of(*w, v);
                                cur = Some(match cur {
                                    None => e,
                                    Some(c) => self.pool.concat(e, c),
                                });
                            }
                            let c = cur.unwrap();
                            let mut s = 0u16;
                            for (k, w) in to.iter().enumerate() {
                                let x = self.pool.extract(c, s, *w);
                                let v = self.pool.v_of(x);
                                self.set(base, *d + k as u32, v);
                                s += *w;
                            }
                        }
                    }
                    Inst::Br(e) => {
                        goto!(*e);
                        continue;
                    }
                    Inst::CondBr { c, t, f } => {
                        let v = get!(*c);
                        let b = if v.e == 0 {
                            v.v & 1 != 0
                        } else {
                            sync!();
                            self.decide(v)?
                        };
                        if b {
                            goto!(*t);
                        } else {
                            goto!(*f);
                        }
                        continue;
                    }
                    Inst::Switch { v, w, cases, def } => {
                        let mut x = get!(*v);
                        if x.e != 0 {
                            sync!();
                            x = self.fold_v(x);
                        }
                        let e = if x.e == 0 {
                            match cases.binary_search_by_key(&x.v, |c| c.0) {
                                Ok(i) => cases[i].1,
                                Err(_) => *def,
                            }
                        } else {
                            self.switch(x, *w, cases, *def)?
                        };
                        goto!(e);
                        continue;
                    }
                    Inst::Ret(vals) => {
                        let n = vals.len();
                        let nested_end = self.st.frames.len() == stop + 1 && stop > 0;
                        let mut tmp = [V::c(0); 16];
                        for k in 0..n {
                            tmp[k] = get!(vals[k]);
                        }
                        sync!();
                        let me = self.st.frames.pop().unwrap();
                        self.top = me.base as usize;
                        self.st.sp = me.sp;
                        if nested_end {
                            for k in 0..n {
                                self.regs[me.base as usize + k] = tmp[k];
                            }
                            return Ok(());
                        }
                        if let Some(p) = self.st.frames.last_mut() {
                            p.pc += 1;
                            let pb = p.base as usize;
                            for k in 0..(me.nret as usize).min(n) {
                                self.set(pb, me.d + k as u32, tmp[k]);
                            }
                        }
                        continue 'frames;
                    }
                    Inst::Call { callee, d, nret, noreturn, args, ws } => {
                        sync!();
                        if *budget == 0 {
                            return Err(Stop::End(End::Limit));
                        }
                        let f = match callee {
                            Callee::Direct(f) => *f,
                            Callee::Indirect(o) => {
                                let v = get!(*o);
                                let a = if v.e == 0 { v.v } else { self.concretise(v, 64)? };
                                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= prog.p.funcs.len() as u64 {
                                    return Err(Stop::Engine(format!("indirect call of {a:#x} in {}", fun.name)));
                                }
                                ((a - FN_BASE) / 16) as u32
                            }
                        };
                        let g = &prog.p.funcs[f as usize];
                        let mut av = [V::c(0); 24];
                        let na = args.len();
                        if na > 24 {
                            return Err(Stop::Engine("call with more than 24 scalar arguments".into()));
                        }
                        for k in 0..na {
                            av[k] = get!(args[k]);
                        }
                        if g.decl {
                            let r = self.ext(prog, f, &av[..na], ws)?;
                            if *nret > 0 {
                                self.set(base, *d, r);
                            }
                        } else {
                            if *noreturn || g.noreturn {
                                let what = self.describe_panic(&g.name, &av[..na]);
                                return Err(Stop::End(End::Violation { what }));
                            }
                            if prog.pointwise[f as usize] && av[..na].iter().any(|a| a.e != 0) && !self.nested {
                                let mut fv = av;
                                for k in 0..na {
                                    fv[k] = self.fold_v(av[k]);
                                }
                                av = fv;
                                if av[..na].iter().any(|a| a.e != 0) {
                                    if let Some(pv) = self.call_pointwise(f, &av[..na])? {
                                        for (k, v) in pv.rets.iter().enumerate() {
                                            self.set(base, *d + k as u32, *v);
                                        }
                                        for (o, v) in pv.writes.iter() {
                                            self.mem.store_byte(av[0].v + o, *v);
                                        }
                                        pc += 1;
                                        continue;
                                    }
                                    for k in 0..na {
                                        if av[k].e != 0 {
                                            let w = ws[k];
                                            let x = self.concretise(av[k], w)?;
                                            av[k] = V::c(x);
                                        }
                                    }
                                }
                            }
                            let nb = self.top;
                            if nb + g.nregs as usize + 64 > MAXREGS || self.st.frames.len() > 20_000 {
                                return Err(Stop::End(End::Violation { what: "stack exhausted (recursion)".into() }));
                            }
                            self.top = nb + g.nregs as usize;
                            self.regs[nb..nb + na].copy_from_slice(&av[..na]);
                            self.cov[f as usize][0] = 1;
                            self.st.frames.push(Frame { func: f, pc: 0, base: nb as u32, d: *d, nret: *nret, sp: self.st.sp });
                            continue 'frames;
                        }
                    }
                    Inst::Intr { id, d, nret, rw, args, ws } => {
                        let mut av = [V::c(0); 40];
                        let na = args.len().min(40);
                        for k in 0..na {
                            av[k] = get!(args[k]);
                        }
                        sync!();
                        self.intr(*id, base, *d, *nret, *rw, &av[..na], ws)?;
                    }
                    Inst::CmpXchg { d, p, a, b, w } => {
                        sync!();
                        let (p, x, y) = (get!(*p), get!(*a), get!(*b));
                        let old = self.load(p, 0, *w)?;
                        let c = self.cmp_v(Pred::Eq, *w, old, x);
                        let eq = self.decide(c)?;
                        if eq {
                            self.store(p, 0, *w, y)?;
                        }
                        self.set(base, *d, old);
                        self.set(base, *d + 1, V::c(eq as u64));
                    }
                    Inst::AtomicRmw { d, p, a, w, op } => {
                        sync!();
                        let (p, x) = (get!(*p), get!(*a));
                        let old = self.load(p, 0, *w)?;
                        let new = match op {
                            0 => x,
                            1 => self.bin_v(BinOp::Add, *w, old, x)?,
                            2 => self.bin_v(BinOp::Sub, *w, old, x)?,
                            3 => self.bin_v(BinOp::And, *w, old, x)?,
                            5 => self.bin_v(BinOp::Or, *w, old, x)?,
                            6 => self.bin_v(BinOp::Xor, *w, old, x)?,
                            _ => return Err(Stop::Engine(format!("atomicrmw {op}"))),
                        };
                        self.store(p, 0, *w, new)?;
                        self.set(base, *d, old);
                    }
                    Inst::Unreachable => {
                        sync!();
                        return Err(Stop::Engine(format!("unreachable instruction reached in {}", fun.name)));
                    }
                    Inst::Unsupported(s) => {
                        sync!();
                        return Err(Stop::Engine(format!("unsupported: {s} in {}", fun.name)));
                    }
                }
                pc += 1;
            }
        }
    }

    fn switch(&mut self, x: V, w: u16, cases: &[(u64, u32)], def: u32) -> R<u32> {
        let inf = *self.pool.info(x.e);
        if inf.tab == NOTAB {
            let v = self.concretise(x, w)?;
            return Ok(match cases.binary_search_by_key(&v, |c| c.0) {
                Ok(i) => cases[i].1,
                Err(_) => def,
            });
        }
        let edge = |v: u64| match cases.binary_search_by_key(&v, |c| c.0) {
            Ok(i) => cases[i].1,
            Err(_) => def,
        };
        let t: Vec<u32> = self.pool.tabs[inf.tab as usize].iter().map(|v| edge(*v)).collect();
        loop {
            let d = self.st.doms[inf.var as usize];
            let mut it = bits_iter(&d);
            let first = t[it.next().unwrap()];
            if it.all(|i| t[i] == first) {
                return Ok(first);
            }
            let tab: Vec<u64> = t.iter().map(|e| (*e == first) as u64).collect();
            let c = self.pool.table(inf.var, 1, tab);
            if self.decide_e(c, 0)? {
                return Ok(first);
            }
        }
    }

    fn describe_panic(&mut self, name: &str, args: &[V]) -> String {
        // the last pointer argument is usually a &'static Location
        for a in args.iter().rev() {
            if a.e == 0 && self.mem.ok(a.v, 24) && a.v < self.prog.p.globals_end {
                let p = self.mem.read_raw(a.v, 8);
                let n = self.mem.read_raw(a.v + 8, 8);
                if n > 3 && n < 300 && self.mem.ok(p, n) {
                    let s = String::from_utf8_lossy(&self.mem.raw[p as usize..(p + n) as usize]).to_string();
                    let s = s.trim_end_matches('\0').to_string();
                    if s.contains(".rs") {
                        let line = self.mem.read_raw(a.v + 16, 4);
                        return format!("panic at {s}:{line} ({})", short(name));
                    }
                }
            }
        }
        format!("panic in {}", short(name))
    }

    fn intr(&mut self, id: Intr, base: usize, d: u32, nret: u32, rw: u16, a: &[V], ws: &[u16]) -> R<()> {
        let w = ws.first().copied().unwrap_or(64);
        let r = match id {
            Intr::Memcpy | Intr::Memmove => {
                let dst = self.concretise(a[0], 64)?;
                let src = self.concretise(a[1], 64)?;
                let n = self.concretise(a[2], ws[2])?;
                self.check_range(dst, n)?;
                self.check_range(src, n)?;
                self.mem.copy(dst, src, n);
                return Ok(());
            }
            Intr::Memset => {
                let dst = self.concretise(a[0], 64)?;
                let n = self.concretise(a[2], ws[2])?;
                self.check_range(dst, n)?;
                self.mem.fill(dst, n, a[1]);
                return Ok(());
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match id {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.cmp_v(p, w, a[0], a[1]);
                self.select_v(w, c, a[0], a[1])
            }
            Intr::Abs => {
                let neg = self.bin_v(BinOp::Sub, w, V::c(0), a[0])?;
                let c = self.cmp_v(Pred::Slt, w, a[0], V::c(0));
                self.select_v(w, c, neg, a[0])
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::Bitreverse => {
                let v = self.fold_v(a[0]);
                let e = self.pool.e_of(w, v);
                let e = match id {
                    Intr::Ctlz => self.pool.un(Node::Ctlz(e), w),
                    Intr::Cttz => self.pool.un(Node::Cttz(e), w),
                    Intr::Ctpop => self.pool.un(Node::Ctpop(e), w),
                    Intr::Bswap => self.pool.bswap(e),
                    _ => self.pool.un(Node::Bitrev(e), w),
                };
                self.pool.v_of(e)
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.concretise(a[2], w)? % w as u64;
                let s = if id == Intr::Fshl { s } else { (w as u64 - s) % w as u64 };
                // fshl by s; fshr by k == fshl by w-k (for k != 0), fshr by 0 == second operand
                if s == 0 {
                    if id == Intr::Fshl {
                        a[0]
                    } else {
                        a[1]
                    }
                } else {
                    let h = self.bin_v(BinOp::Shl, w, a[0], V::c(s))?;
                    let l = self.bin_v(BinOp::LShr, w, a[1], V::c(w as u64 - s))?;
                    self.bin_v(BinOp::Or, w, h, l)?
                }
            }
            Intr::USubSat => {
                let c = self.cmp_v(Pred::Ult, w, a[0], a[1]);
                let s = self.bin_v(BinOp::Sub, w, a[0], a[1])?;
                self.select_v(w, c, V::c(0), s)
            }
            Intr::UAddSat => {
                let s = self.bin_v(BinOp::Add, w, a[0], a[1])?;
                let c = self.cmp_v(Pred::Ult, w, s, a[0]);
                self.select_v(w, c, V::c(mask(w)), s)
            }
            Intr::UAddO => {
                let s = self.bin_v(BinOp::Add, w, a[0], a[1])?;
                let c = self.cmp_v(Pred::Ult, w, s, a[0]);
                self.set(base, d, s);
                self.set(base, d + 1, c);
                return Ok(());
            }
            Intr::USubO => {
                let s = self.bin_v(BinOp::Sub, w, a[0], a[1])?;
                let c = self.cmp_v(Pred::Ult, w, a[0], a[1]);
                self.set(base, d, s);
                self.set(base, d + 1, c);
                return Ok(());
            }
            Intr::UMulO | Intr::SMulO | Intr::SAddO | Intr::SSubO => {
                let ww = 2 * w;
                let (x, y) = if id == Intr::UMulO {
                    (self.zext_v(a[0], w, ww), self.zext_v(a[1], w, ww))
                } else {
                    (self.sext_v(a[0], w, ww), self.sext_v(a[1], w, ww))
                };
                let op = match id {
                    Intr::SAddO => BinOp::Add,
                    Intr::SSubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (x, y) = (self.pool.e_of(ww, x), self.pool.e_of(ww, y));
                let r = self.pool.bin(op, ww, x, y);
                let lo = self.pool.extract(r, 0, w);
                let back = if id == Intr::UMulO { self.pool.zext(lo, ww) } else { self.pool.sext(lo, ww) };
                let ne = self.pool.cmp(Pred::Ne, ww, back, r);
                let (lo, ne) = (self.pool.v_of(lo), self.pool.v_of(ne));
                self.set(base, d, lo);
                self.set(base, d + 1, ne);
                return Ok(());
            }
            Intr::Ucmp | Intr::Scmp => {
                let (lt, gt) = if id == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp_v(lt, w, a[0], a[1]);
                let g = self.cmp_v(gt, w, a[0], a[1]);
                let x = self.select_v(rw, g, V::c(1), V::c(0));
                self.select_v(rw, l, V::c(mask(rw)), x)
            }
            Intr::IsConstant => V::c(0),
            Intr::ThreadLocal => a[0],
            Intr::LoadRelative => {
                let p = self.bin_v(BinOp::Add, 64, a[0], a[1])?;
                let v = self.load(p, 0, 32)?;
                let v = self.sext_v(v, 32, 64);
                self.bin_v(BinOp::Add, 64, a[0], v)?
            }
            Intr::Ptrmask => self.bin_v(BinOp::And, 64, a[0], a[1])?,
            Intr::ReduceAnd | Intr::ReduceOr | Intr::ReduceAdd | Intr::ReduceUMax | Intr::ReduceUMin => {
                let mut acc = a[0];
                for x in &a[1..] {
                    acc = match id {
                        Intr::ReduceAnd => self.bin_v(BinOp::And, w, acc, *x)?,
                        Intr::ReduceOr => self.bin_v(BinOp::Or, w, acc, *x)?,
                        Intr::ReduceAdd => self.bin_v(BinOp::Add, w, acc, *x)?,
                        _ => {
                            let p = if id == Intr::ReduceUMax { Pred::Ugt } else { Pred::Ult };
                            let c = self.cmp_v(p, w, acc, *x);
                            self.select_v(w, c, acc, *x)
                        }
                    };
                }
                acc
            }
            Intr::Trap => return Err(Stop::End(End::Violation { what: "abort (trap)".into() })),
            Intr::Ignore => return Ok(()),
            Intr::Unknown => return Err(Stop::Engine("unknown intrinsic".into())),
        };
        if nret > 0 {
            self.set(base, d, r);
        }
        Ok(())
    }

    fn cstr(&self, p: u64) -> R<String> {
        let mut s = vec![];
        let mut a = p;
        loop {
            self.check_range(a, 1)?;
            if self.mem.shadow(a) != 0 {
                return Err(Stop::Engine("symbolic C string".into()));
            }
            let b = self.mem.raw[a as usize];
            if b == 0 {
                return Ok(String::from_utf8_lossy(&s).to_string());
            }
            s.push(b);
            a += 1;
        }
    }

    fn new_var(&mut self, n: u32, w: u16) -> R<E> {
        let ord = self.st.active.len() as u32;
        let e = self.pool.var(ord, n, w);
        let id = match self.pool.info(e).node {
            Node::Var(v) => v,
            _ => unreachable!(),
        };
        self.ensure_var(id);
        self.st.doms[id as usize] = if n > 0 { bits_full(n) } else { [u64::MAX; 4] };
        self.st.active.push(id);
        // a value prescribed by a donated work item is kept
        let v = match self.prescribed.as_ref().and_then(|p| p.iter().find(|x| x.0 == ord)) {
            Some((_, v)) if self.pos < self.replay => *v,
            _ => 0,
        };
        self.st.model[id as usize] = v;
        Ok(e)
    }

    fn ext(&mut self, prog: &Prog, f: u32, a: &[V], ws: &[u16]) -> R<V> {
        let e = prog.ext[f as usize];
        let name = &prog.p.funcs[f as usize].name;
        macro_rules! c {
            ($i:expr) => {
                self.concretise(a[$i], ws[$i])?
            };
        }
        let symbolic = matches!(e, Ext::SymPick | Ext::SymFork | Ext::SymWide);
        if symbolic && self.setup {
            return Err(Stop::Boundary);
        }
        Ok(match e {
            Ext::SymPick | Ext::SymFork => {
                let n = c!(0);
                if n == 0 || n > 256 {
                    return Err(Stop::Engine(format!("sym_pick({n})")));
                }
                if n == 1 {
                    // keep the numbering of inputs
                    let ord = self.st.active.len() as u32;
                    let _ = ord;
                    let _ = self.new_var(1, 8)?;
                    return Ok(V::c(0));
                }
                if e == Ext::SymFork {
                    // the variable must exist before the fork re-executes the call
                    let e = match self.st.pending_fork {
                        Some(e) => e,
                        None => self.new_var(n as u32, 8)?,
                    };
                    self.st.pending_fork = Some(e);
                    let v8 = V { v: 0, e };
                    let r = self.concretise(v8, 8)?;
                    self.st.pending_fork = None;
                    return Ok(V::c(r));
                }
                let x = self.new_var(n as u32, 8)?;
                let z = self.pool.zext(x, 64);
                self.pool.v_of(z)
            }
            Ext::SymWide => {
                let bits = c!(0) as u16;
                let x = self.new_var(0, bits)?;
                let z = self.pool.zext(x, 64);
                self.pool.v_of(z)
            }
            Ext::SymConc => {
                let r = c!(0);
                V::c(r)
            }
            Ext::SymDomain => V::c(0),
            Ext::SymAssume => {
                let v = self.trunc_v(a[0], 1);
                if self.decide(v)? {
                    V::c(0)
                } else {
                    return Err(Stop::End(End::Assume));
                }
            }
            Ext::SymAssert => {
                let id = c!(1);
                self.st.asserts += 1;
                self.stats.asserts += 1;
                let v = self.trunc_v(a[0], 1);
                if v.e != 0 {
                    self.stats.sym_asserts += 1;
                }
                if self.decide(v)? {
                    V::c(0)
                } else {
                    return Err(Stop::End(End::Violation { what: format!("assertion {id} fails") }));
                }
            }
            Ext::SymOut => {
                let p = c!(0);
                let n = c!(1);
                self.check_range(p, n)?;
                let mut o = vec![OutByte::C(n as u8)];
                for i in 0..n {
                    let b = self.mem.load_byte(p + i);
                    o.push(if b.e == 0 { OutByte::C(b.v as u8) } else { OutByte::E(b.e) });
                }
                self.st.outs.extend(o);
                V::c(0)
            }
            Ext::Malloc => {
                let n = c!(0);
                V::c(self.malloc(n, 16)?)
            }
            Ext::Calloc => {
                let n = c!(0).wrapping_mul(c!(1));
                let p = self.malloc(n, 16)?;
                if p != 0 {
                    self.mem.fill(p, n, V::c(0));
                }
                V::c(p)
            }
            Ext::Realloc => {
                let p = c!(0);
                let n = c!(1);
                if p == 0 {
                    return Ok(V::c(self.malloc(n, 16)?));
                }
                let hd = self.mem.read_raw(p - 16, 8);
                let old = self.mem.read_raw(p - 8, 8);
                let (k, block) = (hd & 0xff, hd >> 8);
                if p + n <= block + (1 << k) {
                    self.mem.store_c(p - 8, 8, n);
                    return Ok(V::c(p));
                }
                let q = self.malloc(n, 16)?;
                if q != 0 {
                    self.mem.copy(q, p, old.min(n));
                    self.free(p)?;
                }
                V::c(q)
            }
            Ext::Free => {
                let p = c!(0);
                self.free(p)?;
                V::c(0)
            }
            Ext::Memalign => {
                let out = c!(0);
                let al = c!(1);
                let n = c!(2);
                let p = self.malloc(n, al.max(16))?;
                self.mem.store_c(out, 8, p);
                V::c(if p == 0 { 12 } else { 0 })
            }
            Ext::Bcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let eq = self.bytes_eq(p, q, n)?;
                if eq.e == 0 {
                    V::c(1 - eq.v)
                } else {
                    let ne = self.pool.not(eq.e);
                    let z = self.pool.zext(ne, 32);
                    self.pool.v_of(z)
                }
            }
            Ext::Memcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                self.check_range(p, n)?;
                self.check_range(q, n)?;
                for i in 0..n {
                    let x = self.mem.load_byte(p + i);
                    let y = self.mem.load_byte(q + i);
                    let c = self.cmp_v(Pred::Eq, 8, x, y);
                    if !self.decide(c)? {
                        let x = self.zext_v(x, 8, 32);
                        let y = self.zext_v(y, 8, 32);
                        return self.bin_v(BinOp::Sub, 32, x, y);
                    }
                }
                V::c(0)
            }
            Ext::Memchr | Ext::Memrchr => {
                let (p, b, n) = (c!(0), a[1], c!(2));
                self.check_range(p, n)?;
                let b = self.trunc_v(b, 8);
                for i in 0..n {
                    let i = if e == Ext::Memchr { i } else { n - 1 - i };
                    let x = self.mem.load_byte(p + i);
                    let c = self.cmp_v(Pred::Eq, 8, x, b);
                    if self.decide(c)? {
                        return Ok(V::c(p + i));
                    }
                }
                V::c(0)
            }
            Ext::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    self.check_range(p + n, 1)?;
                    let b = self.mem.load_byte(p + n);
                    let z = self.cmp_v(Pred::Eq, 8, b, V::c(0));
                    if self.decide(z)? {
                        break;
                    }
                    n += 1;
                }
                V::c(n)
            }
            Ext::Getenv | Ext::ZeroOk => V::c(0),
            Ext::Write => a[2],
            Ext::Syscall => {
                let nr = c!(0);
                if nr == 318 {
                    // getrandom: a fixed pattern
                    let (p, n) = (c!(1), c!(2));
                    self.check_range(p, n)?;
                    self.mem.fill(p, n, V::c(0x5a));
                    V::c(n)
                } else {
                    return Err(Stop::Engine(format!("syscall {nr}")));
                }
            }
            Ext::Errno => V::c(self.errno_addr),
            Ext::Abort => return Err(Stop::End(End::Violation { what: format!("call of {name}") })),
            Ext::Open => {
                let p = c!(0);
                let path = self.cstr(p)?;
                match std::fs::read(&path) {
                    Ok(b) => {
                        self.files.push((path, b, 0));
                        V::c(self.files.len() as u64 + 2)
                    }
                    Err(_) => {
                        self.mem.store_c(self.errno_addr, 4, 2);
                        V::c(mask(32))
                    }
                }
            }
            Ext::Read => {
                let (fd, p, n) = (c!(0), c!(1), c!(2));
                if !self.setup || fd < 3 || fd as usize - 3 >= self.files.len() {
                    return Err(Stop::Engine("file access outside the concrete set-up".into()));
                }
                let (_, b, at) = &mut self.files[fd as usize - 3];
                let k = (n as usize).min(b.len() - *at);
                let chunk = b[*at..*at + k].to_vec();
                *at += k;
                self.check_range(p, k as u64)?;
                self.mem.write_block(p, &chunk);
                V::c(k as u64)
            }
            Ext::Fstat => {
                let (fd, p) = (c!(0), c!(1));
                let n = self.files.get((fd as usize).wrapping_sub(3)).map(|f| f.1.len() as u64).unwrap_or(0);
                self.mem.fill(p, 144, V::c(0));
                self.mem.store_c(p + 24, 4, 0o100644);
                self.mem.store_c(p + 48, 8, n);
                V::c(0)
            }
            Ext::Stat | Ext::Statx => {
                self.mem.store_c(self.errno_addr, 4, 38);
                if e == Ext::Stat {
                    let p = c!(0);
                    let path = self.cstr(p)?;
                    let q = c!(1);
                    match std::fs::metadata(&path) {
                        Ok(m) => {
                            self.mem.fill(q, 144, V::c(0));
                            let mode = if m.is_dir() { 0o040755 } else { 0o100644 };
                            self.mem.store_c(q + 24, 4, mode);
                            self.mem.store_c(q + 48, 8, m.len());
                            return Ok(V::c(0));
                        }
                        Err(_) => {
                            self.mem.store_c(self.errno_addr, 4, 2);
                        }
                    }
                }
                V::c(mask(ws_ret(name)))
            }
            Ext::Lseek => {
                let (fd, off, wh) = (c!(0), c!(1), c!(2));
                match self.files.get_mut((fd as usize).wrapping_sub(3)) {
                    Some(f) => {
                        let at = match wh {
                            0 => off,
                            1 => (f.2 as u64).wrapping_add(off),
                            _ => (f.1.len() as u64).wrapping_add(off),
                        };
                        f.2 = at as usize;
                        V::c(at)
                    }
                    None => V::c(u64::MAX),
                }
            }
            Ext::Close | Ext::Closedir => V::c(0),
            Ext::Readlink => V::c(u64::MAX),
            Ext::Getcwd => V::c(0),
            Ext::Opendir | Ext::Readdir => return Err(Stop::Engine("directory access".into())),
            Ext::None => return Err(Stop::Engine(format!("call of external function {name}"))),
        })
    }

    pub fn inputs(&self) -> Vec<u64> {
        self.st.active.iter().map(|v| self.st.model[*v as usize]).collect()
    }
    pub fn outputs(&mut self) -> Vec<u8> {
        let outs = self.st.outs.clone();
        self.pool.new_model();
        let m = self.st.model.clone();
        outs.iter()
            .map(|o| match o {
                OutByte::C(b) => *b,
                OutByte::E(e) => self.pool.eval(*e, &m) as u8,
            })
            .collect()
    }
    /// Full re-check of the current path condition by the solver, on the
    /// structure of every condition instead of its table.
    pub fn model_ok(&self) -> bool {
        self.st.active.iter().all(|v| self.pool.vars[*v as usize].n == 0 || bits_of_model(&self.st.doms[*v as usize], self.st.model[*v as usize]))
    }
}

fn ws_ret(_n: &str) -> u16 {
    32
}

pub fn short(n: &str) -> String {
    // crude demangling of legacy and v0 names
    let mut out = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(k) = n[i..j].parse::<usize>() {
                let mut s = j;
                if b.get(s) == Some(&b'_') {
                    s += 1;
                }
                if k > 0 && s + k <= b.len() {
                    let w = &n[s..s + k];
                    if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.') && w.bytes().any(|c| c.is_ascii_alphabetic()) {
                        if !(w.len() == 17 && w.starts_with('h')) {
                            out.push(w.to_string());
                        }
                        i = s + k;
                        continue;
                    }
                }
            }
            i = j;
            continue;
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
