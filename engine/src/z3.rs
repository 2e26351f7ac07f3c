//! The solver: hand-written bindings to libz3 and the translation of
//! expressions to bit-vector terms.
use crate::expr::*;
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, CString};
use std::time::Instant;

enum O {}
type P = *mut O;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
}

#[derive(Debug, Clone)]
pub enum Res {
    Sat(Vec<(u16, u64)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    uses: u64,
    tab_bv: HashMap<E, P, BH>,
    tab_bool: HashMap<E, P, BH>,
    raw_bv: HashMap<E, P, BH>,
    raw_bool: HashMap<E, P, BH>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub certified: u64,
    timeout_ms: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            uses: 0,
            tab_bv: HashMap::default(),
            tab_bool: HashMap::default(),
            raw_bv: HashMap::default(),
            raw_bool: HashMap::default(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            secs: 0.0,
            certified: 0,
            timeout_ms,
        };
        z.reset();
        z
    }
    fn reset(&mut self) {
        unsafe {
            if !self.c.is_null() {
                Z3_del_context(self.c);
            }
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            let k = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, k, self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
            self.tab_bv.clear();
            self.tab_bool.clear();
            self.raw_bv.clear();
            self.raw_bool.clear();
            self.uses = 0;
        }
    }
    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            if w <= 64 {
                let t = Z3_mk_bv_sort(self.c, w as u32);
                Z3_mk_unsigned_int64(self.c, v as u64 & mask(w), t)
            } else {
                let hi = self.num(w - 64, v >> 64);
                let lo = self.num(64, v & u64::MAX as u128);
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    fn var(&self, pool: &Pool, v: u16) -> P {
        unsafe {
            let n = CString::new(format!("v{v}")).unwrap();
            let s = Z3_mk_string_symbol(self.c, n.as_ptr());
            let t = Z3_mk_bv_sort(self.c, pool.vars[v as usize].w as u32);
            Z3_mk_const(self.c, s, t)
        }
    }
    fn and(&self, v: &[P]) -> P {
        unsafe {
            match v.len() {
                0 => Z3_mk_true(self.c),
                1 => v[0],
                _ => Z3_mk_and(self.c, v.len() as u32, v.as_ptr()),
            }
        }
    }
    fn or(&self, v: &[P]) -> P {
        unsafe {
            match v.len() {
                0 => Z3_mk_false(self.c),
                1 => v[0],
                _ => Z3_mk_or(self.c, v.len() as u32, v.as_ptr()),
            }
        }
    }
    fn range(&self, x: P, w: u16, lo: u64, hi: u64) -> P {
        unsafe {
            if lo == hi {
                return Z3_mk_eq(self.c, x, self.num(w, lo as u128));
            }
            let h = Z3_mk_bvule(self.c, x, self.num(w, hi as u128));
            if lo == 0 {
                return h;
            }
            let l = Z3_mk_bvule(self.c, self.num(w, lo as u128), x);
            self.and(&[l, h])
        }
    }
    fn in_bits(&self, pool: &Pool, v: u16, b: &Bits) -> P {
        let x = self.var(pool, v);
        let w = pool.vars[v as usize].w;
        let n = pool.vars[v as usize].n as u64;
        let mut rs = vec![];
        let mut i = 0;
        while i < n {
            if bits_has(b, i) {
                let s = i;
                while i + 1 < n && bits_has(b, i + 1) {
                    i += 1;
                }
                rs.push(self.range(x, w, s, i));
            }
            i += 1;
        }
        self.or(&rs)
    }
    /// value table as a tree of comparisons over runs
    fn runs(&self, pool: &Pool, v: u16, w: u16, t: &[u64]) -> P {
        let x = self.var(pool, v);
        let vw = pool.vars[v as usize].w;
        let mut ends: Vec<(u64, u64)> = vec![]; // (last index, value)
        for (i, y) in t.iter().enumerate() {
            match ends.last_mut() {
                Some(l) if l.1 == *y => l.0 = i as u64,
                _ => ends.push((i as u64, *y)),
            }
        }
        self.tree(x, vw, w, &ends)
    }
    fn tree(&self, x: P, vw: u16, w: u16, r: &[(u64, u64)]) -> P {
        if r.len() == 1 {
            return self.num(w, r[0].1 as u128);
        }
        let m = r.len() / 2;
        let l = self.tree(x, vw, w, &r[..m]);
        let h = self.tree(x, vw, w, &r[m..]);
        unsafe {
            let c = Z3_mk_bvule(self.c, x, self.num(vw, r[m - 1].0 as u128));
            Z3_mk_ite(self.c, c, l, h)
        }
    }

    fn bv(&mut self, pool: &Pool, e: E, raw: bool) -> P {
        let cached = if raw { self.raw_bv.get(&e) } else { self.tab_bv.get(&e) };
        if let Some(p) = cached {
            return *p;
        }
        let i = *pool.info(e);
        let w = i.w;
        let c = self.c;
        let p = unsafe {
            if !raw && i.tab != NOTAB && !matches!(i.node, Node::Var(_)) {
                self.runs(pool, i.var, w, &pool.tabs[i.tab as usize])
            } else {
                match i.node {
                    Node::Const(k) => self.num(w, k),
                    Node::Var(v) => {
                        let x = self.var(pool, v);
                        x
                    }
                    Node::Tab(v, t) => self.runs(pool, v, w, &pool.tabs[t as usize]),
                    _ if w == 1 => {
                        let b = self.boolean(pool, e, raw);
                        let (o, z) = (self.num(1, 1), self.num(1, 0));
                        Z3_mk_ite(c, b, o, z)
                    }
                    Node::Cmp(..) => unreachable!(),
                    Node::Bin(op, a, b) => {
                        let x = self.bv(pool, a, raw);
                        let y = self.bv(pool, b, raw);
                        match op {
                            BinOp::Add => Z3_mk_bvadd(c, x, y),
                            BinOp::Sub => Z3_mk_bvsub(c, x, y),
                            BinOp::Mul => Z3_mk_bvmul(c, x, y),
                            BinOp::Shl => Z3_mk_bvshl(c, x, y),
                            BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                            BinOp::AShr => Z3_mk_bvashr(c, x, y),
                            BinOp::And => Z3_mk_bvand(c, x, y),
                            BinOp::Or => Z3_mk_bvor(c, x, y),
                            BinOp::Xor => Z3_mk_bvxor(c, x, y),
                            _ => {
                                let z = self.num(w, 0);
                                let isz = Z3_mk_eq(c, y, z);
                                let q = match op {
                                    BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                                    BinOp::URem => Z3_mk_bvurem(c, x, y),
                                    BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                                    _ => Z3_mk_bvsrem(c, x, y),
                                };
                                Z3_mk_ite(c, isz, z, q)
                            }
                        }
                    }
                    Node::Ite(k, a, b) => {
                        let k = self.boolean(pool, k, raw);
                        let x = self.bv(pool, a, raw);
                        let y = self.bv(pool, b, raw);
                        Z3_mk_ite(c, k, x, y)
                    }
                    Node::ZExt(a) => {
                        let x = self.bv(pool, a, raw);
                        Z3_mk_zero_ext(c, (w - pool.w(a)) as u32, x)
                    }
                    Node::SExt(a) => {
                        let x = self.bv(pool, a, raw);
                        Z3_mk_sign_ext(c, (w - pool.w(a)) as u32, x)
                    }
                    Node::Extract(a, lo) => {
                        let x = self.bv(pool, a, raw);
                        Z3_mk_extract(c, (lo + w - 1) as u32, lo as u32, x)
                    }
                    Node::Concat(a, b) => {
                        let x = self.bv(pool, a, raw);
                        let y = self.bv(pool, b, raw);
                        Z3_mk_concat(c, x, y)
                    }
                    Node::Bswap(a) => {
                        let x = self.bv(pool, a, raw);
                        let n = w / 8;
                        let mut r = Z3_mk_extract(c, 7, 0, x);
                        for k in 1..n as u32 {
                            let b = Z3_mk_extract(c, k * 8 + 7, k * 8, x);
                            r = Z3_mk_concat(c, r, b);
                        }
                        r
                    }
                    Node::Bitrev(a) => {
                        let x = self.bv(pool, a, raw);
                        let mut r = Z3_mk_extract(c, 0, 0, x);
                        for k in 1..w as u32 {
                            let b = Z3_mk_extract(c, k, k, x);
                            r = Z3_mk_concat(c, r, b);
                        }
                        r
                    }
                    Node::Ctlz(a) => {
                        let x = self.bv(pool, a, raw);
                        let mut r = self.num(w, w as u128);
                        for k in 0..w as u32 {
                            let b = Z3_mk_extract(c, k, k, x);
                            let one = self.num(1, 1);
                            let q = Z3_mk_eq(c, b, one);
                            let v = self.num(w, (w as u128 - 1) - k as u128);
                            r = Z3_mk_ite(c, q, v, r);
                        }
                        r
                    }
                    Node::Cttz(a) => {
                        let x = self.bv(pool, a, raw);
                        let mut r = self.num(w, w as u128);
                        for k in (0..w as u32).rev() {
                            let b = Z3_mk_extract(c, k, k, x);
                            let one = self.num(1, 1);
                            let q = Z3_mk_eq(c, b, one);
                            let v = self.num(w, k as u128);
                            r = Z3_mk_ite(c, q, v, r);
                        }
                        r
                    }
                    Node::Ctpop(a) => {
                        let x = self.bv(pool, a, raw);
                        let mut r = self.num(w, 0);
                        for k in 0..w as u32 {
                            let b = Z3_mk_extract(c, k, k, x);
                            let b = if w > 1 { Z3_mk_zero_ext(c, w as u32 - 1, b) } else { b };
                            r = Z3_mk_bvadd(c, r, b);
                        }
                        r
                    }
                }
            }
        };
        if raw {
            self.raw_bv.insert(e, p);
        } else {
            self.tab_bv.insert(e, p);
        }
        p
    }
    fn boolean(&mut self, pool: &Pool, e: E, raw: bool) -> P {
        let cached = if raw { self.raw_bool.get(&e) } else { self.tab_bool.get(&e) };
        if let Some(p) = cached {
            return *p;
        }
        let i = *pool.info(e);
        let c = self.c;
        let p = unsafe {
            if !raw && i.tab != NOTAB {
                let b = pool.bits[i.tab as usize];
                self.in_bits(pool, i.var, &b)
            } else {
                match i.node {
                    Node::Const(k) => {
                        if k != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    Node::Tab(v, t) => {
                        let b = pool.bits[t as usize];
                        self.in_bits(pool, v, &b)
                    }
                    Node::Cmp(p, a, b) => {
                        let x = self.bv(pool, a, raw);
                        let y = self.bv(pool, b, raw);
                        match p {
                            Pred::Eq => Z3_mk_eq(c, x, y),
                            Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
                            Pred::Ugt => Z3_mk_bvult(c, y, x),
                            Pred::Uge => Z3_mk_bvule(c, y, x),
                            Pred::Ult => Z3_mk_bvult(c, x, y),
                            Pred::Ule => Z3_mk_bvule(c, x, y),
                            Pred::Sgt => Z3_mk_bvslt(c, y, x),
                            Pred::Sge => Z3_mk_bvsle(c, y, x),
                            Pred::Slt => Z3_mk_bvslt(c, x, y),
                            Pred::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                    Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), a, b) => {
                        let x = self.boolean(pool, a, raw);
                        let y = self.boolean(pool, b, raw);
                        match op {
                            BinOp::And => self.and(&[x, y]),
                            BinOp::Or => self.or(&[x, y]),
                            _ => Z3_mk_xor(c, x, y),
                        }
                    }
                    Node::Ite(k, a, b) => {
                        let k = self.boolean(pool, k, raw);
                        let x = self.boolean(pool, a, raw);
                        let y = self.boolean(pool, b, raw);
                        Z3_mk_ite(c, k, x, y)
                    }
                    Node::Extract(a, lo) => {
                        let x = self.bv(pool, a, raw);
                        let x = Z3_mk_extract(c, lo as u32, lo as u32, x);
                        Z3_mk_eq(c, x, self.num(1, 1))
                    }
                    Node::Var(v) => {
                        let x = self.var(pool, v);
                        Z3_mk_eq(c, x, self.num(1, 1))
                    }
                    // one-bit arithmetic does not survive simplification
                    Node::Bin(BinOp::Add | BinOp::Sub, a, b) => {
                        let x = self.boolean(pool, a, raw);
                        let y = self.boolean(pool, b, raw);
                        Z3_mk_xor(c, x, y)
                    }
                    Node::Bin(BinOp::Mul, a, b) => {
                        let x = self.boolean(pool, a, raw);
                        let y = self.boolean(pool, b, raw);
                        self.and(&[x, y])
                    }
                    n => panic!("one-bit node {n:?}"),
                }
            }
        };
        if raw {
            self.raw_bool.insert(e, p);
        } else {
            self.tab_bool.insert(e, p);
        }
        p
    }

    fn run(&mut self, pool: &Pool, fs: &[P], want: u128) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for f in fs {
                Z3_solver_assert(self.c, self.s, *f);
            }
            let r = Z3_solver_check(self.c, self.s);
            let r = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for v in 0..pool.vars.len() as u16 {
                        if want >> v & 1 == 1 {
                            let x = self.var(pool, v);
                            let mut y: P = std::ptr::null_mut();
                            let mut k = 0u64;
                            if Z3_model_eval(self.c, m, x, true, &mut y) {
                                Z3_get_numeral_uint64(self.c, y, &mut k);
                            }
                            out.push((v, k));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            let err = Z3_get_error_code(self.c);
            if err != 0 {
                panic!("z3 error {err}");
            }
            r
        };
        self.uses += 1;
        self.secs += t0.elapsed().as_secs_f64();
        r
    }

    /// Is there an assignment within `doms` satisfying every (expr, value)?
    pub fn check(&mut self, pool: &Pool, doms: &[(u16, Bits)], cs: &[(E, bool)], raw: bool) -> Res {
        if self.uses > 4000 {
            self.reset();
        }
        let mut fs = vec![];
        let mut want = 0u128;
        for (v, b) in doms {
            want |= 1u128 << v;
            if pool.vars[*v as usize].n > 0 {
                fs.push(self.in_bits(pool, *v, b));
            }
        }
        for (e, val) in cs {
            let f = self.boolean(pool, *e, raw);
            fs.push(if *val { f } else { unsafe { Z3_mk_not(self.c, f) } });
        }
        self.run(pool, &fs, want)
    }

    /// Does the structure of `e` agree with its table on the whole domain of
    /// its variable?
    pub fn certify(&mut self, pool: &Pool, e: E) -> Res {
        if self.uses > 4000 {
            self.reset();
        }
        let i = *pool.info(e);
        let dom = bits_full(pool.vars[i.var as usize].n);
        let d = self.in_bits(pool, i.var, &dom);
        let s = self.boolean(pool, e, true);
        let t = self.boolean(pool, e, false);
        let x = unsafe { Z3_mk_xor(self.c, s, t) };
        let r = self.run(pool, &[d, x], 1u128 << i.var);
        if matches!(r, Res::Unsat) {
            self.certified += 1;
        }
        r
    }
}
unsafe impl Send for Z3 {}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
