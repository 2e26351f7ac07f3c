//! Hash-consed bit-vector expressions over the symbolic variables.
//!
//! A variable with a small domain {0..n-1}, n <= 256, gives every expression
//! over it alone a value table, so that such expressions are canonical (two
//! expressions with the same table are the same node) and their truth sets
//! are exact. The structure is kept next to the table: it is what the solver
//! is asked about (see z3.rs).
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;

pub type E = u32;
pub const NOTAB: u32 = u32::MAX;
pub const NOVAR: u16 = 0xffff;
pub const MULTI: u16 = 0xfffe;
pub type Bits = [u64; 4];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct V {
    pub v: u64,
    pub e: E,
}
impl V {
    #[inline(always)]
    pub fn c(v: u64) -> V {
        V { v, e: 0 }
    }
    #[inline(always)]
    pub fn sym(&self) -> bool {
        self.e != 0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u128),
    Var(u16),
    Bin(BinOp, E, E),
    Cmp(Pred, E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u16),
    Concat(E, E),
    Bswap(E),
    Ctlz(E),
    Cttz(E),
    Ctpop(E),
    Bitrev(E),
    /// a function of one variable given by its table only
    Tab(u16, u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub node: Node,
    pub w: u16,
    pub var: u16,
    pub tab: u32,
    pub vars: u128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub ord: u32,
    pub n: u32, // domain size, 0 = the full range of w bits
    pub w: u16,
}

#[inline(always)]
pub fn mask(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline(always)]
pub fn mask128(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn sx(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
#[inline(always)]
pub fn sx128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of a binary operation (None: division by zero etc.).
#[inline(always)]
pub fn bin_c(op: BinOp, w: u16, a: u64, b: u64) -> Option<u64> {
    let m = mask(w);
    Some(
        m & match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            BinOp::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            BinOp::SDiv => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_div(sx(b, w)) as u64
            }
            BinOp::SRem => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_rem(sx(b, w)) as u64
            }
            BinOp::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => {
                let s = if b >= w as u64 { w as u64 - 1 } else { b };
                (sx(a, w) >> s) as u64
            }
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
        },
    )
}
pub fn bin_w(op: BinOp, w: u16, a: u128, b: u128) -> Option<u128> {
    if w <= 64 {
        return bin_c(op, w, a as u64, b as u64).map(|x| x as u128);
    }
    let m = mask128(w);
    Some(
        m & match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => a.checked_div(b)?,
            BinOp::URem => a.checked_rem(b)?,
            BinOp::SDiv => {
                if b == 0 {
                    return None;
                }
                sx128(a, w).wrapping_div(sx128(b, w)) as u128
            }
            BinOp::SRem => {
                if b == 0 {
                    return None;
                }
                sx128(a, w).wrapping_rem(sx128(b, w)) as u128
            }
            BinOp::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => {
                let s = if b >= w as u128 { w as u128 - 1 } else { b };
                (sx128(a, w) >> s) as u128
            }
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
        },
    )
}
#[inline(always)]
pub fn cmp_c(p: Pred, w: u16, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
    }
}
pub fn cmp_w(p: Pred, w: u16, a: u128, b: u128) -> bool {
    let (x, y) = (sx128(a, w), sx128(b, w));
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => x > y,
        Pred::Sge => x >= y,
        Pred::Slt => x < y,
        Pred::Sle => x <= y,
    }
}
pub fn neg_pred(p: Pred) -> Pred {
    match p {
        Pred::Eq => Pred::Ne,
        Pred::Ne => Pred::Eq,
        Pred::Ugt => Pred::Ule,
        Pred::Uge => Pred::Ult,
        Pred::Ult => Pred::Uge,
        Pred::Ule => Pred::Ugt,
        Pred::Sgt => Pred::Sle,
        Pred::Sge => Pred::Slt,
        Pred::Slt => Pred::Sge,
        Pred::Sle => Pred::Sgt,
    }
}
fn swap_pred(p: Pred) -> Pred {
    match p {
        Pred::Ugt => Pred::Ult,
        Pred::Uge => Pred::Ule,
        Pred::Ult => Pred::Ugt,
        Pred::Ule => Pred::Uge,
        Pred::Sgt => Pred::Slt,
        Pred::Sge => Pred::Sle,
        Pred::Slt => Pred::Sgt,
        Pred::Sle => Pred::Sge,
        p => p,
    }
}

#[derive(Clone, Default)]
pub struct Hasher64(u64);
impl std::hash::Hasher for Hasher64 {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
#[derive(Clone, Default)]
pub struct BH;
impl std::hash::BuildHasher for BH {
    type Hasher = Hasher64;
    fn build_hasher(&self) -> Hasher64 {
        Hasher64(0)
    }
}

#[derive(Clone)]
pub struct Pool {
    pub infos: Vec<Info>,
    map: HashMap<(Node, u16), E, BH>,
    pub tabs: Vec<Box<[u64]>>,
    pub bits: Vec<Bits>,
    sem: HashMap<(u16, u16, Box<[u64]>), E, BH>,
    pub vars: Vec<VarInfo>,
    eval_val: Vec<u128>,
    eval_gen: Vec<u32>,
    gen: u32,
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            infos: vec![],
            map: HashMap::default(),
            tabs: vec![],
            bits: vec![],
            sem: HashMap::default(),
            vars: vec![],
            eval_val: vec![],
            eval_gen: vec![],
            gen: 0,
        };
        // node 0 is "concrete"
        p.infos.push(Info { node: Node::Const(0), w: 1, var: NOVAR, tab: NOTAB, vars: 0 });
        p
    }
    #[inline(always)]
    pub fn info(&self, e: E) -> &Info {
        &self.infos[e as usize]
    }
    pub fn w(&self, e: E) -> u16 {
        self.infos[e as usize].w
    }
    /// The variable number `ord` of the path, of domain n (or width w).
    pub fn var(&mut self, ord: u32, n: u32, w: u16) -> E {
        let id = match self.vars.iter().position(|v| v.ord == ord && v.n == n && v.w == w) {
            Some(i) => i,
            None => {
                self.vars.push(VarInfo { ord, n, w });
                assert!(self.vars.len() <= 128, "too many symbolic variables");
                self.vars.len() - 1
            }
        };
        let node = Node::Var(id as u16);
        if let Some(e) = self.map.get(&(node, w)) {
            return *e;
        }
        let (tab, var) = if n > 0 {
            let t: Box<[u64]> = (0..n as u64).collect();
            (self.add_tab(t, w), id as u16)
        } else {
            (NOTAB, MULTI)
        };
        let e = self.infos.len() as E;
        self.infos.push(Info { node, w, var, tab, vars: 1u128 << id });
        self.map.insert((node, w), e);
        if tab != NOTAB {
            self.sem.insert((var, w, self.tabs[tab as usize].clone()), e);
        }
        e
    }
    fn add_tab(&mut self, t: Box<[u64]>, w: u16) -> u32 {
        let mut b = [0u64; 4];
        if w == 1 {
            for (i, x) in t.iter().enumerate() {
                if *x != 0 {
                    b[i >> 6] |= 1 << (i & 63);
                }
            }
        }
        self.tabs.push(t);
        self.bits.push(b);
        self.tabs.len() as u32 - 1
    }
    pub fn konst(&mut self, w: u16, v: u128) -> E {
        let node = Node::Const(v & mask128(w));
        if let Some(e) = self.map.get(&(node, w)) {
            return *e;
        }
        let e = self.infos.len() as E;
        self.infos.push(Info { node, w, var: NOVAR, tab: NOTAB, vars: 0 });
        self.map.insert((node, w), e);
        e
    }
    #[inline]
    pub fn e_of(&mut self, w: u16, v: V) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.konst(w, v.v as u128)
        }
    }
    #[inline]
    pub fn v_of(&self, e: E) -> V {
        let i = &self.infos[e as usize];
        if i.w <= 64 {
            if let Node::Const(c) = i.node {
                return V::c(c as u64);
            }
        }
        V { v: 0, e }
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        match self.infos[e as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }

    fn kids(n: &Node) -> ([E; 3], usize) {
        match *n {
            Node::Const(_) | Node::Var(_) | Node::Tab(..) => ([0; 3], 0),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => ([a, b, 0], 2),
            Node::Ite(a, b, c) => ([a, b, c], 3),
            Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) | Node::Bswap(a) | Node::Ctlz(a) | Node::Cttz(a) | Node::Ctpop(a) | Node::Bitrev(a) => ([a, 0, 0], 1),
        }
    }

    fn apply(&self, n: &Node, w: u16, k: &[u128; 3]) -> u128 {
        let kw = |i: usize| -> u16 {
            let (ks, _) = Self::kids(n);
            self.infos[ks[i] as usize].w
        };
        mask128(w)
            & match n {
                Node::Const(c) => *c,
                Node::Bin(op, ..) => bin_w(*op, w, k[0], k[1]).unwrap_or(0),
                Node::Cmp(p, ..) => cmp_w(*p, kw(0), k[0], k[1]) as u128,
                Node::Ite(..) => {
                    if k[0] != 0 {
                        k[1]
                    } else {
                        k[2]
                    }
                }
                Node::ZExt(_) => k[0],
                Node::SExt(_) => sx128(k[0], kw(0)) as u128,
                Node::Extract(_, lo) => k[0] >> lo,
                Node::Concat(..) => (k[0] << kw(1)) | k[1],
                Node::Bswap(_) => k[0].swap_bytes() >> (128 - w),
                Node::Ctlz(_) => {
                    let z = k[0].leading_zeros() as u128;
                    z - (128 - w as u128)
                }
                Node::Cttz(_) => (k[0].trailing_zeros() as u128).min(w as u128),
                Node::Ctpop(_) => k[0].count_ones() as u128,
                Node::Bitrev(_) => k[0].reverse_bits() >> (128 - w),
                Node::Var(_) | Node::Tab(..) => unreachable!(),
            }
    }

    /// Value of `e` when its (single) variable takes the value i.
    fn eval1(&self, e: E, i: usize) -> u128 {
        let inf = &self.infos[e as usize];
        if inf.tab != NOTAB {
            return self.tabs[inf.tab as usize][i] as u128;
        }
        if let Node::Const(c) = inf.node {
            return c;
        }
        let (ks, n) = Self::kids(&inf.node);
        let mut v = [0u128; 3];
        for j in 0..n {
            v[j] = self.eval1(ks[j], i);
        }
        self.apply(&inf.node, inf.w, &v)
    }

    /// Interns a node: canonical by table when over a single small variable.
    fn intern(&mut self, node: Node, w: u16) -> E {
        if let Some(e) = self.map.get(&(node, w)) {
            return *e;
        }
        let (ks, n) = Self::kids(&node);
        let mut var = NOVAR;
        let mut vars = 0u128;
        let mut allconst = true;
        for k in &ks[..n] {
            let i = &self.infos[*k as usize];
            vars |= i.vars;
            if i.var == MULTI {
                var = MULTI;
            } else if i.var != NOVAR {
                if var == NOVAR {
                    var = i.var;
                } else if var != i.var {
                    var = MULTI;
                }
            }
            if !matches!(i.node, Node::Const(_)) {
                allconst = false;
            }
        }
        if allconst && n > 0 {
            let mut v = [0u128; 3];
            for j in 0..n {
                v[j] = self.is_const(ks[j]).unwrap();
            }
            let c = self.apply(&node, w, &v);
            let e = self.konst(w, c);
            self.map.insert((node, w), e);
            return e;
        }
        if var < MULTI && w <= 64 {
            let cnt = self.vars[var as usize].n as usize;
            let mut t = vec![0u64; cnt];
            let mut same = true;
            // fast path for the common shapes
            for i in 0..cnt {
                let mut v = [0u128; 3];
                for j in 0..n {
                    v[j] = self.eval1(ks[j], i);
                }
                t[i] = self.apply(&node, w, &v) as u64;
                same &= t[i] == t[0];
            }
            if same {
                let e = self.konst(w, t[0] as u128);
                self.map.insert((node, w), e);
                return e;
            }
            return self.intern_tab(node, var, w, t.into_boxed_slice());
        }
        let e = self.infos.len() as E;
        self.infos.push(Info { node, w, var: if var == NOVAR { MULTI } else { var }, tab: NOTAB, vars });
        self.map.insert((node, w), e);
        e
    }
    fn intern_tab(&mut self, node: Node, var: u16, w: u16, t: Box<[u64]>) -> E {
        let key = (var, w, t);
        if let Some(e) = self.sem.get(&key) {
            let e = *e;
            self.map.insert((node, w), e);
            return e;
        }
        let tab = self.add_tab(key.2.clone(), w);
        let e = self.infos.len() as E;
        let node = match node {
            Node::Tab(v, _) => Node::Tab(v, tab),
            n => n,
        };
        self.infos.push(Info { node, w, var, tab, vars: 1u128 << var });
        self.map.insert((node, w), e);
        self.sem.insert(key, e);
        e
    }
    /// The function of `var` with the given table.
    pub fn table(&mut self, var: u16, w: u16, t: Vec<u64>) -> E {
        debug_assert_eq!(t.len(), self.vars[var as usize].n as usize);
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        let key = (var, w, t.into_boxed_slice());
        if let Some(e) = self.sem.get(&key) {
            return *e;
        }
        let tab = self.add_tab(key.2.clone(), w);
        let e = self.infos.len() as E;
        let node = Node::Tab(var, tab);
        self.infos.push(Info { node, w, var, tab, vars: 1u128 << var });
        self.map.insert((node, w), e);
        self.sem.insert(key, e);
        e
    }

    pub fn not(&mut self, c: E) -> E {
        let inf = *self.info(c);
        if let Node::Const(k) = inf.node {
            return self.konst(1, 1 - k);
        }
        match inf.node {
            Node::Bin(BinOp::Xor, a, b) if self.is_const(b) == Some(1) => return a,
            Node::Cmp(p, a, b) if inf.tab == NOTAB => return self.intern(Node::Cmp(neg_pred(p), a, b), 1),
            _ => {}
        }
        let one = self.konst(1, 1);
        self.intern(Node::Bin(BinOp::Xor, c, one), 1)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, 1, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, 1, a, b)
    }

    pub fn bin(&mut self, op: BinOp, w: u16, a: E, b: E) -> E {
        let (mut a, mut b) = (a, b);
        let commut = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
        if commut && self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.is_const(b);
        if let Some(c) = kb {
            let ones = mask128(w);
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if c == 0 => return a,
                BinOp::And | BinOp::Mul if c == 0 => return b,
                BinOp::And if c == ones => return a,
                BinOp::Or if c == ones => return b,
                BinOp::Mul | BinOp::UDiv if c == 1 => return a,
                _ => {}
            }
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.konst(w, 0),
                _ => {}
            }
        }
        let ia = *self.info(a);
        let ib = *self.info(b);
        let multi = ia.var == MULTI || ib.var == MULTI || (ia.var != NOVAR && ib.var != NOVAR && ia.var != ib.var);
        if multi {
            if w == 1 && op == BinOp::Xor && kb == Some(1) {
                if let Node::Cmp(p, x, y) = ia.node {
                    if ia.tab == NOTAB {
                        return self.intern(Node::Cmp(neg_pred(p), x, y), 1);
                    }
                }
                if let Node::Bin(BinOp::Xor, x, k) = ia.node {
                    if self.is_const(k) == Some(1) {
                        return x;
                    }
                }
            }
            if let Some(c) = kb {
                // (x op c1) op c2
                if op == BinOp::Sub {
                    let n = self.konst(w, (c as i128).wrapping_neg() as u128);
                    return self.bin(BinOp::Add, w, a, n);
                }
                if let Node::Bin(o2, x, y) = ia.node {
                    if ia.tab == NOTAB && o2 == op && matches!(op, BinOp::Add | BinOp::And | BinOp::Or | BinOp::Xor) {
                        if let Some(c2) = self.is_const(y) {
                            let k = bin_w(op, w, c, c2).unwrap();
                            let k = self.konst(w, k);
                            return self.bin(op, w, x, k);
                        }
                    }
                }
                if let Node::Ite(cc, x, y) = ia.node {
                    if self.is_const(x).is_some() && self.is_const(y).is_some() {
                        let x = self.bin(op, w, x, b);
                        let y = self.bin(op, w, y, b);
                        return self.ite(cc, x, y);
                    }
                }
                if op == BinOp::And {
                    if let Node::ZExt(x) = ia.node {
                        let xw = self.w(x);
                        if c & mask128(xw) == mask128(xw) {
                            return a;
                        }
                        let k = self.konst(xw, c & mask128(xw));
                        let n = self.bin(BinOp::And, xw, x, k);
                        return self.zext(n, w);
                    }
                    // mask of low bits: zext of an extract
                    if (c + 1).is_power_of_two() {
                        let lw = (c + 1).trailing_zeros() as u16;
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                }
                if op == BinOp::LShr && c < w as u128 {
                    let x = self.extract(a, c as u16, w - c as u16);
                    return self.zext(x, w);
                }
                if op == BinOp::Shl && c < w as u128 {
                    let x = self.extract(a, 0, w - c as u16);
                    let z = self.konst(c as u16, 0);
                    return self.concat(x, z);
                }
            } else if op == BinOp::Or || op == BinOp::Xor || op == BinOp::Add {
                // disjoint concatenations
                if let (Some((ha, la)), Some((hb, lb))) = (self.parts(a), self.parts(b)) {
                    if self.w(la) == self.w(lb) {
                        let z = |p: &Pool, e: E| p.is_const(e) == Some(0);
                        if (z(self, ha) || z(self, hb)) && (z(self, la) || z(self, lb)) {
                            let h = if z(self, ha) { hb } else { ha };
                            let l = if z(self, la) { lb } else { la };
                            return self.concat(h, l);
                        }
                    }
                }
                // try to split at the low part of one of them
                if op != BinOp::Add || w > 1 {
                    for (p, q) in [(a, b), (b, a)] {
                        if let Some((h, l)) = self.parts(p) {
                            let lw = self.w(l);
                            if self.is_const(l) == Some(0) {
                                // q must not overlap h
                                let qh = self.extract(q, lw, w - lw);
                                if self.is_const(qh) == Some(0) {
                                    let ql = self.extract(q, 0, lw);
                                    return self.concat(h, ql);
                                }
                            }
                        }
                    }
                }
            }
        }
        // no reordering by identity: the order of decisions taken on parts of a
        // condition must not depend on the order in which nodes were made
        self.intern(Node::Bin(op, a, b), w)
    }
    /// (high, low) parts of a zero-extension or concatenation
    fn parts(&mut self, e: E) -> Option<(E, E)> {
        let i = *self.info(e);
        if i.tab != NOTAB {
            // by value, not by structure: which structure a table was first
            // built from depends on the history of the worker
            let t = &self.tabs[i.tab as usize];
            let or = t.iter().fold(0u64, |a, b| a | b);
            for lw in [8u16, 16, 32] {
                if i.w > lw && or <= mask(lw) {
                    let l = self.extract(e, 0, lw);
                    let h = self.konst(i.w - lw, 0);
                    return Some((h, l));
                }
            }
            for lw in [32u16, 24, 16, 8] {
                if i.w > lw && or & mask(lw) == 0 {
                    let h = self.extract(e, lw, i.w - lw);
                    let l = self.konst(lw, 0);
                    return Some((h, l));
                }
            }
            return None;
        }
        match i.node {
            Node::ZExt(x) => {
                let xw = self.w(x);
                let z = self.konst(i.w - xw, 0);
                Some((z, x))
            }
            Node::Concat(h, l) => Some((h, l)),
            _ => None,
        }
    }

    pub fn cmp(&mut self, p: Pred, w: u16, a: E, b: E) -> E {
        let (mut a, mut b, mut p) = (a, b, p);
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
            p = swap_pred(p);
        }
        if a == b {
            return self.konst(1, matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) as u128);
        }
        let ia = *self.info(a);
        let ib = *self.info(b);
        let multi = ia.var == MULTI || ib.var == MULTI || (ia.var != NOVAR && ib.var != NOVAR && ia.var != ib.var);
        if multi {
            if p == Pred::Ne {
                let e = self.cmp(Pred::Eq, w, a, b);
                return self.not1(e);
            }
            let kb = self.is_const(b);
            if w == 1 && p == Pred::Eq {
                if let Some(k) = kb {
                    return if k == 1 { a } else { self.not1(a) };
                }
            }
            if let (Node::Ite(c, x, y), Some(k)) = (ia.node, kb) {
                if let (Some(x), Some(y)) = (self.is_const(x), self.is_const(y)) {
                    let (x, y) = (cmp_w(p, w, x, k), cmp_w(p, w, y, k));
                    return match (x, y) {
                        (true, true) => self.konst(1, 1),
                        (false, false) => self.konst(1, 0),
                        (true, false) => c,
                        (false, true) => self.not1(c),
                    };
                }
            }
            if let (Node::ZExt(x), Some(k)) = (ia.node, kb) {
                let xw = self.w(x);
                if xw == 1 {
                    let (v0, v1) = (cmp_w(p, w, 0, k), cmp_w(p, w, 1, k));
                    return match (v1, v0) {
                        (true, true) => self.konst(1, 1),
                        (false, false) => self.konst(1, 0),
                        (true, false) => x,
                        (false, true) => self.not1(x),
                    };
                }
                if k <= mask128(xw) && matches!(p, Pred::Eq | Pred::Ugt | Pred::Uge | Pred::Ult | Pred::Ule) {
                    let k = self.konst(xw, k);
                    return self.cmp(p, xw, x, k);
                }
                if p == Pred::Eq {
                    return self.konst(1, 0);
                }
            }
            if p == Pred::Eq {
                if let (Node::Bin(BinOp::Xor, x, y), Some(0)) = (ia.node, kb) {
                    if ia.tab == NOTAB {
                        return self.cmp(Pred::Eq, w, x, y);
                    }
                }
                if let (Node::Bin(BinOp::Or, x, y), Some(0)) = (ia.node, kb) {
                    if ia.tab == NOTAB {
                        let z = self.konst(w, 0);
                        let l = self.cmp(Pred::Eq, w, x, z);
                        let r = self.cmp(Pred::Eq, w, y, z);
                        return self.and1(l, r);
                    }
                }
                if let (Node::Bin(BinOp::Add, x, c), Some(k)) = (ia.node, kb) {
                    if ia.tab == NOTAB {
                        if let Some(c) = self.is_const(c) {
                            let k = self.konst(w, k.wrapping_sub(c));
                            return self.cmp(Pred::Eq, w, x, k);
                        }
                    }
                }
                // split along concatenations
                let pa = if ia.tab == NOTAB { self.parts(a) } else { None };
                let pb = if ib.tab == NOTAB && kb.is_none() { self.parts(b) } else { None };
                let lw = match (pa, pb) {
                    (Some((_, l)), _) => Some(self.w(l)),
                    (_, Some((_, l))) => Some(self.w(l)),
                    _ => None,
                };
                if let Some(lw) = lw {
                    let al = self.extract(a, 0, lw);
                    let bl = self.extract(b, 0, lw);
                    let ah = self.extract(a, lw, w - lw);
                    let bh = self.extract(b, lw, w - lw);
                    let l = self.cmp(Pred::Eq, lw, al, bl);
                    let h = self.cmp(Pred::Eq, w - lw, ah, bh);
                    return self.and1(l, h);
                }
            }
        }
        self.intern(Node::Cmp(p, a, b), 1)
    }
    pub fn not1(&mut self, c: E) -> E {
        self.not(c)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (None, Some(0)) => return self.and1(c, a),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and1(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        self.intern(Node::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let i = *self.info(a);
        if i.w == w {
            return a;
        }
        if let Node::ZExt(x) = i.node {
            if i.tab == NOTAB {
                return self.zext(x, w);
            }
        }
        self.intern(Node::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        if self.w(a) == w {
            return a;
        }
        self.intern(Node::SExt(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let i = *self.info(a);
        if lo == 0 && i.w == w {
            return a;
        }
        if let Node::Const(c) = i.node {
            return self.konst(w, c >> lo);
        }
        if i.tab == NOTAB {
            match i.node {
                Node::Extract(x, l2) => return self.extract(x, lo + l2, w),
                Node::Concat(h, l) => {
                    let lw = self.w(l);
                    if lo >= lw {
                        return self.extract(h, lo - lw, w);
                    }
                    if lo + w <= lw {
                        return self.extract(l, lo, w);
                    }
                    let ll = self.extract(l, lo, lw - lo);
                    let hh = self.extract(h, 0, w - (lw - lo));
                    return self.concat(hh, ll);
                }
                Node::ZExt(x) => {
                    let xw = self.w(x);
                    if lo >= xw {
                        return self.konst(w, 0);
                    }
                    if lo + w <= xw {
                        return self.extract(x, lo, w);
                    }
                    let x = self.extract(x, lo, xw - lo);
                    return self.zext(x, w);
                }
                Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                    let x = self.extract(x, lo, w);
                    let y = self.extract(y, lo, w);
                    return self.bin(op, w, x, y);
                }
                Node::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                    let x = self.extract(x, 0, w);
                    let y = self.extract(y, 0, w);
                    return self.bin(op, w, x, y);
                }
                Node::Ite(c, x, y) => {
                    let x = self.extract(x, lo, w);
                    let y = self.extract(y, lo, w);
                    return self.ite(c, x, y);
                }
                Node::Bswap(x) if w == 8 && lo % 8 == 0 => {
                    return self.extract(x, i.w - 8 - lo, 8);
                }
                _ => {}
            }
        }
        self.intern(Node::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let ih = *self.info(h);
        let il = *self.info(l);
        let w = ih.w + il.w;
        if let (Node::Const(a), Node::Const(b)) = (ih.node, il.node) {
            return self.konst(w, (a << il.w) | b);
        }
        if let Node::Const(0) = ih.node {
            return self.zext(l, w);
        }
        let single = ih.var != MULTI && il.var != MULTI && (ih.var == il.var || ih.var == NOVAR || il.var == NOVAR);
        if (!single || w > 64) && ih.tab == NOTAB && il.tab == NOTAB {
            if let (Node::Extract(x, a), Node::Extract(y, b)) = (ih.node, il.node) {
                if x == y && a == b + il.w {
                    return self.extract(x, b, w);
                }
            }
            // l may be a whole value whose continuation is an extract of the same source
            if let (Node::Extract(x, a), Node::Concat(lh, ll)) = (ih.node, il.node) {
                if let (Node::Extract(y, b), true) = (self.info(lh).node, self.info(lh).tab == NOTAB) {
                    if x == y && a == b + self.w(lh) {
                        let nw = ih.w + self.w(lh);
                        let m = self.extract(x, b, nw);
                        return self.concat(m, ll);
                    }
                }
            }
        }
        if !single || w > 64 {
            if let (Node::Concat(lh, ll), true) = (il.node, il.tab == NOTAB) {
                // right-nested so that splits are canonical: (h . (lh . ll)) -> ((h . lh) . ll)
                let m = self.concat(h, lh);
                return self.concat(m, ll);
            }
        }
        self.intern(Node::Concat(h, l), w)
    }
    pub fn bswap(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Node::Bswap(x) = self.info(a).node {
            return x;
        }
        self.intern(Node::Bswap(a), w)
    }
    pub fn un(&mut self, n: Node, w: u16) -> E {
        self.intern(n, w)
    }

    /// Evaluation under a full assignment (indexed by variable id).
    pub fn new_model(&mut self) {
        self.gen += 1;
    }
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        if self.eval_gen.len() < self.infos.len() {
            self.eval_gen.resize(self.infos.len() + 1024, 0);
            self.eval_val.resize(self.infos.len() + 1024, 0);
        }
        self.eval_in(e, model)
    }
    fn eval_in(&mut self, e: E, model: &[u64]) -> u128 {
        let inf = self.infos[e as usize];
        if inf.tab != NOTAB {
            return self.tabs[inf.tab as usize][model[inf.var as usize] as usize] as u128;
        }
        match inf.node {
            Node::Const(c) => return c,
            Node::Var(v) => return model[v as usize] as u128,
            _ => {}
        }
        if self.eval_gen[e as usize] == self.gen {
            return self.eval_val[e as usize];
        }
        let (ks, n) = Self::kids(&inf.node);
        let mut v = [0u128; 3];
        for j in 0..n {
            v[j] = self.eval_in(ks[j], model);
        }
        let r = self.apply(&inf.node, inf.w, &v);
        self.eval_gen[e as usize] = self.gen;
        self.eval_val[e as usize] = r;
        r
    }
    pub fn kids_of(&self, e: E) -> ([E; 3], usize) {
        Self::kids(&self.infos[e as usize].node)
    }
}

pub fn bits_full(n: u32) -> Bits {
    let mut b = [0u64; 4];
    for i in 0..n as usize {
        b[i >> 6] |= 1 << (i & 63);
    }
    b
}
#[inline(always)]
pub fn bits_and(a: &Bits, b: &Bits) -> Bits {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
#[inline(always)]
pub fn bits_andn(a: &Bits, b: &Bits) -> Bits {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
#[inline(always)]
pub fn bits_empty(a: &Bits) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
#[inline(always)]
pub fn bits_count(a: &Bits) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
#[inline(always)]
pub fn bits_has(a: &Bits, i: u64) -> bool {
    i < 256 && a[(i >> 6) as usize] >> (i & 63) & 1 == 1
}
pub fn bits_iter(a: &Bits) -> impl Iterator<Item = usize> + '_ {
    (0..4usize).flat_map(move |k| {
        let mut x = a[k];
        std::iter::from_fn(move || {
            if x == 0 {
                None
            } else {
                let i = x.trailing_zeros() as usize;
                x &= x - 1;
                Some(k * 64 + i)
            }
        })
    })
}
