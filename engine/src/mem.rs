//! Linear memory: concrete bytes plus, per page, the expressions of symbolic
//! bytes; every write can be undone.
use crate::expr::*;

pub const PAGE: u64 = 4096;

pub enum Undo {
    Bytes { addr: u64, len: u8, old: u64 },
    Block { addr: u64, old: Box<[u8]> },
    Sh { addr: u64, old: E },
}

pub struct Mem {
    pub raw: Vec<u8>,
    sh: Vec<Option<Box<[E]>>>,
    cnt: Vec<u16>,
    pub log: bool,
    pub undo: Vec<Undo>,
    pub high: u64,
}

impl Mem {
    pub fn new(size: usize) -> Mem {
        let pages = size / PAGE as usize;
        let mut sh = Vec::new();
        sh.resize_with(pages, || None);
        Mem { raw: vec![0u8; size], sh, cnt: vec![0; pages], log: false, undo: vec![], high: 0 }
    }
    /// A copy of the first `upto` bytes (used to start the workers).
    pub fn fork(&self, upto: u64) -> Mem {
        let mut m = Mem::new(self.raw.len());
        m.raw[..upto as usize].copy_from_slice(&self.raw[..upto as usize]);
        for (i, p) in self.sh.iter().enumerate() {
            if self.cnt[i] > 0 {
                m.sh[i] = p.clone();
                m.cnt[i] = self.cnt[i];
            }
        }
        m.high = self.high;
        m
    }
    #[inline(always)]
    pub fn ok(&self, addr: u64, n: u64) -> bool {
        addr >= crate::ir::GLOBAL_BASE && addr.checked_add(n).map_or(false, |e| e <= self.raw.len() as u64)
    }
    #[inline(always)]
    pub fn concrete(&self, addr: u64, n: u64) -> bool {
        if n == 0 {
            return true;
        }
        let a = addr / PAGE;
        let b = (addr + n - 1) / PAGE;
        if a == b {
            if self.cnt[a as usize] == 0 {
                return true;
            }
        } else if (a..=b).all(|p| self.cnt[p as usize] == 0) {
            return true;
        }
        (addr..addr + n).all(|x| self.shadow(x) == 0)
    }
    #[inline(always)]
    pub fn shadow(&self, addr: u64) -> E {
        let p = (addr / PAGE) as usize;
        if self.cnt[p] == 0 {
            return 0;
        }
        match &self.sh[p] {
            Some(b) => b[(addr % PAGE) as usize],
            None => 0,
        }
    }
    fn set_shadow(&mut self, addr: u64, e: E) {
        let p = (addr / PAGE) as usize;
        let o = (addr % PAGE) as usize;
        if e == 0 && self.cnt[p] == 0 {
            return;
        }
        let b = self.sh[p].get_or_insert_with(|| vec![0; PAGE as usize].into_boxed_slice());
        let old = b[o];
        if old == e {
            return;
        }
        if self.log {
            self.undo.push(Undo::Sh { addr, old });
        }
        b[o] = e;
        if old == 0 {
            self.cnt[p] += 1;
        } else if e == 0 {
            self.cnt[p] -= 1;
        }
    }
    #[inline(always)]
    fn clear_shadow(&mut self, addr: u64, n: u64) {
        let a = addr / PAGE;
        let b = (addr + n - 1) / PAGE;
        for p in a..=b {
            if self.cnt[p as usize] != 0 {
                let lo = addr.max(p * PAGE);
                let hi = (addr + n).min((p + 1) * PAGE);
                for x in lo..hi {
                    self.set_shadow(x, 0);
                }
            }
        }
    }
    #[inline(always)]
    pub fn read_raw(&self, addr: u64, n: u64) -> u64 {
        unsafe {
            let p = self.raw.as_ptr().add(addr as usize);
            match n {
                1 => *p as u64,
                2 => (p as *const u16).read_unaligned() as u64,
                4 => (p as *const u32).read_unaligned() as u64,
                8 => (p as *const u64).read_unaligned(),
                _ => {
                    let mut x = 0u64;
                    for i in 0..n as usize {
                        x |= (*p.add(i) as u64) << (8 * i);
                    }
                    x
                }
            }
        }
    }
    #[inline(always)]
    pub fn write_raw(&mut self, addr: u64, n: u64, v: u64) {
        if self.log {
            let old = self.read_raw(addr, n);
            self.undo.push(Undo::Bytes { addr, len: n as u8, old });
        }
        self.write_nolog(addr, n, v);
    }
    #[inline(always)]
    fn write_nolog(&mut self, addr: u64, n: u64, v: u64) {
        if addr + n > self.high {
            self.high = addr + n;
        }
        unsafe {
            let p = self.raw.as_mut_ptr().add(addr as usize);
            match n {
                1 => *p = v as u8,
                2 => (p as *mut u16).write_unaligned(v as u16),
                4 => (p as *mut u32).write_unaligned(v as u32),
                8 => (p as *mut u64).write_unaligned(v),
                _ => {
                    for i in 0..n as usize {
                        *p.add(i) = (v >> (8 * i)) as u8;
                    }
                }
            }
        }
    }
    #[inline(always)]
    pub fn store_c(&mut self, addr: u64, n: u64, v: u64) {
        self.write_raw(addr, n, v);
        self.clear_shadow(addr, n);
    }
    pub fn store_byte(&mut self, addr: u64, v: V) {
        if v.e == 0 {
            self.store_c(addr, 1, v.v);
        } else {
            if addr + 1 > self.high {
                self.high = addr + 1;
            }
            self.set_shadow(addr, v.e);
        }
    }
    pub fn load_byte(&self, addr: u64) -> V {
        let e = self.shadow(addr);
        if e != 0 {
            V { v: 0, e }
        } else {
            V::c(self.raw[addr as usize] as u64)
        }
    }
    #[inline(always)]
    pub fn load(&mut self, pool: &mut Pool, addr: u64, w: u16) -> V {
        let n = (w as u64 + 7) / 8;
        if w <= 64 && self.concrete(addr, n) {
            return V::c(self.read_raw(addr, n) & mask(w));
        }
        self.load_slow(pool, addr, w)
    }
    fn load_slow(&mut self, pool: &mut Pool, addr: u64, w: u16) -> V {
        let n = (w as u64 + 7) / 8;
        if w > 64 && self.concrete(addr, n) {
            let lo = self.read_raw(addr, 8) as u128;
            let hi = self.read_raw(addr + 8, n - 8) as u128;
            return V { v: 0, e: pool.konst(w, lo | hi << 64) };
        }
        let b0 = self.load_byte(addr);
        let mut cur = pool.e_of(8, b0);
        for i in 1..n {
            let b = self.load_byte(addr + i);
            let b = pool.e_of(8, b);
            cur = pool.concat(b, cur);
        }
        if (n * 8) as u16 != w {
            cur = pool.extract(cur, 0, w);
        }
        pool.v_of(cur)
    }
    #[inline(always)]
    pub fn store(&mut self, pool: &mut Pool, addr: u64, w: u16, v: V) {
        let n = (w as u64 + 7) / 8;
        if v.e == 0 {
            self.store_c(addr, n, v.v & mask(w));
            return;
        }
        self.store_slow(pool, addr, w, v)
    }
    fn store_slow(&mut self, pool: &mut Pool, addr: u64, w: u16, v: V) {
        let n = (w as u64 + 7) / 8;
        if let Some(c) = pool.is_const(v.e) {
            self.store_c(addr, n.min(8), c as u64);
            if n > 8 {
                self.store_c(addr + 8, n - 8, (c >> 64) as u64);
            }
            return;
        }
        let mut e = v.e;
        if (n * 8) as u16 != w {
            e = pool.zext(e, (n * 8) as u16);
        }
        for i in 0..n {
            let b = pool.extract(e, (i * 8) as u16, 8);
            let b = pool.v_of(b);
            self.store_byte(addr + i, b);
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src {
            return;
        }
        let any = {
            let (a, b) = (src / PAGE, (src + n - 1) / PAGE);
            (a..=b).any(|p| self.cnt[p as usize] != 0)
        };
        if any {
            let sh: Vec<E> = (src..src + n).map(|x| self.shadow(x)).collect();
            self.copy_raw(dst, src, n);
            for (i, e) in sh.into_iter().enumerate() {
                self.set_shadow(dst + i as u64, e);
            }
        } else {
            self.copy_raw(dst, src, n);
            self.clear_shadow(dst, n);
        }
    }
    fn copy_raw(&mut self, dst: u64, src: u64, n: u64) {
        self.log_block(dst, n);
        if dst + n > self.high {
            self.high = dst + n;
        }
        self.raw.copy_within(src as usize..(src + n) as usize, dst as usize);
    }
    fn log_block(&mut self, addr: u64, n: u64) {
        if self.log {
            if n <= 8 {
                let old = self.read_raw(addr, n);
                self.undo.push(Undo::Bytes { addr, len: n as u8, old });
            } else {
                let old: Box<[u8]> = self.raw[addr as usize..(addr + n) as usize].into();
                self.undo.push(Undo::Block { addr, old });
            }
        }
    }
    pub fn write_block(&mut self, addr: u64, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        self.log_block(addr, b.len() as u64);
        let e = addr + b.len() as u64;
        if e > self.high {
            self.high = e;
        }
        self.raw[addr as usize..e as usize].copy_from_slice(b);
        self.clear_shadow(addr, b.len() as u64);
    }
    pub fn fill(&mut self, addr: u64, n: u64, v: V) {
        if n == 0 {
            return;
        }
        if v.e == 0 {
            self.log_block(addr, n);
            if addr + n > self.high {
                self.high = addr + n;
            }
            self.raw[addr as usize..(addr + n) as usize].fill(v.v as u8);
            self.clear_shadow(addr, n);
        } else {
            for i in 0..n {
                self.store_byte(addr + i, v);
            }
        }
    }
    pub fn rollback(&mut self, to: usize) {
        let keep = self.log;
        self.log = false;
        while self.undo.len() > to {
            match self.undo.pop().unwrap() {
                Undo::Bytes { addr, len, old } => self.write_nolog(addr, len as u64, old),
                Undo::Block { addr, old } => self.raw[addr as usize..addr as usize + old.len()].copy_from_slice(&old),
                Undo::Sh { addr, old } => self.set_shadow(addr, old),
            }
        }
        self.log = keep;
    }
}
