//! Minimal bindings to the LLVM C API and the loader that turns a bitcode
//! module into the engine's own register code (see ir.rs).
#![allow(non_camel_case_types, non_upper_case_globals, dead_code)]
use crate::ir::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, CStr, CString};

pub enum Opaque {}
pub type Ctx = *mut Opaque;
pub type Mod = *mut Opaque;
pub type Val = *mut Opaque;
pub type Ty = *mut Opaque;
pub type BB = *mut Opaque;
pub type TD = *mut Opaque;
pub type Attr = *mut Opaque;
pub type Buf = *mut Opaque;

extern "C" {
    fn LLVMContextCreate() -> Ctx;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Buf, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(c: Ctx, b: Buf, out: *mut Mod) -> c_int;
    fn LLVMGetModuleDataLayout(m: Mod) -> TD;
    fn LLVMGetFirstGlobal(m: Mod) -> Val;
    fn LLVMGetNextGlobal(v: Val) -> Val;
    fn LLVMGetFirstGlobalAlias(m: Mod) -> Val;
    fn LLVMGetNextGlobalAlias(v: Val) -> Val;
    fn LLVMAliasGetAliasee(v: Val) -> Val;
    fn LLVMGetFirstFunction(m: Mod) -> Val;
    fn LLVMGetNextFunction(v: Val) -> Val;
    fn LLVMGetFirstBasicBlock(f: Val) -> BB;
    fn LLVMGetNextBasicBlock(b: BB) -> BB;
    fn LLVMGetFirstInstruction(b: BB) -> Val;
    fn LLVMGetNextInstruction(v: Val) -> Val;
    fn LLVMGetInstructionOpcode(v: Val) -> c_int;
    fn LLVMGetConstOpcode(v: Val) -> c_int;
    fn LLVMGetICmpPredicate(v: Val) -> c_int;
    fn LLVMGetNumOperands(v: Val) -> c_int;
    fn LLVMGetOperand(v: Val, i: c_uint) -> Val;
    fn LLVMIsAArgument(v: Val) -> Val;
    fn LLVMIsAInstruction(v: Val) -> Val;
    fn LLVMIsAFunction(v: Val) -> Val;
    fn LLVMIsAGlobalAlias(v: Val) -> Val;
    fn LLVMIsAGlobalVariable(v: Val) -> Val;
    fn LLVMIsAConstantExpr(v: Val) -> Val;
    fn LLVMIsAConstantArray(v: Val) -> Val;
    fn LLVMIsAConstantStruct(v: Val) -> Val;
    fn LLVMIsAConstantVector(v: Val) -> Val;
    fn LLVMIsAUndefValue(v: Val) -> Val;
    fn LLVMIsAConstantAggregateZero(v: Val) -> Val;
    fn LLVMIsAConstantDataArray(v: Val) -> Val;
    fn LLVMIsAConstantDataVector(v: Val) -> Val;
    fn LLVMIsAConstantInt(v: Val) -> Val;
    fn LLVMIsAConstantFP(v: Val) -> Val;
    fn LLVMIsAConstantPointerNull(v: Val) -> Val;
    fn LLVMIsAInlineAsm(v: Val) -> Val;
    fn LLVMGetValueName2(v: Val, len: *mut usize) -> *const c_char;
    fn LLVMTypeOf(v: Val) -> Ty;
    fn LLVMGlobalGetValueType(v: Val) -> Ty;
    fn LLVMGetTypeKind(t: Ty) -> c_int;
    fn LLVMGetIntTypeWidth(t: Ty) -> c_uint;
    fn LLVMGetElementType(t: Ty) -> Ty;
    fn LLVMGetArrayLength2(t: Ty) -> u64;
    fn LLVMGetVectorSize(t: Ty) -> c_uint;
    fn LLVMCountStructElementTypes(t: Ty) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: Ty, i: c_uint) -> Ty;
    fn LLVMABISizeOfType(td: TD, t: Ty) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(td: TD, t: Ty) -> c_uint;
    fn LLVMOffsetOfElement(td: TD, t: Ty, i: c_uint) -> c_ulonglong;
    fn LLVMGetAlignment(v: Val) -> c_uint;
    fn LLVMGetInitializer(v: Val) -> Val;
    fn LLVMIsDeclaration(v: Val) -> c_int;
    fn LLVMConstIntGetZExtValue(v: Val) -> c_ulonglong;
    fn LLVMGetRawDataValues(v: Val, len: *mut usize) -> *const u8;
    fn LLVMGetElementAsConstant(v: Val, i: c_uint) -> Val;
    fn LLVMPrintValueToString(v: Val) -> *mut c_char;
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMGetNumSuccessors(v: Val) -> c_uint;
    fn LLVMGetSuccessor(v: Val, i: c_uint) -> BB;
    fn LLVMGetCondition(v: Val) -> Val;
    fn LLVMIsConditional(v: Val) -> c_int;
    fn LLVMGetSwitchCaseValue(v: Val, i: c_uint) -> Val;
    fn LLVMCountIncoming(v: Val) -> c_uint;
    fn LLVMGetIncomingValue(v: Val, i: c_uint) -> Val;
    fn LLVMGetIncomingBlock(v: Val, i: c_uint) -> BB;
    fn LLVMGetCalledValue(v: Val) -> Val;
    fn LLVMGetNumArgOperands(v: Val) -> c_uint;
    fn LLVMGetNormalDest(v: Val) -> BB;
    fn LLVMGetEnumAttributeKindForName(n: *const c_char, len: usize) -> c_uint;
    fn LLVMGetEnumAttributeAtIndex(f: Val, idx: c_uint, kind: c_uint) -> Attr;
    fn LLVMGetCallSiteEnumAttribute(c: Val, idx: c_uint, kind: c_uint) -> Attr;
    fn LLVMGetAllocatedType(v: Val) -> Ty;
    fn LLVMGetGEPSourceElementType(v: Val) -> Ty;
    fn LLVMGetAtomicRMWBinOp(v: Val) -> c_int;
    fn LLVMGetNumIndices(v: Val) -> c_uint;
    fn LLVMGetIndices(v: Val) -> *const c_uint;
    fn LLVMGetNumMaskElements(v: Val) -> c_uint;
    fn LLVMGetMaskValue(v: Val, i: c_uint) -> c_int;
    fn LLVMCountParams(f: Val) -> c_uint;
    fn LLVMGetParam(f: Val, i: c_uint) -> Val;
    fn LLVMGetReturnType(t: Ty) -> Ty;
    fn LLVMIsThreadLocal(v: Val) -> c_int;
    fn LLVMGetInlineAsmAsmString(v: Val, len: *mut usize) -> *const c_char;
}

/// Value kinds, by class test (the numbering of the C enumeration changes
/// between LLVM releases).
#[allow(non_snake_case)]
unsafe fn LLVMGetValueKind(v: Val) -> c_int {
    type T = unsafe extern "C" fn(Val) -> Val;
    const K: &[(T, c_int)] = &[
        (LLVMIsAInstruction, 24),
        (LLVMIsAArgument, 0),
        (LLVMIsAConstantInt, 18),
        (LLVMIsAConstantPointerNull, 20),
        (LLVMIsAUndefValue, 14),
        (LLVMIsAConstantAggregateZero, 15),
        (LLVMIsAConstantFP, 19),
        (LLVMIsAFunction, 5),
        (LLVMIsAGlobalAlias, 6),
        (LLVMIsAGlobalVariable, 8),
        (LLVMIsAConstantExpr, 10),
        (LLVMIsAConstantArray, 11),
        (LLVMIsAConstantStruct, 12),
        (LLVMIsAConstantVector, 13),
        (LLVMIsAConstantDataArray, 16),
        (LLVMIsAConstantDataVector, 17),
        (LLVMIsAInlineAsm, 23),
    ];
    for (f, k) in K {
        if !f(v).is_null() {
            return *k;
        }
    }
    if LLVMGetTypeKind(LLVMTypeOf(v)) == 14 {
        return 21;
    }
    -1
}

const FN_IDX: c_uint = c_uint::MAX; // LLVMAttributeFunctionIndex

pub fn name_of(v: Val) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string()
    }
}

fn show(v: Val) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        LLVMDisposeMessage(p);
        s
    }
}

pub struct Loader {
    td: TD,
    pub prog: Program,
    fidx: HashMap<usize, u32>,
    gaddr: HashMap<usize, u64>,
    noreturn: c_uint,
    wide: HashMap<(u16, u128), u32>,
}

struct FnCtx {
    regs: HashMap<usize, u32>, // value -> first register
    nregs: u32,
    bbs: HashMap<usize, u32>, // block -> block index
}

type Flat = Vec<(u16, u32)>; // (bit width, byte offset)

impl Loader {
    pub fn load(path: &str) -> Result<Program, String> {
        unsafe {
            let ctx = LLVMContextCreate();
            let mut buf: Buf = std::ptr::null_mut();
            let mut msg: *mut c_char = std::ptr::null_mut();
            let cp = CString::new(path).unwrap();
            if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 {
                return Err(format!("cannot read {path}: {}", CStr::from_ptr(msg).to_string_lossy()));
            }
            let mut m: Mod = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
                return Err(format!("cannot parse {path}"));
            }
            let nm = "noreturn";
            let mut l = Loader {
                td: LLVMGetModuleDataLayout(m),
                prog: Program::default(),
                fidx: HashMap::new(),
                gaddr: HashMap::new(),
                noreturn: LLVMGetEnumAttributeKindForName(nm.as_ptr() as *const c_char, nm.len()),
                wide: HashMap::new(),
            };
            // functions
            let mut fvals = vec![];
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let i = l.prog.funcs.len() as u32;
                l.fidx.insert(f as usize, i);
                let name = name_of(f);
                l.prog.by_name.insert(name.clone(), i);
                let nr = !LLVMGetEnumAttributeAtIndex(f, FN_IDX, l.noreturn).is_null();
                l.prog.funcs.push(Func { name, noreturn: nr, ..Default::default() });
                fvals.push(f);
                f = LLVMGetNextFunction(f);
            }
            // globals: addresses, then initialisers
            let mut gs = vec![];
            let mut g = LLVMGetFirstGlobal(m);
            let mut at = GLOBAL_BASE;
            while !g.is_null() {
                let t = LLVMGlobalGetValueType(g);
                let size = LLVMABISizeOfType(l.td, t).max(1);
                let al = (LLVMGetAlignment(g) as u64).max(LLVMABIAlignmentOfType(l.td, t) as u64).max(16);
                at = (at + al - 1) / al * al;
                if LLVMIsDeclaration(g) != 0 {
                    // external data: address 0 (extern_weak) unless known
                    l.gaddr.insert(g as usize, 0);
                } else {
                    l.gaddr.insert(g as usize, at);
                    gs.push((g, at, t));
                    at += size + 16;
                }
                g = LLVMGetNextGlobal(g);
            }
            l.prog.globals_end = at;
            l.prog.globals = vec![0; (at - GLOBAL_BASE) as usize];
            let mut a = LLVMGetFirstGlobalAlias(m);
            while !a.is_null() {
                let t = LLVMAliasGetAliasee(a);
                if let Some(&x) = l.gaddr.get(&(t as usize)) {
                    l.gaddr.insert(a as usize, x);
                } else if let Some(&i) = l.fidx.get(&(t as usize)) {
                    l.fidx.insert(a as usize, i);
                }
                a = LLVMGetNextGlobalAlias(a);
            }
            for (g, addr, t) in gs {
                let init = LLVMGetInitializer(g);
                if !init.is_null() {
                    l.write_const(init, t, addr)?;
                }
                l.prog.global_names.push((addr, name_of(g)));
            }
            for (i, f) in fvals.iter().enumerate() {
                if LLVMIsDeclaration(*f) == 0 {
                    l.func(i, *f)?;
                } else {
                    l.prog.funcs[i].decl = true;
                    let ft = LLVMGlobalGetValueType(*f);
                    let r = LLVMGetReturnType(ft);
                    l.prog.funcs[i].nret = l.flat(r).len() as u32;
                }
            }
            Ok(l.prog)
        }
    }

    fn flat(&self, t: Ty) -> Flat {
        let mut v = vec![];
        self.flat_into(t, 0, &mut v);
        v
    }
    fn flat_into(&self, t: Ty, off: u32, out: &mut Flat) {
        unsafe {
            match LLVMGetTypeKind(t) {
                0 | 7 | 14 | 16 => {}
                2 => out.push((32, off)),
                3 => out.push((64, off)),
                8 => out.push((LLVMGetIntTypeWidth(t) as u16, off)),
                12 => out.push((64, off)),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    for i in 0..n {
                        let o = LLVMOffsetOfElement(self.td, t, i) as u32;
                        self.flat_into(LLVMStructGetTypeAtIndex(t, i), off + o, out);
                    }
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    let s = LLVMABISizeOfType(self.td, e) as u32;
                    for i in 0..LLVMGetArrayLength2(t) as u32 {
                        self.flat_into(e, off + i * s, out);
                    }
                }
                13 => {
                    let e = LLVMGetElementType(t);
                    let s = LLVMABISizeOfType(self.td, e) as u32;
                    for i in 0..LLVMGetVectorSize(t) {
                        self.flat_into(e, off + i * s, out);
                    }
                }
                k => {
                    // floats of other kinds etc: one opaque 64-bit lane
                    let _ = k;
                    out.push((64, off));
                }
            }
        }
    }
    fn size(&self, t: Ty) -> u64 {
        unsafe { LLVMABISizeOfType(self.td, t) }
    }

    fn const_int(&self, v: Val) -> u128 {
        unsafe {
            let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
            if w <= 64 {
                let x = LLVMConstIntGetZExtValue(v);
                return if w == 64 { x as u128 } else { (x & ((1u64 << w) - 1)) as u128 };
            }
            let s = show(v);
            let d = s.split_whitespace().last().unwrap();
            let x: i128 = match d.parse::<i128>() {
                Ok(x) => x,
                Err(_) => d.parse::<u128>().unwrap() as i128,
            };
            let x = x as u128;
            if w >= 128 {
                x
            } else {
                x & ((1u128 << w) - 1)
            }
        }
    }

    /// The flattened scalar values of a constant.
    fn consts(&self, v: Val) -> Result<Vec<u128>, String> {
        unsafe {
            let t = LLVMTypeOf(v);
            Ok(match LLVMGetValueKind(v) {
                18 => vec![self.const_int(v)],
                19 => vec![0],
                20 => vec![0],
                14 | 15 | 25 => vec![0; self.flat(t).len()],
                5 | 6 | 8 => vec![self.addr_of(v)? as u128],
                11 | 12 | 13 => {
                    let mut o = vec![];
                    for i in 0..LLVMGetNumOperands(v) {
                        o.extend(self.consts(LLVMGetOperand(v, i as u32))?);
                    }
                    o
                }
                16 | 17 => {
                    let n = if LLVMGetTypeKind(t) == 11 { LLVMGetArrayLength2(t) as u32 } else { LLVMGetVectorSize(t) };
                    let mut o = vec![];
                    for i in 0..n {
                        o.extend(self.consts(LLVMGetElementAsConstant(v, i))?);
                    }
                    o
                }
                10 => vec![self.const_expr(v)? as u128],
                k => return Err(format!("constant kind {k}: {}", show(v))),
            })
        }
    }
    fn addr_of(&self, v: Val) -> Result<u64, String> {
        if let Some(i) = self.fidx.get(&(v as usize)) {
            return Ok(FN_BASE + (*i as u64) * 16);
        }
        self.gaddr.get(&(v as usize)).copied().ok_or_else(|| format!("no address for {}", name_of(v)))
    }
    fn const_expr(&self, v: Val) -> Result<u64, String> {
        unsafe {
            match LLVMGetConstOpcode(v) {
                29 => {
                    let base = self.consts(LLVMGetOperand(v, 0))?[0] as u64;
                    let mut t = LLVMGetGEPSourceElementType(v);
                    let mut off = 0i64;
                    for i in 1..LLVMGetNumOperands(v) {
                        let o = LLVMGetOperand(v, i as u32);
                        let x = self.const_sext(o)?;
                        if i == 1 {
                            off += x * self.size(t) as i64;
                        } else if LLVMGetTypeKind(t) == 10 {
                            off += LLVMOffsetOfElement(self.td, t, x as u32) as i64;
                            t = LLVMStructGetTypeAtIndex(t, x as u32);
                        } else {
                            t = LLVMGetElementType(t);
                            off += x * self.size(t) as i64;
                        }
                    }
                    Ok(base.wrapping_add(off as u64))
                }
                39 | 40 | 41 | 60 | 69 => Ok(self.consts(LLVMGetOperand(v, 0))?[0] as u64),
                30 => {
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
                    let x = self.consts(LLVMGetOperand(v, 0))?[0] as u64;
                    Ok(if w >= 64 { x } else { x & ((1 << w) - 1) })
                }
                o @ (8 | 10 | 12) => {
                    let a = self.consts(LLVMGetOperand(v, 0))?[0] as u64;
                    let b = self.consts(LLVMGetOperand(v, 1))?[0] as u64;
                    Ok(match o {
                        8 => a.wrapping_add(b),
                        10 => a.wrapping_sub(b),
                        _ => a.wrapping_mul(b),
                    })
                }
                k => Err(format!("constant expression opcode {k}: {}", show(v))),
            }
        }
    }
    fn const_sext(&self, v: Val) -> Result<i64, String> {
        unsafe {
            let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
            let x = self.consts(v)?[0] as u64;
            Ok(if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) })
        }
    }
    fn write_const(&mut self, v: Val, t: Ty, addr: u64) -> Result<(), String> {
        unsafe {
            match LLVMGetValueKind(v) {
                14 | 15 | 25 | 20 => Ok(()),
                16 => {
                    let mut n = 0usize;
                    let p = LLVMGetRawDataValues(v, &mut n);
                    let s = std::slice::from_raw_parts(p, n);
                    let o = (addr - GLOBAL_BASE) as usize;
                    self.prog.globals[o..o + n].copy_from_slice(s);
                    Ok(())
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    let s = self.size(e);
                    for i in 0..LLVMGetNumOperands(v) {
                        self.write_const(LLVMGetOperand(v, i as u32), e, addr + i as u64 * s)?;
                    }
                    Ok(())
                }
                12 => {
                    for i in 0..LLVMGetNumOperands(v) as u32 {
                        let o = LLVMOffsetOfElement(self.td, t, i);
                        self.write_const(LLVMGetOperand(v, i), LLVMStructGetTypeAtIndex(t, i), addr + o)?;
                    }
                    Ok(())
                }
                _ => {
                    let fl = self.flat(t);
                    let cs = self.consts(v)?;
                    for ((w, o), c) in fl.iter().zip(cs) {
                        let n = (*w as usize + 7) / 8;
                        let b = c.to_le_bytes();
                        let p = (addr - GLOBAL_BASE) as usize + *o as usize;
                        self.prog.globals[p..p + n].copy_from_slice(&b[..n]);
                    }
                    Ok(())
                }
            }
        }
    }

    fn k(&mut self, w: u16, x: u128) -> Op {
        if w <= 64 {
            Op::C(x as u64)
        } else {
            let n = self.wide.len() as u32;
            let prog = &mut self.prog;
            let i = *self.wide.entry((w, x)).or_insert_with(|| {
                prog.wide.push((w, x));
                n
            });
            Op::W(i)
        }
    }

    fn ops(&mut self, fc: &FnCtx, v: Val) -> Result<Vec<Op>, String> {
        unsafe {
            let t = LLVMTypeOf(v);
            let fl = self.flat(t);
            match LLVMGetValueKind(v) {
                0 | 24 => {
                    let r = *fc.regs.get(&(v as usize)).ok_or_else(|| format!("no register for {}", show(v)))?;
                    Ok((0..fl.len() as u32).map(|i| Op::R(r + i)).collect())
                }
                21 => Ok(vec![]), // metadata
                23 => Ok(vec![Op::C(0)]),
                _ => {
                    let cs = self.consts(v)?;
                    Ok(cs.iter().zip(fl.iter()).map(|(c, (w, _))| self.k(*w, *c)).collect())
                }
            }
        }
    }
    fn op1(&mut self, fc: &FnCtx, v: Val) -> Result<Op, String> {
        let o = self.ops(fc, v)?;
        if o.len() != 1 {
            return Err(format!("scalar operand expected: {}", show(v)));
        }
        Ok(o[0])
    }

    fn func(&mut self, fi: usize, f: Val) -> Result<(), String> {
        unsafe {
            let mut fc = FnCtx { regs: HashMap::new(), nregs: 0, bbs: HashMap::new() };
            for i in 0..LLVMCountParams(f) {
                let p = LLVMGetParam(f, i);
                let n = self.flat(LLVMTypeOf(p)).len() as u32;
                fc.regs.insert(p as usize, fc.nregs);
                fc.nregs += n;
            }
            let nargs = fc.nregs;
            let mut blocks = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                fc.bbs.insert(b as usize, blocks.len() as u32);
                blocks.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let n = self.flat(LLVMTypeOf(i)).len() as u32;
                    fc.regs.insert(i as usize, fc.nregs);
                    fc.nregs += n;
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let ft = LLVMGlobalGetValueType(f);
            let mut fun = Func {
                name: self.prog.funcs[fi].name.clone(),
                noreturn: self.prog.funcs[fi].noreturn,
                nargs,
                nret: self.flat(LLVMGetReturnType(ft)).len() as u32,
                ret_w: self.flat(LLVMGetReturnType(ft)).iter().map(|x| x.0).collect(),
                ..Default::default()
            };
            let mut starts = vec![0u32; blocks.len()];
            for (bi, b) in blocks.iter().enumerate() {
                starts[bi] = fun.code.len() as u32;
                let mut i = LLVMGetFirstInstruction(*b);
                while !i.is_null() {
                    self.inst(&mut fc, &mut fun, *b, i)?;
                    i = LLVMGetNextInstruction(i);
                }
            }
            // patch edges: target currently block index
            for e in fun.edges.iter_mut() {
                e.target = starts[e.target as usize];
            }
            fun.nregs = fc.nregs;
            self.prog.funcs[fi] = fun;
            Ok(())
        }
    }

    fn edge(&mut self, fc: &FnCtx, fun: &mut Func, from: BB, to: BB) -> Result<u32, String> {
        unsafe {
            let mut moves = vec![];
            let mut i = LLVMGetFirstInstruction(to);
            while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
                let d = fc.regs[&(i as usize)];
                for k in 0..LLVMCountIncoming(i) {
                    if LLVMGetIncomingBlock(i, k) == from {
                        let o = self.ops(fc, LLVMGetIncomingValue(i, k))?;
                        for (j, x) in o.into_iter().enumerate() {
                            moves.push((d + j as u32, x));
                        }
                        break;
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            let id = fun.edges.len() as u32;
            fun.edges.push(Edge { target: fc.bbs[&(to as usize)], moves: moves.into_boxed_slice() });
            Ok(id)
        }
    }

    fn unsup(fun: &mut Func, why: String) {
        fun.code.push(Inst::Unsupported(why.into_boxed_str()));
    }

    fn inst(&mut self, fc: &mut FnCtx, fun: &mut Func, bb: BB, i: Val) -> Result<(), String> {
        unsafe {
            let opc = LLVMGetInstructionOpcode(i);
            let d = fc.regs[&(i as usize)];
            let ty = LLVMTypeOf(i);
            let fl = self.flat(ty);
            let operand = |k: u32| LLVMGetOperand(i, k);
            match opc {
                1 => {
                    let mut r = vec![];
                    if LLVMGetNumOperands(i) > 0 {
                        r = self.ops(fc, operand(0))?;
                    }
                    fun.code.push(Inst::Ret(r.into_boxed_slice()));
                }
                7 => fun.code.push(Inst::Unreachable),
                3 => {
                    let c = operand(0);
                    let v = self.op1(fc, c)?;
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(c)) as u16;
                    let n = LLVMGetNumSuccessors(i);
                    let mut edges: HashMap<usize, u32> = HashMap::new();
                    let mut cases = vec![];
                    let mut def = 0;
                    for k in 0..n {
                        let s = LLVMGetSuccessor(i, k);
                        let e = match edges.get(&(s as usize)) {
                            Some(e) => *e,
                            None => {
                                let e = self.edge(fc, fun, bb, s)?;
                                edges.insert(s as usize, e);
                                e
                            }
                        };
                        if k == 0 {
                            def = e;
                        } else {
                            cases.push((self.const_int(LLVMGetSwitchCaseValue(i, k)) as u64, e));
                        }
                    }
                    cases.sort();
                    fun.code.push(Inst::Switch { v, w, cases: cases.into_boxed_slice(), def });
                }
                5 => {
                    self.call(fc, fun, i, d, fl.len() as u32)?;
                    let n = LLVMGetNormalDest(i);
                    let e = self.edge(fc, fun, bb, n)?;
                    fun.code.push(Inst::Br(e));
                }
                56 => {
                    // cmpxchg: {T, i1}
                    let p = self.op1(fc, operand(0))?;
                    let a = self.op1(fc, operand(1))?;
                    let b = self.op1(fc, operand(2))?;
                    fun.code.push(Inst::CmpXchg { d, p, a, b, w: fl[0].0 });
                }
                8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
                    let op = match binop(opc) {
                        Some(o) => o,
                        None => {
                            Self::unsup(fun, format!("binary opcode {opc}: {}", show(i)));
                            return Ok(());
                        }
                    };
                    let a = self.ops(fc, operand(0))?;
                    let b = self.ops(fc, operand(1))?;
                    for k in 0..fl.len() {
                        fun.code.push(Inst::Bin { op, w: fl[k].0, d: d + k as u32, a: a[k], b: b[k] });
                    }
                }
                26 => {
                    let t = LLVMGetAllocatedType(i);
                    let n = self.op1(fc, operand(0))?;
                    let n = match n {
                        Op::C(n) => n,
                        _ => {
                            Self::unsup(fun, "dynamic alloca".into());
                            return Ok(());
                        }
                    };
                    let al = (LLVMGetAlignment(i) as u64).max(16);
                    fun.code.push(Inst::Alloca { d, size: (self.size(t) * n) as u32, align: al as u32 });
                }
                27 => {
                    let p = self.op1(fc, operand(0))?;
                    if LLVMGetTypeKind(ty) == 13 && fl[0].0 % 8 != 0 {
                        Self::unsup(fun, format!("load of packed vector {}", show(i)));
                        return Ok(());
                    }
                    for (k, (w, o)) in fl.iter().enumerate() {
                        fun.code.push(Inst::Load { d: d + k as u32, p, off: *o, w: *w });
                    }
                }
                28 => {
                    let v = operand(0);
                    let vt = LLVMTypeOf(v);
                    let vf = self.flat(vt);
                    if LLVMGetTypeKind(vt) == 13 && vf[0].0 % 8 != 0 {
                        Self::unsup(fun, format!("store of packed vector {}", show(i)));
                        return Ok(());
                    }
                    let vs = self.ops(fc, v)?;
                    let p = self.op1(fc, operand(1))?;
                    for (k, (w, o)) in vf.iter().enumerate() {
                        fun.code.push(Inst::Store { v: vs[k], p, off: *o, w: *w });
                    }
                }
                29 => {
                    let mut t = LLVMGetGEPSourceElementType(i);
                    if LLVMGetTypeKind(ty) == 13 {
                        Self::unsup(fun, "vector gep".into());
                        return Ok(());
                    }
                    let base = self.op1(fc, operand(0))?;
                    let mut off = 0i64;
                    let mut terms = vec![];
                    for k in 1..LLVMGetNumOperands(i) {
                        let o = operand(k as u32);
                        let scale;
                        if k > 1 && LLVMGetTypeKind(t) == 10 {
                            let x = self.const_sext(o)?;
                            off += LLVMOffsetOfElement(self.td, t, x as u32) as i64;
                            t = LLVMStructGetTypeAtIndex(t, x as u32);
                            continue;
                        }
                        if k > 1 {
                            t = LLVMGetElementType(t);
                        }
                        scale = self.size(t);
                        let ow = LLVMGetIntTypeWidth(LLVMTypeOf(o)) as u16;
                        match self.op1(fc, o)? {
                            Op::C(_) => off += self.const_sext(o)?.wrapping_mul(scale as i64),
                            x => terms.push((x, ow, scale)),
                        }
                    }
                    fun.code.push(Inst::Gep { d, base, off: off as u64, terms: terms.into_boxed_slice() });
                }
                30 | 31 | 32 => {
                    let a = self.ops(fc, operand(0))?;
                    let fa = self.flat(LLVMTypeOf(operand(0)));
                    for k in 0..fl.len() {
                        let (from, to) = (fa[k].0, fl[k].0);
                        let (d, a) = (d + k as u32, a[k]);
                        fun.code.push(match opc {
                            30 => Inst::Trunc { d, a, from, to },
                            31 => Inst::ZExt { d, a, from, to },
                            _ => Inst::SExt { d, a, from, to },
                        });
                    }
                }
                39 | 40 | 60 | 68 | 69 => {
                    let a = self.ops(fc, operand(0))?;
                    let fa = self.flat(LLVMTypeOf(operand(0)));
                    for k in 0..fl.len() {
                        let (from, to) = (fa[k].0, fl[k].0);
                        let d = d + k as u32;
                        if from == to {
                            fun.code.push(Inst::Mov { d, a: a[k] });
                        } else if from > to {
                            fun.code.push(Inst::Trunc { d, a: a[k], from, to });
                        } else {
                            fun.code.push(Inst::ZExt { d, a: a[k], from, to });
                        }
                    }
                }
                41 => {
                    let a = self.ops(fc, operand(0))?;
                    let fa = self.flat(LLVMTypeOf(operand(0)));
                    if fa.len() == fl.len() {
                        for k in 0..fl.len() {
                            fun.code.push(Inst::Mov { d: d + k as u32, a: a[k] });
                        }
                    } else {
                        let from: Vec<(Op, u16)> = a.iter().zip(fa.iter()).map(|(a, f)| (*a, f.0)).collect();
                        let to: Vec<u16> = fl.iter().map(|f| f.0).collect();
                        fun.code.push(Inst::BitcastN { d, from: from.into_boxed_slice(), to: to.into_boxed_slice() });
                    }
                }
                42 => {
                    let a = self.ops(fc, operand(0))?;
                    let b = self.ops(fc, operand(1))?;
                    let fa = self.flat(LLVMTypeOf(operand(0)));
                    let p = LLVMGetICmpPredicate(i);
                    for k in 0..fl.len() {
                        fun.code.push(Inst::ICmp { p: pred(p), w: fa[k].0, d: d + k as u32, a: a[k], b: b[k] });
                    }
                }
                44 => {}
                45 => self.call(fc, fun, i, d, fl.len() as u32)?,
                46 => {
                    let c = self.ops(fc, operand(0))?;
                    let a = self.ops(fc, operand(1))?;
                    let b = self.ops(fc, operand(2))?;
                    for k in 0..fl.len() {
                        let cc = if c.len() == 1 { c[0] } else { c[k] };
                        fun.code.push(Inst::Select { w: fl[k].0, d: d + k as u32, c: cc, a: a[k], b: b[k] });
                    }
                }
                50 => {
                    let a = self.ops(fc, operand(0))?;
                    match self.op1(fc, operand(1))? {
                        Op::C(k) => fun.code.push(Inst::Mov { d, a: a[k as usize % a.len()] }),
                        _ => Self::unsup(fun, "variable extractelement".into()),
                    }
                }
                51 => {
                    let a = self.ops(fc, operand(0))?;
                    let x = self.op1(fc, operand(1))?;
                    match self.op1(fc, operand(2))? {
                        Op::C(k) => {
                            for (j, o) in a.iter().enumerate() {
                                fun.code.push(Inst::Mov { d: d + j as u32, a: if j as u64 == k { x } else { *o } });
                            }
                        }
                        _ => Self::unsup(fun, "variable insertelement".into()),
                    }
                }
                52 => {
                    let mut a = self.ops(fc, operand(0))?;
                    a.extend(self.ops(fc, operand(1))?);
                    for k in 0..LLVMGetNumMaskElements(i) {
                        let m = LLVMGetMaskValue(i, k);
                        let o = if m < 0 { Op::C(0) } else { a[m as usize] };
                        fun.code.push(Inst::Mov { d: d + k, a: o });
                    }
                }
                53 | 54 => {
                    let agg = operand(0);
                    let n = LLVMGetNumIndices(i);
                    let idx = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize);
                    let mut t = LLVMTypeOf(agg);
                    let mut at = 0usize;
                    for &x in idx {
                        if LLVMGetTypeKind(t) == 10 {
                            for j in 0..x {
                                at += self.flat(LLVMStructGetTypeAtIndex(t, j)).len();
                            }
                            t = LLVMStructGetTypeAtIndex(t, x);
                        } else {
                            t = LLVMGetElementType(t);
                            at += x as usize * self.flat(t).len();
                        }
                    }
                    let a = self.ops(fc, agg)?;
                    if opc == 53 {
                        for k in 0..fl.len() {
                            fun.code.push(Inst::Mov { d: d + k as u32, a: a[at + k] });
                        }
                    } else {
                        let v = self.ops(fc, operand(1))?;
                        for (k, o) in a.iter().enumerate() {
                            let o = if k >= at && k < at + v.len() { v[k - at] } else { *o };
                            fun.code.push(Inst::Mov { d: d + k as u32, a: o });
                        }
                    }
                }
                55 => {}
                57 => {
                    let p = self.op1(fc, operand(0))?;
                    let a = self.op1(fc, operand(1))?;
                    fun.code.push(Inst::AtomicRmw { d, p, a, w: fl[0].0, op: LLVMGetAtomicRMWBinOp(i) as u8 });
                }
                58 | 59 => Self::unsup(fun, "exception handling reached".into()),
                _ => {
                    if LLVMGetNumSuccessorsSafe(i) > 0 {
                        let n = LLVMGetNumSuccessors(i);
                        if n == 1 {
                            let e = self.edge(fc, fun, bb, LLVMGetSuccessor(i, 0))?;
                            fun.code.push(Inst::Br(e));
                            return Ok(());
                        }
                        if n == 2 {
                            let c = self.op1(fc, operand(0))?;
                            let t = self.edge(fc, fun, bb, LLVMGetSuccessor(i, 0))?;
                            let f = self.edge(fc, fun, bb, LLVMGetSuccessor(i, 1))?;
                            fun.code.push(Inst::CondBr { c, t, f });
                            return Ok(());
                        }
                    }
                    Self::unsup(fun, format!("opcode {opc}: {}", show(i)));
                }
            }
            Ok(())
        }
    }

    fn call(&mut self, fc: &FnCtx, fun: &mut Func, i: Val, d: u32, nret: u32) -> Result<(), String> {
        unsafe {
            let cv = LLVMGetCalledValue(i);
            let mut args = vec![];
            let mut widths = vec![];
            for k in 0..LLVMGetNumArgOperands(i) {
                let o = LLVMGetOperand(i, k);
                args.extend(self.ops(fc, o)?);
                widths.extend(self.flat(LLVMTypeOf(o)).iter().map(|x| x.0));
            }
            let nr = !LLVMGetCallSiteEnumAttribute(i, FN_IDX, self.noreturn).is_null();
            let kind = LLVMGetValueKind(cv);
            if kind == 23 {
                let mut n = 0usize;
                let p = LLVMGetInlineAsmAsmString(cv, &mut n);
                let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string();
                if s.is_empty() || s.starts_with("mfence") {
                    // black_box style barrier; pass operands through unchanged
                    for k in 0..nret {
                        fun.code.push(Inst::Mov { d: d + k, a: args.get(k as usize).copied().unwrap_or(Op::C(0)) });
                    }
                } else if s.contains("cpuid") || s.contains("xgetbv") {
                    // no CPU features beyond the baseline
                    for k in 0..nret {
                        fun.code.push(Inst::Mov { d: d + k, a: Op::C(0) });
                    }
                } else {
                    Self::unsup(fun, format!("inline asm {s}"));
                }
                return Ok(());
            }
            let callee = match self.fidx.get(&(cv as usize)) {
                Some(f) => Callee::Direct(*f),
                None => Callee::Indirect(self.op1(fc, cv)?),
            };
            if let Callee::Direct(f) = callee {
                let name = self.prog.funcs[f as usize].name.clone();
                if let Some(nm) = name.strip_prefix("llvm.") {
                    // result width for intrinsics
                    let fl = self.flat(LLVMTypeOf(i));
                    let id = intrinsic(nm);
                    match id {
                        Intr::Ignore => {
                            if nret > 0 {
                                for k in 0..nret {
                                    fun.code.push(Inst::Mov { d: d + k, a: args.get(k as usize).copied().unwrap_or(Op::C(0)) });
                                }
                            }
                        }
                        Intr::Unknown => Self::unsup(fun, format!("intrinsic {name}")),
                        _ => {
                            let base = LLVMGetTypeKind(LLVMTypeOf(i)) == 13
                                && matches!(id, Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin | Intr::Bswap | Intr::Ctpop | Intr::USubSat | Intr::UAddSat | Intr::Abs);
                            if base {
                                let n = fl.len();
                                for k in 0..n {
                                    let a: Vec<Op> = args.chunks(n).filter(|c| c.len() == n).map(|c| c[k]).collect();
                                    let ws: Vec<u16> = a.iter().map(|_| fl[k].0).collect();
                                    fun.code.push(Inst::Intr { id, d: d + k as u32, nret: 1, rw: fl[k].0, args: a.into_boxed_slice(), ws: ws.into_boxed_slice() });
                                }
                            } else {
                                let rw = fl.first().map(|x| x.0).unwrap_or(0);
                                fun.code.push(Inst::Intr { id, d, nret, rw, args: args.into_boxed_slice(), ws: widths.into_boxed_slice() });
                            }
                        }
                    }
                    return Ok(());
                }
            }
            fun.code.push(Inst::Call { callee, d, nret, noreturn: nr, args: args.into_boxed_slice(), ws: widths.into_boxed_slice() });
            Ok(())
        }
    }
}

#[allow(non_snake_case)]
unsafe fn LLVMGetNumSuccessorsSafe(i: Val) -> u32 {
    // LLVMGetNumSuccessors is only valid on terminators
    extern "C" {
        fn LLVMIsATerminatorInst(v: Val) -> Val;
    }
    if LLVMIsATerminatorInst(i).is_null() {
        0
    } else {
        LLVMGetNumSuccessors(i)
    }
}

fn binop(o: c_int) -> Option<BinOp> {
    Some(match o {
        8 => BinOp::Add,
        10 => BinOp::Sub,
        12 => BinOp::Mul,
        14 => BinOp::UDiv,
        15 => BinOp::SDiv,
        17 => BinOp::URem,
        18 => BinOp::SRem,
        20 => BinOp::Shl,
        21 => BinOp::LShr,
        22 => BinOp::AShr,
        23 => BinOp::And,
        24 => BinOp::Or,
        25 => BinOp::Xor,
        _ => return None,
    })
}
fn pred(p: c_int) -> Pred {
    match p {
        32 => Pred::Eq,
        33 => Pred::Ne,
        34 => Pred::Ugt,
        35 => Pred::Uge,
        36 => Pred::Ult,
        37 => Pred::Ule,
        38 => Pred::Sgt,
        39 => Pred::Sge,
        40 => Pred::Slt,
        _ => Pred::Sle,
    }
}
