//! The `sym_*` functions for a native run: they read the values of one input.
use std::cell::RefCell;

#[derive(Default)]
pub struct Run {
    pub inputs: Vec<u64>,
    pub next: usize,
    pub outs: Vec<u8>,
    pub notes: Vec<(String, String)>,
}

pub enum Stop {
    Assume,
    Assert(u32),
    Inputs(String),
}

thread_local! { pub static RUN: RefCell<Run> = RefCell::new(Run::default()); }

fn value(n: u64) -> u64 {
    let r = RUN.with(|r| {
        let mut r = r.borrow_mut();
        let v = r.inputs.get(r.next).copied();
        r.next += 1;
        v
    });
    match r {
        Some(v) if n == 0 || v < n => v,
        Some(v) => std::panic::panic_any(Stop::Inputs(format!("{v} is not below {n}"))),
        None => std::panic::panic_any(Stop::Inputs("not enough values".into())),
    }
}

#[no_mangle]
extern "C-unwind" fn sym_pick(n: u64) -> u64 {
    value(n)
}
#[no_mangle]
extern "C-unwind" fn sym_fork(n: u64) -> u64 {
    value(n)
}
#[no_mangle]
extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        std::panic::panic_any(Stop::Assume)
    }
}
#[no_mangle]
extern "C-unwind" fn sym_assert(b: bool, id: u32) {
    if !b {
        std::panic::panic_any(Stop::Assert(id))
    }
}
#[no_mangle]
extern "C-unwind" fn sym_out(p: *const u8, n: u64) {
    let b = unsafe { std::slice::from_raw_parts(p, n as usize) };
    RUN.with(|r| {
        let o = &mut r.borrow_mut().outs;
        o.push(n as u8);
        o.extend(b);
    })
}

pub fn note(what: &str, s: &dyn std::fmt::Debug) {
    RUN.with(|r| {
        let n = &mut r.borrow_mut().notes;
        if n.len() < 40 {
            n.push((what.into(), format!("{s:?}")))
        }
    })
}
