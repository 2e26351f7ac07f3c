//! Runs an entry point: concrete set-up once, then parallel exploration.
use crate::exec::*;
use crate::expr::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Opts {
    pub threads: usize,
    pub time: f64,
    pub limit: u64,
    pub max_viol: usize,
    pub samples: usize,
    pub certify: bool,
    pub timeout_ms: u32,
}

#[derive(Default)]
pub struct Report {
    pub complete: bool,
    pub engine_error: Option<String>,
    pub stats: Stats,
    pub violations: Vec<Witness>,
    pub viol_count: u64,
    pub samples: Vec<Witness>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub certified: u64,
    pub solver_secs: f64,
    pub wall: f64,
    pub setup_insts: u64,
    pub funcs: Vec<String>,
    pub edges_hit: u64,
    pub edges_all: u64,
    pub what: BTreeMap<String, u64>,
    pub max_inputs: usize,
}

struct Shared {
    q: Mutex<VecDeque<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    qlen: AtomicUsize,
    stop: AtomicBool,
    timeout: AtomicBool,
    viol: AtomicUsize,
    err: Mutex<Option<String>>,
    threads: usize,
}

struct Root {
    st: St,
    regs: Box<[V]>,
}

struct Worker {
    ex: Exec,
    root: Arc<Root>,
    samples: Vec<Witness>,
    violations: Vec<Witness>,
    what: BTreeMap<String, u64>,
    seen: u64,
    rng: u64,
    max_inputs: usize,
}

impl Worker {
    fn restore(&mut self) {
        let ex = &mut self.ex;
        ex.mem.rollback(0);
        ex.known.clear();
        ex.choices.clear();
        ex.st = self.root.st.clone();
        ex.regs[..self.root.regs.len()].copy_from_slice(&self.root.regs);
        ex.top = self.root.regs.len();
    }
    fn process(&mut self, item: Item, sh: &Shared, o: &Opts, t0: Instant) -> Result<(), String> {
        self.restore();
        self.ex.replay = item.trail.len();
        self.ex.trail = item.trail;
        self.ex.pos = 0;
        self.ex.prescribed = Some(item.model);
        if self.ex.replay > 0 {
            self.ex.stats.replays += 1;
        }
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            let r = self.ex.run(0, o.limit);
            let ex = &mut self.ex;
            if ex.pos < ex.replay {
                let extra = format!("{r:?}");
                if !matches!(r, Err(Stop::Engine(_))) {
                    return Err(format!("replay of a work item diverged ({extra})"));
                }
            }
            ex.stats.insts += ex.st.insts;
            ex.stats.max_path_insts = ex.stats.max_path_insts.max(ex.st.insts);
            self.max_inputs = self.max_inputs.max(ex.st.active.len());
            let end = match r {
                Ok(()) => End::Done,
                Err(Stop::End(e)) => e,
                Err(Stop::Engine(m)) => {
                    let at: Vec<String> = ex.st.frames.iter().rev().take(6).map(|f| short(&ex.prog.p.funcs[f.func as usize].name)).collect();
                    let m = format!("{m} [stack: {}; inputs {:?}]", at.join(" < "), ex.inputs());
                    if ex.pos < ex.replay || ex.nested {
                        return Err(m);
                    }
                    // this path is not decided, the others are
                    ex.stats.given_up += 1;
                    let mut e = sh.err.lock().unwrap();
                    if e.is_none() {
                        *e = Some(m);
                    }
                    if ex.stats.given_up > 5000 {
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                    End::Assume
                }
                Err(Stop::Boundary | Stop::Retry) => return Err("unexpected boundary".into()),
            };
            match end {
                End::Assume => ex.stats.assume_ends += 1,
                End::Done => {
                    ex.stats.paths += 1;
                    if !ex.model_ok() {
                        let t: Vec<String> = ex.st.active.iter().map(|v| format!("v{v}={} dom {:x?}", ex.st.model[*v as usize], ex.st.doms[*v as usize])).collect();
                        return Err(format!("model outside its domain at the end of a path {t:?} trail {:?} pos {}", ex.trail, ex.pos));
                    }
                    self.seen += 1;
                    self.rng ^= self.rng << 13;
                    self.rng ^= self.rng >> 7;
                    self.rng ^= self.rng << 17;
                    let take = if self.samples.len() < o.samples {
                        self.samples.push(Witness { inputs: vec![], outs: vec![], what: String::new() });
                        Some(self.samples.len() - 1)
                    } else {
                        let k = (self.rng % self.seen) as usize;
                        if k < o.samples {
                            Some(k)
                        } else {
                            None
                        }
                    };
                    if let Some(k) = take {
                        self.samples[k] = Witness { inputs: ex.inputs(), outs: ex.outputs(), what: String::new() };
                        // independent re-check of the whole path condition
                        if o.certify && self.seen % 4 == 1 {
                            let doms: Vec<(u16, Bits)> = ex.st.active.iter().map(|v| (*v, ex.st.doms[*v as usize])).collect();
                            let cons = ex.st.cons.clone();
                            match ex.z3.check(&ex.pool, &doms, &cons, true) {
                                crate::z3::Res::Unsat => return Err("a completed path is infeasible according to the solver".into()),
                                crate::z3::Res::Sat(_) => ex.stats.recheck += 1,
                                _ => {}
                            }
                        }
                    }
                }
                End::Limit => {
                    ex.stats.paths += 1;
                    let w = Witness { inputs: ex.inputs(), outs: vec![], what: "instruction limit reached (no termination?)".into() };
                    *self.what.entry(w.what.clone()).or_insert(0) += 1;
                    self.violations.push(w);
                    sh.viol.fetch_add(1, Ordering::Relaxed);
                }
                End::Violation { what } => {
                    ex.stats.paths += 1;
                    let n = self.what.entry(what.clone()).or_insert(0);
                    *n += 1;
                    if *n <= 4 {
                        self.violations.push(Witness { inputs: ex.inputs(), outs: vec![], what });
                    }
                    sh.viol.fetch_add(1, Ordering::Relaxed);
                }
            }
            if sh.viol.load(Ordering::Relaxed) >= o.max_viol {
                sh.stop.store(true, Ordering::Relaxed);
            }
            if t0.elapsed().as_secs_f64() > o.time {
                sh.timeout.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
            }
            // share work
            while sh.idle.load(Ordering::Relaxed) > sh.qlen.load(Ordering::Relaxed) {
                match ex.donate() {
                    Some(i) => {
                        let mut q = sh.q.lock().unwrap();
                        q.push_back(i);
                        sh.qlen.store(q.len(), Ordering::Relaxed);
                        sh.cv.notify_one();
                    }
                    None => break,
                }
            }
            if !ex.backtrack() {
                return Ok(());
            }
        }
    }
}

pub fn explore(prog: Arc<Prog>, entry: &str, o: &Opts) -> Report {
    let t0 = Instant::now();
    let mut rep = Report::default();
    let f = match prog.p.by_name.get(entry) {
        Some(f) => *f,
        None => {
            rep.engine_error = Some(format!("no entry {entry}"));
            return rep;
        }
    };
    let mut root = Exec::new(prog.clone(), o.limit, o.timeout_ms);
    root.setup = true;
    root.enter(f, &[]);
    match root.run(0, 20_000_000_000) {
        Err(Stop::Boundary | Stop::Retry) => {}
        Ok(()) => {
            rep.engine_error = Some("the entry has no symbolic input".into());
            return rep;
        }
        Err(Stop::End(e)) => {
            // a violation on concrete set-up code alone
            if let End::Violation { what } = e {
                rep.violations.push(Witness { inputs: vec![], outs: vec![], what: what.clone() });
                rep.what.insert(what, 1);
                rep.viol_count = 1;
            } else {
                rep.engine_error = Some(format!("set-up ended: {e:?}"));
            }
            return rep;
        }
        Err(Stop::Engine(m)) => {
            let at: Vec<String> = root.st.frames.iter().rev().take(8).map(|f| short(&prog.p.funcs[f.func as usize].name)).collect();
            rep.engine_error = Some(format!("set-up: {m} [stack: {}]", at.join(" < ")));
            return rep;
        }
    }
    rep.setup_insts = root.st.insts;
    root.st.insts = 0;
    let high = root.mem.high;
    let rootst = Arc::new(Root { st: root.st.clone(), regs: root.regs[..root.top].into() });
    let sh = Shared {
        q: Mutex::new(VecDeque::new()),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        qlen: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        viol: AtomicUsize::new(0),
        err: Mutex::new(None),
        threads: o.threads,
    };
    sh.q.lock().unwrap().push_back(Item { trail: vec![], model: vec![] });
    sh.qlen.store(1, Ordering::Relaxed);
    let done: Mutex<Vec<Worker>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for k in 0..o.threads {
            let (sh, done, rootst, prog, root) = (&sh, &done, rootst.clone(), prog.clone(), &root);
            // Exec of the root is only read here
            let rootp = SendPtr(root as *const Exec);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    let rootp = rootp;
                    let root = unsafe { &*rootp.get() };
                    let mut ex = Exec::new(prog, o.limit, o.timeout_ms);
                    ex.mem = root.mem.fork(high);
                    ex.pool = root.pool.clone();
                    ex.files = root.files.clone();
                    ex.cov = root.cov.clone();
                    ex.certify = o.certify;
                    ex.setup = false;
                    ex.mem.log = true;
                    let mut w = Worker {
                        ex,
                        root: rootst,
                        samples: vec![],
                        violations: vec![],
                        what: BTreeMap::new(),
                        seen: 0,
                        rng: 0x9e37_79b9_7f4a_7c15 ^ (k as u64 + 1),
                        max_inputs: 0,
                    };
                    loop {
                        let item = {
                            let mut q = sh.q.lock().unwrap();
                            sh.idle.fetch_add(1, Ordering::SeqCst);
                            loop {
                                if sh.stop.load(Ordering::Relaxed) {
                                    break None;
                                }
                                if let Some(i) = q.pop_front() {
                                    sh.qlen.store(q.len(), Ordering::Relaxed);
                                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                                    break Some(i);
                                }
                                if sh.idle.load(Ordering::SeqCst) == sh.threads {
                                    sh.cv.notify_all();
                                    break None;
                                }
                                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                                q = g;
                            }
                        };
                        let item = match item {
                            None => break,
                            Some(i) => i,
                        };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.process(item, sh, o, t0)));
                        let r = match r {
                            Ok(r) => r,
                            Err(e) => Err(format!("engine panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
                        };
                        if let Err(e) = r {
                            *sh.err.lock().unwrap() = Some(e);
                            sh.stop.store(true, Ordering::Relaxed);
                        }
                    }
                    done.lock().unwrap().push(w);
                })
                .unwrap();
        }
    });
    rep.engine_error = sh.err.lock().unwrap().take();
    rep.complete = !sh.stop.load(Ordering::Relaxed) && rep.engine_error.is_none();
    let mut cov: Vec<Box<[u8]>> = root.cov.clone();
    for w in done.into_inner().unwrap() {
        let (a, b) = (&mut rep.stats, &w.ex.stats);
        a.paths += b.paths;
        a.assume_ends += b.assume_ends;
        a.given_up += b.given_up;
        a.forks += b.forks;
        a.forced += b.forced;
        a.insts += b.insts;
        a.asserts += b.asserts;
        a.sym_asserts += b.sym_asserts;
        a.replays += b.replays;
        a.cache_hits += b.cache_hits;
        a.search_hits += b.search_hits;
        a.pointwise += b.pointwise;
        a.concretised += b.concretised;
        a.unknowns += b.unknowns;
        a.recheck += b.recheck;
        a.max_path_insts = a.max_path_insts.max(b.max_path_insts);
        rep.queries += w.ex.z3.queries;
        rep.sat += w.ex.z3.sat;
        rep.unsat += w.ex.z3.unsat;
        rep.unknown += w.ex.z3.unknown;
        rep.certified += w.ex.z3.certified;
        rep.solver_secs += w.ex.z3.secs;
        rep.samples.extend(w.samples);
        rep.violations.extend(w.violations);
        for (k, v) in w.what {
            *rep.what.entry(k).or_insert(0) += v;
        }
        rep.max_inputs = rep.max_inputs.max(w.max_inputs);
        for (x, y) in cov.iter_mut().zip(w.ex.cov.iter()) {
            for (p, q) in x.iter_mut().zip(y.iter()) {
                *p |= *q;
            }
        }
    }
    rep.viol_count = rep.what.values().sum();
    for (i, c) in cov.iter().enumerate() {
        if c[0] != 0 {
            let name = &prog.p.funcs[i].name;
            if name.contains("rphonetic") {
                rep.funcs.push(short(name));
                rep.edges_all += c.len() as u64 - 1;
                rep.edges_hit += c[1..].iter().map(|x| *x as u64).sum::<u64>();
            }
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

struct SendPtr(*const Exec);
unsafe impl Send for SendPtr {}
impl SendPtr {
    fn get(&self) -> *const Exec {
        self.0
    }
}
