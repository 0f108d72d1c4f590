//! Symbolic executor: one worker per thread, depth first, forking at feasible decisions.

use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(Rc<u128>),
    E(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one per byte (0 = concrete)
    pub constant: bool,
}

impl Obj {
    fn size(&self) -> u64 {
        self.data.len() as u64
    }
}

const HEAP: u64 = 0x0100_0000;
const STACK: u64 = 0x4000_0000;
const CH: usize = 64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    B(bool),
    I(bool),
    Eq(u64),
    EqI(u64),
    Ne(u64),
    /// the branch was merged (its region has no side effects) and left for this block, the
    /// n-th group going there; was it the only possible one?
    M(u32, u32, bool),
}

/// One way out of a region without side effects.
struct Leaf {
    cond: E,
    to: u32,
    ov: Vec<(u32, V, u32)>,
}
struct Walk {
    path: Vec<u32>,
    ov: Vec<(u32, V, u32)>,
    out: Vec<Leaf>,
    budget: u32,
}

#[derive(Clone)]
struct Frame {
    f: usize,
    body: &'static Body,
    b: u32,
    ip: u32,
    regs: Vec<V>,
    sp: usize,
    dst: Option<u32>,
    edge: Option<&'static Edge>,
}

type Chunk = Rc<Vec<Option<Rc<Obj>>>>;

#[derive(Clone)]
pub struct State {
    entry: usize,
    frames: Vec<Frame>,
    glob: Rc<Vec<Rc<Obj>>>,
    heap: Vec<Chunk>,
    heap_n: usize,
    heap_live: usize,
    stack: Vec<Rc<Obj>>,
    pc: Vec<E>,
    model: Rc<Vec<u8>>,
    model_id: u64,
    nvars: u32,
    trail: Vec<T>,
    replay: VecDeque<T>,
    ins_trail: usize,
    ins_pc: usize,
    nins: u64,
    trace: Rc<Vec<V>>,
    panic_ok: bool,
    panic_known: Option<Rc<String>>,
    reach: Rc<Vec<String>>,
    var_ok: bool,
}

#[derive(Clone)]
pub struct Task {
    pub entry: usize,
    pub trail: Vec<T>,
    pub model: Vec<u8>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Assume,
    Known(String),
    PanicOk(String),
    Fail(String),
    Incon(String),
}

type R<X> = Result<X, Stop>;

#[derive(Default, Clone)]
pub struct Failure {
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

#[derive(Clone)]
pub struct Sample {
    pub kind: &'static str,
    pub input: Vec<u8>,
    pub trace: u64,
}

#[derive(Default)]
pub struct EntryRes {
    pub name: String,
    pub paths: u64,
    pub done: u64,
    pub assumed: u64,
    pub panics_ok: u64,
    pub forks: u64,
    pub steps: u64,
    pub decisions: u64,
    pub wayfinder_decisions: u64,
    pub max_pc: usize,
    pub max_vars: u32,
    pub failures: Vec<Failure>,
    pub nfail: u64,
    pub incon: Vec<Failure>,
    pub nincon: u64,
    pub known: BTreeMap<String, (u64, Vec<u8>)>,
    pub reach: BTreeMap<String, (u64, Vec<u8>)>,
    pub samples: Vec<Sample>,
    pub funcs: Vec<bool>,
    pub wall: f64,
    pub stopped: bool,
}

pub struct Shared {
    pub module: &'static Module,
    pub handlers: Vec<H>,
    pub queue: Mutex<(VecDeque<Task>, usize)>, // tasks, busy workers
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub results: Vec<Mutex<EntryRes>>,
    pub deadline: Instant,
    pub stop: AtomicBool,
    pub max_ins: u64,
    pub max_fail: u64,
    /// join branches without side effects; widest value to join
    pub merge: bool,
    pub merge_w: u32,
    pub params: Vec<u64>,
    pub nsamples: usize,
    pub seed: u64,
    pub trace_fn: bool,
    pub stats: Mutex<Stats>,
    pub lead_len: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub folded: u64,
    pub merged: u64,
    pub solver_ns: u64,
    pub exprs: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum H {
    None,
    Def,
    /// defined, and formats the integer (of so many bits) its first argument points to
    DefInt(u32),
    /// replaced by this function of the harness
    To(usize),
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    PanicFmt,
    Abort,
    SymBytes,
    SymU8,
    SymChoose,
    SymAssume,
    SymFail,
    SymReach,
    SymKnown,
    SymPanicOk,
    SymPanicKnown,
    SymTrace,
    SymConcrete,
    SymParam,
    SymEnd,
    SymIsEngine,
    SymInit,
    SymDecide,
    Zero,
    Getrandom,
    Intr(I),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum I {
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    CtPop,
    CtLz,
    CtTz,
    BSwap,
    FShl,
    FShr,
    Abs,
    First,
    IsConst,
    PtrMask,
    UCmp,
    SCmp,
    RedOr,
    RedAnd,
    RedAdd,
    RedUMax,
    RedUMin,
    RedXor,
    Bitrev,
    SAddSat,
    SSubSat,
    LoadRel,
}

pub fn handler(name: &str, def: bool) -> H {
    if name.contains("9panicking9panic_fmt")
        || name.contains("9panicking18panic_nounwind_fmt")
        || name.contains("9panicking14panic_nounwind")
        || name.contains("9panicking19panic_cannot_unwind")
        || name.contains("rust_begin_unwind")
        || name.contains("begin_panic_handler")
        || name.contains("9panicking11begin_panic")
        || name.contains("alloc7raw_vec12handle_error")
        || name.contains("18handle_alloc_error")
    {
        return H::PanicFmt;
    }
    match name {
        "malloc" => return H::Malloc,
        "calloc" => return H::Calloc,
        "realloc" => return H::Realloc,
        "free" => return H::Free,
        "posix_memalign" => return H::Memalign,
        "memcpy" | "memmove" => return H::Memcpy,
        "memset" => return H::Memset,
        "memcmp" => return H::Memcmp,
        "bcmp" => return H::Bcmp,
        "strlen" => return H::Strlen,
        "abort" => return H::Abort,
        "sym_bytes" => return H::SymBytes,
        "sym_u8" => return H::SymU8,
        "sym_choose" => return H::SymChoose,
        "sym_assume" => return H::SymAssume,
        "sym_fail" => return H::SymFail,
        "sym_reach" => return H::SymReach,
        "sym_known" => return H::SymKnown,
        "sym_panic_ok" => return H::SymPanicOk,
        "sym_panic_known" => return H::SymPanicKnown,
        "sym_trace" => return H::SymTrace,
        "sym_concrete" => return H::SymConcrete,
        "sym_param" => return H::SymParam,
        "sym_end" => return H::SymEnd,
        "sym_is_engine" => return H::SymIsEngine,
        "sym_init" => return H::SymInit,
        "sym_decide" => return H::SymDecide,
        _ => {}
    }
    if def {
        if let Some(i) = name.find("3num3imp") {
            let t = &name[i + 8..];
            if t.contains("7Display3fmt") {
                let bits = match t.as_bytes()[0] {
                    b'h' | b'a' => 8,
                    b't' | b's' => 16,
                    b'm' | b'l' => 32,
                    b'j' | b'y' | b'i' | b'x' => 64,
                    _ => return H::Def,
                };
                return H::DefInt(bits);
            }
        }
        return H::Def;
    }
    if let Some(n) = name.strip_prefix("llvm.") {
        let i = if n.starts_with("memcpy") || n.starts_with("memmove") {
            return H::Memcpy;
        } else if n.starts_with("memset") {
            return H::Memset;
        } else if n.starts_with("trap") || n.starts_with("ubsantrap") || n.starts_with("debugtrap") {
            return H::Abort;
        } else if n.starts_with("va_") {
            return H::None;
        } else if n.starts_with("stackrestore") || n.starts_with("stacksave") {
            return H::Zero;
        } else if n.starts_with("umin") {
            I::UMin
        } else if n.starts_with("umax") {
            I::UMax
        } else if n.starts_with("smin") {
            I::SMin
        } else if n.starts_with("smax") {
            I::SMax
        } else if n.starts_with("uadd.sat") {
            I::UAddSat
        } else if n.starts_with("usub.sat") {
            I::USubSat
        } else if n.starts_with("sadd.sat") {
            I::SAddSat
        } else if n.starts_with("ssub.sat") {
            I::SSubSat
        } else if n.starts_with("uadd.with") {
            I::UAddO
        } else if n.starts_with("usub.with") {
            I::USubO
        } else if n.starts_with("umul.with") {
            I::UMulO
        } else if n.starts_with("sadd.with") {
            I::SAddO
        } else if n.starts_with("ssub.with") {
            I::SSubO
        } else if n.starts_with("smul.with") {
            I::SMulO
        } else if n.starts_with("ctpop") {
            I::CtPop
        } else if n.starts_with("ctlz") {
            I::CtLz
        } else if n.starts_with("cttz") {
            I::CtTz
        } else if n.starts_with("bswap") {
            I::BSwap
        } else if n.starts_with("bitreverse") {
            I::Bitrev
        } else if n.starts_with("fshl") {
            I::FShl
        } else if n.starts_with("fshr") {
            I::FShr
        } else if n.starts_with("abs") {
            I::Abs
        } else if n.starts_with("expect") || n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("strip") {
            I::First
        } else if n.starts_with("is.constant") {
            I::IsConst
        } else if n.starts_with("ptrmask") {
            I::PtrMask
        } else if n.starts_with("ucmp") {
            I::UCmp
        } else if n.starts_with("scmp") {
            I::SCmp
        } else if n.starts_with("vector.reduce.or") {
            I::RedOr
        } else if n.starts_with("vector.reduce.and") {
            I::RedAnd
        } else if n.starts_with("vector.reduce.add") {
            I::RedAdd
        } else if n.starts_with("vector.reduce.xor") {
            I::RedXor
        } else if n.starts_with("vector.reduce.umax") {
            I::RedUMax
        } else if n.starts_with("vector.reduce.umin") {
            I::RedUMin
        } else if n.starts_with("load.relative") {
            I::LoadRel
        } else {
            return H::None;
        };
        return H::Intr(i);
    }
    match name {
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "getenv" | "pthread_key_delete" | "atexit" | "pthread_mutex_lock"
        | "pthread_mutex_unlock" | "sched_yield" => H::Zero,
        "getrandom" => H::Getrandom,
        _ => H::None,
    }
}

#[derive(Clone)]
enum CR {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
}

pub struct Worker<'s> {
    sh: &'s Shared,
    p: Pool,
    z: Z3,
    cache: FxMap<Box<[E]>, CR>,
    memo1: FxMap<E, E>,
    glob0: Rc<Vec<Rc<Obj>>>,
    pending: Vec<State>,
    model_ids: u64,
    cur_model: u64,
    funcs: Vec<bool>,
    st: Stats,
    local: Local,
}

#[derive(Default)]
struct Local {
    forks: u64,
    decisions: u64,
    wf_decisions: u64,
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

fn s64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl<'s> Worker<'s> {
    pub fn new(sh: &'s Shared) -> Worker<'s> {
        let glob0 = Rc::new(
            sh.module
                .globals
                .iter()
                .map(|g| Rc::new(Obj { data: g.data.clone(), sym: vec![], constant: g.constant }))
                .collect::<Vec<_>>(),
        );
        Worker {
            sh,
            p: Pool::new(),
            z: Z3::new(20_000_000),
            cache: Default::default(),
            memo1: Default::default(),
            glob0,
            pending: vec![],
            model_ids: 1,
            cur_model: 0,
            funcs: vec![false; sh.module.funcs.len()],
            st: Stats::default(),
            local: Local::default(),
        }
    }

    // ---------- values ----------
    fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => self.p.konst(*k as u128, w),
            V::W(k) => self.p.konst(**k, w),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, e: E) -> V {
        match self.p.k(e) {
            Some(k) => {
                if self.p.w(e) <= 64 {
                    V::C(k as u64)
                } else {
                    V::W(Rc::new(k))
                }
            }
            None => V::E(e),
        }
    }
    fn kv(k: &K) -> V {
        match k {
            K::Int(v) => V::C(*v),
            K::Wide(_, v) => V::W(Rc::new(*v)),
            K::Agg(v) => V::A(Rc::new(v.iter().map(Self::kv).collect())),
        }
    }
    fn op(st: &State, o: &Op) -> V {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(k) => Self::kv(k),
        }
    }

    fn eval(&mut self, st: &State, e: E) -> u128 {
        if self.cur_model != st.model_id {
            self.p.new_model();
            self.cur_model = st.model_id;
        }
        self.p.eval(e, &st.model)
    }

    // ---------- decisions ----------
    /// Is pc && c satisfiable?  Only the constraints that share variables with c matter,
    /// because the state's model already satisfies the whole pc.
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Vec<(u32, u8)>>>> {
        if c == 0 {
            return Ok(None);
        }
        let mut vs = self.p.vs[c as usize];
        let mut sel: Vec<E> = vec![c];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.pc.iter().enumerate().rev() {
                if used[i] {
                    continue;
                }
                let v = &self.p.vs[*e as usize];
                if v.iter().zip(vs.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true;
                    sel.push(*e);
                    for j in 0..vs.len() {
                        if v[j] & !vs[j] != 0 {
                            ch = true;
                            vs[j] |= v[j];
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let nc = self.p.not(c);
        if sel[1..].contains(&nc) {
            self.st.folded += 1;
            return Ok(None);
        }
        // Canonical names for the variables, so that the same question about other bytes is
        // the same query.
        let mut names: Vec<u32> = vec![];
        for (j, w) in vs.iter().enumerate() {
            let mut x = *w;
            while x != 0 {
                names.push(j as u32 * 64 + x.trailing_zeros());
                x &= x - 1;
            }
        }
        if names.iter().enumerate().any(|(i, v)| i as u32 != *v) {
            let map: FxMap<u32, u32> = names.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect();
            if names.len() == 1 {
                let mut memo = std::mem::take(&mut self.memo1);
                for e in sel.iter_mut() {
                    *e = self.p.rename(*e, &map, &mut memo);
                }
                self.memo1 = memo;
            } else {
                let mut memo = Default::default();
                for e in sel.iter_mut() {
                    *e = self.p.rename(*e, &map, &mut memo);
                }
            }
        }
        let mut kvs: VSet = [0; MAXV / 64];
        for i in 0..names.len() {
            kvs[i / 64] |= 1 << (i % 64);
        }
        let back = |m: &Rc<Vec<(u32, u8)>>| Rc::new(m.iter().map(|(i, b)| (names[*i as usize], *b)).collect::<Vec<_>>());
        sel.sort_unstable();
        sel.dedup();
        let key: Box<[E]> = sel.into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(match r {
                CR::Sat(m) => Some(back(m)),
                CR::Unsat => None,
            });
        }
        let r = match self.z.check(&self.p, &key, &kvs) {
            Res::Sat(m) => {
                self.st.sat += 1;
                let m = Rc::new(m);
                let b = back(&m);
                self.cache.insert(key, CR::Sat(m));
                Some(b)
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, CR::Unsat);
                None
            }
            Res::Unknown => return Err(Stop::Incon("solver gave up (unknown)".into())),
        };
        Ok(r)
    }

    fn upd_model(&mut self, st: &mut State, m: &[(u32, u8)]) {
        let mut v = (*st.model).clone();
        for (i, b) in m {
            if v.len() <= *i as usize {
                v.resize(*i as usize + 1, 0);
            }
            v[*i as usize] = *b;
        }
        st.model = Rc::new(v);
        self.model_ids += 1;
        st.model_id = self.model_ids;
    }

    fn add_pc(&self, st: &mut State, e: E) {
        if e == 1 {
            return;
        }
        let n = self.p.node(e);
        if n.op == O::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        st.pc.push(e);
    }

    fn fork(&mut self, st: &State, t: T, m: &[(u32, u8)]) {
        let mut s2 = st.clone();
        let mut rp: VecDeque<T> = s2.trail[s2.ins_trail..].iter().cloned().collect();
        rp.push_back(t);
        s2.trail.truncate(s2.ins_trail);
        s2.pc.truncate(s2.ins_pc);
        debug_assert!(s2.replay.is_empty());
        s2.replay = rp;
        self.upd_model(&mut s2, m);
        self.local.forks += 1;
        if self.sh.trace_fn {
            let f = st.frames.last().unwrap();
            let up = if st.frames.len() > 1 { demangle(&self.sh.module.funcs[st.frames[st.frames.len() - 2].f].name) } else { String::new() };
            let up2 = if st.frames.len() > 2 { demangle(&self.sh.module.funcs[st.frames[st.frames.len() - 3].f].name) } else { String::new() };
            eprintln!("FORK {} b{}:{} < {} < {}", demangle(&self.sh.module.funcs[f.f].name), f.b, f.ip, up, up2);
        }
        self.pending.push(s2);
    }

    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if c <= 1 {
            return Ok(c == 1);
        }
        if let Some(t) = st.replay.pop_front() {
            st.trail.push(t);
            return match t {
                T::B(b) => {
                    let e = if b { c } else { self.p.not(c) };
                    self.add_pc(st, e);
                    Ok(b)
                }
                T::I(b) => Ok(b),
                _ => Err(Stop::Incon("replay mismatch".into())),
            };
        }
        self.local.decisions += 1;
        let v = self.eval(st, c) == 1;
        // fixed by truth values already decided on this path?
        if self.p.fixed_by(c, &st.pc, &mut 64) {
            self.st.folded += 1;
            st.trail.push(T::I(v));
            return Ok(v);
        }
        let nc = self.p.not(c);
        let (take, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(st, other)? {
            Some(m) => {
                self.fork(st, T::B(!v), &m);
                st.trail.push(T::B(v));
                self.add_pc(st, take);
            }
            None => st.trail.push(T::I(v)),
        }
        Ok(v)
    }

    /// A comparison of one symbolic byte that the path has settled becomes a constant, so
    /// that code without branches does not pile up what is already known.
    fn fold1(&mut self, st: &State, v: V) -> R<V> {
        let e = match &v {
            V::E(e) => *e,
            _ => return Ok(v),
        };
        if self.p.vs[e as usize].iter().map(|x| x.count_ones()).sum::<u32>() != 1 {
            return Ok(v);
        }
        let t = self.eval(st, e) == 1;
        let o = if t { self.p.not(e) } else { e };
        if self.feasible(st, o)?.is_none() {
            return Ok(V::C(t as u64));
        }
        Ok(v)
    }

    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::W(k) => return Ok(**k as u64),
            V::E(e) => *e,
            V::A(_) => return Err(Stop::Incon("concretize aggregate".into())),
        };
        loop {
            if let Some(t) = st.replay.pop_front() {
                st.trail.push(t);
                match t {
                    T::Eq(k) => {
                        let kk = self.p.konst(k as u128, w);
                        let c = self.p.eq(e, kk);
                        self.add_pc(st, c);
                        return Ok(k);
                    }
                    T::EqI(k) => return Ok(k),
                    T::Ne(k) => {
                        let kk = self.p.konst(k as u128, w);
                        let c = self.p.eq(e, kk);
                        let n = self.p.not(c);
                        self.add_pc(st, n);
                        continue;
                    }
                    _ => return Err(Stop::Incon("replay mismatch".into())),
                }
            }
            self.local.decisions += 1;
            let k = self.eval(st, e) as u64;
            if self.p.fixed_by(e, &st.pc, &mut 64) {
                self.st.folded += 1;
                st.trail.push(T::EqI(k));
                return Ok(k);
            }
            let kk = self.p.konst(k as u128, w);
            let c = self.p.eq(e, kk);
            let n = self.p.not(c);
            match self.feasible(st, n)? {
                Some(m) => {
                    self.fork(st, T::Ne(k), &m);
                    st.trail.push(T::Eq(k));
                    self.add_pc(st, c);
                }
                None => st.trail.push(T::EqI(k)),
            }
            return Ok(k);
        }
    }

    /// Concretize by fixing every symbolic byte the value depends on.
    fn concretize_vars(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        if let V::E(e) = v {
            let vs = self.p.vs[*e as usize];
            for (j, x) in vs.iter().enumerate() {
                let mut x = *x;
                while x != 0 {
                    let i = j as u32 * 64 + x.trailing_zeros();
                    x &= x - 1;
                    let var = self.p.var(i);
                    self.concretize(st, &V::E(var), 8)?;
                }
            }
        }
        self.concretize(st, v, w)
    }

    // ---------- memory ----------
    fn obj<'a>(&self, st: &'a State, id: u64) -> Option<&'a Rc<Obj>> {
        if id >= STACK {
            st.stack.get((id - STACK) as usize)
        } else if id >= HEAP {
            let i = (id - HEAP) as usize;
            st.heap.get(i / CH)?.get(i % CH)?.as_ref()
        } else if id >= 1 {
            st.glob.get(id as usize - 1)
        } else {
            None
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        if id >= STACK {
            st.stack.get_mut((id - STACK) as usize).map(Rc::make_mut)
        } else if id >= HEAP {
            let i = (id - HEAP) as usize;
            let c = Rc::make_mut(st.heap.get_mut(i / CH)?);
            c.get_mut(i % CH)?.as_mut().map(Rc::make_mut)
        } else if id >= 1 {
            let g = Rc::make_mut(&mut st.glob);
            g.get_mut(id as usize - 1).map(Rc::make_mut)
        } else {
            None
        }
    }
    fn resolve(&self, st: &State, a: u64, n: u64) -> R<(u64, u64)> {
        let id = a >> 32;
        let off = a & 0xffff_ffff;
        match self.obj(st, id) {
            Some(o) => {
                if off + n > o.size() {
                    Err(Stop::Fail(format!("memory access out of bounds (offset {} size {} of object of {} bytes)", off, n, o.size())))
                } else {
                    Ok((id, off))
                }
            }
            None => Err(Stop::Fail(format!("invalid memory access at {:#x}", a))),
        }
    }
    fn halloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 28 {
            return Err(Stop::Incon(format!("allocation of {} bytes", n)));
        }
        let o = Rc::new(Obj { data: vec![0; n as usize], sym: vec![], constant: false });
        let i = st.heap_n;
        st.heap_n += 1;
        st.heap_live += 1;
        if i / CH >= st.heap.len() {
            st.heap.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(st.heap.last_mut().unwrap()).push(Some(o));
        Ok((HEAP + i as u64) << 32)
    }
    fn hfree(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = a >> 32;
        if id < HEAP || id >= STACK || a & 0xffff_ffff != 0 || self.obj(st, id).is_none() {
            return Err(Stop::Fail(format!("invalid free of {:#x}", a)));
        }
        let i = (id - HEAP) as usize;
        Rc::make_mut(&mut st.heap[i / CH])[i % CH] = None;
        st.heap_live -= 1;
        Ok(())
    }

    fn byte(&self, o: &Obj, i: u64) -> Result<u8, E> {
        if !o.sym.is_empty() && o.sym[i as usize] != 0 {
            Err(o.sym[i as usize])
        } else {
            Ok(o.data[i as usize])
        }
    }

    fn load_int(&mut self, st: &State, id: u64, off: u64, bits: u32) -> V {
        let n = ((bits + 7) / 8) as usize;
        let o = self.obj(st, id).unwrap();
        let off = off as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == 0) {
            if n <= 8 {
                let mut v = 0u64;
                for i in (0..n).rev() {
                    v = v << 8 | o.data[off + i] as u64;
                }
                return V::C(v & m64(bits));
            }
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | o.data[off + i] as u128;
            }
            return V::W(Rc::new(v & mask(bits)));
        }
        let o = o.clone();
        let mut r: Option<E> = None;
        for i in 0..n {
            let b = match self.byte(&o, (off + i) as u64) {
                Ok(k) => self.p.konst(k as u128, 8),
                Err(e) => e,
            };
            r = Some(match r {
                None => b,
                Some(l) => self.p.concat(b, l),
            });
        }
        let mut r = r.unwrap();
        if bits % 8 != 0 {
            r = self.p.extract(r, 0, bits);
        }
        self.val(r)
    }

    fn load(&mut self, st: &State, id: u64, off: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(w) if *w <= 128 => Ok(self.load_int(st, id, off, *w)),
            Ty::Ptr => Ok(self.load_int(st, id, off, 64)),
            Ty::Float(w) => Ok(self.load_int(st, id, off, *w)),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let it = Ty::Int(*n as u32 * e.bits());
                let v = self.load(st, id, off, &it)?;
                self.vcast(Cast::Bit, &it, t, &v)
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let mut v = vec![];
                for i in 0..t.count() {
                    v.push(self.load(st, id, off + t.field_offset(i), t.elem(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Incon(format!("load of {:?}", t))),
        }
    }

    fn store(&mut self, st: &mut State, id: u64, off: u64, t: &Ty, v: &V) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let bits = t.bits();
                if bits > 128 {
                    return Err(Stop::Incon("wide store".into()));
                }
                let n = ((bits + 7) / 8) as usize;
                let off = off as usize;
                match v {
                    V::C(k) => {
                        let o = self.obj_mut(st, id).unwrap();
                        for i in 0..n {
                            o.data[off + i] = if i < 8 { (*k >> (8 * i)) as u8 } else { 0 };
                        }
                        if !o.sym.is_empty() {
                            for i in 0..n {
                                o.sym[off + i] = 0;
                            }
                        }
                    }
                    V::W(k) => {
                        let o = self.obj_mut(st, id).unwrap();
                        for i in 0..n {
                            o.data[off + i] = (**k >> (8 * i)) as u8;
                        }
                        if !o.sym.is_empty() {
                            for i in 0..n {
                                o.sym[off + i] = 0;
                            }
                        }
                    }
                    V::E(e) => {
                        let mut e = *e;
                        if bits % 8 != 0 {
                            e = self.p.zext(e, n as u32 * 8);
                        }
                        let bs: Vec<E> = (0..n).map(|i| self.p.extract(e, 8 * i as u32, 8)).collect();
                        for (i, b) in bs.iter().enumerate() {
                            self.put_byte(st, id, (off + i) as u64, *b);
                        }
                    }
                    V::A(_) => return Err(Stop::Incon("store aggregate as scalar".into())),
                }
                Ok(())
            }
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let it = Ty::Int(*n as u32 * e.bits());
                let k = self.vcast(Cast::Bit, t, &it, v)?;
                self.store(st, id, off, &it, &k)
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store(st, id, off + t.field_offset(i), t.elem(i), x)?;
                    }
                    Ok(())
                } else {
                    Err(Stop::Incon("store scalar as aggregate".into()))
                }
            }
            _ => Err(Stop::Incon(format!("store of {:?}", t))),
        }
    }
    fn put_byte(&mut self, st: &mut State, id: u64, i: u64, e: E) {
        let k = self.p.k(e);
        let o = self.obj_mut(st, id).unwrap();
        match k {
            Some(k) => {
                o.data[i as usize] = k as u8;
                if !o.sym.is_empty() {
                    o.sym[i as usize] = 0;
                }
            }
            None => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[i as usize] = e;
            }
        }
    }
    /// a byte of memory as expression
    fn get_byte(&mut self, st: &State, id: u64, i: u64) -> E {
        let o = self.obj(st, id).unwrap();
        match self.byte(o, i) {
            Ok(k) => self.p.konst(k as u128, 8),
            Err(e) => e,
        }
    }

    fn load_addr(&mut self, st: &mut State, a: &V, t: &Ty) -> R<V> {
        let n = t.store_size();
        match a {
            V::C(k) => {
                if n == 0 {
                    return self.zero_val(t);
                }
                let (id, off) = self.resolve(st, *k, n)?;
                self.load(st, id, off, t)
            }
            V::E(e) => {
                // An offset made of a few truth values: decide those rather than build a table.
                if let Some(l) = self.p.leaves(*e, 3) {
                    for x in l {
                        self.decide(st, x)?;
                    }
                    let k = self.concretize(st, a, 64)?;
                    return self.load_addr(st, &V::C(k), t);
                }
                let nd = self.p.node(*e);
                let scalar = matches!(t, Ty::Int(_) | Ty::Ptr);
                if scalar && nd.op == O::Add && self.p.k(nd.b).is_some() {
                    let k = self.p.k(nd.b).unwrap() as u64;
                    let id = k.wrapping_add(0x8000_0000) >> 32;
                    let off0 = k.wrapping_sub(id << 32);
                    if let Some(o) = self.obj(st, id).cloned() {
                        let size = o.size();
                        if size >= n && size <= 4096 {
                            let k0 = self.p.konst(off0 as u128, 64);
                            let off = self.p.bin(O::Add, nd.a, k0);
                            let lim = self.p.konst((size - n + 1) as u128, 64);
                            let c = self.p.ult(off, lim);
                            // would the table be acceptable?
                            let step = self.stride(nd.a).min(n.next_power_of_two().max(1));
                            let step = if step == 0 { 1 } else { step };
                            let mut runs: Vec<(u64, V)> = vec![];
                            let start = off0 % step;
                            let mut i = start;
                            let mut ok = true;
                            let mut last: Option<V> = None;
                            while i + n <= size {
                                let v = self.load(st, id, i, t)?;
                                let same = match (&last, &v) {
                                    (Some(V::C(a)), V::C(b)) => a == b,
                                    (Some(V::E(a)), V::E(b)) => a == b,
                                    _ => false,
                                };
                                if !same {
                                    runs.push((i, v.clone()));
                                    if runs.len() > 96 {
                                        ok = false;
                                        break;
                                    }
                                }
                                last = Some(v);
                                i += step;
                            }
                            if ok && !runs.is_empty() && !matches!(t, Ty::Ptr) {
                                if !self.decide(st, c)? {
                                    return Err(Stop::Fail("memory access out of bounds (symbolic offset)".into()));
                                }
                                let w = t.bits();
                                let mut r = {
                                    let v = runs.last().unwrap().1.clone();
                                    self.ex(&v, w)
                                };
                                for j in (0..runs.len() - 1).rev() {
                                    let b = self.p.konst(runs[j + 1].0 as u128, 64);
                                    let c = self.p.ult(off, b);
                                    let v = runs[j].1.clone();
                                    let x = self.ex(&v, w);
                                    r = self.p.ite(c, x, r);
                                }
                                return Ok(self.val(r));
                            }
                        }
                    }
                }
                let k = self.concretize(st, a, 64)?;
                self.load_addr(st, &V::C(k), t)
            }
            _ => Err(Stop::Incon("address".into())),
        }
    }
    fn stride(&self, e: E) -> u64 {
        let n = self.p.node(e);
        match n.op {
            O::Concat => {
                if self.p.k(n.b) == Some(0) {
                    1u64 << self.p.w(n.b).min(12)
                } else {
                    1
                }
            }
            O::ZExt | O::SExt => self.stride(n.a),
            O::Ite => self.stride(n.b).min(self.stride(n.c)),
            O::Const => {
                if n.k == 0 {
                    4096
                } else {
                    1u64 << n.k.trailing_zeros().min(12)
                }
            }
            O::Add => self.stride(n.a).min(self.stride(n.b)),
            _ => 1,
        }
    }
    fn zero_val(&self, t: &Ty) -> R<V> {
        Ok(Self::kv(&kzero(t)))
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(st, s, n)?;
        let (di, d_o) = self.resolve(st, d, n)?;
        let src = self.obj(st, si).unwrap().clone();
        let (so, d_o, n) = (so as usize, d_o as usize, n as usize);
        let dst = self.obj_mut(st, di).unwrap();
        if dst.constant {
            return Err(Stop::Fail("write to constant memory".into()));
        }
        dst.data[d_o..d_o + n].copy_from_slice(&src.data[so..so + n]);
        if !src.sym.is_empty() {
            if dst.sym.is_empty() {
                if src.sym[so..so + n].iter().any(|e| *e != 0) {
                    dst.sym = vec![0; dst.data.len()];
                    dst.sym[d_o..d_o + n].copy_from_slice(&src.sym[so..so + n]);
                }
            } else {
                dst.sym[d_o..d_o + n].copy_from_slice(&src.sym[so..so + n]);
            }
        } else if !dst.sym.is_empty() {
            for x in &mut dst.sym[d_o..d_o + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    fn read_concrete(&mut self, st: &State, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.resolve(st, a, n)?;
        let mut v = vec![];
        for i in 0..n {
            let e = self.get_byte(st, id, off + i);
            v.push(self.eval(st, e) as u8);
        }
        Ok(v)
    }

    // ---------- scalar operations ----------
    fn bin(&mut self, b: Bin, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::C(a), V::C(c)) = (x, y) {
            if w <= 64 {
                let (a, c) = (*a, *c);
                let r = match b {
                    Bin::Add => a.wrapping_add(c),
                    Bin::Sub => a.wrapping_sub(c),
                    Bin::Mul => a.wrapping_mul(c),
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                        if c == 0 {
                            return Err(Stop::Fail("division by zero (undefined)".into()));
                        }
                        match b {
                            Bin::UDiv => a / c,
                            Bin::URem => a % c,
                            Bin::SDiv => s64(a, w).wrapping_div(s64(c, w)) as u64,
                            _ => s64(a, w).wrapping_rem(s64(c, w)) as u64,
                        }
                    }
                    Bin::And => a & c,
                    Bin::Or => a | c,
                    Bin::Xor => a ^ c,
                    Bin::Shl => {
                        if c >= w as u64 {
                            0
                        } else {
                            a << c
                        }
                    }
                    Bin::LShr => {
                        if c >= w as u64 {
                            0
                        } else {
                            a >> c
                        }
                    }
                    Bin::AShr => (s64(a, w) >> c.min(w as u64 - 1)) as u64,
                };
                return Ok(V::C(r & m64(w)));
            }
        }
        if w > 128 {
            return Err(Stop::Incon("wide arithmetic".into()));
        }
        let a = self.ex(x, w);
        let c = self.ex(y, w);
        let o = match b {
            Bin::Add => O::Add,
            Bin::Sub => {
                let r = self.p.sub(a, c);
                return Ok(self.val(r));
            }
            Bin::Mul => O::Mul,
            Bin::UDiv => O::UDiv,
            Bin::SDiv => O::SDiv,
            Bin::URem => O::URem,
            Bin::SRem => O::SRem,
            Bin::And => O::And,
            Bin::Or => O::Or,
            Bin::Xor => O::Xor,
            Bin::Shl => O::Shl,
            Bin::LShr => O::LShr,
            Bin::AShr => O::AShr,
        };
        let r = self.p.bin(o, a, c);
        Ok(self.val(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => s64(a, w) < s64(b, w),
                Pred::Sle => s64(a, w) <= s64(b, w),
                Pred::Sgt => s64(a, w) > s64(b, w),
                Pred::Sge => s64(a, w) >= s64(b, w),
            };
            return V::C(r as u64);
        }
        let a = self.ex(x, w);
        let b = self.ex(y, w);
        let r = match p {
            Pred::Eq => self.p.eq(a, b),
            Pred::Ne => {
                let e = self.p.eq(a, b);
                self.p.not(e)
            }
            Pred::Ult => self.p.ult(a, b),
            Pred::Ule => self.p.ule(a, b),
            Pred::Ugt => self.p.ult(b, a),
            Pred::Uge => self.p.ule(b, a),
            Pred::Slt => self.p.slt(a, b),
            Pred::Sle => self.p.sle(a, b),
            Pred::Sgt => self.p.slt(b, a),
            Pred::Sge => self.p.sle(b, a),
        };
        self.val(r)
    }

    fn cast(&mut self, k: Cast, fw: u32, tw: u32, v: &V) -> V {
        if let V::C(a) = v {
            match k {
                Cast::Bit => return v.clone(),
                Cast::ZExt if tw <= 64 => return v.clone(),
                Cast::ZExt => return V::W(Rc::new(*a as u128)),
                Cast::Trunc => return V::C(a & m64(tw)),
                Cast::SExt if tw <= 64 => return V::C(s64(*a, fw) as u64 & m64(tw)),
                _ => {}
            }
        }
        let e = self.ex(v, fw);
        let r = match k {
            Cast::Bit => e,
            Cast::ZExt => self.p.zext(e, tw),
            Cast::SExt => self.p.sext(e, tw),
            Cast::Trunc => self.p.extract(e, 0, tw),
        };
        self.val(r)
    }

    fn lanes(v: &V) -> R<Rc<Vec<V>>> {
        match v {
            V::A(a) => Ok(a.clone()),
            _ => Err(Stop::Incon("vector expected".into())),
        }
    }

    fn vcast(&mut self, k: Cast, f: &Ty, t: &Ty, v: &V) -> R<V> {
        match (f, t, k) {
            (Ty::Vec(_, fe), Ty::Vec(_, te), Cast::ZExt) | (Ty::Vec(_, fe), Ty::Vec(_, te), Cast::SExt) | (Ty::Vec(_, fe), Ty::Vec(_, te), Cast::Trunc) => {
                let l = Self::lanes(v)?;
                Ok(V::A(Rc::new(l.iter().map(|x| self.cast(k, fe.bits(), te.bits(), x)).collect())))
            }
            _ => {
                // bitcast through one wide integer
                let total = match f {
                    Ty::Vec(n, e) => *n as u32 * e.bits(),
                    _ => f.bits(),
                };
                if total > 128 {
                    return Err(Stop::Incon("bitcast wider than 128 bits".into()));
                }
                let e = match f {
                    Ty::Vec(_, el) => {
                        let l = Self::lanes(v)?;
                        let mut r: Option<E> = None;
                        for x in l.iter() {
                            let b = self.ex(x, el.bits());
                            r = Some(match r {
                                None => b,
                                Some(lo) => self.p.concat(b, lo),
                            });
                        }
                        r.unwrap()
                    }
                    _ => self.ex(v, total),
                };
                match t {
                    Ty::Vec(n, el) => {
                        let w = el.bits();
                        let mut out = vec![];
                        for i in 0..*n as u32 {
                            let x = self.p.extract(e, i * w, w);
                            out.push(self.val(x));
                        }
                        Ok(V::A(Rc::new(out)))
                    }
                    _ => Ok(self.val(e)),
                }
            }
        }
    }

    // ---------- running ----------
    fn fresh(&mut self, t: &Task) -> State {
        self.model_ids += 1;
        State {
            entry: t.entry,
            frames: vec![],
            glob: self.glob0.clone(),
            heap: vec![],
            heap_n: 0,
            heap_live: 0,
            stack: vec![],
            pc: vec![],
            model: Rc::new(t.model.clone()),
            model_id: self.model_ids,
            nvars: 0,
            trail: vec![],
            replay: t.trail.iter().cloned().collect(),
            ins_trail: 0,
            ins_pc: 0,
            nins: 0,
            trace: Rc::new(vec![]),
            panic_ok: false,
            panic_known: None,
            reach: Rc::new(vec![]),
            var_ok: true,
        }
    }

    fn input(&self, st: &State) -> Vec<u8> {
        let mut v = (*st.model).clone();
        v.resize(st.nvars as usize, 0);
        v
    }

    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&self.sh.module.funcs[f.f].name)).collect()
    }

    fn finish(&mut self, mut st: State, r: Stop) {
        let res = &self.sh.results[st.entry];
        let input = self.input(&st);
        let trace = {
            let t = st.trace.clone();
            let mut h = 0xcbf29ce484222325u64;
            for v in t.iter() {
                let b = match v {
                    V::C(k) => *k as u8,
                    V::E(e) => self.eval(&st, *e) as u8,
                    _ => 0,
                };
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            h
        };
        let mut g = res.lock().unwrap();
        g.steps += st.nins;
        g.max_pc = g.max_pc.max(st.pc.len());
        g.max_vars = g.max_vars.max(st.nvars);
        g.forks += std::mem::take(&mut self.local.forks);
        g.decisions += std::mem::take(&mut self.local.decisions);
        g.wayfinder_decisions += std::mem::take(&mut self.local.wf_decisions);
        if !matches!(r, Stop::Assume) {
            g.paths += 1;
            for l in st.reach.iter() {
                let e = g.reach.entry(l.clone()).or_insert_with(|| (0, input.clone()));
                e.0 += 1;
            }
        }
        let kind: &'static str = match &r {
            Stop::Done => "ok",
            Stop::PanicOk(_) => "panic",
            Stop::Known(_) => "known",
            Stop::Fail(_) => "fail",
            Stop::Assume => "assume",
            Stop::Incon(_) => "incon",
        };
        match r {
            Stop::Done => g.done += 1,
            Stop::Assume => g.assumed += 1,
            Stop::PanicOk(_) => g.panics_ok += 1,
            Stop::Known(id) => {
                let e = g.known.entry(id).or_insert_with(|| (0, input.clone()));
                e.0 += 1;
            }
            Stop::Fail(msg) => {
                g.nfail += 1;
                if g.failures.len() < 16 && !g.failures.iter().any(|f| f.msg == msg) {
                    let stack = self.stack_names(&st);
                    g.failures.push(Failure { msg, input: input.clone(), stack });
                }
                if g.nfail >= self.sh.max_fail {
                    g.stopped = true;
                }
            }
            Stop::Incon(msg) => {
                g.nincon += 1;
                if g.incon.len() < 8 {
                    let stack = self.stack_names(&st);
                    g.incon.push(Failure { msg, input: input.clone(), stack });
                }
            }
        }
        if kind == "ok" || kind == "panic" || kind == "known" {
            // reservoir sample
            let n = g.paths;
            let mut x = self.sh.seed ^ n.wrapping_mul(0x9E3779B97F4A7C15);
            x ^= x >> 29;
            x = x.wrapping_mul(0xBF58476D1CE4E5B9);
            x ^= x >> 32;
            let s = Sample { kind, input, trace };
            if g.samples.len() < self.sh.nsamples {
                g.samples.push(s);
            } else if self.sh.nsamples > 0 {
                let j = (x % n) as usize;
                if j < g.samples.len() {
                    g.samples[j] = s;
                }
            }
        }
        drop(g);
        st.frames.clear();
    }

    pub fn run(&mut self) {
        loop {
            // get a task
            let task = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if let Some(t) = q.0.pop_front() {
                        q.1 += 1;
                        break Some(t);
                    }
                    if q.1 == 0 {
                        self.sh.cv.notify_all();
                        break None;
                    }
                    self.sh.idle.fetch_add(1, Ordering::SeqCst);
                    q = self.sh.cv.wait(q).unwrap();
                    self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            };
            let task = match task {
                None => break,
                Some(t) => t,
            };
            let entry = task.entry;
            let t0 = Instant::now();
            let name = self.sh.results[entry].lock().unwrap().name.clone();
            let fi = self.sh.module.fmap[&name];
            let mut st = self.fresh(&task);
            match self.push_frame(&mut st, fi, vec![], None, None) {
                Ok(()) => self.pending.push(st),
                Err(e) => self.finish(st, e),
            }
            while let Some(st) = self.pending.pop() {
                if self.sh.stop.load(Ordering::Relaxed) || Instant::now() > self.sh.deadline {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    let n = self.pending.len();
                    self.pending.clear();
                    self.finish(st, Stop::Incon(format!("time limit ({} pending)", n)));
                    break;
                }
                if self.sh.results[entry].lock().unwrap().stopped {
                    self.pending.clear();
                    break;
                }
                self.path(st);
            }
            {
                let mut g = self.sh.results[entry].lock().unwrap();
                g.wall += t0.elapsed().as_secs_f64();
                if g.funcs.is_empty() {
                    g.funcs = self.funcs.clone();
                } else {
                    for (i, f) in self.funcs.iter().enumerate() {
                        if *f {
                            g.funcs[i] = true;
                        }
                    }
                }
            }
            for f in self.funcs.iter_mut() {
                *f = false;
            }
            let mut q = self.sh.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 && q.0.is_empty() {
                self.sh.cv.notify_all();
            }
            drop(q);
            if self.p.len() > 4_000_000 {
                self.reset();
            }
        }
        let mut s = self.sh.stats.lock().unwrap();
        s.queries += self.z.queries;
        s.solver_ns += self.z.nanos;
        s.sat += self.st.sat;
        s.unsat += self.st.unsat;
        s.cache_hits += self.st.cache_hits;
        s.folded += self.st.folded;
        s.merged += self.st.merged;
        s.exprs += self.p.len() as u64;
    }

    fn reset(&mut self) {
        let (q, n) = (self.z.queries, self.z.nanos);
        self.p = Pool::new();
        self.z = Z3::new(20_000_000);
        self.z.queries = q;
        self.z.nanos = n;
        self.cache.clear();
        self.memo1.clear();
        self.cur_model = 0;
    }

    fn donate(&mut self) {
        if self.sh.idle.load(Ordering::Relaxed) > 0 && !self.pending.is_empty() {
            let s = self.pending.remove(0);
            let mut trail = s.trail;
            trail.extend(s.replay.iter().cloned());
            let t = Task { entry: s.entry, trail, model: (*s.model).clone() };
            let mut q = self.sh.queue.lock().unwrap();
            q.0.push_back(t);
            self.sh.cv.notify_one();
        }
    }

    fn path(&mut self, mut st: State) {
        let mut k = 0u32;
        loop {
            st.ins_trail = st.trail.len();
            st.ins_pc = st.pc.len();
            match self.step(&mut st) {
                Ok(()) => {}
                Err(e) => {
                    let e = match e {
                        Stop::Fail(m) if st.panic_ok && m.starts_with("panic") => Stop::PanicOk(m),
                        Stop::Fail(m) if st.panic_known.is_some() && m.starts_with("panic") => Stop::Known((**st.panic_known.as_ref().unwrap()).clone()),
                        e => e,
                    };
                    self.finish(st, e);
                    return;
                }
            }
            k += 1;
            if k & 0x3ff == 0 {
                self.donate();
                if k & 0xffff == 0 && (self.sh.stop.load(Ordering::Relaxed) || Instant::now() > self.sh.deadline) {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.finish(st, Stop::Incon("time limit".into()));
                    return;
                }
            }
            if st.nins > self.sh.max_ins {
                self.finish(st, Stop::Incon("instruction limit".into()));
                return;
            }
        }
    }

    fn push_frame(&mut self, st: &mut State, f: usize, args: Vec<V>, dst: Option<u32>, edge: Option<&'static Edge>) -> R<()> {
        let body = self.sh.module.body(f).ok_or_else(|| Stop::Incon(format!("no body for {}", self.sh.module.funcs[f].name)))?;
        self.funcs[f] = true;
        if st.frames.len() > 2000 {
            return Err(Stop::Fail("stack overflow (depth 2000)".into()));
        }
        if self.sh.trace_fn {
            eprintln!("{:width$}{}", "", demangle(&self.sh.module.funcs[f].name), width = st.frames.len());
        }
        let mut regs = args;
        if regs.len() < body.nparams {
            return Err(Stop::Incon("argument count".into()));
        }
        regs.truncate(body.nparams);
        regs.resize(body.nregs.max(body.nparams), V::C(0));
        let sp = st.stack.len();
        st.frames.push(Frame { f, body, b: 0, ip: 0, regs, sp, dst, edge });
        Ok(())
    }

    fn goto(st: &mut State, e: &'static Edge) {
        if e.phis.len() == 1 {
            let v = Self::op(st, &e.phis[0].1);
            st.frames.last_mut().unwrap().regs[e.phis[0].0 as usize] = v;
        } else if !e.phis.is_empty() {
            let vs: Vec<V> = e.phis.iter().map(|(_, o, _)| Self::op(st, o)).collect();
            let f = st.frames.last_mut().unwrap();
            for ((r, _, _), v) in e.phis.iter().zip(vs) {
                f.regs[*r as usize] = v;
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.b = e.to;
        f.ip = 0;
    }

    /// If-conversion.  The blocks behind a symbolic branch that only compute (no memory, no
    /// calls) are evaluated on every arm; arms that meet again are joined, their values
    /// becoming `ite`s.  True if the state was moved on.
    fn merge(&mut self, st: &mut State, c: E, ins: &'static Ins) -> R<bool> {
        if !self.sh.merge {
            return Ok(false);
        }
        let replay = match st.replay.front() {
            Some(T::M(..)) => true,
            Some(_) => return Ok(false),
            None => false,
        };
        let two = matches!(ins, Ins::CondBr(..));
        if !replay {
            if c <= 1 || self.p.fixed_by(c, &st.pc, &mut 64) {
                return Ok(false);
            }
        }
        let fr = st.frames.last().unwrap();
        let body = fr.body;
        let mut any = false;
        ins.edges(&mut |e: &Edge| any |= body.pure_block(e.to));
        if !any && !two {
            return Ok(false);
        }
        let mut w = Walk { path: vec![fr.b], ov: vec![], out: vec![], budget: 48 };
        self.walk_term(st, body, ins, 1, &mut w)?;
        let nleaves = w.out.len();
        let live = body.live_in();
        let mut groups: Vec<Leaf> = vec![];
        'next: for l in w.out {
            for g in groups.iter_mut() {
                if g.to == l.to && self.join(st, g, &l, &live[l.to as usize]) {
                    continue 'next;
                }
            }
            groups.push(l);
        }
        let label: Vec<(u32, u32)> = (0..groups.len()).map(|i| (groups[i].to, groups[..i].iter().filter(|g| g.to == groups[i].to).count() as u32)).collect();
        let pick;
        if replay {
            let t = st.replay.pop_front().unwrap();
            st.trail.push(t);
            let (to, nth, only) = match t {
                T::M(a, b, c) => (a, b, c),
                _ => unreachable!(),
            };
            pick = match label.iter().position(|l| *l == (to, nth)) {
                Some(p) => p,
                None => return Err(Stop::Incon("replay mismatch (merge)".into())),
            };
            if !only {
                self.add_pc(st, groups[pick].cond);
            }
        } else {
            if groups.len() == nleaves {
                return Ok(false);
            }
            if two {
                // one arm may be impossible: then there is nothing to merge
                let v = self.eval(st, c) == 1;
                let o = if v { self.p.not(c) } else { c };
                if self.feasible(st, o)?.is_none() {
                    return Ok(false);
                }
            }
            self.st.merged += 1;
            if groups.len() > 1 {
                self.local.decisions += 1;
            }
            pick = match (0..groups.len()).find(|i| self.eval(st, groups[*i].cond) == 1) {
                Some(p) => p,
                None => return Err(Stop::Incon("merge lost the model".into())),
            };
            let mut only = true;
            for i in 0..groups.len() {
                if i != pick {
                    if let Some(m) = self.feasible(st, groups[i].cond)? {
                        self.fork(st, T::M(label[i].0, label[i].1, false), &m);
                        only = false;
                    }
                }
            }
            st.trail.push(T::M(label[pick].0, label[pick].1, only));
            if !only {
                self.add_pc(st, groups[pick].cond);
            }
        }
        let g = groups.swap_remove(pick);
        let f = st.frames.last_mut().unwrap();
        for (r, v, _) in g.ov {
            f.regs[r as usize] = v;
        }
        f.b = g.to;
        f.ip = 0;
        Ok(true)
    }

    /// Put leaf `l` into `g` (same target): false if some value cannot be merged.
    fn join(&mut self, st: &State, g: &mut Leaf, l: &Leaf, live: &[u64]) -> bool {
        let f = st.frames.last().unwrap();
        let at = |ov: &Vec<(u32, V, u32)>, r: u32| -> (V, u32) {
            match ov.iter().rev().find(|x| x.0 == r) {
                Some(x) => (x.1.clone(), x.2),
                None => (f.regs[r as usize].clone(), 0),
            }
        };
        let mut rs: Vec<u32> = g.ov.iter().chain(l.ov.iter()).map(|x| x.0).filter(|r| live[*r as usize / 64] >> (r % 64) & 1 == 1).collect();
        rs.sort_unstable();
        rs.dedup();
        let mut out = vec![];
        for r in rs {
            let (a, wa) = at(&g.ov, r);
            let (b, wb) = at(&l.ov, r);
            let w = wa.max(wb);
            let same = match (&a, &b) {
                (V::C(x), V::C(y)) => x == y,
                (V::E(x), V::E(y)) => x == y,
                (V::W(x), V::W(y)) => x == y,
                (V::A(x), V::A(y)) => Rc::ptr_eq(x, y),
                _ => false,
            };
            if same {
                out.push((r, a, w));
                continue;
            }
            if w == 0 || w > self.sh.merge_w || !matches!(a, V::C(_) | V::E(_)) || !matches!(b, V::C(_) | V::E(_)) {
                return false;
            }
            let ea = self.ex(&a, w);
            let eb = self.ex(&b, w);
            let e = self.p.ite(l.cond, eb, ea);
            out.push((r, self.val(e), w));
        }
        g.ov = out;
        g.cond = self.p.or(g.cond, l.cond);
        true
    }

    fn wop(st: &State, w: &Walk, o: &Op) -> V {
        if let Op::Reg(r) = o {
            if let Some(x) = w.ov.iter().rev().find(|x| x.0 == *r) {
                return x.1.clone();
            }
        }
        Self::op(st, o)
    }

    fn walk_edge(&mut self, st: &State, body: &'static Body, e: &'static Edge, cond: E, w: &mut Walk) -> R<()> {
        if cond == 0 {
            return Ok(());
        }
        let n = w.ov.len();
        let vs: Vec<(u32, V, u32)> = e.phis.iter().map(|(r, o, t)| (*r, Self::wop(st, w, o), *t)).collect();
        w.ov.extend(vs);
        if !self.walk_block(st, body, e.to, cond, w)? {
            w.out.push(Leaf { cond, to: e.to, ov: w.ov.clone() });
        }
        w.ov.truncate(n);
        Ok(())
    }

    fn walk_block(&mut self, st: &State, body: &'static Body, b: u32, cond: E, w: &mut Walk) -> R<bool> {
        if !body.pure_block(b) || w.budget == 0 || w.path.len() > 12 || w.path.contains(&b) {
            return Ok(false);
        }
        w.budget -= 1;
        let n = w.ov.len();
        let blk: &'static Vec<Ins> = &body.blocks[b as usize];
        for ins in blk {
            let r = match ins {
                Ins::Nop => continue,
                Ins::Bin(o, bw, d, x, y) => {
                    let (x, y) = (Self::wop(st, w, x), Self::wop(st, w, y));
                    match self.bin(*o, *bw, &x, &y) {
                        Ok(v) => (*d, v, *bw),
                        Err(_) => {
                            w.ov.truncate(n);
                            return Ok(false);
                        }
                    }
                }
                Ins::ICmp(p, bw, d, x, y) => {
                    let (x, y) = (Self::wop(st, w, x), Self::wop(st, w, y));
                    (*d, self.icmp(*p, *bw, &x, &y), 1)
                }
                Ins::Cast(k, fw, tw, d, x) => {
                    let x = Self::wop(st, w, x);
                    (*d, self.cast(*k, *fw, *tw, &x), *tw)
                }
                Ins::Select(d, c, x, y, Ty::Int(t), false) => {
                    let (c, x, y) = (Self::wop(st, w, c), Self::wop(st, w, x), Self::wop(st, w, y));
                    let v = match &c {
                        V::C(1) => x,
                        V::C(_) => y,
                        _ => {
                            let ce = self.ex(&c, 1);
                            let a = self.ex(&x, *t);
                            let b = self.ex(&y, *t);
                            let r = self.p.ite(ce, a, b);
                            self.val(r)
                        }
                    };
                    (*d, v, *t)
                }
                Ins::Mov(d, x) => {
                    let v = Self::wop(st, w, x);
                    (*d, v, 0)
                }
                t => {
                    w.path.push(b);
                    self.walk_term(st, body, t, cond, w)?;
                    w.path.pop();
                    w.ov.truncate(n);
                    return Ok(true);
                }
            };
            w.ov.push(r);
        }
        unreachable!()
    }

    fn walk_term(&mut self, st: &State, body: &'static Body, t: &'static Ins, cond: E, w: &mut Walk) -> R<()> {
        match t {
            Ins::Br(e) => self.walk_edge(st, body, e, cond, w)?,
            Ins::CondBr(c, a, b) => {
                let c = Self::wop(st, w, c);
                let c = self.ex(&c, 1);
                if c <= 1 {
                    return self.walk_edge(st, body, if c == 1 { a } else { b }, cond, w);
                }
                let t = self.p.and(cond, c);
                let n = self.p.not(c);
                let f = self.p.and(cond, n);
                if cond != 1 {
                    // an arm that cannot be taken here would only add dead weight
                    if self.p.fixed_by(c, &st.pc, &mut 64) {
                        let v = self.eval(st, c) == 1;
                        return self.walk_edge(st, body, if v { a } else { b }, cond, w);
                    }
                    for (arm, e) in [(t, b), (f, a)] {
                        if self.eval(st, arm) == 0 && self.feasible(st, arm)?.is_none() {
                            return self.walk_edge(st, body, e, cond, w);
                        }
                    }
                }
                self.walk_edge(st, body, a, t, w)?;
                self.walk_edge(st, body, b, f, w)?;
            }
            Ins::Switch(v, bw, dft, cs) => {
                let v = Self::wop(st, w, v);
                if let V::C(k) = &v {
                    let e = cs.iter().find(|c| c.0 == *k).map(|c| &c.1).unwrap_or(dft);
                    return self.walk_edge(st, body, e, cond, w);
                }
                let e = self.ex(&v, *bw);
                let mut rest = cond;
                let mut done = vec![false; cs.len()];
                for i in 0..cs.len() {
                    if done[i] {
                        continue;
                    }
                    let mut c = 0;
                    for j in i..cs.len() {
                        if !done[j] && same_edge(&cs[i].1, &cs[j].1) {
                            done[j] = true;
                            let k = self.p.konst(cs[j].0 as u128, *bw);
                            let q = self.p.eq(e, k);
                            c = self.p.or(c, q);
                        }
                    }
                    let t = self.p.and(cond, c);
                    self.walk_edge(st, body, &cs[i].1, t, w)?;
                    let n = self.p.not(c);
                    rest = self.p.and(rest, n);
                }
                self.walk_edge(st, body, dft, rest, w)?;
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    fn set(st: &mut State, r: u32, v: V) {
        let f = st.frames.last_mut().unwrap();
        f.regs[r as usize] = v;
        f.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.nins += 1;
        let f = st.frames.last().unwrap();
        let body: &'static Body = f.body;
        let ins: &'static Ins = &body.blocks[f.b as usize][f.ip as usize];
        match ins {
            Ins::Bin(b, w, d, x, y) => {
                let (x, y) = (Self::op(st, x), Self::op(st, y));
                if matches!(b, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                    if let V::E(e) = &y {
                        let z = self.p.konst(0, *w);
                        let c = self.p.eq(*e, z);
                        if self.decide(st, c)? {
                            return Err(Stop::Fail("division by zero (undefined)".into()));
                        }
                    }
                }
                let r = self.bin(*b, *w, &x, &y)?;
                Self::set(st, *d, r);
            }
            Ins::VBin(b, w, d, x, y) => {
                let (x, y) = (Self::lanes(&Self::op(st, x))?, Self::lanes(&Self::op(st, y))?);
                let mut o = vec![];
                for (a, c) in x.iter().zip(y.iter()) {
                    o.push(self.bin(*b, *w, a, c)?);
                }
                Self::set(st, *d, V::A(Rc::new(o)));
            }
            Ins::ICmp(p, w, d, x, y) => {
                let (x, y) = (Self::op(st, x), Self::op(st, y));
                let r = self.icmp(*p, *w, &x, &y);
                let f = st.frames.last().unwrap();
                let r = match &f.body.blocks[f.b as usize].get(f.ip as usize + 1) {
                    Some(Ins::CondBr(Op::Reg(c), ..)) if c == d => r,
                    _ => self.fold1(st, r)?,
                };
                Self::set(st, *d, r);
            }
            Ins::VICmp(p, w, d, x, y) => {
                let (x, y) = (Self::lanes(&Self::op(st, x))?, Self::lanes(&Self::op(st, y))?);
                let mut o = vec![];
                for (a, c) in x.iter().zip(y.iter()) {
                    let r = self.icmp(*p, *w, a, c);
                    o.push(self.fold1(st, r)?);
                }
                Self::set(st, *d, V::A(Rc::new(o)));
            }
            Ins::Cast(k, fw, tw, d, x) => {
                let x = Self::op(st, x);
                let r = self.cast(*k, *fw, *tw, &x);
                Self::set(st, *d, r);
            }
            Ins::VCast(k, f, t, d, x) => {
                let x = Self::op(st, x);
                let r = self.vcast(*k, f, t, &x)?;
                Self::set(st, *d, r);
            }
            Ins::Select(d, c, x, y, t, vec) => {
                let (c, x, y) = (Self::op(st, c), Self::op(st, x), Self::op(st, y));
                let r = if *vec {
                    let cl = Self::lanes(&c)?;
                    let (xl, yl) = (Self::lanes(&x)?, Self::lanes(&y)?);
                    let w = t.elem(0).bits();
                    let mut o = vec![];
                    for i in 0..cl.len() {
                        o.push(match &cl[i] {
                            V::C(1) => xl[i].clone(),
                            V::C(_) => yl[i].clone(),
                            e => {
                                let ce = self.ex(e, 1);
                                let a = self.ex(&xl[i], w);
                                let b = self.ex(&yl[i], w);
                                let r = self.p.ite(ce, a, b);
                                self.val(r)
                            }
                        });
                    }
                    V::A(Rc::new(o))
                } else {
                    match &c {
                        V::C(k) => {
                            if *k == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        _ => {
                            let ce = self.ex(&c, 1);
                            if let (Ty::Int(w), true) = (t, !matches!((&x, &y), (V::A(_), _))) {
                                let a = self.ex(&x, *w);
                                let b = self.ex(&y, *w);
                                let r = self.p.ite(ce, a, b);
                                self.val(r)
                            } else if self.decide(st, ce)? {
                                x
                            } else {
                                y
                            }
                        }
                    }
                };
                Self::set(st, *d, r);
            }
            Ins::Alloca(d, size, cnt) => {
                let c = Self::op(st, cnt);
                let c = self.concretize(st, &c, 64)?;
                let a = (STACK + st.stack.len() as u64) << 32;
                st.stack.push(Rc::new(Obj { data: vec![0; (*size * c) as usize], sym: vec![], constant: false }));
                Self::set(st, *d, V::C(a));
            }
            Ins::Load(d, t, a) => {
                let a = Self::op(st, a);
                let v = self.load_addr(st, &a, t)?;
                Self::set(st, *d, v);
            }
            Ins::Store(t, v, a) => {
                let v = Self::op(st, v);
                let a = Self::op(st, a);
                let a = self.concretize(st, &a, 64)?;
                let n = t.store_size();
                if n > 0 {
                    let (id, off) = self.resolve(st, a, n)?;
                    if self.obj(st, id).unwrap().constant {
                        return Err(Stop::Fail("write to constant memory".into()));
                    }
                    self.store(st, id, off, t, &v)?;
                }
                st.frames.last_mut().unwrap().ip += 1;
            }
            Ins::Gep(d, base, off, dynv) => {
                let b = Self::op(st, base);
                let r = match &b {
                    V::C(k) => {
                        let mut acc = k.wrapping_add(*off as u64);
                        let mut sym: Option<E> = None;
                        for (sc, ix, w) in dynv {
                            let v = Self::op(st, ix);
                            match &v {
                                V::C(i) => acc = acc.wrapping_add((s64(*i, *w) as u64).wrapping_mul(*sc as u64)),
                                _ => {
                                    let e = self.ex(&v, *w);
                                    let e = self.p.sext(e, 64);
                                    let e = if *w > 64 { self.p.extract(e, 0, 64) } else { e };
                                    let s = self.p.konst(*sc as u64 as u128, 64);
                                    let m = self.p.bin(O::Mul, e, s);
                                    sym = Some(match sym {
                                        None => m,
                                        Some(x) => self.p.bin(O::Add, x, m),
                                    });
                                }
                            }
                        }
                        match sym {
                            None => V::C(acc),
                            Some(e) => {
                                let k = self.p.konst(acc as u128, 64);
                                let r = self.p.bin(O::Add, e, k);
                                self.val(r)
                            }
                        }
                    }
                    _ => {
                        let mut e = self.ex(&b, 64);
                        let o = self.p.konst(*off as u64 as u128, 64);
                        e = self.p.bin(O::Add, e, o);
                        for (sc, ix, w) in dynv {
                            let v = Self::op(st, ix);
                            let x = self.ex(&v, *w);
                            let x = self.p.sext(x, 64);
                            let s = self.p.konst(*sc as u64 as u128, 64);
                            let m = self.p.bin(O::Mul, x, s);
                            e = self.p.bin(O::Add, e, m);
                        }
                        self.val(e)
                    }
                };
                Self::set(st, *d, r);
            }
            Ins::ExtractValue(d, a, ix) => {
                let mut v = Self::op(st, a);
                for i in ix {
                    v = match &v {
                        V::A(l) => l[*i as usize].clone(),
                        _ => return Err(Stop::Incon("extractvalue".into())),
                    };
                }
                Self::set(st, *d, v);
            }
            Ins::InsertValue(d, a, b, ix) => {
                let v = Self::op(st, a);
                let x = Self::op(st, b);
                fn ins(v: V, ix: &[u32], x: V) -> R<V> {
                    if ix.is_empty() {
                        return Ok(x);
                    }
                    match v {
                        V::A(mut l) => {
                            let m = Rc::make_mut(&mut l);
                            let old = m[ix[0] as usize].clone();
                            m[ix[0] as usize] = ins(old, &ix[1..], x)?;
                            Ok(V::A(l))
                        }
                        _ => Err(Stop::Incon("insertvalue".into())),
                    }
                }
                let r = ins(v, ix, x)?;
                Self::set(st, *d, r);
            }
            Ins::ExtractElem(d, a, i) => {
                let l = Self::lanes(&Self::op(st, a))?;
                let i = Self::op(st, i);
                let i = self.concretize(st, &i, 64)?;
                Self::set(st, *d, l[i as usize].clone());
            }
            Ins::InsertElem(d, a, x, i) => {
                let l = Self::lanes(&Self::op(st, a))?;
                let x = Self::op(st, x);
                let i = Self::op(st, i);
                let i = self.concretize(st, &i, 64)?;
                let mut m = (*l).clone();
                m[i as usize] = x;
                Self::set(st, *d, V::A(Rc::new(m)));
            }
            Ins::Shuffle(d, a, b, m) => {
                let (x, y) = (Self::lanes(&Self::op(st, a))?, Self::lanes(&Self::op(st, b))?);
                let n = x.len();
                let o = m
                    .iter()
                    .map(|i| {
                        let i = (*i).max(0) as usize;
                        if i < n {
                            x[i].clone()
                        } else {
                            y[i - n].clone()
                        }
                    })
                    .collect();
                Self::set(st, *d, V::A(Rc::new(o)));
            }
            Ins::Mov(d, a) => {
                let v = Self::op(st, a);
                Self::set(st, *d, v);
            }
            Ins::Rmw(d, op, t, a, v) => {
                let a = Self::op(st, a);
                let a = self.concretize(st, &a, 64)?;
                let v = Self::op(st, v);
                let (id, off) = self.resolve(st, a, t.store_size())?;
                let old = self.load(st, id, off, t)?;
                let new = match op {
                    RmwOp::Xchg => v,
                    RmwOp::B(b) => self.bin(*b, t.bits(), &old, &v)?,
                    _ => return Err(Stop::Incon("atomicrmw".into())),
                };
                self.store(st, id, off, t, &new)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg(d, t, a, c, n) => {
                let a = Self::op(st, a);
                let a = self.concretize(st, &a, 64)?;
                let (c, n) = (Self::op(st, c), Self::op(st, n));
                let (id, off) = self.resolve(st, a, t.store_size())?;
                let old = self.load(st, id, off, t)?;
                let eq = self.icmp(Pred::Eq, t.bits(), &old, &c);
                let e = self.ex(&eq, 1);
                let ok = self.decide(st, e)?;
                if ok {
                    self.store(st, id, off, t, &n)?;
                }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            Ins::Br(e) => Self::goto(st, e),
            Ins::CondBr(c, a, b) => {
                let c = Self::op(st, c);
                let t = match &c {
                    V::C(k) => *k == 1,
                    _ => {
                        let e = self.ex(&c, 1);
                        if self.merge(st, e, ins)? {
                            return Ok(());
                        }
                        self.decide(st, e)?
                    }
                };
                Self::goto(st, if t { a } else { b });
            }
            Ins::Switch(v, w, dft, cs) => {
                let v = Self::op(st, v);
                match &v {
                    V::C(k) => {
                        let e = cs.iter().find(|c| c.0 == *k).map(|c| &c.1).unwrap_or(dft);
                        Self::goto(st, e);
                    }
                    _ => {
                        let e = self.ex(&v, *w);
                        if self.merge(st, e, ins)? {
                            return Ok(());
                        }
                        let mut done = vec![false; cs.len()];
                        let mut tgt = dft;
                        for i in 0..cs.len() {
                            if done[i] {
                                continue;
                            }
                            let mut c = 0;
                            for j in i..cs.len() {
                                if !done[j] && same_edge(&cs[i].1, &cs[j].1) {
                                    done[j] = true;
                                    let k = self.p.konst(cs[j].0 as u128, *w);
                                    let q = self.p.eq(e, k);
                                    c = self.p.or(c, q);
                                }
                            }
                            if self.decide(st, c)? {
                                tgt = &cs[i].1;
                                break;
                            }
                        }
                        Self::goto(st, tgt);
                    }
                }
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| Self::op(st, o));
                let f = st.frames.pop().unwrap();
                st.stack.truncate(f.sp);
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (f.dst, v) {
                    st.frames.last_mut().unwrap().regs[d as usize] = v;
                }
                match f.edge {
                    Some(e) => Self::goto(st, e),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
            }
            Ins::Unreachable => return Err(Stop::Fail("panic: unreachable reached".into())),
            Ins::Nop => st.frames.last_mut().unwrap().ip += 1,
            Ins::Unsupported(s) => return Err(Stop::Incon(format!("unsupported instruction {}", s.chars().take(160).collect::<String>()))),
            Ins::Call { dst, callee, args, ret, normal } => {
                let fi = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ind(o) => {
                        let a = Self::op(st, o);
                        let a = self.concretize(st, &a, 64)?;
                        let i = (a >> 32).wrapping_sub(FUNC_TAG);
                        if a & 0xffff_ffff != 0 || i as usize >= self.sh.module.funcs.len() {
                            return Err(Stop::Fail(format!("call through invalid pointer {:#x}", a)));
                        }
                        i as usize
                    }
                    Callee::Asm => return Err(Stop::Incon("asm".into())),
                };
                let av: Vec<V> = args.iter().map(|(o, _)| Self::op(st, o)).collect();
                let h = self.sh.handlers[fi];
                if h == H::Def {
                    return self.push_frame(st, fi, av, *dst, normal.as_ref());
                }
                if let H::To(f) = h {
                    return self.push_frame(st, f, av, *dst, normal.as_ref());
                }
                if let H::DefInt(bits) = h {
                    // Formatting an integer: one path per value (and per spelling of it).
                    let mut av = av;
                    match &args[0].1 {
                        Ty::Ptr => {
                            let a = self.concretize(st, &av[0], 64)?;
                            let (id, off) = self.resolve(st, a, bits as u64 / 8)?;
                            let v = self.load(st, id, off, &Ty::Int(bits))?;
                            if let V::E(_) = v {
                                let k = self.concretize_vars(st, &v, bits)?;
                                self.store(st, id, off, &Ty::Int(bits), &V::C(k))?;
                            }
                        }
                        t => {
                            let w = t.bits();
                            if let V::E(_) = av[0] {
                                let k = self.concretize_vars(st, &av[0].clone(), w)?;
                                av[0] = V::C(k);
                            }
                        }
                    }
                    return self.push_frame(st, fi, av, *dst, normal.as_ref());
                }
                let r = self.builtin(st, fi, h, av, args, ret)?;
                if let (Some(d), Some(v)) = (dst, r) {
                    st.frames.last_mut().unwrap().regs[*d as usize] = v;
                }
                match normal {
                    Some(e) => Self::goto(st, e),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
            }
        }
        Ok(())
    }

    fn newvar(&mut self, st: &mut State) -> R<E> {
        if st.nvars as usize >= MAXV {
            return Err(Stop::Incon("too many symbolic bytes".into()));
        }
        let e = self.p.var(st.nvars);
        st.nvars += 1;
        Ok(e)
    }

    fn text(&mut self, st: &mut State, a: &V, n: &V) -> R<String> {
        let a = self.concretize(st, a, 64)?;
        let n = self.concretize(st, n, 64)?;
        Ok(String::from_utf8_lossy(&self.read_concrete(st, a, n)?).to_string())
    }

    fn builtin(&mut self, st: &mut State, fi: usize, h: H, av: Vec<V>, args: &'static [(Op, Ty)], ret: &Ty) -> R<Option<V>> {
        Ok(match h {
            H::Def | H::DefInt(_) | H::To(_) => unreachable!(),
            H::Malloc => {
                let n = self.concretize(st, &av[0], 64)?;
                Some(V::C(self.halloc(st, n)?))
            }
            H::Calloc => {
                let n = self.concretize(st, &av[0], 64)?;
                let m = self.concretize(st, &av[1], 64)?;
                Some(V::C(self.halloc(st, n.saturating_mul(m))?))
            }
            H::Memalign => {
                let p = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[2], 64)?;
                let a = self.halloc(st, n)?;
                let (id, off) = self.resolve(st, p, 8)?;
                self.store(st, id, off, &Ty::Ptr, &V::C(a))?;
                Some(V::C(0))
            }
            H::Realloc => {
                let p = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[1], 64)?;
                let a = self.halloc(st, n)?;
                if p != 0 {
                    let (id, _) = self.resolve(st, p, 0)?;
                    let old = self.obj(st, id).unwrap().size();
                    self.copy(st, a, p, old.min(n))?;
                    self.hfree(st, p)?;
                }
                Some(V::C(a))
            }
            H::Free => {
                let p = self.concretize(st, &av[0], 64)?;
                self.hfree(st, p)?;
                None
            }
            H::Memcpy => {
                let n = self.concretize(st, &av[2], 64)?;
                let d = self.concretize(st, &av[0], 64)?;
                let s = self.concretize(st, &av[1], 64)?;
                self.copy(st, d, s, n)?;
                Some(V::C(d))
            }
            H::Memset => {
                let n = self.concretize(st, &av[2], 64)?;
                let d = self.concretize(st, &av[0], 64)?;
                if n > 0 {
                    let (id, off) = self.resolve(st, d, n)?;
                    let b = match &av[1] {
                        V::C(k) => self.p.konst(*k as u128 & 0xff, 8),
                        v => {
                            let w = args[1].1.bits();
                            let e = self.ex(v, w);
                            self.p.extract(e, 0, 8)
                        }
                    };
                    if let Some(k) = self.p.k(b) {
                        let o = self.obj_mut(st, id).unwrap();
                        for i in off..off + n {
                            o.data[i as usize] = k as u8;
                        }
                        if !o.sym.is_empty() {
                            for i in off..off + n {
                                o.sym[i as usize] = 0;
                            }
                        }
                    } else {
                        for i in off..off + n {
                            self.put_byte(st, id, i, b);
                        }
                    }
                }
                Some(V::C(d))
            }
            H::Memcmp | H::Bcmp => {
                let n = self.concretize(st, &av[2], 64)?;
                let a = self.concretize(st, &av[0], 64)?;
                let b = self.concretize(st, &av[1], 64)?;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let (ai, ao) = self.resolve(st, a, n)?;
                let (bi, bo) = self.resolve(st, b, n)?;
                let mut alleq = 1;
                let mut chain: Vec<(E, E)> = vec![];
                for i in 0..n {
                    let x = self.get_byte(st, ai, ao + i);
                    let y = self.get_byte(st, bi, bo + i);
                    let q = self.p.eq(x, y);
                    alleq = self.p.and(alleq, q);
                    if q != 1 {
                        chain.push((x, y));
                    }
                    if q == 0 {
                        break;
                    }
                }
                let zero = self.p.konst(0, 32);
                let one = self.p.konst(1, 32);
                let neg = self.p.konst(0xffff_ffff, 32);
                let r = if h == H::Bcmp {
                    self.p.ite(alleq, zero, one)
                } else {
                    let mut r = one;
                    for (x, y) in chain.iter().rev() {
                        let lt = self.p.ult(*x, *y);
                        let gt = self.p.ult(*y, *x);
                        let z = self.p.ite(gt, one, r);
                        r = self.p.ite(lt, neg, z);
                    }
                    self.p.ite(alleq, zero, r)
                };
                Some(self.val(r))
            }
            H::Strlen => {
                let a = self.concretize(st, &av[0], 64)?;
                let mut n = 0;
                loop {
                    let (id, off) = self.resolve(st, a + n, 1)?;
                    let e = self.get_byte(st, id, off);
                    let z = self.p.konst(0, 8);
                    let c = self.p.eq(e, z);
                    if self.decide(st, c)? {
                        break;
                    }
                    n += 1;
                }
                Some(V::C(n))
            }
            H::PanicFmt => {
                // find a location argument: &Location { file ptr, file len, line, col }
                let mut loc = String::new();
                for v in av.iter().rev() {
                    if let V::C(a) = v {
                        if let Ok((id, off)) = self.resolve(st, *a, 24) {
                            let p = self.load_int(st, id, off, 64);
                            let l = self.load_int(st, id, off + 8, 64);
                            let ln = self.load_int(st, id, off + 16, 32);
                            let co = self.load_int(st, id, off + 20, 32);
                            if let (V::C(p), V::C(l), V::C(ln), V::C(co)) = (p, l, ln, co) {
                                if l > 0 && l < 300 {
                                    if let Ok(s) = self.read_concrete(st, p, l) {
                                        let s = String::from_utf8_lossy(&s).to_string();
                                        let s = s.trim_end_matches('\0').to_string();
                                        loc = format!("{}:{}:{}", s, ln, co);
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                let _ = fi;
                return Err(Stop::Fail(format!("panic at {}", loc)));
            }
            H::Abort => return Err(Stop::Fail("panic: abort".into())),
            H::SymBytes => {
                let a = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[1], 64)?;
                if n > 0 {
                    let (id, off) = self.resolve(st, a, n)?;
                    for i in 0..n {
                        let e = self.newvar(st)?;
                        self.put_byte(st, id, off + i, e);
                    }
                }
                None
            }
            H::SymU8 => {
                let e = self.newvar(st)?;
                Some(V::E(e))
            }
            H::SymChoose => {
                // value in 0..n, explored as a fork
                let n = self.concretize(st, &av[0], 32)?;
                let i = st.nvars;
                let e = self.p.var(i);
                // a fresh variable: every value is possible, no need to ask
                let v = match st.replay.pop_front() {
                    Some(T::Eq(k)) => k,
                    Some(_) => return Err(Stop::Incon("replay mismatch (choice)".into())),
                    None => {
                        if n == 0 || n > 256 {
                            return Err(Stop::Incon("choice among none or too many".into()));
                        }
                        for k in (1..n).rev() {
                            self.fork(st, T::Eq(k), &[(i, k as u8)]);
                        }
                        if n > 1 {
                            self.local.decisions += 1;
                        }
                        self.upd_model(st, &[(i, 0)]);
                        0
                    }
                };
                st.trail.push(T::Eq(v));
                st.nvars += 1;
                let kk = self.p.konst(v as u128, 8);
                let q = self.p.eq(e, kk);
                self.add_pc(st, q);
                let k = v;
                Some(V::C(k))
            }
            H::SymAssume => {
                let c = match &av[0] {
                    V::C(k) => {
                        if *k & 1 == 1 {
                            return Ok(None);
                        }
                        return Err(Stop::Assume);
                    }
                    v => {
                        let w = args[0].1.bits();
                        let e = self.ex(v, w);
                        let z = self.p.konst(0, w);
                        let q = self.p.eq(e, z);
                        self.p.not(q)
                    }
                };
                if c == 1 {
                    return Ok(None);
                }
                if c == 0 {
                    return Err(Stop::Assume);
                }
                if st.replay.is_empty() && self.eval(st, c) != 1 {
                    match self.feasible(st, c)? {
                        Some(m) => self.upd_model(st, &m),
                        None => return Err(Stop::Assume),
                    }
                }
                self.add_pc(st, c);
                None
            }
            H::SymDecide => {
                // fork on a boolean and return it concretely
                let b = match &av[0] {
                    V::C(k) => *k & 1 == 1,
                    v => {
                        let w = args[0].1.bits();
                        let e = self.ex(v, w);
                        let z = self.p.konst(0, w);
                        let q = self.p.eq(e, z);
                        let c = self.p.not(q);
                        self.decide(st, c)?
                    }
                };
                Some(V::C(b as u64))
            }
            H::SymFail => {
                let s = self.text(st, &av[0], &av[1])?;
                return Err(Stop::Fail(s));
            }
            H::SymReach => {
                let s = self.text(st, &av[0], &av[1])?;
                if !st.reach.contains(&s) {
                    Rc::make_mut(&mut st.reach).push(s);
                }
                None
            }
            H::SymKnown => {
                let s = self.text(st, &av[0], &av[1])?;
                return Err(Stop::Known(s));
            }
            H::SymPanicOk => {
                let k = self.concretize(st, &av[0], 32)?;
                st.panic_ok = k != 0;
                None
            }
            H::SymPanicKnown => {
                let s = self.text(st, &av[0], &av[1])?;
                st.panic_known = if s.is_empty() { None } else { Some(Rc::new(s)) };
                None
            }
            H::SymTrace => {
                let a = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[1], 64)?;
                if n > 0 {
                    let (id, off) = self.resolve(st, a, n)?;
                    let mut t = vec![];
                    for i in 0..n {
                        let e = self.get_byte(st, id, off + i);
                        t.push(self.val(e));
                    }
                    Rc::make_mut(&mut st.trace).extend(t);
                }
                None
            }
            H::SymConcrete => {
                let k = self.concretize(st, &av[0], 64)?;
                Some(V::C(k))
            }
            H::SymParam => {
                let k = self.concretize(st, &av[0], 32)?;
                Some(V::C(self.sh.params.get(k as usize).cloned().unwrap_or(0)))
            }
            H::SymEnd => return Err(Stop::Done),
            H::SymIsEngine => Some(V::C(1)),
            H::SymInit => {
                let k = self.concretize(st, &av[0], 32)?;
                Some(V::C(self.sh.module.init.get(k as usize).cloned().unwrap_or(0)))
            }
            H::Zero => {
                if *ret == Ty::Void {
                    None
                } else {
                    Some(V::C(0))
                }
            }
            H::Getrandom => {
                let n = self.concretize(st, &av[1], 64)?;
                Some(V::C(n))
            }
            H::None => return Err(Stop::Incon(format!("call of unmodelled external {}", self.sh.module.funcs[fi].name))),
            H::Intr(i) => Some(self.intr(st, i, av, args, ret)?),
        })
    }

    fn intr(&mut self, st: &mut State, i: I, av: Vec<V>, args: &'static [(Op, Ty)], ret: &Ty) -> R<V> {
        if let (Ty::Vec(_, et), true) = (&args[0].1, !matches!(i, I::RedOr | I::RedAnd | I::RedAdd | I::RedUMax | I::RedUMin | I::RedXor)) {
            // lane-wise
            let n = Self::lanes(&av[0])?.len();
            let mut o = vec![];
            for j in 0..n {
                let mut l = vec![];
                for a in &av {
                    l.push(match a {
                        V::A(x) => x[j].clone(),
                        x => x.clone(),
                    });
                }
                o.push(self.scalar_intr(st, i, l, et.bits(), et)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        match i {
            I::RedOr | I::RedAnd | I::RedAdd | I::RedXor | I::RedUMax | I::RedUMin => {
                let l = Self::lanes(&av[0])?;
                let w = args[0].1.elem(0).bits();
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = match i {
                        I::RedOr => self.bin(Bin::Or, w, &r, x)?,
                        I::RedAnd => self.bin(Bin::And, w, &r, x)?,
                        I::RedAdd => self.bin(Bin::Add, w, &r, x)?,
                        I::RedXor => self.bin(Bin::Xor, w, &r, x)?,
                        I::RedUMax => self.scalar_intr(st, I::UMax, vec![r, x.clone()], w, ret)?,
                        _ => self.scalar_intr(st, I::UMin, vec![r, x.clone()], w, ret)?,
                    };
                }
                Ok(r)
            }
            _ => {
                let w = match &args[0].1 {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => return if i == I::First { Ok(av[0].clone()) } else { Err(Stop::Incon(format!("intrinsic {:?}", i))) },
                };
                self.scalar_intr(st, i, av, w, ret)
            }
        }
    }

    fn sel(&mut self, c: &V, x: &V, y: &V, w: u32) -> V {
        match c {
            V::C(1) => x.clone(),
            V::C(_) => y.clone(),
            _ => {
                let c = self.ex(c, 1);
                let a = self.ex(x, w);
                let b = self.ex(y, w);
                let r = self.p.ite(c, a, b);
                self.val(r)
            }
        }
    }

    fn scalar_intr(&mut self, st: &mut State, i: I, av: Vec<V>, w: u32, ret: &Ty) -> R<V> {
        let kc = |k: u64| V::C(k & m64(w));
        Ok(match i {
            I::First => av[0].clone(),
            I::IsConst => V::C(0),
            I::UMin | I::UMax | I::SMin | I::SMax => {
                let p = match i {
                    I::UMin => Pred::Ult,
                    I::UMax => Pred::Ugt,
                    I::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &av[0], &av[1]);
                self.sel(&c, &av[0], &av[1], w)
            }
            I::UAddSat => {
                let s = self.bin(Bin::Add, w, &av[0], &av[1])?;
                let c = self.icmp(Pred::Ult, w, &s, &av[0]);
                self.sel(&c, &kc(!0), &s, w)
            }
            I::USubSat => {
                let s = self.bin(Bin::Sub, w, &av[0], &av[1])?;
                let c = self.icmp(Pred::Ult, w, &av[0], &av[1]);
                self.sel(&c, &kc(0), &s, w)
            }
            I::UAddO => {
                let s = self.bin(Bin::Add, w, &av[0], &av[1])?;
                let c = self.icmp(Pred::Ult, w, &s, &av[0]);
                V::A(Rc::new(vec![s, c]))
            }
            I::USubO => {
                let s = self.bin(Bin::Sub, w, &av[0], &av[1])?;
                let c = self.icmp(Pred::Ult, w, &av[0], &av[1]);
                V::A(Rc::new(vec![s, c]))
            }
            I::UMulO | I::SMulO => {
                if w > 64 {
                    return Err(Stop::Incon("wide mul.with.overflow".into()));
                }
                let k = if i == I::UMulO { Cast::ZExt } else { Cast::SExt };
                let a = self.cast(k, w, 2 * w, &av[0]);
                let b = self.cast(k, w, 2 * w, &av[1]);
                let a = self.ex(&a, 2 * w);
                let b = self.ex(&b, 2 * w);
                let m = self.p.bin(O::Mul, a, b);
                let lo = self.p.extract(m, 0, w);
                let back = if i == I::UMulO { self.p.zext(lo, 2 * w) } else { self.p.sext(lo, 2 * w) };
                let q = self.p.eq(back, m);
                let o = self.p.not(q);
                V::A(Rc::new(vec![self.val(lo), self.val(o)]))
            }
            I::SAddO | I::SSubO | I::SAddSat | I::SSubSat => {
                let a = self.ex(&av[0], w);
                let b = self.ex(&av[1], w);
                let a2 = self.p.sext(a, w + 1);
                let b2 = self.p.sext(b, w + 1);
                let s = if matches!(i, I::SAddO | I::SAddSat) { self.p.bin(O::Add, a2, b2) } else { self.p.sub(a2, b2) };
                let lo = self.p.extract(s, 0, w);
                let back = self.p.sext(lo, w + 1);
                let q = self.p.eq(back, s);
                let o = self.p.not(q);
                if matches!(i, I::SAddSat | I::SSubSat) {
                    return Err(Stop::Incon("signed saturating".into()));
                }
                V::A(Rc::new(vec![self.val(lo), self.val(o)]))
            }
            I::CtPop => {
                if let V::C(k) = &av[0] {
                    return Ok(V::C(k.count_ones() as u64));
                }
                let e = self.ex(&av[0], w);
                let mut r = self.p.konst(0, w);
                for j in 0..w {
                    let b = self.p.extract(e, j, 1);
                    let b = self.p.zext(b, w);
                    r = self.p.bin(O::Add, r, b);
                }
                self.val(r)
            }
            I::CtLz | I::CtTz => {
                if let V::C(k) = &av[0] {
                    let r = if i == I::CtLz {
                        if *k == 0 {
                            w
                        } else {
                            k.leading_zeros() - (64 - w)
                        }
                    } else if *k == 0 {
                        w
                    } else {
                        k.trailing_zeros()
                    };
                    return Ok(V::C(r as u64));
                }
                let e = self.ex(&av[0], w);
                let mut r = self.p.konst(w as u128, w);
                for j in 0..w {
                    let (pos, val) = if i == I::CtLz { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                    let b = self.p.extract(e, pos, 1);
                    let k = self.p.konst(val as u128, w);
                    r = self.p.ite(b, k, r);
                }
                self.val(r)
            }
            I::BSwap => {
                let e = self.ex(&av[0], w);
                let mut r = self.p.extract(e, 0, 8);
                for j in 1..w / 8 {
                    let b = self.p.extract(e, j * 8, 8);
                    r = self.p.concat(r, b);
                }
                self.val(r)
            }
            I::Bitrev => {
                let e = self.ex(&av[0], w);
                let mut r = self.p.extract(e, 0, 1);
                for j in 1..w {
                    let b = self.p.extract(e, j, 1);
                    r = self.p.concat(r, b);
                }
                self.val(r)
            }
            I::FShl | I::FShr => {
                let s = self.concretize(st, &av[2], w)? as u32 % w;
                if let (V::C(a), V::C(b)) = (&av[0], &av[1]) {
                    let c = (*a as u128) << w | *b as u128;
                    let r = if i == I::FShl { c << s >> w } else { c >> s };
                    return Ok(V::C(r as u64 & m64(w)));
                }
                let a = self.ex(&av[0], w);
                let b = self.ex(&av[1], w);
                let s = if i == I::FShl { s } else { w - s };
                // result = (a << s) | (b >> (w - s)), for FShr with s' = w - s
                let r = if s == 0 {
                    a
                } else if s == w {
                    b
                } else {
                    let lo = self.p.extract(b, w - s, s);
                    let hi = self.p.extract(a, 0, w - s);
                    self.p.concat(hi, lo)
                };
                self.val(r)
            }
            I::Abs => {
                let z = kc(0);
                let n = self.bin(Bin::Sub, w, &z, &av[0])?;
                let c = self.icmp(Pred::Slt, w, &av[0], &z);
                self.sel(&c, &n, &av[0], w)
            }
            I::PtrMask => self.bin(Bin::And, 64, &av[0], &av[1])?,
            I::UCmp | I::SCmp => {
                let rw = ret.bits();
                let (l, g) = if i == I::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(l, w, &av[0], &av[1]);
                let gt = self.icmp(g, w, &av[0], &av[1]);
                let one = V::C(1);
                let neg = V::C(m64(rw));
                let z = self.sel(&gt, &one, &V::C(0), rw);
                self.sel(&lt, &neg, &z, rw)
            }
            I::LoadRel => {
                let p = self.concretize(st, &av[0], 64)?;
                let o = self.concretize(st, &av[1], 64)?;
                let (id, off) = self.resolve(st, p.wrapping_add(o), 4)?;
                match self.load_int(st, id, off, 32) {
                    V::C(k) => V::C(p.wrapping_add(k as i32 as i64 as u64)),
                    _ => return Err(Stop::Incon("load.relative".into())),
                }
            }
            _ => return Err(Stop::Incon(format!("intrinsic {:?}", i))),
        })
    }
}

fn same_edge(a: &Edge, b: &Edge) -> bool {
    a.to == b.to
        && a.phis.len() == b.phis.len()
        && a.phis.iter().zip(b.phis.iter()).all(|(x, y)| {
            x.0 == y.0
                && match (&x.1, &y.1) {
                    (Op::Reg(p), Op::Reg(q)) => p == q,
                    (Op::K(K::Int(p)), Op::K(K::Int(q))) => p == q,
                    _ => false,
                }
        })
}

/// Light demangler: enough for reports.
pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + k > b.len() {
                break;
            }
            let s = &r[i..i + k];
            i += k;
            if s.len() == 17 && s.starts_with('h') {
                continue;
            }
            parts.push(
                s.replace("$LT$", "<")
                    .replace("$GT$", ">")
                    .replace("$u20$", " ")
                    .replace("$RF$", "&")
                    .replace("$u7b$", "{")
                    .replace("$u7d$", "}")
                    .replace("$C$", ",")
                    .replace("..", "::"),
            );
        }
        return parts.join("::");
    }
    if n.starts_with("_R") {
        // v0: collect the identifiers
        let b = n.as_bytes();
        let mut i = 2;
        let mut parts: Vec<String> = vec![];
        while i < b.len() {
            if b[i].is_ascii_digit() {
                let mut k = 0usize;
                while i < b.len() && b[i].is_ascii_digit() {
                    k = k * 10 + (b[i] - b'0') as usize;
                    i += 1;
                }
                if i < b.len() && b[i] == b'_' {
                    i += 1;
                }
                if k == 0 || i + k > b.len() {
                    continue;
                }
                parts.push(n[i..i + k].to_string());
                i += k;
            } else if b[i] == b's' || b[i] == b'B' {
                // disambiguator / backref: skip base-62 number up to '_'
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                } else {
                    i += 1;
                }
            } else {
                i += 1;
            }
        }
        return parts.join("::");
    }
    n.to_string()
}
