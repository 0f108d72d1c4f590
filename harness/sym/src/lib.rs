//! Interface between a harness and whoever runs it.
//!
//! With the feature `engine` the `sym_*` functions are left undefined: the symbolic
//! executor supplies them.  Without it this crate implements them natively, reading the
//! symbolic bytes from a recorded input, so that every path the solver produces can be
//! replayed against the ordinary build.

#[cfg(feature = "engine")]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_u8() -> u8;
        fn sym_choose(n: u32) -> u8;
        fn sym_assume(c: bool);
        fn sym_decide(c: bool) -> bool;
        fn sym_fail(p: *const u8, n: usize) -> !;
        fn sym_reach(p: *const u8, n: usize);
        fn sym_known(p: *const u8, n: usize) -> !;
        fn sym_panic_ok(b: u32);
        fn sym_panic_known(p: *const u8, n: usize);
        fn sym_trace(p: *const u8, n: usize);
        fn sym_concrete(v: u64) -> u64;
        fn sym_param(i: u32) -> u64;
        fn sym_end() -> !;
        fn sym_init(i: u32) -> usize;
    }
    pub fn bytes(b: &mut [u8]) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn u8() -> u8 {
        unsafe { sym_u8() }
    }
    pub fn choose(n: u32) -> u32 {
        unsafe { sym_choose(n) as u32 }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn decide(c: bool) -> bool {
        unsafe { sym_decide(c) }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { sym_fail(m.as_ptr(), m.len()) }
    }
    pub fn reach(m: &str) {
        unsafe { sym_reach(m.as_ptr(), m.len()) }
    }
    pub fn known(m: &str) -> ! {
        unsafe { sym_known(m.as_ptr(), m.len()) }
    }
    pub fn panic_ok(b: bool) {
        unsafe { sym_panic_ok(b as u32) }
    }
    pub fn panic_known(m: &str) {
        unsafe { sym_panic_known(m.as_ptr(), m.len()) }
    }
    pub fn trace(b: &[u8]) {
        unsafe { sym_trace(b.as_ptr(), b.len()) }
    }
    pub fn concrete(v: usize) -> usize {
        unsafe { sym_concrete(v as u64) as usize }
    }
    pub fn param(i: u32) -> u64 {
        unsafe { sym_param(i) }
    }
    pub fn end() -> ! {
        unsafe { sym_end() }
    }
    /// Calls what the loader calls with a program's arguments before `main`.
    pub fn arguments(args: &'static [*const u8]) {
        for i in 0.. {
            let f = unsafe { sym_init(i) };
            if f == 0 {
                break;
            }
            let f: extern "C" fn(i32, *const *const u8, *const *const u8) = unsafe { std::mem::transmute(f) };
            f(args.len() as i32 - 1, args.as_ptr(), &args[args.len() - 1]);
        }
    }
    /// A readable account of the case, for replays only.
    pub fn say<F: FnOnce() -> String>(_f: F) {}
    pub const ENGINE: bool = true;
}

#[cfg(not(feature = "engine"))]
mod imp {
    use std::cell::RefCell;

    #[derive(Debug)]
    pub enum End {
        Fail(String),
        Known(String),
        Assume,
        Input,
        End,
    }

    pub struct Cx {
        pub input: Vec<u8>,
        pub pos: usize,
        pub trace: u64,
        pub panic_ok: bool,
        pub panic_known: Option<String>,
        pub params: Vec<u64>,
        pub panic_msg: String,
        pub reach: Vec<String>,
        pub says: Vec<String>,
    }

    thread_local! {
        pub static CX: RefCell<Cx> = RefCell::new(Cx {
            input: vec![], pos: 0, trace: 0, panic_ok: false, panic_known: None, params: vec![], panic_msg: String::new(), reach: vec![], says: vec![],
        });
    }

    /// Set in a forked child: the case ends where it stops, without unwinding.
    pub static DIRECT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

    fn stop(e: End) -> ! {
        if DIRECT.load(std::sync::atomic::Ordering::Relaxed) {
            super::runner::direct(Err(Box::new(e)))
        }
        std::panic::panic_any(e)
    }
    pub fn u8() -> u8 {
        let r = CX.with(|c| {
            let mut c = c.borrow_mut();
            let r = c.input.get(c.pos).cloned();
            c.pos += 1;
            r
        });
        match r {
            Some(b) => b,
            None => stop(End::Input),
        }
    }
    pub fn bytes(b: &mut [u8]) {
        for x in b {
            *x = u8();
        }
    }
    pub fn choose(n: u32) -> u32 {
        let k = u8() as u32;
        if k >= n {
            stop(End::Assume);
        }
        k
    }
    pub fn assume(c: bool) {
        if !c {
            stop(End::Assume)
        }
    }
    pub fn decide(c: bool) -> bool {
        c
    }
    pub fn fail(m: &str) -> ! {
        stop(End::Fail(m.to_string()))
    }
    pub fn reach(m: &str) {
        CX.with(|c| c.borrow_mut().reach.push(m.to_string()))
    }
    pub fn known(m: &str) -> ! {
        stop(End::Known(m.to_string()))
    }
    pub fn panic_ok(b: bool) {
        CX.with(|c| c.borrow_mut().panic_ok = b)
    }
    pub fn panic_known(m: &str) {
        CX.with(|c| c.borrow_mut().panic_known = if m.is_empty() { None } else { Some(m.to_string()) })
    }
    pub fn trace(b: &[u8]) {
        CX.with(|c| {
            let mut c = c.borrow_mut();
            for x in b {
                c.trace = (c.trace ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        })
    }
    pub fn concrete(v: usize) -> usize {
        v
    }
    pub fn param(i: u32) -> u64 {
        CX.with(|c| c.borrow().params.get(i as usize).cloned().unwrap_or(0))
    }
    pub fn end() -> ! {
        stop(End::End)
    }
    extern "C" {
        static __init_array_start: [usize; 0];
        static __init_array_end: [usize; 0];
    }
    pub fn arguments(args: &'static [*const u8]) {
        unsafe {
            let (mut p, e) = (__init_array_start.as_ptr(), __init_array_end.as_ptr());
            while p < e {
                let f: extern "C" fn(i32, *const *const u8, *const *const u8) = std::mem::transmute(*p);
                f(args.len() as i32 - 1, args.as_ptr(), &args[args.len() - 1]);
                p = p.add(1);
            }
        }
    }
    pub fn say<F: FnOnce() -> String>(f: F) {
        let s = f();
        CX.with(|c| c.borrow_mut().says.push(s))
    }
    pub const ENGINE: bool = false;
}

pub use imp::*;

pub type Entry = (&'static str, fn());

/// `registry!(a, b)` lists the entries of a harness crate for the native runner.
#[macro_export]
macro_rules! registry {
    ($($n:ident),* $(,)?) => {
        pub static ENTRIES: &[$crate::Entry] = &[$((stringify!($n), $n as fn())),*];
    };
}

pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}

#[cfg(not(feature = "engine"))]
pub mod runner {
    use super::imp::*;
    use super::Entry;
    use std::io::BufRead;

    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }

    fn hook() {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            let l = i.location().map(|l| l.to_string()).unwrap_or_default();
            CX.with(|c| {
                if let Ok(mut c) = c.try_borrow_mut() {
                    c.panic_msg = format!("{} ({})", m, l)
                }
            });
        }));
    }

    /// Lines on stdin: `entry hexinput`; one line `RESULT kind trace reach message says` on stdout each.
    pub fn run(entries: &[Entry], args: Vec<String>) {
        hook();
        for (f, cx) in cases(entries, args) {
            CX.with(|c| *c.borrow_mut() = cx);
            println!("{}", result(std::panic::catch_unwind(f)));
        }
    }

    extern "C" {
        fn fork() -> i32;
        fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
        fn syscall(n: i64, ...) -> i64;
    }

    fn put(s: String) {
        unsafe {
            syscall(1, 1i64, s.as_ptr(), s.len());
        }
    }

    pub fn direct(r: std::thread::Result<()>) -> ! {
        put(result(r) + "\n");
        unsafe {
            syscall(231, 0i64);
        }
        std::process::abort()
    }

    /// The same, with a process for each case, for code that may end its process.
    pub fn run_forked(entries: &[Entry], args: Vec<String>) {
        hook();
        for (f, cx) in cases(entries, args) {
            unsafe {
                let p = fork();
                if p == 0 {
                    CX.with(|c| *c.borrow_mut() = cx);
                    DIRECT.store(true, std::sync::atomic::Ordering::Relaxed);
                    let r = std::panic::catch_unwind(f);
                    direct(r)
                }
                let mut status = 0;
                waitpid(p, &mut status, 0);
                if status != 0 {
                    put(format!("RESULT\tfail\t\t\tthe process died (status {})\t\n", status));
                }
            }
        }
    }

    fn cases(entries: &[Entry], args: Vec<String>) -> Vec<(fn(), Cx)> {
        let params: Vec<u64> = args.get(0).map(|a| a.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
        let stdin = std::io::stdin();
        let lines: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
        let mut out = vec![];
        for l in lines {
            let mut it = l.split_whitespace();
            let name = it.next().unwrap();
            let input = unhex(it.next().unwrap_or(""));
            let f = entries.iter().find(|e| e.0 == name).unwrap_or_else(|| panic!("no entry {}", name)).1;
            out.push((
                f,
                Cx {
                    input,
                    pos: 0,
                    trace: 0xcbf29ce484222325,
                    panic_ok: false,
                    panic_known: None,
                    params: params.clone(),
                    panic_msg: String::new(),
                    reach: vec![],
                    says: vec![],
                },
            ));
        }
        out
    }

    fn result(r: std::thread::Result<()>) -> String {
        {
            let (kind, msg) = CX.with(|c| {
                let c = c.borrow();
                match r {
                    Ok(()) => ("ok", String::new()),
                    Err(e) => match e.downcast_ref::<End>() {
                        Some(End::Fail(m)) => ("fail", m.clone()),
                        Some(End::Known(m)) => ("known", m.clone()),
                        Some(End::Assume) => ("assume", String::new()),
                        Some(End::Input) => ("input", "ran out of input bytes".to_string()),
                        Some(End::End) => ("ok", String::new()),
                        None => {
                            if c.panic_ok {
                                ("panic", c.panic_msg.clone())
                            } else if let Some(k) = &c.panic_known {
                                ("known", k.clone())
                            } else {
                                ("fail", format!("panic: {}", c.panic_msg))
                            }
                        }
                    },
                }
            });
            let (tr, reach, says) = CX.with(|c| (c.borrow().trace, c.borrow().reach.join(","), c.borrow().says.join("; ")));
            let flat = |s: String| s.replace('\n', "\\n").replace('\t', " ").replace('\r', "\\r");
            format!("RESULT\t{}\t{:016x}\t{}\t{}\t{}", kind, tr, reach, flat(msg), flat(says))
        }
    }
}
