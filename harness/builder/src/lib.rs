//! The builder on a symbolic operating system.

mod libc;
use libc::*;
use wayfinder::build::Builder;
use wayfinder::{gen, parse, RouteConfig};

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    sym::decide(r)
}

const PLAIN: &str = "/\n  GET A\n";
const RICH: &str = "use x;\n\n/\n  [q: T]\n  a\n    GET M::A\n  {p: T}\n    POST P\n";

/// None: not a config, or one that is refused.
fn module(c: &RouteConfig) -> Vec<u8> {
    let mut v = Vec::with_capacity(20000);
    if gen::codegen(&mut v, c).is_err() {
        sym::fail("a config without conflicts is refused");
    }
    v
}

fn read_config(text: &[u8]) -> Option<RouteConfig> {
    match std::str::from_utf8(text) {
        Err(_) => None,
        Ok(t) => match parse::route_config(t) {
            Ok(r) => Some(r.1),
            Err(_) => None,
        },
    }
}

struct Case {
    /// The module that has to end up at the target, or None if the build has to fail.
    want: Option<Vec<u8>>,
    /// Where: a file, or standard output.
    target: Option<usize>,
}
static mut CASE: Option<Case> = None;

fn case() -> &'static Case {
    unsafe { (*std::ptr::addr_of!(CASE)).as_ref().unwrap() }
}

fn written(c: &Case, w: &Vec<u8>) -> bool {
    match c.target {
        Some(f) => world().files[f].there && same(&world().files[f].data, w),
        None => world().out.len() >= w.len() && same(&world().out[world().out.len() - w.len()..], w),
    }
}

fn b01_exit(status: i32) {
    sym::check(status & 0xff != 0, "the process ends with success without returning from the build");
    sym::reach("failed");
}

/// Any input, any target, any single fault.
#[no_mangle]
pub fn b01() {
    let mut w = World::new();
    let (from_env, stdout) = (sym::choose(2) == 1, sym::choose(2) == 1);
    w.any_error = sym::param(3) == 1;
    for _ in 0..sym::choose(1 + sym::param(0) as u32) {
        let at = match w.faults.last() {
            None => sym::choose(sym::param(2) as u32) * 100 + sym::choose(100),
            Some(f) => f + 1 + sym::choose(2),
        };
        w.faults.push(at);
    }
    let old = !w.faults.is_empty() || sym::choose(2) == 1;
    let mut want = None;
    let mut text: Option<Vec<u8>> = None;
    let mut config = None;
    let kind = sym::choose(14);
    match kind {
        0 => text = Some(PLAIN.into()),
        1 => text = Some(RICH.into()),
        2 => {
            let mut t = b"/\n  GET A".to_vec();
            let n = t.len();
            t.resize(n + sym::choose(1 + sym::param(1) as u32) as usize, 0);
            sym::bytes(&mut t[n..]);
            t.push(b'\n');
            text = Some(t)
        }
        3 => text = Some(vec![]),
        4 => text = Some(b"/\n GET A\n".to_vec()),
        5 => text = Some(b"/\n  GET A\n  GET \xff\n".to_vec()),
        // conflicts: two resources for one method, two parameters, one path twice
        6 => text = Some(b"/\n  GET A\n  GET B\n".to_vec()),
        7 => text = Some(b"/\n  {a: T}\n    GET A\n  {b: T}\n    GET B\n".to_vec()),
        8 => text = Some(b"/\n  a\n    GET A\n  a\n    GET B\n".to_vec()),
        // a hole in a header
        11 => {
            let mut t = b"# ".to_vec();
            let n = t.len();
            t.resize(n + sym::choose(1 + sym::param(1) as u32) as usize, 0);
            sym::bytes(&mut t[n..]);
            t.extend_from_slice(b"\n\n/\n  GET A\n");
            text = Some(t)
        }
        9 => config = read_config(PLAIN.as_bytes()),
        // a config that clashes
        12 => config = read_config(b"/\n  GET A\n  GET B\n"),
        _ => {}
    }
    if kind < 3 || kind == 11 {
        sym::trace(text.as_ref().unwrap());
    }
    w.env = [Some(b"/c\0".to_vec()), Some(b"/o\0".to_vec())];
    let (input, output) = if from_env { ("/c/in", "/o/out") } else { ("/cwd/in", "/cwd/out") };
    if let Some(t) = &text {
        w.input = w.find(input.as_bytes());
        w.files[w.input].data = t.clone();
        w.files[w.input].there = true;
        if kind < 6 || kind == 11 {
            match read_config(t) {
                None => w.input_bad = true,
                Some(c) => want = Some(module(&c)),
            }
        }
    }
    if let Some(c) = &config {
        if kind == 9 {
            want = Some(module(c));
        }
    }
    // no such file
    if kind == 13 {
        w.input = w.find(input.as_bytes());
        w.input_bad = true;
    }
    let out = w.find(output.as_bytes());
    if old {
        w.files[out].there = true;
        w.files[out].data = vec![b'x'; 20000];
    }
    sym::say(|| format!("{:?} {}{}{}faults at {:?}", text.as_ref().map(|t| String::from_utf8_lossy(t).into_owned()), if from_env { "from Cargo, " } else { "" }, if stdout { "to stdout, " } else { "" }, if old { "output exists, " } else { "" }, w.faults));
    w.at_exit = Some(b01_exit);
    sym::panic_ok(want.is_none());
    start(w);
    set_environment();
    unsafe { CASE = Some(Case { want, target: if stdout { None } else { Some(out) } }) }
    let mut b = if from_env { Builder::from_env() } else { Builder::new() };
    if text.is_some() || kind == 13 {
        b = b.input_file("in");
    } else if let Some(c) = config {
        b = b.input_config(c);
    }
    // no target at all
    if !(kind == 9 && sym::choose(2) == 1) {
        b = if stdout { b.output_stdout() } else { b.output_file("out") };
    } else {
        unsafe { (*std::ptr::addr_of_mut!(CASE)).as_mut().unwrap().want = None }
    }
    b.build();
    stop();
    if (world().hit as usize) < world().faults.len() {
        sym::reach("past the last call");
    }
    match &case().want {
        None => sym::fail("the build of no config returned"),
        Some(m) => {
            sym::check(written(case(), m), "the build returned without the complete module written");
        }
    }
    sym::reach("built");
}

fn b02_exit(status: i32) {
    let _ = status;
    sym::fail("the build fails although it was told a config and a target")
}

fn name(n: usize) -> String {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    let mut ok = true;
    for b in &v {
        ok &= (*b > b' ') & (*b < 0x7f);
    }
    // not the name of a directory
    ok &= (v[n - 1] != b'/') & (v[n - 1] != b'.');
    sym::assume(ok);
    String::from_utf8(v).unwrap()
}

/// The directory, unless the name is absolute.
fn place(dir: &str, name: &str) -> Vec<u8> {
    let b = name.as_bytes();
    let mut p = vec![];
    if b.is_empty() || !sym::decide(b[0] == b'/') {
        p.extend_from_slice(dir.as_bytes());
        p.push(b'/');
    }
    p.extend_from_slice(b);
    normal(&p)
}

/// Any file names, any order of settings.
#[no_mangle]
pub fn b02() {
    let mut w = World::new();
    let from_env = sym::choose(2) == 1;
    let (src, dst) = if from_env { [("/c", "/o"), ("/c/", "/é/o"), ("c", "o/p")][sym::choose(3) as usize] } else { ("/cwd", "/cwd") };
    w.env = [Some([src.as_bytes(), b"\0"].concat()), Some([dst.as_bytes(), b"\0"].concat())];
    let names = [name(1 + sym::choose(sym::param(1) as u32) as usize), ["in.routes", "é/x"][sym::choose(2) as usize].to_string()];
    // each setting made, and the last of its kind
    let (mut sets, mut input, mut output) = (vec![], None, None);
    for _ in 0..2 + sym::choose(sym::param(0) as u32 - 1) {
        let (k, n) = (sym::choose(4), sym::choose(2) as usize);
        if n == 1 && (k == 1 || k == 3) {
            sym::end();
        }
        sets.push((k, n));
        match k {
            0 | 1 => input = Some((k, n)),
            _ => output = Some((k, n)),
        }
    }
    let (input, output) = match (input, output) {
        (Some(i), Some(o)) => (i, o),
        _ => sym::end(),
    };
    // a config of the same name everywhere else
    for d in ["/cwd", "/c", "/cwd/c", "/o", "/é/o", "/cwd/o/p"] {
        for n in &names {
            let f = w.find(&place(d, n));
            w.files[f].there = true;
            w.files[f].data = RICH.into();
        }
    }
    let mut announced: Option<Vec<u8>> = None;
    if input.0 == 0 {
        let p = place(src, &names[input.1]);
        w.input = w.find(&p);
        w.files[w.input].data = PLAIN.into();
        w.files[w.input].there = true;
        if from_env {
            announced = Some(p);
        }
    }
    let out = if output.0 == 2 { Some(w.find(&place(dst, &names[output.1]))) } else { None };
    let was: Vec<Vec<u8>> = w.files.iter().map(|f| f.data.clone()).collect();
    let config = read_config(PLAIN.as_bytes()).unwrap();
    let want = module(&config);
    sym::trace(names[0].as_bytes());
    sym::say(|| format!("{}{:?} settings {:?}", if from_env { format!("from Cargo in {} and {}, ", src, dst) } else { String::new() }, names, sets));
    w.at_exit = Some(b02_exit);
    start(w);
    set_environment();
    let mut b = if from_env { Builder::from_env() } else { Builder::new() };
    for (k, n) in &sets {
        b = match k {
            0 => b.input_file(&names[*n]),
            1 => b.input_config(config.clone()),
            2 => b.output_file(&names[*n]),
            _ => b.output_stdout(),
        };
    }
    b.build();
    stop();
    let w = world();
    let mut stdout: &[u8] = &w.out;
    if let Some(p) = announced {
        let k = stdout.iter().position(|c| sym::decide(*c == b'\n')).unwrap_or(0);
        let line = &stdout[..k];
        sym::check(k > 0, "the input is not announced");
        stdout = &stdout[k + 1..];
        let head: &[u8] = b"cargo:rerun-if-changed=";
        sym::check(k > head.len() && same(&line[..head.len()], head), "the input is not announced");
        sym::check(same(&normal(&line[head.len()..]), &p), "another path than the input's is announced");
        sym::reach("announced");
    }
    match out {
        None => {
            sym::check(same(stdout, &want), "standard output is not the module");
            sym::reach("to standard output");
        }
        Some(f) => {
            sym::check(stdout.is_empty(), "something is written to standard output although a file was chosen");
            sym::check(w.files[f].there && same(&w.files[f].data, &want), "the output file does not hold the module");
            sym::reach("to a file");
        }
    }
    for i in 0..w.files.len() {
        if Some(i) == out {
            continue;
        }
        let same = if i < was.len() { same(&w.files[i].data, &was[i]) } else { !w.files[i].there };
        sym::check(same, "another file is changed");
    }
}

mod cmd {
    include!(concat!(env!("OUT_DIR"), "/cmd.rs"));
}

/// What the tool's `main` may return.
pub trait Outcome {
    fn ok(self) -> bool;
}
impl Outcome for () {
    fn ok(self) -> bool {
        true
    }
}
impl<T: Outcome, E> Outcome for Result<T, E> {
    fn ok(self) -> bool {
        match self {
            Ok(t) => t.ok(),
            Err(_) => false,
        }
    }
}
impl Outcome for std::process::ExitCode {
    fn ok(self) -> bool {
        format!("{:?}", self) == format!("{:?}", std::process::ExitCode::SUCCESS)
    }
}

/// No file that was there before is changed and none is added.
fn untouched(w: &World) -> bool {
    w.files.iter().all(|f| if f.there { same(&f.data, PLAIN.as_bytes()) || same(&f.data, RICH.as_bytes()) || same(&f.data, BAD) } else { true })
}
const BAD: &[u8] = b"/\n  GET A\n oh\n";

fn b03_exit(status: i32) {
    b03_failed(status & 0xff == 0);
}

fn b03_failed(success: bool) {
    let w = world();
    sym::check(untouched(w), "a file is changed");
    let usage = case().target.is_none();
    match &case().want {
        _ if usage => sym::check(w.out.is_empty(), "something is written to standard output without a file to build"),
        Some(m) => {
            if success {
                sym::check(same(&w.out, m), "the tool ends with success without the complete module written")
            } else {
                sym::check(w.failed, "the tool fails although it was told a route file");
                sym::check(w.out.len() <= m.len() && same(&w.out, &m[..w.out.len()]), "something else than the module is written");
                sym::reach("failed");
            }
        }
        None => {
            sym::check(!success, "the tool ends with success although the file is no config");
            sym::check(w.out.is_empty(), "something is written although the file is no config");
            sym::reach("no config");
        }
    }
    if usage {
        sym::reach("usage");
    }
    if success && !usage {
        sym::reach("built");
    }
}

/// The command-line tool: any file name, further arguments, any fault.
#[no_mangle]
pub fn b03() {
    let mut w = World::new();
    let count = sym::choose(4) as usize;
    let mut arguments: Vec<Vec<u8>> = vec![["wayfinder", ""][sym::choose(2) as usize].into()];
    // other configs lie around
    for (f, t) in [("/cwd/b", RICH), ("/cwd/c", RICH), ("/cwd/w", PLAIN), ("/in", RICH), ("/cwd/app.routes", PLAIN)] {
        let f = w.find(f.as_bytes());
        w.files[f].data = t.into();
        w.files[f].there = true;
    }
    let mut want = None;
    let mut unicode = true;
    let mut fault = false;
    if count > 0 {
        let text: Option<&[u8]> = [None, Some(PLAIN.as_bytes()), Some(RICH.as_bytes()), Some(BAD)][sym::choose(4) as usize];
        if let Some(c) = text.and_then(read_config) {
            want = Some(module(&c));
        }
        fault = count == 1 && sym::choose(2) == 1;
        let mut name = b"w".to_vec();
        if !fault {
            name.resize(1 + sym::choose(sym::param(0) as u32) as usize, 0);
            sym::bytes(&mut name);
            let n = name.len();
            let mut ok = (name[n - 1] != b'/') & (name[n - 1] != b'.');
            for b in &name {
                ok &= *b != 0;
            }
            sym::assume(ok);
        }
        sym::trace(&name);
        unicode = std::str::from_utf8(&name).is_ok();
        let mut p = vec![];
        if !sym::decide(name[0] == b'/') {
            p.extend_from_slice(b"/cwd/");
        }
        p.extend_from_slice(&name);
        w.input = w.find(&p);
        w.files[w.input].there = text.is_some();
        w.files[w.input].data = text.unwrap_or(&[]).to_vec();
        w.input_bad = want.is_none();
        arguments.push(name);
        for a in ["b", "--c"].iter().take(count - 1) {
            arguments.push(a.as_bytes().into());
        }
    }
    if fault {
        w.any_error = sym::param(2) == 1;
        w.faults.push(sym::choose(sym::param(1) as u32) * 100 + sym::choose(100));
    }
    sym::say(|| format!("arguments {:?} faults at {:?}", arguments.iter().map(|t| String::from_utf8_lossy(t).into_owned()).collect::<Vec<_>>(), w.faults));
    w.at_exit = Some(b03_exit);
    let mut argv = vec![];
    for a in arguments {
        let a: &'static [u8] = Vec::leak([&a[..], b"\0"].concat());
        argv.push(a.as_ptr());
    }
    argv.push(std::ptr::null());
    sym::arguments(Vec::leak(argv));
    // a panic ends the tool with a failure status
    sym::panic_ok(count > 0 && (want.is_none() || !unicode));
    start(w);
    unsafe { CASE = Some(Case { want, target: if count > 0 { Some(0) } else { None } }) }
    let ok = cmd::run();
    stop();
    if (world().hit as usize) < world().faults.len() {
        sym::reach("past the last call");
    }
    b03_failed(ok);
}

sym::registry!(b01, b02, b03);
