mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::sync::atomic::*;
use std::sync::*;
use std::time::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn fails(v: &[Failure]) -> String {
    v.iter()
        .map(|f| format!("{{\"msg\":{},\"input\":\"{}\",\"stack\":[{}]}}", js(&f.msg), hex(&f.input), f.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")))
        .collect::<Vec<_>>()
        .join(",\n   ")
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut file = None;
    let mut entries: Vec<String> = vec![];
    let mut prefix: Vec<String> = vec![];
    let mut threads = 8usize;
    let mut time = 600u64;
    let mut max_ins = 200_000_000u64;
    let mut max_fail = 200u64;
    let mut merge_w = 1u32;
    let mut params = vec![];
    let mut out = None;
    let mut nsamples = 20usize;
    let mut seed = 1u64;
    let mut trace_fn = false;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("option value");
        match a.as_str() {
            "--entry" => entries.push(nx()),
            "--prefix" => prefix.push(nx()),
            "--threads" => threads = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--max-ins" => max_ins = nx().parse().unwrap(),
            "--merge" => merge_w = nx().parse().unwrap(),
            "--max-fail" => max_fail = nx().parse().unwrap(),
            "--param" => params = nx().split(',').map(|x| x.parse().unwrap()).collect(),
            "--out" => out = Some(nx()),
            "--samples" => nsamples = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--trace-fn" => trace_fn = true,
            _ => file = Some(a),
        }
    }
    let file = file.expect("module.ll");
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&file).expect("read module");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(src)));
    for p in &prefix {
        let mut ns: Vec<&String> = m.fmap.iter().filter(|(n, i)| n.starts_with(p.as_str()) && m.funcs[**i].text.is_some()).map(|(n, _)| n).collect();
        ns.sort();
        entries.extend(ns.into_iter().cloned());
    }
    for e in &entries {
        match m.fmap.get(e) {
            Some(i) if m.funcs[*i].text.is_some() => {}
            _ => {
                eprintln!("rsym: no entry {} in the module", e);
                std::process::exit(2);
            }
        }
    }
    if entries.is_empty() {
        eprintln!("rsym: no entries");
        std::process::exit(2);
    }
    let mut handlers: Vec<H> = m.funcs.iter().map(|f| handler(&f.name, f.text.is_some())).collect();
    // Hashing is the harness's, if it wants: what it answers stands for every seed.
    if let Some(to) = m.funcs.iter().position(|f| f.name == "verif_hash" && f.text.is_some()) {
        for (i, f) in m.funcs.iter().enumerate() {
            if f.text.is_some() && f.name.contains("4hash3sip") && f.name.contains("6Hasher5write") {
                handlers[i] = H::To(to);
            }
        }
    }
    let parse_s = t0.elapsed().as_secs_f64();
    let sh = Shared {
        module: m,
        handlers,
        queue: Mutex::new((VecDeque::new(), 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        results: entries.iter().map(|e| Mutex::new(EntryRes { name: e.clone(), ..Default::default() })).collect(),
        deadline: Instant::now() + Duration::from_secs(time),
        stop: AtomicBool::new(false),
        max_ins,
        max_fail,
        merge: merge_w > 0,
        merge_w,
        params,
        nsamples,
        seed,
        trace_fn,
        stats: Mutex::new(Stats::default()),
        lead_len: 0,
    };
    for i in 0..entries.len() {
        sh.queue.lock().unwrap().0.push_back(Task { entry: i, trail: vec![], model: vec![] });
    }
    let crashed = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        Worker::new(&sh).run();
                    }));
                    if r.is_err() {
                        crashed.store(true, Ordering::SeqCst);
                        eprintln!("rsym: engine worker crashed");
                        std::process::exit(3);
                    }
                })
                .unwrap();
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let st = sh.stats.lock().unwrap().clone();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"solver\":{},\"parse_s\":{:.3},\"wall_s\":{:.3},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"folded\":{},\"merged\":{},\"solver_s\":{:.3},\"exprs\":{},\n\"entries\":[\n",
        js(&format!("z3 {}", z3::version())),
        parse_s,
        wall,
        st.queries,
        st.sat,
        st.unsat,
        st.cache_hits,
        st.folded,
        st.merged,
        st.solver_ns as f64 / 1e9,
        st.exprs
    );
    let mut bad = false;
    for (i, r) in sh.results.iter().enumerate() {
        let g = r.lock().unwrap();
        let status = if g.nfail > 0 {
            "violation"
        } else if g.nincon > 0 {
            "inconclusive"
        } else {
            "ok"
        };
        bad |= status != "ok";
        let funcs: Vec<String> = g.funcs.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| js(&demangle(&m.funcs[i].name))).collect();
        let kv = |m: &std::collections::BTreeMap<String, (u64, Vec<u8>)>| m.iter().map(|(k, v)| format!("{}:[{},\"{}\"]", js(k), v.0, hex(&v.1))).collect::<Vec<_>>().join(",");
        let _ = write!(
            o,
            "{} {{\"name\":{},\"status\":\"{}\",\"paths\":{},\"done\":{},\"assumed_out\":{},\"expected_panics\":{},\"forks\":{},\"decisions\":{},\"steps\":{},\"max_pc\":{},\"symbolic_bytes\":{},\"cpu_s\":{:.3},\n  \"nfail\":{},\"failures\":[{}],\n  \"nincon\":{},\"inconclusive\":[{}],\n  \"known\":{{{}}},\"reach\":{{{}}},\n  \"samples\":[{}],\n  \"functions\":[{}]}}",
            if i == 0 { "" } else { ",\n" },
            js(&g.name),
            status,
            g.paths,
            g.done,
            g.assumed,
            g.panics_ok,
            g.forks,
            g.decisions,
            g.steps,
            g.max_pc,
            g.max_vars,
            g.wall,
            g.nfail,
            fails(&g.failures),
            g.nincon,
            fails(&g.incon),
            kv(&g.known),
            kv(&g.reach),
            g.samples.iter().map(|s| format!("[\"{}\",\"{}\",\"{:016x}\"]", s.kind, hex(&s.input), s.trace)).collect::<Vec<_>>().join(","),
            funcs.join(",")
        );
    }
    o.push_str("\n]}\n");
    match out {
        Some(f) => std::fs::write(f, o).expect("write report"),
        None => print!("{}", o),
    }
    std::process::exit(if bad { 1 } else { 0 });
}
