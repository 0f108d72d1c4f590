//! Code generation: write failures, conflicts, determinism, names, documentation, headers.
use crate::shape::*;
use std::io;
use wayfinder::{Header, Method, NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes};

pub fn generate(c: &RouteConfig) -> Option<Vec<u8>> {
    let mut out = Vec::with_capacity(1 << 16);
    match wayfinder::gen::codegen(&mut out, c) {
        Ok(()) => Some(out),
        Err(_) => None,
    }
}

// ---------- configs

/// A config whose shape and names are symbolic, every name a few lower-case letters.
pub struct Gk {
    pub items: u32,
    pub depth: u32,
    /// query parameters, several modules, longer literals
    pub rich: bool,
    pub redirects: bool,
    pub len: usize,
}

fn letters(n: usize) -> String {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    let mut ok = true;
    for b in &v {
        ok &= (*b >= b'a') & (*b <= b'z');
    }
    sym::assume(ok);
    String::from_utf8(v).unwrap()
}

const METHODS: [Method; 4] = [Method::Get, Method::Post, Method::Put, Method::Delete];

impl Gk {
    fn resource(&mut self) -> Resource {
        let mut r = res(METHODS[sym::choose(if self.rich { 4 } else { 2 }) as usize], &[], "", self.redirects && sym::choose(2) == 1, vec![]);
        for _ in 0..sym::choose(if self.rich { 3 } else { 2 }) {
            r.modules.push(letters(self.len));
        }
        r.name = letters(self.len);
        if self.rich && sym::choose(2) == 1 {
            r.query_parameters.push(par("q", "T"));
        }
        r
    }

    pub fn routes(&mut self, level: u32) -> Routes {
        let mut r = Routes { resources: vec![], routes: vec![], query_parameters: vec![] };
        if self.rich && sym::choose(2) == 1 {
            r.query_parameters.push(par("k", "T"));
        }
        while self.items > 0 && sym::choose(2) == 1 {
            self.items -= 1;
            let x = self.resource();
            r.resources.push(x);
        }
        while self.items > 1 && level < self.depth && sym::choose(2) == 1 {
            self.items -= 1;
            let n = letters(self.len);
            let seg = match sym::choose(if self.rich { 3 } else { 2 }) {
                0 => PathSegment::Static(n),
                1 => PathSegment::Dynamic(par(&n, "T")),
                _ => PathSegment::Static(format!("{}x", n)),
            };
            let below = self.routes(level + 1);
            r.routes.push(NestedRoutes { path_segment: seg, routes: below });
        }
        if r.resources.is_empty() && r.routes.is_empty() {
            sym::end();
        }
        r
    }
}

/// A fixed config that takes the generator through all of its branches.
pub fn full() -> RouteConfig {
    full_with("foo", "id", "m", "Show")
}

pub fn full_with(lit: &str, par1: &str, module: &str, name: &str) -> RouteConfig {
    let leaf = |m: Method, ms: &[&str], n: &str| Routes { resources: vec![res(m, ms, n, false, vec![])], routes: vec![], query_parameters: vec![] };
    let at = |s: &str, r: Routes| NestedRoutes { path_segment: PathSegment::Static(s.into()), routes: r };
    let with = |p: Param, r: Routes| NestedRoutes { path_segment: PathSegment::Dynamic(p), routes: r };
    let mut root = leaf(Method::Get, &[], "Home");
    root.resources.push(res(Method::Post, &[module, "inner"], name, false, vec![par("q", "Q")]));
    root.query_parameters.push(par("lang", "L"));
    // a prefix of its sibling; a fork; a single literal; literals and a parameter
    root.routes.push(at("user", leaf(Method::Get, &["u"], "A")));
    root.routes.push(at("users", leaf(Method::Get, &["u"], "B")));
    let mut one = leaf(Method::Put, &[], "One");
    one.routes.push(at(lit, leaf(Method::Get, &[module], "Lit")));
    one.routes.push(with(par(par1, "P"), leaf(Method::Delete, &[module], "Par")));
    root.routes.push(at("x", one));
    let mut two = Routes::default();
    two.routes.push(at("abc", leaf(Method::Get, &[], "C1")));
    two.routes.push(at("abd", leaf(Method::Get, &[], "C2")));
    two.routes.push(with(par("p", "P"), leaf(Method::Get, &[], "C3")));
    root.routes.push(with(par("end", "E"), two));
    let mut red = Routes::default();
    red.resources.push(res(Method::Get, &[], "Home", true, vec![]));
    root.routes.push(at("go", red));
    RouteConfig { headers: vec![Header { text: "use a;".into() }], routes: root }
}

// ---------- what clashes

fn eq(a: &str, b: &str) -> bool {
    crate::spells::same(a.as_bytes(), b.as_bytes())
}

fn direct<'a>(r: &'a Routes, out: &mut Vec<&'a Resource>) {
    out.extend(r.resources.iter().filter(|x| !x.is_redirect));
    for n in &r.routes {
        direct(&n.routes, out);
    }
}

fn clash_below(r: &Routes) -> bool {
    for i in 0..r.resources.len() {
        for j in 0..i {
            if r.resources[i].method == r.resources[j].method {
                return true;
            }
        }
    }
    for i in 0..r.routes.len() {
        for j in 0..i {
            match (&r.routes[i].path_segment, &r.routes[j].path_segment) {
                (PathSegment::Static(a), PathSegment::Static(b)) => {
                    if eq(a, b) {
                        return true;
                    }
                }
                // two parameters: side by side, or the same path
                (PathSegment::Dynamic(_), PathSegment::Dynamic(_)) => return true,
                _ => {}
            }
        }
        if clash_below(&r.routes[i].routes) {
            return true;
        }
    }
    false
}

pub fn clash(r: &Routes) -> bool {
    if clash_below(r) {
        return true;
    }
    let mut d = vec![];
    direct(r, &mut d);
    for i in 0..d.len() {
        for j in 0..i {
            let (a, b) = (d[i], d[j]);
            if a.modules.len() == b.modules.len() && eq(&a.name, &b.name) && (0..a.modules.len()).all(|k| eq(&a.modules[k], &b.modules[k])) {
                return true;
            }
        }
    }
    false
}

fn config(rich: bool) -> RouteConfig {
    let mut g = Gk { items: sym::param(0) as u32, depth: sym::param(1) as u32, rich, redirects: true, len: sym::param(2) as usize };
    let c = RouteConfig { headers: vec![], routes: g.routes(1) };
    sym::say(|| format!("{:?}", c.stringify()));
    c
}

// ---------- G02

#[no_mangle]
pub fn g02() {
    refuses(config(false));
}

fn refuses(c: RouteConfig) {
    let bad = clash(&c.routes);
    sym::panic_ok(bad);
    match generate(&c) {
        None => {
            sym::check(bad, "a config without conflicts is refused");
            sym::reach("refused");
        }
        Some(o) => {
            sym::trace(&o);
            sym::check(!bad, "conflicting declarations are accepted");
            sym::reach("generated");
        }
    }
}

/// Siblings that may spell the same path, with their resources anywhere at or below them.
#[no_mangle]
pub fn g02_paths() {
    let mut n = 0;
    let mut leaf = |verb: u32| {
        n += 1;
        res(METHODS[verb as usize], &[], &format!("A{}", n), false, vec![])
    };
    let seg = |n: usize| match sym::choose(3) {
        0 => PathSegment::Static(letters(1)),
        1 => PathSegment::Static(letters(2)),
        _ => PathSegment::Dynamic(par(["p", "r"][n % 2], "T")),
    };
    let mut r = Routes::default();
    let k = 2 + sym::choose(sym::param(0) as u32 - 1);
    for i in 0..k {
        let mut below = Routes::default();
        let own = sym::choose(2) == 1;
        if own {
            below.resources.push(leaf(sym::choose(2)));
        }
        let below_n = sym::choose(1 + sym::param(1) as u32);
        if !own && below_n == 0 {
            sym::end();
        }
        for _ in 0..below_n {
            below.routes.push(NestedRoutes { path_segment: PathSegment::Static(letters(1)), routes: Routes { resources: vec![leaf(0)], routes: vec![], query_parameters: vec![] } });
        }
        r.routes.push(NestedRoutes { path_segment: seg(i as usize * sym::choose(2) as usize), routes: below });
    }
    let c = RouteConfig { headers: vec![], routes: r };
    sym::say(|| format!("{:?}", c.stringify()));
    refuses(c);
}

/// Large configs, in which one letter may make a conflict, or one part is there twice.
#[no_mangle]
pub fn g02_big() {
    let mut c = crate::big::any(sym::param(0) as usize, true);
    let k = sym::choose(5);
    if k > 0 {
        let r = &mut c.routes;
        let n = r.routes.len();
        let m = r.resources.len();
        match k {
            // the first or last route again, with another resource
            1 | 2 if n > 0 => {
                let at = if k == 1 { 0 } else { n - 1 };
                let seg = r.routes[at].path_segment.clone();
                r.routes.insert(n / 2, NestedRoutes { path_segment: seg, routes: Routes { resources: vec![res(Method::Get, &[], "Twice", false, vec![])], routes: vec![], query_parameters: vec![] } });
            }
            // a method again
            3 if m > 0 => {
                let x = res(r.resources[m - 1].method, &[], "Twice", true, vec![]);
                r.resources.insert(0, x);
            }
            // a name again, deep inside
            4 => {
                let mut d = vec![];
                direct(r, &mut d);
                let x = d[d.len() / 2].clone();
                let mut at = &mut *r;
                while !at.routes.is_empty() {
                    let last = at.routes.len() - 1;
                    at = &mut at.routes[last].routes;
                }
                at.routes.push(NestedRoutes { path_segment: PathSegment::Static("twice".into()), routes: Routes { resources: vec![x], routes: vec![], query_parameters: vec![] } });
            }
            _ => sym::end(),
        }
    }
    refuses(c);
}

// ---------- G05

#[no_mangle]
pub fn g05() {
    let c = config(true);
    accepted(c);
}

fn accepted(c: RouteConfig) {
    if clash(&c.routes) {
        sym::end();
    }
    match generate(&c) {
        None => sym::fail("a config without conflicts is refused"),
        Some(o) => {
            sym::trace(&o);
            sym::reach("generated");
        }
    }
}

#[no_mangle]
pub fn g05_big() {
    accepted(crate::big::any(sym::param(0) as usize, sym::param(1) == 1));
}

/// Siblings that share more or less of their text, with or without a parameter beside them.
#[no_mangle]
pub fn g05_trie() {
    let k = 1 + sym::choose(sym::param(0) as u32);
    let leaf = |n: String| Routes { resources: vec![res(Method::Get, &[], &n, false, vec![])], routes: vec![], query_parameters: vec![] };
    let mut r = Routes::default();
    for i in 0..k {
        let name = free_ident(1 + sym::choose(sym::param(1) as u32) as usize);
        let seg = PathSegment::Static(name);
        let mut below = if sym::choose(2) == 0 { leaf(format!("A{}", i)) } else { Routes::default() };
        match sym::choose(3) {
            0 => {}
            1 => below.routes.push(NestedRoutes { path_segment: PathSegment::Static("b".into()), routes: leaf(format!("B{}", i)) }),
            _ => below.routes.push(NestedRoutes { path_segment: PathSegment::Dynamic(par("d", "T")), routes: leaf(format!("D{}", i)) }),
        }
        if below.resources.is_empty() && below.routes.is_empty() {
            sym::end();
        }
        r.routes.push(NestedRoutes { path_segment: seg, routes: below });
    }
    if sym::choose(2) == 1 {
        r.routes.push(NestedRoutes { path_segment: PathSegment::Dynamic(par("p", "T")), routes: leaf("P".into()) });
    }
    let c = RouteConfig { headers: vec![], routes: r };
    sym::say(|| format!("{:?}", c.stringify()));
    accepted(c);
}

// ---------- G01

/// Any number up to at least `n`.
fn some_place(n: usize) -> usize {
    (sym::choose(n as u32 / 256 + 1) as usize) << 8 | sym::u8() as usize
}

/// Accepts so many bytes, then fails as told.
struct Full {
    got: Vec<u8>,
    room: usize,
    how: u32,
    kind: io::ErrorKind,
    failed: bool,
}

impl io::Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            return match self.how {
                // it was only that once
                1 => Ok(self.take(b)),
                _ => Err(self.kind.into()),
            };
        }
        if b.is_empty() || sym::decide(self.got.len() + b.len() <= self.room) {
            return Ok(self.take(b));
        }
        if self.how == 2 && b.len() > 1 {
            // the last bytes that fit
            self.how = 3;
            self.room = 0;
            let k = if sym::choose(2) == 0 { 1 } else { b.len() - 1 };
            return Ok(self.take(&b[..k]));
        }
        self.failed = true;
        match self.how {
            4 => Ok(0),
            _ => Err(self.kind.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Full {
    fn take(&mut self, b: &[u8]) -> usize {
        if !self.failed {
            self.got.extend_from_slice(b);
        }
        b.len()
    }
}

/// 0: any of the configs; 1: the one that takes every branch; 2: the others
fn which(set: u64) -> RouteConfig {
    match if set == 1 { 0 } else { sym::choose(if set == 0 { 3 } else { 2 }) + (set == 2) as u32 } {
        0 => full(),
        1 => RouteConfig { headers: vec![Header { text: "use b;".into() }, Header { text: "use c;".into() }], routes: full().routes.routes[2].routes.clone() },
        _ => RouteConfig { headers: vec![], routes: Routes { resources: vec![res(Method::Get, &[], "A", false, vec![])], routes: vec![], query_parameters: vec![] } },
    }
}

#[no_mangle]
pub fn g01() {
    let c = which(sym::param(0));
    let whole = match generate(&c) {
        Some(w) => w,
        None => sym::fail("generation fails without a reason"),
    };
    let room = some_place(whole.len());
    let how = [0, 1, 2, 4][sym::choose(sym::param(1) as u32) as usize];
    let kind = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidInput][if how == 0 && sym::param(1) > 2 { sym::choose(4) as usize } else { 0 }];
    let mut w = Full { got: Vec::with_capacity(whole.len() + 16), room, how, kind, failed: false };
    let r = wayfinder::gen::codegen(&mut w, &c);
    sym::trace(&w.got);
    sym::say(|| format!("room for {} of {} bytes, then {}", room, whole.len(), ["an error", "an error once", "a short write and an error", "", "a write of nothing"][how as usize]));
    judge(&w, r, &whole);
}

fn judge(w: &Full, r: io::Result<()>, whole: &[u8]) {
    let n = w.got.len();
    if w.failed {
        sym::check(r.is_err(), "a write failed, yet generation reports success");
        sym::check(n <= whole.len() && crate::spells::same(&w.got, &whole[..n]), "what was written before the failure is not the beginning of the module");
        sym::reach("failed");
    } else {
        sym::check(r.is_ok(), "generation fails although every write succeeded");
        sym::check(crate::spells::same(&w.got, whole), "success, but the output is not the complete module");
        sym::reach("complete");
    }
}

/// Writes that take less than they were given, or ask to be repeated, are no failures.
struct Slow {
    got: Vec<u8>,
    room: usize,
    left: u32,
    every: bool,
}

impl io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len();
        if self.every {
            n = if n > 3 { 3 } else { n };
        } else if self.left > 0 && n > 0 {
            if !sym::decide(self.got.len() + n <= self.room) {
                self.left -= 1;
                match sym::choose(3) {
                    0 => return Err(io::ErrorKind::Interrupted.into()),
                    1 => n = 1,
                    _ => n = (n + 1) / 2,
                }
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[no_mangle]
pub fn g01_slow() {
    let c = which(sym::param(0));
    let whole = match generate(&c) {
        Some(w) => w,
        None => sym::fail("generation fails without a reason"),
    };
    let every = sym::choose(2) == 1;
    let room = if every { 0 } else { some_place(whole.len()) };
    let mut w = Slow { got: Vec::with_capacity(whole.len() + 16), room, left: sym::param(1) as u32, every };
    let r = wayfinder::gen::codegen(&mut w, &c);
    sym::trace(&w.got);
    sym::check(r.is_ok(), "generation fails although no write failed");
    sym::check(crate::spells::same(&w.got, &whole), "success, but the output is not the complete module");
    sym::reach("complete");
}

/// Large configs, failing at some places.
#[no_mangle]
pub fn g01_big() {
    let c = crate::big::any(sym::param(0) as usize, false);
    let whole = match generate(&c) {
        Some(w) => w,
        None => sym::fail("generation fails without a reason"),
    };
    let n = sym::param(1) as usize;
    let room = whole.len() * sym::choose(n as u32) as usize / n + sym::choose(2) as usize * 5;
    let mut w = Full { got: Vec::with_capacity(whole.len() + 16), room, how: sym::choose(3), kind: io::ErrorKind::Other, failed: false };
    let r = wayfinder::gen::codegen(&mut w, &c);
    judge(&w, r, &whole);
}

// ---------- G03

#[no_mangle]
pub fn g03() {
    let n = 1 + sym::choose(sym::param(0) as u32);
    let mut r = Routes { resources: vec![], routes: vec![], query_parameters: vec![] };
    for k in 0..n {
        let mut x = res(METHODS[k as usize % 4], &[], "", false, vec![]);
        let ms: &[&str] = [&[][..], &["m"], &["n"], &["m", "n"]][sym::choose(sym::param(1) as u32) as usize];
        x.modules = ms.iter().map(|m| m.to_string()).collect();
        x.name = letters(1);
        r.routes.push(NestedRoutes { path_segment: PathSegment::Static(format!("s{}", k)), routes: Routes { resources: vec![x], routes: vec![], query_parameters: vec![] } });
    }
    let c = RouteConfig { headers: vec![], routes: r };
    sym::say(|| format!("{:?}", c.stringify()));
    if clash(&c.routes) {
        sym::end();
    }
    twice(&c);
}

/// Resources, or modules, with any names.
#[no_mangle]
pub fn g03_names() {
    let mut r = Routes { resources: vec![], routes: vec![], query_parameters: vec![] };
    let modules = sym::choose(2) == 1;
    for k in 0..sym::param(0) as usize {
        let mut v = vec![0u8; sym::param(1) as usize];
        sym::bytes(&mut v);
        let mut ok = true;
        for b in &v {
            ok &= ((*b | 32) >= b'a') & ((*b | 32) <= b'z');
        }
        sym::assume(ok);
        let mut x = res(METHODS[k % 4], &[], "A", false, vec![]);
        let name = String::from_utf8(v).unwrap();
        if modules {
            x.modules.push(name);
        } else {
            x.name = name;
        }
        r.routes.push(NestedRoutes { path_segment: PathSegment::Static(format!("s{}", k)), routes: Routes { resources: vec![x], routes: vec![], query_parameters: vec![] } });
    }
    let c = RouteConfig { headers: vec![], routes: r };
    sym::say(|| format!("{:?}", c.stringify()));
    if clash(&c.routes) {
        sym::end();
    }
    twice(&c);
}

/// Large configs, under several hash functions.
#[no_mangle]
pub fn g03_big() {
    let c = crate::big::any(sym::param(0) as usize, false);
    let first = vary(&c, 1);
    let runs = if sym::ENGINE { 1 } else { 20 };
    let seed = sym::choose(sym::param(1) as u32);
    for _ in 0..runs {
        unsafe { SEED = seed as u64 + 1 }
        let again = vary(&c, 1);
        unsafe { SEED = 0 }
        sym::check(crate::spells::same(&first, &again), "the same config gives a different module");
    }
    sym::reach("generated twice");
}

fn twice(c: &RouteConfig) {
    let runs = if sym::ENGINE { 1 } else { 100 };
    let first = vary(c, 1);
    sym::trace(&first);
    for _ in 0..runs {
        let again = vary(c, sym::param(2) as u32);
        sym::check(crate::spells::same(&first, &again), "the same config gives a different module");
    }
    sym::reach("generated twice");
}

/// Generates under some hash function.
fn vary(c: &RouteConfig, ways: u32) -> Vec<u8> {
    unsafe {
        (*std::ptr::addr_of_mut!(SEEN)).clear();
        WAYS = ways;
    }
    let o = generate(c);
    unsafe { WAYS = 1 }
    match o {
        Some(o) => o,
        None => sym::fail("a config without conflicts is refused"),
    }
}

// ---------- hashing

struct Seen {
    text: Vec<u8>,
    hash: u64,
}
static mut SEEN: Vec<Seen> = Vec::new();
static mut WAYS: u32 = 1;
/// Not zero: hash functions that differ from each other, for concrete keys.
static mut SEED: u64 = 0;

/// Under the engine, stands in for the hash function of `HashMap`: with one way, every key
/// collides (maps stay maps, only equality decides); with more, each key's hash is any of them.
#[no_mangle]
pub unsafe extern "C" fn verif_hash(state: *mut u64, p: *const u8, n: usize) {
    let b = std::slice::from_raw_parts(p, n);
    if n == 1 && b[0] == 0xff {
        return;
    }
    let h = if SEED > 0 {
        let mut h = SEED.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(17);
        }
        h
    } else if WAYS <= 1 { 1 } else { hash_of(b) };
    for i in 0..9 {
        let w = state.add(i);
        *w = w.read().wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(h);
    }
}

unsafe fn hash_of(b: &[u8]) -> u64 {
    let seen = &mut *std::ptr::addr_of_mut!(SEEN);
    for s in seen.iter() {
        if crate::spells::same(&s.text, b) {
            return s.hash;
        }
    }
    let hash = sym::choose(WAYS) as u64 * 0x1_0001_0001 + 7;
    seen.push(Seen { text: b.to_vec(), hash });
    hash
}

// ---------- G04

fn upper(b: u8) -> u8 {
    let low = (b >= b'a') & (b <= b'z');
    if sym::decide(low) {
        b - 32
    } else {
        b
    }
}

/// Types and variants: the first letter capitalised, each `_x` turned into `X`.
fn caps(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut up = true;
    for b in s {
        if sym::decide(*b == b'_') {
            up = true;
        } else {
            o.push(if up { upper(*b) } else { *b });
            up = false;
        }
    }
    o
}

/// Modules: lower case, with `_` before each inner capital.
fn snake(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (i, b) in s.iter().enumerate() {
        if sym::decide((*b >= b'A') & (*b <= b'Z')) {
            if i > 0 {
                o.push(b'_');
            }
            o.push(b + 32);
        } else {
            o.push(*b);
        }
    }
    o
}

fn names(n: &[&str; 9]) -> RouteConfig {
    let go = |s: PathSegment, r: Routes| NestedRoutes { path_segment: s, routes: r };
    let lit = |s: &str| PathSegment::Static(s.to_string());
    let mut root = Routes { resources: vec![res(Method::Get, &[n[0], n[1]], n[2], false, vec![par(n[3], n[4])])], routes: vec![], query_parameters: vec![par("lang", "Lang")] };
    let inner = Routes { resources: vec![res(Method::Put, &[n[0]], n[5], false, vec![])], routes: vec![], query_parameters: vec![par("page", n[4])] };
    let other = Routes { resources: vec![res(Method::Post, &[n[0], n[1]], n[2], true, vec![par(n[3], n[4])])], routes: vec![], query_parameters: vec![] };
    let below = Routes { resources: vec![], routes: vec![go(PathSegment::Dynamic(par(n[6], n[7])), inner)], query_parameters: vec![] };
    root.routes.push(go(lit(n[8]), below));
    // in the same place as the placeholder, whatever it spells
    let last = Routes { resources: vec![], routes: vec![go(lit("go"), other)], query_parameters: vec![] };
    root.routes.push(go(PathSegment::Dynamic(par("any", "Any")), last));
    RouteConfig { headers: vec![], routes: root }
}

/// One name is symbolic; the module must be the one for another name in its place, with every
/// occurrence replaced in the same style.
#[no_mangle]
pub fn g04() {
    let n = sym::param(0) as usize;
    let slot = sym::choose(9) as usize;
    // a placeholder whose three spellings differ from each other and from everything else
    let hold = &"zQ_vKwjWpxYqZvX"[..n];
    let mut c = ["mod1", "mod2", "Res1", "par1", "Typ1", "Res2", "par2", "Typ2", "lit1"];
    c[slot] = hold;
    let before = match generate(&names(&c)) {
        Some(t) => t,
        None => sym::fail("a config without conflicts is refused"),
    };
    let new = free_ident(n);
    let b = new.as_bytes();
    // names that start like one, end like one and have no two underscores in a row
    let mut ok = ((b[0] < b'0') | (b[0] > b'9')) & (b[0] != b'_') & (b[n - 1] != b'_');
    for i in 1..n {
        ok &= (b[i] != b'_') | (b[i - 1] != b'_');
    }
    sym::assume(ok);
    for x in ["end", "i", "len", "method", "path", "start", "text", "par1", "par2", "any", "lang", "page", "mod1", "mod2"] {
        if x.len() == n && eq(x, &new) {
            sym::end();
        }
    }
    c[slot] = &new;
    sym::say(|| format!("name {} is {:?}", slot, new));
    let after = match generate(&names(&c)) {
        Some(t) => t,
        None => sym::fail("a config without conflicts is refused"),
    };
    sym::trace(&after);
    let h = hold.as_bytes();
    let mut forms = vec![(h.to_vec(), b.to_vec()), (caps(h), caps(b)), (snake(h), snake(b))];
    forms.sort_by_key(|f| !f.0.len());
    let mut want = Vec::with_capacity(before.len() + 100);
    let mut i = 0;
    let mut found = 0;
    'at: while i < before.len() {
        for f in &forms {
            if before[i..].starts_with(&f.0) {
                want.extend_from_slice(&f.1);
                i += f.0.len();
                found += 1;
                continue 'at;
            }
        }
        want.push(before[i]);
        i += 1;
    }
    sym::check(found > 1, "the name does not appear");
    sym::check(crate::spells::same(&want, &after), "a name is not spelled the same way everywhere");
    sym::reach("renamed");
}

// ---------- G06

fn split(t: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut from = 0;
    for i in 0..t.len() {
        if sym::decide(t[i] == b'\n') {
            v.push(&t[from..i]);
            from = i + 1;
        }
    }
    v
}

fn lead(l: &[u8]) -> usize {
    let mut n = 0;
    while n < l.len() && sym::decide(l[n] == b' ') {
        n += 1;
    }
    n
}

fn starts(l: &[u8], s: &[u8]) -> bool {
    l.len() >= s.len() && crate::spells::same(&l[..s.len()], s)
}

fn word(l: &[u8]) -> &[u8] {
    let mut n = 0;
    while n < l.len() && ident_char(l[n]) {
        n += 1;
    }
    &l[..n]
}

/// The resources that are no redirects: their module and type as text, and what to show.
fn shown(r: &Routes, path: &str, out: &mut Vec<(Vec<u8>, Vec<u8>)>) {
    for x in r.resources.iter().filter(|x| !x.is_redirect) {
        let mut at = vec![];
        for m in &x.modules {
            at.extend_from_slice(&snake(m.as_bytes()));
            at.extend_from_slice(b"::");
        }
        at.extend_from_slice(&caps(x.name.as_bytes()));
        let verb = ["GET", "POST", "PUT", "DELETE"][METHODS.iter().position(|m| *m == x.method).unwrap()];
        out.push((at, format!("{} {}", verb, if path.is_empty() { "/" } else { path }).into_bytes()));
    }
    for n in &r.routes {
        let p = match &n.path_segment {
            PathSegment::Static(s) => format!("{}/{}", path, s),
            PathSegment::Dynamic(p) => format!("{}/{{{}}}", path, p.name),
        };
        shown(&n.routes, &p, out);
    }
}

#[no_mangle]
pub fn g06() {
    documented(config(true));
}

#[no_mangle]
pub fn g06_full() {
    let n = sym::param(0) as usize;
    let slot = sym::choose(4) as usize;
    let new = letters(n);
    let mut c = ["foo", "id", "m", "Show"];
    c[slot] = &new;
    documented(full_with(c[0], c[1], c[2], c[3]));
}

#[no_mangle]
pub fn g06_big() {
    documented(crate::big::any(sym::param(0) as usize, sym::param(1) == 1));
}

fn documented(c: RouteConfig) {
    if clash(&c.routes) {
        sym::end();
    }
    let out = match generate(&c) {
        Some(o) => o,
        None => sym::fail("a config without conflicts is refused"),
    };
    sym::trace(&out);
    let lines = split(&out);
    // the config, as a block of the module's documentation
    let mut text = vec![];
    let mut inside = false;
    let mut blocks = 0;
    for l in &lines {
        let l = &l[lead(l)..];
        if !starts(l, b"//!") {
            continue;
        }
        if starts(l, b"//! ```") {
            inside = !inside;
            blocks += inside as u32;
        } else if inside {
            sym::check(starts(l, b"//! "), "a line of the route configuration is cut short");
            text.extend_from_slice(&l[4..]);
            text.push(b'\n');
        }
    }
    sym::check(blocks == 1 && !inside, "the route configuration is not one block");
    let plain = RouteConfig { headers: vec![], routes: c.routes.clone() };
    sym::check(crate::spells::spells(&text, &plain), "the documented configuration is not the config's");
    // each resource above its type
    let mut want = vec![];
    shown(&c.routes, "", &mut want);
    let mut mods: Vec<(usize, Vec<u8>)> = vec![];
    let mut docs: Vec<&[u8]> = vec![];
    let mut seen = 0;
    for l in &lines {
        let n = lead(l);
        let l = &l[n..];
        if starts(l, b"pub mod ") {
            let w = word(&l[8..]).to_vec();
            mods.push((n, w));
        } else if l.len() > 0 && l[0] == b'}' && mods.len() > 0 && mods[mods.len() - 1].0 == n {
            mods.pop();
        } else if starts(l, b"///") {
            docs.push(l);
            continue;
        } else if starts(l, b"#[") {
            continue;
        } else if starts(l, b"pub struct ") {
            let mut at = vec![];
            for m in &mods[1..] {
                at.extend_from_slice(&m.1);
                at.extend_from_slice(b"::");
            }
            at.extend_from_slice(word(&l[11..]));
            for w in &want {
                if crate::spells::same(&w.0, &at) {
                    let mut q = vec![b'`'];
                    q.extend_from_slice(&w.1);
                    q.push(b'`');
                    let has = docs.iter().any(|d| (0..d.len()).any(|i| d[i] == b'`' && starts(&d[i..], &q)));
                    sym::check(has, "a resource's documentation does not show its method and path");
                    seen += 1;
                }
            }
        }
        docs.clear();
    }
    sym::check(seen == want.len(), "a resource is not documented exactly once");
    sym::reach("documented");
}

// ---------- L06

/// Each module has every header once, in order, at its start.
#[no_mangle]
pub fn l06_gen() {
    let k = 1 + sym::choose(sym::param(0) as u32) as usize;
    let mut hs = vec![];
    for i in 0..k {
        hs.push(Header { text: if i == 0 { crate::header(sym::param(1) as usize) } else { ["use c::d;", "#[allow(x)] use é;", "use a::b;"][sym::choose(3) as usize].to_string() } });
    }
    // no line of the module itself
    if hs[0].text.as_bytes()[0] == b'}' {
        sym::end();
    }
    headed(hs, which(sym::param(2)).routes);
}

/// Many headers, in large configs.
#[no_mangle]
pub fn l06_big() {
    let size = sym::param(0) as usize;
    let hs = crate::big::big(6, size, true).headers;
    headed(hs, crate::big::any(size, false).routes);
}

fn headed(hs: Vec<Header>, routes: Routes) {
    let k = hs.len();
    let with = RouteConfig { headers: hs, routes: routes.clone() };
    let a = generate(&with);
    let b = generate(&RouteConfig { headers: vec![], routes });
    let (a, b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => sym::fail("a config without conflicts is refused"),
    };
    sym::trace(&a);
    sym::say(|| format!("{:?}", with.headers));
    let (a, b) = (split(&a), split(&b));
    let mut j = 0;
    // per open module: its headers so far
    let mut mods: Vec<(usize, usize)> = vec![];
    for l in &a {
        if j < b.len() && crate::spells::same(l, b[j]) {
            j += 1;
            let n = lead(l);
            if starts(&l[n..], b"pub mod ") {
                mods.push((n, 0));
            } else if l.len() > n && l[n] == b'}' && mods.len() > 0 && mods[mods.len() - 1].0 == n {
                sym::check(mods.pop().unwrap().1 == k, "a module lacks a header");
            }
            continue;
        }
        if l.is_empty() {
            continue;
        }
        sym::check(!mods.is_empty(), "a header outside of the module");
        let t = mods.len() - 1;
        let i = mods[t].1;
        sym::check(i < k, "a header line is repeated in a module");
        let h = with.headers[i].text.as_bytes();
        sym::check(l.len() >= h.len() && crate::spells::same(&l[l.len() - h.len()..], h), "a header is changed, or its order");
        sym::check(lead(&l[..l.len() - h.len()]) == l.len() - h.len(), "a header is changed");
        mods[t].1 += 1;
    }
    sym::check(j == b.len() && mods.is_empty(), "a header swallowed part of the module");
    sym::reach("in every module");
}

// ---------- R10

/// Mounting: the headers of both, each once and in order; the routes of both, untouched.
/// Headers of any text, and any name as the prefix.
#[no_mangle]
pub fn r10_headers() {
    let mut all = vec![];
    let split = [sym::choose(sym::param(0) as u32 + 1), sym::choose(sym::param(0) as u32 + 1)];
    for _ in 0..split[0] + split[1] {
        let text = match sym::choose(4) {
            0 => format!("use a{};", ["", " ", " // é", "\t"][sym::choose(4) as usize]),
            k => {
                let mut t = vec![0u8; k as usize];
                sym::bytes(&mut t);
                let mut ok = true;
                for b in &t {
                    ok &= (*b < 0x80) & (*b != b'\n') & (*b != b'\r');
                }
                sym::assume(ok);
                String::from_utf8(t).unwrap()
            }
        };
        all.push(Header { text });
    }
    let ih = all.split_off(split[0] as usize);
    let mut at = vec![0u8; 1 + sym::choose(sym::param(1) as u32) as usize];
    sym::bytes(&mut at);
    let mut ok = true;
    for b in &at {
        let low = *b | 0x20;
        ok &= ((low >= b'a') & (low <= b'z')) | ((*b >= b'0') & (*b <= b'9')) | (*b == b'_') | (*b == b'-');
    }
    sym::assume(ok);
    mounted(all, ih, Routes::default(), full().routes.routes[2].routes.clone(), String::from_utf8(at).unwrap());
}

#[no_mangle]
pub fn r10_merge() {
    let heads = |n: u32| -> Vec<Header> { (0..sym::choose(n + 1)).map(|_| Header { text: letters(1) }).collect() };
    let (oh, ih) = (heads(sym::param(0) as u32), heads(sym::param(1) as u32));
    // a config has each of its own headers once
    let mut g = Gk { items: sym::param(2) as u32, depth: 2, rich: true, redirects: true, len: 1 };
    let outer = if sym::choose(2) == 0 { full().routes } else { g.routes(1) };
    let inner = if sym::choose(2) == 0 { full().routes.routes[2].routes.clone() } else { g.routes(1) };
    mounted(oh, ih, outer, inner, letters(2));
}

fn mounted(oh: Vec<Header>, ih: Vec<Header>, outer: Routes, inner: Routes, at: String) {
    let m = RouteConfig { headers: oh.clone(), routes: outer.clone() }.mount(&at, RouteConfig { headers: ih.clone(), routes: inner.clone() });
    let mut want: Vec<&Header> = vec![];
    for h in oh.iter().chain(ih.iter()) {
        if !want.iter().any(|w| eq(&w.text, &h.text)) {
            want.push(h);
        }
    }
    for h in &m.headers {
        sym::trace(h.text.as_bytes());
    }
    sym::say(|| format!("{:?} + {:?} at {} = {:?}", oh, ih, at, m.stringify()));
    sym::check(m.headers.len() == want.len() && (0..want.len()).all(|i| eq(&m.headers[i].text, &want[i].text)), "the merged headers are not those of both, each once and in order");
    let mut routes = outer;
    routes.routes.push(NestedRoutes { path_segment: PathSegment::Static(at), routes: inner });
    sym::check(crate::same_routes(&m.routes, &routes), "mounting changed the routes");
    sym::reach("merged");
}
