//! Harness for the routers wayfinder generates: every module of the corpus was generated by the
//! real code from /repo just before this crate was built.
#![allow(clippy::all)]
pub mod refr;
pub mod types;
use refr::*;

include!(concat!(env!("VERIF_CORPUS"), "/corpus.rs"));

/// A request path of one of the shapes the run was asked for.
///
/// shape 0: every byte string of length 0..=param(1)
/// shape 1: a declared path (parameters are symbolic texts) with one arbitrary edit
fn request(r: &'static Router, ascii: bool) -> Vec<u8> {
    match sym::choose(2) {
        0 => {
            let n = sym::choose(sym::param(0) as u32 + 1) as usize;
            let mut b = vec![0u8; n];
            sym::bytes(&mut b);
            if ascii {
                low(&b);
            }
            b
        }
        _ => guided(r, ascii),
    }
}

fn low(b: &[u8]) {
    for x in b {
        sym::assume(*x < 0x80);
    }
}

fn text(p: &mut Vec<u8>, ascii: bool, max: usize) {
    let k = sym::choose(max as u32 + 3) as usize;
    if k == max + 2 {
        // a long text
        p.extend_from_slice(&[b'a'; 300]);
        p.push(free(ascii));
        return;
    }
    if k == max + 1 {
        // a character of two bytes and one of four, with a free byte between
        p.extend_from_slice("é".as_bytes());
        let b = sym::u8();
        sym::assume(b < 0x80);
        p.push(b);
        p.extend_from_slice("𝄞".as_bytes());
        return;
    }
    for _ in 0..k {
        let b = sym::u8();
        if ascii {
            sym::assume(b < 0x80);
        }
        p.push(b);
    }
}

fn multibyte(p: &[u8]) -> bool {
    p.iter().any(|b| !sym::decide(*b < 0x80))
}

fn declared(r: &'static Router, ascii: bool) -> Vec<u8> {
    let pats = r.table.pats;
    let pat = pats[sym::choose(pats.len() as u32) as usize];
    let mut p = vec![];
    let mut budget = sym::param(1) as usize;
    p.push(b'/');
    // of many parameters, any one varies freely and the others are any one character
    let n = pat.iter().filter(|s| matches!(s, Seg::P(_))).count();
    let focus = if n > 3 { sym::choose(n as u32) as usize } else { 0 };
    let mut nth = 0;
    for (i, s) in pat.iter().enumerate() {
        if i > 0 {
            p.push(b'/');
        }
        match s {
            Seg::L(l) => p.extend_from_slice(l.as_bytes()),
            Seg::P(_) => {
                nth += 1;
                if n > 3 && nth - 1 != focus {
                    p.push(free(ascii));
                    continue;
                }
                text(&mut p, ascii, budget);
                // later parameters of one path get shorter texts
                budget = if budget > 1 { budget - 1 } else { 1 };
            }
        }
    }
    p
}

fn free(ascii: bool) -> u8 {
    let b = sym::u8();
    if ascii {
        sym::assume(b < 0x80);
    }
    b
}

/// A place in a path: any, or in a long one any near its ends and middle.
fn place(n: usize) -> usize {
    if n <= 100 {
        return sym::choose(n as u32) as usize;
    }
    let k = sym::choose(36) as usize;
    match k / 12 {
        0 => k,
        1 => n / 2 - 6 + k % 12,
        _ => n - 36 + k,
    }
}

fn guided(r: &'static Router, ascii: bool) -> Vec<u8> {
    let mut p = declared(r, ascii);
    match sym::choose(6) {
        0 => {}
        1 => {
            let n = place(p.len());
            p.truncate(n);
        }
        2 => {
            let n = place(p.len());
            p[n] = free(ascii);
        }
        3 => {
            let n = place(p.len() + 1);
            let b = free(ascii);
            p.insert(n, b);
        }
        4 => {
            let n = place(p.len());
            p.remove(n);
        }
        _ => {
            p.push(b'/');
            for _ in 0..sym::choose(3) {
                p.push(free(ascii));
            }
        }
    }
    // an edit must not leave half a character behind (unless any byte goes)
    if ascii && multibyte(&p) && std::str::from_utf8(&p).is_err() {
        sym::end();
    }
    p
}

static mut METHOD: [u8; 8] = [0; 8];

/// Any byte string of up to 7 bytes; its length is symbolic too.
fn method() -> &'static [u8] {
    unsafe {
        let m = &mut *std::ptr::addr_of_mut!(METHOD);
        sym::bytes(m);
        let n = m[7];
        sym::assume(n <= 7);
        std::slice::from_raw_parts(m.as_ptr(), n as usize)
    }
}

fn say(r: &'static Router, path: &[u8], m: &[u8], o: &Out) {
    sym::say(|| format!("table {}: {} {:?} -> {:?} {} {:?} {}{}", r.table.name, String::from_utf8_lossy(m), String::from_utf8_lossy(path), o.kind, o.res, o.params, o.err, o.link))
}

fn pick(set: &'static [usize]) -> &'static Router {
    let only = sym::param(2) as usize;
    let k = if only > 0 { only - 1 } else { sym::choose(set.len() as u32) as usize };
    ROUTERS[set[k]]
}

fn note(o: &Out) {
    sym::trace(&[o.kind as u8]);
    sym::trace(o.res.as_bytes());
    for (n, p) in &o.params {
        sym::trace(n.as_bytes());
        p.trace();
    }
    match o.kind {
        Kind::NotFound => sym::reach("not found"),
        Kind::NotAllowed => sym::reach("not allowed"),
        Kind::Route => sym::reach("route"),
        Kind::Redirect => sym::reach("redirect"),
        Kind::Error => sym::reach("parameter error"),
    }
}

/// A disagreement is excused only if the router behaves exactly as the recorded finding says.
fn excuse(r: &'static Router, path: &[u8], m: &[u8], agrees: impl Fn(&Out) -> bool) {
    let k = refer(r.table, path, m, true);
    if k.known != "" && agrees(&k.out) {
        sym::known(k.known);
    }
}

fn same_res(a: &Out, b: &Out) -> bool {
    a.found() == b.found() && (!a.found() || a.res == b.res)
}

#[no_mangle]
pub fn r01() {
    let r = pick(SET_ALL);
    let path = request(r, true);
    let m = method();
    let got = (r.call)(&path, m, false);
    say(r, &path, m, &got);
    note(&got);
    let want = refer(r.table, &path, m, false).out;
    if !same_res(&got, &want) {
        excuse(r, &path, m, |k| same_res(&got, k));
        sym::fail("answered with a different resource than the table declares");
    }
}

fn same_outcome(a: &Out, b: &Out) -> bool {
    (a.kind == Kind::NotFound) == (b.kind == Kind::NotFound) && (a.kind == Kind::NotAllowed) == (b.kind == Kind::NotAllowed)
}

#[no_mangle]
pub fn r02() {
    let r = pick(SET_ALL);
    let path = request(r, true);
    let m = method();
    let got = (r.call)(&path, m, false);
    say(r, &path, m, &got);
    note(&got);
    let want = refer(r.table, &path, m, false).out;
    if !same_outcome(&got, &want) {
        excuse(r, &path, m, |k| same_outcome(&got, k));
        sym::fail("wrong use of not found / not allowed");
    }
}

fn word(text: &str, w: &str) -> bool {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).any(|x| x == w)
}

fn same_params(a: &Out, b: &Out) -> bool {
    if (a.kind == Kind::Error) != (b.kind == Kind::Error) {
        return false;
    }
    if a.found() && b.found() && a.res == b.res {
        return a.params == b.params;
    }
    true
}

#[no_mangle]
pub fn r03() {
    let r = pick(SET_PARAMS);
    let path = request(r, true);
    let m = b"GET";
    let got = (r.call)(&path, m, false);
    say(r, &path, m, &got);
    note(&got);
    let want = refer(r.table, &path, m, false).out;
    if !same_params(&got, &want) {
        excuse(r, &path, m, |k| same_params(&got, k));
        sym::fail("a parameter does not carry its segment, or a rejected one is not reported");
    }
    if got.kind == Kind::Error {
        let k = refer(r.table, &path, m, true);
        let named = |p: &str| word(&got.err, p) && !r.names.iter().any(|n| *n != p && word(&got.err, n));
        if !named(&want.err) {
            if k.known != "" && k.out.kind == Kind::Error && named(&k.out.err) {
                sym::known(k.known);
            }
            sym::fail("the error does not name the rejected parameter");
        }
    }
}

#[no_mangle]
pub fn r04() {
    let r = pick(SET_ALL);
    let path = request(r, false);
    let m = method();
    // The finding: text that is not UTF-8 in a parameter segment panics.
    if refer(r.table, &path, b"", false).bad_utf8 || refer(r.table, &path, b"", true).bad_utf8 {
        sym::panic_known("KF3");
    }
    sym::say(|| format!("table {}: {:?} {:?}", r.table.name, m, path));
    let got = (r.call)(&path, m, false);
    note(&got);
}

fn same(a: &Out, b: &Out) -> bool {
    a.kind == b.kind && a.res == b.res && a.params == b.params && a.queries == b.queries && a.err == b.err && a.link == b.link
}

#[no_mangle]
pub fn r05() {
    let r = pick(SET_ALL);
    let mut path = request(r, true);
    let m = if sym::choose(2) == 0 { &b"GET"[..] } else { method() };
    if path.len() > 0 && path[0] == b'/' {
        path.remove(0);
    }
    sym::assume(path.len() == 0 || path[0] != b'/');
    let mut with = vec![b'/'];
    with.extend_from_slice(&path);
    let a = (r.call)(&path, m, false);
    let b = (r.call)(&with, m, false);
    say(r, &path, m, &a);
    say(r, &with, m, &b);
    note(&a);
    sym::check(same(&a, &b), "the leading slash changed the answer");
    if path.len() > 0 && path[path.len() - 1] != b'/' && (a.found() || a.kind == Kind::NotAllowed) {
        sym::reach("trailing slash");
        with.push(b'/');
        let c = (r.call)(&with, m, false);
        say(r, &with, m, &c);
        sym::check(same(&a, &c), "a trailing slash changed the answer");
    }
}

#[no_mangle]
pub fn r06() {
    let r = pick(SET_ALL);
    let path = if sym::choose(2) == 0 { declared(r, true) } else { request(r, true) };
    let m = [&b"GET"[..], b"POST", b"PUT", b"DELETE"][sym::choose(4) as usize];
    let got = (r.call)(&path, m, true);
    say(r, &path, m, &got);
    note(&got);
    if !got.found() {
        return;
    }
    let (want, lm) = match link(r.table, got.res, &got.params) {
        Some(x) => x,
        None => return,
    };
    if got.params.iter().any(|p| p.1.text().is_empty()) {
        sym::end();
    }
    sym::reach("rendered");
    sym::trace(got.link.as_bytes());
    sym::check(got.link == want, "the link does not spell the route's path");
    // A parameter whose rendered text is a literal declared beside it has no address of its own.
    let back = refer(r.table, want.as_bytes(), lm, false).out;
    if !back.found() || back.res != got.res {
        sym::reach("shadowed");
        sym::end();
    }
    let again = (r.call)(got.link.as_bytes(), lm, false);
    say(r, got.link.as_bytes(), lm, &again);
    if again.kind != Kind::Route || again.res != got.res || again.params != got.params {
        let k = refer(r.table, want.as_bytes(), lm, true);
        if k.known != "" && k.out.kind == again.kind && same_res(&again, &k.out) && same_params(&again, &k.out) {
            sym::known(k.known);
        }
        sym::fail("the link does not lead back to the route");
    }
}

#[no_mangle]
pub fn r07() {
    let r = pick(SET_REDIRECT);
    let path = if sym::choose(2) == 0 { declared(r, true) } else { request(r, true) };
    let m = [&b"GET"[..], b"POST", b"PUT", b"DELETE"][sym::choose(4) as usize];
    let got = (r.call)(&path, m, true);
    say(r, &path, m, &got);
    note(&got);
    let want = refer(r.table, &path, m, false).out;
    let ok = |w: &Out| (got.kind == Kind::Redirect) == (w.kind == Kind::Redirect) && (got.kind != Kind::Redirect || got.res == w.res) && (got.kind == Kind::Route) == (w.kind == Kind::Route);
    if !ok(&want) {
        excuse(r, &path, m, |k| ok(k));
        sym::fail("a redirect is not answered as a redirect to its target, or a route as a route");
    }
    if got.kind == Kind::Redirect {
        sym::check(got.params == want.params, "the redirect carries other parameters");
        match link(r.table, got.res, &got.params) {
            Some((l, _)) => sym::check(got.link == l, "the redirect's link is not the path of its target"),
            None => sym::fail("the redirect names no declared resource"),
        }
    }
}

#[no_mangle]
pub fn r08() {
    let r = pick(SET_QUERY);
    let path = if sym::choose(2) == 0 { declared(r, true) } else { request(r, true) };
    let m = [&b"GET"[..], b"POST", b"PUT", b"DELETE"][sym::choose(4) as usize];
    let got = (r.call)(&path, m, false);
    say(r, &path, m, &got);
    note(&got);
    if !got.found() {
        return;
    }
    for (name, want) in r.queries {
        if *name == got.res {
            sym::reach(if want.is_empty() { "no query parameter" } else { "query parameters" });
            // that the fields are exactly these was settled when the adapter compiled
            sym::check(got.queries.len() == want.len(), "a query parameter is missing or extra");
            for i in 0..want.len() {
                sym::check(got.queries[i].0 == want[i], "a query parameter is out of scope");
                sym::check(!got.queries[i].1, "a query parameter is present in a matched route");
            }
        }
    }
}

#[no_mangle]
pub fn r09() {
    let only = sym::param(2) as usize;
    let k = if only > 0 { only - 1 } else { sym::choose(PERMUTED.len() as u32) as usize };
    let (a, b) = PERMUTED[k];
    let (a, b) = (ROUTERS[a], ROUTERS[b]);
    let path = request(a, true);
    let m = if sym::choose(2) == 0 { &b"GET"[..] } else { method() };
    let x = (a.call)(&path, m, true);
    let y = (b.call)(&path, m, true);
    say(a, &path, m, &x);
    say(b, &path, m, &y);
    note(&x);
    if x.kind == y.kind && x.res == y.res && x.params == y.params && x.link == y.link {
        // the error of the same parameter
        sym::check(x.kind != Kind::Error || x.err == y.err, "the declaration order changed the error");
        return;
    }
    sym::fail("the declaration order changed the answer");
}

fn plus(q: &[&'static str], o: &Out) -> bool {
    // outer query parameters first in scope, but their place among the fields is not observable
    o.queries.iter().all(|x| !x.1) && q.iter().all(|n| o.queries.iter().any(|x| x.0 == *n))
}

/// Requests under the prefix of a mounted config.
#[no_mangle]
pub fn r10() {
    let only = sym::param(2) as usize;
    let k = if only > 0 { only - 1 } else { sym::choose(MOUNTED.len() as u32) as usize };
    let mt = &MOUNTED[k];
    let (whole, outer, inner) = (ROUTERS[mt.whole], ROUTERS[mt.outer], ROUTERS[mt.inner]);
    let m = if sym::choose(2) == 0 { &b"GET"[..] } else { method() };
    if sym::choose(2) == 0 {
        // the prefix, then nothing or a slash and a path of the mounted config
        let mut path = request(inner, true);
        if path.len() > 0 && path[0] == b'/' {
            path.remove(0);
        }
        sym::assume(path.len() == 0 || path[0] != b'/');
        let mut p = vec![b'/'];
        p.extend_from_slice(mt.at.as_bytes());
        if path.len() > 0 || sym::choose(2) == 0 {
            p.push(b'/');
        }
        let slash = p[p.len() - 1] == b'/';
        p.extend_from_slice(&path);
        let got = (whole.call)(&p, m, false);
        say(whole, &p, m, &got);
        note(&got);
        // without the slash there is no segment after the prefix, not even an empty one
        let want = if slash || !inner.table.nodes[0].res.is_empty() { (inner.call)(&path, m, false) } else { Out::kind(Kind::NotFound) };
        let ok = |w: &Out| got.kind == w.kind && got.res == w.res && got.params == w.params && (got.kind != Kind::Error || got.err == w.err);
        sym::reach("under the prefix");
        if !ok(&want) {
            let kf = refer(whole.table, &p, m, true);
            if kf.known != "" && kf.out.kind == got.kind && same_res(&got, &kf.out) {
                sym::known(kf.known);
            }
            sym::fail("a mounted path is not answered as the mounted config answers it");
        }
        if got.found() {
            sym::check(plus(mt.scope, &got), "an outer query parameter does not apply to a mounted resource");
            sym::check(want.queries.iter().all(|x| got.queries.iter().any(|y| y.0 == x.0)), "a query parameter of the mounted config is lost");
            sym::check(got.queries.len() == want.queries.len() + mt.scope.len(), "a mounted resource got a query parameter from outside its scope");
        }
    } else {
        let p = request(outer, true);
        let s = if p.len() > 0 && p[0] == b'/' { &p[1..] } else { &p[..] };
        let at = mt.at.as_bytes();
        if s.len() == at.len() || (s.len() > at.len() && s[at.len()] == b'/') {
            let mut d = 0;
            for i in 0..at.len() {
                d |= s[i] ^ at[i];
            }
            sym::assume(d != 0);
        }
        let got = (whole.call)(&p, m, false);
        say(whole, &p, m, &got);
        note(&got);
        let want = (outer.call)(&p, m, false);
        sym::reach("outside the prefix");
        if !same(&got, &want) {
            // either of the two tables may show a recorded finding
            let (kw, ko) = (refer(whole.table, &p, m, true), refer(outer.table, &p, m, true));
            let is = |k: &Out, o: &Out| k.kind == o.kind && same_res(o, k);
            if is(&kw.out, &got) && is(&ko.out, &want) {
                if kw.known != "" {
                    sym::known(kw.known);
                }
                if ko.known != "" {
                    sym::known(ko.known);
                }
            }
            sym::fail("mounting changed the answer to a request outside the prefix");
        }
    }
}

sym::registry!(r01, r02, r03, r04, r05, r06, r07, r08, r09, r10);
