//! Harness for the route-file language: wayfinder's parser, printer and diagnostics.
pub mod big;
pub mod edit;
pub mod gen;
pub mod made;
pub mod shape;
pub mod spells;
use nom::types::CompleteStr;
use shape::*;
use spells::*;
use wayfinder::{Header, Method, NestedRoutes, Param, PathSegment, Resource, RouteConfig, Routes, parse};

fn text(b: Vec<u8>) -> String {
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => sym::end(),
    }
}

fn headers(max: u32, len: usize) -> Vec<Header> {
    let mut v = vec![];
    for _ in 0..sym::choose(max + 1) {
        v.push(Header { text: header(len) });
    }
    v
}

/// A line that is not blank, does not start with a slash, and has no line end inside.
fn header(len: usize) -> String {
    match sym::choose(3) {
        0 => "use a::b;".to_string(),
        1 => ["é x", "#![allow(x)]", "a/b // c", "  GET X"][sym::choose(4) as usize].to_string(),
        _ => {
            let mut b = vec![0u8; len];
            sym::bytes(&mut b);
            let mut ok = true;
            let mut blank = true;
            for x in &b {
                ok &= (*x < 0x80) & (*x != b'\n') & (*x != b'\r');
                blank &= (*x == b' ') | (*x == b'\t');
            }
            sym::assume(ok & (b[0] != b'/') & !blank);
            text(b)
        }
    }
}

// ---------- L01

#[no_mangle]
pub fn l01() {
    let mut mk = Mk::new(sym::param(0) as u32, 0, 1, sym::param(1) as u32);
    let c = RouteConfig { headers: vec![], routes: mk.routes(1) };
    round(c);
}

#[no_mangle]
pub fn l01_names() {
    let mut mk = Mk::new(sym::param(0) as u32, 1, 1, sym::param(1) as u32);
    let c = RouteConfig { headers: vec![], routes: mk.routes(1) };
    round(c);
}

#[no_mangle]
pub fn l01_headers() {
    let h = headers(sym::param(0) as u32, sym::param(1) as usize);
    let mut mk = Mk::new(2, 0, 0, 2);
    let c = RouteConfig { headers: h, routes: mk.routes(1) };
    round(c);
}

#[no_mangle]
pub fn l01_deep() {
    let d = 1 + sym::choose(sym::param(0) as u32) as usize;
    let mut r = Routes { resources: vec![res(Method::Get, &["m"], "A", sym::choose(2) == 1, vec![par("q", "T")])], routes: vec![], query_parameters: vec![] };
    let alt = sym::choose(3) as usize;
    for k in 0..d {
        let first = if k == 0 || k + 1 == d { free_ident(1) } else { "x".to_string() };
        let seg = if (k * alt / 2) % 2 == 0 { PathSegment::Static(format!("{}{}", first, k)) } else { PathSegment::Dynamic(par(&format!("p{}", k), "T")) };
        r = Routes { resources: vec![], routes: vec![NestedRoutes { path_segment: seg, routes: r }], query_parameters: vec![] };
        if k + 1 == d / 2 {
            r.query_parameters.push(par("l", "T"));
            r.resources.push(res(Method::Put, &[], "B", false, vec![par("q", "T")]));
        }
    }
    round(RouteConfig { headers: vec![], routes: r });
}

/// Large configs, one letter of which is free.
#[no_mangle]
pub fn l01_big() {
    round(big::any(sym::param(0) as usize, true));
}

fn round(c: RouteConfig) {
    let t = c.stringify();
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    match parse::route_config(&t) {
        Err(_) => sym::fail("the written text is not accepted"),
        Ok((rest, d)) => {
            sym::check(rest.0.is_empty(), "part of the written text is left over");
            sym::check(same_config(&c, &d), "reading the written text gives a different config");
            let u = d.stringify();
            sym::check(same(t.as_bytes(), u.as_bytes()), "writing it again gives a different text");
            sym::reach("round trip");
            if c.routes.routes.iter().any(|n| !n.routes.routes.is_empty()) {
                sym::reach("nested twice");
            }
        }
    }
}

fn same_str(a: &String, b: &String) -> bool {
    same(a.as_bytes(), b.as_bytes())
}
fn same_params(a: &Vec<Param>, b: &Vec<Param>) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| same_str(&a[i].name, &b[i].name) && same_str(&a[i].typ, &b[i].typ))
}
fn same_routes(a: &Routes, b: &Routes) -> bool {
    same_params(&a.query_parameters, &b.query_parameters)
        && a.resources.len() == b.resources.len()
        && (0..a.resources.len()).all(|i| {
            let (x, y) = (&a.resources[i], &b.resources[i]);
            x.method == y.method
                && x.is_redirect == y.is_redirect
                && x.modules.len() == y.modules.len()
                && (0..x.modules.len()).all(|k| same_str(&x.modules[k], &y.modules[k]))
                && same_str(&x.name, &y.name)
                && same_params(&x.query_parameters, &y.query_parameters)
        })
        && a.routes.len() == b.routes.len()
        && (0..a.routes.len()).all(|i| {
            (match (&a.routes[i].path_segment, &b.routes[i].path_segment) {
                (PathSegment::Static(x), PathSegment::Static(y)) => same_str(x, y),
                (PathSegment::Dynamic(x), PathSegment::Dynamic(y)) => same_str(&x.name, &y.name) && same_str(&x.typ, &y.typ),
                _ => false,
            }) && same_routes(&a.routes[i].routes, &b.routes[i].routes)
        })
}
fn same_config(a: &RouteConfig, b: &RouteConfig) -> bool {
    a.headers.len() == b.headers.len() && (0..a.headers.len()).all(|i| same_str(&a.headers[i].text, &b.headers[i].text)) && same_routes(&a.routes, &b.routes)
}

// ---------- L06

/// Header lines of any text between blank lines.
#[no_mangle]
pub fn l06_parse() {
    let n = sym::choose(sym::param(0) as u32 + 1) as usize;
    let eol = |t: &mut Vec<u8>| t.extend_from_slice([&b"\n"[..], b"\r\n", b"\n\n", b"\n\r\n"][sym::choose(4) as usize]);
    let mut t = vec![];
    let mut hs = vec![];
    if sym::choose(2) == 1 {
        eol(&mut t);
    }
    for _ in 0..n {
        let h = header(1 + sym::choose(sym::param(1) as u32) as usize);
        t.extend_from_slice(h.as_bytes());
        eol(&mut t);
        hs.push(h);
    }
    t.push(b'/');
    eol(&mut t);
    t.extend_from_slice(b"  GET A\n");
    let t = text(t);
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    match parse::route_config(&t) {
        Err(_) => sym::fail("a well-formed file is rejected"),
        Ok((_, c)) => {
            sym::check(c.headers.len() == n, "a header is lost or made up");
            for i in 0..n {
                sym::check(same(c.headers[i].text.as_bytes(), hs[i].as_bytes()), "a header is changed");
            }
            let want = Routes { resources: vec![res(Method::Get, &[], "A", false, vec![])], routes: vec![], query_parameters: vec![] };
            sym::check(same_routes(&c.routes, &want), "header text leaks into the routes");
            sym::reach("kept");
        }
    }
}

// ---------- L02

fn layout(c: RouteConfig, vary: u32) {
    let t = text(Layout { vary }.config(&c));
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    match parse::route_config(&t) {
        Err(_) => sym::fail("a well-formed file is rejected"),
        Ok((rest, d)) => {
            sym::check(rest.0.is_empty(), "part of the file is left over");
            sym::check(same_config(&c, &d), "the file is read as a different config");
            sym::reach("read");
        }
    }
}

/// Every small shape, with one layout variation anywhere.
#[no_mangle]
pub fn l02() {
    let mut mk = Mk::new(sym::param(0) as u32, 0, 1, sym::param(1) as u32);
    let c = RouteConfig { headers: vec![], routes: mk.routes(1) };
    layout(c, sym::param(3) as u32);
}

/// One symbolic name, with one layout variation.
#[no_mangle]
pub fn l02_names() {
    let mut mk = Mk::new(sym::param(0) as u32, 1, sym::param(4) as u32, sym::param(1) as u32);
    let c = RouteConfig { headers: vec![], routes: mk.routes(1) };
    layout(c, sym::param(3) as u32);
}

fn rich() -> RouteConfig {
    let inner = Routes {
        resources: vec![res(Method::Put, &["m", "N"], "C", true, vec![])],
        routes: vec![NestedRoutes { path_segment: PathSegment::Dynamic(par("id", "U")), routes: Routes { resources: vec![res(Method::Delete, &[], "D", false, vec![])], routes: vec![], query_parameters: vec![] } }],
        query_parameters: vec![par("k", "V")],
    };
    RouteConfig {
        headers: vec![Header { text: "use a;".into() }],
        routes: Routes { resources: vec![res(Method::Get, &["m"], "A", false, vec![par("q", "T")]), res(Method::Post, &[], "B", true, vec![])], routes: vec![NestedRoutes { path_segment: PathSegment::Static("s".into()), routes: inner }], query_parameters: vec![par("l", "S")] },
    }
}

/// One rich file, with several layout variations at once.
#[no_mangle]
pub fn l02_rich() {
    layout(rich(), sym::param(0) as u32);
}

/// Large files, with layout variations anywhere.
#[no_mangle]
pub fn l02_big() {
    layout(big::any(sym::param(0) as usize, sym::param(1) == 0), sym::param(1) as u32);
}

// ---------- L03

fn accounts(t: String) {
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    match parse::route_config(&t) {
        Err(_) => sym::reach("rejected"),
        Ok((rest, c)) => {
            sym::say(|| format!("{:?}", c));
            sym::check(rest.0.is_empty(), "accepted with text left over");
            sym::check(spells(t.as_bytes(), &c), "accepted, but the config does not account for the text");
            sym::reach("accepted");
        }
    }
}

#[no_mangle]
pub fn l03_edit() {
    accounts(edit::edited(sym::param(0) as usize, sym::param(1) as u32, sym::param(2) as usize));
}

/// Large files, with one line moved, dropped, repeated or indented differently.
#[no_mangle]
pub fn l03_big() {
    accounts(edit::edited_big(sym::param(0) as usize));
}

#[no_mangle]
pub fn l03_hole() {
    accounts(edit::hole(sym::param(0) as usize));
}

// ---------- L04, L05

fn diagnose(t: &str, prefix: &str) -> Option<Vec<u8>> {
    let r = parse::route_config(t);
    if r.is_ok() {
        sym::reach("accepted");
        return None;
    }
    let mut out = vec![];
    parse::errors::show_errors(&mut out, t, r, prefix);
    sym::reach("rejected");
    Some(out)
}

fn reports(t: String) {
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    if let Some(o) = diagnose(&t, "") {
        sym::trace(&o);
        sym::check(!o.is_empty(), "a rejected text without a diagnostic");
    }
}

#[no_mangle]
pub fn l04_edit() {
    reports(edit::edited(sym::param(0) as usize, sym::param(1) as u32, sym::param(2) as usize));
}

/// Large files with a line out of place.
#[no_mangle]
pub fn l04_big() {
    reports(edit::edited_big(sym::param(0) as usize));
}

#[no_mangle]
pub fn l04_hole() {
    reports(edit::hole(sym::param(0) as usize));
}

/// A very long line, or very many lines, with the mistake at the far end or the near one.
fn long() -> String {
    const N: [usize; 7] = [41, 100, 300, 65533, 65535, 65536, 70000];
    const KINDS: [(&str, &str, &str); 9] = [
        ("/\n  GET ", "A", "}\n"),
        ("/\n  [", "a", "\n"),
        ("/", "\n", "x"),
        ("", "é", "\r"),
        ("x", "é", "\n/\n"),
        ("/\n  {", "a", ":b\n  x"),
        ("/\n  GET ", "é", " A\n"),
        ("/\n  GET x", "é", " A\n"),
        ("/\n  GET A }", "x名", "\n"),
    ];
    let n = N[sym::choose(sym::param(0) as u32) as usize];
    let (a, b, z) = KINDS[sym::choose(KINDS.len() as u32) as usize];
    let mut t = String::with_capacity(n * 4 + 20);
    t.push_str(a);
    for _ in 0..n {
        t.push_str(b);
    }
    t.push_str(z);
    t
}

#[no_mangle]
pub fn l04_long() {
    let t = long();
    let o = diagnose(&t, "");
    sym::check(o.map_or(false, |o| !o.is_empty()), "a rejected text without a diagnostic");
}

#[no_mangle]
pub fn l05_long() {
    let t = long();
    match diagnose(&t, "") {
        Some(o) => quotes(&t, &o, ""),
        None => sym::fail("accepted"),
    }
}

/// Reads back what was printed.
fn quotes(t: &str, o: &[u8], prefix: &str) {
    let lines: Vec<&str> = t.split('\n').collect();
    let mut p = 0;
    sym::check(!o.is_empty(), "a rejected text without a diagnostic");
    let lit = |p: &mut usize, s: &[u8], m: &str| {
        sym::check(o.len() - *p >= s.len() && same(&o[*p..*p + s.len()], s), m);
        *p += s.len();
    };
    while p < o.len() {
        lit(&mut p, prefix.as_bytes(), "a diagnostic line without the prefix");
        let mut n = 0usize;
        let s = p;
        while p < o.len() && o[p] == b' ' {
            p += 1;
        }
        while p < o.len() && o[p].is_ascii_digit() {
            n = n * 10 + (o[p] - b'0') as usize;
            p += 1;
        }
        sym::check(p - s >= 4, "line number not in its column");
        lit(&mut p, b":", "no line number");
        sym::check(n >= 1 && n <= lines.len(), "no such line");
        lit(&mut p, lines[n - 1].as_bytes(), "not the text of that line");
        lit(&mut p, b"\n", "not the whole line");
        lit(&mut p, prefix.as_bytes(), "a caret line without the prefix");
        lit(&mut p, b"     ", "a caret line out of place");
        let s = p;
        while p < o.len() && o[p] == b' ' {
            p += 1;
        }
        sym::check(p - s <= lines[n - 1].chars().count(), "the caret is beyond the line");
        lit(&mut p, b"^ ", "no caret");
        let s = p;
        while p < o.len() && o[p] != b'\n' {
            p += 1;
        }
        sym::check(p > s, "no message");
        lit(&mut p, b"\n", "the message does not end");
    }
}

/// Large files with a line out of place.
#[no_mangle]
pub fn l05_big() {
    let t = edit::edited_big(sym::param(0) as usize);
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    if let Some(o) = diagnose(&t, "") {
        quotes(&t, &o, "");
    }
}

fn prefix() -> &'static str {
    ["", "cargo:warning=", " é "][sym::choose(3) as usize]
}

#[no_mangle]
pub fn l05_edit() {
    let t = edit::edited(sym::param(0) as usize, sym::param(1) as u32, sym::param(2) as usize);
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    let p = if sym::param(3) == 0 { "> " } else { prefix() };
    if let Some(o) = diagnose(&t, p) {
        quotes(&t, &o, p);
    }
}

/// A colon or a closing bracket is missing at a known place.
#[no_mangle]
pub fn l05_missing() {
    let crlf = sym::choose(2) == 1;
    let above = sym::choose(sym::param(0) as u32) as usize;
    let mut t = ["", "use é;\n\n", "\n\n", "a b\n\nc\n"][above].to_string() + "/\n";
    let (ind, open, close) = match sym::choose(4) {
        0 => (1, '[', ']'),
        1 => (1, '{', '}'),
        2 => {
            t += "  GET A\n";
            (2, '[', ']')
        }
        _ => {
            t += "  s\n    GET A\n  é\n    t\n      GET B\n";
            (2, '{', '}')
        }
    };
    if crlf {
        t = t.replace('\n', "\r\n");
    }
    for _ in 0..ind {
        t += "  ";
    }
    t.push(open);
    let gap = |t: &mut String| {
        for _ in 0..sym::choose(sym::param(1) as u32) {
            t.push(' ');
        }
    };
    gap(&mut t);
    t += &free_ident(sym::param(2) as usize);
    t += ["", "名é"][sym::choose(2) as usize];
    gap(&mut t);
    let want = if sym::choose(2) == 0 {
        "Expected \":\""
    } else {
        t += ":";
        gap(&mut t);
        t += ["T", "é"][sym::choose(2) as usize];
        gap(&mut t);
        if close == ']' {
            "Expected a \"]\""
        } else {
            "Expected a \"}\""
        }
    };
    let at = t.len();
    match sym::choose(3) {
        0 => {}
        1 => t += "→",
        _ => {
            let c = sym::u8();
            let space = (c == b' ') | (c == b'\t') | (c == b'\r') | (c == b'\n');
            let right = c == if want.contains(':') { b':' } else { close as u8 };
            sym::assume((c < 0x80) & !ident_char(c) & !space & !right);
            t += &text(vec![c]);
        }
    }
    if at < t.len() {
        t += ["", "x\n", "\n  GET B\n"][sym::choose(3) as usize];
    }
    sym::trace(t.as_bytes());
    sym::say(|| format!("{:?}", t));
    let o = match diagnose(&t, "") {
        Some(o) => o,
        None => sym::fail("accepted although a character is missing"),
    };
    quotes(&t, &o, "");
    // where it was expected
    let no = t[..at].matches('\n').count() + 1;
    let col = t[..at].rsplit('\n').next().unwrap().chars().count();
    let mut line = o.split(|b| *b == b'\n');
    while let (Some(a), Some(b)) = (line.next(), line.next()) {
        let mut w = "     ".to_string();
        for _ in 0..col {
            w.push(' ');
        }
        w += "^ ";
        w += want;
        if b == w.as_bytes() && a.starts_with(format!("{:>4}:", no).as_bytes()) {
            sym::reach("pointed at");
            return;
        }
    }
    sym::fail("no diagnostic points at the missing character");
}

use gen::*;
use made::{m01, m01_parts};
sym::registry!(r10_headers, l01_big, l04_big, g05_big, l02_big, l03_big, l05_big, g01_big, g02_big, g03_big, g06_big, l06_big, m01, m01_parts, g03_names, g02_paths, g05_trie, r10_merge, l06_gen, l06_parse, g04, g06, g06_full, g01, g01_slow, g02, g03, g05, l01, l01_names, l01_headers, l01_deep, l02, l02_names, l02_rich, l03_edit, l03_hole, l04_edit, l04_hole, l04_long, l05_long, l05_edit, l05_missing);
