//! Configs put together in Rust against the same configs read from a file.
use crate::shape::*;
use crate::*;
use wayfinder::{delete, get, header, param, post, put};

macro_rules! forms {
    ($verb:ident, $k:expr, $p:expr) => {{
        let p: &dyn Fn(usize) -> Param = $p;
        match $k {
            0 => ("A", 0, $verb!(A)),
            1 => ("m_n::A", 0, $verb!(m_n::A)),
            2 => ("M::n::b_c", 0, $verb!(M::n::b_c)),
            3 => ("o::p::Q::R9", 0, $verb!(o::p::Q::R9)),
            13 => ("M::M::M", 0, $verb!(M::M::M)),
            14 => ("a::b::c::d::e::f::g::h::i::J", 1, $verb!(a::b::c::d::e::f::g::h::i::J, p(0))),
            15 => ("-> a::a::c::d::e::f::g::h::i::J", 0, $verb!(-> a::a::c::d::e::f::g::h::i::J)),
            4 => ("a", 1, $verb!(a, p(0))),
            5 => ("M::A", 1, $verb!(M::A, p(0))),
            6 => ("M::N::A", 2, $verb!(M::N::A, p(0), p(1))),
            7 => ("A", 3, $verb!(A, p(0), p(1), p(2))),
            8 => ("M::A", 4, $verb!(M::A, p(0), p(1), p(2), p(3))),
            9 => ("-> A", 0, $verb!(-> A)),
            10 => ("-> m::A", 0, $verb!(-> m::A)),
            11 => ("-> M::N::a_b", 0, $verb!(-> M::N::a_b)),
            _ => ("-> M::N::o::A", 0, $verb!(-> M::N::o::A)),
        }
    }};
}

fn compare(text: String, made: RouteConfig) {
    sym::trace(text.as_bytes());
    sym::say(|| format!("{:?}", text));
    match parse::route_config(&text) {
        Err(_) => sym::fail("the file is not accepted"),
        Ok((_, read)) => {
            sym::check(same_config(&made, &read), "what is made in Rust differs from what is read from the file");
            sym::check(made == read, "the two are not equal");
        }
    }
    sym::reach("the same");
}

/// Every form of the verbs' macros, with any query parameters.
#[no_mangle]
pub fn m01() {
    let n = sym::param(0) as usize;
    let verb = sym::choose(4);
    let form = sym::choose(16);
    let free = sym::choose(if form == 8 { 4 } else { 3 }) as usize;
    let (name, typ) = (free_ident(n), free_ident(n));
    let p = |i: usize| if i == free { Param::new(&name, typ.clone()) } else { Param::new(["q", "r", "q", "S"][i], ["T", "u8", "T", "T"][i].to_string()) };
    let (target, count, made) = match verb {
        0 => forms!(get, form, &p),
        1 => forms!(post, form, &p),
        2 => forms!(put, form, &p),
        _ => forms!(delete, form, &p),
    };
    if count == 0 && free > 0 {
        sym::end();
    }
    let mut text = format!("/\n  {} {}\n", ["GET", "POST", "PUT", "DELETE"][verb as usize], target);
    for i in 0..count {
        let (n, t) = if i == free { (&name[..], &typ[..]) } else { (["q", "r", "q", "S"][i], ["T", "u8", "T", "T"][i]) };
        text.push_str("    [");
        text.push_str(n);
        text.push_str(": ");
        text.push_str(t);
        text.push_str("]\n");
    }
    compare(text, RouteConfig { headers: vec![], routes: Routes { resources: vec![made], ..Routes::default() } });
}

/// What the macros and their users call, with any names.
#[no_mangle]
pub fn m01_parts() {
    let n = sym::param(0) as usize;
    let mut headers = vec![];
    let mut resource = get!(A);
    let mut line = "GET A".to_string();
    let mut head = String::new();
    let mut segment = None;
    let mut query = vec![];
    let kind = sym::choose(6);
    match kind {
        // the function behind the macros
        0 => {
            let k = sym::choose(sym::param(1) as u32) as usize;
            let mut handler: Vec<String> = (0..k).map(|i| ["M", "n", "M", "o", "n", "n"][i % 6].to_string()).collect();
            handler.insert(sym::choose(k as u32 + 1) as usize, free_ident(if sym::choose(2) == 0 { 1 } else { n }));
            let redirect = sym::choose(2) == 1;
            line = "PUT ".to_string();
            if redirect {
                line.push_str("-> ");
            }
            for (i, h) in handler.iter().enumerate() {
                if i > 0 {
                    line.push_str("::");
                }
                line.push_str(h);
            }
            let mut params = vec![];
            for _ in 0..sym::choose(3) {
                let q = Param::new(free_ident(1), "T");
                line.push_str("\n    [");
                line.push_str(&q.name);
                line.push_str(": T]");
                params.push(q);
            }
            resource = wayfinder::Resource::make(Method::Put, handler, redirect, params);
        }
        // path segments
        1 | 2 => {
            let s = free_ident(n);
            let r = Routes { resources: vec![get!(B)], ..Routes::default() };
            let text = if kind == 1 { s.clone() } else { ["{", &s, ": T}"].concat() };
            let nested = match (kind, sym::choose(3)) {
                (1, 0) => NestedRoutes::new(&s, r),
                (1, 1) => NestedRoutes::new(s, r),
                (1, _) => NestedRoutes::new(PathSegment::from(&s[..]), r),
                (_, 0) => NestedRoutes::new(Param::new(s, "T"), r),
                (_, 1) => NestedRoutes::new(PathSegment::Dynamic(Param::new(&s[..], String::from("T"))), r),
                _ => NestedRoutes { path_segment: Param::new(&s, "T").into(), routes: r },
            };
            segment = Some((text, nested));
        }
        // headers
        3 => {
            let h = header_text(n);
            head.push_str(&h);
            head.push_str("\n\n");
            headers.push(Header::new(h));
        }
        4 => {
            let (h, t) = match sym::choose(3) {
                0 => (header!(use uuid::Uuid;), "use uuid::Uuid;"),
                1 => (header!(extern crate a;), "extern crate a;"),
                _ => (header!(use a::b as c;), "use a::b as c;"),
            };
            head.push_str(t);
            head.push('\n');
            headers.push(h);
        }
        // parameters of a route
        _ => {
            let (p, t) = match sym::choose(4) {
                0 => (param!(id: Uuid), "id: Uuid"),
                1 => (param!(a_b: i32), "a_b: i32"),
                2 => (param!(_x9: T_2), "_x9: T_2"),
                _ => (param!(end: String), "end: String"),
            };
            query.push((p, t));
        }
    }
    let mut text = head;
    text.push_str("/\n");
    let mut routes = Routes::default();
    for (p, t) in query {
        text.push_str(&["  [", t, "]\n"].concat());
        routes.query_parameters.push(p);
    }
    text.push_str(&["  ", &line, "\n"].concat());
    routes.resources.push(resource);
    if let Some((t, nested)) = segment {
        text.push_str(&["  ", &t, "\n    GET B\n"].concat());
        routes.routes.push(nested);
    }
    compare(text, RouteConfig { headers, routes });
}

fn header_text(n: usize) -> String {
    let mut b = b"use ".to_vec();
    b.resize(4 + n, 0);
    sym::bytes(&mut b[4..]);
    let mut ok = true;
    for x in &b {
        ok &= (*x >= b' ') & (*x < 0x7f);
    }
    sym::assume(ok);
    text(b)
}
