//! Configs with a symbolic shape and symbolic names, and texts that write them down.
use wayfinder::*;

/// What may still vary in the config being built.
pub struct Mk {
    /// nodes (query parameters, resources, segments) left to spend
    pub items: u32,
    /// names left to make symbolic
    pub names: u32,
    /// resources left to give every combination of attributes
    pub attrs: u32,
    pub depth: u32,
    pub n: usize,
    /// every other name is one symbolic character
    pub free: bool,
}

pub fn ident_char(b: u8) -> bool {
    ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_')
}

pub fn free_ident(n: usize) -> String {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    let mut ok = true;
    for b in &v {
        ok &= ident_char(*b);
    }
    sym::assume(ok);
    String::from_utf8(v).unwrap()
}

const ODD: &[&str] = &["get", "POST", "delete", "Put", "getx", "é", "a_1Z", "名前", "_"];

impl Mk {
    pub fn new(items: u32, names: u32, attrs: u32, depth: u32) -> Mk {
        Mk { items, names, attrs, depth, n: 0, free: true }
    }

    pub fn name(&mut self, base: &str) -> String {
        self.n += 1;
        if self.names > 0 && sym::choose(2) == 1 {
            self.names -= 1;
            let k = sym::choose(1 + ODD.len() as u32) as usize;
            return match k {
                0 => free_ident(sym::param(2) as usize),
                k => ODD[k - 1].to_string(),
            };
        }
        if self.free {
            return free_ident(1);
        }
        format!("{}{}", base, self.n)
    }

    fn param(&mut self) -> Param {
        let name = self.name("p");
        let typ = self.name("T");
        Param { name, typ }
    }

    fn resource(&mut self) -> Resource {
        let mut r = Resource { method: [Method::Get, Method::Post, Method::Put, Method::Delete][self.n % 4], modules: vec![], name: String::new(), is_redirect: false, query_parameters: vec![] };
        if self.attrs > 0 && sym::choose(2) == 1 {
            self.attrs -= 1;
            r.method = [Method::Get, Method::Post, Method::Put, Method::Delete][sym::choose(4) as usize];
            r.is_redirect = sym::choose(2) == 1;
            for _ in 0..sym::choose(3) {
                let m = self.name("m");
                r.modules.push(m);
            }
            for _ in 0..sym::choose(3) {
                let p = self.param();
                r.query_parameters.push(p);
            }
        }
        r.name = self.name("R");
        r
    }

    pub fn routes(&mut self, level: u32) -> Routes {
        let mut r = Routes { resources: vec![], routes: vec![], query_parameters: vec![] };
        while self.items > 1 && r.query_parameters.len() < 2 && sym::choose(2) == 1 {
            self.items -= 1;
            let p = self.param();
            r.query_parameters.push(p);
        }
        while self.items > 0 && r.resources.len() < 3 && sym::choose(2) == 1 {
            self.items -= 1;
            let x = self.resource();
            r.resources.push(x);
        }
        while self.items > 0 && level < self.depth {
            // every segment needs something below it
            let left = self.items;
            if left < 2 || sym::choose(2) == 0 {
                break;
            }
            self.items -= 1;
            let seg = if sym::choose(2) == 0 { PathSegment::Static(self.name("s")) } else { PathSegment::Dynamic(self.param()) };
            let below = self.routes(level + 1);
            r.routes.push(NestedRoutes { path_segment: seg, routes: below });
        }
        if r.resources.is_empty() && r.routes.is_empty() {
            // not expressible: a route needs a resource or a nested route
            sym::end();
        }
        r
    }
}

/// Where the layout of a printed file may depart from the canonical one.
pub struct Layout {
    pub vary: u32,
}

impl Layout {
    fn eol(&mut self, o: &mut Vec<u8>) {
        if self.vary > 0 {
            let k = sym::choose(6);
            if k > 0 {
                self.vary -= 1;
            }
            o.extend_from_slice([&b"\n"[..], b"\r\n", b"\n\n", b"\n\r\n", b"\r\n\r\n", b"\n\n\n"][k as usize]);
            return;
        }
        o.push(b'\n');
    }
    fn sp(&mut self, o: &mut Vec<u8>, canon: u32, min: u32) {
        let mut n = canon;
        if self.vary > 0 {
            let k = sym::choose(4);
            if k > 0 {
                self.vary -= 1;
                n = [0, 1, 2, 3][(canon as usize + k as usize) % 4];
                if n < min {
                    n = 4;
                }
            }
        }
        for _ in 0..n {
            o.push(b' ');
        }
    }
    fn verb(&mut self, o: &mut Vec<u8>, v: &str) {
        if self.vary > 0 && sym::choose(2) == 1 {
            self.vary -= 1;
            for b in v.bytes() {
                let c = sym::u8();
                sym::assume((c == 0) | (c == 0x20));
                o.push(b | c);
            }
            return;
        }
        o.extend_from_slice(v.as_bytes());
    }
    fn indent(&mut self, o: &mut Vec<u8>, level: usize) {
        for _ in 0..level {
            o.extend_from_slice(b"  ");
        }
    }
    fn param(&mut self, o: &mut Vec<u8>, open: u8, close: u8, p: &Param) {
        o.push(open);
        self.sp(o, 0, 0);
        o.extend_from_slice(p.name.as_bytes());
        self.sp(o, 0, 0);
        o.push(b':');
        self.sp(o, 1, 0);
        o.extend_from_slice(p.typ.as_bytes());
        self.sp(o, 0, 0);
        o.push(close);
    }
    pub fn routes(&mut self, o: &mut Vec<u8>, r: &Routes, level: usize) {
        for q in &r.query_parameters {
            self.indent(o, level);
            self.param(o, b'[', b']', q);
            self.eol(o);
        }
        for x in &r.resources {
            self.indent(o, level);
            self.verb(
                o,
                match x.method {
                    Method::Get => "GET",
                    Method::Post => "POST",
                    Method::Put => "PUT",
                    Method::Delete => "DELETE",
                },
            );
            if x.is_redirect {
                self.sp(o, 1, 1);
                o.extend_from_slice(b"->");
                self.sp(o, 1, 0);
            } else {
                o.push(b' ');
            }
            for m in &x.modules {
                o.extend_from_slice(m.as_bytes());
                self.sp(o, 0, 0);
                o.extend_from_slice(b"::");
                self.sp(o, 0, 0);
            }
            o.extend_from_slice(x.name.as_bytes());
            self.eol(o);
            for q in &x.query_parameters {
                self.indent(o, level + 1);
                self.param(o, b'[', b']', q);
                self.eol(o);
            }
        }
        for n in &r.routes {
            self.indent(o, level);
            match &n.path_segment {
                PathSegment::Static(s) => o.extend_from_slice(s.as_bytes()),
                PathSegment::Dynamic(p) => self.param(o, b'{', b'}', p),
            }
            self.eol(o);
            self.routes(o, &n.routes, level + 1);
        }
    }
    pub fn config(&mut self, c: &RouteConfig) -> Vec<u8> {
        let mut o = vec![];
        if self.vary > 0 && sym::choose(2) == 1 {
            self.eol(&mut o);
        }
        for h in &c.headers {
            o.extend_from_slice(h.text.as_bytes());
            self.eol(&mut o);
        }
        o.push(b'/');
        self.eol(&mut o);
        self.routes(&mut o, &c.routes, 1);
        o
    }
}

pub fn res(method: Method, modules: &[&str], name: &str, is_redirect: bool, q: Vec<Param>) -> Resource {
    Resource { method, modules: modules.iter().map(|s| s.to_string()).collect(), name: name.to_string(), is_redirect, query_parameters: q }
}

pub fn par(name: &str, typ: &str) -> Param {
    Param { name: name.to_string(), typ: typ.to_string() }
}
