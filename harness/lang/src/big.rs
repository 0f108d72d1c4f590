//! Configs that are large in one way or another, with one free letter in one of the names.
use crate::shape::*;
use wayfinder::*;

const METHODS: [Method; 4] = [Method::Get, Method::Post, Method::Put, Method::Delete];
pub const KINDS: u32 = 10;

struct Names {
    n: usize,
    /// which of the names has the free letter
    free: usize,
    len: usize,
    letter: Option<u8>,
}

impl Names {
    /// Different from all others, unless the free letter says otherwise.
    fn next(&mut self) -> String {
        let i = self.n;
        self.n += 1;
        let mut s = Vec::with_capacity(self.len + 8);
        s.push(if i == self.free { self.letter.unwrap() } else { b'a' + (i % 26) as u8 });
        let mut k = i / 26;
        while k > 0 {
            s.push(b'A' + (k % 26) as u8);
            k /= 26;
        }
        while s.len() < self.len {
            s.push(b"bcd_E9fg"[s.len() % 8]);
        }
        String::from_utf8(s).unwrap()
    }
    fn par(&mut self) -> Param {
        let n = self.next();
        Param { name: n, typ: if self.len > 1 { self.next() } else { "T".into() } }
    }
    fn leaf(&mut self, m: Method, ms: &[&str]) -> Routes {
        let n = self.next();
        Routes { resources: vec![res(m, ms, &n, false, vec![])], routes: vec![], query_parameters: vec![] }
    }
    fn at(&mut self, r: Routes) -> NestedRoutes {
        NestedRoutes { path_segment: PathSegment::Static(self.next()), routes: r }
    }
    fn with(&mut self, r: Routes) -> NestedRoutes {
        NestedRoutes { path_segment: PathSegment::Dynamic(self.par()), routes: r }
    }
}

/// `size` is about the number of names.
fn make(kind: u32, size: usize, n: &mut Names) -> RouteConfig {
    let mut root = Routes::default();
    let mut headers = vec![];
    match kind {
        // siblings
        0 => {
            for _ in 0..size / 2 {
                let r = n.leaf(Method::Get, &[]);
                let r = n.at(r);
                root.routes.push(r);
            }
        }
        // levels, with a sibling at each
        1 => {
            root = n.leaf(Method::Put, &["m"]);
            for k in 0..size / 4 {
                let side = n.leaf(Method::Get, &["m"]);
                let side = n.at(side);
                let below = if k % 3 == 1 { n.with(root) } else { n.at(root) };
                root = Routes { resources: vec![], routes: vec![side, below], query_parameters: vec![] };
            }
        }
        // long names
        2 => {
            n.len = 2 * size;
            root = n.leaf(Method::Get, &[]);
            let m = n.next();
            let r = n.leaf(Method::Post, &[&m, "n", &m]);
            let r = n.with(r);
            root.routes.push(r);
            let r = n.leaf(Method::Put, &[&m]);
            let mut r = n.at(r);
            let q = n.par();
            r.routes.resources[0].query_parameters.push(q);
            root.routes.push(r);
        }
        // query parameters
        3 => {
            root = n.leaf(Method::Delete, &[]);
            for _ in 0..size / 3 {
                let q = n.par();
                root.query_parameters.push(q);
                let q = n.par();
                root.resources[0].query_parameters.push(q);
            }
            let mut r = n.leaf(Method::Put, &["m"]);
            for _ in 0..size / 3 {
                let q = n.par();
                r.query_parameters.push(q);
            }
            let r = n.at(r);
            root.routes.push(r);
        }
        // path parameters
        4 => {
            root = n.leaf(Method::Put, &["m"]);
            for _ in 0..size / 2 {
                let below = n.with(root);
                root = Routes { resources: vec![], routes: vec![below], query_parameters: vec![] };
            }
        }
        // modules side by side and inside each other
        5 => {
            for k in 0..size / 4 {
                let m = n.next();
                let r = n.leaf(METHODS[k % 4], &[&m]);
                let r = n.at(r);
                root.routes.push(r);
            }
            let mut ms = vec![];
            for _ in 0..size / 6 {
                ms.push(n.next());
            }
            let ms: Vec<&str> = ms.iter().map(|m| &m[..]).collect();
            root.resources.push(res(Method::Get, &ms, "a", false, vec![]));
            root.resources.push(res(Method::Post, &ms[..1], "a", false, vec![]));
            root.resources.push(res(Method::Put, &ms, "a", true, vec![]));
        }
        // headers
        6 => {
            for k in 0..size / 2 {
                let h = n.next();
                headers.push(Header { text: if k == 3 { ["// ", &"x".repeat(8 * size), &h].concat()[2..].to_string() } else { ["use ", &h, ";"].concat() } });
            }
            root = n.leaf(Method::Get, &["m"]);
        }
        // every method, direct and redirected, on route after route
        7 => {
            for k in 0..size / 6 {
                let mut r = Routes::default();
                for m in 0..4 {
                    let x = n.next();
                    r.resources.push(res(METHODS[(k + m) % 4], &["m", "k"][..k % 3], &x, (k + m) % 5 == 0, vec![]));
                }
                let r = n.at(r);
                root.routes.push(r);
            }
        }
        // literals that share more and more of their text, some beside a parameter
        8 => {
            let mut s = n.next();
            for k in 0..size / 4 {
                let r = n.leaf(Method::Get, &[]);
                root.routes.push(NestedRoutes { path_segment: PathSegment::Static(s.clone()), routes: r });
                s.push_str(["a", "bc", "_"][k % 3]);
                if k == size / 8 {
                    let r = n.leaf(Method::Get, &["m"]);
                    let r = n.with(r);
                    root.routes.push(r);
                }
            }
        }
        // resources in one module, in no order
        _ => {
            let mut all = vec![];
            for k in 0..size / 2 {
                let mut r = n.leaf(Method::Get, &["m"]);
                r.resources[0].name.insert(0, (b'a' + (k * 7 % 26) as u8) as char);
                all.push(n.at(r));
            }
            root.routes = all;
        }
    }
    RouteConfig { headers, routes: root }
}

/// `letter`: whether one is free; else the config is concrete.
pub fn big(kind: u32, size: usize, letter: bool) -> RouteConfig {
    if !letter {
        return make(kind, size, &mut Names { n: 0, free: usize::MAX, len: 1, letter: None });
    }
    let mut count = Names { n: 0, free: usize::MAX, len: 1, letter: None };
    make(kind, size, &mut count);
    let n = count.n;
    let free = [0, 1, n / 3, n / 2, n - 2, n - 1][sym::choose(6) as usize];
    let b = sym::u8();
    sym::assume((b >= b'a') & (b <= b'z'));
    make(kind, size, &mut Names { n: 0, free, len: 1, letter: Some(b) })
}

pub fn any(size: usize, letter: bool) -> RouteConfig {
    let c = big(sym::choose(KINDS), size, letter);
    sym::say(|| c.stringify());
    c
}
