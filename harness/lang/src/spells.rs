//! Does a text spell out a config?  An acceptor for the route-file language written from the
//! language reference, independent of wayfinder's parser: it is told the config and consumes
//! the text line by line.
use wayfinder::*;

pub struct Rd<'a> {
    pub t: &'a [u8],
    pub p: usize,
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    sym::decide(d == 0)
}

impl<'a> Rd<'a> {
    fn lit(&mut self, s: &[u8]) -> bool {
        if self.t.len() - self.p < s.len() || !same(&self.t[self.p..self.p + s.len()], s) {
            return false;
        }
        self.p += s.len();
        true
    }
    fn word(&mut self, s: &[u8]) -> bool {
        // letter case of the verb is free
        if self.t.len() - self.p < s.len() {
            return false;
        }
        let mut d = 0u8;
        for i in 0..s.len() {
            d |= (self.t[self.p + i] ^ s[i]) & !0x20;
        }
        if !sym::decide(d == 0) {
            return false;
        }
        self.p += s.len();
        true
    }
    fn at(&self, c: u8) -> bool {
        self.p < self.t.len() && sym::decide(self.t[self.p] == c)
    }
    fn line_end(&mut self) -> bool {
        if self.at(b'\n') {
            self.p += 1;
            return true;
        }
        if self.at(b'\r') && self.p + 1 < self.t.len() && sym::decide(self.t[self.p + 1] == b'\n') {
            self.p += 2;
            return true;
        }
        false
    }
    fn line_ends(&mut self) -> bool {
        if !self.line_end() {
            return false;
        }
        while self.line_end() {}
        true
    }
    /// Space that does not matter; a line break there continues the line.
    fn space(&mut self) {
        while self.p < self.t.len() {
            let c = self.t[self.p];
            if sym::decide((c == b' ') | (c == b'\t') | (c == b'\r') | (c == b'\n')) {
                self.p += 1;
            } else {
                break;
            }
        }
    }
    fn indent(&mut self, level: usize) -> bool {
        for _ in 0..level {
            if !self.lit(b"  ") {
                return false;
            }
        }
        true
    }
    fn param(&mut self, open: &[u8], close: &[u8], p: &Param) -> bool {
        if !self.lit(open) {
            return false;
        }
        self.space();
        if !self.lit(p.name.as_bytes()) {
            return false;
        }
        self.space();
        if !self.lit(b":") {
            return false;
        }
        self.space();
        if !self.lit(p.typ.as_bytes()) {
            return false;
        }
        self.space();
        self.lit(close)
    }
    fn routes(&mut self, r: &Routes, level: usize) -> bool {
        for q in &r.query_parameters {
            if !(self.indent(level) && self.param(b"[", b"]", q) && self.line_ends()) {
                return false;
            }
        }
        for x in &r.resources {
            let verb: &[u8] = match x.method {
                Method::Get => b"GET",
                Method::Post => b"POST",
                Method::Put => b"PUT",
                Method::Delete => b"DELETE",
            };
            if !(self.indent(level) && self.word(verb) && self.lit(b" ")) {
                return false;
            }
            if x.is_redirect {
                self.space();
                if !self.lit(b"->") {
                    return false;
                }
                self.space();
            }
            for m in &x.modules {
                if !self.lit(m.as_bytes()) {
                    return false;
                }
                self.space();
                if !self.lit(b"::") {
                    return false;
                }
                self.space();
            }
            if !(self.lit(x.name.as_bytes()) && self.line_ends()) {
                return false;
            }
            for q in &x.query_parameters {
                if !(self.indent(level + 1) && self.param(b"[", b"]", q) && self.line_ends()) {
                    return false;
                }
            }
        }
        for n in &r.routes {
            if !self.indent(level) {
                return false;
            }
            let ok = match &n.path_segment {
                PathSegment::Static(s) => self.lit(s.as_bytes()),
                PathSegment::Dynamic(p) => self.param(b"{", b"}", p),
            };
            if !(ok && self.line_ends() && self.routes(&n.routes, level + 1)) {
                return false;
            }
        }
        true
    }
}

/// The routes of a file, from the line after the slash to the end of the text.
pub fn spells_routes(t: &[u8], r: &Routes, level: usize) -> bool {
    let mut s = Rd { t, p: 0 };
    while s.line_end() {}
    s.routes(r, level) && s.p == t.len()
}

pub fn spells(t: &[u8], c: &RouteConfig) -> bool {
    let mut s = Rd { t, p: 0 };
    while s.line_end() {}
    for h in &c.headers {
        if h.text.is_empty() || !(s.lit(h.text.as_bytes()) && s.line_ends()) {
            return false;
        }
    }
    s.lit(b"/") && s.line_ends() && s.routes(&c.routes, 1) && s.p == t.len()
}
