//! Reference router: walks the declared table segment by segment, the way the language
//! reference describes it.  Written without looking at how wayfinder generates its matcher.
use crate::types::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[allow(non_camel_case_types)]
pub enum Ty {
    String,
    u8,
    u16,
    u32,
    i16,
    i32,
    usize,
    bool,
    char,
    Tok,
    Letter,
    Uuid,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Pv {
    S(String),
    N(i64),
    B(bool),
    C(char),
    T(Tok),
    L(Letter),
    U(Uuid),
}

macro_rules! from {
    ($($t:ty => $e:expr),*) => { $(impl From<$t> for Pv { fn from(v: $t) -> Pv { $e(v) } })* };
}
from!(String => Pv::S, u8 => |v| Pv::N(v as i64), u16 => |v| Pv::N(v as i64), u32 => |v| Pv::N(v as i64),
      i16 => |v| Pv::N(v as i64), i32 => |v| Pv::N(v as i64), usize => |v| Pv::N(v as i64), bool => Pv::B, char => Pv::C, Tok => Pv::T, Letter => Pv::L, Uuid => Pv::U);

impl Pv {
    pub fn parse(t: Ty, s: &str) -> Option<Pv> {
        match t {
            Ty::String => Some(Pv::S(s.to_string())),
            Ty::u8 => s.parse::<u8>().ok().map(Pv::from),
            Ty::u16 => s.parse::<u16>().ok().map(Pv::from),
            Ty::u32 => s.parse::<u32>().ok().map(Pv::from),
            Ty::i16 => s.parse::<i16>().ok().map(Pv::from),
            Ty::i32 => s.parse::<i32>().ok().map(Pv::from),
            Ty::usize => s.parse::<usize>().ok().map(Pv::from),
            Ty::bool => s.parse::<bool>().ok().map(Pv::from),
            Ty::char => s.parse::<char>().ok().map(Pv::from),
            Ty::Tok => s.parse::<Tok>().ok().map(Pv::from),
            Ty::Letter => s.parse::<Letter>().ok().map(Pv::from),
            Ty::Uuid => s.parse::<Uuid>().ok().map(Pv::from),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Pv::S(s) => s.clone(),
            Pv::N(n) => n.to_string(),
            Pv::B(b) => b.to_string(),
            Pv::C(c) => c.to_string(),
            Pv::T(t) => t.to_string(),
            Pv::L(t) => t.to_string(),
            Pv::U(t) => t.to_string(),
        }
    }
    pub fn trace(&self) {
        match self {
            Pv::S(s) => sym::trace(s.as_bytes()),
            Pv::N(n) => sym::trace(&n.to_le_bytes()),
            Pv::B(b) => sym::trace(&[*b as u8]),
            Pv::C(c) => sym::trace(&(*c as u32).to_le_bytes()),
            Pv::T(t) => sym::trace(t.0.as_bytes()),
            Pv::L(t) => sym::trace(&[t.0]),
            Pv::U(t) => sym::trace(t.0.as_bytes()),
        }
    }
}

pub enum Seg {
    L(&'static str),
    P(&'static str),
}

pub struct Node {
    pub lits: &'static [(&'static str, usize)],
    pub dynm: Option<(&'static str, Ty, usize)>,
    pub res: &'static [(&'static [u8], &'static str, bool)],
    /// Known findings beside a parameter: 0 none, 1 text starting with `commit` is committed to
    /// the literals, 2 the literals are never matched.
    pub commit: &'static str,
    pub mode: u8,
}

pub struct Table {
    pub name: &'static str,
    pub nodes: &'static [Node],
    pub links: &'static [(&'static str, &'static [u8], &'static [Seg])],
    /// Declared paths with the types of their parameters.
    pub pats: &'static [&'static [Seg]],
}

pub struct Router {
    pub table: &'static Table,
    pub call: fn(&[u8], &[u8], bool) -> Out,
    pub queries: &'static [(&'static str, &'static [&'static str])],
    pub names: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    NotFound,
    NotAllowed,
    Route,
    Redirect,
    Error,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out {
    pub kind: Kind,
    pub res: &'static str,
    pub params: Vec<(&'static str, Pv)>,
    pub queries: Vec<(&'static str, bool)>,
    pub err: String,
    pub link: String,
}

impl Out {
    pub fn kind(kind: Kind) -> Out {
        Out { kind, res: "", params: vec![], queries: vec![], err: String::new(), link: String::new() }
    }
    pub fn err(e: String) -> Out {
        let mut o = Out::kind(Kind::Error);
        o.err = e;
        o
    }
    pub fn found(&self) -> bool {
        self.kind == Kind::Route || self.kind == Kind::Redirect
    }
}

/// What the reference says, and whether a known finding made it deviate.
pub struct Ref {
    pub out: Out,
    pub known: &'static str,
    /// a parameter's text was not UTF-8
    pub bad_utf8: bool,
    pub empty_param: bool,
    /// the walk ended in a table path (resources may or may not be declared there)
    pub node: Option<usize>,
}

fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && starts(a, b)
}

/// One decision for the whole comparison.
fn starts(a: &[u8], b: &[u8]) -> bool {
    if a.len() < b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..b.len() {
        d |= a[i] ^ b[i];
    }
    sym::decide(d == 0)
}

pub fn refer(t: &'static Table, path: &[u8], method: &[u8], findings: bool) -> Ref {
    let mut r = Ref { out: Out::kind(Kind::NotFound), known: "", bad_utf8: false, empty_param: false, node: None };
    let mut rest = if path.len() > 0 && path[0] == b'/' { &path[1..] } else { path };
    let mut at = 0usize;
    let mut params: Vec<(&'static str, Pv)> = vec![];
    loop {
        let node = &t.nodes[at];
        // Nothing left (or only the separator was): the request may end here.
        if rest.is_empty() && !node.res.is_empty() {
            return methods(r, node, at, method, params);
        }
        let mut n = 0;
        while n < rest.len() && rest[n] != b'/' {
            n += 1;
        }
        let seg = &rest[..n];
        let mut lit = None;
        for (l, k) in node.lits {
            if eq(seg, l.as_bytes()) {
                lit = Some(*k);
                break;
            }
        }
        if findings && node.mode == 2 {
            if lit.is_some() {
                r.known = "KF2";
            }
            lit = None;
        }
        if findings && node.mode == 1 && lit.is_none() && starts(seg, node.commit.as_bytes()) {
            r.known = "KF1";
            return r;
        }
        match (lit, node.dynm) {
            (Some(k), _) => at = k,
            (None, None) => return r,
            (None, Some((name, ty, k))) => {
                if seg.is_empty() {
                    r.empty_param = true;
                }
                match std::str::from_utf8(seg) {
                    Ok(s) => match Pv::parse(ty, s) {
                        Some(v) => params.push((name, v)),
                        None => {
                            r.out = Out::err(name.to_string());
                            return r;
                        }
                    },
                    Err(_) => {
                        r.bad_utf8 = true;
                        r.out = Out::err(name.to_string());
                        return r;
                    }
                }
                at = k;
            }
        }
        if n == rest.len() {
            let node = &t.nodes[at];
            if !node.res.is_empty() {
                return methods(r, node, at, method, params);
            }
            return r;
        }
        rest = &rest[n + 1..];
    }
}

fn methods(mut r: Ref, node: &'static Node, at: usize, method: &[u8], params: Vec<(&'static str, Pv)>) -> Ref {
    r.node = Some(at);
    for (m, name, redirect) in node.res {
        if method.len() == m.len() && method == *m {
            r.out.kind = if *redirect { Kind::Redirect } else { Kind::Route };
            r.out.res = name;
            r.out.params = params;
            return r;
        }
    }
    r.out.kind = Kind::NotAllowed;
    r
}

/// The path a route renders to: declared literals and parameter texts in order.
pub fn link(t: &'static Table, res: &str, params: &[(&'static str, Pv)]) -> Option<(String, &'static [u8])> {
    for (name, method, segs) in t.links {
        if *name == res {
            let mut s = String::from("/");
            let mut i = 0;
            for (k, seg) in segs.iter().enumerate() {
                if k > 0 {
                    s.push('/');
                }
                match seg {
                    Seg::L(l) => s.push_str(l),
                    Seg::P(_) => {
                        s.push_str(&params[i].1.text());
                        i += 1;
                    }
                }
            }
            return Some((s, method));
        }
    }
    None
}
