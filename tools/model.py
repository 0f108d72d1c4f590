"""Independent model of route configs: reading/writing canonical route files, naming rules,
reference tables and Rust adapters for the generated routers.

Nothing here looks at wayfinder's code; it encodes the language reference and the
property texts only."""
import random, re
from dataclasses import dataclass, field
from typing import List, Optional, Tuple, Union


@dataclass(frozen=True)
class Param:
    name: str
    typ: str


@dataclass
class Res:
    method: str
    modules: List[str]
    name: str
    redirect: bool = False
    q: List[Param] = field(default_factory=list)

    def qual(self):
        return "::".join(self.modules + [self.name])


@dataclass
class Routes:
    res: List[Res] = field(default_factory=list)
    kids: List[Tuple[Union[str, Param], "Routes"]] = field(default_factory=list)
    q: List[Param] = field(default_factory=list)


@dataclass
class Config:
    headers: List[str]
    root: Routes


def read(text):
    """Canonical route-file text -> Config (strict)."""
    lines = [l for l in text.split("\n")]
    hs = []
    while lines and lines[0] != "/":
        if lines[0].strip():
            hs.append(lines[0])
        lines.pop(0)
    lines = [l for l in lines[1:] if l.strip()]
    items = [((len(l) - len(l.lstrip(" "))) // 2, l.strip()) for l in lines]

    def par(s):
        n, t = s.split(":")
        return Param(n.strip(), t.strip())

    def block(i, d):
        r = Routes()
        while i < len(items) and items[i][0] == d:
            s = items[i][1]
            m = re.match(r"^(GET|POST|PUT|DELETE) (->)? ?(\w+(?:::\w+)*)$", s)
            if s.startswith("["):
                r.q.append(par(s[1:-1]))
                i += 1
            elif m:
                parts = m.group(3).split("::")
                x = Res(m.group(1), parts[:-1], parts[-1], bool(m.group(2)))
                i += 1
                while i < len(items) and items[i][0] == d + 1 and items[i][1].startswith("["):
                    x.q.append(par(items[i][1][1:-1]))
                    i += 1
                r.res.append(x)
            else:
                seg = par(s[1:-1]) if s.startswith("{") else s
                i, k = block(i + 1, d + 1)
                r.kids.append((seg, k))
        return i, r

    i, r = block(0, 1)
    assert i == len(items), items[i]
    return Config(hs, r)


def write_routes(r, d):
    o = ""
    ind = "  " * d
    for p in r.q:
        o += "%s[%s: %s]\n" % (ind, p.name, p.typ)
    for x in r.res:
        o += "%s%s %s%s\n" % (ind, x.method, "-> " if x.redirect else "", x.qual())
        for p in x.q:
            o += "%s  [%s: %s]\n" % (ind, p.name, p.typ)
    for s, k in r.kids:
        o += "%s%s\n" % (ind, s if isinstance(s, str) else "{%s: %s}" % (s.name, s.typ))
        o += write_routes(k, d + 1)
    return o


def write(c):
    o = "".join(h + "\n" for h in c.headers)
    if c.headers:
        o += "\n"
    return o + "/\n" + write_routes(c.root, 1)


def caps(s):
    o = ""
    up = True
    for ch in s:
        if ch == "_" and o + ch != ch:
            up = True
            continue
        o += ch.upper() if up and ch.isascii() else ch
        up = False
    return o


def snake(s):
    o = s[:1].lower() if s[:1].isascii() else s[:1]
    for ch in s[1:]:
        if "A" <= ch <= "Z":
            o += "_" + ch.lower()
        else:
            o += ch
    return o


def walk(r, path=(), q=()):
    """(path segments, Routes, query parameters in scope)"""
    q = q + tuple(r.q)
    yield path, r, q
    for s, k in r.kids:
        yield from walk(k, path + (s,), q)


def shape_problem(c):
    """Why a conflict-free config has no usable router on the pinned tree (known finding), or None."""
    names = set()
    for path, r, q in walk(c.root):
        dyn = [s for s, _ in r.kids if not isinstance(s, str)]
        lit = [s for s, _ in r.kids if isinstance(s, str)]
        if len(dyn) > 1:
            return "two parameters side by side"
        pn = [s.name for s in path if not isinstance(s, str)]
        if len(set(pn)) != len(pn):
            return "parameter name repeated on a path"
    return None


def kf2_nodes(c):
    n = 0
    for path, r, q in walk(c.root):
        if kf2(r):
            n += 1
    return n


def lcp(ls):
    p = ls[0]
    for l in ls[1:]:
        while not l.startswith(p):
            p = p[:-1]
    return p


def kf2(r):
    dyn = [s for s, _ in r.kids if not isinstance(s, str)]
    lit = [s for s, _ in r.kids if isinstance(s, str)]
    if not dyn or len(lit) < 2:
        return False
    p = lcp(lit)
    return bool(p) and p not in lit


# ---------- Rust side ----------



def rs(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def table(c, name):
    """static reference table"""
    nodes = []

    def add(r):
        me = len(nodes)
        nodes.append(None)
        kids = [(s, add(k)) for s, k in r.kids]
        lits = [(s, k) for s, k in kids if isinstance(s, str)]
        dyn = [(s, k) for s, k in kids if not isinstance(s, str)]
        commit = ""
        mode = 0
        if dyn and lits:
            commit = lcp([l for l, _ in lits])
            mode = 2 if kf2(r) else (1 if commit else 0)
        res = ", ".join("(b%s, %s, %s)" % (rs(x.method), rs(x.qual()), "true" if x.redirect else "false") for x in r.res)
        nodes[me] = "Node { lits: &[%s], dynm: %s, res: &[%s], commit: %s, mode: %d }" % (
            ", ".join("(%s, %d)" % (rs(s), k) for s, k in lits),
            "Some((%s, Ty::%s, %d))" % (rs(dyn[0][0].name), dyn[0][0].typ, dyn[0][1]) if dyn else "None",
            res,
            rs(commit),
            mode,
        )
        return me

    add(c.root)
    links = []
    for path, r, q in walk(c.root):
        for x in r.res:
            if not x.redirect:
                segs = ", ".join("Seg::L(%s)" % rs(s) if isinstance(s, str) else "Seg::P(%s)" % rs(s.name) for s in path)
                links.append("(%s, b%s, &[%s])" % (rs(x.qual()), rs(x.method), segs))
    pats = []
    for path, r, q in walk(c.root):
        segs = ", ".join("Seg::L(%s)" % rs(s) if isinstance(s, str) else "Seg::P(%s)" % rs(s.name) for s in path)
        pats.append("&[%s]" % segs)
    return "pub static TABLE: Table = Table { name: %s, nodes: &[\n  %s\n], links: &[\n  %s\n], pats: &[%s] };\n" % (
        rs(name), ",\n  ".join(nodes), ",\n  ".join(links), ", ".join(pats))


def actions(c):
    """qualified name -> (modules, name, route params, query params) of every direct resource"""
    out = []
    for path, r, q in walk(c.root):
        for x in r.res:
            if not x.redirect:
                dyn = [s for s in path if not isinstance(s, str)]
                out.append((x.modules, x.name, dyn, list(q) + x.q))
    return out


def adapter(c, name, file):
    acts = actions(c)
    arms = ""
    for mods, n, dyn, q in acts:
        pat = "routes::" + "".join(snake(m) + "::" for m in mods) + caps(n)
        fields = [p.name for p in dyn] + [p.name for p in q]
        inner = pat + (" { " + ", ".join("%s" % f for f in fields) + " }" if fields else "")
        route = "routes::" + "".join(snake(m) + "::" for m in mods) + "Route::" + caps(n) + "(" + inner + ")"
        for i in range(len(mods) - 1, -1, -1):
            route = "routes::" + "".join(snake(m) + "::" for m in mods[:i]) + "Route::" + caps(mods[i]) + "(" + route + ")"
        body = ""
        for p in dyn:
            body += "let __v: %s = %s; __params.push((%s, Pv::from(__v))); " % (p.typ, p.name, rs(p.name))
        for p in q:
            body += "let __v: Option<%s> = %s; __queries.push((%s, __v.is_some())); " % (p.typ, p.name, rs(p.name))
        arms += "      %s => { %s__res = %s; }\n" % (route, body, rs("::".join(mods + [n])))
    qs = {}
    for mods, n, dyn, q in acts:
        qs["::".join(mods + [n])] = [p.name for p in q]
    names = sorted(set(s.name for path, r, q in walk(c.root) for s in path if not isinstance(s, str)))
    return """
pub mod %(name)s {
  #[allow(unused_imports)] use crate::types::*;
  #[allow(unused_imports)] use crate::refr::*;
  include!(%(file)s);
  %(table)s
  pub fn call(path: &[u8], method: &[u8], want_link: bool) -> Out {
    match routes::match_route(path, method) {
      Err(e) => Out::err(e.to_string()),
      Ok(routes::Match::NotFound) => Out::kind(Kind::NotFound),
      Ok(routes::Match::NotAllowed) => Out::kind(Kind::NotAllowed),
      Ok(routes::Match::Route(r)) => conv(r, Kind::Route, want_link),
      Ok(routes::Match::Redirect(r)) => conv(r, Kind::Redirect, want_link),
    }
  }
  #[allow(unused_mut, unused_variables, unused_assignments, unreachable_patterns)]
  fn conv(r: routes::Route, __kind: Kind, want_link: bool) -> Out {
    let __link = if want_link { r.to_path() } else { String::new() };
    let mut __params: Vec<(&'static str, Pv)> = Vec::new();
    let mut __queries: Vec<(&'static str, bool)> = Vec::new();
    let __res: &'static str;
    match r {
%(arms)s
    }
    Out { kind: __kind, res: __res, params: __params, queries: __queries, err: String::new(), link: __link }
  }
  pub static QUERIES: &[(&str, &[&str])] = &[%(qs)s];
  pub static NAMES: &[&str] = &[%(names)s];
  pub static ROUTER: Router = Router { table: &TABLE, call, queries: QUERIES, names: NAMES };
}
""" % dict(name=name, file=rs(file), names=", ".join(rs(n) for n in names), table=table(c, name), arms=arms,
           qs=", ".join("(%s, &[%s])" % (rs(k), ", ".join(rs(x) for x in v)) for k, v in qs.items()))


# ---------- pseudo-random configs ----------

def random_config(rng, size=8, big=False):
    cnt = [0]
    types = ["String", "u8", "bool", "Tok", "i16", "String", "String"]

    def lits(n, prefixy):
        out = []
        alpha = "abc" if prefixy else "abcdeXY_019"
        while len(out) < n:
            k = rng.choice([1, 1, 2, 2, 3])
            s = "".join(rng.choice(alpha) for _ in range(k))
            if s not in out:
                out.append(s)
        return out

    mods = [[], [], ["Adm"], ["adm"][:0], ["Ab"], ["Ab", "cd_e"], ["x"], ["BookShelf"]]
    qn = [0]

    def res(path, qscope, used):
        m = rng.choice([x for x in ["GET", "POST", "PUT", "DELETE"] if x not in used])
        used.append(m)
        cnt[0] += 1
        nm = rng.choice(["R%d", "show_r%d", "r%d", "X%dy"]) % cnt[0]
        x = Res(m, list(rng.choice(mods)), nm)
        if rng.random() < 0.15:
            qn[0] += 1
            x.q.append(Param("q%d" % qn[0], rng.choice(["String", "u32"])))
        return x

    def gen(depth, path, budget):
        r = Routes()
        if rng.random() < 0.12:
            qn[0] += 1
            r.q.append(Param("q%d" % qn[0], rng.choice(["String", "bool"])))
        nk = rng.choice([0, 1, 1, 2, 2, 3]) if depth < 4 and budget[0] > 0 else 0
        if depth == 0 and nk == 0:
            nk = 1
        names = lits(nk, rng.random() < 0.6)
        dyn = rng.random() < 0.45 and nk > 0
        if dyn:
            names = names[1:]
            if names and rng.random() < 0.5:
                f = names[0][0]
                names = list(dict.fromkeys(f + n[1:] for n in names))
        segs = list(names)
        if dyn:
            segs.insert(rng.randrange(len(segs) + 1), Param("p%d" % depth, rng.choice(types)))
        for s in segs:
            budget[0] -= 1
            r.kids.append((s, gen(depth + 1, path + (s,), budget)))
        if not r.kids or rng.random() < 0.6:
            used = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r.res.append(res(path, None, used))
        return r

    for _ in range(1000):
        cnt[0] = 0
        qn[0] = 0
        c = Config(["use crate::types::*;"], gen(0, (), [size]))
        if shape_problem(c):
            continue
        if not any(True for _ in actions(c)):
            continue
        add_redirects(rng, c)
        return c
    raise Exception("no config")


def add_redirects(rng, c):
    acts = []
    for path, r, q in walk(c.root):
        for x in r.res:
            if not x.redirect:
                acts.append((tuple(s for s in path if not isinstance(s, str)), q, x))
    for path, r, q in list(walk(c.root)):
        if rng.random() < 0.2:
            dyn = tuple(s for s in path if not isinstance(s, str))
            cand = [x for d, qq, x in acts if [p for p in d] == [p for p in dyn] and qq == q and x not in r.res]
            free = [m for m in ["GET", "POST", "PUT", "DELETE"] if m not in [x.method for x in r.res]]
            if cand and free:
                t = rng.choice(cand)
                r.res.append(Res(rng.choice(free), list(t.modules), t.name, True, list(t.q)))


def permute(rng, c):
    def go(r):
        k = [(s, go(x)) for s, x in r.kids]
        rng.shuffle(k)
        res = list(r.res)
        rng.shuffle(res)
        return Routes(res, k, list(r.q))
    return Config(list(c.headers), go(c.root))


def reverse(c):
    def go(r):
        return Routes(list(reversed(r.res)), [(s, go(x)) for s, x in reversed(r.kids)], list(r.q))
    return Config(list(c.headers), go(c.root))
