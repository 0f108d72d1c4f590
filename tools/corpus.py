"""Builds the corpus of generated routers: route files -> (real parser, mount, codegen) -> modules
with adapters and reference tables, as one Rust source `corpus.rs`."""
import copy, os, random, re, subprocess
import model as M

HEADER = "use crate::types::*;"


def hand(repo):
    out = []
    name, buf = None, []
    for l in open(os.path.join(os.path.dirname(__file__), "../corpus/hand.txt")).read().split("\n") + ["=== "]:
        if l.startswith("=== "):
            if name:
                t = "\n".join(buf)
                if t.startswith("@"):
                    t = open(os.path.join(repo, t[1:].strip())).read()
                out.append((name, t))
            name, buf = l[4:].strip(), []
        else:
            buf.append(l)
    return out


def verbs():
    """Every choice of which of a route's four resources are redirects, with and without query parameters, in any order of verbs."""
    V = ["GET", "POST", "PUT", "DELETE"]
    out = "/\n  GET To\n  PUT -> Toq\n    [q: u8]\n  toq\n    DELETE Toq\n      [q: u8]\n"
    for k in range(16):
        out += "  v%x\n" % k
        if k % 4 == 3:
            out += "    [all: u8]\n"
        for i in range(4):
            v = V[(i + k // 2) % 4]
            if k >> i & 1 and k % 4 != 3:
                out += "    %s -> %s\n" % (v, "Toq\n      [q: u8]" if (k + i) % 3 == 0 else "To")
            else:
                out += "    %s V%x_%s\n" % (v, k, v.lower()) + "".join("      [%s: u8]\n" % x for x in ["a", "b", "c"][:(k // 3 + i) % 4])
        if k % 4 == 3:
            out += "    w\n      GET W%x\n        [own: Tok]\n      PUT W%x_put\n" % (k, k)
    return out


def shapes(turn):
    """Up to three siblings that begin alike or not, with or without a parameter beside them, each ending there, going on, or both."""
    L = ["a", "ab", "abc", "b"]
    sets = [[l for i, l in enumerate(L) if m >> i & 1] for m in range(1, 16)]
    out = "/\n"
    for t, ls in enumerate(sets):
        out += "  %s\n" % chr(ord("c") + t)
        if (t + turn) % 5 == 0:
            out += "    POST T%d\n" % t
        segs = ls + (["{p: Tok}"] if turn % 2 else [])
        for j, l in enumerate(segs):
            k = (t + j + turn) % 3
            out += "    %s\n" % l
            if k < 2:
                out += "      %s S%d_%d\n" % (["GET", "PUT"][(t + j) % 2], t, j)
            if k == 1:
                out += "      %s\n        GET S%d_%d_x\n" % (["x", "bc", "a"][t % 3], t, j)
            if k == 2:
                out += "      {n: u8}\n        DELETE S%d_%d_n\n" % (t, j)
    return out


MOUNTS = [
    # name, outer text, inner text, at
    ("m_plain", "/\n  [lang: String]\n  GET Root\n  a\n    GET A\n    {x: u8}\n      GET A_x\n",
     "/\n  [page: u8]\n  GET Inn::Root\n  new\n    GET Inn::New\n  {id: Tok}\n    GET Inn::Show\n    PUT Inn::Update\n      [force: bool]\n", "in"),
    ("m_prefix", "/\n  ap\n    GET Ap\n  apix\n    GET Apix\n    POST Apix_post\n",
     "/\n  api\n    GET Inn::Api\n  {n: u8}\n    z\n      GET Inn::Z\n", "api"),
    ("m_param", "/\n  [top: String]\n  {p: Tok}\n    GET Pp\n    q\n      GET Pp_q\n",
     "/\n  GET Inn::Root\n  POST Inn::Post\n  list\n    GET -> Inn::Root\n", "m"),
    ("m_fork", "/\n  foo\n    GET Foo\n  {p: Tok}\n    GET Pp\n", "/\n  GET Inn::Root\n  y\n    PUT Inn::Y\n", "fob"),
    ("m_empty", "/\n  GET Root\n  z\n    [zq: u8]\n    GET Z\n", "/\n  x\n    {y: String}\n      GET Inn::Y\n      DELETE Inn::D\n", "x"),
]

BARE = [
    ("bare", "/\n  a\n    GET A\n", "later"),
    ("bare_prefix", "/\n  lat\n    GET Lat\n  laters\n    POST Laters\n", "later"),
    ("bare_beside_param", "/\n  GET Root\n  {p: Tok}\n    GET Pp\n", "later"),
]


class Entry:
    def __init__(self, name, conf, text=None, mount=None, check=True):
        self.name, self.conf, self.text, self.mount = name, conf, text, mount


def build(repo, work, gen, seed, nrandom, sizes=(5, 12), perms_of_random=4):
    """-> (entries, bad {name: reason}, sets, permuted, mounted)"""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    es = []

    def conf(text):
        c = M.read(text)
        if HEADER not in c.headers:
            c.headers = [HEADER] + [h for h in c.headers if "Uuid" not in h]
        return c

    for n, t in hand(repo):
        es.append(Entry(n, conf(t)))
    es.append(Entry("verbs", conf(verbs())))
    for turn in range(6):
        es.append(Entry("shapes_%d" % turn, conf(shapes(turn))))
    rng = random.Random(1000 + seed)
    for k in range(nrandom):
        size = rng.randrange(*sizes) if k % 3 == 0 else rng.randrange(1, 4) if k % 3 == 1 else rng.randrange(13, 26)
        es.append(Entry("rnd_%d" % k, M.random_config(rng, size)))
    base = list(es)
    permuted = []
    for e in base:
        if sum(len(r.kids) + len(r.res) for _, r, _ in M.walk(e.conf.root)) < 3:
            continue
        if e.name.startswith("rnd_") and int(e.name[4:]) >= perms_of_random:
            continue
        variants = [("rev", M.reverse(e.conf))]
        if not e.name.startswith("rnd_"):
            variants.append(("mix", M.permute(rng, e.conf)))
        for tag, c in variants:
            if M.write(c) == M.write(e.conf) or (tag == "mix" and M.write(c) == M.write(variants[0][1])):
                continue
            p = Entry(e.name + "_" + tag, c)
            es.append(p)
            permuted.append((e.name, p.name))
    mounted = []
    for n, o, i, at in MOUNTS:
        oc, ic = conf(o), conf(i)
        wc = M.Config(list(oc.headers), copy.deepcopy(oc.root))
        wc.root.kids.append((at, copy.deepcopy(ic.root)))
        es.append(Entry(n + "_outer", oc))
        es.append(Entry(n + "_inner", ic))
        es.append(Entry(n, wc, mount=(n + "_outer", n + "_inner", at)))
        mounted.append((n, at, [p.name for p in oc.root.q]))
    # configs the language cannot write: a route with nothing on it and nothing below
    for n, o, at in BARE:
        oc = conf(o)
        es.append(Entry(n + "_outer", oc))
        wc = M.Config(list(oc.headers), copy.deepcopy(oc.root))
        wc.root.kids.append((at, M.Routes()))
        es.append(Entry(n, wc, mount=(n + "_outer", "-", at)))
    lines = ""
    for e in es:
        e.file = os.path.join(work, e.name + ".routes")
        open(e.file, "w").write(M.write(e.conf))
        if e.mount:
            lines += "mount %s %s %s %s\n" % ((e.name,) + e.mount)
        else:
            lines += "file %s %s\n" % (e.name, e.file)
        e.problem = M.shape_problem(e.conf)
        assert not e.problem, (e.name, e.problem)
    p = subprocess.run([gen, work], input=lines, text=True, timeout=120)
    bad = {}
    for e in es:
        f = os.path.join(work, e.name + ".err")
        if os.path.exists(f):
            bad[e.name] = open(f).read()
        elif not os.path.exists(os.path.join(work, e.name + ".rs")):
            bad[e.name] = "generation crashed (exit %s)" % p.returncode
    return es, bad, permuted, mounted


def props(e):
    """which sets a router belongs to"""
    s = set()
    base = not re.search(r"_(rev|mix)$", e.name)
    if base:
        s.add("ALL")
        for path, r, q in M.walk(e.conf.root):
            if any(not isinstance(x, str) for x in path):
                s.add("PARAMS")
            if any(x.redirect for x in r.res):
                s.add("REDIRECT")
            if q or any(x.q for x in r.res):
                s.add("QUERY")
    return s


def source(work, es, skip, permuted, mounted, sets=None):
    """writes corpus.rs for all entries not in skip"""
    use = [e for e in es if e.name not in skip]
    idx = {e.name: i for i, e in enumerate(use)}
    o = ""
    for e in use:
        o += M.adapter(e.conf, e.name, os.path.join(work, e.name + ".rs"))
    o += "pub static ROUTERS: &[&Router] = &[%s];\n" % ", ".join("&%s::ROUTER" % e.name for e in use)
    for k in ["ALL", "PARAMS", "REDIRECT", "QUERY"]:
        o += "pub static SET_%s: &[usize] = &[%s];\n" % (k, ", ".join(str(idx[e.name]) for e in use if k in props(e)))
    o += "pub static PERMUTED: &[(usize, usize)] = &[%s];\n" % ", ".join("(%d, %d)" % (idx[a], idx[b]) for a, b in permuted if a in idx and b in idx)
    o += "pub struct Mounted { pub whole: usize, pub outer: usize, pub inner: usize, pub at: &'static str, pub scope: &'static [&'static str] }\n"
    o += "pub static MOUNTED: &[Mounted] = &[%s];\n" % ", ".join(
        "Mounted { whole: %d, outer: %d, inner: %d, at: %s, scope: &[%s] }" % (idx[n], idx[n + "_outer"], idx[n + "_inner"], M.rs(at), ", ".join(M.rs(x) for x in sc))
        for n, at, sc in mounted if n in idx and n + "_outer" in idx and n + "_inner" in idx)
    open(os.path.join(work, "corpus.rs"), "w").write(o)
    return use
