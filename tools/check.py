#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]    decide one property on /repo's working tree
   check.py --setup                       build the engine and warm the harness builds
   check.py --replay FILE                 run a recorded counterexample natively again

Exit 0: held on everything explored; 1: VIOLATION; 3: no answer (engine, build or model trouble)."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
ENG = os.path.join(BUILD, "engine/release/rsym")
sys.path.insert(0, HERE)
import plan

IRFLAGS = ["--emit=llvm-ir", "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Cdebuginfo=0"]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def env(crate, corpus):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, crate)
    e["CARGO_TERM_COLOR"] = "never"
    e["VERIF_CORPUS"] = corpus or "/nonexistent"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_MANIFEST_DIR", "OUT_DIR"):
        e.pop(k, None)
    return e


def repo_files():
    for d, sub, fs in os.walk(REPO):
        sub[:] = sorted(x for x in sub if x not in (".git", "target"))
        for f in sorted(fs):
            yield os.path.join(d, f)


def repo_hash():
    h = hashlib.sha256()
    for f in repo_files():
        if f.endswith((".rs", ".toml", ".lock", ".routes")):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def fresh(crate):
    """cargo compares times, not contents: when the sources differ from those last built here,
    forget what was built from them."""
    d = os.path.join(BUILD, crate)
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, "srchash")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        for prof in ("symex", "release", "debug"):
            fp = os.path.join(d, prof, ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(("wayfinder", "gen-", "lang-", "routers-", "builder-")):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        open(stamp, "w").write(h)


def cargo(crate, args, corpus=None, timeout=800):
    return subprocess.run(["cargo"] + args, cwd=os.path.join(V, "harness", crate), env=env(crate, corpus), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build_engine():
    e = env("engine", None)
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--release"], cwd=os.path.join(V, "engine"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        die("the engine does not build\n" + p.stdout[-2000:])


def build_gen():
    fresh("gen")
    p = cargo("gen", ["build", "--offline", "-q", "--release"])
    if p.returncode:
        die("the generator harness does not build\n" + errors(p.stdout))
    return os.path.join(BUILD, "gen/release/gen")


def errors(out):
    m = re.search(r"^error", out, re.M)
    return out[m.start():][:3000] if m else out[-3000:]


def build_crate(crate, corpus=None):
    """-> (llvm file, native runner) or the compiler's output"""
    fresh(crate)
    deps = os.path.join(BUILD, crate, "symex/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(crate + "-") and f.endswith(".ll"):
                os.remove(os.path.join(deps, f))
        # without the .ll cargo would still think the crate is fresh
        fp = os.path.join(BUILD, crate, "symex/.fingerprint")
        for x in os.listdir(fp):
            if x.startswith(crate + "-"):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    p = cargo(crate, ["build", "--offline", "-q", "--release"], corpus)
    if p.returncode:
        return None, None, p.stdout
    p = cargo(crate, ["rustc", "--offline", "-q", "--lib", "--crate-type=staticlib", "--profile", "symex", "--features", "engine", "--"] + IRFLAGS, corpus)
    if p.returncode:
        return None, None, p.stdout
    lls = [f for f in os.listdir(deps) if f.startswith(crate + "-") and f.endswith(".ll")]
    if len(lls) != 1:
        die("expected one module of LLVM IR, found %s" % lls)
    return os.path.join(deps, lls[0]), os.path.join(BUILD, crate, "release", crate), ""


def native(exe, params, lines, timeout=120):
    """-> list of (kind, trace, reach, msg, says), one per line"""
    arg = ",".join(str(p) for p in params)
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"

    def go(ls, t):
        try:
            p = subprocess.run([exe, arg], input="\n".join(ls) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=t, env=e, errors="replace")
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return "timeout", []
        return rc, [(l.split("\t") + [""] * 6)[1:6] for l in out.split("\n") if l.startswith("RESULT\t")]

    if not lines:
        return []
    rc, res = go(lines, timeout)
    if rc == 0 and len(res) == len(lines):
        return res
    out = []
    for l in lines:
        rc, res = go([l], 20)
        if rc == 0 and len(res) == 1:
            out.append(res[0])
        elif rc == "timeout":
            out.append(["fail", "", "", "does not terminate within 20 s", ""])
        else:
            out.append(["fail", "", "", "the process died (status %s)" % rc, ""])
    return out


def findings():
    """known-findings.txt -> {(property, id): text}, only open ones"""
    out = {}
    f = os.path.join(V, "known-findings.txt")
    for l in open(f).read().split("\n") if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\w+) id=(\w+) (.*)$", l)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = plan.CHECKS[prop]
        self.t0 = time.time()
        self.cov = {}
        self.viol = []
        self.known = {}
        self.samples = []
        self.assumptions = list(plan.ASSUME_ALL) + list(self.spec.get("assume", []))

    def violation(self, what, replay):
        d = os.path.join(V, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol)))
        replay = dict(replay, property=self.prop, what=what)
        json.dump(replay, open(f, "w"), indent=1)
        self.viol.append((what, f))

    def corpus(self, crate, gen):
        """corpus of generated routers; configs that fail to generate or compile are violations"""
        import corpus as C
        work = os.path.join(BUILD, "corpus")
        n = 120 if self.tier == "thorough" else 36
        es, bad, perm, mt = C.build(REPO, work, gen, self.seed, n)
        skip = dict(bad)
        for _ in range(6):
            C.source(work, es, skip, perm, mt)
            ll, exe, err = build_crate(crate, work)
            if ll:
                break
            names = set(re.findall(re.escape(work) + r"/(\w+)\.rs:\d+", err)) - {"corpus"}
            src = open(os.path.join(work, "corpus.rs")).read().split("\n")
            for ln in re.findall(re.escape(work) + r"/corpus\.rs:(\d+)", err):
                for k in range(int(ln) - 1, -1, -1):
                    m = re.match(r"pub mod (\w+) \{", src[k])
                    if m:
                        names.add(m.group(1))
                        break
            names = {x for x in names if x not in skip and any(e.name == x for e in es)}
            if not names:
                die("the router harness does not build\n" + errors(err))
            for x in names:
                skip[x] = "the generated module does not compile:\n" + self.compile_error(err, work, x)
        else:
            die("the router harness does not build")
        kind = self.spec["sets"]
        for e in es:
            if e.name in skip and (kind in C.props(e) or kind in ("PERMUTED", "MOUNTED")):
                self.violation("no router for table %s: %s" % (e.name, skip[e.name].split("\n")[0]),
                               {"table": e.name, "routes": open(e.file).read(), "mount": e.mount, "problem": skip[e.name],
                                "how": "generate this route file and compile the module together with the reference adapter"})
        use = [e for e in es if e.name not in skip]
        if kind == "PERMUTED":
            self.cov["programs"] = len(perm)
        elif kind == "MOUNTED":
            self.cov["programs"] = len(mt)
        else:
            self.cov["programs"] = len([e for e in use if kind in C.props(e)])
        self.cov["tables_generated"] = len(use)
        return ll, exe

    def compile_error(self, err, work, name):
        out = []
        for block in re.split(r"\n(?=error|warning)", err):
            if block.startswith("error") and ("/%s.rs:" % name in block or "corpus.rs" in block):
                out.append(block[:600])
        return "\n".join(out[:5])

    def engine(self, ll, entry, params):
        d = os.path.join(BUILD, "reports")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, "%s-%s.json" % (self.prop, entry))
        limit = 3000 if self.tier == "thorough" else 600
        left = max(30, (limit + 200 if self.tier == "thorough" else 780) - (time.time() - self.t0))
        limit = int(min(limit, left))
        cmd = [ENG, ll, "--entry", entry, "--param", ",".join(map(str, params)), "--threads", "8", "--time", str(limit), "--max-fail", "60",
               "--max-ins", str(self.spec.get("max_ins", 300_000_000)), "--samples", "24", "--seed", str(self.seed), "--out", rep]
        if os.path.exists(rep):
            os.remove(rep)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 300)
        if p.returncode not in (0, 1) or not os.path.exists(rep):
            die("engine failed (%s): %s" % (p.returncode, p.stdout[-1500:]))
        return json.load(open(rep))

    def go(self):
        sp = self.spec
        build_engine()
        built = {}
        tot = dict(paths=0, done=0, decisions=0, forks=0, queries=0, sat=0, unsat=0, cache_hits=0, steps=0, expected_panics=0)
        solver_s = engine_s = 0.0
        funcs, reach, kn, validated, bounds, incon = set(), {}, {}, 0, [], []
        for run in sp["runs"]:
            entry = run["entry"]
            params = run[self.tier] if self.tier in run else run["quick"]
            if params is None:
                continue
            crate = run.get("crate", sp["crate"])
            if crate not in built:
                if crate == "routers":
                    built[crate] = self.corpus("routers", build_gen())
                else:
                    ll, exe, err = build_crate(crate)
                    if not ll:
                        die("the harness does not build\n" + errors(err))
                    built[crate] = ll, exe
            ll, exe = built[crate]
            r = self.engine(ll, entry, params)
            e = r["entries"][0]
            for k in tot:
                tot[k] += e.get(k, 0) + (r.get(k, 0) if k in ("queries", "sat", "unsat", "cache_hits") else 0)
            solver_s += r["solver_s"]
            engine_s += r["wall_s"]
            self.solver = r["solver"]
            funcs |= set(e["functions"])
            for k, v in e["reach"].items():
                reach[k] = reach.get(k, 0) + v[0]
            bounds.append({"entry": entry, "params": params, "bound": run["bound"].format(*params), "paths": e["paths"], "solver_queries": r["queries"], "wall_s": r["wall_s"]})
            # 1. the engine and the ordinary build agree on sampled paths
            ss = e["samples"]
            res = native(exe, params, ["%s %s" % (entry, s[1]) for s in ss])
            for s, n in zip(ss, res):
                kind = {"end": "ok"}.get(s[0], s[0])
                if (n[0], n[1]) != (kind, s[2]):
                    if n[0] == "fail":
                        self.violation("%s: %s [%s]" % (entry, n[3], n[4]), self.replay(exe, entry, params, s[1], n))
                        continue
                    die("engine and native run disagree on %s %s: %s vs %s" % (entry, s[1], s, n))
                validated += 1
                if n[4] and len(self.samples) < 8 and n[4] not in self.samples:
                    self.samples.append(n[4][:400])
                elif not n[4] and len(self.samples) < 4:
                    self.samples.append("%s input %s: %s" % (entry, s[1], n[0]))
            # 2. counterexamples are replayed natively
            fs = e["failures"]
            res = native(exe, params, ["%s %s" % (entry, f["input"]) for f in fs[:25]])
            rep = 0
            for f, n in zip(fs, res):
                if n[0] == "fail":
                    rep += 1
                    self.violation("%s: %s%s" % (entry, n[3], " [%s]" % n[4] if n[4] else ""), self.replay(exe, entry, params, f["input"], n))
            if fs and not rep:
                incon.append("%s: %d counterexamples do not reproduce natively, e.g. %s (%s)" % (entry, e["nfail"], fs[0]["msg"], fs[0]["input"]))
            # 3. paths without an answer
            if e["nincon"]:
                res = native(exe, params, ["%s %s" % (entry, f["input"]) for f in e["inconclusive"][:4]])
                for f, n in zip(e["inconclusive"], res):
                    if n[0] == "fail":
                        self.violation("%s: %s%s" % (entry, n[3], " [%s]" % n[4] if n[4] else ""), self.replay(exe, entry, params, f["input"], n))
                    else:
                        incon.append("%s: %s (%s)" % (entry, f["msg"], f["input"]))
            for k, v in e["known"].items():
                c, i = kn.get(k, (0, None))
                n = native(exe, params, ["%s %s" % (entry, v[1])])[0]
                if (n[0], n[3]) != ("known", k):
                    die("known finding %s does not reproduce natively: %s" % (k, n))
                kn[k] = (c + v[0], (entry, params, v[1], n))
            for lab in run.get("reach", []):
                if lab not in e["reach"] and not (self.viol or incon):
                    incon.append("%s never reached '%s': the check would be vacuous" % (entry, lab))
            if self.viol and self.tier != "thorough":
                break
        listed = findings()
        for k, (c, (entry, params, inp, n)) in kn.items():
            if (self.prop, k) in listed:
                print("KNOWN-FINDING: property=%s %s %s (%d paths, e.g. %s)" % (self.prop, k, listed[(self.prop, k)], c, re.sub(r"[^ -~]", lambda m: m.group().encode("unicode_escape").decode(), n[4] or inp)))
            else:
                self.violation("unlisted finding %s: %s" % (k, n[4]), self.replay(exe, entry, params, inp, n))
        self.evidence(tot, solver_s, engine_s, funcs, reach, kn, validated, bounds)
        if self.viol:
            seen = set()
            for w, f in self.viol:
                key = re.sub(r"[^a-zA-Z ]", "", w)[:60]
                if key not in seen and len(seen) < 8:
                    print("  " + re.sub(r"[^ -~]", lambda m: m.group().encode("unicode_escape").decode(), w[:600]))
                seen.add(key)
            print("VIOLATION property=%s replay=%s" % (self.prop, self.viol[0][1]))
            sys.exit(1)
        if incon:
            die("no answer: " + "; ".join(incon[:5]))
        print("ok %s: %d paths, %d solver queries (%.1f s solver), %.0f s" % (self.prop, tot["paths"], tot["queries"], solver_s, time.time() - self.t0))

    def replay(self, exe, entry, params, inp, n):
        return {"crate": os.path.basename(exe), "entry": entry, "params": params, "input": inp, "native": {"kind": n[0], "message": n[3], "case": n[4]},
                "how": "python3 tools/check.py --replay <this file> (after the check has built the harness)", "exe": exe}

    def evidence(self, tot, solver_s, engine_s, funcs, reach, kn, validated, bounds):
        sp = self.spec
        c = self.cov
        if sp["level"] == "translation_validation":
            c["disagreements_checked"] = tot["done"]
        else:
            c["states"] = tot["done"]
            c["transitions"] = tot["decisions"]
        c["traces_validated_against_impl"] = validated
        c["samples"] = self.samples or ["(none)"]
        c["paths"] = tot["paths"]
        c["forks"] = tot["forks"]
        c["instructions"] = tot["steps"]
        c["expected_panics"] = tot["expected_panics"]
        c["solver"] = getattr(self, "solver", "")
        c["solver_queries"] = tot["queries"]
        c["sat"] = tot["sat"]
        c["unsat"] = tot["unsat"]
        c["query_cache_hits"] = tot["cache_hits"]
        c["solver_s"] = round(solver_s, 3)
        c["engine_s"] = round(engine_s, 3)
        c["bounds"] = bounds
        c["outside"] = sp.get("outside", "")
        c["reached"] = reach
        c["known_findings_hit"] = {k: v[0] for k, v in kn.items()}
        ours = sorted(f for f in funcs if re.search(sp.get("funcs", r"wayfinder|nom|routers|lang"), f))
        c["functions_encoded"] = ours[:150]
        c["functions_encoded_total"] = len(funcs)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": sp["level"], "coverage": c,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(V, "evidence", self.prop + ".json"), "w"), indent=1)


def setup():
    build_engine()
    gen = build_gen()
    r = Run("R01", "quick", int(os.environ.get("VERIF_SEED", "1")))
    r.corpus("routers", gen)
    for c in sorted(set(s["crate"] for s in plan.CHECKS.values()) - {"routers"}):
        ll, exe, err = build_crate(c)
        if not ll:
            die("harness %s does not build\n%s" % (c, errors(err)))
    print("setup done")


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        if "entry" not in r:
            print(json.dumps(r, indent=1))
            return
        n = native(os.path.join(BUILD, r["crate"], "release", r["crate"]), r["params"], ["%s %s" % (r["entry"], r["input"])])[0]
        print("%s: %s  %s" % (n[0], n[3], n[4]))
        sys.exit(1 if n[0] == "fail" else 0)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    Run(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1)).go()


try:
    main()
except SystemExit:
    raise
except BaseException as e:
    import traceback
    traceback.print_exc()
    print("ERROR: %s" % e)
    sys.exit(3)
