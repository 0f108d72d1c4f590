"""What each check runs: harness crate, entries with their bounds per tier, required reach labels."""

ASSUME_ALL = [
    "the engine's reading of LLVM IR and its models of memcpy, allocation and Display of integers (sampled paths are re-run natively and compared on every run)",
    "Z3's verdicts",
    "rustc's IR at opt-level 1 with overflow checks has the semantics of the shipped build",
    "allocation never fails",
]

ROUTER_ASSUME = [
    "route tables outside the corpus are not covered; the corpus is regenerated through the real parser and generator on each run",
    "the reference router written from the property text (harness/routers/src/refr.rs)",
    "paths: every byte string up to the length bound, and every declared path with symbolic parameter texts and at most one edit; methods: every byte string up to 7 bytes",
]

NONASCII = "outside the edits, bytes >= 0x80 in paths appear only as fixed two- and four-byte characters; arbitrary bytes are R04's"

R = lambda entry, quick, thorough, reach, what: {"entry": entry, "quick": quick, "thorough": thorough, "reach": reach, "bound": what}
RB = "raw paths of 0..={0} arbitrary bytes; declared paths with parameter texts of up to {1} arbitrary characters (or 300 and one; of more than three parameters, all but any one have one character) and one arbitrary edit (in paths of more than 100 bytes: within 12 bytes of the ends or 6 of the middle)"
ALLKINDS = ["not found", "not allowed", "route", "redirect", "parameter error"]


def router(entry, sets, quick, thorough, reach, **kw):
    d = {"crate": "routers", "level": "translation_validation", "sets": sets, "runs": [R(entry, quick, thorough, reach, RB)],
         "funcs": r"routes|match_route|to_path|routers::", "assume": ROUTER_ASSUME,
         "outside": "route tables not in the corpus; raw paths longer than the bound that are not one edit from a declared path; " + NONASCII}
    d.update(kw)
    return d


CHECKS = {
    "R01": router("r01", "ALL", [5, 2, 0], [6, 3, 0], ALLKINDS),
    "R02": router("r02", "ALL", [5, 2, 0], [6, 3, 0], ALLKINDS),
    "R03": router("r03", "PARAMS", [4, 2, 0], [5, 3, 0], ["route", "parameter error"]),
    "R04": router("r04", "ALL", [5, 2, 0], [6, 3, 0], ALLKINDS),
    "R05": router("r05", "ALL", [4, 2, 0], [5, 3, 0], ALLKINDS + ["trailing slash"]),
    "R06": router("r06", "ALL", [3, 1, 0], [4, 2, 0], ["rendered", "route", "redirect", "shadowed"]),
    "R07": router("r07", "REDIRECT", [3, 1, 0], [4, 2, 0], ["route", "redirect"]),
    "R08": router("r08", "QUERY", [4, 2, 0], [5, 3, 0], ["query parameters", "no query parameter"]),
    "R09": router("r09", "PERMUTED", [3, 1, 0], [4, 2, 0], ALLKINDS),
    "R10": router("r10", "MOUNTED", [4, 2, 0], [6, 3, 0], ["under the prefix", "outside the prefix", "route", "parameter error"]),
}

LANG_ASSUME = [
    "the language as README.markdown describes it, written down independently in harness/lang/src/spells.rs and shape.rs",
    "symbolic texts are ASCII except where an edit or a listed literal puts other characters in",
]


def lang(runs, outside, **kw):
    d = {"crate": "lang", "level": "model_checking", "runs": runs, "funcs": r"wayfinder|nom|lang", "assume": LANG_ASSUME, "outside": outside}
    d.update(kw)
    return d


BIGC = "configs with about {0} names, large in each of ten ways (siblings, levels, long names, query or path parameters, modules, headers, verbs, shared prefixes, members of one module)"
BIG = BIGC + ", one letter of one of six names free"
EDIT = "one of {0} route files, with up to {1} edits at any place that insert up to {2} arbitrary bytes or cut text"
HOLE = "a route file with a hole of up to {0} arbitrary bytes"

CHECKS.update({
    "L01": lang([
        R("l01", [3, 3], [4, 3], ["round trip", "nested twice"], "every config of up to {0} routes and resources, up to {1} levels deep"),
        R("l01_names", [2, 2, 4], [2, 2, 5], ["round trip"], "every config of up to {0} items, {1} levels, whose names are any identifiers up to the harness's length"),
        R("l01_headers", [2, 3], [3, 4], ["round trip"], "up to {0} headers of up to {1} arbitrary ASCII bytes or listed texts"),
        R("l01_deep", [12], [20], ["round trip"], "chains of routes up to {0} deep"),
        R("l01_big", [200], [600], ["round trip", "nested twice"], BIG),
    ], "larger configs; names longer than the bound"),
    "L02": lang([
        R("l02", [2, 2, 2, 1], [3, 3, 2, 1], ["read"], "every file of up to {0} items, {1} levels, with up to {3} layout variations of up to {2} bytes"),
        R("l02_names", [2, 2, 3, 1, 0], [3, 3, 3, 1, 0], ["read"], "every file of up to {0} items, {1} levels, with any identifiers of {2} letters"),
        R("l02_rich", [2], [3], ["read"], "a file using every construct, with up to {0} layout variations"),
        R("l02_big", [40, 1], [100, 1], ["read"], BIG + ", with up to {1} layout variations"),
        R("l02_big", [200, 0], [600, 0], ["read"], BIG),
    ], "larger files; combinations of more layout variations than the bound"),
    "L03": lang([
        R("l03_edit", [4, 1, 2], [4, 2, 1], ["accepted", "rejected"], EDIT),
        R("l03_hole", [4], [6], ["accepted", "rejected"], HOLE),
        R("l03_big", [20], [40], ["accepted", "rejected"], BIG + ", its text edited at any place"),
    ], "texts further than the bound from the listed files"),
    "L04": lang([
        R("l04_edit", [4, 1, 1], [4, 2, 1], ["accepted", "rejected"], EDIT),
        R("l04_hole", [4], [6], ["accepted", "rejected"], HOLE),
        R("l04_big", [20], [40], ["accepted", "rejected"], BIG + ", its text edited at any place"),
        R("l04_long", [7], [7], ["rejected"], "mistakes in lines of up to 70000 characters, one to three bytes each"),
    ], "texts further than the bound from the listed files"),
    "L05": lang([
        R("l05_edit", [4, 1, 1, 0], [4, 1, 2, 1], ["rejected"], EDIT),
        R("l05_long", [3], [7], ["rejected"], "mistakes in lines of up to 300 characters (thorough: 70000), one to three bytes each"),
        R("l05_missing", [2, 2, 1], [4, 3, 2], ["pointed at"], "every file of up to {0} items and {1} levels with one ':' or closing bracket taken out"),
        R("l05_big", [20], [40], ["rejected"], BIG + ", its text edited at any place"),
    ], "texts further than the bound from the listed files"),
})

GEN_ASSUME = [
    "HashMap's hash is replaced by one under which every key collides, so only key equality decides (G03: by any of several values per key); hashbrown itself runs",
    "conflicts, names and documentation as the README describes them, written down independently in harness/lang/src/gen.rs",
    "names that collide only after case conversion (foo, Foo), Rust keywords and names the module uses itself (Route, Match, Error) are outside: such modules do not compile",
]


def gen(runs, outside, **kw):
    d = lang(runs, outside, assume=GEN_ASSUME)
    d.update(kw)
    return d


SHAPE = "every config of up to {0} resources and routes, up to {1} levels, whose names are any {2} lower-case letters"
FULL = "a config that takes every branch of the generator (0: and two others, 2: the others only); set {0}"

CHECKS.update({
    "L06": lang([
        R("l06_parse", [2, 2], [2, 4], ["kept"], "files with up to {0} headers of up to {1} arbitrary ASCII bytes or listed texts, between line ends of any kind"),
        R("l06_gen", [2, 3, 0], [3, 4, 0], ["in every module"], "up to {0} headers, one of {1} arbitrary bytes, in three configs"),
        R("l06_big", [60], [200], ["in every module"], BIG),
    ], "more or longer headers", assume=LANG_ASSUME + GEN_ASSUME[:1]),
    "G01": gen([
        R("g01", [1, 2], [0, 4], ["failed", "complete"], FULL + "; an output that fails at any byte, {1} kinds of failure"),
        R("g01", [2, 4], None, ["failed", "complete"], FULL + "; an output that fails at any byte, {1} kinds of failure"),
        R("g01_slow", [2, 1], [1, 1], ["complete"], FULL + "; an output that takes a part or is interrupted {1} time(s) at any byte, or always takes three bytes at most"),
        R("g01_slow", None, [2, 2], ["complete"], FULL + "; an output that takes a part or is interrupted {1} time(s) at any byte, or always takes three bytes at most"),
        R("g01_big", [40, 20], [60, 200], ["failed"], BIGC + "; an output that fails at one of {1} places"),
    ], "other configs; several independent failures"),
    "G02": gen([
        R("g02", [4, 3, 1], [5, 3, 1], ["refused", "generated"], SHAPE),
        R("g02", [3, 2, 2], [3, 3, 2], ["refused", "generated"], SHAPE),
        R("g02_paths", [2, 1], [3, 2], ["refused", "generated"], "every table of up to {0} siblings of any one or two letters or a parameter, with up to {1} one-letter routes below each, and resources on any of them"),
        R("g02_big", [60], [120], ["refused", "generated"], BIG + ", with or without a conflict added far from its counterpart"),
    ], "larger configs"),
    "G03": gen([
        R("g03", [3, 2, 4], [3, 4, 4], ["generated twice"], "every config of up to {0} resources with any one-letter names in {1} modules, hashed in any of {2} ways per key"),
        R("g03", [2, 3, 8], [2, 4, 16], ["generated twice"], "every config of up to {0} resources with any one-letter names in {1} modules, hashed in any of {2} ways per key"),
        R("g03_names", [2, 2, 4], [3, 2, 4], ["generated twice"], "{0} resources or modules whose names are any {1} letters of either case, hashed in any of {2} ways per key"),
        R("g03_big", [100, 2], [200, 8], ["generated twice"], BIGC + ", hashed in {1} ways"),
    ], "larger configs; hash functions that treat equal keys differently within a run"),
    "G04": gen([
        R("g04", [4], [6], ["renamed"], "one name of the config is any identifier of {0} characters (as resource, module, parameter, type or literal)"),
    ], "several odd names at once; names with '__' or '_' at either end"),
    "G05": gen([
        R("g05", [2, 2, 1], [3, 2, 1], ["generated"], SHAPE + ", with query parameters and up to two modules"),
        R("g05_trie", [2, 2], [2, 3], ["generated"], "up to {0} sibling literals of up to {1} identifier characters, with or without a parameter beside them and routes below"),
        R("g05_big", [40, 1], [100, 1], ["generated"], BIG),
        R("g05_big", [200, 0], [300, 0], ["generated"], BIGC),
    ], "larger configs"),
    "G06": gen([
        R("g06", [2, 2, 1], [3, 2, 1], ["documented"], SHAPE + ", with query parameters and up to two modules"),
        R("g06_full", [2], [3], ["documented"], "a config with every construct, one name of which is any {0} letters"),
        R("g06_big", [40, 1], [100, 1], ["documented"], BIG),
        R("g06_big", [120, 0], [250, 0], ["documented"], BIGC),
    ], "larger configs"),
})
CHECKS["R10"]["runs"].append(dict(R("r10_merge", [2, 2, 1], [3, 3, 2], ["merged"], "up to {0} and {1} headers of any one letter, routes of up to {2} items or listed ones"), crate="lang"))
CHECKS["R10"]["runs"].append(dict(R("r10_headers", [2, 3], [3, 4], ["merged"], "up to {0} headers each of up to three arbitrary ASCII characters or listed texts, a prefix of up to {1} arbitrary letters, digits, '_' or '-'"), crate="lang"))

OS_ASSUME = [
    "the operating system is modelled at the libc boundary (harness/builder/src/libc.rs): files, directories, standard output and every outcome of each call the build makes; Rust's std and the builder above it run as compiled",
    "the process's exit status is the argument of exit, or failure after a panic",
    "std treats EBADF on standard output (a closed descriptor) as success; that fault is excluded",
    "errors of close are not visible to Rust programs and are not reported",
]


def builder(runs, outside, **kw):
    d = {"crate": "builder", "level": "model_checking", "runs": runs, "funcs": r"wayfinder|nom|builder", "assume": OS_ASSUME + GEN_ASSUME[:1], "outside": outside}
    d.update(kw)
    return d


BUILD = "a build to a file or to standard output, with up to {0} failed, short or interrupted call(s) at any place among the first {2} hundred calls and input with up to {1} arbitrary byte(s); errors: seven common ones ({3}: 0) or any (1)"
CHECKS.update({
    "B01": builder([
        R("b01", [1, 1, 8, 0], [1, 2, 8, 1], ["built", "failed", "past the last call"], BUILD),
        R("b01", None, [2, 0, 8, 0], ["built", "failed", "past the last call"], BUILD),
    ], "other inputs; more faults in one build"),
    "B02": builder([
        R("b02", [3, 2], [4, 3], ["announced", "to a file", "to standard output"], "every sequence of up to {0} settings of input and output, with file names and directories of up to {1} arbitrary characters, run from Cargo or not"),
    ], "longer sequences of settings; longer names"),
    "B03": builder([
        R("b03", [2, 8, 0], [3, 8, 1], ["built", "failed", "no config", "usage", "past the last call"], "the tool run with any file name of up to {0} arbitrary bytes that is a config, no config or missing, and up to two further arguments; or with one failed, short or interrupted call among the first {1} hundred; errors: seven common ones ({2}: 0) or any (1)"),
    ], "longer file names; other route files (B01); what the usage message says"),
})
CHECKS["M01"] = lang([
    R("m01", [6], [12], ["the same"], "every form of the four verbs' macros (one to ten parts, with or without arrow, up to four query parameters), one parameter's name and type any identifiers of {0} characters"),
    R("m01_parts", [6, 7], [12, 14], ["the same"], "Resource::make with up to {1} parts and two query parameters, NestedRoutes::new, Param::new and Header::new with any text of {0} characters; listed uses of param! and header!"),
], "macro arguments other than the listed ones: they are tokens fixed when the harness is compiled")

TECHNIQUE = {
    "builder": "symbolic execution of the LLVM IR of the real code and of Rust's std above a modelled libc (own executor, Z3)",
    "routers": "symbolic execution of the LLVM IR of routers generated by the real code (own executor, Z3) against a reference router",
    "lang": "symbolic execution of the LLVM IR of the real code (own executor, Z3)",
}
NOTE = {
    "builder": "Bounded: every path of the real builder over all values of the symbolic inputs and all outcomes of the system calls within the stated bounds is decided by Z3; counterexamples are replayed natively against the same modelled calls. Trusts the engine, Z3, rustc and the model of libc.",
    "routers": "Bounded: for each table of a regenerated corpus, Z3 decides every path of the generated router and of the reference for all requests within the stated bounds; counterexamples are replayed natively. Trusts the engine, Z3, rustc and the reference router.",
    "lang": "Bounded: every path of the real code over all values of the symbolic inputs within the stated bounds is decided by Z3; counterexamples are replayed natively. Trusts the engine, Z3 and rustc.",
}
NOT_APPLICABLE = {}
for _p in "L01 L02 L03 L04 L05 L06 G01 G02 G03 G04 G05 G06 B01 B02 B03 M01".split():
    if _p not in CHECKS:
        NOT_APPLICABLE[_p] = "not built yet"
