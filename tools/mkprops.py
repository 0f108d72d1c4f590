#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="wayfinder/src/gen/gen.rs"; F="wayfinder/src/gen/flat.rs"; T="wayfinder/src/gen/trie.rs"; C="wayfinder/src/core/mod.rs"; PA="wayfinder/src/parse/mod.rs"; PE="wayfinder/src/parse/errors.rs"; B="wayfinder/src/build/mod.rs"
TRIE=("trie of all declared paths turned into nested byte comparisons",G+" codegen_trie/write_dynamic/write_methods, "+T+" add")
p("R01","A request reaches exactly the resource declared for its path and method",
 "For every route table and every request, the generated router answers with the resource declared for that method at the table path the request's segments spell out: a literal segment matches exactly its own text, a parameter segment matches any text, and where both are declared side by side the literal wins. The choice is made segment by segment from the left; it never depends on other, unrelated entries of the table.",
 ["inputs","programs"],"every route table; every request path and method (bytes)",
 "Golden files pin the generated text of three tables and about forty concrete requests are tried on one table; no test looks at other table shapes (shared prefixes, one segment a prefix of another, nested parameters) or at arbitrary paths.",
 [G,F,T],[TRIE],["return value of the generated match_route"])
p("R02","Not found and not allowed mean exactly what they say",
 "The generated router reports 'not allowed' exactly when the request path is one that declares at least one resource but none for the request's method, and 'not found' exactly when no path that declares resources matches. Methods are compared byte for byte, so any other spelling of a verb is a method that is not declared.",
 ["inputs","programs"],"every route table; every path and every method byte string, including empty and unknown methods",
 "Three concrete negative requests are tested; the boundary between the two outcomes must hold for every path and for every byte string given as method.",
 [G,F,T],[("method match with a NotAllowed default arm; NotFound default arms",G+" write_methods, codegen_trie")],["return value of the generated match_route"])
p("R03","Path parameters carry exactly their segment, or the request is an error",
 "Each parameter of a matched route holds what the declared type's parser makes of exactly the request text between the slashes at that parameter's position, neither more nor less and never another segment. If that parser rejects the text, the router returns an error that names that parameter instead of any route or outcome.",
 ["inputs","programs"],"every table with parameters; every request path; every declared parameter type",
 "Tests use one 32-digit UUID in one position; captured ranges depend on lengths, positions, neighbouring parameters and the bytes around the slashes.",
 [G],[("start/i cursor, slice up to the next slash, text.parse() with map_err(Error::fail(name))",G+" write_dynamic, codegen_trie")],["fields of the matched route; the generated Error"])
p("R04","The generated router never panics, whatever bytes it is given",
 "No request path and no method, as arbitrary byte strings of any length (empty, truncated inside a literal, without a leading slash, not valid UTF-8), makes the generated router panic or read out of bounds: it always returns an answer or an error.",
 ["inputs","programs"],"every route table; every byte string as path and as method",
 "The tests only send well-formed ASCII paths; slicing panics sit at particular lengths of particular table shapes.",
 [G],[("length guards before every slice of the path",G+" codegen_trie")],["panic of the generated match_route"])
p("R05","Leading and trailing slash do not change a resource's address",
 "A request path with or without its one leading slash gets the same answer. If a path not ending in a slash is answered with a route, a redirect or 'not allowed', then the same path with one slash appended gets the identical answer, parameters included.",
 ["inputs","programs"],"every route table; every path and method",
 "Tests try the trailing slash on one table's concrete paths and never omit the leading slash.",
 [G],[("optional first byte, methods written on both sides of the separator",G+" codegen, codegen_trie")],["pairs of match_route calls"])
p("R06","A route's link leads back to the same route",
 "For every route value the router produces from a request whose parameter segments are non-empty and do not render to the text of a literal declared beside them, rendering it as a path and routing that path with the resource's method gives back an equal route with equal parameters. Rendering substitutes each parameter into its own position and reproduces the declared literal segments in order.",
 ["inputs","programs"],"every table; every request that matches; every resource",
 "No test calls to_path on anything; golden text covers three tables only.",
 [G,F],[("to_path format string built from the flattened path","codegen_module in "+G),("flattened path of each action",F+" FlattenedModules::flatten")],["to_path, match_route"])
p("R07","Redirects are reported as redirects to the named resource, routes as routes",
 "A resource written with the arrow is always answered as a redirect carrying the named target route, and one written without it always as a direct route; the redirect's link is the path of the target resource. Declaring a redirect adds no second definition of the target.",
 ["inputs","programs"],"every table mixing redirects and direct resources; every request",
 "Two concrete requests on one table exercise a redirect.",
 [G,F],[("is_redirect selects the Match variant; redirects skipped when actions are collected",G+" write_methods, "+F+" FlattenedModules::flatten")],["Match variant returned"])
p("R08","Query parameters reach exactly the resources in their scope",
 "A query parameter declared on a route is an optional field of every resource on that route and on every route nested below it, and one declared on a resource is a field of that resource alone; no resource gets a query parameter declared outside that scope. A matched route has every query parameter absent.",
 ["inputs","programs"],"every placement of query parameters in every route tree",
 "Golden text covers one parameter at the root and one on a resource; scoping must hold for every tree, in particular between siblings and cousins.",
 [F,G],[("query parameters accumulated while descending, cloned per branch",F+" FlattenedRoutes::flatten, FlattenedModules::flatten")],["generated structs, values built by match_route"])
p("R09","The order in which routes are declared does not matter",
 "Reordering sibling routes, or the resources with different methods on one route, never changes the answer of the generated router to any request.",
 ["inputs","programs"],"every table, every permutation of siblings; every request",
 "No test permutes anything.",
 [T,G,F],[("ordered insertion into the trie, static before dynamic before separator",T+" Trie::add, Charlike ordering in "+F)],["match_route of two permuted tables"])
p("R10","Mounting puts a whole config under a prefix and changes nothing else",
 "After mounting one config under a path in another, a request for the prefix followed by a path is answered as the mounted config alone answers that path, and every request outside the prefix is answered as before. The merged config has the headers of both, each once and in order, and the outer query parameters apply to mounted resources too.",
 ["inputs","programs"],"every pair of configs and prefix; every request",
 "One concrete pair of mounts is tested by three requests.",
 [C],[("mount",C+" RouteConfig::mount")],["RouteConfig::mount, match_route"])
p("L01","Writing a config out and reading it back gives the same config",
 "For every config that the route-file language can express, converting it to text and parsing that text yields an equal config, at any nesting depth; and the text is already in canonical form, so converting again gives the same text.",
 ["inputs"],"every expressible config: all shapes, names, parameters, headers and depths",
 "Parse and stringify are each compared with a handful of fixed strings, none deeper than three levels.",
 [C,PA],[("stringify family and indent()",C),("nom grammar",PA)],["RouteConfig::stringify, parse::route_config"])
p("L02","A route file means what the language reference says, however it is laid out",
 "A well-formed file parses to exactly the config it writes down: each method, arrow, module path, name, parameter name and type, in order and attached to its own route. Blank lines between lines, CRLF line ends, the letter case of the verbs and spaces inside brackets, braces and around '::' and '->' make no difference.",
 ["inputs"],"every well-formed file and every layout variation of it",
 "A dozen fixed snippets in canonical layout are parsed; no test varies layout or case.",
 [PA],[("grammar",PA)],["parse::route_config"])
p("L03","Indentation alone decides nesting; nothing is silently dropped or re-attached",
 "Parsing either fails or accounts for the entire file: an accepted file has every one of its non-blank lines represented in the config, at the depth its indentation states (two spaces per level); a line break inside brackets or braces or around '->' or '::' only continues its line. A line indented by any other amount, or out of the required order, is rejected, never skipped or attached to a different route.",
 ["inputs"],"every text; in particular every change of indentation of any line and every trailing fragment",
 "No test parses a malformed file.",
 [PA],[("count of two-space units per level, eof required",PA+" indented!, resource, route_config")],["parse::route_config"])
p("L04","Reading and reporting on any text never panics",
 "For every text whatsoever, parsing returns either a config or an error, and printing that error's diagnostics completes; neither panics, and a rejected text always produces at least one diagnostic.",
 ["inputs"],"every UTF-8 text, including empty, truncated, non-ASCII",
 "No test parses a malformed text or prints a diagnostic.",
 [PA,PE],[("show_errors/show_error slicing at error positions",PE)],["parse::route_config, parse::errors::show_errors"])
p("L05","Diagnostics quote a real line of the file under its real number",
 "Every diagnostic printed for a rejected text quotes verbatim one line of that text next to that line's 1-based number, and its caret stands below a character of that line or just past its end. When the failure is a missing ':' or closing bracket, the caret is at the character where it was expected.",
 ["inputs"],"every rejected text",
 "Diagnostics are untested.",
 [PE],[("show_error, what_line",PE)],["output of parse::errors::show_errors"])
p("L06","Header lines pass through verbatim",
 "In a file that is accepted, every non-blank line before the line with the single '/' is kept as a header with exactly its text, in order, and no header text leaks into the routes or the other way round. The generated root module and each of its nested modules contains every header line exactly once.",
 ["inputs"],"every header text without a leading '/', any number of headers and blank lines",
 "One header line is tested.",
 [PA,G],[("header parser, retain non-empty",PA),("codegen_module header loop",G)],["parse::route_config, gen::codegen"])
p("G01","Generating code reports every write failure",
 "If any single write to the output fails, generation returns an error; it returns success only if every byte of the complete module was accepted by the output. What reached the output before a failure is a prefix of the complete module.",
 ["fault_sequences","inputs"],"every position at which the output can fail or accept fewer bytes than offered",
 "Tests only write to an in-memory vector that cannot fail.",
 [G],[("writeln!(...)? on every write",G)],["gen::codegen with a failing io::Write"])
p("G02","Conflicting declarations are refused, never silently resolved",
 "If two routes in a config spell the same path, two different parameters are declared side by side, two resources on one route have the same method, or two direct resources have the same qualified name, generation does not succeed. Configs without such conflicts are never refused for that reason.",
 ["inputs"],"every config with and without a clash, wherever the two clashing parts sit in the tree",
 "No test contains a conflict.",
 [F,T],[("Trie::add refuses an occupied node; ActionMap insert panics on duplicates",T+", "+F)],["gen::codegen"])
p("G03","The same config always generates the same module text",
 "Generating from equal configs produces identical text in every run, independent of hash seeds and iteration order.",
 ["inputs","schedules"],"every config; every hash seed",
 "A run sees one seed; golden tests cover at most four modules.",
 [F],[("HashMap contents sorted by name before use",F+" helper::Module::finalize")],["gen::codegen"])
p("G04","Names are derived the same way everywhere",
 "For every declared name, the generated definition and every reference to it use the same Rust identifier: types and variants are the name with its first letter capitalised and each '_x' turned into 'X', modules are the name lower-cased with '_' before each inner capital. Declared parameter names and types are used unchanged.",
 ["inputs"],"every identifier used as action, module or parameter name",
 "Golden text covers about a dozen already-capitalised names.",
 [G],[("to_caps_case, to_snake_case",G)],["text produced by gen::codegen"])
p("G05","Every conflict-free config is accepted by the generator",
 "Generation from any config the route-file language can express completes with success, without panicking, as long as none of its declarations clash (same path, two parameters side by side, same method on one route, same resource name).",
 ["inputs"],"every expressible conflict-free config",
 "Three configs are generated in tests, two in examples.",
 [G,F,T],[("codegen_trie case analysis and its assert/unreachable/InvalidInput exits",G)],["gen::codegen"])
p("G06","Generated documentation shows the routes as configured",
 "The generated module's documentation contains the route configuration in route-file syntax, which reads back as the config's routes, and each resource's documentation shows its method and its path with parameters in braces.",
 ["inputs"],"every config",
 "Golden text covers three configs.",
 [G,C],[("stringify into //! lines",G+" codegen"),("Renders for ...",G+" codegen_module")],["text produced by gen::codegen"])
p("B01","A failed build never looks like a successful one",
 "Running a build returns normally only if the complete module text was written to the chosen output; if the input file is unreadable or malformed, the declarations conflict, or the output cannot be created or written, the process ends with a failure status. An unreadable or malformed input file is detected before an existing output file is touched.",
 ["fault_sequences","inputs"],"every failure of every file operation, every short or interrupted read and write, every malformed input",
 "The builder is only exercised by example build scripts that succeed.",
 [B],[("fail! on every error arm; parse before File::create",B+" Builder::build")],["process exit status, files written"])
p("B02","The builder reads and writes the files it was told to",
 "The input file is taken relative to the crate directory and the output relative to the output directory when running from Cargo, and both as given otherwise; from Cargo, and only then, the input's path is announced once for rebuild tracking. The last setting of input or output wins, and nothing else is written to standard output when a file was chosen.",
 ["inputs","configurations"],"every combination of directories, relative and absolute file names, and sequences of builder settings",
 "Example build scripts cover one combination.",
 [B],[("source_dir/target_dir join, println cargo:rerun-if-changed",B)],["open() paths, stdout"])
p("B03","The command-line tool builds the file it is given",
 "Run with arguments, the tool reads the route file named by the first one and either writes exactly its complete generated module to standard output and ends successfully, or ends with a failure status; a readable, well-formed file without conflicts is never refused, and nothing is written to standard output for one that is unreadable or malformed. Run without arguments it writes nothing to standard output. It never changes any file.",
 ["inputs","fault_sequences"],"every file name and every failure of every call",
 "No test runs the tool.",
 ["wayfinder-cmd/src/main.rs",B],[("main","wayfinder-cmd/src/main.rs"),("Builder::build",B)],["standard output, exit status"])
p("M01","Builder macros and route files construct the same config",
 "A resource, parameter, header or nested route made with the macros and constructors equals the one obtained from the corresponding route-file lines: the same method, arrow, modules, name, path segment, and query parameters in the same order.",
 ["programs","inputs"],"every macro form with every parameter, every handler, every segment",
 "Documentation examples cover a few fixed invocations.",
 ["wayfinder/src/core/macros.rs",C],[("get!/post!/put!/delete!/param!/header!","wayfinder/src/core/macros.rs"),("Resource::make, NestedRoutes::new, Param::new, Header::new",C)],["wayfinder::Resource, Param, Header, NestedRoutes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
