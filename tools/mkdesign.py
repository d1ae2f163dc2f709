"""Rewrites the generated parts of DESIGN.md (between <!-- begin X --> and <!-- end X -->) from contracts/, known_findings.txt and seeded/."""
import ast, glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open("properties.jsonl")}
# one line for contracts without a docstring
D={
("C02","mark"):"`diff()` marks, `fail()` neither adds nor loses a difference",
("C04","mark"):"`fail()` marks for good, `diff()` does not touch a failure",
("C04","timing"):"a measurement fails exactly when it is over its limit; `imsln` never",
("C06","sequential_exit"):"any list of cases and results, any abort: 0 exactly when every case run is OK; -1 otherwise",
("C06","parallel_exit"):"any order of reports, review decisions, interruption at any report: 0 exactly when all handed-out and left-over results are OK",
("C06","review_exit"):"any stored report: 0 exactly when every result is OK after review",
("C07","sequential_records"):"cases.txt after a run = untouched old records, then one record per case run, in order",
("C07","parse_any_lines"):"any lines: malformed ones are skipped, others keep name, result, duration and order",
("C07","parse_written_lines"):"parsing what `write_case` writes gives the record back",
("C07","write_records"):"a record is one line, records in order, nothing else",
("C07","lines_of_text"):"the lines of a file, without the empty one behind the last line feed",
("C07","review_records"):"a review rewrites every record; only reviewed ones change their result",
("C08","todo"):"any report, any selection: todo = selected minus those whose first record is OK, in order; without -c everything",
("C09","selection"):"any name, any list of patterns: whole path components, `skip:` wins, no positive pattern selects everything",
("C10","by_method"):"first case whose method matches, else None",("C10","get_case"):"first case of the name, else None",
("C10","transitive"):"every dependency that must run precedes what needs it (recursion by its own contract; acyclicity assumed)",
("C10","selected"):"no duplicates, exactly selected cases and their required dependencies, dependencies first",
("C12","save"):"value is in the cache and in the case's .bin; None removes the file",
("C12","get"):"value of the first matching case: from memory, else unpickled, else an error naming the case",
("C12","function_arguments"):"any list of dependencies: the case, then values in declared order, resources by value",
("C12","method_arguments"):"same for methods: own instance's test first, then any instance's; else an error",
("C13","lru"):"any history of set/get: size bound, last stored value, the entries kept are the most recently used (ghost order)",
("C13","no_cache"):"any history: stays empty",
("C14","snapshot"):"any names, any stored snapshot, any environment, body may raise or change anything: named variables restored, recorded values replayed, missing one raises with nothing changed",
("C14","mock"):"body sees exactly the mapping; afterwards named variables as before",
("C14","mock_missing"):"only absent variables are set; afterwards as before",
("C16","send"):"any recorded snapshots, any earlier requests: the k-th repetition gets the k-th recording; no transport call in replay; missing one raises",
("C16","handle"):"the same for httpx transports",
("C16","recordings"):"what is replayed is what the files hold; nothing when refreshing",("C16","recordings_httpx"):"same for httpx",
("C16","storing"):"every request made is stored under its identity",("C16","storing_httpx"):"same; requests left without response are not",
("C16","roundtrip"):"status, headers, encoding, body survive storing",
("C16","undone"):"any session class: `send` is back after stop, also when the test fails",("C16","undone_httpx"):"transports' handlers are back after stop",
("C17","identity"):"any headers, any ignore list: ignored ones (any case) influence neither key nor hash; others are kept",("C17","identity_httpx"):"same for httpx",
("C17","stored"):"what is written contains no ignored header and, when hidden, neither headers nor body; repetitions too",("C17","stored_httpx"):"same for httpx",
("C17","settings"):"the decorator's settings reach every key and file",("C17","settings_httpx"):"same for httpx",
("C17","decorator"):"settings reach the snapshotter as given",("C17","decorator_httpx"):"same",
("C18","case"):"a case with any handlers, any streams, test that swaps/raises: stderr and root handlers are the same objects after the case, the case's log is closed",
("C19","decorated"):"setup before, teardown once after, also when the test raises; function and async tests",
("C19","sequential_run"):"project's setup_teardown around the whole run",("C19","batch"):"and around each batch of a parallel run",
("C21","config_value"):"1/0 are booleans, everything else itself",
("C22","merge"):"all cases of all suites in order",("C22","flatten_list"):"recursion over nested lists by its contract",("C22","flatten_tests"):"a Tests is its cases",
("C22","decorate"):"same names, same order, each decorated",("C22","suite"):"names prefixed, order kept",("C22","drop"):"prefix dropped by whole components, order kept",
("C22","names"):"names in order",("C22","index"):"any names: each case is linked once, in order, under headings of its path",
}


def contracts_of(f):
    cid = os.path.basename(f)[:-3]
    t = ast.parse(open(f).read())
    out = [f"**{cid} {titles[cid]}**", ""]
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    fs, last = [], None
                    for a in d.args:
                        if isinstance(a, ast.Constant):
                            pre = a.value.rsplit(".", 1)[0]
                            fs.append(a.value if pre != last else "." + a.value.rsplit(".", 1)[1])
                            last = pre
                    doc = (ast.get_docstring(n) or D.get((cid, n.name)) or "?").split("\n")[0].rstrip(".")
                    out.append(f"* `{n.name}` ({', '.join(fs)}): {doc}.")
        if isinstance(n, ast.ImportFrom) and re.fullmatch(r"contracts\.C\d\d", n.module or "") and n.names[0].name not in ("abstract_reader",):
            out.append(f"* also proved here, shared with {n.module[10:]}: " + ", ".join(f"`{a.name}`" for a in n.names) + ".")
    return "\n".join(out) + "\n"


def findings(kind):
    out = []
    for l in open("known_findings.txt"):
        if l.startswith(kind + ":"):
            m = re.match(r"\w+: property=(C\d+) (\S+) (.*)", l.strip())
            out.append(f"* {m[1]} `{m[2].replace('key=', '')}`: {m[3]}.")
    return "\n".join(out)


def seeded():
    out = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
    caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
    for d in sorted(glob.glob("seeded/*/meta.json"), key=lambda d: (json.load(open(d))["property"], d)):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        out.append(f"| {n} | {m['property']} | {m['needs'].strip().rstrip('.')} | {caught.get(n, '?')} |")
    return "\n".join(out)


s = open("DESIGN.md").read()
parts = dict(props="\n".join(contracts_of(f) for f in sorted(glob.glob("contracts/C*.py"))), fixed=findings("fixed"), known=findings("known"), seeded=seeded())
for k, v in parts.items():
    s = re.sub(rf"(<!-- begin {k} -->\n).*?(<!-- end {k} -->)", lambda m: m[1] + v.rstrip() + "\n" + m[2], s, flags=re.S)
open("DESIGN.md", "w").write(s)
print(len(s), s.count(": ?."))
