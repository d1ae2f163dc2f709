#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Splitting text into comparison tokens is lossless and terminates",
  "For every text, splitting it into comparison tokens terminates and yields non-empty tokens whose concatenation, in order, is exactly that text. "
  "Reading tokens through the one-token lookahead wrapper yields exactly the same items in the same order, reports 'has next' exactly while items remain, and always shows the next item as its head.",
  ["inputs"], "all strings, including NUL and other control characters, signs, digits and non-ASCII; all item sequences for the lookahead wrapper",
  "The tests tokenize a handful of ASCII lines through the example books; no test has a NUL, a trailing sign, or a number followed by a dot at the end of text.",
  ["booktest/tokenizer.py"], [("TestTokenizer.__next__", "booktest/tokenizer.py"), ("BufferIterator", "booktest/tokenizer.py")],
  [("at", "read position in the text", "TestTokenizer"), ("head/has_head", "lookahead item", "BufferIterator")],
  ["tokens produced by iterating TestTokenizer(text)", "items produced by BufferIterator(iterator)"])

p("C02", "A difference in checked output never ends as OK",
  "Whenever a test writes text through the checked output calls and one of its tokens differs from the token expected at that position of the expectation file, or the test marks a difference explicitly, the case's verdict is not OK. "
  "A marked difference or failure is never lost by anything the test does afterwards, including when the line carrying it is the last one and is never ended. "
  "A case without an expectation file is never OK unless it is accepted.",
  ["inputs", "histories"], "all expectation files, all written texts and all sequences of output calls, with or without a final newline",
  "The tests only run cases whose output matches; there is no test in which a checked output differs, so nothing would notice a comparison that stopped comparing or a mark that is dropped.",
  ["booktest/testcaserun.py", "booktest/tokenizer.py"],
  [("feed_token/test_feed/t/tln", "booktest/testcaserun.py"), ("commit_line/write_line/end", "booktest/testcaserun.py"), ("next_exp_token/next_exp_line", "booktest/testcaserun.py")],
  [("line_diff/line_error", "pending marks on the current line", "TestCaseRun"), ("diffs/errors", "committed marks", "TestCaseRun")],
  ["verdict returned for the case", "cases.txt"])

p("C03", "Matching or unchecked output never produces a difference",
  "Writing text through the unchecked (info) output calls never marks a difference or a failure. "
  "A case that, line by line, writes through the checked line call exactly the lines of its expectation file ends OK, and the output file it produces is exactly the text it wrote, so an accepted case that is run again unchanged passes.",
  ["inputs", "histories"], "all texts written by info calls; all line texts without carriage returns, all expectation files consisting of these lines",
  "Tests accept and re-run a few fixed books; the guarantee is over all texts (digits, signs, trailing blanks, empty lines, non-ASCII) and needs the token streams of both sides to be the same function of the text.",
  ["booktest/testcaserun.py", "booktest/tokenizer.py"],
  [("feed/i/iln/ifloatln", "booktest/testcaserun.py"), ("write_line", "booktest/testcaserun.py"), ("next_exp_line", "booktest/testcaserun.py")],
  [("line_diff/line_error", "pending marks", "TestCaseRun")], ["verdict", "output .md file"])

p("C04", "Failed assertions, marked failures and exceptions end as FAIL",
  "A case in which an assertion did not hold, a failure was marked, or the test raised an exception (including an attempt to exit the process) ends with the verdict FAIL, whatever else it printed and whatever differences it has; a case in which none of these happened never ends as FAIL. "
  "A failing case does not prevent the remaining selected cases from being run, except in fail-fast mode.",
  ["inputs", "histories"], "all assertion conditions, all exceptions a test may raise, all positions in the output at which they occur",
  "No test in the suite fails an assertion or raises: the failing branch is never executed by the tests.",
  ["booktest/testcaserun.py", "booktest/testrun.py"],
  [("assertln/must_*/fail/tmsln", "booktest/testcaserun.py"), ("TestRun.run_case", "booktest/testrun.py"), ("TestCaseRun.end", "booktest/testcaserun.py")],
  [("errors", "number of committed failing lines", "TestCaseRun")], ["verdict", "cases.txt"])

p("C05", "Expectation files change only through acceptance, and never for a FAIL",
  "A case's expectation file and attachment directory are modified only when the result is accepted: by the user's accept answer, by auto-accept for a differing result, or by auto-update for an OK result; a FAIL is never accepted in any configuration or by any answer. "
  "After acceptance the expectation file and attachments are exactly the ones the run produced (no attachments if it produced none) and the verdict is OK; without acceptance the verdict is unchanged and both are untouched.",
  ["inputs", "configurations", "histories"], "all verdicts, all configurations of interactive/always-interactive/update/accept/verbose, all sequences of interactive answers, attachments present or not on either side",
  "The tests never run in interactive, update or accept mode; the property is a universally quantified frame condition over the file system.",
  ["booktest/review.py"], [("case_review/interact/freeze_case", "booktest/review.py")],
  [], ["files under the books directory", "verdict returned by the review step"])

p("C06", "Exit status is success exactly when every case is OK",
  "A sequential run returns exit status 0 exactly when every case it executed ended OK; a parallel run returns 0 exactly when every case result it recorded is OK, including results that were finished but not yet reviewed when the run was aborted and cases whose worker produced no report. "
  "A review returns 0 exactly when every case in the resulting report is OK.",
  ["inputs", "histories", "configurations"], "all sequences of case results and user requests, fail-fast on or off, any number of cases",
  "All tests pass in the suite, so only the all-OK path of each aggregation is exercised.",
  ["booktest/testrun.py", "booktest/runs.py", "booktest/review.py", "booktest/reports.py"],
  [("TestRun.run_async", "booktest/testrun.py"), ("parallel_run_tests", "booktest/runs.py"), ("review", "booktest/review.py"), ("test_result_to_exit_code", "booktest/reports.py")],
  [], ["process exit status"])

p("C07", "The case report loses nothing: write/read round trip and untouched records",
  "Writing any list of case results to a report file and reading it back gives the same list in the same order, and an unparsable line is skipped without losing or altering the others. "
  "A sequential run leaves in the report every earlier record of a case it did not plan to run, followed by exactly one record for each case it executed, in order; a parallel run leaves every earlier record of a case it did not plan to run, followed by one record for each result it received; a review keeps every record, in order, changing only verdicts of accepted cases.",
  ["inputs", "histories"], "all lists of case records (names without tabs and line breaks), all old reports, all selections, abort after any case",
  "The suite writes one report and never reads back an arbitrary one; the claim quantifies over all reports and histories.",
  ["booktest/reports.py", "booktest/testrun.py", "booktest/review.py"],
  [("CaseReports.of_file/to_file/write_case", "booktest/reports.py"), ("TestRun.run_async", "booktest/testrun.py"), ("review", "booktest/review.py")],
  [], ["cases.txt"])

p("C08", "Continue mode re-runs everything except cases recorded as OK",
  "With the continue option, a selected case is skipped exactly when the report's (first) record for it is OK; every other selected case - recorded as failing or differing, or not recorded - is run, in selection order. "
  "Without the option every selected case is run.",
  ["inputs", "histories"], "all reports, all selections, continue on or off",
  "The suite never uses continue mode.",
  ["booktest/reports.py", "booktest/testrun.py"], [("CaseReports.cases_to_done_and_todo", "booktest/reports.py"), ("by_name/passed/failed", "booktest/reports.py")],
  [], ["which cases are executed"])

p("C09", "Test selection is by whole path components, and skip always wins",
  "A test is selected exactly when no skip pattern of the selection covers it and the selection is made of skip patterns only (or is empty), or contains '*', or contains a pattern covering it; a pattern covers a test when it is empty, equals its name, or is a prefix of its name that ends at a '/' of the name. "
  "The result does not depend on the order or multiplicity of the patterns.",
  ["inputs"], "all test names, all lists of patterns",
  "The suite runs with the default selection only; boundary cases such as a name being a string prefix of another component are never exercised.",
  ["booktest/tests.py"], [("Tests.is_selected", "booktest/tests.py")], [], ["listed/executed test names"])

p("C10", "Selected cases come once each, after every dependency that must run",
  "The list of cases to run contains every selected case and every dependency (transitively) that is itself selected or whose cached result is missing, contains nothing else, and contains no case twice. "
  "In that list each such dependency precedes the case depending on it.",
  ["inputs", "configurations"], "all acyclic dependency graphs, all selections, all states of the result cache",
  "The suite has a few fixed dependency chains; ordering must hold for any graph, including diamonds and dependencies listed before or after their users.",
  ["booktest/tests.py", "booktest/dependencies.py", "booktest/testrun.py"],
  [("Tests.selected_names/all_method_dependencies/method_dependencies", "booktest/tests.py"), ("match_method", "booktest/testrun.py")], [], ["order of executed cases"])

p("C11", "Parallel scheduling never breaks dependencies or shares a resource",
  "In a parallel run, whatever order tasks finish in, a case is started only after all its dependencies that are part of the run are done, is started at most once, and is never running at the same time as another case declaring the same exclusive resource. "
  "Resources are released when their case is done, and the scheduler stops without an abort only when every case has been started and finished.",
  ["schedules", "inputs"], "all completion orders and timings of tasks, all dependency and resource declarations, aborts at any time",
  "The suite runs sequentially; even a parallel run exercises only one interleaving.",
  ["booktest/runs.py"], [("ParallelRunner.plan/thread_function", "booktest/runs.py"), ("Resource.__eq__/__hash__", "booktest/dependencies.py")],
  [("done/scheduled/reserved_resources", "scheduler state", "ParallelRunner")], ["calls that start a task in the worker pool"])

p("C12", "A dependent test receives exactly what its dependencies returned",
  "A test with dependencies is called with one argument per declared dependency, in declaration order: for a test dependency the value that test returned when it last passed or differed (its own instance's result when that instance has the dependency, otherwise the shared one), for a resource the resource's value. "
  "The value is the same whichever in-memory cache is used and whether it comes from memory or from disk; a dependency without a stored result is an error, never a silent default.",
  ["inputs", "histories", "configurations"], "all dependency lists, all returned values that survive serialization, all memory caches (unbounded, bounded of any size, none), memory hit or miss",
  "The suite uses one cache and a few dependencies, all of which hit the same path.",
  ["booktest/dependencies.py", "booktest/testrun.py", "booktest/cache.py"],
  [("call_class_method_test/call_function_test/depends_on", "booktest/dependencies.py"), ("TestRun.get_test_result/save_test_result", "booktest/testrun.py"), ("LruCache/NoCache", "booktest/cache.py")],
  [], ["arguments the test function is called with"])

p("C13", "The in-memory cache is bounded and evicts the least recently used",
  "After any sequence of reads and writes the bounded cache holds at most its configured number of entries, and what it holds are the most recently used keys with the values last written for them. "
  "Reading a key it does not hold yields nothing and changes nothing.",
  ["histories", "inputs"], "all sequences of operations, all keys and values, all capacities >= 0",
  "The suite stores fewer values than the capacity, so eviction and recency are never exercised.",
  ["booktest/cache.py"], [("LruCache", "booktest/cache.py")], [("ordered map", "recency order", "LruCache")], ["len/contains/getitem"])

p("C14", "Environment decorators restore the environment exactly",
  "After a test using environment snapshots, environment mocks or mocks for missing variables ends - normally, by an exception, or because a snapshot was missing - every variable the decorator manages has exactly the value, or absence, it had before. "
  "While the test runs, a snapshotted or mocked variable has exactly the recorded or mocked value (absent for an empty record), and a variable mocked only if missing keeps its real value when it has one.",
  ["inputs", "histories"], "all environments, all recorded snapshots and mock tables including absent values, any changes the test makes to the environment, exceptions at any point",
  "The tests never check the environment after a test and never let the wrapped test raise or delete variables.",
  ["booktest/env.py"], [("SnapshotEnv/MockEnv/MockMissingEnv start/stop", "booktest/env.py")], [("os.environ", "process environment", "os")], ["os.environ during and after the test"])

p("C15", "Function snapshots replay recorded results and mocks are always undone",
  "In replay mode a snapshotted function call returns the recorded result of a matching call without executing the function, and an unrecorded call is an error rather than a real call; in capture mode an unrecorded call executes the function and its result is recorded. "
  "After the test ends, normally or by an exception, every replaced function is the original again.",
  ["inputs", "histories"], "all recorded snapshots, all call sequences, all result values including None, exceptions at any point",
  "The suite replays a fixed set of recorded calls once and never verifies that the function was not executed or that originals are back after an exception.",
  ["booktest/functions.py"], [("SnapshotFunctions.snapshot/start/stop", "booktest/functions.py"), ("MockFunctions", "booktest/functions.py")], [], ["calls of the wrapped function", "module attributes after the test", "stored snapshot files"])

p("C16", "HTTP snapshots: no network in replay, k-th repeat gets k-th recording",
  "In replay mode no request reaches the real transport: each request is answered with a recorded response of matching identity, with the recorded status, headers and body bytes, and an unrecorded request is an error. "
  "Repeating the same request yields the recorded responses in the order they were recorded, also when custom identity or body encoding functions are used; in capture mode a request without a recording is sent exactly once and its response is recorded.",
  ["inputs", "histories"], "all recorded snapshot sets, all request sequences, all response bodies (text or binary), default or custom identity functions",
  "The suite replays a few fixed text responses; repeated requests beyond two, binary bodies and custom identities with repeats are not exercised.",
  ["booktest/requests.py", "booktest/httpx.py"],
  [("SnapshotAdapter.lookup_snapshot/mark_order/send", "booktest/requests.py"), ("SnapshotHttpx.lookup_snapshot/handle_request", "booktest/httpx.py"), ("RequestSnapshot.from_json_object/json_object", "booktest/requests.py, booktest/httpx.py")],
  [], ["real transport calls", "responses seen by the test", "stored snapshot file"])

p("C17", "Ignored headers and hidden request details are never stored or hashed",
  "A header that is configured as ignored (all of them by default; matched by name without regard to case otherwise) never influences the identity of a recorded request and never appears in what is stored for it, while every other header does influence it. "
  "When request details are hidden, as by default, neither request headers nor request body are stored, and this holds for repeated requests too.",
  ["inputs", "configurations"], "all requests, all header tables, all ignore settings, all repeat counts",
  "The suite stores a fixed set of requests; whether a secret leaks is a property of all headers, spellings and repeats.",
  ["booktest/requests.py", "booktest/httpx.py"], [("RequestKey.__init__/increase_order/to_json_object", "booktest/requests.py, booktest/httpx.py")], [], ["stored snapshot file", "hash shown in the results"])

p("C18", "A finished case leaves stderr and logging as it found them",
  "After a case has finished - whatever its verdict, and also when the test raised - the standard error stream and the root logger's handlers are exactly those from before the case, and all files opened for the case are closed. "
  "While the test runs, standard error and root logging go to that case's log file.",
  ["histories", "inputs"], "all sequences of cases, all verdicts, with and without exceptions",
  "The tests check that stderr is captured during a case, never what it is afterwards.",
  ["booktest/testcaserun.py", "booktest/testrun.py"], [("TestCaseRun.__init__/open/close", "booktest/testcaserun.py"), ("TestRun.run_case", "booktest/testrun.py")],
  [("sys.stderr, root logger handlers", "process-wide streams", "sys, logging")], ["sys.stderr and logging.getLogger().handlers after the case"])

p("C19", "Setup runs before and teardown after, exactly once, even on failure",
  "Code guarded by a setup/teardown generator runs after the setup part and before the teardown part; the teardown part runs exactly once, also when the guarded code raises, and the guarded code's result or exception is passed through unchanged. "
  "This holds for the per-test decorator, for sequential runs and for every parallel batch; a project's own setup, when it has one, is the one the run is guarded with; combining decorators applies them in the given order, the first one innermost.",
  ["histories", "inputs"], "all guarded functions (plain or async), all results and exceptions, all decorator lists",
  "The suite has one passing setup/teardown; the raising path and result pass-through are not exercised.",
  ["booktest/utils.py", "booktest/runs.py", "booktest/coroutines.py", "booktest/detection.py"], [("SetupTeardown", "booktest/utils.py"), ("setup_teardown/combine_decorators", "booktest/utils.py"), ("run_tests/RunBatch.__call__", "booktest/runs.py")], [], ["order of setup, body and teardown"])

p("C20", "Cleaning never deletes a file belonging to an existing test",
  "The garbage listing contains a file under the books directory exactly when it is not the expectation file of an existing test, not inside an existing test's attachment directory, and not the index; cleaning deletes exactly the listed files and nothing else. "
  "Listing deletes nothing.",
  ["inputs", "configurations"], "all directory trees, all sets of test names including names that are string prefixes of other names",
  "The suite never cleans; prefix confusions between names need particular trees.",
  ["booktest/tests.py"], [("garbage/is_garbage and --clean", "booktest/tests.py")], [], ["files remaining under the books directory"])

p("C21", "Configuration layering is fixed and one invocation never affects the next",
  "For every setting the effective value comes from the command-line flag if given, else from caller-supplied defaults, else from the environment variable, else from the project's configuration file, else from the one in the home directory; '1' and '0' mean true and false and other values are kept verbatim, including '=' characters. "
  "Options given to one invocation do not influence a later invocation in the same process.",
  ["configurations", "histories"], "all configuration files, environments and flags; all sequences of invocations in a process",
  "The suite runs with one configuration in one invocation per process.",
  ["booktest/config.py", "booktest/tests.py"], [("resolve_default_config/parse_config_file/parse_config_value", "booktest/config.py"), ("Tests.exec_parsed", "booktest/tests.py")],
  [("DEFAULT_CONFIG", "process-wide configuration", "booktest/config.py")], ["behaviour of the invocation", "--config output"])

p("C22", "Composing suites and indexing keeps every test, in order",
  "Merging suites gives exactly the concatenation of their tests in order with unchanged names, also when the command line merges the suites of all test directories of a project; decorating keeps names and order and wraps every test; dropping a prefix keeps exactly the tests under that path prefix, with the prefix and its '/' removed; naming a suite prepends its path to each test. "
  "The generated index contains exactly one link for every test, in order, nested under its path components.",
  ["inputs"], "all (nested) lists of suites, all names and prefixes",
  "The suite merges a fixed set of modules once.",
  ["booktest/testsuite.py", "booktest/review.py", "booktest/tests.py"], [("merge_tests/cases_of/drop_prefix/decorate_tests/TestSuite", "booktest/testsuite.py"), ("create_index", "booktest/review.py")], [], ["test names listed", "index.md"])

p("C23", "Set comparison ignores order but no missing, extra or changed item",
  "Writing a set of distinct single-line items against an expectation whose next lines are a list of distinct items with the same prefix marks no difference when both sets are equal, in whatever orders, and makes the verdict not OK when they differ - an item missing, added or changed - also when the set is the last thing written or the expectation has no such lines left. "
  "Afterwards the comparison continues at the first expectation line after the listed items.",
  ["inputs", "histories"], "all finite sets of items, all orders on both sides, set at any position of the file",
  "No test of the suite changes the set between snapshot and run.",
  ["booktest/testcaserun.py"], [("TestCaseRun.tset", "booktest/testcaserun.py"), ("seek_line/jump", "booktest/testcaserun.py")], [], ["verdict", "later comparisons"])

p("C24", "Anchors find the next matching expectation line or stay put",
  "Writing a header or anchor moves the comparison to the nearest matching expectation line at or after the current position; if there is none, to the first matching line before it; if there is none at all the comparison position is unchanged and the anchor counts as a difference. "
  "Whatever is sought, the position always denotes a line of the expectation file (or its end), and jumping back and forth never changes the content that is compared.",
  ["inputs", "histories"], "all expectation files, all current positions, all anchors",
  "The example books seek forward in a few small files; wrap-around, missing anchors and end-of-file positions are not covered.",
  ["booktest/testcaserun.py"], [("TestCaseRun.seek/seek_line/seek_prefix/jump/next_exp_line/reset_exp_reader", "booktest/testcaserun.py")],
  [("exp/exp_line/exp_line_number", "expectation cursor", "TestCaseRun")], ["verdict", "which expectation line later output is compared to"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
