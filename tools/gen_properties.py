"""Writes /verif/properties.jsonl (kept as code so the records stay easy to edit)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": hook}})

prop("C01", "A test's verdict reports exactly what went wrong in it, and nothing else",
     "For every test that runs, its result holds exactly one entry for every distinct problem that occurred in its body, its before/after methods, its test-scoped fixtures and its test-scoped cleanups, in whatever order and combination: an assertion failure (or an explicitly added failure) as a failure, a skip as a skip, an interrupt as an interruption, anything else (or an explicitly added error) as an error. "
     "A problem is never lost, recorded twice, put into the wrong category or charged to a different test, and exceptions the test itself catches leave no trace. A test is reported successful if and only if it started and none of these occurred.",
     ["programs", "histories"],
     "Any suite of test functions and classes, with any assignment of raises / add_error / add_failure / skips / swallowed exceptions to bodies, before, after, fixture setup and teardown, and (nested) cleanups; any order of tests.",
     "The tests check a handful of single-fault programs; the guarantee is over combinations (an error in a body, then one in after, then one in a cleanup added by that cleanup), in arbitrary sequences of tests sharing state.",
     ["slash/core/result.py", "slash/exception_handling.py", "slash/runner.py", "slash/core/test.py", "slash/core/cleanup_manager.py", "slash/utils/exception_mark.py"],
     [("errors / failures / skips", "problems recorded for one test", "slash/core/result.py:Result"),
      ("exception marks", "mark an exception as handled / already added to a result", "slash/utils/exception_mark.py")],
     [("exceptions are recorded once, at the innermost handling context", "slash/exception_handling.py:handle_exception"),
      ("classification by exception type", "slash/core/result.py:Result.add_exception"),
      ("body / after / cleanups run under separate handling contexts", "slash/runner.py:_run_single_test; slash/core/test.py:Test.run")],
     ["session.results", "test code events", "result counters", "console report"])

prop("C02", "Exactly the selected tests run, each exactly once per repetition, in order",
     "Given any mix of files, directories and test addresses, the tests that run are exactly the test functions and test-class methods those select (inherited ones included, abstract bases excluded), each once per requested repetition: per-test repeat times repeat-each, and the whole list again for every repeat-all. "
     "They run in the order of the paths given, files of a directory sorted by name, tests of a file sorted by name, unless a tests_loaded handler reassigns the sort keys, in which case they run in the order of those keys. A path that does not exist, or an address that matches no test, is reported as an error instead of being ignored, and then no test runs.",
     ["inputs", "configurations", "programs"],
     "Any project tree (nested directories, functions, classes, inheritance, abstract bases, parametrized tests), any list of paths and addresses, any repetition settings, any reordering hook.",
     "Tests try a few fixed trees and single addresses; combinations of several overlapping paths, inheritance and three kinds of repetition are not sampled.",
     ["slash/loader.py", "slash/core/test.py", "slash/core/function_test.py", "slash/core/metadata.py", "slash/core/markers.py", "slash/runner.py"],
     [("sort key / repeat-all index", "position of a test in the run", "slash/core/metadata.py:Metadata")],
     [("collection by walking paths and matching addresses", "slash/loader.py:Loader._iter_test_address"),
      ("repetition by cloning", "slash/loader.py:Loader._generate_repeats"),
      ("ordering", "slash/loader.py:Loader.get_runnables")],
     ["test body events", "test_start hook", "tests_loaded hook", "session.results", "exit code"])

prop("C03", "Every cleanup runs exactly once, in LIFO order, at the end of its scope",
     "Each cleanup registered with the framework runs exactly once, with the arguments given at registration, when the scope it belongs to ends (the current one by default; the test, the module or the session when asked for), and the cleanups of one scope run in reverse order of registration, including those registered by cleanups while the scope is being cleaned up. "
     "This holds however tests, fixtures and other cleanups end: a failing cleanup does not prevent the remaining ones. After an interruption only critical cleanups run, and success-only cleanups of a test run only if that test had no error, failure or interruption when its scope ended.",
     ["programs", "histories", "fault_sequences"],
     "Any number and nesting of cleanups registered from bodies, before/after, fixtures, hooks and other cleanups, in every scope and of every kind, with any of them or the tests failing, skipping or being interrupted, across several modules.",
     "Existing tests exercise one or two cleanups at a time with one fault; ordering over arbitrary nesting, scopes and failure combinations is universally quantified.",
     ["slash/core/cleanup_manager.py", "slash/core/scope_manager.py", "slash/cleanups.py", "slash/core/session.py", "slash/runner.py"],
     [("scope stack", "cleanups pending in every open scope", "slash/core/cleanup_manager.py:CleanupManager"),
      ("open scopes", "session / module / test scopes", "slash/core/scope_manager.py:ScopeManager")],
     [("LIFO pop with exceptions handled per cleanup", "slash/core/cleanup_manager.py:CleanupManager.call_cleanups"),
      ("scopes pushed and popped around tests", "slash/core/scope_manager.py:ScopeManager.begin_test/end_test/flush_remaining_scopes")],
     ["cleanup call events with arguments", "before_test_cleanups / test_end / session_end hooks"])

prop("C04", "Fixtures are set up once per scope, shared, and always torn down in order",
     "A fixture is set up only when needed and at most once for as long as its scope (test, module or session) and the parameter values it depends on stay the same; everything that uses it in that period receives the very same value. "
     "It is torn down exactly once, running all its cleanups in reverse order of registration, when its scope ends or before it is recomputed for other parameter values, and no fixture is torn down while one that depends on it is still alive. This holds for plain, yield and autouse fixtures, and when tests, other fixtures or other teardowns fail (interrupted runs, which skip teardowns, excepted).",
     ["programs", "histories", "fault_sequences"],
     "Any acyclic fixture graph over the three scopes, with parameters, autouse, yield and explicit cleanups; any test sequence over several modules; any subset of setups, teardowns and bodies raising or skipping.",
     "The tests use a few fixed graphs of two or three fixtures; set-up/teardown order and sharing must hold for every graph, test order and fault placement.",
     ["slash/core/fixtures/fixture_store.py", "slash/core/fixtures/fixture.py", "slash/core/fixtures/active_fixture.py", "slash/core/fixtures/utils.py", "slash/core/fixtures/parameters.py"],
     [("active fixtures by scope", "fixtures currently set up, and the parameter values they were computed for", "slash/core/fixtures/fixture_store.py:FixtureStore")],
     [("reuse while dependencies unchanged, else teardown and recompute", "slash/core/fixtures/fixture_store.py:FixtureStore._compute_fixture_value"),
      ("teardown in reverse activation order at scope end", "slash/core/fixtures/fixture_store.py:FixtureStore.pop_scope")],
     ["fixture set-up / teardown events with unique serial numbers", "values received by consumers"])

prop("C05", "Parametrization covers the full product once, and delivers matching values",
     "A test runs once for every combination of the values of all parameters it depends on - its own, those of its fixtures (direct, transitive, autouse, use_fixtures, or renamed) and those of before/after - and for no other combination. "
     "In each of these runs every consumer of a parameter, whether test, before/after method or fixture, receives exactly the value that the run's variation reports for it, and the variation, the labels and the test address identify the combination uniquely and deterministically.",
     ["programs", "inputs"],
     "Any combination of parametrize / iterate / toggle, tuple parameters, labelled and tagged values, inherited classes and parametrized fixtures shared by several consumers through any path of the fixture graph.",
     "Tests cover products of two or three parameters at fixed positions; consistency between the reported variation and every consumer is a relation over all graphs.",
     ["slash/core/variation_factory.py", "slash/core/variation.py", "slash/core/fixtures/parameters.py", "slash/core/fixtures/fixture_store.py", "slash/core/test.py", "slash/core/metadata.py"],
     [("variation", "value index of each parameter for one run", "slash/core/variation.py:Variation")],
     [("product of the needed parametrizations", "slash/core/variation_factory.py:VariationFactory.iter_variations"),
      ("binding of parameter names", "slash/core/variation_factory.py:VariationFactory._populate_param_name_bindings"),
      ("value injection", "slash/core/fixtures/parameters.py:parametrize")],
     ["values observed by every consumer", "context.test.__slash__.variation.values / labels / id", "test addresses"])

prop("C06", "Filters select exactly the tests their boolean expression describes",
     "A -k filter keeps exactly the tests for which its expression is true: a bare word holds if it occurs in the test's address (which shows parameters as name=value) or in one of its tag names, a tag: word holds if it is one of the test's tag names, name=value (with or without tag:) also holds if the tag of that name has that value, and not / and / or / parentheses combine them with the usual meaning and precedence. "
     "Several filters all have to hold. The filter decides only which tests run: it never changes their order or contents, and filtered-out tests leave no result.",
     ["inputs"],
     "Every expression of the filter language, with any nesting and spelling, against any set of tests with any addresses, parameters and tags.",
     "Tests check a list of hand-written expressions; the semantics is defined for every expression of the grammar.",
     ["slash/utils/pattern_matching.py", "slash/loader.py", "slash/core/tagging.py", "slash/utils/suite_files.py"],
     [("matcher", "parsed expression", "slash/utils/pattern_matching.py:Matcher")],
     [("infix grammar", "slash/utils/pattern_matching.py:_compile_matcher / Matcher"), ("all filters must match", "slash/loader.py:Loader._is_excluded")],
     ["tests that ran", "`slash list` output", "matcher verdicts"])

prop("C07", "Lifecycle hooks fire in a fixed grammar, paired, once per event",
     "Per session, before_session_start, session_start and after_session_start fire once before any test, and, once the session has started, before_session_cleanup (if any test started), session_end and after_session_end once after the last one; for every test that starts, test_start fires once before its body, before_test_cleanups once when its cleanups begin, then exactly one of test_success, test_error, test_failure and test_skip matching its verdict, then test_end once. "
     "Tests avoided because of unmet requirements or exclusions only fire test_avoided with the reason, and never test_start or test_end; error_added fires once for every error and failure recorded, with the result it belongs to. All of this holds regardless of failures in tests, fixtures, cleanups and callbacks of test-level hooks, and a failing callback does not prevent the other callbacks of the same hook.",
     ["programs", "histories", "fault_sequences"],
     "Any suite, any outcome of its tests, any set of hook callbacks, any of which may raise.",
     "Hook tests look at one hook in one scenario; the grammar of the whole event sequence under faults is not asserted anywhere.",
     ["slash/runner.py", "slash/hooks.py", "slash/core/session.py", "slash/core/result.py", "slash/core/cleanup_manager.py"],
     [],
     [("start/end pairing", "slash/runner.py:TestStartEndController"), ("outcome hooks", "slash/runner.py:_fire_test_summary_hooks"),
      ("deferred exceptions of callbacks", "slash/hooks.py (gossip.RaiseDefer)"), ("session hooks", "slash/core/session.py:Session.get_started_context")],
     ["gossip hooks slash.*"])

prop("C08", "Session totals, success flag, exit code and console summary agree with results",
     "After any run the number of results equals the number of tests in the run, each counted in the successful / error / failure / skipped / not-run totals according to its own verdict, and the session counts as successful only if no test and no session-level step had an error, failure or interruption. "
     "The process exit code is zero if and only if at least one test was collected, the session completed its tests and was successful (skips allowed); any error, failure, interruption, loading problem or abnormal termination gives a non-zero code. The summary printed on the console reports the same totals and names every test that has errors or failures.",
     ["programs", "configurations", "fault_sequences"],
     "Any suite and outcome mix, session-level errors from hooks, plugins and session cleanups, sys.exit from test code, unloadable files, empty selections, stop-on-error.",
     "Exit codes are asserted for a few single-cause runs; agreement between counters, flags, exit code and printed summary over arbitrary mixes is not.",
     ["slash/core/result.py", "slash/app.py", "slash/frontend/slash_run.py", "slash/reporting/console_reporter.py"],
     [("exit code", "what the process returns", "slash/app.py:Application.exit_code"), ("results", "per-test results plus the global one", "slash/core/result.py:SessionResults")],
     [("exit code from results and from escaping exceptions", "slash/app.py:Application.__exit__; slash/frontend/slash_run.py:slash_run")],
     ["app.exit_code", "session.results counters", "report stream"])

prop("C09", "A parallel run executes every test exactly once and agrees with a sequential run",
     "With any number of workers, and no worker failing, every collected test is executed by exactly one worker, exactly once, and the parent ends up with exactly one finished result per test whose verdict, errors, failures, skips, details and warnings are those of the worker that ran it - the same a sequential run gives - and with the same exit code. "
     "Errors which a worker adds to a result it has already reported (from the cleanups of modules and sessions) make the run fail as they do sequentially. Tests forced onto or excluded from a worker by hooks are respected, stop-on-error stops handing out tests, and the run terminates with every worker disconnected, for every interleaving of worker requests.",
     ["schedules", "programs", "configurations"],
     "Any suite, any number of workers, any interleaving of the workers' requests to the server, any force/exclude assignment.",
     "Parallel tests run a few fixed suites with one lucky interleaving; the guarantee is over all interleavings of requests and result reports.",
     ["slash/parallel/server.py", "slash/parallel/worker.py", "slash/parallel/parallel_manager.py", "slash/parallel/tests_distributer.py", "slash/parallel/worker_configuration.py", "slash/core/result.py"],
     [("server state machine, unstarted/executing tests", "who runs what", "slash/parallel/server.py:Server"), ("tests distributer", "tests not yet handed out", "slash/parallel/tests_distributer.py")],
     [("hand-out of indices under one RPC server", "slash/parallel/server.py:Server.get_test"), ("result transfer", "slash/core/result.py:Result.serialize/deserialize")],
     ["client-side call/return log of every RPC", "worker-side execution events", "parent results"])

prop("C10", "Losing parallel workers never loses, invents or silently passes a test",
     "If a worker dies, hangs or disconnects at any point, the parent still terminates, accounts for every collected test exactly once - finished with its reported verdict, marked as failed or interrupted if it was running on the lost worker, or not run - and the session is reported unsuccessful with a non-zero exit code. "
     "Tests reported by healthy workers before and after the loss keep their own verdicts, no test is handed out twice, and once a loss is noticed the remaining tests are accounted as not run. Workers that see a different test collection than the parent are refused and never execute tests. Only if no worker communicates at all for as long as no_request_timeout, or a worker never connects at all, is the session given up as a whole: it then fails with an error and a non-zero exit code, terminates its workers, and tests whose results were not reported by then have none.",
     ["fault_sequences", "crash_points", "schedules"],
     "Any number of workers, any subset of them lost at any point of the protocol (before connecting, validating, running, between tests, while reporting), combined with any interleaving of the others.",
     "Tests kill one worker at one fixed point; crash points are a universally quantified dimension.",
     ["slash/parallel/server.py", "slash/parallel/parallel_manager.py", "slash/parallel/worker.py"],
     [("connected clients / executing tests", "which worker holds which test", "slash/parallel/server.py:Server")],
     [("keep-alive based loss detection", "slash/parallel/parallel_manager.py:ParallelManager"), ("client failure report", "slash/parallel/server.py:Server.report_client_failure")],
     ["client-side RPC log", "parent results and exit code"])

prop("C11", "Resume runs exactly what did not succeed; rerun repeats exactly what ran",
     "After a session ends at any point, resuming it runs exactly the tests (with their exact parameter variations) that did not finish successfully - failed, errored, skipped or never run, as selected by the resume flags - and no successful one, while rerunning it runs exactly the tests of that session again, in the same order. "
     "This holds for chains of resumed sessions, for any stop point (stop-on-error, fatal errors, interruption), for repeated and parametrized tests, when several sessions are stored, and when sessions end at the same time; an unknown session is reported as an error.",
     ["histories", "crash_points", "configurations"],
     "Any suite and verdict assignment, any point at which the first session stops, any resume flags, any chain of resumes.",
     "Tests resume one fixed session once; selection must be right after every history and stop point.",
     ["slash/resuming.py", "slash/frontend/slash_run.py", "slash/loader.py"],
     [("resume state database", "status of every test of recent sessions", "slash/resuming.py")],
     [("status saved at session end", "slash/resuming.py:save_resume_state"), ("selection by status", "slash/resuming.py:get_tests_from_previous_session")],
     ["tests run by the resumed session (addresses and variations)"])

prop("C12", "Interrupting a run at any point stops it cleanly and truthfully",
     "When a run receives an interrupt or termination signal, or a test raises one, at any point of a test, fixture, cleanup or hook, no further test starts, the running test is marked interrupted (never successful) and fires test_interrupt, the session fires session_interrupt (unless it was already ending), and the exit code is non-zero. "
     "All critical cleanups still pending run exactly once and non-critical ones of the interrupted test do not; test_end, session_end and the final report still happen, and results of tests already finished are unchanged.",
     ["crash_points", "schedules", "programs"],
     "Any suite; an interrupt (KeyboardInterrupt, SIGINT, SIGTERM) delivered at any step of any test, fixture, before/after method, cleanup or hook.",
     "Tests interrupt at one or two fixed points; the point of interruption is universally quantified.",
     ["slash/app.py", "slash/core/result.py", "slash/exception_handling.py", "slash/core/cleanup_manager.py", "slash/core/session.py", "slash/plugins/builtin/signal_handling.py"],
     [("interrupted flag", "test / session was interrupted", "slash/core/result.py:Result")],
     [("interrupts are never swallowed", "slash/exception_handling.py:_HandlingException.__exit__"), ("marking and hooks", "slash/core/result.py:Result.add_exception"), ("SIGTERM becomes an exception", "slash/app.py:Application._sigterm_context")],
     ["event trace before/after the injected interrupt", "results", "exit code"])

prop("C13", "Stop-on-error and fatal errors stop the run right after the offending test",
     "With stop-on-error the run stops after the first test that does not succeed (skips do not count), and with or without it after the first test with an error marked fatal; the offending test's own cleanups, fixture teardowns, outcome hooks and test_end, and all open module and session scopes, are still completed. "
     "Every later test has a result marked as not run, is counted as such, and fires no hook; every earlier result is unchanged, and the session is unsuccessful. Without either cause no run stops early.",
     ["programs", "configurations"],
     "Any suite, any position and kind of the first unsuccessful or fatal test (body, fixture, cleanup, explicit error), with and without the setting.",
     "Tests check one position with one kind of error.",
     ["slash/runner.py", "slash/core/result.py", "slash/core/error.py", "slash/exception_handling.py"],
     [], [("stop decision after each test", "slash/runner.py:run_tests"), ("unrun marking", "slash/runner.py:_mark_unrun_tests"), ("fatal marks", "slash/exception_handling.py:mark_exception_fatal; slash/core/error.py:Error.mark_fatal")],
     ["test body events", "results", "hooks", "exit code"])

prop("C14", "Tests with unmet requirements or exclusions are skipped, and only those",
     "A test runs if and only if all requirements attached to it, to its class and base classes, and to every fixture it uses (directly, transitively or by autouse) are met, it is not marked skipped, and no exclusion rule on it or its fixtures matches its parameter values; every rule counts, however many are attached. "
     "A test that does not run is recorded as skipped with the given reason, and none of its code or fixtures is executed. Requirements attached to one test never affect another.",
     ["programs", "inputs"],
     "Any placement of requirements (booleans, functions, with and without messages), skip marks and exclusion rules over functions, methods, class hierarchies and fixture graphs, and any parameter values.",
     "Tests use single requirements or exclusions at single positions; their combination over class hierarchies and fixture graphs is not covered.",
     ["slash/core/requirements.py", "slash/core/exclusions.py", "slash/core/runnable_test.py", "slash/core/test.py", "slash/core/fixtures/fixture.py", "slash/utils/function_marker.py", "slash/runner.py"],
     [], [("requirements gathered from test, class, fixtures", "slash/core/test.py:Test.get_requirements; slash/core/runnable_test.py"), ("exclusion matching", "slash/core/exclusions.py:is_excluded"), ("avoidance", "slash/runner.py:_process_requirements_and_exclusions")],
     ["test body / fixture events", "result skips", "test_avoided hook"])

prop("C15", "Exception handling contexts record once, swallow exactly what they should",
     "However handling contexts, swallowing contexts, assert_raises and allowed-exception blocks are nested, an exception crossing them is recorded in the current result at most once and is handled as close to its origin as possible; it is suppressed exactly by the contexts that swallow its type, and interrupts, skips and exit requests are never suppressed by a handling context. "
     "Pass-through types are left untouched and unrecorded by contexts told to pass them, exceptions marked non-swallowable always propagate, and assert_raises succeeds exactly when an exception of an expected type is raised, giving the caller that exception. Exception marks belong to one exception object only.",
     ["programs", "inputs"],
     "Any nesting of the public exception handling contexts around any raise of any exception type with any marks, inside and outside tests.",
     "Tests check each context once or twice in isolation; the composition is what user code relies on.",
     ["slash/exception_handling.py", "slash/utils/exception_mark.py", "slash/assertions.py", "slash/exceptions.py"],
     [("exception marks", "handled / noswallow / fatal marks kept on exceptions", "slash/utils/exception_mark.py")],
     [("single handling", "slash/exception_handling.py:handle_exception"), ("swallowing", "slash/exception_handling.py:_HandlingException.__exit__; get_exception_swallowing_context"), ("assertion helpers", "slash/assertions.py")],
     ["propagation observed by user code", "result errors/failures", "exception_caught_before_debugger hook"])

prop("C16", "A plugin's hooks are live exactly while it is active, in dependency order",
     "At any time the callbacks of exactly the active plugins are registered, each once; activating, deactivating, installing and uninstalling plugins in any order keeps this true, including when activation or deactivation raises, invalid names, unknown and incompatible plugins are rejected without side effects, and a plugin installed under the name of another replaces it. "
     "Plugins requested from the command line, configuration or code become active, and callbacks run in an order that respects every declared needs/provides relation, whatever the order of installation; contradictory declarations are reported. In parallel runs a plugin is active in the parent, in the workers or in both exactly as it declares.",
     ["histories", "configurations", "fault_sequences"],
     "Any sequence of install / activate / deactivate / uninstall operations over plugins with arbitrary hooks, needs/provides declarations and failing activate/deactivate methods.",
     "Tests check short fixed sequences; the relation between the state and the registered callbacks must hold after every history.",
     ["slash/plugins/plugin_manager.py", "slash/plugins/interface.py", "slash/utils/cli_utils.py"],
     [("installed / active / pending plugins", "plugin manager state", "slash/plugins/plugin_manager.py:PluginManager")],
     [("registration by token on activation", "slash/plugins/plugin_manager.py:PluginManager.activate/deactivate"), ("dependency configuration", "slash/plugins/plugin_manager.py"), ("parallel modes", "slash/plugins/plugin_manager.py:configure_for_parallel_mode")],
     ["callback events when hooks are triggered", "public plugin manager queries"])

prop("C17", "Configuration overrides from the command line apply to the run, and only to it",
     "Each configuration value set from the command line - through its declared flag or argument, or through -o path=value - has, throughout the run, exactly the value given, converted to the type of the configuration entry, while every other entry keeps its value; append-style options accumulate, toggles flip, and repeated flags count. "
     "When the run ends, in whatever way, all entries are back to their previous values. Unknown paths, unknown options and unconvertible values are reported as errors and no test runs.",
     ["inputs", "configurations"],
     "Any combination of flags, arguments and -o assignments over the whole configuration tree, including plugin-defined entries, in any order, in runs that end normally or abnormally.",
     "Tests set a few entries by hand.",
     ["slash/utils/cli_utils.py", "slash/utils/conf_utils.py", "slash/conf.py", "slash/app.py"],
     [("configuration tree", "current values", "slash/conf.py")],
     [("argument parsing from configuration metadata", "slash/utils/cli_utils.py"), ("scoped modification", "slash/utils/cli_utils.py:get_modified_configuration_from_args_context")],
     ["config snapshots before / during / after a run"])

prop("C18", "Every log line lands in the right log files, which are always closed",
     "With logging to files enabled, each message emitted while a test is the current one appears in that test's log exactly once, in order, and in no other test's log; messages emitted outside tests appear in the session log, and with the unified log all of them do; highlighted messages also go to the highlights log, and below-level messages nowhere. "
     "Each started test has its own log file at the reported path, named by the configured template; closed files are announced once by log_file_closed, the last-session/last-test/last-failed links point at the right files, logs of tests removed by the cleanup settings are exactly those configured, and compression keeps contents. This holds for any outcome of the tests, interruptions included.",
     ["programs", "configurations", "histories"],
     "Any mix of messages from tests, fixtures, cleanups and hooks, any logging configuration, any test outcomes.",
     "Logging tests emit one or two messages in fixed configurations.",
     ["slash/log.py", "slash/runner.py", "slash/core/session.py"],
     [("handler stack", "session and test log handlers", "slash/log.py:SessionLogging")],
     [("per-test handler context", "slash/log.py:SessionLogging.get_test_logging_context"), ("cleanup / compression / links", "slash/log.py")],
     ["contents of all log files by unique message ids", "log_file_closed hook", "result log paths"])

prop("C19", "Each warning is captured once, attributed to its test, unless ignored by a rule",
     "Every warning issued during a session through the warnings machinery or a warning-level log message that is not suppressed is recorded exactly once in the session's warnings with its message, category and origin, fires warning_added once, and is included in the reported warning count. "
     "A warning is left out if and only if at least one active ignore rule matches it, a rule matching only when all the criteria it states (message, category, file, line) hold; rules given for a block end with the block, however it is left. Warnings never change a test's verdict.",
     ["programs", "inputs", "histories"],
     "Any sequence of warnings from tests, fixtures, hooks and loading, any set of ignore rules with any combination of criteria, any nesting of ignore blocks, left normally or by exceptions.",
     "Tests check one rule with one warning.",
     ["slash/warnings.py", "slash/utils/warning_capture.py", "slash/app.py", "slash/log.py"],
     [("session warnings, ignore rules", "captured warnings and active rules", "slash/warnings.py")],
     [("showwarning capture", "slash/utils/warning_capture.py"), ("rule matching", "slash/warnings.py:SessionWarnings.warning_should_be_filtered")],
     ["session.warnings", "warning_added hook", "console summary"])

prop("C20", "The xunit report is well-formed and equals the session's results",
     "When requested, the xunit report is written however the run ends, is well-formed XML whatever text the test names, parameters, messages, reasons and details contain, and lists every test that started exactly once, with its name, class, and its failures, errors and skips with their messages. "
     "The totals it states are the session's numbers of results and of erroneous, failed and skipped tests, and errors outside any test are included. The same holds in parallel runs.",
     ["programs", "inputs"],
     "Any suite, outcome mix, and arbitrary unicode/control/markup text in messages, skip reasons, details and parameter values.",
     "Tests compare a few fixed documents.",
     ["slash/plugins/builtin/xunit.py", "slash/core/result.py"],
     [], [("report built from hooks", "slash/plugins/builtin/xunit.py")],
     ["parsed xunit file", "session.results"])

prop("C21", "Suite files select exactly what their lines say",
     "Running a suite file runs, in file order, exactly the tests its lines select: blank lines and comments are ignored, paths and addresses are relative to the file's directory, filter: expressions restrict the line they are on, repeat: runs the line that many times, and a nested suite file contributes what it would run by itself, restricted and repeated by its own line. "
     "Several suite files contribute their tests in the order given, after those of paths on the command line; a missing path or a malformed repeat count is reported as an error and nothing runs.",
     ["inputs", "configurations"],
     "Any suite file contents over any project tree, nested to any depth, in any combination with paths, filters and repetitions.",
     "Tests use a few literal files.",
     ["slash/utils/suite_files.py", "slash/loader.py", "slash/frontend/slash_run.py"],
     [], [("line parsing", "slash/utils/suite_files.py:iter_suite_file_paths"), ("matcher per path", "slash/loader.py:Loader._generate_test_sources")],
     ["tests that ran, in order", "exit code"])

prop("C22", "Listing shows exactly what running the same arguments would run",
     "For any paths, filters and suite files, slash list prints exactly the tests that slash run with the same arguments would execute, each once, in the same order and with the same addresses, without executing any test or fixture; with the options for tags, parameters, fixtures and relative paths it shows the true ones. "
     "It exits with zero if and only if the tests could be loaded and, unless empty results are allowed, there is at least one.",
     ["inputs", "configurations", "programs"],
     "Any project tree, any paths/filters/suite files and any listing options.",
     "Tests list a few fixed files.",
     ["slash/frontend/slash_list.py", "slash/loader.py", "slash/core/metadata.py"],
     [], [("shared loader", "slash/frontend/slash_list.py"), ("addresses", "slash/core/metadata.py:Metadata.get_address")],
     ["list output", "tests run with the same arguments", "body / fixture events"])

prop("C23", "A test carries exactly the tags attached to it, its class, fixtures and values",
     "The tags of a test are exactly those attached to its function or method, its class and base classes, the fixtures it uses (directly or transitively, with their fixtures' tags), and the parameter values of its variation, with their values. "
     "Tagging one test, class, fixture or value never changes the tags of another, in particular not of base classes or sibling classes; conflicting values for one tag are reported as an error instead of silently choosing one.",
     ["programs", "inputs"],
     "Any placement of tags over functions, methods, class hierarchies, fixture graphs and parameter values.",
     "Tests attach one or two tags.",
     ["slash/core/tagging.py", "slash/core/test.py", "slash/core/function_test.py", "slash/core/runnable_test.py", "slash/core/fixtures/fixture.py", "slash/core/variation.py"],
     [("tags", "name to value map attached to a test element", "slash/core/tagging.py:Tags")],
     [("union of tags", "slash/core/test.py:Test.get_tags; slash/core/runnable_test.py"), ("conflict detection", "slash/core/tagging.py")],
     ["test.__slash__.tags at tests_loaded and during tests", "filter results, slash list output"])

prop("C24", "The global context always describes the test and session actually running",
     "While any code of a test runs - body, before/after, its test-scoped fixtures and cleanups, and hooks fired for it - the context gives that test, its id, its class and method names and its result, which is the one found for it in the session results; outside tests it gives no test and the global result; the current fixture and the current scope name are right during fixtures and cleanups. "
     "After a session ends, however it ends, the context is back to what it was before, and ids, indices and log paths given to different tests are distinct, with indices consecutive in execution order.",
     ["programs", "histories", "fault_sequences"],
     "Any suite and any placement of failures, skips and interruptions; several sessions one after the other in one process.",
     "Tests sample the context at a few points of successful runs.",
     ["slash/ctx.py", "slash/runner.py", "slash/core/session.py", "slash/utils/id_space.py", "slash/core/metadata.py", "slash/cleanups.py"],
     [("context stack", "current session, test, result, fixture", "slash/ctx.py")],
     [("set and restored around each test", "slash/runner.py:_get_test_context; _set_current_test_context"), ("pushed and popped with the session", "slash/core/session.py:Session.activate/deactivate")],
     ["context snapshots taken at every event"])

prop("C25", "Error objects describe the real exception: type, message, origin and frames",
     "For every exception recorded, from whatever depth, call chain or handling context, the error object gives the exception's type, message and value representation, and its frames form the real call path ending at the line, function and file that raised it, each frame exactly once and outermost first, with true source lines and variables when enabled. "
     "Errors added explicitly point at the caller that added them. Building, formatting, pickling and transferring an error never fails and never raises, whatever the exception object, its attributes or its representation do.",
     ["programs", "inputs"],
     "Any call depth, recursion, re-raise, chained or nested handling, exceptions with hostile attributes or representations.",
     "Tests check one or two fixed call chains.",
     ["slash/core/error.py", "slash/utils/traceback_utils.py", "slash/utils/traceback_proxy.py", "slash/exception_handling.py"],
     [], [("traceback distillation", "slash/utils/traceback_utils.py:distill_traceback"), ("stack extension below the handler", "slash/utils/traceback_proxy.py")],
     ["error.traceback frames compared to the call chain recorded by the raising code"])

prop("C26", "Fixture names resolve by nearest scope; invalid graphs are rejected up front",
     "A name required by a test or a fixture resolves to the fixture of that name defined in the test's own module if there is one, else in the nearest slashconf.py on the path to the root, with explicit renaming honoured; a module's or directory's fixtures are invisible to other modules and directories, and a fixture's own requirements are resolved from where it is defined. "
     "Unknown names, dependency cycles, and fixtures depending on narrower scopes are reported as load-time errors with a non-zero exit code and without running any test; extra fixtures a test requests by name only are activated but never passed as arguments.",
     ["programs", "configurations"],
     "Any tree of directories and modules with any set of equally or similarly named fixtures, overrides, renames and requested extra fixtures.",
     "Tests use two levels and distinct names.",
     ["slash/core/fixtures/namespace.py", "slash/core/fixtures/fixture_store.py", "slash/core/fixtures/fixture.py", "slash/core/fixtures/utils.py", "slash/core/local_config.py", "slash/loader.py"],
     [("namespaces", "names visible at each level", "slash/core/fixtures/namespace.py:Namespace")],
     [("namespace chain", "slash/core/fixtures/namespace.py:Namespace.get_fixture_by_name"), ("validation on resolve", "slash/core/fixtures/fixture.py:Fixture._resolve"), ("local configuration per directory", "slash/core/local_config.py")],
     ["identity of the fixture values received", "exit code, absence of test events"])

prop("C27", "Details, facts and result data survive intact to the end of the session",
     "A detail or fact set on a result has, until it is set again, exactly the last value given, and appended details accumulate in order; setting one result's data never affects another's, every fact fires fact_set once with its name and value, and the details shown by the console, xunit and parallel parent are those of the result. "
     "Values stored in the global storage stay available for the session and are gone with it.",
     ["programs", "inputs"],
     "Any sequence of set / append operations on test and global results from tests, fixtures, cleanups and hooks, with any values.",
     "Tests set one or two details.",
     ["slash/core/details.py", "slash/core/result.py", "slash/ctx.py", "slash/reporting/console_reporter.py"],
     [("details", "per-result key/value store", "slash/core/details.py:Details")],
     [("set / append semantics", "slash/core/details.py"), ("fact hook", "slash/core/result.py:Result._fact_set_callback")],
     ["result.details / facts at session end", "fact_set hook"])

prop("C28", "Traceback splicing into the interpreter is memory-safe",
     "Recording exceptions, which links traceback objects of the running interpreter to synthetic ones through raw memory, never corrupts interpreter memory or reference counts: no crash, no debug-allocator or debug-mode report, no use of freed objects, and no unbounded growth of live frames or tracebacks, however many exceptions are handled, nested, re-raised, chained and garbage-collected.",
     ["programs", "histories"],
     "Any number and nesting of handled exceptions at any recursion depth, with tracebacks being walked, formatted, re-raised and collected in any order.",
     "Unit tests handle few exceptions, under a release allocator that hides corruption.",
     ["slash/utils/traceback_proxy.py", "slash/exception_handling.py"],
     [("traceback proxies", "objects laid over interpreter tracebacks", "slash/utils/traceback_proxy.py")],
     [("ctypes structure overlay with manual reference counting", "slash/utils/traceback_proxy.py:TracebackProxy")],
     ["process exit status under the debug allocator and developer mode", "live object counts", "walked traceback chains"])

prop("C29", "Customization sources load once, in order, and failures in them abort the run",
     "Site, environment, user and project customization files are each executed exactly once per run, before plugins are activated, in the documented order, so that later ones override earlier ones and the command line overrides them all; the project file is taken from the working directory unless configured otherwise. "
     "An error raised in one of them aborts the run with a non-zero exit code before any test is loaded, and missing optional files are ignored.",
     ["configurations"],
     "Any presence/absence and contents of each customization source, combined with any command line.",
     "Tests check each source alone.",
     ["slash/site.py", "slash/app.py", "slash/conf.py"],
     [], [("ordered loading", "slash/site.py:load")],
     ["events emitted by the customization files", "final configuration values"])

prop("C30", "Notifications tell every configured recipient once how the session ended",
     "When the notifications plugin is active, the end of every session which lasted long enough (and, if so configured, only of unsuccessful ones), and every entrance to the debugger unless configured otherwise, is told exactly once, by the parent of parallel runs only, to each notifier which is enabled and fully configured and to no other. "
     "What is told is true: the outcome of the session, its id, host and summary, the configured sender, recipients, credentials and added details, and the exception which led to the debugger. A broken notifier neither prevents the others from being told, nor changes results of tests, nor keeps the run from ending.",
     ["configurations", "programs", "faults"],
     "Any combination of enabled, configured and broken notifiers, thresholds and details, with sessions of any outcome.",
     "Tests send a single notification of a trivial session through all notifiers at once, and look at a few values.",
     ["slash/plugins/builtin/notifications.py", "slash/plugins/builtin/email_template.j2"],
     [("notifier registry", "enabled notifiers and their configuration", "slash/plugins/builtin/notifications.py:Plugin")],
     [("fan-out with isolation of failures", "slash/plugins/builtin/notifications.py:Plugin._notify_all")],
     ["requests passed to the HTTP transport", "mails passed to the SMTP client", "prepare_notification events"])

prop("C31", "Signal handling acts at the point of the signal and leaves nothing behind",
     "With the signal handling plugin active, a SIGUSR2 arriving while code of a test (its fixtures, cleanups and hooks included) executes acts exactly as if slash.skip_test had been called there - that test is skipped, its cleanups and fixtures are finished as usual, the others run normally; SIGUSR1 reports the stack and changes nothing; "
     "each registered handler is called exactly once per signal, whether registered before or after the activation, the last registered for a signal being the one in effect. Deactivating the plugin restores the handlers which were installed before it, for every signal.",
     ["schedules", "programs", "histories"],
     "Any signal arriving at any point, any sequence of registering handlers, activating and deactivating.",
     "There are no tests of this plugin.",
     ["slash/plugins/builtin/signal_handling.py"],
     [("original handlers", "handlers in place before the activation", "slash/plugins/builtin/signal_handling.py:Plugin._orig_handlers"), ("registered handlers", "handler of each signal", "slash/plugins/builtin/signal_handling.py:_signal_handlers")],
     [("asynchronous skip raised from a signal handler", "slash/plugins/builtin/signal_handling.py:_usr2_handler")],
     ["event log of tests, hooks and handlers", "results", "installed signal handlers", "console output"])

prop("C32", "Coverage reports tell exactly the code executed",
     "With the coverage plugin active, the recorded coverage data and every requested report (html, xml or both) tell of exactly those lines of the requested sources which were executed between its activation and the end of the session, by any test, fixture or cleanup, in any thread, and in any worker of a parallel session, whatever the outcome of the session (failures, interruptions); "
     "data of earlier sessions is included if and only if appending was requested; the configuration file given, and no other, is respected; no report is written when reports are turned off. The plugin does not change the outcome of the run.",
     ["programs", "configurations", "schedules"],
     "Any executed code, any set of sources, report types, configuration and appending, any number of workers.",
     "Tests run a trivial suite with the measurement replaced by a no-op.",
     ["slash/plugins/builtin/coverage.py"],
     [("coverage data files", "executed lines, per process", "slash/plugins/builtin/coverage.py:Plugin.activate")],
     [("combining data of workers", "slash/plugins/builtin/coverage.py:Plugin.session_end")],
     ["coverage data files", "xml and html reports", "log of executed lines", "exit codes"])

prop("C33", "The commands listing plugins and configuration tell what runs would see",
     "slash list-plugins prints every installed plugin which is not internal (including those installed by customization files) exactly once, sorted, with its documentation, and tells it is active if and only if a plain run would have it active; using the flag advised toggles exactly that plugin. "
     "slash list-config prints every configuration entry (including those added or changed by customization files and plugins) exactly once, sorted, with its documentation and the value a plain run would see; given paths, it prints exactly the entries at or below one of them.",
     ["configurations", "inputs"],
     "Any installed plugins and their names, documentation, states and configuration, any customization, any path filters.",
     "Tests check that the output is not empty and that a few names appear in it.",
     ["slash/frontend/list_config.py", "slash/frontend/slash_list_plugins.py", "slash/plugins/plugin_manager.py", "slash/utils/cli_utils.py"],
     [("plugin registry", "installed, active and pending plugins", "slash/plugins/plugin_manager.py:PluginManager"), ("configuration tree", "entries and their metadata", "slash/conf.py:config")],
     [("agreement of separate commands on the same project", "slash/frontend/slash_list_plugins.py:slash_list_plugins")],
     ["standard output of the commands", "configuration and active plugins seen by tests of runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
