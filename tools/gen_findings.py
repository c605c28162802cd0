"""Writes /verif/known_findings.json: repaired defects (suppress nothing) and open ones (matched by the `mechanism` a check reports)."""
import json
import os

FIXED = [
    ('C03', '7fc6b2a', 'cleanups registered after (run before) one that skips, is interrupted or exits, or whose before_test_cleanups hook fails, were dropped, critical ones included'),
    ('C12', '8a6b62e', 'an interrupt in a module-scope cleanup left the session scope open: its critical cleanups never ran'),
    ('C08', 'a7102e5', 'sys.exit(0) in a session with failures gave exit code zero'),
    ('C14', '6cddc1b', 'of several exclusions stacked on the same parameter only one was honoured'),
    ('C23', 'bf8d074', 'tagging a derived class changed the tags of its base class; tags of further base classes were lost'),
    ('C14', '2697b15', 'requirements of base classes were lost when a derived class declares its own or has several bases'),
    ('C28', '9c80cb1', 'spliced tracebacks linked proxy objects where the interpreter expects traceback objects'),
    ('C12', 'da15904', 'an interrupt in a session-global cleanup or in session_end dropped session_end, after_session_end and the final report'),
    ('C12', '99463c6', 'session.results.is_interrupted() was False when the interrupt came outside a test'),
    ('C08', 'c8f7a69', 'with -v, a skip recorded when no test is current raised AttributeError and became an error of a test'),
    ('C14', 'a668dab', 'requirements and tags of fixtures that a test class uses through use_fixtures, before or after were ignored'),
    ('C23', 'a668dab', 'tags of fixtures that a test class uses through use_fixtures, before or after were missing'),
    ('C14', '6df825c', 'exclusions on autouse fixtures, on fixtures requested by use_fixtures and on fixtures of fixtures were ignored'),
    ('C26', '372e3fe', 'what the fixtures of a slashconf file require was resolved from the first test file loaded below it; a renamed fixture overriding one of a directory above raised AssertionError'),
    ('C05', 'd9ea62d', 'values tagged with // slash.tag and not labelled had no label of their own: the address showed <NOTHING> and did not tell them apart'),
    ('C21', '59d43c0', 'repeat: on a nested suite file was ignored'),
    ('C21', '4550fa8', 'suite files in subdirectories of a suite directory were read more than once'),
    ('C06', 'b6b1755', 'filter words starting with not- or not. were parsed as negations'),
    ('C22', '9f64088', 'slash list reported fixtures used through other fixtures or use_fixtures as unused'),
    ('C22', '17d97e9', 'slash list --no-params truncated addresses of files whose path contains a parenthesis'),
    ('C21', 'be1e2a5', 'an empty suite file made slash run fall back to the default sources'),
    ('C22', 'c3235d2', 'slash list ignored suite files given by the configuration'),
    ('C22', 'c4aee4a', 'fixtures of slashconf files overridden further down were listed as overrides'),
    ('C16', '6190dd9', 'a plugin whose activation failed midway left callbacks registered'),
    ('C16', '2f5ad94', 'activating an active plugin registered its callbacks again'),
    ('C16', '74f4c01', 'the session_start placeholder of plugins without that hook outlived them and provided nothing'),
    ('C16', '938d32f', 'installing another plugin under the name of an active one left the callbacks of the first registered'),
    ('C16', 'ff2890b', 'uninstalling a plugin left it pending activation'),
    ('C16', '7483256', 'needs and provides of a derived plugin class were added to its base class as well'),
    ('C16', '9e0b476', 'restoring plugins did not restore the one replaced by another of the same name, nor whether it was internal'),
    ('C16', '129e713', 'session_start of plugins without session_end was called in the first session only'),
    ('C16', '51536a8', 'plugins in plugins.search_paths were never loaded'),
    ('C17', 'c4d77c4', 'overriding a configuration branch with -o left other overrides in effect after the run'),
    ('C17', '54a07a4', 'uninstalling a plugin during a run with command-line overrides of its configuration failed the run and left the other overrides in effect'),
    ('C17', 'd280721', 'an error while reporting an aborted run skipped its cleanup, leaving command-line overrides in effect'),
    ('C15', '88a574f', 'exceptions shared marks with the exceptions they are copied from or forward attributes to, and with base classes'),
    ('C15', '86749a8', 'handling_exceptions failed when given its types in a list'),
    ('C15', '1d124ef', 'handling_exceptions could swallow exit requests, and skips when no session is active'),
    ('C15', 'f26e3bc', 'failures reported through exit stacks were recorded as another exception, or not at all'),
    ('C25', 'd0e6f58', 'recording an error failed if the exception or a variable has failing representation, attributes or class'),
    ('C25', '825463e', 'the message of syntax errors only had the location of the error'),
    ('C25', '3e0c723', 'errors which could not be pickled failed parallel workers or were lost'),
    ('C25', '136a46a', 'frames were repeated in errors of contexts created by a function called by the guarded one'),
    ('C15', '47d6d57', 'entering the debugger failed if the exception has failing representation'),
    ('C25', '173a449', 'errors with no frames were reported without their message, and failed the report with --tb 1'),
    ('C25', 'fcd61dc', 'errors added with the exc_info of no exception were attributed to nothing'),
    ('C27', 'e2fbcc3', 'appending to a detail changed the list it was set to, and everything else sharing it'),
    ('C27', 'abc77b4', 'parallel runs lost the facts of tests, and all of their details, data or skips if one of them cannot be pickled'),
    ('C27', 'dfa87c3', 'details and skip reasons with failing representation, and skip reasons which are not strings, failed the session summary'),
    ('C20', 'cf80675', 'xunit reports were malformed or not written for details, skip reasons and messages which are not strings or contain control characters, and attributed all errors to the exception ending the session'),
    ('C19', 'a45c258', 'warnings kept being ignored after an ignored_warnings block which was left by an exception'),
    ('C19', 'af015dd', 'warnings with no arguments, or whose argument is not a string, raised exceptions where they were emitted'),
    ('C19', '42cb666', 'warnings whose category is defined in a test file failed the tests issuing them in parallel runs'),
    ('C18', '2841949', "the unified session log missed messages of other threads and of the raw copy, contained silenced and slash's own low level messages of tests, and repeated those of tests logged to the same file"),
    ('C18', 'ead4660', 'last_test_symlink was not updated when tests are logged to an open file, and links were removed when there is no log file'),
    ('C18', '3588237', 'log cleanup removed the log root when its path is not normalized'),
    ('C18', 'e281338', 'the ci links plugin failed all tests when no logs are written'),
    ('C11', 'ddd20a4', 'tests which failed and were also skipped were not resumed with --failed-only or --no-skipped'),
    ('C11', '39e842c', 'tests which were not run were resumed in random order, and those sharing an address only once'),
    ('C11', 'bcdbd18', 'resuming tests marked with slash.repeat repeated each of their repetitions'),
    ('C11', 'afed00f', 'sessions ending at the same time failed to save their resume state, or lost it'),
    ('C05', 'ea57030', 'tests opting out of fixtures did not show the parameters of the autouse fixtures they run with'),
    ('C09', '9226735', 'parallel workers ran another test of the same name in another class of the file than the one handed out'),
    ('C09', '6fd3edb', 'warnings emitted by threads of a parallel worker were lost (300 emitted, 53 reported)'),
    ('C10', 'd8adcd5', 'a parallel worker which collected other tests than the parent crashed while saying so, and its parent kept waiting'),
    ('C10', '0ae3a68', 'the parent never ended if a worker was lost between connecting and its first keepalive'),
    ('C10', 'd2d2289', 'the parent never ended if a worker did not terminate when asked to (for example, a stopped one)'),
    ('C10', 'ceb116d', 'the parent never ended if one of its workers could not be started'),
    ('C09', '7181a4c', 'errors of module and session scopes added to results which were already reported were lost, and the session succeeded'),
    ('C09', '3e5b2b3', 'the message of a session error was lost if it contains control characters'),
    ('C28', '4961eff', 'frames replaced in traceback objects were left alive with a reference count of zero, until collected'),
    ('C19', 'fadeb0d', 'warnings issued by a customization file inside an ignored_warnings block were recorded'),
    ('C30', 'cfcc55c', 'the summary of the results was missing from notification mails'),
    ('C30', '4729d61', 'a notifier failing when the debugger is entered made the run enter it without end'),
    ('C30', '98aa70c', 'Slack notifications sent after a broken notifier were colored as failures of sessions they tell have succeeded'),
    ('C31', '3a952f5', 'handlers registered again while the plugin is active replaced the original ones to be restored at its deactivation'),
    ('C32', 'bd3b1eb', 'no file name was accepted for --cov-config (or plugin_config.coverage.config_filename)'),
    ('C18', 'b74fe02', 'links to logs were dangling if the log root is a relative path'),
    ('C33', '7a0b3e0', 'slash list-config with the path of an entry (log.root) listed all entries of its parents'),
    ('C33', '5e81a62', 'the advice printed by slash list-plugins for active plugins lacked its closing parenthesis'),
]

# Defects whose repair would have to touch slash/core/fixtures/, which counts as a test folder here and may not be changed.
OPEN = [
    ('C04', 'fixture-cleanup-failure', 'a failing or skipping cleanup of a fixture (slash/core/fixtures/active_fixture.py:do_cleanups) drops the remaining cleanups of that fixture; if it skips, the teardown of the other fixtures of the scope is left to the next scope'),
    ('C01', 'fixture-cleanup-failure', 'when setting up a fixture fails and a cleanup it registered fails too, the error of the setup is lost (slash/core/fixtures/fixture_store.py:_compute_fixture_value)'),
    ('C04', 'recompute-order', 'a fixture recomputed for other parameter values is torn down while fixtures built from its old value are still alive (slash/core/fixtures/fixture_store.py:_compute_fixture_value)'),
    ('C23', 'function-extra-fixture-tags', 'tags of fixtures that a test function uses only through use_fixtures are missing (slash/core/runnable_test.py:_get_fixture_tags; files named *_test.py count as tests here)'),
    ('C14', 'function-extra-fixture-requirements', 'requirements of fixtures that a test function uses only through use_fixtures are ignored (slash/core/runnable_test.py:_get_fixtures_requirements; files named *_test.py count as tests here)'),
    ('C26', 'use-fixtures-shared-list', 'use_fixtures keeps and extends the list it is given: a second use_fixtures on one test also changes the other tests given the same list (slash/core/fixtures/utils.py:use_fixtures)'),
    ('C09', 'forced-after-reorder', 'tests forced onto or excluded from a worker by a hook that also reorders tests: their numbers are taken at load time and used as positions in the final order, so other tests are forced or excluded (slash/parallel/tests_distributer.py, slash/loader.py); an existing stable test depends on it'),
]


def main():
    findings = [{'property': p, 'status': 'fixed', 'commit': c, 'mechanism': None, 'what': w, 'line': 'fixed: property={} {} {}'.format(p, c, w)} for p, c, w in FIXED]
    findings += [{'property': p, 'status': 'open', 'mechanism': m, 'what': w} for p, m, w in OPEN]
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w') as f:
        json.dump({'findings': findings}, f, indent=1)
        f.write('\n')


main()
