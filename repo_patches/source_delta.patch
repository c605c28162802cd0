From 7fc6b2ae983d1ec01f75d1fe4f8fc2cb720f28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 01/79] fix: run the remaining cleanups of a scope after a
 skip, an interruption or a failing before_test_cleanups hook

A cleanup raising SkipTest, KeyboardInterrupt or SystemExit, or a failing before_test_cleanups callback, lost all
remaining cleanups of the scope, including critical ones. A skip raised by a module-scoped cleanup also broke the scope
stack for all tests that followed.
---
 slash/core/cleanup_manager.py | 41 +++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/slash/core/cleanup_manager.py b/slash/core/cleanup_manager.py
index ce29f71..6a5c682 100644
--- a/slash/core/cleanup_manager.py
+++ b/slash/core/cleanup_manager.py
@@ -1,3 +1,4 @@
+import sys
 from contextlib import contextmanager
 
 import logbook
@@ -6,7 +7,8 @@ from sentinels import Sentinel
 from .. import hooks
 from ..ctx import context
 from ..exception_handling import handling_exceptions
-from ..exceptions import CannotAddCleanup, IncorrectScope, SlashInternalError
+from ..exceptions import CannotAddCleanup, IncorrectScope, INTERRUPTION_EXCEPTIONS, SlashInternalError
+from ..utils.python import reraise
 
 _logger = logbook.Logger(__name__)
 
@@ -142,9 +144,16 @@ class CleanupManager(object):
             scope = self._scope_stack[-1]
             _logger.trace('Deducing last scope={0.name!r}', scope)
 
+        skip_types = () if context.session is None else context.session.get_skip_exception_types()
+        exc_info = None # interruption or exit request, propagated once no more cleanups are left
+
         if scope.name == 'test': # pylint: disable=no-member
-            with handling_exceptions():
-                hooks.before_test_cleanups()  # pylint: disable=no-member
+            try:
+                with handling_exceptions():
+                    hooks.before_test_cleanups()  # pylint: disable=no-member
+            except BaseException as e:  # pylint: disable=broad-except
+                exc_info = sys.exc_info()
+                in_interruption = in_interruption or isinstance(e, INTERRUPTION_EXCEPTIONS)
 
         stack = scope.cleanups # pylint: disable=no-member
         while stack:
@@ -153,14 +162,24 @@ class CleanupManager(object):
                 continue
             if (in_failure or in_interruption) and cleanup.success_only:
                 continue
-            with handling_exceptions(swallow=True):
-                _logger.trace("Calling cleanup: {0}", cleanup)
-                previous_scope = self._current_scope
-                self._current_scope = scope
-                try:
-                    cleanup()
-                finally:
-                    self._current_scope = previous_scope
+            try:
+                with handling_exceptions(swallow=True):
+                    _logger.trace("Calling cleanup: {0}", cleanup)
+                    previous_scope = self._current_scope
+                    self._current_scope = scope
+                    try:
+                        cleanup()
+                    finally:
+                        self._current_scope = previous_scope
+            except skip_types:
+                pass # already added to the result
+            except BaseException as e:  # pylint: disable=broad-except
+                if exc_info is None or isinstance(exc_info[1], Exception):
+                    exc_info = sys.exc_info()
+                in_interruption = in_interruption or isinstance(e, INTERRUPTION_EXCEPTIONS)
+
+        if exc_info is not None:
+            reraise(*exc_info)
 
 
 
-- 
2.43.0


From 8a6b62e2c733c2a6ded7f900c9fb3f85325827e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 02/79] fix: close the remaining scopes after an interrupted
 cleanup

call_all_raise_first stopped at the first KeyboardInterrupt, so that session-scoped critical cleanups never ran when a
module-scoped one was interrupted. It now also raises the first exception as it says.
---
 slash/utils/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/utils/python.py b/slash/utils/python.py
index 8db6109..2f1bd23 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -103,8 +103,9 @@ def call_all_raise_first(_funcs, *args, **kwargs):
     for func in _funcs:
         try:
             func(*args, **kwargs)
-        except Exception:  # pylint: disable=broad-except
-            exc_info = sys.exc_info()
+        except BaseException:  # pylint: disable=broad-except
+            if exc_info is None:
+                exc_info = sys.exc_info()
     if exc_info is not None:
         reraise(*exc_info)
 
-- 
2.43.0


From a7102e560c665754ccebfdd3c1ace1b9121c4074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 03/79] fix: exit code of an unsuccessful session is not zero
 after sys.exit(0) in a test

---
 slash/app.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/app.py b/slash/app.py
index e885f55..1953141 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -145,6 +145,8 @@ class Application(object):
             _logger.error("Failed to debug_if_needed: {!r}", e, exc_info=True, extra={'capture': False})
         if exc_value is not None:
             self._exit_code = exc_value.code if isinstance(exc_value, SystemExit) else 1
+            if not self._exit_code and self.session is not None and not self.session.results.is_success(allow_skips=True):
+                self._exit_code = 1
 
             if should_inhibit_unhandled_exception_traceback(exc_value):
                 self.get_reporter().report_error_message(str(exc_value))
-- 
2.43.0


From 6cddc1b2e2efada2c0da228ee234f7076e34fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 04/79] fix: honor all exclusions given for the same parameter

---
 slash/core/exclusions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slash/core/exclusions.py b/slash/core/exclusions.py
index d64db83..e89f872 100644
--- a/slash/core/exclusions.py
+++ b/slash/core/exclusions.py
@@ -36,8 +36,7 @@ def is_excluded(test):
     for entity_func, exclusions in dict(list(fixture_exclusions.items()) + list(test_exclusions.items())).items():
         if not exclusions:
             continue
-        exclusions = dict(exclusions)
-        for parameter_names, value_sets in exclusions.items():
+        for parameter_names, value_sets in exclusions:
             params = []
             values = []
             for parameter_name in parameter_names:
-- 
2.43.0


From bf8d0741be7e569104729118b3f5606600ea1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 05/79] fix: do not change the tags of a base class when
 tagging a derived class, and inherit the tags of all bases

---
 slash/core/tagging.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/slash/core/tagging.py b/slash/core/tagging.py
index e2972c2..a12b25f 100644
--- a/slash/core/tagging.py
+++ b/slash/core/tagging.py
@@ -22,12 +22,13 @@ class Tagger(object):
 
 def tag_test(test, tag_name, tag_value):
     tags = get_tags(test)
-    if tags is NO_TAGS:
-        tags = Tags()
-        setattr(test, _TAGS_NAME, tags)
-    if tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):
+    if tags is not NO_TAGS and tags.get(tag_name, NOTHING) not in (tag_value, NOTHING):
         raise TaggingConflict("Tag {} is already set on {}".format(tag_name, test))
-    tags[tag_name] = tag_value
+    own_tags = vars(test).get(_TAGS_NAME)
+    if own_tags is None:
+        own_tags = Tags()
+        setattr(test, _TAGS_NAME, own_tags)
+    own_tags[tag_name] = tag_value
     return test
 
 
@@ -38,6 +39,11 @@ def tag(tag_name, tag_value=NOTHING):
 
 
 def get_tags(test):
+    if isinstance(test, type):
+        returned = NO_TAGS
+        for cls in test.__mro__:
+            returned += vars(cls).get(_TAGS_NAME, NO_TAGS)
+        return returned
     return getattr(test, _TAGS_NAME, NO_TAGS)
 
 
-- 
2.43.0


From 2697b159fbb98900eb6d8ee2bfe5710404c43246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 06/79] fix: inherit requirements of all base classes

---
 slash/core/requirements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/core/requirements.py b/slash/core/requirements.py
index d1a41a0..8aa720b 100644
--- a/slash/core/requirements.py
+++ b/slash/core/requirements.py
@@ -41,6 +41,9 @@ def _get_requirements_list(thing, create=True):
 
 
 def get_requirements(test):
+    if isinstance(test, type):
+        reqs = [req for cls in test.__mro__ for req in _get_requirements_list(cls, create=False)]
+        return list(dict.fromkeys(reqs))
     return list(_get_requirements_list(test, create=False))
 
 
-- 
2.43.0


From 9c80cb1c19cf627ba876d32cd448be226dacfdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 07/79] fix: link real traceback objects in spliced tracebacks

The interpreter follows tb_next assuming traceback objects, and crashed when it met a TracebackProxy.
---
 slash/utils/traceback_proxy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/slash/utils/traceback_proxy.py b/slash/utils/traceback_proxy.py
index 6d7b333..39e6b43 100644
--- a/slash/utils/traceback_proxy.py
+++ b/slash/utils/traceback_proxy.py
@@ -95,6 +95,9 @@ else:
 
             assert tb is None or isinstance(tb, types.TracebackType) or isinstance(tb, TracebackProxy)
             if tb:
+                if type(tb) is TracebackProxy:
+                    # the interpreter follows the chain, so it must consist of actual traceback objects
+                    tb = tb._tb # pylint: disable=protected-access
                 obj = TracebackProxy._Traceback.from_address(id(tb)) # pylint: disable=no-member
                 obj.ob_refcnt += 1
                 self._obj.tb_next = ctypes.pointer(obj)
@@ -166,16 +169,18 @@ else:
                 first = current = TracebackProxy(tb=tb)
                 tb = tb.tb_next
             while tb:
-                current.tb_next = TracebackProxy(tb=tb)
+                following = TracebackProxy(tb=tb)
+                current.tb_next = following
                 tb = tb.tb_next
-                current = current.tb_next
+                current = following
         else:
             frame_correction += 1 # Compensate this call frame
             frames = [frame_info[0] for frame_info in inspect.stack()[frame_correction:]]
             frames.reverse()
             first = current = TracebackProxy(frame=frames[0])
             for frame in frames[1:]:
-                current.tb_next = TracebackProxy(frame=frame)
-                current = current.tb_next
+                following = TracebackProxy(frame=frame)
+                current.tb_next = following
+                current = following
 
         return (first, current)
-- 
2.43.0


From da1590405c91b01412747036405c29344029ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 08/79] fix: session end hooks and the final report happen even
 if a session cleanup or an end hook is interrupted

---
 slash/core/session.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/slash/core/session.py b/slash/core/session.py
index 37c1bf2..0c672b8 100644
--- a/slash/core/session.py
+++ b/slash/core/session.py
@@ -1,3 +1,4 @@
+import functools
 import itertools
 import sys
 import socket
@@ -12,6 +13,7 @@ from ..interfaces import Activatable
 from ..reporting.null_reporter import NullReporter
 from ..utils.id_space import IDSpace
 from ..utils.interactive import notify_if_slow_context
+from ..utils.python import call_all_raise_first
 from ..warnings import SessionWarnings
 from .fixtures.fixture_store import FixtureStore
 from .result import SessionResults
@@ -133,15 +135,20 @@ class Session(Activatable):
             self._started = False
             self.end_time = time.time()
 
-            with handling_exceptions():
-                self.cleanups.pop_scope('session-global')
-
-            if session_start_called:
-                with handling_exceptions():
-                    hooks.session_end()  # pylint: disable=no-member
-                with handling_exceptions():
-                    hooks.after_session_end()  # pylint: disable=no-member
-            self.reporter.report_session_end(self)
+            try:
+                call_all_raise_first(self._iter_end_steps(session_start_called))
+            finally:
+                self.reporter.report_session_end(self)
+
+    def _iter_end_steps(self, session_start_called):
+        yield functools.partial(self._call_handled, self.cleanups.pop_scope, 'session-global')
+        if session_start_called:
+            yield functools.partial(self._call_handled, hooks.session_end)  # pylint: disable=no-member
+            yield functools.partial(self._call_handled, hooks.after_session_end)  # pylint: disable=no-member
+
+    def _call_handled(self, func, *args):
+        with handling_exceptions():
+            func(*args)
 
     def initiate_cleanup(self):
         if not self.scope_manager.has_active_scopes():
-- 
2.43.0


From 99463c6cf8c4a30b65ab3eab20e2ea20d0444a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 09/79] fix: session results report interruptions outside tests

---
 slash/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/core/result.py b/slash/core/result.py
index 856631a..54a417c 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -381,7 +381,7 @@ class SessionResults(object):
     def is_interrupted(self):
         """Indicates if this session was interrupted
         """
-        return any(result.is_interrupted() for result in self._iterator())
+        return any(result.is_interrupted() for result in self.iter_all_results())
 
     def get_num_results(self):
         return len(self._results_dict)
-- 
2.43.0


From c8f7a69bf3e84afbca0bee82d8c746f2376df993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 10/79] fix: verbose console reports skips recorded outside
 tests

---
 slash/reporting/console_reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index d3a223d..e7a0c52 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -393,7 +393,10 @@ class ConsoleReporter(ReporterInterface):
     def report_test_skip_added(self, test, reason):
         self._file_has_skips = True
         if self._verobsity_allows(VERBOSITIES.NOTICE):
-            self._terminal.write('Skipped: {}, Test: {}\n'.format(reason, test.__slash__), **theme('test-skip-message'))
+            msg = 'Skipped: {}'.format(reason)
+            if test is not None:
+                msg += ', Test: {}'.format(test.__slash__)
+            self._terminal.write(msg + '\n', **theme('test-skip-message'))
         else:
             self._terminal.write('s', yellow=True)
 
-- 
2.43.0


From a668dab751e158623e8f10504f29b0dd29b94af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 11/79] fix: requirements and tags of fixtures used by methods
 through use_fixtures, before and after

---
 slash/core/test.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/slash/core/test.py b/slash/core/test.py
index d2bb14f..6394505 100644
--- a/slash/core/test.py
+++ b/slash/core/test.py
@@ -92,8 +92,14 @@ class Test(RunnableTest):
         cls.__slash_skipped_reason__ = reason
 
     def get_required_fixture_objects(self):
-        method = self.get_test_function()
-        return self._fixture_store.get_required_fixture_objects(method, namespace=self._fixture_namespace)
+        returned = set()
+        for method in (self.get_test_function(), self.before, self.after):
+            if nofixtures.is_marked(method):
+                continue
+            returned.update(self._fixture_store.get_required_fixture_objects(method, namespace=self._fixture_namespace))
+            returned.update(self._fixture_store.get_fixture_by_name(name, namespace=self._fixture_namespace)
+                            for name in getattr(method, '__extrafixtures__', ()))
+        return returned
 
     def get_address_in_factory(self):
         returned = ''
-- 
2.43.0


From 6df825cce3b38ecbc57a3d1c4a9eb903f2fa1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 12/79] fix: exclusions on autouse fixtures, use_fixtures and
 fixtures of fixtures were ignored

---
 slash/core/exclusions.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/slash/core/exclusions.py b/slash/core/exclusions.py
index e89f872..814f6c0 100644
--- a/slash/core/exclusions.py
+++ b/slash/core/exclusions.py
@@ -26,14 +26,11 @@ def exclude(names, values):
 
 def is_excluded(test):
     test_func = test.get_test_function()
+    entities = [(test_func, test.get_fixture_namespace())]
     if not nofixtures.is_marked(test_func):
-        fixture_funcs = {fixture.fixture_func for fixture in test.get_required_fixture_objects()}
-        fixture_exclusions = {fixture_func: markers.exclude_marker.get_value(fixture_func, default=None)
-                              for fixture_func in fixture_funcs}
-    else:
-        fixture_exclusions = {}
-    test_exclusions = {test_func: markers.exclude_marker.get_value(test_func, default=None)}
-    for entity_func, exclusions in dict(list(fixture_exclusions.items()) + list(test_exclusions.items())).items():
+        entities.extend((fixture.fixture_func, fixture.namespace) for fixture in _iter_all_fixtures(test))
+    for entity_func, namespace in entities:
+        exclusions = markers.exclude_marker.get_value(entity_func, default=None)
         if not exclusions:
             continue
         for parameter_names, value_sets in exclusions:
@@ -41,7 +38,7 @@ def is_excluded(test):
             values = []
             for parameter_name in parameter_names:
                 param = context.session.fixture_store.resolve_name(parameter_name, start_point=entity_func,
-                                                                   namespace=test.get_fixture_namespace())
+                                                                   namespace=namespace)
                 if not isinstance(param, Parametrization):
                     raise UnknownFixtures('{!r} is not a parameter, and therefore cannot be the base for value exclusions'.format(parameter_name))
                 params.append(param)
@@ -55,3 +52,20 @@ def is_excluded(test):
             if tuple(values) in value_sets:
                 return True
     return False
+
+
+def _iter_all_fixtures(test):
+    """Iterates over all fixtures used by a test, including autouse fixtures and fixtures required by other fixtures
+    """
+    visited = set()
+    stack = list(test.get_required_fixture_objects())
+    stack.extend(context.session.fixture_store.get_fixture_by_name(name, namespace=test.get_fixture_namespace())
+                 for name in getattr(test.get_test_function(), '__extrafixtures__', ()))
+    stack.extend(context.session.fixture_store.iter_autouse_fixtures_in_namespace(test.get_fixture_namespace()))
+    while stack:
+        fixture = stack.pop()
+        if fixture in visited:
+            continue
+        visited.add(fixture)
+        yield fixture
+        stack.extend(needed for needed in fixture.keyword_arguments.values() if needed.is_fixture())
-- 
2.43.0


From 372e3fe367c7e27fc74aeca3e552f9288fb405eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 13/79] fix: fixtures of slashconf files are resolved from the
 directory defining them

---
 slash/core/local_config.py | 15 ++++++++++-----
 slash/loader.py            | 15 ++++++++++++---
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/slash/core/local_config.py b/slash/core/local_config.py
index 13ffa6e..b1a1772 100644
--- a/slash/core/local_config.py
+++ b/slash/core/local_config.py
@@ -18,7 +18,15 @@ class LocalConfig(object):
         self._configs.pop(-1)
 
     def get_dict(self):
-        return self._configs[-1]
+        returned = {}
+        for slashconf_vars in self.iter_dicts():
+            returned.update(slashconf_vars)
+        return returned
+
+    def iter_dicts(self):
+        """Iterates over the variables of each slashconf file relevant for the current path, outermost directory first
+        """
+        return iter(self._configs[-1])
 
     def _iter_slashconf_paths(self, dir_path):
         slashconf_path = os.path.join(dir_path, 'slashconf.py')
@@ -50,11 +58,8 @@ class LocalConfig(object):
                 confstack.append(slashconf_vars)
                 self._slashconf_vars_cache[dir_path] = slashconf_vars
 
-        returned = {}
         # start loading from the parent so that vars are properly overriden
-        for slashconf_vars in reversed(confstack):
-            returned.update(slashconf_vars)
-        return returned
+        return confstack[::-1]
 
     def _traverse_upwards(self, path):
         path = os.path.abspath(path)
diff --git a/slash/loader.py b/slash/loader.py
index c22e50a..e46da5a 100644
--- a/slash/loader.py
+++ b/slash/loader.py
@@ -3,7 +3,7 @@ import traceback
 import os
 import sys
 from types import FunctionType, GeneratorType
-from contextlib import contextmanager
+from contextlib import contextmanager, ExitStack
 
 import dessert
 from emport import import_file
@@ -214,8 +214,17 @@ class Loader(object):
         with context.session.fixture_store.new_namespace_context():
             self._local_config.push_path(os.path.dirname(file_path))
             try:
-                context.session.fixture_store.add_fixtures_from_dict(
-                    self._local_config.get_dict())
+                # fixtures look up what they need starting from the directory defining them, regardless of the file loaded first
+                fixtures = {}
+                with ExitStack() as stack:
+                    for slashconf_vars in self._local_config.iter_dicts():
+                        stack.enter_context(context.session.fixture_store.new_namespace_context())
+                        context.session.fixture_store.add_fixtures_from_dict(slashconf_vars)
+                        for thing in slashconf_vars.values():
+                            fixture_info = getattr(thing, '__slash_fixture__', None)
+                            if fixture_info is not None:
+                                fixtures[fixture_info.name] = thing
+                context.session.fixture_store.add_fixtures_from_dict(fixtures)
                 with context.session.fixture_store.new_namespace_context():
                     context.session.fixture_store.add_fixtures_from_dict(
                         vars(module))
-- 
2.43.0


From d9ea62dc48720e60bd0b2da5a4d24dd08b6a65a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 14/79] fix: label parameter values tagged without a label by
 their index

---
 slash/core/variation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slash/core/variation.py b/slash/core/variation.py
index 612c21f..91878f5 100644
--- a/slash/core/variation.py
+++ b/slash/core/variation.py
@@ -2,6 +2,7 @@ from numbers import Number
 import string
 import json
 import logbook
+from sentinels import NOTHING
 from .tagging import Tags
 
 _PRINTABLE_TYPES = (Number, str)
@@ -40,7 +41,8 @@ class Variation(object):
         for param_name, param in param_name_bindings.items():
             value_index = self.id[param_name] = param_value_indices[param.info.id]
             self.values[param_name] = param.get_value_by_index(value_index)
-            self.labels[param_name] = param.values[value_index].label
+            label = param.values[value_index].label
+            self.labels[param_name] = value_index if label is NOTHING else label
             self.tags.update(param.get_tags_by_index(value_index))
         self.safe_repr = self._get_safe_repr()
 
-- 
2.43.0


From 59d43c0c1281fe3c4e175037eda81e61f8cc6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:11 +0000
Subject: [PATCH 15/79] fix: repeat: on a nested suite file was ignored

---
 slash/utils/suite_files.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/slash/utils/suite_files.py b/slash/utils/suite_files.py
index 774ed95..f971e61 100644
--- a/slash/utils/suite_files.py
+++ b/slash/utils/suite_files.py
@@ -22,13 +22,14 @@ def iter_suite_file_paths(suite_files):
                 if not os.path.isabs(path):
                     path = os.path.relpath(os.path.join(dirname, path))
 
-                if not path.endswith('.py') and '.py:' not in path and not os.path.isdir(path):
-                    for p, other_filter in iter_suite_file_paths([path]):
-                        yield p, _and_matchers(suite_entry.matcher, other_filter)
-                    continue
+                is_suite_file = not path.endswith('.py') and '.py:' not in path and not os.path.isdir(path)
 
                 for _ in range(suite_entry.repeat):
-                    yield path, suite_entry.matcher
+                    if is_suite_file:
+                        for p, other_filter in iter_suite_file_paths([path]):
+                            yield p, _and_matchers(suite_entry.matcher, other_filter)
+                    else:
+                        yield path, suite_entry.matcher
 
 
 def _extract_suite_files(suite_files):
-- 
2.43.0


From 4550fa826e6d11ad8e98a0e96e2bc2165b5632ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:11 +0000
Subject: [PATCH 16/79] fix: suite files in subdirectories of a suite directory
 were read more than once

---
 slash/utils/suite_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/utils/suite_files.py b/slash/utils/suite_files.py
index f971e61..67b14b7 100644
--- a/slash/utils/suite_files.py
+++ b/slash/utils/suite_files.py
@@ -35,7 +35,7 @@ def iter_suite_file_paths(suite_files):
 def _extract_suite_files(suite_files):
     for entity in suite_files:
         if Path(entity).is_dir():
-            yield from _extract_suite_files(Path(entity).rglob("*"))
+            yield from sorted(path for path in Path(entity).rglob("*") if path.is_file())
         else:
             yield entity
 
-- 
2.43.0


From b6b175569a68c128625563a3edd196d8e27227c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 17/79] fix: filter words starting with not- or not. were
 parsed as negations

---
 slash/utils/pattern_matching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/utils/pattern_matching.py b/slash/utils/pattern_matching.py
index b05c613..17c0b30 100644
--- a/slash/utils/pattern_matching.py
+++ b/slash/utils/pattern_matching.py
@@ -67,14 +67,15 @@ class Exclude(object):
         return not self.matcher.matches(metadata)
 
 
-word = Word(alphanums + "._,-=/:")
+WORD_CHARS = alphanums + "._,-=/:"
+word = Word(WORD_CHARS)
 matcher = Literal("tag:") + ZeroOrMore(" ") + word | word
 matcher.setParseAction(Include)
 
 bool_expr = infixNotation(  # pylint: disable=too-many-function-args
     matcher,
     [
-        (Keyword("not"), 1, opAssoc.RIGHT, Exclude),
+        (Keyword("not", WORD_CHARS), 1, opAssoc.RIGHT, Exclude),
         ("and", 2, opAssoc.LEFT, AndMatching.from_tokens),
         ("or", 2, opAssoc.LEFT, OrMatching.from_tokens),
     ],
-- 
2.43.0


From 9f640883102b2c772bc8cfebe07691f58fbb7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 18/79] fix: slash list reported fixtures used through other
 fixtures or use_fixtures as unused

---
 slash/frontend/slash_list.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/slash/frontend/slash_list.py b/slash/frontend/slash_list.py
index 1041a91..3e57478 100644
--- a/slash/frontend/slash_list.py
+++ b/slash/frontend/slash_list.py
@@ -68,9 +68,7 @@ def slash_list(args, report_stream=sys.stdout, error_stream=sys.stderr):
 
             loader = slash.loader.Loader()
             runnables = loader.get_runnables(itertools.chain(parsed_args.paths, iter_suite_file_paths(parsed_args.suite_files)))
-            used_fixtures = set()
-            for test in runnables:
-                used_fixtures.update(test.get_required_fixture_objects())
+            used_fixtures = _get_used_fixtures(session.fixture_store, runnables)
 
             if parsed_args.only in (None, 'fixtures'):
                 _report_fixtures(parsed_args, session, _print, used_fixtures)
@@ -89,6 +87,23 @@ def slash_list(args, report_stream=sys.stdout, error_stream=sys.stderr):
     return int(not parsed_args.allow_empty)
 
 
+def _get_used_fixtures(store, runnables):
+    pending = []
+    for test in runnables:
+        namespace = test.get_fixture_namespace()
+        pending.extend(test.get_required_fixture_objects())
+        pending.extend(store.get_fixture_by_name(name, namespace=namespace)
+                       for name in getattr(test.get_test_function(), '__extrafixtures__', ()))
+        pending.extend(store.iter_autouse_fixtures_in_namespace(namespace))
+    returned = set()
+    while pending:
+        fixture = pending.pop()
+        if fixture not in returned:
+            returned.add(fixture)
+            pending.extend((fixture.keyword_arguments or {}).values())
+    return returned
+
+
 def _report_tests(args, runnables, printer):
     if not args.only:
         printer(_heading_style('Tests'))
-- 
2.43.0


From 17d97e9dc4cfc84f9788dea0442049a77e455409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 19/79] fix: slash list --no-params truncated addresses of
 files whose path contains a parenthesis

---
 slash/frontend/slash_list.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/slash/frontend/slash_list.py b/slash/frontend/slash_list.py
index 3e57478..3db3ba2 100644
--- a/slash/frontend/slash_list.py
+++ b/slash/frontend/slash_list.py
@@ -112,9 +112,12 @@ def _report_tests(args, runnables, printer):
 
     for runnable in runnables:
         extra = "" if not args.show_tags else "  Tags: {}".format(list(runnable.get_tags()))
-        address = runnable.__slash__.address
-        if not args.show_params:
-            address = address.split('(')[0]
+        metadata = runnable.__slash__
+        address = metadata.address
+        if not args.show_params and metadata.variation:
+            params = '({})'.format(metadata.variation.safe_repr)
+            if address.endswith(params):
+                address = address[:-len(params)]
         if args.relative_paths:
             address = _convert_address_to_relpath(address)
         if address in visited and not args.show_duplicates:
-- 
2.43.0


From be1e2a524601498f39dd84859267e8baf75aa9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:27 +0000
Subject: [PATCH 20/79] fix: an empty suite file made slash run fall back to
 the default sources

---
 slash/frontend/slash_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/frontend/slash_run.py b/slash/frontend/slash_run.py
index 978b977..7d35760 100644
--- a/slash/frontend/slash_run.py
+++ b/slash/frontend/slash_run.py
@@ -104,7 +104,7 @@ def _collect_tests(app, args):  # pylint: disable=unused-argument
 
     paths = _extend_paths_from_suite_files(paths)
 
-    if not paths and not app.parsed_args.interactive:
+    if not paths and not config.root.run.suite_files and not app.parsed_args.interactive:
         paths = config.root.run.default_sources
 
     if not paths and not app.parsed_args.interactive:
-- 
2.43.0


From c3235d2e33863f7da9776ee695c45a6705be50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 21/79] fix: slash list ignored suite files given by the
 configuration

---
 slash/frontend/slash_list.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/slash/frontend/slash_list.py b/slash/frontend/slash_list.py
index 3db3ba2..61211d6 100644
--- a/slash/frontend/slash_list.py
+++ b/slash/frontend/slash_list.py
@@ -58,16 +58,17 @@ def slash_list(args, report_stream=sys.stdout, error_stream=sys.stderr):
                      enable_color=parsed_args.enable_color, error_stream=error_stream)
     try:
         slash.site.load()
+        suite_files = config.root.run.suite_files + parsed_args.suite_files
         with slash.Session() as session:
 
-            if not parsed_args.paths and not parsed_args.suite_files:
+            if not parsed_args.paths and not suite_files:
                 parsed_args.paths = config.root.run.default_sources
 
-            if not parsed_args.paths and not parsed_args.suite_files:
+            if not parsed_args.paths and not suite_files:
                 parser.error('Neither test paths nor suite files were specified')
 
             loader = slash.loader.Loader()
-            runnables = loader.get_runnables(itertools.chain(parsed_args.paths, iter_suite_file_paths(parsed_args.suite_files)))
+            runnables = loader.get_runnables(itertools.chain(parsed_args.paths, iter_suite_file_paths(suite_files)))
             used_fixtures = _get_used_fixtures(session.fixture_store, runnables)
 
             if parsed_args.only in (None, 'fixtures'):
-- 
2.43.0


From c4aee4abee17f447ce8028abb3b14ceb33f06832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 22/79] fix: fixtures of slashconf files overridden further
 down were listed as overrides

---
 slash/loader.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/slash/loader.py b/slash/loader.py
index e46da5a..cd77c9e 100644
--- a/slash/loader.py
+++ b/slash/loader.py
@@ -211,27 +211,27 @@ class Loader(object):
 
     @contextmanager
     def _adding_local_fixtures(self, file_path, module):
-        with context.session.fixture_store.new_namespace_context():
-            self._local_config.push_path(os.path.dirname(file_path))
-            try:
-                # fixtures look up what they need starting from the directory defining them, regardless of the file loaded first
-                fixtures = {}
-                with ExitStack() as stack:
-                    for slashconf_vars in self._local_config.iter_dicts():
-                        stack.enter_context(context.session.fixture_store.new_namespace_context())
-                        context.session.fixture_store.add_fixtures_from_dict(slashconf_vars)
-                        for thing in slashconf_vars.values():
-                            fixture_info = getattr(thing, '__slash_fixture__', None)
-                            if fixture_info is not None:
-                                fixtures[fixture_info.name] = thing
+        self._local_config.push_path(os.path.dirname(file_path))
+        try:
+            # fixtures look up what they need starting from the directory defining them, regardless of the file loaded first
+            fixtures = {}
+            with ExitStack() as stack:
+                for slashconf_vars in self._local_config.iter_dicts():
+                    stack.enter_context(context.session.fixture_store.new_namespace_context())
+                    context.session.fixture_store.add_fixtures_from_dict(slashconf_vars)
+                    for thing in slashconf_vars.values():
+                        fixture_info = getattr(thing, '__slash_fixture__', None)
+                        if fixture_info is not None:
+                            fixtures[fixture_info.name] = thing
+            with context.session.fixture_store.new_namespace_context():
                 context.session.fixture_store.add_fixtures_from_dict(fixtures)
                 with context.session.fixture_store.new_namespace_context():
                     context.session.fixture_store.add_fixtures_from_dict(
                         vars(module))
                     context.session.fixture_store.resolve()
                     yield
-            finally:
-                self._local_config.pop_path()
+        finally:
+            self._local_config.pop_path()
 
 
     def _is_excluded(self, test):
-- 
2.43.0


From 6190dd9dd022f462e57d65fe3fb5a15a4bac42be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 23/79] fix: a plugin whose activation failed midway left
 callbacks registered

---
 slash/plugins/plugin_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 6d5a97e..a1e8798 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -217,8 +217,12 @@ class PluginManager(object):
         if self._is_parallel_supported(plugin):
             _logger.warn("Activating plugin {} though it's configuration for parallel mode doesn't fit to current session".format(plugin.get_name()))
         plugin.activate()
-        for hook, callback, kwargs in self._get_plugin_registrations(plugin):
-            hook.register(callback, **kwargs)
+        try:
+            for hook, callback, kwargs in self._get_plugin_registrations(plugin):
+                hook.register(callback, **kwargs)
+        except Exception:
+            gossip.get_global_group().unregister_token(self._get_token(plugin_name))
+            raise
         self._active.add(plugin_name)
 
     def activate_later(self, plugin):
-- 
2.43.0


From 2f5ad9489f8aae771ad0432c311d08bb3f9caaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 24/79] fix: activating an active plugin registered its
 callbacks again

---
 slash/plugins/plugin_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index a1e8798..eb65ec4 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -214,6 +214,8 @@ class PluginManager(object):
         """
         plugin = self._get_installed_plugin(plugin)
         plugin_name = plugin.get_name()
+        if plugin_name in self._active:
+            return
         if self._is_parallel_supported(plugin):
             _logger.warn("Activating plugin {} though it's configuration for parallel mode doesn't fit to current session".format(plugin.get_name()))
         plugin.activate()
-- 
2.43.0


From 74f4c012c558246df3d2ad8906c9f48f2af647de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 25/79] fix: the session_start placeholder of plugins without
 that hook outlived them and provided nothing

---
 slash/plugins/plugin_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index eb65ec4..7b32c2c 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -410,7 +410,11 @@ class PluginManager(object):
 
         if has_session_end and not has_session_start:
             hook = gossip.get_hook('slash.session_start')
-            returned.append((hook, lambda: None, {'toggles_on': plugin.__toggles__['session']}))
+            returned.append((hook, lambda: None, {
+                'toggles_on': plugin.__toggles__['session'],
+                'provides': global_provides,
+                'token': self._get_token(plugin_name),
+            }))
             register_no_op_hooks.discard(hook.full_name)
 
         for hook_name in register_no_op_hooks:
-- 
2.43.0


From 938d32fcab9f6581990d668ffa61503512afa8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 26/79] fix: installing another plugin under the name of an
 active one left the callbacks of the first registered

---
 slash/plugins/plugin_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 7b32c2c..e032bca 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -148,6 +148,9 @@ class PluginManager(object):
         if any(char in plugin_name for char in _DEPRECATED_CHARACTERS):
             warn_deprecation("In the future, dashes and underscore will not be allowed in plugin names - "
                              "spaces should be used instead (plugin name: {!r})".format(plugin_name))
+        previous = self._installed.get(plugin_name)
+        if previous is not None and previous.plugin_instance is not plugin:
+            self.deactivate(previous.plugin_instance)
         self._configure(plugin)
         self._installed[plugin_name] = PluginInfo(plugin, is_internal)
         self._cmd_line_to_name[self.normalize_command_line_name(plugin_name)] = plugin_name
-- 
2.43.0


From ff2890bf7e6687afa43ace31ca19abe7279adb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 27/79] fix: uninstalling a plugin left it pending activation

---
 slash/plugins/plugin_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index e032bca..a7b1274 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -196,6 +196,8 @@ class PluginManager(object):
         self._unconfigure(plugin)
         plugin_name = plugin.get_name()
         self._installed.pop(plugin_name)
+        self._pending_activation.discard(plugin_name)
+        self._pending_deactivation.discard(plugin_name)
         cmd_name = self.normalize_command_line_name(plugin_name)
         self._cmd_line_to_name.pop(cmd_name, None)
         config_name = self.normalize_config_name(plugin_name)
-- 
2.43.0


From 7483256b12245fe2d69228c8350d8b402a123c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 28/79] fix: needs and provides of a derived plugin class were
 added to its base class as well

---
 slash/utils/marks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/slash/utils/marks.py b/slash/utils/marks.py
index caac9c6..35da05c 100644
--- a/slash/utils/marks.py
+++ b/slash/utils/marks.py
@@ -28,11 +28,12 @@ def _set_marks(obj, marks):
     return marks
 
 def _mark(obj, name, value, append):
-    marks = _get_marks(obj)
+    marks = getattr(obj, '__dict__', {}).get(_MARKS_CONTAINER_ATTR)
     if marks is None:
-        marks = _set_marks(obj, {})
+        # marks inherited from a base class are not to be changed
+        marks = _set_marks(obj, dict(_get_marks(obj) or {}))
     if append:
-        marks.setdefault(name, []).append(value)
+        marks[name] = marks.get(name, []) + [value]
     else:
         marks[name] = value
     return obj
-- 
2.43.0


From 9e0b47692b51fbff06c9203e99a896626d97736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 29/79] fix: restoring plugins did not restore the one replaced
 by another of the same name, nor whether it was internal

---
 slash/plugins/plugin_manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index a7b1274..97e836c 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -49,14 +49,15 @@ class PluginManager(object):
         try:
             yield
         finally:
+            for name, plugin_info in list(self._installed.items()):
+                if previous_installed.get(name) != plugin_info:
+                    self.uninstall(plugin_info.plugin_instance)
+            for name in self._active - set(previous_active):
+                self.deactivate(name)
             for name in set(previous_installed) - set(self._installed):
-                self.install(previous_installed[name].plugin_instance)
+                self.install(previous_installed[name].plugin_instance, is_internal=previous_installed[name].is_internal)
             for name in set(previous_active) - self._active:
                 self.activate(name)
-            for name in self._active - set(previous_active):
-                self.deactivate(name)
-            for name in set(self._installed) - set(previous_installed):
-                self.uninstall(name)
 
 
     def discover(self):
-- 
2.43.0


From 129e7138e9df7cba110c889f3a6202d4737d94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:57 +0000
Subject: [PATCH 30/79] fix: session_start of plugins without session_end was
 called in the first session only

---
 slash/plugins/plugin_manager.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/slash/plugins/plugin_manager.py b/slash/plugins/plugin_manager.py
index 97e836c..3389221 100644
--- a/slash/plugins/plugin_manager.py
+++ b/slash/plugins/plugin_manager.py
@@ -414,10 +414,12 @@ class PluginManager(object):
 
                 returned.append((hook, method, kwargs))
 
-        if has_session_end and not has_session_start:
-            hook = gossip.get_hook('slash.session_start')
+        if has_session_end != has_session_start:
+            # plugins with only one of the two hooks still need both in order to keep track of their toggle
+            missing, toggle = ('session_start', 'toggles_on') if has_session_end else ('session_end', 'toggles_off')
+            hook = gossip.get_hook('slash.{}'.format(missing))
             returned.append((hook, lambda: None, {
-                'toggles_on': plugin.__toggles__['session'],
+                toggle: plugin.__toggles__['session'],
                 'provides': global_provides,
                 'token': self._get_token(plugin_name),
             }))
-- 
2.43.0


From 51536a8219b0804bf8b845a12f488221203b4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 31/79] fix: plugins in plugins.search_paths were never loaded

---
 slash/site.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slash/site.py b/slash/site.py
index cf1715b..f1d8290 100644
--- a/slash/site.py
+++ b/slash/site.py
@@ -22,6 +22,7 @@ def _load_defaults(working_directory=None):
     _load_local_slashrc(working_directory=working_directory)
     _load_environment()
     _load_entry_points()
+    _discover_plugins()
 
 def _load_slashrc():
     user_customization_file_path = config.root.run.user_customization_file_path
@@ -59,6 +60,10 @@ def _load_entry_points():
         func = customize_function_loader.load()
         func()
 
+def _discover_plugins():
+    from . import plugins
+    plugins.manager.discover()
+
 def _load_filename_or_url(filename_or_url):
     if os.path.isfile(filename_or_url):
         _load_filename(filename_or_url)
-- 
2.43.0


From c4d77c4a9f2c40b59affe395983478b6ff4b5d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 32/79] fix: overriding a configuration branch with -o left
 other overrides in effect after the run

---
 slash/utils/cli_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/utils/cli_utils.py b/slash/utils/cli_utils.py
index 25cd87a..cd013d1 100644
--- a/slash/utils/cli_utils.py
+++ b/slash/utils/cli_utils.py
@@ -84,6 +84,8 @@ def get_modified_configuration_from_args_context(parser, args, config=None):
             if "=" not in override:
                 parser.error("Invalid config override: {}".format(override))
             path, _ = override.split("=", 1)
+            if not config.get_config(path).is_leaf():
+                parser.error("Invalid config override: {}".format(override))
             to_restore.append((path, config.get_path(path)))
             try:
                 config.assign_path_expression(override, deduce_type=True, default_type=str)
-- 
2.43.0


From 54a07a4c6c2d8658c42b0a459059d45ffc0cdc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 33/79] fix: uninstalling a plugin during a run with
 command-line overrides of its configuration failed the run and left the other
 overrides in effect

---
 slash/utils/cli_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slash/utils/cli_utils.py b/slash/utils/cli_utils.py
index cd013d1..181f967 100644
--- a/slash/utils/cli_utils.py
+++ b/slash/utils/cli_utils.py
@@ -5,6 +5,7 @@ import sys
 from contextlib import contextmanager
 
 import colorama
+from confetti.exceptions import InvalidPath
 
 from .. import conf, plugins
 
@@ -94,7 +95,11 @@ def get_modified_configuration_from_args_context(parser, args, config=None):
         yield
     finally:
         for path, prev_value in reversed(to_restore):
-            config.assign_path(path, prev_value)
+            try:
+                config.assign_path(path, prev_value)
+            except InvalidPath:
+                # no longer there, e.g. because its plugin was uninstalled
+                pass
 
 class SlashArgumentParser(argparse.ArgumentParser):
 
-- 
2.43.0


From d28072123569b6d09e9cd0e2bc76bb85bc8bde4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:22 +0000
Subject: [PATCH 34/79] fix: an error while reporting an aborted run skipped
 its cleanup, leaving command-line overrides in effect

---
 slash/app.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/slash/app.py b/slash/app.py
index 1953141..2f30cf7 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -139,6 +139,17 @@ class Application(object):
 
     def __exit__(self, exc_type, exc_value, exc_tb):
         exc_info = (exc_type, exc_value, exc_tb)
+        try:
+            self._report_exit(exc_info)
+        finally:
+            self._exit_stack.__exit__(exc_type, exc_value, exc_tb)
+            self._exit_stack = None
+            self._reset_parser()
+        trigger_hook.app_quit()  # pylint: disable=no-member
+        return True
+
+    def _report_exit(self, exc_info):
+        exc_type, exc_value, _ = exc_info
         try:
             debug_if_needed(exc_info)
         except Exception as e:  # pylint: disable=broad-except
@@ -160,11 +171,6 @@ class Application(object):
 
         if exc_type is not None:
             trigger_hook.result_summary() # pylint: disable=no-member
-        self._exit_stack.__exit__(exc_type, exc_value, exc_tb)
-        self._exit_stack = None
-        self._reset_parser()
-        trigger_hook.app_quit()  # pylint: disable=no-member
-        return True
 
     def _capture_native_warning(self, message, category, filename, lineno, file=None, line=None): # pylint: disable=unused-argument
         self._prelude_warning_records.append(RecordedWarning.from_native_warning(message, category, filename, lineno))
-- 
2.43.0


From 88a574fec4289eb472ae1b98a24b9c5dd640c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:30 +0000
Subject: [PATCH 35/79] fix: exceptions shared marks with the exceptions they
 are copied from or forward attributes to, and with base classes

---
 slash/core/error.py           |  8 +++---
 slash/utils/exception_mark.py | 49 ++++++++++++++++++++++++++++++-----
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index 1b3f020..44a61c3 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -9,13 +9,13 @@ from io import StringIO
 from ..conf import config
 from ..exception_handling import is_exception_fatal, get_exception_frame_correction
 from ..exceptions import FAILURE_EXCEPTION_TYPES
+from ..utils.exception_mark import get_exception_mark, mark_exception
 from ..utils.formatter import Formatter
-from ..utils.python import safe_set_attribute
 from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes
 
 
 _logger = logbook.Logger(__name__)
-_CAPTURED_ERROR_MARKER = "__slash_captured_error__"
+_CAPTURED_ERROR_MARKER = "captured_error"
 
 class Error(object):
 
@@ -94,11 +94,11 @@ class Error(object):
         _, exc_value, _ = exc_info
         if exc_value is None:
             return None
-        cached = getattr(exc_value, _CAPTURED_ERROR_MARKER, None)
+        cached = get_exception_mark(exc_value, _CAPTURED_ERROR_MARKER)
         if cached is not None:
             return cached
         returned = cls(exc_info=exc_info)
-        safe_set_attribute(exc_value, _CAPTURED_ERROR_MARKER, returned)
+        mark_exception(exc_value, _CAPTURED_ERROR_MARKER, returned)
         return returned
 
     @property
diff --git a/slash/utils/exception_mark.py b/slash/utils/exception_mark.py
index 1d54ac3..c71b56f 100644
--- a/slash/utils/exception_mark.py
+++ b/slash/utils/exception_mark.py
@@ -20,14 +20,51 @@ def get_exception_mark(e, name, default=None):
 _EXCEPTION_MARKS_NAME = '__slash_exc_marks__'
 
 
+class _Marks(dict):
+
+    owner_id = None
+
+    @classmethod
+    def create(cls, owner, initial):
+        returned = cls(copy.deepcopy(dict(initial)))
+        # exceptions are sometimes copied along with their attributes. The marks still belong to the original
+        returned.owner_id = id(owner)
+        return returned
+
+    def __reduce__(self):
+        return (_Marks, ())
+
+
+def _get_namespace(e):
+    # Attributes of exceptions are not accessed the regular way, since exceptions can forward that to others
+    if isinstance(e, type):
+        return type.__getattribute__(e, '__dict__')
+    return object.__getattribute__(e, '__dict__')
+
+
+def _get_own_marks(e):
+    returned = _get_namespace(e).get(_EXCEPTION_MARKS_NAME)
+    if isinstance(returned, _Marks) and returned.owner_id == id(e):
+        return returned
+    return None
+
+
+def _get_class_marks(e):
+    for cls in (e if isinstance(e, type) else type(e)).__mro__:
+        returned = _get_own_marks(cls) if cls is not e else None
+        if returned is not None:
+            return returned
+    return {}
+
+
 def _ensure_exception_marks(e):
-    returned = getattr(e, _EXCEPTION_MARKS_NAME, None)
-    if returned is not None and not isinstance(e, type) and returned is getattr(type(e), _EXCEPTION_MARKS_NAME, None):
-        returned = copy.deepcopy(returned)
-        safe_set_attribute(e, _EXCEPTION_MARKS_NAME, returned)
+    returned = _get_own_marks(e)
     if returned is None:
-        returned = {}
-        safe_set_attribute(e, _EXCEPTION_MARKS_NAME, returned)
+        returned = _Marks.create(e, _get_class_marks(e))
+        if isinstance(e, type):
+            safe_set_attribute(e, _EXCEPTION_MARKS_NAME, returned)
+        else:
+            _get_namespace(e)[_EXCEPTION_MARKS_NAME] = returned
     return returned
 
 class ExceptionMarker(object):
-- 
2.43.0


From 86749a83508911aad343468d81110a73ef26ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:30 +0000
Subject: [PATCH 36/79] fix: handling_exceptions failed when given its types in
 a list

---
 slash/exception_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index f949eee..0ea63c5 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -93,10 +93,10 @@ def handling_exceptions(fake_traceback=True, **kwargs):
     swallow = kwargs.pop("swallow", False)
     swallow_types = kwargs.pop('swallow_types', ())
     if swallow:
-        swallow_types = swallow_types + (Exception, )
+        swallow_types = tuple(swallow_types) + (Exception, )
     assert isinstance(swallow_types, (list, tuple)), 'swallow_types must be either a list or a tuple'
-    passthrough_types = kwargs.pop('passthrough_types', ()) + tuple(_ignored_state.ignored_exception_types)
-    return _HandlingException(fake_tbs, swallow_types, passthrough_types, kwargs)
+    passthrough_types = tuple(kwargs.pop('passthrough_types', ())) + tuple(_ignored_state.ignored_exception_types)
+    return _HandlingException(fake_tbs, tuple(swallow_types), passthrough_types, kwargs)
 
 
 class _HandledException(object):
-- 
2.43.0


From 1d124efddb94e4c3f11b3ab748dc1ad4a3e7d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:30 +0000
Subject: [PATCH 37/79] fix: handling_exceptions could swallow exit requests,
 and skips when no session is active

---
 slash/exception_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index 0ea63c5..e5184bf 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -129,8 +129,8 @@ class _HandlingException(object):
             exc_info = (exc_info[0], exc_info[1], first_tb._tb) # pylint: disable=protected-access
         handle_exception(exc_info, **self._kwargs)
         self._handled.exception = exc_info[1]
-        skip_types = () if slash_context.session is None else slash_context.session.get_skip_exception_types()
-        if isinstance(exc_value, skip_types) or isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):
+        skip_types = (exceptions.SkipTest,) if slash_context.session is None else slash_context.session.get_skip_exception_types()
+        if isinstance(exc_value, skip_types) or isinstance(exc_value, (SystemExit,) + exceptions.INTERRUPTION_EXCEPTIONS):
             return None
         if self._swallow_types and isinstance(exc_value, self._swallow_types):
             _logger.trace('Swallowing {!r}', exc_value)
-- 
2.43.0


From f26e3bc51dac9f16cb32cf87799d0dbe22825908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:08 +0000
Subject: [PATCH 38/79] fix: failures reported through exit stacks were
 recorded as another exception, or not at all

---
 slash/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/core/result.py b/slash/core/result.py
index 54a417c..798da3d 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -91,7 +91,7 @@ class Result(object):
 
         _ADDED_TO_RESULT.mark_exception(exc_value)
         if isinstance(exc_value, exceptions.FAILURE_EXCEPTION_TYPES):
-            self.add_failure()
+            self.add_failure(exc_info=(type(exc_value), exc_value, exc_value.__traceback__))
         elif isinstance(exc_value, context.session.get_skip_exception_types()):
             self.add_skip(getattr(exc_value, 'reason', str(exc_value)))
         elif isinstance(exc_value, exceptions.INTERRUPTION_EXCEPTIONS):
-- 
2.43.0


From d0e6f58db395c7690c0e63bfca758197f4c4a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:03 +0000
Subject: [PATCH 39/79] fix: recording an error failed if the exception or a
 variable has failing representation, attributes or class

---
 slash/core/error.py            |  6 +++---
 slash/utils/traceback_utils.py | 33 +++++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index 44a61c3..913459c 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -11,7 +11,7 @@ from ..exception_handling import is_exception_fatal, get_exception_frame_correct
 from ..exceptions import FAILURE_EXCEPTION_TYPES
 from ..utils.exception_mark import get_exception_mark, mark_exception
 from ..utils.formatter import Formatter
-from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes
+from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes, safe_repr
 
 
 _logger = logbook.Logger(__name__)
@@ -30,7 +30,7 @@ class Error(object):
             msg = traceback.format_exception_only(exc_info[0], exc_info[1])[0].strip()
         if not isinstance(msg, str):
             self.arg = msg
-            msg = repr(msg)
+            msg = safe_repr(msg)
         self.message = msg
         #: A string representation of the exception caught, if exists
         self.exception_str = exception = None
@@ -39,7 +39,7 @@ class Error(object):
         self.exc_info = exc_info
         if exc_info is not None:
             self.exception_type, exception, tb = exc_info  # pylint: disable=unpacking-non-sequence
-            self.exception_str = repr(exception)
+            self.exception_str = safe_repr(exception)
             self._exception_attributes = distill_object_attributes(exception, truncate=False)
             self.traceback = distill_traceback(
                 tb, frame_correction=get_exception_frame_correction(exception))
diff --git a/slash/utils/traceback_utils.py b/slash/utils/traceback_utils.py
index a7000c9..364adde 100644
--- a/slash/utils/traceback_utils.py
+++ b/slash/utils/traceback_utils.py
@@ -190,9 +190,7 @@ class DistilledFrame(object):
                     if global_name in used_globals and self._is_global_included(value))
 
     def _is_global_included(self, g):
-        if isinstance(g, (types.FunctionType, types.MethodType, types.ModuleType, type)):
-            return False
-        return True
+        return not _safe_isinstance(g, (types.FunctionType, types.MethodType, types.ModuleType, type))
 
     def _capture_locals(self, frame):
         return dict((local_name, {"value": _safe_repr(local_value, self._repr_blacklisted_types)})
@@ -202,7 +200,7 @@ class DistilledFrame(object):
 
     def _unwrap_local(self, local_name, local_value, repr_blacklisted_types):
         yield local_name, local_value
-        if local_name != 'self' or isinstance(local_value, repr_blacklisted_types):
+        if local_name != 'self' or _safe_isinstance(local_value, repr_blacklisted_types):
             return
 
         for attr, value in iter_distilled_object_attributes(local_value):
@@ -225,7 +223,7 @@ def _unwrap_self_locals(local_pairs, blacklisted_types):
     for name, value in local_pairs:
 
         yield name, value
-        if name == 'self' and not isinstance(value, blacklisted_types):
+        if name == 'self' and not _safe_isinstance(value, blacklisted_types):
             for attr_name, attr_value in iter_distilled_object_attributes(value):
                 yield 'self.{}'.format(attr_name), attr_value
 
@@ -236,27 +234,42 @@ def iter_distilled_object_attributes(obj):
     except Exception:       # pylint: disable=broad-except
         obj_dict = {}
 
-    for attr in obj_dict:
-        if attr.startswith('__') and attr.endswith('__'):
+    if not isinstance(obj_dict, (dict, types.MappingProxyType)):
+        return
+
+    for attr in list(obj_dict):
+        if not isinstance(attr, str) or (attr.startswith('__') and attr.endswith('__')):
             continue
         try:
             value = getattr(obj, attr)
         except Exception:   # pylint: disable=broad-except
             continue
-        if isinstance(value, _FILTERED_MEMBER_TYPES):
+        if _safe_isinstance(value, _FILTERED_MEMBER_TYPES):
             continue
         yield attr, value
 
 
 def distill_object_attributes(obj, truncate=True):
     repr_blacklisted_types = tuple(config.root.log.repr_blacklisted_types)
-    return {attr: value if isinstance(value, _ALLOWED_ATTRIBUTE_TYPES) else _safe_repr(value, repr_blacklisted_types,
+    return {attr: value if _safe_isinstance(value, _ALLOWED_ATTRIBUTE_TYPES) else _safe_repr(value, repr_blacklisted_types,
                                                                                        truncate=truncate)
             for attr, value in iter_distilled_object_attributes(obj)}
 
 
+def _safe_isinstance(value, types_):
+    try:
+        return isinstance(value, types_)
+    except Exception:  # pylint: disable=broad-except
+        # isinstance() accesses __class__, which objects can override
+        return issubclass(type(value), types_)
+
+
+def safe_repr(value):
+    return _safe_repr(value, (), truncate=False)
+
+
 def _safe_repr(value, blacklisted_types, truncate=True):
-    if blacklisted_types and isinstance(value, blacklisted_types):
+    if blacklisted_types and _safe_isinstance(value, blacklisted_types):
         returned = _format_repr_skip_string(value)
     else:
         try:
-- 
2.43.0


From 825463ee20538a8c27095ead6385a155591cc8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:03 +0000
Subject: [PATCH 40/79] fix: the message of syntax errors only had the location
 of the error

---
 slash/core/error.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index 913459c..87e46ac 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -17,6 +17,15 @@ from ..utils.traceback_utils import distill_call_stack, distill_traceback, disti
 _logger = logbook.Logger(__name__)
 _CAPTURED_ERROR_MARKER = "captured_error"
 
+def _get_exception_message(exc_type, exc_value):
+    try:
+        lines = traceback.format_exception_only(exc_type, exc_value)
+    except Exception:  # pylint: disable=broad-except
+        return '{}: {}'.format(exc_type.__name__, safe_repr(exc_value))
+    # for syntax errors, the message itself is preceded by (indented) lines for the location
+    return next((line for line in lines if not line[:1].isspace()), lines[0]).strip()
+
+
 class Error(object):
 
     traceback = exception_type = arg = _cached_detailed_traceback_str = None
@@ -27,7 +36,7 @@ class Error(object):
         self._fatal = False
         self._has_custom_message = (msg is not None)
         if msg is None and exc_info is not None:
-            msg = traceback.format_exception_only(exc_info[0], exc_info[1])[0].strip()
+            msg = _get_exception_message(exc_info[0], exc_info[1])
         if not isinstance(msg, str):
             self.arg = msg
             msg = safe_repr(msg)
-- 
2.43.0


From 3e0c723bf3aaa9dc5f2b3e4fe3fa1cf86ad3adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 41/79] fix: errors which could not be pickled failed parallel
 workers or were lost

---
 slash/core/error.py            | 25 +++++++++++++++++++++++++
 slash/core/result.py           |  4 ++--
 slash/utils/python.py          | 16 ++++++++++++++++
 slash/utils/traceback_utils.py |  6 ++++++
 4 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index 87e46ac..c7eed8b 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -11,6 +11,7 @@ from ..exception_handling import is_exception_fatal, get_exception_frame_correct
 from ..exceptions import FAILURE_EXCEPTION_TYPES
 from ..utils.exception_mark import get_exception_mark, mark_exception
 from ..utils.formatter import Formatter
+from ..utils.python import try_pickle, try_unpickle
 from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes, safe_repr
 
 
@@ -63,6 +64,30 @@ class Error(object):
     def exception_attributes(self):
         return self._exception_attributes
 
+    def __getstate__(self):
+        returned = self.__dict__.copy()
+        returned['exc_info'] = None
+        # these are not necessarily known, or even picklable, where the error is loaded
+        returned['arg'] = try_pickle(self.arg)
+        returned['exception_type'] = try_pickle(self.exception_type)
+        if self.exception_type is not None:
+            returned['_exception_type_name'] = (
+                self.exception_type.__module__, self.exception_type.__qualname__, self.exception_type.__name__)
+        if self._exception_attributes is not None:
+            returned['_exception_attributes'] = {
+                name: value if type(value) in (int, bool, float, str) else safe_repr(value)
+                for name, value in self._exception_attributes.items()}
+        return returned
+
+    def __setstate__(self, state):
+        type_name = state.pop('_exception_type_name', None)
+        state['arg'] = try_unpickle(state['arg'])
+        state['exception_type'] = try_unpickle(state['exception_type'])
+        if state['exception_type'] is None and type_name is not None:
+            module, qualname, name = type_name
+            state['exception_type'] = type(name, (Exception,), {'__module__': module, '__qualname__': qualname})
+        self.__dict__.update(state)
+
     def forget_exc_info(self):
         assert hasattr(self, 'exc_info')
         self.exc_info = None
diff --git a/slash/core/result.py b/slash/core/result.py
index 798da3d..b9ccf2d 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -60,7 +60,7 @@ class Result(object):
             if key not in Result.pickle_key_blacklist:
                 try:
                     serialized_object[key] = pickle.dumps(value)
-                except (pickle.PicklingError, TypeError):
+                except Exception:  # pylint: disable=broad-except
                     _logger.debug('Failed serializing result, skipping this value. key = {}', key)
                     capture_sentry_exception()
         return serialized_object
@@ -69,7 +69,7 @@ class Result(object):
         for key, value in result_dict.items():
             try:
                 self.__dict__[key] = unpickle(value)
-            except TypeError:
+            except Exception:  # pylint: disable=broad-except
                 _logger.error('Error when deserialize reult, skipping this value. key = {}', key,
                               extra={'capture': False})
         for failure in self._failures:
diff --git a/slash/utils/python.py b/slash/utils/python.py
index 2f1bd23..8341383 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -49,6 +49,22 @@ def unpickle(thing):
         return thing
     return pickle.loads(thing.data)
 
+def try_pickle(thing):
+    """Pickles the given object, or returns None if this is impossible
+    """
+    try:
+        return pickle.dumps(thing)
+    except Exception:  # pylint: disable=broad-except
+        return None
+
+def try_unpickle(pickled):
+    """The opposite of try_pickle. Returns None for objects which cannot be loaded
+    """
+    try:
+        return pickle.loads(pickled) if pickled is not None else None
+    except Exception:  # pylint: disable=broad-except
+        return None
+
 def get_underlying_func(func):
     while True:
         underlying = getattr(func, "__wraps__", None)
diff --git a/slash/utils/traceback_utils.py b/slash/utils/traceback_utils.py
index 364adde..d6d7717 100644
--- a/slash/utils/traceback_utils.py
+++ b/slash/utils/traceback_utils.py
@@ -168,6 +168,12 @@ class DistilledFrame(object):
     def globals(self):
         return self._globals
 
+    def __getstate__(self):
+        returned = self.__dict__.copy()
+        returned['python_frame'] = None
+        returned['_repr_blacklisted_types'] = ()
+        return returned
+
     def forget_python_frame(self):
         self.python_frame = None
 
-- 
2.43.0


From 136a46a69c8d65d632dfe0ffe513589e98ba4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 42/79] fix: frames were repeated in errors of contexts created
 by a function called by the guarded one

---
 slash/exception_handling.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/slash/exception_handling.py b/slash/exception_handling.py
index e5184bf..3cedc17 100644
--- a/slash/exception_handling.py
+++ b/slash/exception_handling.py
@@ -126,7 +126,7 @@ class _HandlingException(object):
             (first_tb, last_tb) = self._fake_traceback
             (second_tb, _) = create_traceback_proxy(exc_info[2])
             last_tb.tb_next = second_tb
-            exc_info = (exc_info[0], exc_info[1], first_tb._tb) # pylint: disable=protected-access
+            exc_info = (exc_info[0], exc_info[1], _skip_repeated_frames(first_tb._tb, exc_info[2])) # pylint: disable=protected-access
         handle_exception(exc_info, **self._kwargs)
         self._handled.exception = exc_info[1]
         skip_types = (exceptions.SkipTest,) if slash_context.session is None else slash_context.session.get_skip_exception_types()
@@ -138,6 +138,28 @@ class _HandlingException(object):
         return None
 
 
+def _iter_traceback(tb):
+    while tb is not None:
+        yield tb
+        tb = tb.tb_next
+
+
+def _skip_repeated_frames(full_tb, tb):
+    # When the context was created by a function called by the one it guards (or by another context manager), the
+    # frames from the guarded function on appear both in the call stack of the creation and in the actual traceback
+    actual_tbs = list(_iter_traceback(tb))
+    actual_frames = set(actual_tb.tb_frame for actual_tb in actual_tbs)
+    full_tbs = list(_iter_traceback(full_tb))
+    num_created = len(full_tbs) - len(actual_tbs)
+    for index, created_tb in enumerate(full_tbs[:num_created]):
+        if created_tb.tb_frame in actual_frames:
+            if index == 0:
+                return tb
+            full_tbs[index - 1].tb_next = full_tbs[num_created]
+            break
+    return full_tb
+
+
 def handle_exception(exc_info, context=None):
     """
     Call any handlers or debugging code before propagating an exception onwards.
-- 
2.43.0


From 47d6d57a54b42bf0d7293e95b5a26077af310206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 43/79] fix: entering the debugger failed if the exception has
 failing representation

---
 slash/core/error.py                 |  4 ++--
 slash/reporting/console_reporter.py |  4 ++--
 slash/utils/debug.py                |  3 ++-
 slash/utils/python.py               | 14 ++++++++++++++
 slash/utils/traceback_utils.py      | 11 ++---------
 5 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/slash/core/error.py b/slash/core/error.py
index c7eed8b..67730db 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -11,8 +11,8 @@ from ..exception_handling import is_exception_fatal, get_exception_frame_correct
 from ..exceptions import FAILURE_EXCEPTION_TYPES
 from ..utils.exception_mark import get_exception_mark, mark_exception
 from ..utils.formatter import Formatter
-from ..utils.python import try_pickle, try_unpickle
-from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes, safe_repr
+from ..utils.python import safe_repr, try_pickle, try_unpickle
+from ..utils.traceback_utils import distill_call_stack, distill_traceback, distill_object_attributes
 
 
 _logger = logbook.Logger(__name__)
diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index e7a0c52..a00cfb1 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -13,7 +13,7 @@ from ..conf import config
 from ..exceptions import CLI_ABORT_EXCEPTIONS
 from ..log import VERBOSITIES
 from ..utils.iteration import iteration
-from ..utils.python import wraps
+from ..utils.python import safe_str, wraps
 from .reporter_interface import ReporterInterface
 
 # traceback levels
@@ -148,7 +148,7 @@ class ConsoleReporter(ReporterInterface):
     def report_before_debugger(self, exc_info):
         self.notify_before_console_output()
         self._terminal.write('Exception caught in debugger: {} {}\n'.format(
-            exc_info[0], exc_info[1]), **theme('inline-error'))
+            exc_info[0], safe_str(exc_info[1])), **theme('inline-error'))
         self.notify_after_console_output()
 
     def report_collection_start(self):
diff --git a/slash/utils/debug.py b/slash/utils/debug.py
index 5afcafd..97c04c8 100644
--- a/slash/utils/debug.py
+++ b/slash/utils/debug.py
@@ -8,6 +8,7 @@ from ..conf import config
 from ..ctx import context
 from .. import exceptions
 from .pattern_matching import Matcher
+from .python import safe_repr
 
 import warnings
 
@@ -67,7 +68,7 @@ def debug_if_needed(exc_info=None):
     if isinstance(exc_info[1], (SystemExit,) + exceptions.INTERRUPTION_EXCEPTIONS):
         return
 
-    exc_repr = repr(exc_info[1])
+    exc_repr = safe_repr(exc_info[1])
     matchers = [Matcher(s) for s in config.root.debug.filter_strings]
     if matchers and not all(matcher.matches(exc_repr) for matcher in matchers):
         return
diff --git a/slash/utils/python.py b/slash/utils/python.py
index 8341383..125af9b 100644
--- a/slash/utils/python.py
+++ b/slash/utils/python.py
@@ -152,6 +152,20 @@ def get_underlying_classmethod_function(func):
     return func.__func__
 
 
+def safe_repr(value):
+    try:
+        return repr(value)
+    except Exception:  # pylint: disable=broad-except
+        return "[Unprintable {!r} object]".format(type(value).__name__)
+
+
+def safe_str(value):
+    try:
+        return str(value)
+    except Exception:  # pylint: disable=broad-except
+        return safe_repr(value)
+
+
 def safe_set_attribute(obj, name, value):
     try:
         setattr(obj, name, value)
diff --git a/slash/utils/traceback_utils.py b/slash/utils/traceback_utils.py
index d6d7717..f6aa471 100644
--- a/slash/utils/traceback_utils.py
+++ b/slash/utils/traceback_utils.py
@@ -11,7 +11,7 @@ from vintage import deprecated
 
 from .. import context
 from ..conf import config
-from .python import get_underlying_func
+from .python import get_underlying_func, safe_repr
 
 
 _MAX_VARIABLE_VALUE_LENGTH = 100
@@ -270,18 +270,11 @@ def _safe_isinstance(value, types_):
         return issubclass(type(value), types_)
 
 
-def safe_repr(value):
-    return _safe_repr(value, (), truncate=False)
-
-
 def _safe_repr(value, blacklisted_types, truncate=True):
     if blacklisted_types and _safe_isinstance(value, blacklisted_types):
         returned = _format_repr_skip_string(value)
     else:
-        try:
-            returned = repr(value)
-        except Exception:  # pylint: disable=broad-except
-            returned = "[Unprintable {!r} object]".format(type(value).__name__)
+        returned = safe_repr(value)
 
     if truncate and len(returned) > _MAX_VARIABLE_VALUE_LENGTH:
         returned = returned[:_MAX_VARIABLE_VALUE_LENGTH - 3] + '...'
-- 
2.43.0


From 173a449cc94ffb80a77450394d083a6f196ecc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:11 +0000
Subject: [PATCH 44/79] fix: errors with no frames were reported without their
 message, and failed the report with --tb 1

---
 slash/reporting/console_reporter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index a00cfb1..4707e1d 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -280,7 +280,7 @@ class ConsoleReporter(ReporterInterface):
         if not err.traceback or console_traceback_level == NO_TRACEBACK:
             frames = []
         elif console_traceback_level == SINGLE_FRAME:
-            frames = [err.traceback.frames[-1]]
+            frames = err.traceback.frames[-1:]
         else:
             frames = err.traceback.frames
         for frame_iteration, frame in iteration(frames):
@@ -296,11 +296,11 @@ class ConsoleReporter(ReporterInterface):
 
             self._write_frame_code(
                 frame, include_context=(console_traceback_level >= ALL_FRAMES_WITH_CONTEXT))
-            if frame_iteration.last:
-                self._terminal.write(err_type, **theme('tb-error'))
-                self._terminal.write(
-                    self._indent_with(err.message, 4), **theme('tb-error'))
-                self._terminal.write('\n')
+        if frames or not err.has_custom_message():
+            self._terminal.write(err_type, **theme('tb-error'))
+            self._terminal.write(
+                self._indent_with(err.message, 4), **theme('tb-error'))
+            self._terminal.write('\n')
 
     def _report_additional_test_details(self, result):
         if result.is_success():
-- 
2.43.0


From fcd61dc5f7c8ad449d6aab0782c69ce37b22c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:11 +0000
Subject: [PATCH 45/79] fix: errors added with the exc_info of no exception
 were attributed to nothing

---
 slash/core/error.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slash/core/error.py b/slash/core/error.py
index 67730db..6548aaa 100644
--- a/slash/core/error.py
+++ b/slash/core/error.py
@@ -33,6 +33,9 @@ class Error(object):
 
     def __init__(self, msg=None, exc_info=None, frame_correction=0):
         super(Error, self).__init__()
+        if exc_info is not None and exc_info[0] is None:
+            # e.g. sys.exc_info() when no exception is being handled
+            exc_info = None
         self.time = arrow.utcnow()
         self._fatal = False
         self._has_custom_message = (msg is not None)
-- 
2.43.0


From e2fbcc38e4f125dc0d9a2f4cefda8e41c6c2d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:58 +0000
Subject: [PATCH 46/79] fix: appending to a detail changed the list it was set
 to, and everything else sharing it

---
 slash/core/details.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slash/core/details.py b/slash/core/details.py
index fb82721..c519766 100644
--- a/slash/core/details.py
+++ b/slash/core/details.py
@@ -15,10 +15,11 @@ class Details(object):
     def append(self, key, value):
         """Appends a value to a list key, or creates it if needed
         """
-        lst = self._details.setdefault(key, [])
+        lst = self._details.get(key, [])
         if not isinstance(lst, list):
             raise TypeError('Cannot append value to a {.__class__.__name__!r} value'.format(lst))
-        lst.append(value)
+        # the existing list may be shared with whoever set it, or was already given to someone
+        lst = self._details[key] = lst + [value]
         if self._set_callback is not None:
             self._set_callback(key, lst)
 
-- 
2.43.0


From abc77b48aff1d439806454c78f9c81a29f9eaabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 47/79] fix: parallel runs lost the facts of tests, and all of
 their details, data or skips if one of them cannot be pickled

---
 slash/core/details.py | 16 ++++++++++++++++
 slash/core/result.py  |  9 +++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/slash/core/details.py b/slash/core/details.py
index c519766..2bb0f5d 100644
--- a/slash/core/details.py
+++ b/slash/core/details.py
@@ -1,3 +1,6 @@
+from ..utils.python import try_pickle, try_unpickle
+
+
 class Details(object):
 
     def __init__(self, set_callback=None):
@@ -5,6 +8,9 @@ class Details(object):
         self._details = {}
         self._set_callback = set_callback
 
+    def set_callback(self, callback):
+        self._set_callback = callback
+
     def set(self, key, value):
         """Sets a specific detail (by name) to a specific value
         """
@@ -23,6 +29,16 @@ class Details(object):
         if self._set_callback is not None:
             self._set_callback(key, lst)
 
+    def __getstate__(self):
+        # each detail stands for itself, since values are arbitrary and not all of them can be pickled
+        pickled = (try_pickle(item) for item in self._details.items())
+        return {'_details': [p for p in pickled if p is not None]}
+
+    def __setstate__(self, state):
+        items = (try_unpickle(pickled) for pickled in state['_details'])
+        self._details = dict(item for item in items if item is not None)
+        self._set_callback = None
+
     def all(self):
         return self._details.copy()
 
diff --git a/slash/core/result.py b/slash/core/result.py
index b9ccf2d..d71e1da 100644
--- a/slash/core/result.py
+++ b/slash/core/result.py
@@ -15,7 +15,7 @@ from ..exception_handling import capture_sentry_exception, handling_exceptions
 from .. import exceptions
 from ..utils.exception_mark import ExceptionMarker
 from ..utils.interactive import notify_if_slow_context
-from ..utils.python import unpickle
+from ..utils.python import safe_str, try_pickle, unpickle
 from .details import Details
 from .error import Error
 
@@ -27,7 +27,7 @@ _ADDED_TO_RESULT = ExceptionMarker('added_to_result')
 class Result(object):
     """Represents a single result for a test which was run
     """
-    pickle_key_blacklist = {'test_metadata', 'facts'}
+    pickle_key_blacklist = {'test_metadata'}
 
     def __init__(self, test_metadata=None):
         super(Result, self).__init__()
@@ -58,6 +58,10 @@ class Result(object):
         serialized_object = {}
         for key, value in vars(self).items():
             if key not in Result.pickle_key_blacklist:
+                if key == 'data' and isinstance(value, dict):
+                    value = {k: v for k, v in value.items() if try_pickle((k, v)) is not None}
+                elif key == '_skips':
+                    value = [reason if try_pickle(reason) is not None else safe_str(reason) for reason in value]
                 try:
                     serialized_object[key] = pickle.dumps(value)
                 except Exception:  # pylint: disable=broad-except
@@ -72,6 +76,7 @@ class Result(object):
             except Exception:  # pylint: disable=broad-except
                 _logger.error('Error when deserialize reult, skipping this value. key = {}', key,
                               extra={'capture': False})
+        self.facts.set_callback(self._fact_set_callback)
         for failure in self._failures:
             self.add_failure(failure, append=False)
         for error in self._errors:
-- 
2.43.0


From dfa87c32aadcf639136265386500810d11c92b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 48/79] fix: details and skip reasons with failing
 representation, and skip reasons which are not strings, failed the session
 summary

---
 slash/reporting/console_reporter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slash/reporting/console_reporter.py b/slash/reporting/console_reporter.py
index 4707e1d..cd32cdd 100644
--- a/slash/reporting/console_reporter.py
+++ b/slash/reporting/console_reporter.py
@@ -13,7 +13,7 @@ from ..conf import config
 from ..exceptions import CLI_ABORT_EXCEPTIONS
 from ..log import VERBOSITIES
 from ..utils.iteration import iteration
-from ..utils.python import safe_str, wraps
+from ..utils.python import safe_repr, safe_str, wraps
 from .reporter_interface import ReporterInterface
 
 # traceback levels
@@ -314,7 +314,7 @@ class ConsoleReporter(ReporterInterface):
         for index, (key, value) in enumerate(detail_items):
             if index == 0:
                 self._terminal.write(' - Additional Details:\n', **theme('test-additional-details-header'))
-            self._terminal.write('    > {}: {!r}\n'.format(key, value), **theme('test-additional-details'))
+            self._terminal.write('    > {}: {}\n'.format(safe_str(key), safe_repr(value)), **theme('test-additional-details'))
 
     def _indent_with(self, text, indent):
         if isinstance(indent, int):
@@ -325,7 +325,7 @@ class ConsoleReporter(ReporterInterface):
         msg = '\tSkipped'
         skip_reasons = [r for r in result.get_skips() if r is not None]
         if skip_reasons:
-            msg += ' ({})'.format(', '.join(skip_reasons))
+            msg += ' ({})'.format(', '.join(safe_str(r) for r in skip_reasons))
         msg += '\n'
 
         self._terminal.write(msg, **theme('test-skip-message'))
@@ -393,7 +393,7 @@ class ConsoleReporter(ReporterInterface):
     def report_test_skip_added(self, test, reason):
         self._file_has_skips = True
         if self._verobsity_allows(VERBOSITIES.NOTICE):
-            msg = 'Skipped: {}'.format(reason)
+            msg = 'Skipped: {}'.format(safe_str(reason))
             if test is not None:
                 msg += ', Test: {}'.format(test.__slash__)
             self._terminal.write(msg + '\n', **theme('test-skip-message'))
-- 
2.43.0


From cf806756564ff3b1a57ecfd7096a82e22059c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:32 +0000
Subject: [PATCH 49/79] fix: xunit reports were malformed or not written for
 details, skip reasons and messages which are not strings or contain control
 characters, and attributed all errors to the exception ending the session

---
 slash/plugins/builtin/xunit.py | 38 +++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/slash/plugins/builtin/xunit.py b/slash/plugins/builtin/xunit.py
index f085d3e..ef9ce3b 100644
--- a/slash/plugins/builtin/xunit.py
+++ b/slash/plugins/builtin/xunit.py
@@ -1,12 +1,12 @@
 import datetime
 import itertools
 import socket
-import sys
+import re
 from ..interface import PluginInterface
 from ...ctx import context
 from ...conf import config
-from ...utils.traceback_utils import get_traceback_string
 from ...utils.conf_utils import Cmdline, Doc
+from ...utils.python import safe_str
 from slash import config as slash_config
 from slash import context
 from xml.etree.ElementTree import (
@@ -15,6 +15,15 @@ from xml.etree.ElementTree import (
     SubElement as SE
 )
 
+_ILLEGAL_CHARACTERS = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+_LEGAL_TAG = re.compile(r'[A-Za-z_][A-Za-z0-9_.-]*\Z')
+
+
+def _to_text(value):
+    # characters which are not allowed in XML documents, even when escaped, are displayed by their representation
+    return _ILLEGAL_CHARACTERS.sub(lambda match: repr(match.group(0))[1:-1], safe_str(value))
+
+
 class Plugin(PluginInterface):
     """
     For more information see https://slash.readthedocs.org/en/master/builtin_plugins.html#xunit
@@ -34,10 +43,10 @@ class Plugin(PluginInterface):
         self._start_time = datetime.datetime.now()
 
     def _add_error(self, parent, errortype, error):
-        exc_type, exc_value, _ = exc_info = sys.exc_info()
+        exc_type = error.exception_type
         self._add_element(parent, errortype,
-                          {'type': exc_type.__name__ if exc_type else errortype, 'message': error.message},
-                          text=get_traceback_string(exc_info) if exc_value is not None else None,
+                          {'type': _to_text(exc_type.__name__) if exc_type else errortype, 'message': _to_text(error.message)},
+                          text=_to_text(error.get_detailed_traceback_str()) if exc_type else None,
         )
 
     def _add_element(self, parent, tag, attrib, text=None):
@@ -50,26 +59,27 @@ class Plugin(PluginInterface):
         return E('testcase', dict(name=str(test), classname="{}.{}".format(test.__class__.__module__, test.__class__.__name__), time="0"))
 
     def _detail2xml(self, tag, name, value):
-        r = E(tag, {'name': name})
+        r = E(tag, {'name': _to_text(name)})
         if isinstance(value, (dict, tuple, list)):
             r = self._build_xml(r, value)
-        elif isinstance(value, (float, int)):
-            r.attrib['value'] = str(value)
         else:
-            r.attrib['value'] = value
+            r.attrib['value'] = _to_text(value)
         return r
 
     def _build_xml(self, r, d):
         if isinstance(d, dict):
             for k, v in d.items():
-                s = SE(r, k)
+                if isinstance(k, str) and _LEGAL_TAG.match(k):
+                    s = SE(r, k)
+                else:
+                    s = SE(r, 'i', {'name': _to_text(k)})
                 self._build_xml(s, v)
         elif isinstance(d, (tuple, list)):
             for v in d:
                 s = SE(r, 'i')
                 self._build_xml(s, v)
         else:
-            r.text = str(d)
+            r.text = _to_text(d)
         return r
 
     def session_end(self):
@@ -101,17 +111,17 @@ class Plugin(PluginInterface):
         for result in run_test_results:
 
             test = E("testcase", {
-                "name": result.test_metadata.address,
+                "name": _to_text(result.test_metadata.address),
                 "time": str(result.get_duration().total_seconds())
             })
 
             if result.test_metadata.class_name:
-                test.attrib["classname"] = result.test_metadata.class_name
+                test.attrib["classname"] = _to_text(result.test_metadata.class_name)
 
             self._add_errors(test, result)
 
             for skip in result.get_skips():
-                self._add_element(test, 'skipped', {'type': skip or ''})
+                self._add_element(test, 'skipped', {'type': _to_text(skip) if skip is not None else ''})
 
             for detail_name, detail_value in result.details.all().items():
                 if not isinstance(detail_value, list):
-- 
2.43.0


From a45c258abbe4f6588a6ca3c149948288797f3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:37 +0000
Subject: [PATCH 50/79] fix: warnings kept being ignored after an
 ignored_warnings block which was left by an exception

---
 slash/warnings.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index 7a9d67e..bd8fb9b 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -211,13 +211,15 @@ def ignore_warnings(category=None, message=None, filename=None, lineno=None):
 @contextmanager
 def ignored_warnings(**kwargs):
     iw = ignore_warnings(**kwargs)
-    with handling_exceptions():
-        yield
     try:
-        _ignored_warnings.remove(iw)
-    except ValueError:
-        # In case clear_warnings was called inside this context, ValueError will be raised
-        pass
+        with handling_exceptions():
+            yield
+    finally:
+        try:
+            _ignored_warnings.remove(iw)
+        except ValueError:
+            # In case clear_warnings was called inside this context, ValueError will be raised
+            pass
 
 
 def clear_ignored_warnings():
-- 
2.43.0


From af015dd86af48dbbb85f8d1fa51a9c4ae9b2895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:37 +0000
Subject: [PATCH 51/79] fix: warnings with no arguments, or whose argument is
 not a string, raised exceptions where they were emitted

---
 slash/warnings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/warnings.py b/slash/warnings.py
index bd8fb9b..8660768 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -112,7 +112,7 @@ class RecordedWarning(object):
     @classmethod
     def from_native_warning(cls, message, category, filename, lineno):
         if isinstance(message, Warning):
-            message = message.args[0]
+            message = str(message)
 
         return cls({
             'message': message,
-- 
2.43.0


From 42cb6668301872856d780b182dc0aa0375c97180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 52/79] fix: warnings whose category is defined in a test file
 failed the tests issuing them in parallel runs

---
 slash/parallel/server.py | 5 +++--
 slash/parallel/worker.py | 5 +++--
 slash/warnings.py        | 8 ++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index a2586b3..31793fd 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -206,9 +206,10 @@ class Server(object):
         _logger.notice("Client_id {} sent warning", client_id)
         try:
             warning = unpickle(pickled_warning)
-            context.session.warnings.add(warning)
-        except TypeError:
+        except Exception: # pylint: disable=broad-except
             _logger.error('Error when deserializing warning, not adding it', extra={'capture': False})
+        else:
+            context.session.warnings.add(warning)
 
     def report_session_error(self, message):
         self.worker_error_reported = True
diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 5719994..964a85c 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -36,10 +36,11 @@ class Worker(object):
     def warning_added(self, warning):
         try:
             warning = pickle.dumps(warning)
-            self.client.report_warning(self.client_id, warning)
-        except (pickle.PicklingError, TypeError):
+        except Exception: # pylint: disable=broad-except
             _logger.error("Failed to pickle warning. Message: {}, File: {}, Line: {}",
                           warning.message, warning.filename, warning.lineno, extra={'capture': False})
+        else:
+            self.client.report_warning(self.client_id, warning)
 
     def error_added(self, error, result):
         if result.is_global_result():
diff --git a/slash/warnings.py b/slash/warnings.py
index 8660768..40d1bac 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -6,6 +6,7 @@ import logbook
 import warnings
 
 from . import hooks
+from .utils.python import try_pickle, try_unpickle
 from .utils.warning_capture import warning_callback_context
 from .ctx import context
 from .exception_handling import handling_exceptions
@@ -103,6 +104,13 @@ class RecordedWarning(object):
         self.category = category
         self._repr = message
 
+    def __getstate__(self):
+        # the category might not be available to whoever loads this
+        return dict(self.__dict__, category=try_pickle(self.category))
+
+    def __setstate__(self, state):
+        self.__dict__.update(state, category=try_unpickle(state['category']))
+
     @classmethod
     def from_log_record(cls, record, handler):
         details = record.to_dict()
-- 
2.43.0


From 2841949e40d47325ad01b5ca3220068b147a8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 53/79] fix: the unified session log missed messages of other
 threads and of the raw copy, contained silenced and slash's own low level
 messages of tests, and repeated those of tests logged to the same file

---
 slash/log.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/slash/log.py b/slash/log.py
index 75b3d07..10d7b42 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -140,6 +140,7 @@ class SessionLogging(object):
         #: contains the path for the session logs
         self.session_log_path = None
         self.session_log_handler = None
+        self._session_log_handlers = []
         #: contains the path for the current test logs
         self.test_log_path = None
         self._set_formatting(self.console_handler, config.root.log.console_format or config.root.log.format)
@@ -167,8 +168,9 @@ class SessionLogging(object):
     def get_session_logging_context(self):
         assert self.session_log_handler is None
         with self._get_file_logging_context(
-            config.root.log.session_subpath, config.root.log.last_session_symlink) as (handler, path):
-            self.session_log_handler = handler
+            config.root.log.session_subpath, config.root.log.last_session_symlink) as (handlers, path):
+            self.session_log_handler = handlers[0]
+            self._session_log_handlers = [handler for handler in handlers if isinstance(handler, logbook.Handler)]
             self.session_log_path = path
             self.session.results.global_result.set_log_path(path)
             if config.root.log.last_session_dir_symlink is not None and self.session_log_path is not None:
@@ -181,9 +183,16 @@ class SessionLogging(object):
             handler = stack.enter_context(self._log_file_handler_context(filename_template, symlink, \
                                                                          use_compression=config.root.log.compression.enabled))
             stack.enter_context(handler.applicationbound())
+            handlers = [handler]
             if config.root.log.compression.enabled and config.root.log.compression.use_rotating_raw_file:
                 rotating_handler = stack.enter_context(self._log_file_handler_context(filename_template, symlink, bubble=True, use_rotation=True))
                 stack.enter_context(rotating_handler.applicationbound())
+                handlers.append(rotating_handler)
+
+            if config.root.log.unified_session_log:
+                for session_handler in self._session_log_handlers:
+                    if session_handler not in handlers:
+                        stack.enter_context(_make_bubbling_handler(session_handler).applicationbound())
 
             stack.enter_context(self.console_handler.applicationbound())
             stack.enter_context(self.warnings_handler.applicationbound())
@@ -194,13 +203,11 @@ class SessionLogging(object):
                 stack.enter_context(logbook.StreamHandler(sys.stderr, bubble=True, level=logbook.TRACE))
             for extra_handler in _extra_handlers:
                 stack.enter_context(extra_handler.applicationbound())
-            if config.root.log.unified_session_log and self.session_log_handler is not None:
-                stack.enter_context(_make_bubbling_handler(self.session_log_handler))
             if config.root.run.capture.error_logs_as_errors:
                 stack.enter_context(ErrorHandler().applicationbound())
 
             path = handler.stream.name if isinstance(handler, logbook.FileHandler) else None
-            yield handler, path
+            yield handlers, path
 
     def _should_delete_log(self, result):
         return (not config.root.log.cleanup.keep_failed) or \
@@ -368,7 +375,7 @@ def _make_bubbling_handler(handler):
 class _BubblingWrapper(logbook.Handler):
 
     def __init__(self, handler):
-        super(_BubblingWrapper, self).__init__(bubble=True)
+        super(_BubblingWrapper, self).__init__(bubble=True, filter=handler.filter)
         self._handler = handler
         self.should_handle = self._handler.should_handle
         self.handle = self._handler.handle
-- 
2.43.0


From ead4660b167576b586496501ce28b522bb4b9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 54/79] fix: last_test_symlink was not updated when tests are
 logged to an open file, and links were removed when there is no log file

---
 slash/log.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slash/log.py b/slash/log.py
index 10d7b42..1a3f199 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -266,13 +266,13 @@ class SessionLogging(object):
         else:
             log_path = self._get_log_file_path(subpath, use_compression)
             handler = self._log_path_to_handler.get(log_path, None)
+            if symlink:
+                self._try_create_symlink(log_path, symlink)
             if handler is not None:
                 yield handler
             else:
                 result = context.result
                 ensure_containing_directory(log_path)
-                if symlink:
-                    self._try_create_symlink(log_path, symlink)
                 handler = self._create_log_file_handler(log_path, bubble=bubble, use_compression=use_compression,
                                                         use_rotation=use_rotation, filter=filter)
                 try:
@@ -304,7 +304,7 @@ class SessionLogging(object):
         self._try_create_symlink(worker_dir, symlink)
 
     def _try_create_symlink(self, path, symlink):
-        if symlink is None or config.root.log.root is None or config.root.parallel.worker_id is not None:
+        if path is None or symlink is None or config.root.log.root is None or config.root.parallel.worker_id is not None:
             return
 
         symlink = self._normalize_path(symlink)
-- 
2.43.0


From 358823720d0b5a9a258a1be63556f372ab427305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 55/79] fix: log cleanup removed the log root when its path is
 not normalized

---
 slash/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index 1a3f199..b44aecc 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -289,7 +289,8 @@ class SessionLogging(object):
                         with handling_exceptions(swallow=True):
                             os.remove(log_path)
                             dir_path = os.path.dirname(log_path)
-                            if not os.listdir(dir_path) and dir_path != self._normalize_path(config.root.log.root):
+                            root = os.path.abspath(self._normalize_path(config.root.log.root))
+                            if not os.listdir(dir_path) and os.path.abspath(dir_path) != root:
                                 os.rmdir(dir_path)
 
 
-- 
2.43.0


From e2813384472d60fa54ec0b23668704d2060cae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 56/79] fix: the ci links plugin failed all tests when no logs
 are written

---
 slash/plugins/builtin/ci_links.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slash/plugins/builtin/ci_links.py b/slash/plugins/builtin/ci_links.py
index 6855531..db9ef7d 100644
--- a/slash/plugins/builtin/ci_links.py
+++ b/slash/plugins/builtin/ci_links.py
@@ -36,6 +36,8 @@ class Plugin(PluginInterface):
         build_url = self._get_build_url()
         if build_url is not None:
             local_path = context.result.get_log_path()
+            if local_path is None:
+                return
             context.result.details.set(
                 'log_link',
                 self.current_config.link_template %
-- 
2.43.0


From ddd20a4c4365097582641618e0e92f9d5c9ba077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:07 +0000
Subject: [PATCH 57/79] fix: tests which failed and were also skipped were not
 resumed with --failed-only or --no-skipped

---
 slash/resuming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index f477ac6..fe3e8f6 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -111,13 +111,13 @@ def save_resume_state(session_result, collected_tests):
         test_to_resume.variation = str(metadata.variation.id) if metadata.variation else None
         if result.is_success_finished():
             test_to_resume.status = ResumeTestStatus.SUCCESS
+        elif result.is_skip() and not (result.is_error() or result.is_failure() or result.is_interrupted()):
+            test_to_resume.status = ResumeTestStatus.SKIPPED
         elif not result.is_started():
             test_to_resume.status = ResumeTestStatus.PLANNED
         else:
             test_to_resume.status = ResumeTestStatus.FAILED
 
-        if result.is_skip():
-            test_to_resume.status = ResumeTestStatus.SKIPPED
         tests_to_resume.append(test_to_resume)
     tests_with_no_results = {test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None}
 
-- 
2.43.0


From 39e842c747151da4bed849d0c55d90c2552897b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:07 +0000
Subject: [PATCH 58/79] fix: tests which were not run were resumed in random
 order, and those sharing an address only once

---
 slash/resuming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index fe3e8f6..d1c74f3 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -119,7 +119,8 @@ def save_resume_state(session_result, collected_tests):
             test_to_resume.status = ResumeTestStatus.FAILED
 
         tests_to_resume.append(test_to_resume)
-    tests_with_no_results = {test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None}
+    # tests which differ only in repetition or in undisplayable parameters have the same address, yet each of them has to be resumed
+    tests_with_no_results = [test.__slash__ for test in collected_tests if session_result.safe_get_result(test) is None]
 
     for test_metadata in tests_with_no_results:
         test_to_resume = ResumeState(session_id=session_result.session.id, file_name=test_metadata.file_path,\
-- 
2.43.0


From bcdbd182297138495de095c6343dabf3b18fad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:07 +0000
Subject: [PATCH 59/79] fix: resuming tests marked with slash.repeat repeated
 each of their repetitions

---
 slash/core/metadata.py | 1 +
 slash/loader.py        | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/slash/core/metadata.py b/slash/core/metadata.py
index fa53170..e6ef63a 100644
--- a/slash/core/metadata.py
+++ b/slash/core/metadata.py
@@ -22,6 +22,7 @@ class Metadata(object):
         self.tags = test.get_tags()
         self._sort_key = next(_sort_key_generator)
         self.repeat_all_index = 0
+        self.is_resumed = False
         self.parallel_index = None
         if factory is not None:
             #: The path to the file from which this test was loaded
diff --git a/slash/loader.py b/slash/loader.py
index cd77c9e..8b54175 100644
--- a/slash/loader.py
+++ b/slash/loader.py
@@ -80,7 +80,9 @@ class Loader(object):
         returned = []
         repeat_each = config.root.run.repeat_each
         for test in tests:
-            for i in range(repeat_each * repeat_marker.get_value(test.get_test_function(), 1)):
+            # each repetition of a previous session is resumed by itself
+            num_marked = 1 if test.__slash__.is_resumed else repeat_marker.get_value(test.get_test_function(), 1)
+            for i in range(repeat_each * num_marked):
                 returned.append(test.clone() if i else test)
         num_tests = len(returned)
         for i in range(config.root.run.repeat_all - 1):
@@ -131,6 +133,7 @@ class Loader(object):
                 if resume_state.variation:
                     if not resume_state.variation == test.get_variation().id:
                         continue
+                test.__slash__.is_resumed = True
                 yield test
 
     def _iter_test_address(self, address):
-- 
2.43.0


From afed00f2e3268e68d96afc3ee093385d19b4bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:07 +0000
Subject: [PATCH 60/79] fix: sessions ending at the same time failed to save
 their resume state, or lost it

---
 slash/resuming.py   | 18 ++++++++++--------
 slash/utils/path.py |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/slash/resuming.py b/slash/resuming.py
index d1c74f3..eeb68ac 100644
--- a/slash/resuming.py
+++ b/slash/resuming.py
@@ -18,6 +18,7 @@ from .conf import config
 from .__version__ import __backslash_version__
 
 _DB_NAME = 'resume_state_v2.db'
+_DB_TIMEOUT_SECONDS = 60
 _logger = logbook.Logger(__name__)
 Base = declarative_base()
 _session = sessionmaker()
@@ -65,8 +66,15 @@ class ResumedTestData(object):
 def _init_db():
     resume_dir = os.path.expanduser(config.root.run.resume_state_path)
     ensure_directory(resume_dir)
-    engine = create_engine('sqlite:///{}/{}'.format(resume_dir, _DB_NAME))
+    engine = create_engine('sqlite:///{}/{}'.format(resume_dir, _DB_NAME), connect_args={'timeout': _DB_TIMEOUT_SECONDS})
     _session.configure(bind=engine)
+    for _ in Base.metadata.tables:
+        try:
+            Base.metadata.create_all(engine)
+            return
+        except OperationalError:
+            # another session may have just created one of the tables
+            continue
     Base.metadata.create_all(engine)
 
 
@@ -78,13 +86,7 @@ def connecting_to_db():
         _db_initialized = True
     with closing(_session()) as new_session:
         yield new_session
-        max_retries = 3
-        for i in range(max_retries):
-            try:
-                new_session.commit() # pylint: disable=no-member
-            except OperationalError:
-                if i == max_retries - 1:
-                    raise
+        new_session.commit() # pylint: disable=no-member
 
 
 def clean_old_entries():
diff --git a/slash/utils/path.py b/slash/utils/path.py
index 9ad1c9f..3cf6b09 100644
--- a/slash/utils/path.py
+++ b/slash/utils/path.py
@@ -5,4 +5,4 @@ def ensure_containing_directory(path):
 
 def ensure_directory(directory):
     if not os.path.isdir(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
-- 
2.43.0


From ea570308adee7a6fbc6dea54c94a80ac682bfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:21 +0000
Subject: [PATCH 61/79] fix: tests opting out of fixtures did not show the
 parameters of the autouse fixtures they run with

---
 slash/core/variation_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slash/core/variation_factory.py b/slash/core/variation_factory.py
index 918bd6d..10b8aa9 100644
--- a/slash/core/variation_factory.py
+++ b/slash/core/variation_factory.py
@@ -27,6 +27,9 @@ class VariationFactory(object):
         self._param_name_bindings = {}
         self._known_value_strings = collections.defaultdict(dict)
 
+        for fixture in self._autouse_fixtures:
+            self._populate_param_name_bindings(fixture.info.name, fixture, prefix='::')
+
     def add_needed_fixture_id(self, fixture_id):
         self._needed_fixtures.append(self._store.get_fixture_by_id(fixture_id))
 
@@ -74,9 +77,6 @@ class VariationFactory(object):
             self._populate_param_name_bindings(arg_name, fixture)
             self._arg_name_bindings[arg_name] = fixture
 
-        for fixture in self._autouse_fixtures:
-            self._populate_param_name_bindings(fixture.info.name, fixture, prefix='::')
-
         for fixture_name in getattr(func, '__extrafixtures__', []):
             fixture = self._store.get_fixture_by_name(fixture_name)
             self._populate_param_name_bindings(fixture_name, fixture)
-- 
2.43.0


From 9226735bc48a08a18cf44755a92807c4d56f4e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:04 +0000
Subject: [PATCH 62/79] fix: parallel workers confused tests of the same name
 in different classes of a file

---
 slash/parallel/server.py | 2 +-
 slash/parallel/worker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index 31793fd..89c6426 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -78,7 +78,7 @@ class Server(object):
         self.worker_to_pid = {}
         self.connected_clients = set()
         self.collection = [[test.__slash__.file_path,
-                            test.__slash__.function_name,
+                            test.__slash__.address_in_file,
                             test.__slash__.variation.dump_variation_dict()]
                            for test in self.tests]
         self._sorted_collection = sorted(self.collection)
diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 964a85c..12cc6ba 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -81,7 +81,7 @@ class Worker(object):
         register(self.warning_added)
         register(self.error_added)
         collection = [(test.__slash__.file_path,
-                      test.__slash__.function_name,
+                      test.__slash__.address_in_file,
                       test.__slash__.variation.dump_variation_dict()) for test in collected_tests]
         if not self.client.validate_collection(self.client_id, sorted(collection)):
             _logger.error("Collections of worker id {} and master don't match, worker terminates", self.client_id,
-- 
2.43.0


From 6fd3edb546033399c83674d03ef86fa13505dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 63/79] fix: requests sent to the parallel server by several
 threads of a worker were mixed up or lost

---
 slash/parallel/worker.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 12cc6ba..ee7baa5 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -17,6 +17,22 @@ _HAS_PID_PGID = platform.system() != 'Windows'
 
 _logger = logbook.Logger(__name__)
 
+class ServerClient(object):
+    """Sends requests to the server, each through a connection of its own. Requests are sent from any thread emitting
+    warnings, perhaps while another request is being sent, and proxies must not be shared by concurrent requests
+    """
+
+    def __init__(self, server_addr):
+        super(ServerClient, self).__init__()
+        self._server_addr = server_addr
+
+    def __getattr__(self, method_name):
+        def request(*args):
+            with xmlrpc_client.ServerProxy(self._server_addr, allow_none=True) as proxy:
+                return getattr(proxy, method_name)(*args)
+        return request
+
+
 class Worker(object):
     def __init__(self, client_id, session_id):
         super(Worker, self).__init__()
@@ -57,7 +73,7 @@ class Worker(object):
 
     def connect_to_server(self):
         try:
-            self.client = xmlrpc_client.ServerProxy(self.server_addr, allow_none=True)
+            self.client = ServerClient(self.server_addr)
             self.client.connect(self.client_id, os.getpid())
             self._stop_event = threading.Event()
             self._watchdog_thread = threading.Thread(target=self.keep_alive, args=(self._stop_event,), daemon=True)
-- 
2.43.0


From d8adcd52e61d496d61f434c14aea4361379cf1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 64/79] fix: parallel workers which collected other tests than
 the parent crashed, and their parent kept waiting for them

---
 slash/parallel/server.py | 4 +++-
 slash/parallel/worker.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index 89c6426..e45ccf2 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -129,7 +129,7 @@ class Server(object):
         self.worker_session_ids.append(client_session_id)
         self.worker_to_pid[client_id] = client_pid
         self.executing_tests[client_id] = None
-        if len(self.connected_clients) >= config.root.parallel.num_workers:
+        if self.state == ServerStates.WAIT_FOR_CLIENTS and len(self.connected_clients) >= config.root.parallel.num_workers:
             _logger.notice("All workers connected to server")
             self.state = ServerStates.WAIT_FOR_COLLECTION_VALIDATION
 
@@ -149,6 +149,8 @@ class Server(object):
         self.connected_clients.remove(client_id)
         if has_failure:
             self.state = ServerStates.STOP_TESTS_SERVING
+            self._mark_unrun_tests()
+            self.worker_error_reported = True
 
     def get_test(self, client_id):
         if not self.executing_tests[client_id] is None:
diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index ee7baa5..a27351a 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -103,7 +103,7 @@ class Worker(object):
             _logger.error("Collections of worker id {} and master don't match, worker terminates", self.client_id,
                           extra={'capture': False})
             self._stop_keepalive_thread()
-            self.client.disconnect(self.client_id, has_failure=True)
+            self.client.disconnect(self.client_id, True)
             return
 
         should_stop = False
-- 
2.43.0


From 0ae3a688a05af0e4eff264733e37cc969c5480b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 65/79] fix: parallel sessions never ended if a worker was lost
 before its first keepalive

---
 slash/parallel/parallel_manager.py | 2 +-
 slash/parallel/server.py           | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index 65d79fc..c9ec086 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -90,7 +90,7 @@ class ParallelManager(object):
         for worker_id in self.server.get_connected_clients():
             worker_last_connection_time = workers_last_connection_time.get(worker_id, None)
             if worker_last_connection_time is None: #worker keepalive thread didn't started yet
-                continue
+                worker_last_connection_time = self.server.clients_connection_time[worker_id]
             if time.time() - worker_last_connection_time > config.root.parallel.communication_timeout_secs:
                 _logger.error("Worker {} is down, terminating session", worker_id, extra={'capture': False})
                 self.report_worker_error_logs()
diff --git a/slash/parallel/server.py b/slash/parallel/server.py
index e45ccf2..7e21ed0 100644
--- a/slash/parallel/server.py
+++ b/slash/parallel/server.py
@@ -76,6 +76,7 @@ class Server(object):
         self.num_collections_validated = 0
         self.start_time = time.time()
         self.worker_to_pid = {}
+        self.clients_connection_time = {}
         self.connected_clients = set()
         self.collection = [[test.__slash__.file_path,
                             test.__slash__.address_in_file,
@@ -94,6 +95,9 @@ class Server(object):
         return len(self.finished_tests) < len(self.tests)
 
     def report_client_failure(self, client_id):
+        if client_id not in self.connected_clients:
+            _logger.debug("Worker {} is already disconnected", client_id)
+            return
         self.connected_clients.remove(client_id)
         test_index = self.executing_tests.get(client_id, None)
         if test_index is not None:
@@ -122,6 +126,7 @@ class Server(object):
 
     def connect(self, client_id, client_pid):
         _logger.notice("Client_id {} connected", client_id)
+        self.clients_connection_time[client_id] = time.time()
         self.connected_clients.add(client_id)
         client_session_id = '{}_{}'.format(context.session.id.split('_')[0], client_id)
         context.session.logging.create_worker_symlink(self._get_worker_session_id(client_id), client_session_id)
-- 
2.43.0


From d2d22891025f56a71e6372276ce76875c7f0bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 66/79] fix: parallel sessions never ended if a worker did not
 terminate when asked to

---
 slash/parallel/parallel_manager.py     |  4 ++++
 slash/parallel/worker_configuration.py | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index c9ec086..e4f8c83 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -85,6 +85,10 @@ class ParallelManager(object):
                                    Clients connected: {}".format(self.server.connected_clients))
             time.sleep(TIME_BETWEEN_CHECKS)
 
+    def is_worker_alive(self, worker_id, timeout):
+        last_connection_time = self.keepalive_server.get_workers_last_connection_time().get(worker_id, 0)
+        return time.time() - last_connection_time <= timeout
+
     def check_worker_timed_out(self):
         workers_last_connection_time = self.keepalive_server.get_workers_last_connection_time()
         for worker_id in self.server.get_connected_clients():
diff --git a/slash/parallel/worker_configuration.py b/slash/parallel/worker_configuration.py
index 1960fe0..b5b5a13 100644
--- a/slash/parallel/worker_configuration.py
+++ b/slash/parallel/worker_configuration.py
@@ -96,12 +96,15 @@ class WorkerConfiguration(object):
         raise NotImplementedError()
 
 class ProcessWorkerConfiguration(WorkerConfiguration):
+    _killed = False
+
     def _start(self):
         with open(os.devnull, 'w') as devnull:
             self._pid = subprocess.Popen(self.argv, stdin=devnull, stdout=devnull, stderr=devnull)
 
     def kill(self):
         if self._pid is not None:
+            self._killed = True
             self._pid.send_signal(signal.SIGTERM)
 
     def handle_timeout(self):
@@ -112,6 +115,19 @@ class ProcessWorkerConfiguration(WorkerConfiguration):
         return self._pid.poll() is None
 
     def wait_to_finish(self):
+        if self._pid is None:
+            return
+        while self._killed:
+            timeout = config.root.parallel.communication_timeout_secs
+            try:
+                self._pid.wait(timeout=timeout)
+                return
+            except subprocess.TimeoutExpired:
+                # Workers may take long to clean up, but not without giving any sign of life
+                if not ctx.session.parallel_manager.is_worker_alive(self._worker_id, timeout):
+                    _logger.error("Worker {} does not terminate, killing it", self._worker_id, extra={'capture': False})
+                    self._pid.kill()
+                    self._killed = False
         self._pid.wait()
 
 class TmuxWorkerConfiguration(WorkerConfiguration):
-- 
2.43.0


From ceb116debe0e2d4cf952db18b78a593dbaae1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 67/79] fix: parallel sessions never ended if one of their
 workers could not be started

---
 slash/parallel/parallel_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slash/parallel/parallel_manager.py b/slash/parallel/parallel_manager.py
index e4f8c83..6409224 100644
--- a/slash/parallel/parallel_manager.py
+++ b/slash/parallel/parallel_manager.py
@@ -119,8 +119,12 @@ class ParallelManager(object):
     def start(self):
         self.try_connect()
         try:
-            for worker in list(self.workers.values()):
-                worker.start()
+            try:
+                for worker in list(self.workers.values()):
+                    worker.start()
+            except Exception:
+                self.kill_workers()
+                raise
             self.wait_all_workers_to_connect()
             while self.server.should_wait_for_request():
                 self.check_worker_timed_out()
-- 
2.43.0


From 7181a4c87aae057198a3857b5891d59cd17716e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:54 +0000
Subject: [PATCH 68/79] fix: errors added by workers to results they already
 reported were lost, and parallel sessions succeeded in spite of them

---
 slash/parallel/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index a27351a..4acdf96 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -42,6 +42,7 @@ class Worker(object):
         self.keepalive_server_addr = 'http://{}:{}'.format(config.root.parallel.server_addr, config.root.parallel.keepalive_port)
         self._stop_event = None
         self._watchdog_thread = None
+        self._sent_results = []
 
     def keep_alive(self, stop_event):
         proxy = xmlrpc_client.ServerProxy(self.keepalive_server_addr)
@@ -59,7 +60,8 @@ class Worker(object):
             self.client.report_warning(self.client_id, warning)
 
     def error_added(self, error, result):
-        if result.is_global_result():
+        # errors of cleanups may be added to the results of tests which already finished
+        if result.is_global_result() or any(sent is result for sent in self._sent_results):
             self.client.report_session_error("Session error in client id {}: {}".format(self.client_id, error.message))
 
     def write_to_error_file(self, msg):
@@ -131,6 +133,7 @@ class Worker(object):
                         run_tests([test])
                         result = context.session.results[test]
                         _logger.debug("Client {} finished test, sending results", self.client_id)
+                        self._sent_results.append(result)
                         ret = self.client.finished_test(self.client_id, result.serialize())
                         if ret == PROTOCOL_ERROR:
                             _logger.error("Worker_id {} recieved protocol error message, terminating", self.client_id,
-- 
2.43.0


From 3e5b2b38ad710e15c7e3abbda30c6c6e0b92f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:54 +0000
Subject: [PATCH 69/79] fix: session errors of parallel workers were lost if
 their messages contain control characters

---
 slash/parallel/worker.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/slash/parallel/worker.py b/slash/parallel/worker.py
index 4acdf96..61fccfc 100644
--- a/slash/parallel/worker.py
+++ b/slash/parallel/worker.py
@@ -2,6 +2,7 @@ import threading
 import logbook
 import os
 import pickle
+import re
 import time
 import collections
 import platform
@@ -17,6 +18,14 @@ _HAS_PID_PGID = platform.system() != 'Windows'
 
 _logger = logbook.Logger(__name__)
 
+_NON_XML_CHARACTERS = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
+def _get_transferable_text(text):
+    """Escapes the characters which cannot be a part of XML-RPC requests
+    """
+    return _NON_XML_CHARACTERS.sub(lambda match: match.group(0).encode('unicode_escape').decode('ascii'), text)
+
+
 class ServerClient(object):
     """Sends requests to the server, each through a connection of its own. Requests are sent from any thread emitting
     warnings, perhaps while another request is being sent, and proxies must not be shared by concurrent requests
@@ -62,7 +71,8 @@ class Worker(object):
     def error_added(self, error, result):
         # errors of cleanups may be added to the results of tests which already finished
         if result.is_global_result() or any(sent is result for sent in self._sent_results):
-            self.client.report_session_error("Session error in client id {}: {}".format(self.client_id, error.message))
+            self.client.report_session_error(
+                _get_transferable_text("Session error in client id {}: {}".format(self.client_id, error.message)))
 
     def write_to_error_file(self, msg):
         try:
-- 
2.43.0


From 4961effc52266e3918869420ff3505b657ebbaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:51 +0000
Subject: [PATCH 70/79] fix: frames replaced in traceback objects were left
 alive with a reference count of zero, until collected

---
 slash/utils/traceback_proxy.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/slash/utils/traceback_proxy.py b/slash/utils/traceback_proxy.py
index 39e6b43..81db0c2 100644
--- a/slash/utils/traceback_proxy.py
+++ b/slash/utils/traceback_proxy.py
@@ -22,6 +22,13 @@ if PYPY:
         raise NotImplementedError("Tracebacks manipulation is not possible in PyPy")
 
 else:
+    def _incref(obj):
+        ctypes.pythonapi.Py_IncRef(ctypes.py_object(obj))
+
+    def _decref(obj):
+        # unlike writing the reference count, this also destroys objects which are not referenced anymore
+        ctypes.pythonapi.Py_DecRef(ctypes.py_object(obj))
+
     class TracebackProxy(object):
         """
         Wraps the builtin traceback.traceback object.
@@ -89,20 +96,18 @@ else:
 
         @tb_next.setter
         def tb_next(self, tb):
-            if self._tb.tb_next:
-                old = TracebackProxy._Traceback.from_address(id(self._tb.tb_next)) # pylint: disable=no-member
-                old.ob_refcnt -= 1
-
+            old = self._tb.tb_next
             assert tb is None or isinstance(tb, types.TracebackType) or isinstance(tb, TracebackProxy)
             if tb:
                 if type(tb) is TracebackProxy:
                     # the interpreter follows the chain, so it must consist of actual traceback objects
                     tb = tb._tb # pylint: disable=protected-access
-                obj = TracebackProxy._Traceback.from_address(id(tb)) # pylint: disable=no-member
-                obj.ob_refcnt += 1
-                self._obj.tb_next = ctypes.pointer(obj)
+                _incref(tb)
+                self._obj.tb_next = ctypes.pointer(TracebackProxy._Traceback.from_address(id(tb))) # pylint: disable=no-member
             else:
                 self._obj.tb_next = ctypes.POINTER(TracebackProxy._Traceback)()
+            if old is not None:
+                _decref(old)
 
         @property
         def tb_frame(self):
@@ -110,16 +115,15 @@ else:
 
         @tb_frame.setter
         def tb_frame(self, frame):
-            if self._tb.tb_frame:
-                old = TracebackProxy._Frame.from_address(id(self._tb.tb_frame)) # pylint: disable=no-member
-                old.ob_refcnt -= 1
+            old = self._tb.tb_frame
             if frame:
                 assert isinstance(frame, types.FrameType)
-                frame = TracebackProxy._Frame.from_address(id(frame)) # pylint: disable=no-member
-                frame.ob_refcnt += 1
-                self._obj.tb_frame = ctypes.pointer(frame)
+                _incref(frame)
+                self._obj.tb_frame = ctypes.pointer(TracebackProxy._Frame.from_address(id(frame))) # pylint: disable=no-member
             else:
                 self._obj.tb_frame = ctypes.POINTER(TracebackProxy._Frame)()
+            if old is not None:
+                _decref(old)
 
         @property
         def tb_lasti(self):
-- 
2.43.0


From fadeb0dca63fcc51e6728d269e38ea35afaf2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:33 +0000
Subject: [PATCH 71/79] fix: warnings ignored by a block of a customization
 file were recorded

---
 slash/app.py      |  6 ++++--
 slash/warnings.py | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/slash/app.py b/slash/app.py
index 2f30cf7..1b2cc12 100644
--- a/slash/app.py
+++ b/slash/app.py
@@ -19,7 +19,7 @@ from .log import ConsoleHandler
 from .utils import cli_utils
 from .utils.debug import debug_if_needed
 from .utils.warning_capture import warning_callback_context
-from .warnings import RecordedWarning, capture_all_warnings
+from .warnings import RecordedWarning, capture_all_warnings, is_warning_ignored
 
 _logger = logbook.Logger(__name__)
 inhibit_unhandled_exception_traceback(SlashException)
@@ -173,7 +173,9 @@ class Application(object):
             trigger_hook.result_summary() # pylint: disable=no-member
 
     def _capture_native_warning(self, message, category, filename, lineno, file=None, line=None): # pylint: disable=unused-argument
-        self._prelude_warning_records.append(RecordedWarning.from_native_warning(message, category, filename, lineno))
+        warning = RecordedWarning.from_native_warning(message, category, filename, lineno)
+        if not is_warning_ignored(warning):
+            self._prelude_warning_records.append(warning)
 
     def _prelude_logging_context(self):
         self._prelude_log_handler = log.RetainedLogHandler(bubble=True, level=logbook.TRACE)
diff --git a/slash/warnings.py b/slash/warnings.py
index 40d1bac..85cb88c 100644
--- a/slash/warnings.py
+++ b/slash/warnings.py
@@ -37,10 +37,7 @@ class SessionWarnings(object):
             yield
 
     def warning_should_be_filtered(self, warning):
-        for ignored_warning in _ignored_warnings:
-            if ignored_warning.matches(warning):
-                return True
-        return False
+        return is_warning_ignored(warning)
 
     def _capture_native_warning(self, message, category, filename, lineno, file=None, line=None): # pylint: disable=unused-argument
         warning = RecordedWarning.from_native_warning(message, category, filename, lineno)
@@ -199,6 +196,13 @@ class _IgnoredWarning(object):
 _ignored_warnings = []
 
 
+def is_warning_ignored(warning):
+    for ignored_warning in _ignored_warnings:
+        if ignored_warning.matches(warning):
+            return True
+    return False
+
+
 def ignore_warnings(category=None, message=None, filename=None, lineno=None):
     """
     Ignores warnings of specific origin (category/filename/lineno/message) during the session. Unlike
-- 
2.43.0


From cfcc55cb65ac1636b8cb0bb373b7e904209a5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:30 +0000
Subject: [PATCH 72/79] fix: the summary of the results was missing from
 notification mails

---
 slash/plugins/builtin/email_template.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/plugins/builtin/email_template.j2 b/slash/plugins/builtin/email_template.j2
index f937a48..6bd554b 100644
--- a/slash/plugins/builtin/email_template.j2
+++ b/slash/plugins/builtin/email_template.j2
@@ -147,7 +147,7 @@
                     </tr>
                     <tr>
                       <td style="word-wrap:break-word;font-size:0px;padding:10px 25px;" align="left">
-                        <div style="cursor:auto;color:#000000;font-family:Ubuntu, Helvetica, Arial, sans-serif;font-size:13px;line-height:22px;text-align:left;">{{result_summary}}</div>
+                        <div style="cursor:auto;color:#000000;font-family:Ubuntu, Helvetica, Arial, sans-serif;font-size:13px;line-height:22px;text-align:left;">{{results_summary}}</div>
                       </td>
                     </tr>
                     
-- 
2.43.0


From 4729d61a42c76869c7a4a6d407aa7240f4c87cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:30 +0000
Subject: [PATCH 73/79] fix: a notifier failing when the debugger is entered
 made the run enter it without end

---
 slash/plugins/builtin/notifications.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/builtin/notifications.py b/slash/plugins/builtin/notifications.py
index c98a7a6..e3f38ca 100644
--- a/slash/plugins/builtin/notifications.py
+++ b/slash/plugins/builtin/notifications.py
@@ -87,6 +87,7 @@ class Plugin(PluginInterface):
     def __init__(self, *args, **kwargs):
         super(Plugin, self).__init__(*args, **kwargs)
         self._notifiers = {}
+        self._is_notifying_pdb = False
         self._basic_config = {
             "prowl_api_key" : None,
             "nma_api_key" : None,
@@ -218,9 +219,13 @@ class Plugin(PluginInterface):
         return Message(title, short_message, kwargs, is_pdb)
 
     def entering_debugger(self, exc_info):
-        if not self.current_config.notify_on_pdb:
+        if not self.current_config.notify_on_pdb or self._is_notifying_pdb:
             return
-        self._notify_all(short_message=_escape_format(repr(exc_info[1])), is_pdb=True)
+        self._is_notifying_pdb = True
+        try:
+            self._notify_all(short_message=_escape_format(repr(exc_info[1])), is_pdb=True)
+        finally:
+            self._is_notifying_pdb = False
 
     def session_end(self):
         if session.duration < self.current_config.notification_threshold:
-- 
2.43.0


From 98aa70c4ce920b03998fa918b07c93946d1dc2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:59 +0000
Subject: [PATCH 74/79] fix: Slack notifications sent after a broken notifier
 were colored as failures of sessions they tell have succeeded

---
 slash/plugins/builtin/notifications.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/plugins/builtin/notifications.py b/slash/plugins/builtin/notifications.py
index e3f38ca..a552f63 100644
--- a/slash/plugins/builtin/notifications.py
+++ b/slash/plugins/builtin/notifications.py
@@ -174,7 +174,7 @@ class Plugin(PluginInterface):
         if (slack_config.url is None) or (slack_config.channel is None):
             return
 
-        color = '#439FE0' if message.is_pdb else ('good' if self._finished_successfully() else 'danger')
+        color = '#439FE0' if message.is_pdb else ('good' if message.kwargs['success'] else 'danger')
         kwargs = {
             'attachments': [{
                 'title': message.get_title(),
-- 
2.43.0


From 3a952f5e5d2392b6968c5f042b603eaef18f77a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:31 +0000
Subject: [PATCH 75/79] fix: signal handlers registered again while the signal
 handling plugin was active were kept after its deactivation

---
 slash/plugins/builtin/signal_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/plugins/builtin/signal_handling.py b/slash/plugins/builtin/signal_handling.py
index 20d460a..2d998a4 100644
--- a/slash/plugins/builtin/signal_handling.py
+++ b/slash/plugins/builtin/signal_handling.py
@@ -57,7 +57,8 @@ class Plugin(PluginInterface):
         # This method is used by register_handler as well
         # It cannot be public due to import-loop while importing "registers_on" before
         # PluginManager initialization finished (it creates all builtin plugins on init)
-        self._orig_handlers[signal_no] = signal.signal(signal_no, signal_handler)
+        orig_handler = signal.signal(signal_no, signal_handler)
+        self._orig_handlers.setdefault(signal_no, orig_handler)
 
     def activate(self):
         super().activate()
-- 
2.43.0


From bd3b1eb5daf0c073ebee31901af985c99f7033a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:02 +0000
Subject: [PATCH 76/79] fix: no value was accepted for --cov-config

---
 slash/plugins/builtin/coverage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slash/plugins/builtin/coverage.py b/slash/plugins/builtin/coverage.py
index 6eaf62c..61b6447 100644
--- a/slash/plugins/builtin/coverage.py
+++ b/slash/plugins/builtin/coverage.py
@@ -19,7 +19,7 @@ class Plugin(PluginInterface):
 
     def get_default_config(self):
         return {
-            'config_filename': False // Cmdline(arg='--cov-config') // Doc('Coverage configuration file'),
+            'config_filename': None // Cmdline(arg='--cov-config') // Doc('Coverage configuration file'),
             'report_type': 'html' // Cmdline(arg='--cov-report') // Doc('Coverage report format'),
             'report': True,
             'append': False // Cmdline(on='--cov-append') // Doc('Append coverage data to existing file'),
@@ -38,7 +38,7 @@ class Plugin(PluginInterface):
             data_file_name += "." + slash_config.root.parallel.worker_id
         self._cov = coverage.Coverage(
             data_file=data_file_name,
-            config_file=slash_config.root.plugin_config.coverage.config_filename,
+            config_file=slash_config.root.plugin_config.coverage.config_filename or False,
             source=sources,
         )
         if slash_config.root.plugin_config.coverage.append:
-- 
2.43.0


From b74fe028fd41f521ee4eb47c6a48506546685b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:50 +0000
Subject: [PATCH 77/79] fix: links to logs below a relative log root were
 dangling

---
 slash/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slash/log.py b/slash/log.py
index b44aecc..5eb7281 100644
--- a/slash/log.py
+++ b/slash/log.py
@@ -318,7 +318,8 @@ class SessionLogging(object):
 
             if os.path.exists(symlink) or os.path.islink(symlink):
                 os.unlink(symlink)
-            os.symlink(path, symlink)
+            # relative targets would be taken relative to the directory of the link
+            os.symlink(os.path.abspath(path), symlink)
 
         except Exception:  # pylint: disable=broad-except
             _logger.debug("Failed to create symlink {0} --> {1}", path, symlink, exc_info=True)
-- 
2.43.0


From 7a0b3e0cfde1edc8cd6ca5723d89b817adb437c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:32 +0000
Subject: [PATCH 78/79] fix: slash list-config PATH listed everything under the
 parents of the path as well

---
 slash/frontend/list_config.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/slash/frontend/list_config.py b/slash/frontend/list_config.py
index 9adb222..fc41161 100644
--- a/slash/frontend/list_config.py
+++ b/slash/frontend/list_config.py
@@ -23,7 +23,7 @@ def list_config(args, report_stream=sys.stdout):
     args = _parse_args(args.argv)
     _print = Printer(report_stream, force_color=args.force_color, enable_color=args.enable_color)
 
-    filters = _parse_filters(args.paths)
+    filters = set(args.paths)
 
     slash.site.load()
     with slash.Session():
@@ -38,12 +38,6 @@ def list_config(args, report_stream=sys.stdout):
     return 0
 
 
-def _parse_filters(paths):
-    returned = set()
-    for p in paths:
-        returned.update(_iter_subpaths(p))
-    return returned
-
 def _iter_subpaths(p):
     p = p.split('.')
     for i in range(len(p)):
-- 
2.43.0


From 5e81a6281fed09a2555f6a0b754eb583bd4c5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:32 +0000
Subject: [PATCH 79/79] fix: missing parenthesis in the output of slash
 list-plugins

---
 slash/frontend/slash_list_plugins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slash/frontend/slash_list_plugins.py b/slash/frontend/slash_list_plugins.py
index 31636ff..ca8a14b 100644
--- a/slash/frontend/slash_list_plugins.py
+++ b/slash/frontend/slash_list_plugins.py
@@ -36,7 +36,7 @@ def slash_list_plugins(args, report_stream=sys.stdout):
         normalized_name = manager.normalize_command_line_name(name)
         _print(_title_style(name), end=' ')
         if name in active:
-            _print(_enabled_style('active (use --without-{} to deactivate'.format(normalized_name)))
+            _print(_enabled_style('active (use --without-{} to deactivate)'.format(normalized_name)))
         else:
             _print(_disabled_style('inactive (use --with-{} to activate)'.format(normalized_name)))
         if plugin.__doc__:
-- 
2.43.0

