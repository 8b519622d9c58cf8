From 0eeeb9c691b75652184162698679283b6c45b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 01/46] fix: write StateIO checkpoints atomically

StateIO.save truncated the previous checkpoint before writing the new one, so
a kill or a full disk during the save destroyed the last good checkpoint.
---
 alipy/experiment/state_io.py |  6 +++---
 alipy/utils/misc.py          | 31 +++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index cba4882..c5cd265 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -27,6 +27,7 @@ from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
 from ..index.multi_label_tools import check_index_multilabel
 from ..utils.interface import BaseCollection
+from ..utils.misc import atomic_write
 
 __all__ = ['StateIO',
            ]
@@ -158,9 +159,8 @@ class StateIO:
         """Saving intermediate results to file."""
         if self._saving_dir is None:
             return
-        f = open(os.path.join(self._saving_dir, self._saving_file_name), 'wb')
-        pickle.dump(self, f)
-        f.close()
+        with atomic_write(os.path.join(self._saving_dir, self._saving_file_name)) as f:
+            pickle.dump(self, f)
 
     def add_state(self, state):
         """Add a State object to the container.
diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index 52da0ef..4605b44 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -4,6 +4,10 @@ Misc functions to be settled
 
 from __future__ import division
 
+import contextlib
+import os
+import threading
+
 import numpy as np
 from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, \
     rbf_kernel
@@ -18,6 +22,7 @@ __all__ = ['check_matrix',
            'calc_kernel_matrix',
            'check_one_to_one_correspondence',
            'unpack',
+           'atomic_write',
            ]
 
 def check_matrix(matrix):
@@ -259,3 +264,29 @@ def unpack(*args):
             ret_args.append(arg)
     return tuple(ret_args)
 
+
+@contextlib.contextmanager
+def atomic_write(path):
+    """Open a binary file for writing which appears under its name only when complete.
+
+    The content goes to a temporary file in the same directory, which replaces
+    the target once it has been written and closed. If anything fails, or the
+    program is killed half way, an existing file is left as it was.
+
+    Parameters
+    ----------
+    path: str
+        Path of the file to write.
+    """
+    path = os.path.realpath(path)
+    tmp_path = '%s.%d.%d.tmp' % (path, os.getpid(), threading.get_ident())
+    try:
+        with open(tmp_path, 'wb') as f:
+            yield f
+        os.replace(tmp_path, path)
+    except BaseException:
+        try:
+            os.remove(tmp_path)
+        except OSError:
+            pass
+        raise
-- 
2.43.0


From 98acf95e1db5b26bd479347d6093351ef59ff2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 02/46] fix: write the aceThreading state file atomically

A kill or a disk error while the run state was being saved left a truncated
multi_thread_state.pkl from which the run could not be recovered.
---
 alipy/utils/multi_thread.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index fd52558..662e1dc 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -11,6 +11,7 @@ from ..experiment import StateIO
 from ..index import IndexCollection, MultiLabelIndexCollection
 from ..index.multi_label_tools import check_index_multilabel
 from ..utils.interface import BaseCollection
+from ..utils.misc import atomic_write
 
 __all__ = ['aceThreading',
            ]
@@ -291,11 +292,11 @@ class aceThreading:
         if self._saving_path is None:
             return
         if os.path.isdir(self._saving_path):
-            f = open(os.path.join(self._saving_path, 'multi_thread_state.pkl'), 'wb')
+            path = os.path.join(self._saving_path, 'multi_thread_state.pkl')
         else:
-            f = open(self._saving_path, 'wb')
-        pickle.dump(self, f)
-        f.close()
+            path = self._saving_path
+        with atomic_write(path) as f:
+            pickle.dump(self, f)
 
     @classmethod
     def recover(cls, path):
-- 
2.43.0


From 34e946eded813510fd0877f6d8294fca9205afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 03/46] fix: write ToolBox settings atomically

A kill or a disk error during ToolBox.save destroyed the saved settings, and
with them the data split.
---
 alipy/toolbox.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index c54012b..bc8a054 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -18,6 +18,7 @@ from .metrics import performance
 from .oracle.knowledge_repository import MatrixRepository, ElementRepository
 from .oracle.oracle import OracleQueryMultiLabel, Oracle, OracleQueryFeatures
 from .query_strategy import check_query_type
+from .utils.misc import atomic_write
 from .utils.multi_thread import aceThreading
 
 class ToolBox:
@@ -536,11 +537,9 @@ class ToolBox:
             return
         saving_path = os.path.abspath(self._saving_path)
         if os.path.isdir(saving_path):
-            f = open(os.path.join(saving_path, 'al_settings.pkl'), 'wb')
-        else:
-            f = open(os.path.abspath(saving_path), 'wb')
-        pickle.dump(self, f)
-        f.close()
+            saving_path = os.path.join(saving_path, 'al_settings.pkl')
+        with atomic_write(saving_path) as f:
+            pickle.dump(self, f)
 
     def IndexCollection(self, array=None):
         """Return an IndexCollection object initialized with array."""
-- 
2.43.0


From af02fe1a1ce2a9bfb81e62c105d0a57ab196930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 04/46] fix: write saved oracles atomically

A kill or a disk error during save_oracle destroyed the oracle saved before.
---
 alipy/oracle/oracle.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index b0c8d6c..271961e 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -17,7 +17,7 @@ from sklearn.utils.validation import check_array
 from ..utils import interface
 from ..index.multi_label_tools import check_index_multilabel
 from ..utils.ace_warnings import *
-from ..utils.misc import check_one_to_one_correspondence, unpack
+from ..utils.misc import check_one_to_one_correspondence, unpack, atomic_write
 
 __all__ = ['Oracle',
            'OracleQueryInstance',
@@ -272,11 +272,9 @@ class Oracle(interface.BaseVirtualOracle):
         import pickle
         saving_path = os.path.abspath(saving_path)
         if os.path.isdir(saving_path):
-            f = open(os.path.join(saving_path, 'oracle.pkl'), 'wb')
-        else:
-            f = open(os.path.abspath(saving_path), 'wb')
-        pickle.dump(self, f)
-        f.close()
+            saving_path = os.path.join(saving_path, 'oracle.pkl')
+        with atomic_write(saving_path) as f:
+            pickle.dump(self, f)
 
     @classmethod
     def load_oracle(cls, path):
-- 
2.43.0


From d8d5b53bcc9f4af9c72c2a28d14f68eea58a4f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 05/46] fix: keep cost and query totals right after pop and
 recover_workspace

Both left the totals of the discarded queries in place, so that a cost budget
stopped a rolled-back fold too early; pop() without an index raised although
the last item is its documented default.
---
 alipy/experiment/state_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index c5cd265..b24d895 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -219,7 +219,9 @@ class StateIO:
 
     def pop(self, i=None):
         """remove and return item at index (default last)."""
-        return self.__state_list.pop(i)
+        state = self.__state_list.pop(-1 if i is None else i)
+        self.refresh_info()
+        return state
 
     def recover_workspace(self, iteration=None):
         """Recover workspace after $iteration$ querying.
@@ -256,6 +258,7 @@ class StateIO:
             work_U.difference_update(state.get_value('select_index'))
             work_L.update(state.get_value('select_index'))
         self.__state_list = self.__state_list[0:iteration]
+        self.refresh_info()
         return copy.copy(self.train_idx), copy.copy(self.test_idx), copy.deepcopy(work_L), copy.deepcopy(work_U)
 
     def get_workspace(self, iteration=None):
-- 
2.43.0


From e057bb4757882e15708d838a29d34b9eee09e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:45 +0000
Subject: [PATCH 06/46] fix: count only the fold threads against max_thread

---
 alipy/utils/multi_thread.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 662e1dc..182683f 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -203,10 +203,10 @@ class aceThreading:
                 while True:
                     if self._if_refresh():
                         print(self)
-                        # The active_count seems also include the main thread
-                        # print(threading.active_count())
-                    if threading.active_count() - 1 < self.__max_thread:
-                        available_thread += self.__max_thread - threading.active_count() + 1
+                    # only the threads of this object count, not other threads of the program
+                    running = sum(t.is_alive() for t in self.__threads)
+                    if running < self.__max_thread:
+                        available_thread = self.__max_thread - running
                         break
                 # run the if code
                 self.__threads[i].start()
-- 
2.43.0


From 1646611adf29d15a9331942cde5b83cfcbf1bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:39 +0000
Subject: [PATCH 07/46] fix: read the current performance from a stable copy of
 the states

---
 alipy/experiment/state_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index b24d895..d754cfe 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -313,10 +313,12 @@ class StateIO:
         std: float
             Std performance of the existing states.
         """
-        if len(self) == 0:
+        # work on a copy: another thread may add or remove states meanwhile
+        states = list(self.__state_list)
+        if len(states) == 0:
             return 0, 0
         else:
-            tmp = [self[i].get_value('performance') for i in range(self.__len__())]
+            tmp = [st.get_value('performance') for st in states]
             if isinstance(tmp[0], collections.Iterable):
                 return np.NaN, np.NaN
             else:
-- 
2.43.0


From 5eb606b81657bd1f26932cfff9debc374e5e43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:06 +0000
Subject: [PATCH 08/46] fix: make interrupted multi-thread runs recoverable at
 any point

A round counts as finished only when its function has returned, so that
failed, waiting and just started rounds are continued by recover(). The run
state is saved before the first round starts, results left by an earlier
experiment in the directory are removed first, and a round that has not
saved anything yet no longer makes recover() fail.
---
 alipy/utils/multi_thread.py | 47 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 182683f..e9e81a0 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -113,9 +113,12 @@ class aceThreading:
         self._start_time = time.perf_counter()
         # for displaying the time elapse
         self._thread_time_elapse = [-1] * self._round_num
-        # for recovering the workspace
-        self.__alive_thread = [False] * self._round_num
+        # for recovering the workspace: whether each round still has to be run
+        # (not started, running or failed). Only a round whose function has
+        # returned is finished.
+        self.__alive_thread = [True] * self._round_num
 
+        self._global_parameters = None
         self._target_func = None
         if target_func is not None:
             self.set_target_function(target_func)
@@ -171,19 +174,34 @@ class aceThreading:
         self._global_parameters = global_parameters
 
         # init thread objects
+        self.__threads = []
         for i in range(self._round_num):
-            t = threading.Thread(target=self._target_func, name=str(i), kwargs={
+            t = threading.Thread(target=self.__run_round, args=(i,), name=str(i), kwargs={
                 'round': i, 'train_id': self._train_idx[i], 'test_id': self._test_idx[i],
                 'Ucollection': self._saver[i].get_workspace()[3], 'Lcollection': self._saver[i].get_workspace()[2],
                 'saver': self._saver[i], 'examples': self._examples, 'labels': self._labels,
                 'global_parameters': global_parameters})
             self.__threads.append(t)
 
+    def __run_round(self, i, **kwargs):
+        self._target_func(**kwargs)
+        # not reached if the function fails
+        self.__alive_thread[i] = False
+
     def __start_all_threads(self):
         if self._recover_arr is None:
             self._recover_arr = [True] * self._round_num
+            # the results of an earlier experiment must not be taken for the
+            # ones of this run if it has to be recovered.
+            for saver in self._saver:
+                old_result = os.path.join(self._saving_path, 'AL_result', saver._saving_file_name)
+                if os.path.exists(old_result):
+                    os.remove(old_result)
         else:
             assert (len(self._recover_arr) == self._round_num)
+        # the run can be recovered from now on
+        self.__alive_thread = list(self._recover_arr)
+        self.save()
         # start thread
         available_thread = self.__max_thread
         for i in range(self._round_num):
@@ -192,11 +210,9 @@ class aceThreading:
             if available_thread > 0:
                 self.__threads[i].start()
                 self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
                 available_thread -= 1
 
                 # saving
-                self._update_thread_state()
                 self.save()
             else:
                 # waiting current thread
@@ -211,11 +227,9 @@ class aceThreading:
                 # run the if code
                 self.__threads[i].start()
                 self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
                 available_thread -= 1
 
                 # saving
-                self._update_thread_state()
                 self.save()
 
         # waiting for other threads.
@@ -225,7 +239,6 @@ class aceThreading:
             while self.__threads[i].is_alive():
                 if self._if_refresh():
                     print(self)
-            self._update_thread_state()
             self.save()
         print(self)
 
@@ -253,13 +266,6 @@ class aceThreading:
         else:
             return False
 
-    def _update_thread_state(self):
-        for i in range(len(self.__threads)):
-            if self.__threads[i].is_alive():
-                self.__alive_thread[i] = True
-            else:
-                self.__alive_thread[i] = False
-
     def __getstate__(self):
         pickle_seq = (
             self._examples,
@@ -311,9 +317,8 @@ class aceThreading:
         # load breakpoint
         if not isinstance(path, str):
             raise TypeError("A string is expected, but received: %s" % str(type(path)))
-        f = open(os.path.abspath(path), 'rb')
-        breakpoint = pickle.load(f)
-        f.close()
+        with open(os.path.abspath(path), 'rb') as f:
+            breakpoint = pickle.load(f)
         if not isinstance(breakpoint, aceThreading):
             raise TypeError("Please enter the correct path to the multi-threading saving file.")
 
@@ -338,12 +343,14 @@ class aceThreading:
                     # not started
                     pass
             else:
-                if os.path.getsize(file_dir) == 0:
-                    # not saving, but started, use the initialized stateIO object
+                if not os.path.exists(file_dir) or os.path.getsize(file_dir) == 0:
+                    # nothing saved yet, use the initialized stateIO object
                     continue
                 # still running
                 # load intermediate result file
                 recover_thread._saver[i] = StateIO.load(
                     os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
         recover_thread._recover_arr = recover_arr
+        recover_thread.__alive_thread = list(recover_arr)
+        recover_thread._global_parameters = breakpoint._global_parameters
         return recover_thread
-- 
2.43.0


From 2a7d45ec3b7fd2a7d9776011984aa54c7d001c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 09/46] fix: train a separate model in each fold of
 AlExperiment

---
 alipy/experiment/al_experiment.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index cce5c52..6fe7bb8 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -365,8 +365,10 @@ class AlExperiment:
         """
         Lcollection = IndexCollection(Lcollection)
         Ucollection = IndexCollection(Ucollection)
-        self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-        pred = self._model.predict(self._X[test_id, :])
+        # each fold trains its own model, folds may run at the same time
+        model = copy.deepcopy(self._model)
+        model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+        pred = model.predict(self._X[test_id, :])
 
         # some query strategy,such as QueryInstanceGraphDensity,QueryInstanceQUIRE, need train_ind
         if self._query_function_need_train_ind:
@@ -395,7 +397,7 @@ class AlExperiment:
                     select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size)
                 elif 'model' in inspect.getfullargspec(self._query_function.select)[0]:
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
-                                                             model=self._model)
+                                                             model=model)
                 elif self._query_function_name == 'QueryInstanceBMDR' or self._query_function_name == 'QueryInstanceSPAL':
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
                                                              qp_solver=self.qp_solver)
@@ -407,8 +409,8 @@ class AlExperiment:
             Lcollection.update(select_ind)
             Ucollection.difference_update(select_ind)
             # update model
-            self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-            pred = self._model.predict(self._X[test_id, :])
+            model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+            pred = model.predict(self._X[test_id, :])
 
             # performance calc
             perf_result = self._performance_metric(self._y[test_id], pred)
-- 
2.43.0


From 6fc9bd6fe974a18c15ef18e391ed779024d742f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 10/46] fix: start the stopping criterion of each fold with the
 fold

---
 alipy/experiment/al_experiment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 6fe7bb8..7682a3b 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -386,6 +386,8 @@ class AlExperiment:
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
+        # the budget (e.g. time_limit) of a fold starts with the fold
+        stopping_criterion.reset()
         saver.set_initial_point(perf_result)
 
         while not stopping_criterion.is_stop():
-- 
2.43.0


From 270695b41ea8801ea9b9645a6a263c0c74c68710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 11/46] fix: do not mix the folds of repeated sequential
 experiment runs

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 7682a3b..ef4a0e6 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -350,6 +350,7 @@ class AlExperiment:
             check_flag = kwargs.pop('check_flag', True)
             verbose = kwargs.pop('verbose', True)
             print_interval = kwargs.pop('print_interval', 1)
+            self._experiment_result = []
             for round in range(self._split_count):
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
-- 
2.43.0


From 510e506e1541f621ebf573a2f38304001c20e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 12/46] fix: load saved splits of every kind as they were saved

---
 alipy/data_manipulate/al_split.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index edb506b..5e4d9d2 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -433,12 +433,15 @@ def split_load(path):
     ret_arr = []
     for fname in ['train_idx.txt', 'test_idx.txt', 'label_idx.txt', 'unlabel_idx.txt']:
         if not os.path.exists(os.path.join(saving_path, fname)):
-            if os.path.exists(os.path.join(saving_path, fname.split()[0] + '.npy')):
-                ret_arr.append(np.load(os.path.join(saving_path, fname.split()[0] + '.npy')))
+            if os.path.exists(os.path.join(saving_path, os.path.splitext(fname)[0] + '.npy')):
+                ret_arr.append(np.load(os.path.join(saving_path, os.path.splitext(fname)[0] + '.npy')))
             else:
                 ret_arr.append(None)
         else:
-            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int))
+            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int, ndmin=2))
+            if ret_arr[-1].size == 0:
+                # an empty table in text form does not tell the number of folds
+                ret_arr[-1] = np.empty((len(ret_arr[0]), 0), dtype=int)
     return ret_arr[0], ret_arr[1], ret_arr[2], ret_arr[3]
 
 
@@ -465,8 +468,14 @@ def split_save(train_idx, test_idx, label_idx, unlabel_idx, path):
         if len(np.shape(label_idx)) == 2:
             np.savetxt(os.path.join(saving_path, 'label_idx.txt'), label_idx, fmt='%d')
             np.savetxt(os.path.join(saving_path, 'unlabel_idx.txt'), unlabel_idx, fmt='%d')
+            stale = ['label_idx.npy', 'unlabel_idx.npy']
         else:
             np.save(os.path.join(saving_path, 'label_idx.npy'), label_idx)
             np.save(os.path.join(saving_path, 'unlabel_idx.npy'), unlabel_idx)
+            stale = ['label_idx.txt', 'unlabel_idx.txt']
+        # the tables of an earlier split of another kind must not be loaded instead
+        for fname in stale:
+            if os.path.exists(os.path.join(saving_path, fname)):
+                os.remove(os.path.join(saving_path, fname))
     else:
         raise Exception("A path to a directory is expected.")
-- 
2.43.0


From 833c1ac9e954cba9e9cc4a218e5d737da628946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 13/46] fix: keep the label rate when a feature split is
 redrawn

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 5e4d9d2..b9ce182 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -254,7 +254,7 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                     tp_train = instance_indexes[rp[0:cutpoint]]
                     # split label & unlabel
                     train_size = len(tp_train)
-                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size)))
+                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size * data_shape[1])))
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             unlab_ind = set(np.arange(train_size * data_shape[1]))
-- 
2.43.0


From 9256253c0df92ea581a6d065bac45d647b00acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:32 +0000
Subject: [PATCH 14/46] fix: split by the query type and save splits of
 file-based ToolBoxes

---
 alipy/toolbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index bc8a054..efa96be 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -227,7 +227,7 @@ class ToolBox:
             return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
 
         self.split_count = split_count
-        if self._target_type != 'Features':
+        if self.query_type != 'Features':
             if self._target_type != 'multilabel':
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split(
                     X=self._X if self._instance_flag else None,
@@ -237,7 +237,7 @@ class ToolBox:
                     split_count=split_count,
                     instance_indexes=self._indexes,
                     all_class=all_class,
-                    saving_path=self._saving_path)
+                    saving_path=self._saving_dir)
             else:
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_multi_label(
                     y=self._y,
@@ -246,7 +246,7 @@ class ToolBox:
                     initial_label_rate=initial_label_rate,
                     split_count=split_count,
                     all_class=all_class,
-                    saving_path=self._saving_path
+                    saving_path=self._saving_dir
                 )
         else:
             self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_features(
@@ -255,7 +255,7 @@ class ToolBox:
                 missing_rate=1 - initial_label_rate,
                 split_count=split_count,
                 all_features=all_class,
-                saving_path=self._saving_path
+                saving_path=self._saving_dir
             )
         self._split = True
         self.save()
-- 
2.43.0


From ed45eb17c6d0fb0b1c0bc6b8fb751a33940282c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:32 +0000
Subject: [PATCH 15/46] fix: do not keep a split which could not be saved

---
 alipy/toolbox.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index efa96be..fde278a 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -258,7 +258,12 @@ class ToolBox:
                 saving_path=self._saving_dir
             )
         self._split = True
-        self.save()
+        try:
+            self.save()
+        except BaseException:
+            # not split as long as the split is not saved
+            self._split = False
+            raise
         return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
 
     def get_split(self, round=None):
-- 
2.43.0


From ff4f72435719052848d4764f0eba9fa823d9c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 16/46] fix: report a missing key of an oracle as KeyError

---
 alipy/oracle/oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 271961e..786f689 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -249,7 +249,7 @@ class Oracle(interface.BaseVirtualOracle):
         -------
 
         """
-        raise KeyError("%s is not in the " + dict_name + " of this oracle" % str(key))
+        raise KeyError("%s is not in the %s of this oracle" % (str(key), dict_name))
 
     def __repr__(self):
         return str(self._ind2all)
-- 
2.43.0


From e388776ab5020e84b0cf35380ac133112aa7cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 17/46] fix: query the multi-label oracle by the index of the
 example

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 786f689..be16c8b 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -504,9 +504,9 @@ class OracleQueryMultiLabel(Oracle):
             # fetch data
             if example_fea in self._exa2ind.keys():
                 if k_len == 1:
-                    q_id.append((example_fea,))
+                    q_id.append((self._exa2ind[example_fea],))
                 else:
-                    q_id.append((example_fea, k[1]))
+                    q_id.append((self._exa2ind[example_fea], k[1]))
             else:
                 self._do_missing(example_fea, 'instance pool')
         return self.query_by_index(q_id)
-- 
2.43.0


From b0c11e1d265473091053e3fc50c7b290269bcaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 18/46] fix: account crowd queries with costs of different
 lengths

---
 alipy/oracle/oracle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index be16c8b..e2cbdd9 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -575,8 +575,9 @@ class Oracles:
             oracle_name = random.sample(self._oracle_dict.keys(), 1)[0]
         result = self._oracle_dict[oracle_name].query_by_index(index_for_querying)
 
+        cost = np.sum([np.sum(c) for c in result[1]])
         self._update_query_history([oracle_name], [result], index_for_querying)
-        self.cost_inall += np.sum(np.asarray(result[1]).flatten())
+        self.cost_inall += cost
         return result
 
     def query_from_s(self, index_for_querying, oracles_name=None):
@@ -606,8 +607,9 @@ class Oracles:
         for name in oracles_name:
             results.append(self._oracle_dict[name].query_by_index(index_for_querying))
 
+        cost = np.sum([np.sum(c) for result in results for c in result[1]])
         self._update_query_history(oracles_name, results, index_for_querying)
-        self.cost_inall += np.sum(np.array([result[1] for result in results]).flatten())
+        self.cost_inall += cost
         return results
 
     def get_oracle(self, oracle_name):
-- 
2.43.0


From ee6c8a7e530b0ab038d9ecff16441148c23edaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 19/46] fix: do not leave half-added items in the repositories

---
 alipy/oracle/knowledge_repository.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 5e168ed..e60690c 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -117,15 +117,20 @@ class ElementRepository(BaseRepository):
                 raise Exception("This repository has the instance information,"
                                 "must provide example parameter when adding entry")
             example = tuple(example)
+        cost_sum = np.sum(cost) if cost is not None else 0
+        # nothing is stored until all the given data is known to be valid
+        is_new = select_index not in self._ind2label
+        if self._instance_flag:
             self._exa2ind[example] = select_index
             self._ind2exa[select_index] = example
 
         if cost is not None:
-            self.cost_inall += np.sum(cost)
+            self.cost_inall += cost_sum
             self._cost_arr.append(cost)
 
         self._ind2label[select_index] = label
-        self._indexes.append(select_index)
+        if is_new:
+            self._indexes.append(select_index)
         return self
 
     def discard(self, index=None, example=None):
@@ -387,19 +392,23 @@ class MatrixRepository(BaseRepository):
             if hasattr(label, '__len__'):
                 raise TypeError("The initialized label array only have 1 dimension, "
                                 "but received an array like label: %s." % str(label))
-            self._y = np.append(self._y, [label])
+            new_y = np.append(self._y, [label])
         else:
             # this operation will check the validity automatically.
-            self._y = np.append(self._y, [label], axis=0)
-        self._indexes = np.append(self._indexes, select_index)
-        self._cost_arr.append(cost)
-        self.cost_inall += np.sum(cost) if cost is not None else 0
+            new_y = np.append(self._y, [label], axis=0)
+        new_X = self._X
         if self._instance_flag:
             if example is None:
                 raise Exception("This repository has the instance information,"
                                 "must provide example parameter when adding entry")
             else:
-                self._X = np.append(self._X, [example], axis=0)
+                new_X = np.append(self._X, [example], axis=0)
+        cost_sum = np.sum(cost) if cost is not None else 0
+        # nothing is stored until all the given data is known to be valid
+        self._y, self._X = new_y, new_X
+        self._indexes = np.append(self._indexes, select_index)
+        self._cost_arr.append(cost)
+        self.cost_inall += cost_sum
         return self
 
     def update_query(self, labels, indexes, cost=None, examples=None):
@@ -496,7 +505,7 @@ class MatrixRepository(BaseRepository):
         """
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
             ind = np.argwhere(self._indexes == indexes)  # will return empty array if not found.
-            if not ind:
+            if ind.size == 0:
                 warnings.warn("Index %s for retrieving is not in the repository, skip." % str(indexes),
                               category=ValidityWarning)
             return self._X[ind,] if self._instance_flag else None, self._y[ind,]
-- 
2.43.0


From cf61d57a6aa3fa86798594c3dcc498dd8c267e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 20/46] fix: discard items with equal examples from
 ElementRepository

---
 alipy/oracle/knowledge_repository.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index e60690c..3a1a4c5 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -157,7 +157,10 @@ class ElementRepository(BaseRepository):
             self._indexes.remove(index)
             self._ind2label.pop(index)
             if self._instance_flag:
-                self._exa2ind.pop(self._ind2exa.pop(index))
+                exa = self._ind2exa.pop(index)
+                # another item may have the same example
+                if self._exa2ind.get(exa) == index:
+                    self._exa2ind.pop(exa)
 
         if example is not None:
             if not self._instance_flag:
-- 
2.43.0


From b6d7a3a5eb9f2691713433ef7c091f65bb92942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 21/46] fix: pass the given costs to the oracle

---
 alipy/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index fde278a..7d3ec22 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -321,11 +321,11 @@ class ToolBox:
             return OracleQueryFeatures(feature_mat=self._X, cost=cost_mat)
         elif self.query_type == 'AllLabels':
             if self._target_type == 'multilabel':
-                return OracleQueryMultiLabel(self._y) if not query_by_example else OracleQueryMultiLabel(self._y,
+                return OracleQueryMultiLabel(self._y, cost=cost_mat) if not query_by_example else OracleQueryMultiLabel(self._y,
                                                                                                          examples=self._X,
                                                                                                          cost=cost_mat)
             else:
-                return Oracle(self._y) if not query_by_example else Oracle(self._y, examples=self._X, cost=cost_mat)
+                return Oracle(self._y, cost=cost_mat) if not query_by_example else Oracle(self._y, examples=self._X, cost=cost_mat)
 
     def get_stateio(self, round, saving_path=None, check_flag=True, verbose=True, print_interval=1):
         """Get a stateio object for experiment saving.
-- 
2.43.0


From 04fc27878b27613570817b408dfa974f3ad423c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 22/46] fix: never keep an incomplete LAL data file

---
 alipy/query_strategy/query_labels.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 1876178..aa396df 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -25,7 +25,7 @@ from sklearn.utils.multiclass import unique_labels
 
 from .base import BaseIndexQuery
 from ..utils.ace_warnings import *
-from ..utils.misc import nsmallestarg, randperm, nlargestarg
+from ..utils.misc import nsmallestarg, randperm, nlargestarg, atomic_write
 
 __all__ = ['QueryInstanceUncertainty',
            'QueryRandom',
@@ -1656,10 +1656,11 @@ class QueryInstanceLAL(BaseIndexQuery):
                 # download file
                 print(str(self._iter_path) + " file is not found. Starting to download...")
                 import requests
-                f = requests.get(iter_url, stream=True)
+                f = requests.get(iter_url, stream=True, headers={'Accept-Encoding': 'identity'})
+                f.raise_for_status()
                 total_size = f.headers['content-length']
                 download_count = 0
-                with open(self._iter_path, "wb") as code:
+                with atomic_write(self._iter_path) as code:
                     for chunk in f.iter_content(chunk_size=chunk_size):
                         download_count += 1
                         if chunk:
@@ -1668,6 +1669,8 @@ class QueryInstanceLAL(BaseIndexQuery):
                                 min(download_count * chunk_size, int(total_size)),
                                 int(total_size), iter_url), end='')
                             code.write(chunk)
+                    if 'content-encoding' not in f.headers and code.tell() != int(total_size):
+                        raise IOError('The download is incomplete, please try again.')
                 print('\nDownload end.')
             return self._iter_path
             # self.train_selector_from_file(self._iter_path)
@@ -1676,10 +1679,11 @@ class QueryInstanceLAL(BaseIndexQuery):
                 # download file
                 print(str(self._rand_path) + " file is not found. Starting to download...")
                 import requests
-                f = requests.get(rand_url, stream=True)
+                f = requests.get(rand_url, stream=True, headers={'Accept-Encoding': 'identity'})
+                f.raise_for_status()
                 total_size = f.headers['content-length']
                 download_count = 0
-                with open(self._rand_path, "wb") as code:
+                with atomic_write(self._rand_path) as code:
                     for chunk in f.iter_content(chunk_size=chunk_size):
                         download_count += 1
                         if chunk:
@@ -1688,6 +1692,8 @@ class QueryInstanceLAL(BaseIndexQuery):
                                 min(download_count * chunk_size, int(total_size)),
                                 int(total_size), rand_url), end='')
                             code.write(chunk)
+                    if 'content-encoding' not in f.headers and code.tell() != int(total_size):
+                        raise IOError('The download is incomplete, please try again.')
                 print('\nDownload end.')
             return self._rand_path
             # self.train_selector_from_file(self._rand_path)
-- 
2.43.0


From fbc52176ce478579c88152bcadfdb574332f243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 23/46] fix: infer the label size of plain lists of pairs from
 L and U together

---
 alipy/experiment/state_io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index d754cfe..c439e51 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -25,7 +25,7 @@ import prettytable as pt
 
 from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
-from ..index.multi_label_tools import check_index_multilabel
+from ..index.multi_label_tools import check_index_multilabel, infer_label_size_multilabel
 from ..utils.interface import BaseCollection
 from ..utils.misc import atomic_write
 
@@ -100,10 +100,11 @@ class StateIO:
             self.init_L = copy.deepcopy(init_L)
         else:
             try:
-                check_index_multilabel(init_L)
-                check_index_multilabel(init_U)
-                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U))
-                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L))
+                all_index = list(check_index_multilabel(init_L)) + list(check_index_multilabel(init_U))
+                # neither of the two sets alone need contain every label
+                label_size = infer_label_size_multilabel(all_index, check_arr=False)
+                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U, label_size))
+                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L, label_size))
             except TypeError:
                 self.init_U = copy.deepcopy(IndexCollection(init_U))
                 self.init_L = copy.deepcopy(IndexCollection(init_L))
-- 
2.43.0


From 0e6796aeb5a434efda2fb263dc69fb9d785ac60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 24/46] fix: apply a batch update of a repository completely or
 not at all

---
 alipy/oracle/knowledge_repository.py | 33 +++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 3a1a4c5..2aeabf6 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -19,6 +19,7 @@ for training and querying history for auditing.
 
 from __future__ import division
 
+import contextlib
 import copy
 import numpy as np
 import prettytable as pt
@@ -34,7 +35,20 @@ __all__ = ['ElementRepository',
            'MatrixRepository',
            ]
 
-class ElementRepository(BaseRepository):
+class _AllOrNothing:
+    """Undo the items of a batch which have been added already if a later one is rejected."""
+
+    @contextlib.contextmanager
+    def _all_or_nothing(self):
+        before = {key: copy.copy(value) for key, value in self.__dict__.items()}
+        try:
+            yield
+        except BaseException:
+            self.__dict__.update(before)
+            raise
+
+
+class ElementRepository(_AllOrNothing, BaseRepository):
     """Class to store fine-grained (element-wise) data.
 
     Both the example and label are not required to be an array-like object,
@@ -205,9 +219,11 @@ class ElementRepository(BaseRepository):
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
             self.add(label=labels, select_index=indexes, cost=cost, example=examples)
         else:
-            for i in range(len(labels)):
-                self.add(label=labels[i], select_index=indexes[i], example=examples[i] if examples is not None else None,
-                         cost=cost[i] if cost is not None else None)
+            with self._all_or_nothing():
+                for i in range(len(labels)):
+                    self.add(label=labels[i], select_index=indexes[i],
+                             example=examples[i] if examples is not None else None,
+                             cost=cost[i] if cost is not None else None)
         self.num_of_queries += 1
         self._update_query_history(labels, indexes, cost)
         return self
@@ -326,7 +342,7 @@ class ElementRepository(BaseRepository):
 
 
 # this class can only deal with the query-all-labels setting
-class MatrixRepository(BaseRepository):
+class MatrixRepository(_AllOrNothing, BaseRepository):
     """Matrix Knowledge Repository.
 
     The element of examples should be a vector to construct a matrix.
@@ -440,9 +456,10 @@ class MatrixRepository(BaseRepository):
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
             self.add(label=labels, select_index=indexes, cost=cost, example=examples)
         else:
-            for i in range(len(indexes)):
-                self.add(label=labels[i], select_index=indexes[i], cost=cost[i] if cost is not None else None,
-                         example=examples[i] if examples is not None else None)
+            with self._all_or_nothing():
+                for i in range(len(indexes)):
+                    self.add(label=labels[i], select_index=indexes[i], cost=cost[i] if cost is not None else None,
+                             example=examples[i] if examples is not None else None)
         self.num_of_queries += 1
         self._update_query_history(labels, indexes, cost)
         return self
-- 
2.43.0


From 96bfb7bb8026f39d5368b4d2180793b19037ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:11 +0000
Subject: [PATCH 25/46] fix: accept text labels in MatrixRepository.add

---
 alipy/oracle/knowledge_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 2aeabf6..e017f82 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -408,7 +408,7 @@ class MatrixRepository(_AllOrNothing, BaseRepository):
                           category=RepeatElementWarning)
             return self
         if self._y.ndim == 1:
-            if hasattr(label, '__len__'):
+            if hasattr(label, '__len__') and not isinstance(label, str):
                 raise TypeError("The initialized label array only have 1 dimension, "
                                 "but received an array like label: %s." % str(label))
             new_y = np.append(self._y, [label])
-- 
2.43.0


From 02ec0ae4bb1d35472c5a6e13f07a1f4ca583602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 26/46] fix: do not change the given prediction matrix

---
 alipy/query_strategy/query_labels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index aa396df..6252723 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -214,7 +214,7 @@ class QueryInstanceUncertainty(BaseIndexQuery):
 
         if self.measure == 'entropy':
             # calc entropy
-            pv[pv <= 0] = 1e-06  # avoid zero division
+            pv = np.where(pv <= 0, 1e-06, pv)  # avoid zero division
             entro = [-np.sum(vec * np.log(vec+1e-9)) for vec in pv]
             assert (len(np.shape(entro)) == 1)
             return unlabel_index[nlargestarg(entro, batch_size)]
-- 
2.43.0


From e614e70f95c249a4880592fe60d62dfa102e7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 27/46] fix: train a separate forest in each selection of LAL

---
 alipy/query_strategy/query_labels.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 6252723..536b098 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -15,6 +15,7 @@ import copy
 import os
 
 import numpy as np
+from sklearn.base import clone
 from sklearn.ensemble import BaggingClassifier
 from sklearn.ensemble import RandomForestRegressor, RandomForestClassifier
 from sklearn.linear_model import LogisticRegression
@@ -1758,23 +1759,25 @@ class QueryInstanceLAL(BaseIndexQuery):
         known_data = self.X[label_index]
         n_lablled = len(label_index)
         n_dim = self.X.shape[1]
-        self.model.fit(known_data, known_labels)
+        # the strategy object may be shared by several folds
+        model = clone(self.model)
+        model.fit(known_data, known_labels)
 
         # predictions of the trees
-        temp = np.array([tree.predict_proba(unknown_data)[:, 0] for tree in self.model.estimators_])
+        temp = np.array([tree.predict_proba(unknown_data)[:, 0] for tree in model.estimators_])
         # - average and standard deviation of the predicted scores
         f_1 = np.mean(temp, axis=0)
         f_2 = np.std(temp, axis=0)
         # - proportion of positive points
         f_3 = (sum(known_labels > 0) / n_lablled) * np.ones_like(f_1)
         # the score estimated on out of bag estimate
-        f_4 = self.model.oob_score_ * np.ones_like(f_1)
+        f_4 = model.oob_score_ * np.ones_like(f_1)
         # - coeficient of variance of feature importance
-        f_5 = np.std(self.model.feature_importances_ / n_dim) * np.ones_like(f_1)
+        f_5 = np.std(model.feature_importances_ / n_dim) * np.ones_like(f_1)
         # - estimate variance of forest by looking at avergae of variance of some predictions
         f_6 = np.mean(f_2, axis=0) * np.ones_like(f_1)
         # - compute the average depth of the trees in the forest
-        f_7 = np.mean(np.array([tree.tree_.max_depth for tree in self.model.estimators_])) * np.ones_like(f_1)
+        f_7 = np.mean(np.array([tree.tree_.max_depth for tree in model.estimators_])) * np.ones_like(f_1)
         # - number of already labelled datapoints
         f_8 = n_lablled * np.ones_like(f_1)
 
-- 
2.43.0


From 369d840c7268504bc7d80c09d4c70fa729b1dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 28/46] fix: calculate the distances of CoresetGreedy for the
 given labeled set only

---
 alipy/query_strategy/query_labels.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 536b098..c67b7cb 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1878,21 +1878,24 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
           indices of points selected to minimize distance to cluster centers
         """
         already_selected = [np.where(self.train_idx == id)[0].item() for id in label_index]
-        self.update_distances(already_selected, only_new=True, reset_dist=False)
+        # the distances depend on the given labeled set only: they are not shared between folds
+        centers = copy.copy(self)
+        centers.already_selected = []
+        centers.update_distances(already_selected, only_new=True, reset_dist=True)
 
         new_batch = []
-        self.min_distances[already_selected] = -100.0
-        self.already_selected = already_selected
+        centers.min_distances[already_selected] = -100.0
+        centers.already_selected = already_selected
 
         for _ in range(batch_size):
-            ind = np.argmax(self.min_distances)
+            ind = np.argmax(centers.min_distances)
             # New examples should not be in already selected since those points
             # should have min_distance of zero to a cluster center.
-            assert ind not in self.already_selected
+            assert ind not in centers.already_selected
             assert self.train_idx[ind] in unlabel_index
 
-            self.update_distances([ind], only_new=True, reset_dist=False)
-            self.min_distances[ind] = -100.0
+            centers.update_distances([ind], only_new=True, reset_dist=False)
+            centers.min_distances[ind] = -100.0
             new_batch.append(self.train_idx[ind])
         return new_batch
 
-- 
2.43.0


From ad3185d915d2c8d3ed29ac5cf7b781592d5bceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 29/46] fix: use a separate ranking model in each selection of
 AUDI

---
 alipy/query_strategy/multi_label.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 8b6855e..547bdd5 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -569,15 +569,16 @@ class QueryMultiLabelAUDI(BaseMultiLabelQuery):
             assert isinstance(model, LabelRankingModel), 'Model for selection must be LabelRanking model in ' \
                                                          'AUDI algorithm. Try to pass model=None to use the ' \
                                                          'default model'
-            self._lr_model = model
-            if not self._lr_model._init_flag:   # not trained
+            lr_model = model
+            if not lr_model._init_flag:   # not trained
                 lab_data, lab_lab, _ = get_Xy_in_multilabel(index=label_index, X=self.X, y=self.y)
-                self._lr_model.fit(lab_data, lab_lab)
+                lr_model.fit(lab_data, lab_lab)
         else:
+            lr_model = copy.deepcopy(self._lr_model)
             # select instance by LCI
             lab_data, lab_lab, _ = get_Xy_in_multilabel(index=label_index, X=self.X, y=self.y)
-            self._lr_model.fit(lab_data, lab_lab)
-        pres, labels = self._lr_model.predict(unlab_data)
+            lr_model.fit(lab_data, lab_lab)
+        pres, labels = lr_model.predict(unlab_data)
         avgP = np.mean(np.sum(self.y[label_index.get_unbroken_instances(), :] == 1, axis=1))
         insvals = -np.abs((np.sum(labels == 1, axis=1) - avgP) / np.fmax(np.sum(W[data_ind, :] == 1, axis=1), epsilon))
         selected_ins = np.argmin(insvals)
-- 
2.43.0


From 31c2a00fede2aca6e68404fd10f5f568a1b1123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 30/46] fix: use a separate ranking model in each selection of
 AURO

---
 alipy/query_strategy/query_type.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_type.py b/alipy/query_strategy/query_type.py
index 61169a8..17d3b5a 100644
--- a/alipy/query_strategy/query_type.py
+++ b/alipy/query_strategy/query_type.py
@@ -13,6 +13,8 @@ methods are proposed in the future.
 # Authors: Ying-Peng Tang
 # License: BSD 3 clause
 
+import copy
+
 import numpy as np
 
 from .base import BaseMultiLabelQuery
@@ -142,14 +144,15 @@ class QueryTypeAURO(BaseMultiLabelQuery):
             assert isinstance(model, LabelRankingModel), 'Model for selection must be LabelRanking model in ' \
                                                          'AURO algorithm. Try to pass model=None to use the ' \
                                                          'default model'
-            self._lr_model = model
-            if not self._lr_model._init_flag:   # not trained
+            lr_model = model
+            if not lr_model._init_flag:   # not trained
                 lab_data, lab_lab, _ = get_Xy_in_multilabel(index=label_index, X=self.X, y=self.y)
-                self._lr_model.fit(lab_data, lab_lab)
+                lr_model.fit(lab_data, lab_lab)
         else:
+            lr_model = copy.deepcopy(self._lr_model)
             lab_data, lab_lab, _ = get_Xy_in_multilabel(index=label_index, X=self.X, y=y_mat)
-            self._lr_model.fit(lab_data, lab_lab)
-        pres, labels = self._lr_model.predict(unlab_data)
+            lr_model.fit(lab_data, lab_lab)
+        pres, labels = lr_model.predict(unlab_data)
         selected_ins = np.argmax(np.sum(unlab_mask, axis=1))
 
         # set the known entries to -inf
-- 
2.43.0


From e4b4e6dcebcd02740ace879ddd86471c4c718d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 31/46] fix: do not change the given index collections in MMC
 and Adaptive

---
 alipy/query_strategy/multi_label.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 547bdd5..1d580bb 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -905,7 +905,7 @@ class QueryMultiLabelMMC(BaseIndexQuery):
         if len(np.unique(self.y.sum(axis=1))) == 1:
             lr = DummyClf()
         else:
-            lr = self.logistic_regression_
+            lr = copy.deepcopy(self.logistic_regression_)
         lr.fit(trnf, self.y[label_index].sum(axis=1))
 
         idx_poolf = np.argsort(poolf, axis=1)[:, ::-1]
@@ -961,6 +961,9 @@ class QueryMultiLabelMMC(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return list(unlabel_index)
         
+        # do not change the index collections of the user
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         select_index = []
         for i in range(batch_size):
             selected = self.sequential_select(label_index, unlabel_index)
@@ -1148,6 +1151,9 @@ class QueryMultiLabelAdaptive(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return list(unlabel_index)
         
+        # do not change the index collections of the user
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         select_index = []
         for i in range(batch_size):
             selected = self.sequential_select(label_index, unlabel_index)
-- 
2.43.0


From 1490f0f2561729ce213be2a5d7c4d44a13addf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 32/46] fix: do not keep the training set of one selection for
 the next ones

---
 alipy/query_strategy/query_features.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 4ed96db..15dda2a 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -449,20 +449,22 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
         if self._train_idx is None:
             obi = observed_entries.get_instance_index()
             uni = unkonwn_entries.get_instance_index()
-            self._train_idx = np.union1d(obi, uni)
+            train_idx = np.union1d(obi, uni)
+        else:
+            train_idx = self._train_idx
 
         # map entries of the whole data to the training data
         tr_ob = []
         for entry in observed_entries:
             # if entry[0] in self._train_idx:
-            ind_in_train = np.argwhere(self._train_idx == entry[0])[0][0]
+            ind_in_train = np.argwhere(train_idx == entry[0])[0][0]
             tr_ob.append((ind_in_train, entry[1]))
             # else:
             #     tr_ob.append(entry)
         tr_ob = MultiLabelIndexCollection(tr_ob)
 
         # matrix completion
-        X_mc = AFASMC_mc(X=self.X[self._train_idx], y=self.y[self._train_idx], omega=tr_ob, **kwargs)
+        X_mc = AFASMC_mc(X=self.X[train_idx], y=self.y[train_idx], omega=tr_ob, **kwargs)
         self._feature_variance.append(X_mc)
         mc_sh = np.shape(X_mc)
         if len(self._feature_variance) >= 2:
@@ -476,7 +478,7 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
         else:
             selected_feature = np.argmax(1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False))
 
-        return [(self._train_idx[selected_feature // mc_sh[1]], selected_feature % mc_sh[1])]
+        return [(train_idx[selected_feature // mc_sh[1]], selected_feature % mc_sh[1])]
 
     def select_by_mask(self, observed_mask, **kwargs):
         """Select a subset from the unlabeled set by providing the mask matrix, 
@@ -626,22 +628,24 @@ class QueryFeatureStability(BaseFeatureQuery):
         if self._train_idx is None:
             obi = observed_entries.get_instance_index()
             uni = unkonwn_entries.get_instance_index()
-            self._train_idx = np.union1d(obi, uni)
+            train_idx = np.union1d(obi, uni)
+        else:
+            train_idx = self._train_idx
 
         # map entries of the whole data to the training data
         tr_ob = []
         for entry in observed_entries:
             # if entry[0] in self._train_idx:
-            ind_in_train = np.argwhere(self._train_idx == entry[0])[0][0]
+            ind_in_train = np.argwhere(train_idx == entry[0])[0][0]
             tr_ob.append((ind_in_train, entry[1]))
             # else:
             #     tr_ob.append(entry)
         tr_ob = MultiLabelIndexCollection(tr_ob)
 
-        selected_feature_in_train = self.select_by_mask(
-            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False))
+        selected_feature_in_train = self._select_by_mask(
+            train_idx, observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(train_idx), self.X.shape[1]), sparse=False))
 
-        return [(self._train_idx[selected_feature_in_train[0][0]], selected_feature_in_train[0][1])]
+        return [(train_idx[selected_feature_in_train[0][0]], selected_feature_in_train[0][1])]
 
     def select_by_mask(self, observed_mask, **kwargs):
         """Select a subset from the unlabeled set by providing the mask matrix,
@@ -666,10 +670,12 @@ class QueryFeatureStability(BaseFeatureQuery):
         assert len(observed_mask.shape) == 2
         assert observed_mask.shape[0] == len(self._train_idx)
         assert observed_mask.shape[1] == self.X.shape[1]
+        return self._select_by_mask(self._train_idx, observed_mask)
 
+    def _select_by_mask(self, train_idx, observed_mask):
         X_mc_arr = []
         for comt in self._committee:
-            X_mc_arr.append(comt.impute(X=self.X[self._train_idx], observed_mask=observed_mask))
+            X_mc_arr.append(comt.impute(X=self.X[train_idx], observed_mask=observed_mask))
 
         mc_sh = observed_mask.shape
         if len(X_mc_arr) >= 2:
-- 
2.43.0


From 098c7a8d5a07d5665a4485067e621d8524853067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:07 +0000
Subject: [PATCH 33/46] fix: keep a set when a MultiLabelIndexCollection is
 copied

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 016192f..2a4e892 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -281,7 +281,7 @@ class MultiLabelIndexCollection(IndexCollection):
             self._label_size = label_size
         else:
             if isinstance(data, MultiLabelIndexCollection):
-                self._innercontainer = copy.deepcopy(data.index)
+                self._innercontainer = set(copy.deepcopy(data.index))
                 self._label_size = data._label_size
                 return
             # check given indexes
-- 
2.43.0


From 5a803a5f39bd9acdc1afa1b11e02324825ab5922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:36 +0000
Subject: [PATCH 34/46] fix: let a killed multi-threaded AlExperiment be
 recovered

The bound private method stored in multi_thread_state.pkl could not be
unpickled, and the loop began from scratch on a recovered record.
---
 alipy/experiment/al_experiment.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index ef4a0e6..591b388 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -341,7 +341,7 @@ class AlExperiment:
             ace = aceThreading(self._X, self._y, self._train_idx, self._test_idx,
                                self._label_idx, self._unlabel_idx, max_thread=max_thread,
                                refresh_interval=refresh_interval, saving_path=saving_path)
-            ace.set_target_function(self.__al_main_loop)
+            ace.set_target_function(self._al_main_loop)
             ace.start_all_threads()
             self._experiment_result = ace.get_results()
         else:
@@ -355,12 +355,12 @@ class AlExperiment:
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
                                 print_interval)
-                self.__al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
-                                    self._unlabel_idx[round], saver)
+                self._al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
+                                   self._unlabel_idx[round], saver)
                 self._experiment_result.append(copy.deepcopy(saver))
 
-    def __al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
-                       saver, examples=None, labels=None, global_parameters=None):
+    def _al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
+                      saver, examples=None, labels=None, global_parameters=None):
         """
             The active-learning main loop.
         """
@@ -389,7 +389,11 @@ class AlExperiment:
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
         # the budget (e.g. time_limit) of a fold starts with the fold
         stopping_criterion.reset()
-        saver.set_initial_point(perf_result)
+        if len(saver) == 0:
+            saver.set_initial_point(perf_result)
+        else:
+            # a recovered fold goes on after the queries it has recorded
+            stopping_criterion.update_information(saver)
 
         while not stopping_criterion.is_stop():
             if not self.__custom_strategy_flag:
-- 
2.43.0


From 9c5a9b28cfda4bcb6a5004e873ba4be0da4ea1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 35/46] fix: keep the history of a crowd oracle apart from the
 caller's objects

---
 alipy/oracle/oracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index e2cbdd9..6f09ae7 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -620,7 +620,8 @@ class Oracles:
 
     def _update_query_history(self, oracle_name, query_result, index_for_querying):
         """record the query history"""
-        self.query_history.append((oracle_name, query_result, index_for_querying))
+        # what was answered stays what it was, whatever the caller does with the answer
+        self.query_history.append(copy.deepcopy((oracle_name, query_result, index_for_querying)))
 
     def __repr__(self):
         """return summaries of each oracle.
-- 
2.43.0


From 9fe65c9bb0126ceca6e6c6f4a3e20c610e316602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:47 +0000
Subject: [PATCH 36/46] fix: keep the entries of a knowledge repository apart
 from the caller's arrays

---
 alipy/oracle/knowledge_repository.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index e017f82..b8000c7 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -98,7 +98,7 @@ class ElementRepository(_AllOrNothing, BaseRepository):
             examples = [tuple(vec) for vec in examples]
             self._exa2ind = dict(zip(examples, self._indexes))
             self._ind2exa = dict(zip(self._indexes, examples))
-        self._ind2label = dict(zip(self._indexes, labels))
+        self._ind2label = dict(zip(self._indexes, copy.deepcopy(labels)))
 
         # record
         self.cost_inall = 0
@@ -142,7 +142,7 @@ class ElementRepository(_AllOrNothing, BaseRepository):
             self.cost_inall += cost_sum
             self._cost_arr.append(cost)
 
-        self._ind2label[select_index] = label
+        self._ind2label[select_index] = copy.deepcopy(label)
         if is_new:
             self._indexes.append(select_index)
         return self
@@ -327,7 +327,7 @@ class ElementRepository(_AllOrNothing, BaseRepository):
 
     def _update_query_history(self, labels, indexes, cost):
         """record the query history"""
-        self._query_history.append(((labels, cost), indexes))
+        self._query_history.append(copy.deepcopy(((labels, cost), indexes)))
 
     def full_history(self):
         """Return full version of query history"""
@@ -368,11 +368,11 @@ class MatrixRepository(_AllOrNothing, BaseRepository):
         if not check_one_to_one_correspondence(labels, indexes, examples):
             raise ValueError("Different length of the given parameters found.")
 
-        self._y = check_array(labels, ensure_2d=False, dtype=None)
-        self._indexes = np.asarray(indexes)
+        self._y = copy.deepcopy(check_array(labels, ensure_2d=False, dtype=None))
+        self._indexes = np.array(indexes)
         self._instance_flag = False if examples is None else True
         if self._instance_flag:
-            self._X = check_array(examples, accept_sparse='csr', ensure_2d=True, order='C')
+            self._X = copy.deepcopy(check_array(examples, accept_sparse='csr', ensure_2d=True, order='C'))
         else:
             self._X = None
 
@@ -567,7 +567,7 @@ class MatrixRepository(_AllOrNothing, BaseRepository):
                 warnings.warn("Example %s for retrieving is not in the repository, skip." % str(examples),
                               category=ValidityWarning)
                 return None, None
-            return self._X[ind,], self._y[ind,]
+            return copy.deepcopy(self._X[ind,]), copy.deepcopy(self._y[ind,])
         elif examples.ndim == 2:
             ind = []
             for i, exa in enumerate(examples):
@@ -596,7 +596,7 @@ class MatrixRepository(_AllOrNothing, BaseRepository):
             The indexes of the instances and labels.
             e.g. the first row of X_train is the indexes[0] instance in feature matrix X.
         """
-        return copy.deepcopy(self._X), copy.deepcopy(self._y), np.asarray(self._indexes)
+        return copy.deepcopy(self._X), copy.deepcopy(self._y), copy.deepcopy(self._indexes)
 
     def clear(self):
         """
@@ -613,7 +613,7 @@ class MatrixRepository(_AllOrNothing, BaseRepository):
 
     def _update_query_history(self, labels, indexes, cost):
         """record the query history"""
-        self._query_history.append(((labels, cost), indexes))
+        self._query_history.append(copy.deepcopy(((labels, cost), indexes)))
 
     def full_history(self):
         """return full version of query history"""
-- 
2.43.0


From 8232931cf26154188977567a74c4cfb9aba72d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:12 +0000
Subject: [PATCH 37/46] fix: measure the elapsed time of a fold with a clock
 that is not set

The table showed the difference of two wall clock readings, which is any
number (also a negative one) when the clock is set during the run.
---
 alipy/utils/multi_thread.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index e9e81a0..cf7475b 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -209,7 +209,7 @@ class aceThreading:
                 continue
             if available_thread > 0:
                 self.__threads[i].start()
-                self._thread_time_elapse[i] = time.time()
+                self._thread_time_elapse[i] = time.perf_counter()
                 available_thread -= 1
 
                 # saving
@@ -226,7 +226,7 @@ class aceThreading:
                         break
                 # run the if code
                 self.__threads[i].start()
-                self._thread_time_elapse[i] = time.time()
+                self._thread_time_elapse[i] = time.perf_counter()
                 available_thread -= 1
 
                 # saving
@@ -250,7 +250,7 @@ class aceThreading:
             if self._thread_time_elapse[i] == -1:
                 time_elapse = '0'
             else:
-                time_elapse = time.time() - self._thread_time_elapse[i]
+                time_elapse = time.perf_counter() - self._thread_time_elapse[i]
                 m, s = divmod(time_elapse, 60)
                 h, m = divmod(m, 60)
                 time_elapse = "%02d:%02d:%02d" % (h, m, s)
-- 
2.43.0


From e9bf8439121f9d72eada572645323f753dd4e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:53 +0000
Subject: [PATCH 38/46] fix: accept the costs of a multi-label oracle as lists

The answers index the costs of an entry with a list of labels, which
lists do not support: an oracle with a list of cost rows, or an entry
added with a list of costs (or with the costs per label given as a list),
raised TypeError when it was asked.
---
 alipy/oracle/oracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 6f09ae7..2566e43 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -340,6 +340,7 @@ class OracleQueryMultiLabel(Oracle):
                 cost = np.tile(cost, (self._label_shape[0], 1))
             else:
                 self._fine_grained_cost = True
+                cost = np.asarray(cost)
         super(OracleQueryMultiLabel, self).__init__(labels, examples, indexes, cost)
 
     def _add_one_entry(self, label, index, example=None, cost=None):
@@ -388,7 +389,7 @@ class OracleQueryMultiLabel(Oracle):
                 raise ValueError(
                     "Different dimension of cost found when adding entries: %s is expected but received: %s" %
                     (str(self._label_shape[1]), str(len(cost))))
-            self._ind2all[index] = (np.array(label), cost)
+            self._ind2all[index] = (np.array(label), np.array(cost))
         else:
             self._ind2all[index] = np.array(label)
 
-- 
2.43.0


From 36a196c5a6ac82ef4784c55dca4651d007aac23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:07 +0000
Subject: [PATCH 39/46] fix: keep the knowledge of an oracle apart from the
 caller's arrays

An answer with several values per label was the row the oracle itself
holds, which in turn was a view of the array it was made from: filling in
or changing an answer changed what the oracle (and every other user of
that array, e.g. the ToolBox) knew.
---
 alipy/oracle/oracle.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 2566e43..cf06461 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -57,7 +57,7 @@ class Oracle(interface.BaseVirtualOracle):
             raise ValueError("Different length of parameters found. "
                              "All parameters should be list type with the same length")
 
-        labels = check_array(labels, ensure_2d=False, dtype=None)
+        labels = check_array(labels, ensure_2d=False, dtype=None, copy=True)
         if isinstance(labels[0], np.generic):
             # self._label_type = type(np.asscalar(labels[0])) # deprecated in numpy v1.16
             self._label_type = type(labels[0].item())
@@ -119,7 +119,7 @@ class Oracle(interface.BaseVirtualOracle):
         if isinstance(label, np.generic):
             # label = np.asscalar(label)    # deprecated in numpy v1.16
             label = label.item()
-        if isinstance(label, list):
+        if isinstance(label, (list, np.ndarray)):
             label = np.array(label)
         if not isinstance(label, self._label_type):
             raise TypeError("Different types of _labels found when adding entries: %s is expected but received: %s" %
@@ -196,10 +196,10 @@ class Oracle(interface.BaseVirtualOracle):
         for k in indexes:
             if k in self._ind2all.keys():
                 if self._cost_flag:
-                    sup_info.append(self._ind2all[k][0])
-                    cost.append(self._ind2all[k][1])
+                    sup_info.append(copy.deepcopy(self._ind2all[k][0]))
+                    cost.append(copy.deepcopy(self._ind2all[k][1]))
                 else:
-                    sup_info.append(self._ind2all[k])
+                    sup_info.append(copy.deepcopy(self._ind2all[k]))
                     cost.append(1)
             else:
                 self._do_missing(k)
@@ -340,7 +340,7 @@ class OracleQueryMultiLabel(Oracle):
                 cost = np.tile(cost, (self._label_shape[0], 1))
             else:
                 self._fine_grained_cost = True
-                cost = np.asarray(cost)
+                cost = np.array(cost)
         super(OracleQueryMultiLabel, self).__init__(labels, examples, indexes, cost)
 
     def _add_one_entry(self, label, index, example=None, cost=None):
-- 
2.43.0


From 076d6d3bde2fca80325e06b9dde5a70e2a0a48b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:26 +0000
Subject: [PATCH 40/46] fix: recover the complete record of a finished fold

A fold which ended without saving its last queries was taken for finished
after a recovery with the record of its last save.
---
 alipy/utils/multi_thread.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index cf7475b..185842f 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -335,9 +335,8 @@ class aceThreading:
             file_dir = os.path.join(state_path, breakpoint._saver[i]._saving_file_name)
             if not breakpoint.__alive_thread[i]:
                 if os.path.exists(file_dir) and os.path.getsize(file_dir) != 0:
-                    # all finished
-                    recover_thread._saver[i] = StateIO.load(
-                        os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
+                    # all finished, the record can have queries which the function has not saved
+                    recover_thread._saver[i] = breakpoint._saver[i]
                     recover_arr[i] = False
                 else:
                     # not started
-- 
2.43.0


From 311ffbb9029d60bab242c6632175078a5cf23a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:23 +0000
Subject: [PATCH 41/46] fix: continue a recovered run with its own global
 parameters

They were saved and recovered but never used, so the folds of a run that
was continued by recover(path).start_all_threads() got None.
---
 alipy/utils/multi_thread.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 185842f..a6b172b 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -169,6 +169,9 @@ class aceThreading:
         self.__start_all_threads()
 
     def __init_threads(self, global_parameters=None):
+        if global_parameters is None:
+            # a recovered run has those of the run it continues
+            global_parameters = self._global_parameters
         if global_parameters is not None:
             assert (isinstance(global_parameters, dict))
         self._global_parameters = global_parameters
-- 
2.43.0


From d3e52de225acd0c569550c68707c79d31d0ee4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:37 +0000
Subject: [PATCH 42/46] fix: refuse a split whose label set is too small for
 all classes instead of searching forever

---
 alipy/data_manipulate/al_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index b9ce182..44eeb97 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -128,7 +128,8 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 label_num = len(np.unique(y))
             else:
                 label_num = y.shape[1]
-            if round((1 - test_ratio) * initial_label_rate * number_of_instance) < label_num:
+            # the size of the label set below, otherwise no permutation would do
+            if int(round(initial_label_rate * int(round((1 - test_ratio) * number_of_instance)))) < label_num:
                 raise ValueError(
                     "The initial rate is too small to guarantee that each "
                     "split will contain at least one instance for each class.")
-- 
2.43.0


From 6932a7b522eb12b601c1fb5ce6f146b8bcc06a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:08 +0000
Subject: [PATCH 43/46] fix: refuse a split with a class that no instance has
 instead of searching forever

---
 alipy/data_manipulate/al_split.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 44eeb97..3367a9b 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -134,6 +134,9 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                     "The initial rate is too small to guarantee that each "
                     "split will contain at least one instance for each class.")
 
+            if y.ndim == 2 and np.any(np.sum(y != 0, axis=0) == 0):
+                raise ValueError("No split can contain an instance of a class that no instance has.")
+
             # check validaty
             while 1:
                 rp = randperm(number_of_instance - 1)
@@ -275,6 +278,8 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                     raise ValueError(
                         "The initial rate is too small to guarantee that each "
                         "split will contain at least one instance-feature pair for each class.")
+                if np.any(np.sum(data_matrix != 0, axis=0) == 0):
+                    raise ValueError("No split can contain an instance of a class that no instance has.")
                 while 1:
                     label_id = tp_train[0:cutpoint_lab]
                     temp = np.sum(data_matrix[label_id], axis=0)
-- 
2.43.0


From 6eb79bfe69a26a16852123c12aec6fb7c3d52500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:48 +0000
Subject: [PATCH 44/46] fix: give the folds of a toolbox run copies of the
 split

---
 alipy/toolbox.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 7d3ec22..b8c3a8e 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -527,10 +527,12 @@ class ToolBox:
             raise Exception("instance matrix is necessary for initializing aceThreading object.")
         if not self._split:
             raise Exception("The split information is not found, please split the data or set the split setting first.")
+        # copies, as from get_split(): the folds are free to change what they are given
+        train_idx, test_idx, label_idx, unlabel_idx = self.get_split()
         return aceThreading(examples=self._X, labels=self._y,
-                            train_idx=self.train_idx, test_idx=self.test_idx,
-                            label_index=self.label_idx,
-                            unlabel_index=self.unlabel_idx,
+                            train_idx=train_idx, test_idx=test_idx,
+                            label_index=label_idx,
+                            unlabel_index=unlabel_idx,
                             refresh_interval=refresh_interval,
                             max_thread=max_thread,
                             saving_path=saving_path,
-- 
2.43.0


From f4948a8072ca743fabeaf6f0744dc1fbcd6d0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:39 +0000
Subject: [PATCH 45/46] fix: a failed split leaves the previous split of an
 experiment in force

---
 alipy/experiment/al_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 591b388..cb016f3 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -290,8 +290,6 @@ class AlExperiment:
             index of unlabeling set, shape like [n_split_count, n_unlabeling_indexes]
 
         """
-        self._split_count = split_count
-        self._split = True
         self._train_idx, self._test_idx, self._label_idx, self._unlabel_idx = split(
             X=self._X,
             y=self._y,
@@ -299,6 +297,8 @@ class AlExperiment:
             initial_label_rate=initial_label_rate,
             split_count=split_count,
             all_class=all_class)
+        self._split_count = split_count
+        self._split = True
         return self._train_idx, self._test_idx, self._label_idx, self._unlabel_idx
 
     def start_query(self, multi_thread=True, **kwargs):
-- 
2.43.0


From 2a9c2923da556b4c209ccefbdbbf5e9e8f618d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:53 +0000
Subject: [PATCH 46/46] fix: a strategy that cannot be set up leaves the
 experiment as it was

---
 alipy/experiment/al_experiment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index cb016f3..818a7b3 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -142,14 +142,15 @@ class AlExperiment:
             raise Exception("You already has set the query strategy,don`t has to set it again.")
         # user-defined strategy
         if callable(strategy):
-            self.__custom_strategy_flag = True
             strategyname = kwargs.pop('strategyname', None)
+            # nothing is set if the strategy can not be built
+            self._query_function = strategy(self._X, self._y, **kwargs)
+            self.__custom_strategy_flag = True
             if strategyname is not None:
                 self._query_function_name = strategyname
             else:
                 self._query_function_name = 'user-defined strategy'
             self.__custom_func_arg = kwargs
-            self._query_function = strategy(self._X, self._y, **kwargs)
         else:
             # a pre-defined strategy in ALiPy
             if strategy not in ['QueryInstanceQBC', 'QueryInstanceUncertainty', 'QueryRandom', 'QueryInstanceRandom',
@@ -159,7 +160,6 @@ class AlExperiment:
                 raise NotImplementedError('Strategy {} is not implemented. Specify a valid '
                                           'method name or privide a callable object.'.format(str(strategy)))
             else:
-                self._query_function_name = strategy
                 if strategy == 'QueryInstanceQBC':
                     method = kwargs.pop('method', 'query_by_bagging')
                     disagreement = kwargs.pop('disagreement', 'vote_entropy')
@@ -200,6 +200,7 @@ class AlExperiment:
                     train_slt = kwargs.pop('train_slt', True)
                     self._query_function = QueryInstanceLAL(self._X, self._y, mode, data_path, cls_est, train_slt,
                                                             **kwargs)
+                self._query_function_name = strategy
 
     def set_performance_metric(self, performance_metric='accuracy_score', **kwargs):
         """
-- 
2.43.0

