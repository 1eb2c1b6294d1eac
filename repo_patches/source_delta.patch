From 828366f168816d44a3280bc0d93263cdfce7d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 01/80] fix: inclusive join reached directly from its split
 fired before the other branches had tokens

---
 prosimos/control_flow_manager.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index ea509f9..75ff715 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -332,6 +332,10 @@ class BPMNGraph:
         current = 0
         visited_at = {e_id: self._check_and_update_enabling_time(case_id, e_id, completed_datetime_prev_event)}
         while current < len(to_execute):
+            if current > 0 and not self.is_enabled(to_execute[current], p_state):
+                # already executed through another flow reaching the same element
+                current += 1
+                continue
             e_info: ElementInfo = self.element_info[to_execute[current]]
             last_enabled = visited_at[e_info.id]
             if e_info.type == BPMN.END_EVENT and e_info.event_type == EVENT_TYPE.TERMINATE:
@@ -359,6 +363,12 @@ class BPMNGraph:
 
             self.simulation_execution_stats.update_element_execution(case_id, e_info, f_arcs)
 
+            # all tokens must be in place before checking what they enable, otherwise an inclusive join
+            # reached directly from the split would not see the tokens of the other branches
+            for flow_id, _ in f_arcs:
+                p_state.tokens[flow_id] += 1
+                p_state.state_mask |= self.arcs_bitset[flow_id]
+
             for f_arc in f_arcs:
                 self._find_next(f_arc, case_id, p_state, enabled_tasks, to_execute, last_enabled, visited_at)
             current += 1
@@ -869,8 +879,6 @@ class BPMNGraph:
     def _find_next(self, f_arc_and_duration, case_id, p_state, enabled_tasks, to_execute, enabled_time: CustomDatetimeAndSeconds, visited_at):
         # verify that there is no batch waiting to be executed
         f_arc, duration_sec = f_arc_and_duration
-        p_state.tokens[f_arc] += 1
-        p_state.state_mask |= self.arcs_bitset[f_arc]
         next_e = self.flow_arcs[f_arc][1]
         enabled_time = self._check_and_update_enabling_time(case_id, next_e, enabled_time)
         visited_at[next_e] = enabled_time
-- 
2.43.0


From 2446ae39c53f132abdbeb4c5bf539c84e25127af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 02/80] fix: simulation of a single work item crashed on an
 unbound last event time

---
 prosimos/simulation_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 9b1a905..cb59fd7 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -646,6 +646,9 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
     #       str(datetime.timedelta(seconds=(datetime.datetime.now() - s_t).total_seconds())))
     current_event = bpm_env.events_queue.pop_next_event()
     executed_cases = set()
+    last_event_datetime = None
+    if current_event is not None:
+        last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
 
     while current_event is not None:
         if current_event.p_case not in executed_cases:
-- 
2.43.0


From a9283bc8887b0472b6069b0c77c5274fd126aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 03/80] fix: global attribute probabilities were rejected
 because of floating point rounding of their sum

---
 prosimos/global_attributes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/global_attributes.py b/prosimos/global_attributes.py
index 13e1dbc..722dc22 100644
--- a/prosimos/global_attributes.py
+++ b/prosimos/global_attributes.py
@@ -52,10 +52,12 @@ class GlobalAttribute:
             return self.value.generate_sample(1)[0]
 
     def validate(self):
+        epsilon = 1e-6
+
         if self.global_attr_type == GLOBAL_ATTR_TYPE.DISCRETE:
             actual_sum_probabilities = reduce(lambda acc, item: acc + item, self.value["probabilities"], 0)
 
-            if actual_sum_probabilities != 1:
+            if not (1 - epsilon <= actual_sum_probabilities <= 1 + epsilon):
                 raise InvalidGlobalAttributeException(
                     f"Global attribute ${self.name}: probabilities' sum should be equal to 1")
 
-- 
2.43.0


From 14c9089b3b4cab445a4afb60916f959ec816486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 04/80] fix: the warnings file of a run repeated the warnings
 of all previous runs of the process

---
 prosimos/simulation_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index cb59fd7..e46aa6b 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -689,6 +689,9 @@ def run_simulation(
     is_event_added_to_log=False,
     fixed_arrival_times=None,
 ):
+    # warnings collected by previous runs in the same process do not belong to this one
+    warning_logger.clear_warnings()
+
     diffsim_info = SimDiffSetup(bpmn_path, json_path, is_event_added_to_log, total_cases)
 
     if not diffsim_info:
-- 
2.43.0


From 9f0c1fc72bc05c36de4d89ed51332d7a2a3f3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 05/80] fix: attribute expressions ignored all but the first of
 chained comparisons and did not know unary plus

---
 prosimos/event_attributes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 4a3dc2e..29dd460 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -21,7 +21,7 @@ class EVENT_ATTR_TYPE(Enum):
 
 operators = {
     ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul, ast.Div: op.truediv,
-    ast.USub: op.neg, ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt,
+    ast.USub: op.neg, ast.UAdd: op.pos, ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt,
     ast.LtE: op.le, ast.Gt: op.gt, ast.GtE: op.ge, ast.Not: op.not_,
     ast.And: op.and_, ast.Or: op.or_, ast.Mod: op.mod, ast.Pow: op.pow,
     ast.FloorDiv: op.floordiv
@@ -114,7 +114,13 @@ def eval_expr(expr, vars_dict):
             elif isinstance(node, ast.Str):
                 return node.s
             elif isinstance(node, ast.Compare):
-                return operators[type(node.ops[0])](_eval(node.left), _eval(node.comparators[0]))
+                left = _eval(node.left)
+                for operator, comparator in zip(node.ops, node.comparators):
+                    right = _eval(comparator)
+                    if not operators[type(operator)](left, right):
+                        return False
+                    left = right
+                return True
             elif isinstance(node, ast.BoolOp):
                 if type(node.op) is ast.And:
                     return all(_eval(value) for value in node.values)
-- 
2.43.0


From 88e221cd6f1f7b90fe9a2b9a743096a12b2e4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 06/80] fix: division by zero in an attribute expression over
 sampled values yielded the largest number instead of 0

---
 prosimos/event_attributes.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 29dd460..8d4b105 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -94,6 +94,16 @@ def parse_continuous_value(value_info) -> "DurationDistribution":
     return DurationDistribution.from_dict(value_info)
 
 
+# largest finite values (as Python numbers, see to_python_number)
+FLOAT_MAX = float(np.finfo(np.float32).max)
+FLOAT_MIN = float(np.finfo(np.float32).min)
+
+
+def to_python_number(value):
+    """Sampled values are numpy scalars, for which e.g. a division by zero yields inf instead of an error"""
+    return value.item() if isinstance(value, np.generic) else value
+
+
 def eval_expr(expr, vars_dict):
     try:
         tree = ast.parse(expr, mode='eval')
@@ -110,7 +120,7 @@ def eval_expr(expr, vars_dict):
                 return operators[type(node.op)](_eval(node.operand))
             elif isinstance(node, ast.Name):
                 if node.id in vars_dict:
-                    return vars_dict[node.id]
+                    return to_python_number(vars_dict[node.id])
             elif isinstance(node, ast.Str):
                 return node.s
             elif isinstance(node, ast.Compare):
@@ -130,13 +140,13 @@ def eval_expr(expr, vars_dict):
                 func_name = node.func.id
                 args = [_eval(arg) for arg in node.args]
                 if func_name in distributions:
-                    return distributions[func_name](*args)
+                    return to_python_number(distributions[func_name](*args))
                 elif func_name in math_functions:
                     args = [_eval(arg) for arg in node.args]
                     try:
                         return math_functions[func_name ](*args)
                     except OverflowError:
-                        return np.finfo(np.float32).max
+                        return FLOAT_MAX
                     except ValueError as e:
                         return 0
             else:
@@ -191,13 +201,13 @@ class EventAttribute:
                 if result == 0:  # Specifically handle zero without adjusting to tiny (in case of any errors in eval)
                     return 0
                 elif result == float('inf'):
-                    return np.finfo(np.float32).max
+                    return FLOAT_MAX
                 elif result == -float('inf'):
-                    return np.finfo(np.float32).min
+                    return FLOAT_MIN
                 elif abs(result) < np.finfo(np.float32).tiny:
                     return np.finfo(np.float32).tiny
                 elif abs(result) > np.finfo(np.float32).max:
-                    return np.finfo(np.float32).max if result > 0 else np.finfo(np.float32).min
+                    return FLOAT_MAX if result > 0 else FLOAT_MIN
                 else:
                     return result
             else:
-- 
2.43.0


From a6f511fc0ec65cc790905972b915cf1049da6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 07/80] fix: overflowing or complex powers in attribute
 expressions aborted the simulation or leaked complex values

---
 prosimos/event_attributes.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 8d4b105..3c46e83 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -19,11 +19,18 @@ class EVENT_ATTR_TYPE(Enum):
     DTREE = "dtree"
 
 
+def power(base, exponent):
+    # an integer power beyond the range of floats is not computed digit by digit
+    if isinstance(base, int) and isinstance(exponent, int) and abs(base) > 1 and exponent * base.bit_length() > 4096:
+        raise OverflowError()
+    return op.pow(base, exponent)
+
+
 operators = {
     ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul, ast.Div: op.truediv,
     ast.USub: op.neg, ast.UAdd: op.pos, ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt,
     ast.LtE: op.le, ast.Gt: op.gt, ast.GtE: op.ge, ast.Not: op.not_,
-    ast.And: op.and_, ast.Or: op.or_, ast.Mod: op.mod, ast.Pow: op.pow,
+    ast.And: op.and_, ast.Or: op.or_, ast.Mod: op.mod, ast.Pow: power,
     ast.FloorDiv: op.floordiv
 }
 
@@ -115,7 +122,14 @@ def eval_expr(expr, vars_dict):
             if isinstance(node, ast.Num):
                 return node.n
             elif isinstance(node, ast.BinOp):
-                return operators[type(node.op)](_eval(node.left), _eval(node.right))
+                left, right = _eval(node.left), _eval(node.right)
+                try:
+                    result = operators[type(node.op)](left, right)
+                except OverflowError:
+                    is_negative = left < 0 and (type(node.op) is not ast.Pow or right % 2 == 1)
+                    return FLOAT_MIN if is_negative else FLOAT_MAX
+                # e.g., fractional power of a negative number
+                return 0 if isinstance(result, complex) else result
             elif isinstance(node, ast.UnaryOp):
                 return operators[type(node.op)](_eval(node.operand))
             elif isinstance(node, ast.Name):
-- 
2.43.0


From a0e321ba1ec6194ec21b33cdd8bb17503698f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 08/80] fix: event attributes of an activity listed in several
 entries were dropped except for the last entry

---
 prosimos/event_attributes_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/event_attributes_parser.py b/prosimos/event_attributes_parser.py
index ef8747a..a91d6ac 100644
--- a/prosimos/event_attributes_parser.py
+++ b/prosimos/event_attributes_parser.py
@@ -9,7 +9,7 @@ class EventAttributesParser:
         event_attributes = {}
         for curr_event_attr in self.data:
             event_id = curr_event_attr["event_id"]
-            event_attributes[event_id] = {}
+            event_attributes.setdefault(event_id, {})
             for attr in curr_event_attr["attributes"]:
                 event_attr = EventAttribute(
                     event_id,
-- 
2.43.0


From bf26e31505792d8c368d84345584824e859abf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 09/80] fix: event attributes were not updated by activities
 executed in a batch

---
 prosimos/simulation_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index e46aa6b..cb0c22f 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -573,6 +573,7 @@ class SimBPMEnv:
 
         self.resource_queue.update_resource_availability(r_id, r_next_available)
 
+        self.update_attributes(full_evt)
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
 
         completed_at = full_evt.completed_at
-- 
2.43.0


From 4d5877b2af0996bb2b2afc3e5a050cd9e20781f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 10/80] fix: a global attribute declared as both case and event
 attribute had two columns in the log

---
 prosimos/all_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/all_attributes.py b/prosimos/all_attributes.py
index 9bab483..ce81449 100644
--- a/prosimos/all_attributes.py
+++ b/prosimos/all_attributes.py
@@ -41,7 +41,8 @@ class AllAttributes:
             self.event_attributes
         ]
         columns = [attr.get_columns_generated() for attr in attributes_collections]
-        return [item for sublist in columns for item in sorted(sublist)]
+        # a global attribute could be declared both as a case and as an event one
+        return list(dict.fromkeys(item for sublist in columns for item in sorted(sublist)))
 
     def _extract_case_attributes(self, case_attributes, global_case_attribute_names):
         global_case_attributes = list()
-- 
2.43.0


From a1766bc6fa1a20b21160d70452f398584b265819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 11/80] fix: state transition of an attribute altered the
 values over which the other attributes of the activity are computed

---
 prosimos/event_attributes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 3c46e83..57b7d86 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -202,7 +202,6 @@ class EventAttribute:
                 current_value = all_attributes.get(self.name, None)
                 next_state = self.get_next_markov_state(current_value)
                 if next_state is not None:
-                    all_attributes[self.name] = next_state
                     return next_state
                 return current_value
             else:
-- 
2.43.0


From 1f2b8012a99cd472624183d97708538c19177e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 12/80] fix: batch items were executed twice or lost when
 waiting cases had different priorities

---
 prosimos/control_flow_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 75ff715..eb9c36b 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -20,7 +20,9 @@ seconds_per_unit = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
 
 class BatchInfoForExecution:
     def __init__(self, all_case_ids, task_batch_info, curr_task_id, batch_spec, start_time_from_rule):
-        self.case_ids = all_case_ids[curr_task_id].copy()
+        # only the first items in the queue belong to the batches being executed,
+        # the rest keeps waiting (see BPMNGraph._clear_batch)
+        self.case_ids = dict(list(all_case_ids[curr_task_id].items())[:sum(batch_spec)])
         self.task_batch_info = task_batch_info[curr_task_id]
         self.batch_spec = batch_spec
         self.start_time_from_rule = start_time_from_rule
-- 
2.43.0


From c855138ebfd3707edfb5d97767288c29fe788a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 13/80] fix: batches with a lower bound on the size as the only
 firing condition were never executed

---
 prosimos/batch_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 4de0143..799d13d 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -718,7 +718,8 @@ class AndFiringRule():
                 # initial_batch_size = batch_size
                 # if previously batch_size satisfy the size rule - return it
                 # if not - return the one we've just calculated with the size rule limitations
-                batch_size = batch_size if rule_operator(batch_size, value2) else batch_size_rule
+                is_size_known = batch_size != sys.maxsize
+                batch_size = batch_size if is_size_known and rule_operator(batch_size, value2) else batch_size_rule
                 
                 if batch_size > current_batch_size or \
                     enabled_time > initial_curr_enabled_at:
-- 
2.43.0


From 0ae66e8cca493b56f259e0584e9011e3a1e575f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 14/80] fix: nothing was simulated when all cases wait for a
 batch at their first activity

---
 prosimos/simulation_engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index cb0c22f..46d8528 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -650,6 +650,14 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
     last_event_datetime = None
     if current_event is not None:
         last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
+    elif bpm_env.log_info.trace_list:
+        # all cases start with a batched task, and none of the batches was enabled by an arrival
+        last_arrival = bpm_env.log_info.trace_list[-1].started_at
+        last_event_datetime = CustomDatetimeAndSeconds(
+            (last_arrival - bpm_env.sim_setup.start_datetime).total_seconds(), last_arrival
+        )
+        bpm_env.execute_if_any_unexecuted_batch(last_event_datetime)
+        current_event = bpm_env.events_queue.pop_next_event()
 
     while current_event is not None:
         if current_event.p_case not in executed_cases:
-- 
2.43.0


From 7d21cd03cd9b335172697aa095e6879f1d47a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 15/80] fix: simulation crashed at its end when items wait for
 a batch with a ready_wt condition

---
 prosimos/batch_processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 799d13d..790767a 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -329,7 +329,7 @@ class FiringSubRule():
             return 0, None
 
 
-    def is_invalid_end(self, curr_batch_size, last_wt):
+    def is_invalid_end(self, curr_batch_size, last_wt, ready_wt_boundaries):
         is_invalid = False
 
         if RULE_TYPE(self.variable1) == RULE_TYPE.SIZE:
@@ -343,7 +343,7 @@ class FiringSubRule():
             # if we surpass the upper limit of waiting_time,
             # this will not be changed in the future cause we will not receive a new item
             # and thus ready_wt value will not be reset
-            _, high_boundary = self.ready_wt_boundaries
+            _, high_boundary = ready_wt_boundaries
             is_invalid = last_wt > high_boundary
 
         return is_invalid
@@ -840,7 +840,7 @@ class AndFiringRule():
         is_invalid = False
         
         for simple_rule in self.rules:
-            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt)
+            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt, self.ready_wt_boundaries)
 
             if is_invalid:
                 break
-- 
2.43.0


From ddd3df44f62142b0f96494520b2eaaeeaae49fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 16/80] fix: batches waiting for more than a day were never
 executed or executed at wrong times

---
 prosimos/batch_processing.py     | 18 ++++++++++++++----
 prosimos/control_flow_manager.py |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 790767a..eba3a36 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -123,7 +123,7 @@ class FiringSubRule():
             curr_enabled_datetime = element["curr_enabled_at"]
             op = _get_operator_symbols_ge(self.operator)
 
-            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).seconds
+            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).total_seconds()
             is_rule_true = op(ready_wt_sec, self.value2)
            
             if is_rule_true == False:
@@ -466,7 +466,7 @@ class AndFiringRule():
                 # happens when no new cases will arrive 
                 return en_time_index, _get_enabled_time_for_wt_rule(prev_item, operator.gt, high_boundary)
 
-            diff = (item - prev_item).seconds
+            diff = (item - prev_item).total_seconds()
             is_batch_enabled_low = diff < low_boundary
 
             if is_batch_enabled_low:
@@ -488,7 +488,12 @@ class AndFiringRule():
 
             prev_item = item
 
-        return 0, None
+        # the batch will be enabled in the future, unless a new task comes before
+        last_item = enabled_datetimes[-1]
+        if len(enabled_datetimes) > 1:
+            return len(enabled_datetimes), _get_enabled_time_for_wt_rule(last_item, operator.ge, low_boundary)
+
+        return 1, _get_enabled_time_for_wt_rule(last_item, operator.le, high_boundary)
 
     def get_large_wt(self, element):
         if not self._has_rule([RULE_TYPE.LARGE_WT]):
@@ -508,7 +513,12 @@ class AndFiringRule():
         prev_item = first_item
         list_len = len(enabled_dt_with_curr_enabled)
         for en_time_index, item in enumerate(enabled_dt_with_curr_enabled[1:], 1):
-            diff = (item - first_item).seconds
+            if item < first_item and len(enabled_datetimes) == 1:
+                # one item in the future
+                # happens when no new cases will arrive
+                return en_time_index, _get_enabled_time_for_wt_rule(first_item, operator.gt, high_boundary)
+
+            diff = (item - first_item).total_seconds()
             is_batch_enabled_low = diff > low_boundary
             
             if not is_batch_enabled_low:
diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index eb9c36b..b3b3112 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1073,9 +1073,9 @@ class BPMNGraph:
         all_keys = list(waiting_tasks.keys())
 
         first_key = all_keys[0]
-        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).seconds
+        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).total_seconds()
 
         last_key = all_keys[-1]
-        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).seconds
+        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).total_seconds()
 
         return self.batch_info[task_id].firing_rules.is_invalid_end(num_tasks_wait_batch, first_wt, last_wt)
-- 
2.43.0


From 3d8c9ceca669a81afb03716dbeabd6e51fdd2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 17/80] fix: a single item waiting for a batch was lost at the
 end of the simulation with a large_wt condition

---
 prosimos/batch_processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index eba3a36..5e42188 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -509,7 +509,8 @@ class AndFiringRule():
         enabled_dt_with_curr_enabled = enabled_datetimes.copy()
         enabled_dt_with_curr_enabled.append(curr_enabled_datetime)
 
-        result = 0, None
+        # a single item waits for the second one till the high_boundary is reached
+        result = 1, _get_enabled_time_for_wt_rule(first_item, operator.gt, high_boundary)
         prev_item = first_item
         list_len = len(enabled_dt_with_curr_enabled)
         for en_time_index, item in enumerate(enabled_dt_with_curr_enabled[1:], 1):
@@ -554,7 +555,7 @@ class AndFiringRule():
             else: # higher than the highest boundary
                 return en_time_index, _get_enabled_time_for_wt_rule(first_item, operator.gt, high_boundary)
         
-        return result # 0, None
+        return result
 
 
     def _get_min_enabled_time_waiting_time(self, case_id_and_enabled_times,
-- 
2.43.0


From 578cc95efe9884475758152bf0d359055b86c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 18/80] fix: items of a parallel batch started at different
 times or out of working hours, and batches started before all their items
 were enabled

---
 prosimos/simulation_engine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 46d8528..3338b0b 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -469,6 +469,9 @@ class SimBPMEnv:
 
             completed_at = 0
 
+            # the batch cannot start until its last item is enabled
+            r_avail_at = max(r_avail_at, max(enabled_time.seconds_from_start for _, enabled_time in batch_item))
+
             for case_id, enabled_time in batch_item:
                 p_case = case_id
                 task_id = c_event.task_id
@@ -529,7 +532,10 @@ class SimBPMEnv:
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
-            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds)
+            # all items start together, so none of them can start until the last one is enabled
+            last_enabled_at = max(enabled_time.seconds_from_start for _, enabled_time in batch_item)
+
+            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds, last_enabled_at)
             avail_datetime = self._datetime_from(r_avail_at)
             is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
             if not is_working:
-- 
2.43.0


From a955dcf2a950114d9ce0eb43b73a0f568c97e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 19/80] fix: items enabled after the day required by a week_day
 condition were executed within the batch of that day

---
 prosimos/batch_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 5e42188..f32ce1f 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -203,7 +203,8 @@ class FiringSubRule():
                 if len(follow_rule) > 1:
                     return len(follow_rule), boundary_day
                     
-        if element["is_triggered_by_batch"]:
+        if element["is_triggered_by_batch"] and \
+            curr_enabled_at.date() == boundary_day.date():
             boundary_day = curr_enabled_at
             op = operator.le
         else:
-- 
2.43.0


From 6578337690a20ef17121b0b029cc2bf08d9582f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 20/80] fix: items waiting for a week day which is in progress
 at the end of the simulation were never executed

---
 prosimos/batch_processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index f32ce1f..8ec51c4 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -825,6 +825,13 @@ class AndFiringRule():
                 # no other rule types are being supported
                 continue
 
+        if week_day_date != None:
+            last_item_enabled_time = max(v.datetime for (_, v) in waiting_times)
+            if max(expected_enabled_time) <= last_item_enabled_time:
+                # the required day is already in progress and its rule was not satisfied,
+                # so the items have to wait till the same day of the next week
+                expected_enabled_time = [ en_time + timedelta(days=7) for en_time in expected_enabled_time ]
+
         return expected_enabled_time
 
 
-- 
2.43.0


From 100128f1ecb265c50d2283f689ca7f87d699ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 21/80] fix: the last item waiting for a batch was lost if the
 firing rules require at least two items

---
 prosimos/batch_processing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 8ec51c4..61106c2 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -347,7 +347,9 @@ class FiringSubRule():
             _, high_boundary = ready_wt_boundaries
             is_invalid = last_wt > high_boundary
 
-        return is_invalid
+        # the last item left cannot be executed in a batch in the future
+        # if the rule requires at least two items
+        return is_invalid or not self.is_batch_size_enough(curr_batch_size)
 
 
 class AndFiringRule():
@@ -943,8 +945,9 @@ class OrFiringRule():
         for and_rule in self.rules:
             is_invalid = and_rule.is_invalid_end(num_tasks, first_wt, ready_wt)
 
-            if is_invalid:
-                return True
+            if not is_invalid:
+                # at least one of the alternatives might still become satisfied
+                return False
 
         return is_invalid
     
-- 
2.43.0


From a3c70a82b59d3e2d44e1fc247ae129ad9455dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 22/80] fix: items waiting for a week day were lost when
 several weeks passed until the last of them

---
 prosimos/batch_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 61106c2..e1a8316 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -829,7 +829,7 @@ class AndFiringRule():
 
         if week_day_date != None:
             last_item_enabled_time = max(v.datetime for (_, v) in waiting_times)
-            if max(expected_enabled_time) <= last_item_enabled_time:
+            while max(expected_enabled_time) <= last_item_enabled_time:
                 # the required day is already in progress and its rule was not satisfied,
                 # so the items have to wait till the same day of the next week
                 expected_enabled_time = [ en_time + timedelta(days=7) for en_time in expected_enabled_time ]
-- 
2.43.0


From e008f5f5711094b562aa63265b5f60331d64d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 23/80] fix: items waiting for a batch were evaluated in the
 order of execution of the preceding tasks instead of their enablement

---
 prosimos/control_flow_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index b3b3112..7a73249 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -993,6 +993,12 @@ class BPMNGraph:
 
         self.batch_waiting_processes[task_id][case_id] = enabled_time
 
+        # the firing rules expect the items in the order of their enablement,
+        # which is not necessarily the order in which the preceding tasks were executed
+        self.batch_waiting_processes[task_id] = dict(
+            sorted(self.batch_waiting_processes[task_id].items(), key=lambda item: item[1].datetime)
+        )
+
         if task_id in self.batch_count:
             self.batch_count[task_id] += 1
         else:
-- 
2.43.0


From 7478452696e694e2df3028bf211bd897565fa747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 24/80] fix: items waiting for a batch with a daily_hour
 condition were lost at the end of the simulation

---
 prosimos/batch_processing.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index e1a8316..5c74fa7 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -801,6 +801,8 @@ class AndFiringRule():
             if en_time != None:
                 expected_enabled_time.append(en_time)
         
+        last_item_enabled_time = max(v.datetime for (_, v) in waiting_times)
+
         for subrule in self.rules:
             if subrule.variable1 == "size":
                 expected_enabled_time.append(last_task_enabled_time.datetime)
@@ -808,27 +810,17 @@ class AndFiringRule():
                 en_time = subrule._get_min_enabled_time_week_day(last_task_enabled_time)
                 expected_enabled_time.append(en_time)
                 week_day_date = en_time.date()
-            elif subrule.variable1 == "daily_hour":
-                en_time = subrule._get_min_enabled_time_daily_hour(last_task_enabled_time)
-                if week_day_date != None:
-                    en_time = datetime.combine(
-                        week_day_date,
-                        en_time.time(),
-                        en_time.tzinfo
-                    )
-                expected_enabled_time.append(en_time)
-            elif subrule.variable1 == "large_wt":
-                # was calculated previously
-                continue
-            elif subrule.variable1 == "ready_wt":
-                # was calculated previously
-                continue
-            else:
-                # no other rule types are being supported
-                continue
+
+        if self._has_rule([RULE_TYPE.DAILY_HOUR]):
+            # the beginning of the daily range, on the required day of the week if there is one,
+            # otherwise on the first day after all items are enabled
+            low_boundary, _ = self.daily_hour_range
+            last_datetime = max(last_task_enabled_time.datetime, last_item_enabled_time)
+            boundary_date = week_day_date if week_day_date != None \
+                else (last_datetime + timedelta(days=1)).date()
+            expected_enabled_time.append(datetime.combine(boundary_date, low_boundary, last_datetime.tzinfo))
 
         if week_day_date != None:
-            last_item_enabled_time = max(v.datetime for (_, v) in waiting_times)
             while max(expected_enabled_time) <= last_item_enabled_time:
                 # the required day is already in progress and its rule was not satisfied,
                 # so the items have to wait till the same day of the next week
-- 
2.43.0


From b41d23122fea56ee8194e19fb60e7ae9e2a8f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 25/80] fix: items waiting for a batch which will never be
 enabled were lost at the end of the simulation

---
 prosimos/control_flow_manager.py |  4 ++--
 prosimos/simulation_engine.py    | 29 +++++++++++++++++++----------
 prosimos/simulation_setup.py     |  4 ++--
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 7a73249..3e48626 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1037,14 +1037,14 @@ class BPMNGraph:
                 yield case_id_and_start_time
 
 
-    def get_invalid_batches_if_any(self, current_point_of_time):
+    def get_invalid_batches_if_any(self, current_point_of_time, include_valid=False):
         enabled_task_batch = dict()
         for (task_id, waiting_tasks) in self.batch_waiting_processes.items():
             num_tasks_wait_batch = len(waiting_tasks)
             if num_tasks_wait_batch == 0:
                 continue
 
-            if self.is_or_rule_invalid(waiting_tasks, task_id, num_tasks_wait_batch, current_point_of_time):
+            if include_valid or self.is_or_rule_invalid(waiting_tasks, task_id, num_tasks_wait_batch, current_point_of_time):
                 # if the rule become invlaid, we execute everything we have
                 # invalid = the one that cannot be satisfied in the future anymore
                 # this method is being called only in case it is the end of all simulated cases
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 3338b0b..9ad48b4 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -420,16 +420,25 @@ class SimBPMEnv:
                             enabled_batch_task_ids[key] = item
 
             if enabled_batch_task_ids is not None:
-                for batch_task_id, batch_info in enabled_batch_task_ids.items():
-                    c_event = EnabledEvent(
-                        case_id,
-                        self.all_process_states[case_id],
-                        batch_task_id,
-                        self.simulation_at_from_datetime(batch_info.start_time_from_rule),
-                        batch_info.start_time_from_rule,
-                        batch_info,
-                    )
-                    self.calc_priority_and_append_to_queue(c_event, False)
+                self._append_unexecuted_batches(case_id, enabled_batch_task_ids)
+
+        if self.events_queue.peek() is None:
+            # none of the rules will be satisfied in the future, execute everything that is still waiting
+            batches = self.sim_setup.get_invalid_batches_if_any(last_task_enabled_time, include_valid=True)
+            for batch_task_id, batch_info in batches.items():
+                self._append_unexecuted_batches(next(iter(batch_info.case_ids)), {batch_task_id: batch_info})
+
+    def _append_unexecuted_batches(self, case_id, enabled_batch_task_ids):
+        for batch_task_id, batch_info in enabled_batch_task_ids.items():
+            c_event = EnabledEvent(
+                case_id,
+                self.all_process_states[case_id],
+                batch_task_id,
+                self.simulation_at_from_datetime(batch_info.start_time_from_rule),
+                batch_info.start_time_from_rule,
+                batch_info,
+            )
+            self.calc_priority_and_append_to_queue(c_event, False)
 
     def _get_chunk(self, batch_spec, curr_index, all_case_ids):
         """Return only the part of the all_case_ids that will be executed as a batch"""
diff --git a/prosimos/simulation_setup.py b/prosimos/simulation_setup.py
index 824be34..6583284 100644
--- a/prosimos/simulation_setup.py
+++ b/prosimos/simulation_setup.py
@@ -97,8 +97,8 @@ class SimDiffSetup:
     def is_any_batch_enabled(self, started_datetime):
         return self.bpmn_graph.is_any_batch_enabled(started_datetime)
 
-    def get_invalid_batches_if_any(self, current_point_of_time):
-        return self.bpmn_graph.get_invalid_batches_if_any(current_point_of_time)
+    def get_invalid_batches_if_any(self, current_point_of_time, include_valid=False):
+        return self.bpmn_graph.get_invalid_batches_if_any(current_point_of_time, include_valid)
 
     def is_any_unexecuted_batch(self, last_task_enabled_time):
         return self.bpmn_graph.is_any_unexecuted_batch(last_task_enabled_time)
-- 
2.43.0


From 4f2795bd8371292cbedc0f18b023bb72cce538cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 26/80] fix: batches executed at the end of the simulation lost
 the days of their enabling time

---
 prosimos/simulation_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 9ad48b4..0f6eae2 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -622,7 +622,7 @@ class SimBPMEnv:
 
     def simulation_at_from_datetime(self, datetime):
         td = datetime - self.sim_setup.start_datetime
-        return td.seconds
+        return td.total_seconds()
 
     def get_utilization_for(self, resource_id):
         if self.sim_resources[resource_id].available_time == 0:
-- 
2.43.0


From 870d67c71d898a877b00fbb4cbbdb4a92477a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 27/80] fix: all batches enabled at the same time had the same
 batch_id

---
 prosimos/simulation_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 0f6eae2..0cfbf15 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -5,6 +5,7 @@ import numpy as np
 from datetime import timedelta
 from typing import List
 import random
+import uuid
 
 import pytz
 
@@ -473,6 +474,7 @@ class SimBPMEnv:
 
         for batch_item in chunks:
             num_tasks_in_batch = len(batch_item)
+            batch_id = str(uuid.uuid4())
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
@@ -509,7 +511,7 @@ class SimBPMEnv:
                     enabled_datetime,
                     self,
                     num_tasks_in_batch,
-                    c_event.batch_info_exec.batch_id
+                    batch_id
                 )
 
                 self.sim_resources[r_id].worked_time += full_evt.ideal_duration
@@ -538,6 +540,7 @@ class SimBPMEnv:
 
         for batch_item in chunks:
             num_tasks_in_batch = len(batch_item)
+            batch_id = str(uuid.uuid4())
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
@@ -564,7 +567,7 @@ class SimBPMEnv:
                     enabled_datetime,
                     self,
                     num_tasks_in_batch,
-                    c_event.batch_info_exec.batch_id
+                    batch_id
                 )
 
                 (
-- 
2.43.0


From 943987dc4dc7c0df14fe27ed9e97a097525536a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 28/80] fix: a resource executing a parallel batch was released
 before the longest item was completed

---
 prosimos/simulation_engine.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 0cfbf15..526a325 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -553,6 +553,8 @@ class SimBPMEnv:
             if not is_working:
                 r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
 
+            longest_evt = None
+
             for case_id, enabled_time in batch_item:
                 p_case = case_id
                 enabled_at = enabled_time.seconds_from_start
@@ -575,21 +577,21 @@ class SimBPMEnv:
                     completed_datetime,
                 ) = self._update_logs_and_resource_availability(full_evt, r_id)
 
+                if longest_evt is None or full_evt.completed_at > longest_evt.completed_at:
+                    longest_evt = full_evt
+
                 yield completed_at, completed_datetime, p_case
 
             # since the tasks are executed in parallel
             # we add their duration only once cause they were happening at the same time
-            self.sim_resources[r_id].worked_time += full_evt.ideal_duration
+            # and the resource is busy till the last of them is completed
+            self.sim_resources[r_id].worked_time += longest_evt.ideal_duration
+            self._update_resource_availability(longest_evt, r_id)
 
     def _update_logs_and_resource_availability(self, full_evt: TaskEvent, r_id):
         self.log_info.add_event_info(full_evt.p_case, full_evt, self.sim_setup.resources_map[r_id].cost_per_hour)
 
-        r_next_available = full_evt.completed_at
-
-        if self.sim_resources[r_id].switching_time > 0:
-            r_next_available += self.sim_setup.next_resting_time(r_id, full_evt.completed_datetime)
-
-        self.resource_queue.update_resource_availability(r_id, r_next_available)
+        self._update_resource_availability(full_evt, r_id)
 
         self.update_attributes(full_evt)
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
@@ -599,6 +601,14 @@ class SimBPMEnv:
 
         return completed_at, completed_datetime
 
+    def _update_resource_availability(self, full_evt: TaskEvent, r_id):
+        r_next_available = full_evt.completed_at
+
+        if self.sim_resources[r_id].switching_time > 0:
+            r_next_available += self.sim_setup.next_resting_time(r_id, full_evt.completed_datetime)
+
+        self.resource_queue.update_resource_availability(r_id, r_next_available)
+
     def execute_event(self, c_event):
         # Handle event types separately (they don't need assigned resource)
         event_duration_seconds = None
-- 
2.43.0


From a69ebffbebe914985daf44f3d99056256bf32598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 29/80] fix: durations in a batch were scaled by the
 coefficient of a larger batch size

---
 prosimos/batch_processing.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 5c74fa7..097c0ae 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -1050,18 +1050,13 @@ class BatchConfigPerTask():
         curr_coef = self.duration_distribution.get(num_tasks_in_batch, None)
 
         if curr_coef is None:
-            # find the nearest and lowest key in case of not matching
-            min_distance = sys.maxsize
+            # the coefficient of the highest key that does not exceed the size of the batch,
+            # the original duration if all keys do
+            curr_coef = 1.0
             for item in self.sorted_duration_distribution:
-                curr_distance = abs(num_tasks_in_batch - item)
-                if curr_distance < min_distance:
-                    min_distance = curr_distance
-                    min_key = item
-                else:
+                if item > num_tasks_in_batch:
                     break
-            
-            # assign the nearest coeff as the current one
-            curr_coef = self.duration_distribution[min_key]
+                curr_coef = self.duration_distribution[item]
 
         # calculate the duration for executing one of the batched task
         duration_per_task = initial_duration * curr_coef
-- 
2.43.0


From 1d41e409f6694e3e68c54cb9cbcb0c84aeb30198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 30/80] fix: probability of the first batch size in the list
 was used as the one of executing tasks alone

---
 prosimos/batch_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 097c0ae..9e49bfb 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -1004,7 +1004,7 @@ class BatchConfigPerTask():
         else:
             # redefine the probabilities
             # to be used to get the probabiity of batch to be executed alone
-            prob_for_one = self.probabilities[0]
+            prob_for_one = dict(zip(self.possible_options, self.probabilities)).get(1, 0)
             other_than_one_prob = 1 - prob_for_one
             
             self.possible_options = [1,2]
-- 
2.43.0


From 3866e631b96ca286b691864b078702c315a22c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 31/80] fix: a sequential batch whose rule was satisfied
 earlier started only when the next item was enabled

---
 prosimos/simulation_engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 526a325..ed93499 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -488,12 +488,12 @@ class SimBPMEnv:
                 task_id = c_event.task_id
                 enabled_at = enabled_time.seconds_from_start
                 enabled_datetime = enabled_time.datetime
-                enabled_batch = c_event.enabled_at
 
+                # the time dictated by the rule overwrites the time when the batch was triggered,
+                # which is the one of the next item if the rule was satisfied before its enabling
                 r_avail_at = max(
                     enabled_at,
                     r_avail_at,
-                    enabled_batch,
                     completed_at,
                     start_time_from_rule_seconds,
                 )
-- 
2.43.0


From 2d1bc8a1a35399e2279627195d57906ffadf4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:56 +0000
Subject: [PATCH 32/80] fix: batches due at different times and released
 together all started at the time of the first one

---
 prosimos/control_flow_manager.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 3e48626..9b8525f 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -433,10 +433,31 @@ class BPMNGraph:
             # if the rules were discovered,
             # we proceed with checking whether the rule is satisfied and
             # information for executing the batch 
-            return firing_rules.is_true(spec)
+            is_enabled, batch_spec, start_time = firing_rules.is_true(spec.copy())
+            if is_enabled and len(batch_spec) > 1:
+                batch_spec = self._get_batches_due_at(start_time, spec, batch_spec, firing_rules)
+            return is_enabled, batch_spec, start_time
         else:
             return self.get_batch_size_no_rules_defined(spec, firing_rules, task_batch_info)
 
+    def _get_batches_due_at(self, start_time, spec, batch_spec, firing_rules):
+        """
+        All batches released together start at the same time. Keep only those due at this time,
+        the items of the others are still waiting and are evaluated with the next event
+        """
+        for i in range(1, len(batch_spec)):
+            num_items = sum(batch_spec[:i])
+            is_true, _, next_start_time = firing_rules.is_true({
+                **spec,
+                "size": spec["size"] - num_items,
+                "waiting_times": spec["waiting_times"][num_items:],
+                "enabled_datetimes": spec["enabled_datetimes"][num_items:],
+            })
+            if not is_true or next_start_time != start_time:
+                return batch_spec[:i]
+
+        return batch_spec
+
     def get_batch_size_no_rules_defined(self, spec, firing_rules, task_batch_info):
         """
         In case no rules were discovered, size distribution is being used to define how batches will be formed.
-- 
2.43.0


From a817d020a6272249316b602d385c97f35ab85e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 33/80] fix: items enabled after the day required by a week_day
 condition were used to reach the required batch size

---
 prosimos/batch_processing.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 9e49bfb..9489140 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -703,17 +703,20 @@ class AndFiringRule():
 
         is_time_forced = False
 
+        # items enabled after the required day of the week cannot be part of the batch of that day
+        items_enabled_before_day = current_batch_size
+
         for subrule in self.rules:
             curr_size = 0
 
             if subrule.is_batch_size():
                 value2 = subrule.value2
                 switcher = {
-                    '<': min(current_batch_size, value2 - 1),
-                    '<=': min(current_batch_size, value2),
-                    '=': value2 if current_batch_size >= value2 else 0,
-                    '>': current_batch_size if current_batch_size > value2 else 0,
-                    '>=': current_batch_size if current_batch_size >= value2 else 0
+                    '<': min(items_enabled_before_day, value2 - 1),
+                    '<=': min(items_enabled_before_day, value2),
+                    '=': value2 if items_enabled_before_day >= value2 else 0,
+                    '>': items_enabled_before_day if items_enabled_before_day > value2 else 0,
+                    '>=': items_enabled_before_day if items_enabled_before_day >= value2 else 0
                 }
 
                 batch_size_rule = switcher.get(subrule.operator)
@@ -750,6 +753,8 @@ class AndFiringRule():
                     batch_size = 0
                     break
                 is_time_forced = True
+                if not self._has_rule([RULE_TYPE.DAILY_HOUR]):
+                    items_enabled_before_day = curr_size
             elif subrule.variable1 == "daily_hour":
                 only_one_date = False
                 if is_time_forced:
-- 
2.43.0


From 1cad10acf8004a14abc901bf365f7f31aaa17ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 34/80] fix: items waiting for a week day were released at a
 later week when nothing else was executed in between

---
 prosimos/batch_processing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 9489140..fdf437c 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -184,6 +184,11 @@ class FiringSubRule():
         rule_value_str = self.value2.upper()
   
         enabled_times = element["enabled_datetimes"].copy()
+        # many weeks might pass until the rule is verified, so we take the first required day
+        # when there are enough items for the batch
+        if len(enabled_times) > 1 and curr_enabled_at - enabled_times[1] > timedelta(days=7):
+            curr_enabled_at = get_nearest_abs_day(rule_value_str, enabled_times[1])
+
         rule_nearest_past_day = get_nearest_past_day(rule_value_str, curr_enabled_at)
             
         boundary_day = datetime(rule_nearest_past_day.year, rule_nearest_past_day.month, rule_nearest_past_day.day, \
-- 
2.43.0


From b27638f91e1d3b25e5b0edf8a4650689c85f26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 35/80] fix: of several satisfied firing rules the first in the
 list set the start of the batch instead of the earliest

---
 prosimos/batch_processing.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index fdf437c..6bc1f1c 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -912,12 +912,16 @@ class OrFiringRule():
                 otherwise, enabled_time is being returned
         """
         is_batched_task_enabled = False
+        satisfied = None
         for rule in self.rules:
-            is_batched_task_enabled, batch_spec, start_time = rule.is_true(spec)
+            is_batched_task_enabled, batch_spec, start_time = rule.is_true(spec.copy())
 
-            # fast exit if one of the rule is true
-            if is_batched_task_enabled:
-                return is_batched_task_enabled, batch_spec, start_time
+            # the batch is enabled by the rule which became true first
+            if is_batched_task_enabled and (satisfied is None or start_time < satisfied[2]):
+                satisfied = is_batched_task_enabled, batch_spec, start_time
+
+        if satisfied is not None:
+            return satisfied
 
         # no enabled batches, check whether rule is invalid
         # if yes, batch is triggered straight away
@@ -929,7 +933,7 @@ class OrFiringRule():
                 # and "current" moment of time we have
                 return True, [spec["size"]], spec["curr_enabled_at"]
         
-        return is_batched_task_enabled, None, None
+        return False, None, None
 
 
     def is_invalid_end(self, num_tasks, first_wt, ready_wt):
-- 
2.43.0


From dc0cd93f650ce4586ec5a070b09ae1ef579bf18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 36/80] fix: nested or overlapping intervals were counted
 several times in the process KPIs

---
 prosimos/simulation_stats_calculator.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index d170562..dc07a79 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -341,15 +341,15 @@ def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
     interval_list = sorted(interval_list, key=lambda interval: interval.start)
-    t_duration = interval_list[0].duration
-    for i in range(1, len(interval_list)):
-        i_interval = interval_list[i - 1].intersection(interval_list[i])
-        for j in range(i - 2, -1, -1):
-            intersection = interval_list[j].intersection(i_interval)
-            if intersection is None:
-                break
-            i_interval = intersection
-        t_duration += interval_list[i].duration - i_interval.duration if i_interval else interval_list[i].duration
+    t_duration = 0
+    last_end = None
+    for interval in interval_list:
+        if last_end is None or interval.start >= last_end:
+            t_duration += interval.duration
+            last_end = interval.end
+        elif interval.end > last_end:
+            t_duration += (interval.end - last_end).total_seconds()
+            last_end = interval.end
     return round(t_duration, 6)
 
 
-- 
2.43.0


From 3da1a8bebe5f21f46dbf211e4fb8a0ee3b8e4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 37/80] fix: all intermediate events of a simulation shared the
 times of the last one in the KPIs

---
 prosimos/execution_info.py              | 35 ++++++++++++-------------
 prosimos/simulation_engine.py           |  2 +-
 prosimos/simulation_stats_calculator.py |  2 ++
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/prosimos/execution_info.py b/prosimos/execution_info.py
index 498a5fd..3563ed9 100644
--- a/prosimos/execution_info.py
+++ b/prosimos/execution_info.py
@@ -77,24 +77,23 @@ class TaskEvent:
 
     @classmethod
     def create_event_entity(cls, c_event: EnabledEvent, ended_at, ended_datetime):
-        cls.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
-        cls.task_id = c_event.task_id  # Name of the task related to the current event
-        cls.type = BPMN.INTERMEDIATE_EVENT
-        cls.enabled_at = c_event.enabled_at
-        cls.enabled_datetime = c_event.enabled_datetime
-        cls.started_at = c_event.enabled_at
-        cls.started_datetime = c_event.enabled_datetime
-        cls.completed_at = ended_at
-        cls.completed_datetime = ended_datetime
-        cls.idle_time = 0.0
-        cls.waiting_time = 0.0
-        cls.idle_cycle_time = 0.0
-        cls.idle_processing_time = 0.0
-        cls.cycle_time = 0.0
-        cls.processing_time = 0.0
-        cls.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
-
-        return cls
+        event = cls(c_event.p_case, c_event.task_id, None)
+        event.type = BPMN.INTERMEDIATE_EVENT
+        event.enabled_at = c_event.enabled_at
+        event.enabled_datetime = c_event.enabled_datetime
+        event.started_at = c_event.enabled_at
+        event.started_datetime = c_event.enabled_datetime
+        event.completed_at = ended_at
+        event.completed_datetime = ended_datetime
+        event.idle_time = 0.0
+        event.waiting_time = 0.0
+        event.idle_cycle_time = 0.0
+        event.idle_processing_time = 0.0
+        event.cycle_time = 0.0
+        event.processing_time = 0.0
+        event.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
+
+        return event
 
     def update_enabling_times(self, enabled_at):
         # what's the use case ?
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index ed93499..c85553c 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -350,7 +350,7 @@ class SimBPMEnv:
 
         resource_name = (
             self.sim_setup.resources_map[full_event.resource_id].resource_name
-            if (hasattr(full_event, "resource_id"))
+            if full_event.resource_id is not None
             else "No assigned resource"
         )
 
diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index dc07a79..9e6d1fa 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -272,6 +272,8 @@ def compute_fuzzy_availability(bpm_env):
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
+            if ev.type != BPMN.TASK:
+                continue
             if ev.resource_id not in r_working_intervals:
                 r_working_intervals[ev.resource_id] = []
             for interval in ev.worked_intervals:
-- 
2.43.0


From 8e40462e58e5d1220080f820c7653d507491fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:53 +0000
Subject: [PATCH 38/80] fix: off-duty time following the first working period
 of a day was counted as processing time in the process KPIs

---
 prosimos/simulation_stats_calculator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 9e6d1fa..52e62a6 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -91,8 +91,8 @@ class LogInfo:
                     for interval in event_info.worked_intervals:
                         real_work_intervals.append(interval)
                 else:
-                    r_calendar.remove_idle_times(event_info.started_datetime, event_info.completed_datetime,
-                                                 real_work_intervals)
+                    add_working_intervals(r_calendar, event_info.started_datetime, event_info.completed_datetime,
+                                          real_work_intervals)
             processing_intervals.append(Interval(event_info.started_datetime, event_info.completed_datetime))
             waiting_intervals.append(Interval(event_info.enabled_datetime, event_info.started_datetime))
 
@@ -339,6 +339,17 @@ def print_event_state(state, e_step, bpm_env, resource_id, to_print):
                                                     to_print, bpm_env.simpy_env.now))
 
 
+def add_working_intervals(r_calendar, from_date, to_date, out_intervals):
+    c_day = from_date.replace(hour=0, minute=0, second=0, microsecond=0)
+    while c_day < to_date:
+        for interval in r_calendar.work_intervals[c_day.weekday()]:
+            start = max(from_date, c_day + (interval.start - r_calendar.new_day))
+            end = min(to_date, c_day + (interval.end - r_calendar.new_day))
+            if start < end:
+                out_intervals.append(Interval(start, end))
+        c_day += datetime.timedelta(days=1)
+
+
 def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
-- 
2.43.0


From b91fc872f1f13e0a8f2718a001eac35aac3cb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 39/80] fix: cases whose waiting or idle time is rounded below
 zero were left out of the KPIs

---
 prosimos/simulation_stats_calculator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 52e62a6..42db7f0 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -28,6 +28,8 @@ class KPIInfo:
         self.avg = self.total / self.count if self.count > 0 else 0
 
     def add_value(self, new_value):
+        if -0.001 < new_value < 0:
+            new_value = 0  # rounding error in the difference of two dates
         if new_value >= 0:
             self.min = min(self.min, new_value)
             self.max = max(self.max, new_value)
-- 
2.43.0


From d973c900eea880385cb37971118953387296c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 40/80] fix: log, statistics and warnings were not written with
 fixed arrival times

---
 prosimos/simulation_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index c85553c..08b2962 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -780,9 +780,9 @@ def run_simulation(
 def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting_times=None):
     bpm_env = SimBPMEnv(diffsim_info, stat_fwriter, log_fwriter)
     execute_full_process(bpm_env, fixed_starting_times)
-    if fixed_starting_times is not None:
-        return bpm_env
     if log_fwriter is None and stat_fwriter is None:
+        if fixed_starting_times is not None:
+            return bpm_env
         return bpm_env.log_info.compute_process_kpi(bpm_env), bpm_env.log_info
     if log_fwriter:
         bpm_env.log_writer.force_write()
@@ -791,7 +791,7 @@ def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting
 
     warning_logger.add_warnings(bpm_env.sim_setup.bpmn_graph.simulation_execution_stats.find_issues())
 
-    return None
+    return bpm_env if fixed_starting_times is not None else None
 
 
 def verify_miliseconds(array):
-- 
2.43.0


From 527cdbaea42835df2cbe7e2bfade077b58e5cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 41/80] fix: events were added to the log with
 --is_event_added_to_log False

---
 cli/diff_res_bpsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/diff_res_bpsim.py b/cli/diff_res_bpsim.py
index fe1e1f2..8e74922 100644
--- a/cli/diff_res_bpsim.py
+++ b/cli/diff_res_bpsim.py
@@ -30,7 +30,7 @@ def cli():
 @click.option('--starting_at', required=False,
               help='Date-time of the first process case in the simulation.'
                    'If this parameter is not provided, the current date-time is assigned.')
-@click.option('--is_event_added_to_log', required=False,
+@click.option('--is_event_added_to_log', required=False, type=click.BOOL, default=False,
               help='Boolean showing whether event should be added to the resulted simulation log.'
                    'If this parameter is not provided, False is considered as the parameter value.')
 @click.pass_context
-- 
2.43.0


From 77e408f5400d0dc6db0cdb8c131f8e5be2c878b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 42/80] fix: discovery failed on the command line, its numeric
 options were passed as strings or None

---
 cli/diff_res_bpsim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/diff_res_bpsim.py b/cli/diff_res_bpsim.py
index 8e74922..806da18 100644
--- a/cli/diff_res_bpsim.py
+++ b/cli/diff_res_bpsim.py
@@ -45,15 +45,15 @@ def start_simulation(ctx, bpmn_path, json_path, total_cases, stat_out_path=None,
               help='Path to the event log in XES format')
 @click.option('--out_json', required=True,
               help='Path to the JSON file to produce as output with the differentiated simulation parameters')
-@click.option('--granule_size', required=False,
+@click.option('--granule_size', required=False, type=click.INT, default=60,
               help='Length of the working intervals in the calendars in minutes, 60 minutes by default')
-@click.option('--conf', required=False,
+@click.option('--conf', required=False, type=click.FLOAT, default=0.1,
               help='Confidence ratio in [0, 1] to consider a timestamp in the event-log as outlier, 0.1 by default.'
                    'Timestamps under the confidence threshold are not included in the calendar.')
-@click.option('--supp', required=False,
+@click.option('--supp', required=False, type=click.FLOAT, default=0.7,
               help='Support ratio in [0, 1] describing the coverage of timestamps by the calendar, 0.7 by default.'
                    'The calendar will include a ratio of timestamps in the log over the support threshold.')
-@click.option('--part', required=False,
+@click.option('--part', required=False, type=click.FLOAT, default=0.3,
               help='Resource participation ratio in [0, 1] to mark a resource as external, 0.3 by default.'
                    'Resources with participation ratio under the threshold in the event-log are discarded.')
 @click.pass_context
-- 
2.43.0


From 677aed5c24d72e59ec5de8e60f9a40948b74f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 43/80] fix: simulation crashed when an activity of a
 terminated case was completed

---
 prosimos/control_flow_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 9b8525f..bd9bfed 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -328,7 +328,7 @@ class BPMNGraph:
                                           which equals to enabled time for current event
         """
         if not self.is_enabled(e_id, p_state):
-            return []
+            return [], {}
         enabled_tasks = list()
         to_execute = [e_id]
         current = 0
-- 
2.43.0


From 229a21f03106157baf4958367769f456761d3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 44/80] fix: activities were still enabled in cases terminated
 by the gateway execution limit

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index bd9bfed..78d483a 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -353,7 +353,8 @@ class BPMNGraph:
 
             if len(f_arcs) > 1:
                 if self.is_gateway_execution_limit_exceeded(case_id, e_info.id):
-                    break
+                    p_state.remove_all_tokens_on_terminate()
+                    return [], visited_at
 
                 if e_info.type is BPMN.EVENT_BASED_GATEWAY:
                     f_arcs = [self.get_event_gateway_choice(e_info, last_enabled.datetime)]
-- 
2.43.0


From 2d6968df0377f1d173046002ce4c0ed8168a10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 45/80] fix: inclusive joins in a loop waited for tokens which
 reach them only through a repetition

---
 prosimos/control_flow_manager.py | 38 +++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 78d483a..1a32936 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -148,7 +148,7 @@ class BPMNGraph:
         self.concurrent_enablers = dict()
         self.nodes_bitset = dict()
         self.arcs_bitset = dict()
-        self.or_join_pred = dict()  # or_id -> [0 = node predecesors bitset, 1 = predecesors flow arcs]
+        self.or_join_pred = dict()  # or_id -> incoming flow -> predecesors flow arcs bitset
         self.or_join_conflicting_pred = dict()
         self.decision_successors = dict()
         self.element_probability = None
@@ -205,21 +205,28 @@ class BPMNGraph:
         for e_id in self.element_info:
             element = self.element_info[e_id]
             if element.type is BPMN.INCLUSIVE_GATEWAY and element.is_join():
-                self.or_join_pred[e_id] = [0, 0]
                 self._find_or_conflicting_predecesors(e_id)
-                pred_queue = deque([e_id])
-                while len(pred_queue) > 0:
-                    element = self.element_info[pred_queue.popleft()]
-                    for flow_id in element.incoming_flows:
-                        prev_id = self.flow_arcs[flow_id][0]
-                        if self.or_join_pred[e_id][0] & self.nodes_bitset[prev_id] == 0:
-                            pred_queue.append(prev_id)
-                        self.or_join_pred[e_id][0] |= self.nodes_bitset[prev_id]
-                        if self.flow_arcs[flow_id][1] != e_id:
-                            self.or_join_pred[e_id][1] |= self.arcs_bitset[flow_id]
+                self.or_join_pred[e_id] = {
+                    flow_id: self._find_preceding_flows(e_id, flow_id) for flow_id in element.incoming_flows
+                }
             if element.type in [BPMN.EXCLUSIVE_GATEWAY, BPMN.INCLUSIVE_GATEWAY] and element.is_split():
                 self._find_decision_successors(element)
 
+    def _find_preceding_flows(self, or_join_id, in_flow):
+        """Bitset of the flows from which a token can reach the incoming flow without passing through the join"""
+        visited = set()
+        preceding_flows = 0
+        pred_queue = deque([self.flow_arcs[in_flow][0]])
+        while len(pred_queue) > 0:
+            e_id = pred_queue.popleft()
+            if e_id == or_join_id or e_id in visited:
+                continue
+            visited.add(e_id)
+            for flow_id in self.element_info[e_id].incoming_flows:
+                preceding_flows |= self.arcs_bitset[flow_id]
+                pred_queue.append(self.flow_arcs[flow_id][0])
+        return preceding_flows
+
     def _find_decision_successors(self, split_info):
         self.decision_successors[split_info.id] = set()
         visited = {split_info.id}
@@ -312,12 +319,17 @@ class BPMNGraph:
                 return False
             else:
                 count_tokens = 0
+                # tokens which can still reach an empty incoming flow, and those which can also reach a marked one
+                to_empty_flows, to_marked_flows = 0, 0
                 for flow_id in e_info.incoming_flows:
                     if p_state.tokens[flow_id] > 0:
                         count_tokens += 1
+                        to_marked_flows |= self.or_join_pred[e_id][flow_id]
+                    else:
+                        to_empty_flows |= self.or_join_pred[e_id][flow_id]
                 if count_tokens == len(e_info.incoming_flows):
                     return True
-                if count_tokens > 0 and self.or_join_pred[e_id][1] & p_state.state_mask == 0:
+                if count_tokens > 0 and to_empty_flows & ~to_marked_flows & p_state.state_mask == 0:
                     return True
                 return False
         return False
-- 
2.43.0


From 910886f323f4f6ae4dfed8ac99cf206bbc7728e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:29 +0000
Subject: [PATCH 46/80] fix: the event chosen at an event-based gateway took
 another duration than the one it was chosen for

---
 prosimos/simulation_engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 08b2962..fe92d25 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -611,9 +611,10 @@ class SimBPMEnv:
 
     def execute_event(self, c_event):
         # Handle event types separately (they don't need assigned resource)
-        event_duration_seconds = None
         event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
-        [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
+        event_duration_seconds = c_event.duration_sec  # already known after an event-based gateway
+        if event_duration_seconds is None:
+            [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
 
         completed_at = c_event.enabled_at + event_duration_seconds
         completed_datetime = c_event.enabled_datetime + timedelta(seconds=event_duration_seconds)
-- 
2.43.0


From fabe162a82281ca24eaa7cd1d39864cc79cb56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 47/80] fix: ties at event-based gateways were not reproducible
 from the random state

---
 prosimos/control_flow_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 1a32936..4b45faf 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1,6 +1,5 @@
 import copy
 import random
-import secrets
 import sys
 import uuid
 from collections import deque
@@ -553,7 +552,7 @@ class BPMNGraph:
 
         # return randomly selected outgoing flow
         # in case of same value for multiple flows
-        return secrets.choice(res)
+        return random.choice(res)
 
 
     def event_duration(self, event_id):
-- 
2.43.0


From ce398b3b71c7601aff413e29057954b9adb2520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 48/80] fix: peek returned an element which is not the one of
 lowest priority after the first one was removed or updated

---
 prosimos/simulation_queues_ds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_queues_ds.py b/prosimos/simulation_queues_ds.py
index 50aca39..d6acc79 100644
--- a/prosimos/simulation_queues_ds.py
+++ b/prosimos/simulation_queues_ds.py
@@ -49,10 +49,11 @@ class PriorityQueue:
 
     def peek(self):
         """Return the lowest priority task (without removing it from the queue)"""
-        for heap_item in self.pq:
-            priority, _, task = heap_item
+        while self.pq:
+            priority, _, task = self.pq[0]
             if task is not self.REMOVED:
                 return task, priority
+            heappop(self.pq)
 
         return None, None
 
-- 
2.43.0


From 080b4ec41d75af714c46bf62fab6d66e3a4af0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 49/80] fix: break ties among resources independently of string
 hashes

The tasks sharing a resource queue were collected in a set and the queue was
filled in the order of the resources of whichever task the set yielded first.
With PYTHONHASHSEED unset, the same scenario and random state produced
different simulations in different processes.
---
 prosimos/simulation_queues_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_queues_ds.py b/prosimos/simulation_queues_ds.py
index d6acc79..215681b 100644
--- a/prosimos/simulation_queues_ds.py
+++ b/prosimos/simulation_queues_ds.py
@@ -87,7 +87,7 @@ class DiffResourceQueue:
         # Grouping the tasks that share all the resources
         for task_id_1 in task_resource_map:
             if task_id_1 not in taken:
-                joint_tasks = set()
+                joint_tasks = list()  # ordered, ties among resources must not depend on string hashes
                 for task_id_2 in task_resource_map:
                     is_joint = True
                     if len(task_resource_map[task_id_2]) != len(task_resource_map[task_id_1]):
@@ -98,7 +98,7 @@ class DiffResourceQueue:
                             break
                     if is_joint:
                         taken.add(task_id_2)
-                        joint_tasks.add(task_id_2)
+                        joint_tasks.append(task_id_2)
                 joint_sets.append(joint_tasks)
 
         index = 0
-- 
2.43.0


From 76eb566cf815524bc82db5bf45071e2283170901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 50/80] fix: accept the granule size of fuzzy calendars in
 seconds

Seconds were converted to a fractional number of minutes, which crashed the
construction of the calendars (a list multiplied by a float).
---
 prosimos/simulation_properties_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index b24fae3..da931c9 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -193,7 +193,10 @@ def _parse_local_multitasking(json_data, task_res_distr):
 
 
 def parse_fuzzy_calendar(json_data):
-    granule_size = json_data["granule_size"]["value"] * granule_units[(json_data["granule_size"]["time_unit"]).upper()]
+    # calendars count their granules in whole minutes
+    granule_size = round(
+        json_data["granule_size"]["value"] * granule_units[(json_data["granule_size"]["time_unit"]).upper()]
+    )
     fuzzy_calendars = dict()
     resource_calendars = json_data["resource_calendars"]
     for r_info in resource_calendars:
-- 
2.43.0


From b49e5060f005f658af23b9aae5f73f24d19996ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 51/80] fix: fuzzy calendars work only in available granules

If the granule an activity starts in turned out not to be available,
find_idle_time dated the work from the start instant, inside that granule,
and reported too short a duration. The fraction of the second of an instant was
ignored as well, so that work spilled over the end of the granule.
---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 1269d0a..ec1eb8c 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -28,7 +28,7 @@ class WeeklyFuzzyCalendar:
     def duration_from_interval_start(self, current_date: datetime):
         current_minute = current_date.hour * 60 + current_date.minute
         start_minute = self.interval_index(current_date) * self.granule_size
-        return (current_minute - start_minute) * 60 + current_date.second
+        return (current_minute - start_minute) * 60 + current_date.second + current_date.microsecond / 1e6
 
     def duration_to_interval_end(self, current_date: datetime):
         return self.granule_size * 60 - self.duration_from_interval_start(current_date)
@@ -120,12 +120,15 @@ class FuzzyModel:
 
         avail_info, size_seconds, week_day, i = self._extract_date_info(current_date)
 
-        real_duration = min(avail_info.duration_to_interval_end(current_date), ideal_duration)
+        real_duration = avail_info.duration_to_interval_end(current_date)
         if self.is_available(week_day, i):
+            real_duration = min(real_duration, ideal_duration)
             to_date = it_date + timedelta(seconds=real_duration)
             worked_intervals.append(Interval(it_date, to_date))
             it_date = to_date
             ideal_duration -= real_duration
+        else:
+            it_date += timedelta(seconds=real_duration)
         i += 1
         while ideal_duration > 0:
             if i >= avail_info.i_count:
-- 
2.43.0


From 284d3eacb0494caa6707b472b60dcbf44bf504e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 52/80] fix: available time of resources with fuzzy calendars

Both the rest of the first granule and the beginning of the last one were
counted in full when they are the same granule, resources without any work got
no available time at all, and which of the two probability tables was used
depended on the last random draw.
---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 23 ++++++++++++-----------
 prosimos/simulation_stats_calculator.py |  4 +---
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index ec1eb8c..d4c6f78 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -154,17 +154,18 @@ class FuzzyModel:
                                        avail_info.duration_to_interval_end(current_date))
         return False, None
 
-    def estimate_available_time(self, from_date: datetime, to_date: datetime):
-        fuzzy_c, size_seconds, week_day, i = self._extract_date_info(from_date)
-        last_duration = fuzzy_c.duration_from_interval_start(to_date)
-        first_duration = fuzzy_c.duration_to_interval_end(from_date)
-
-        duration = fuzzy_c.probability_intervals[week_day][i] * first_duration
-        duration += fuzzy_c.probability_intervals[to_date.weekday()][fuzzy_c.interval_index(to_date)] * last_duration
+    def _expected_availability(self, current_date: datetime):
+        week_day, i = current_date.weekday(), self.availability_calendar.interval_index(current_date)
+        abs_prob = self.availability_calendar.probability_intervals[week_day][i]
+        rel_prob = self.workload_ratio.probability_intervals[week_day][i]
+        return 1 - (1 - abs_prob) * (1 - rel_prob)
 
-        to_date = to_date - timedelta(seconds=last_duration)
-        c_date = from_date + timedelta(seconds=first_duration)
+    def estimate_available_time(self, from_date: datetime, to_date: datetime):
+        duration = 0
+        c_date = from_date
         while c_date < to_date:
-            duration += fuzzy_c.probability_intervals[c_date.weekday()][fuzzy_c.interval_index(c_date)] * size_seconds
-            c_date += timedelta(seconds=size_seconds)
+            i_duration = min(self.availability_calendar.duration_to_interval_end(c_date),
+                             (to_date - c_date).total_seconds())
+            duration += self._expected_availability(c_date) * i_duration
+            c_date += timedelta(seconds=i_duration)
         return duration
diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 42db7f0..2371255 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -270,14 +270,12 @@ def compute_resorce_availability(bpm_env):
 
 def compute_fuzzy_availability(bpm_env):
     trace_list = bpm_env.log_info.trace_list
-    r_working_intervals = dict()
+    r_working_intervals = {r_id: [] for r_id in bpm_env.sim_resources}
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
             if ev.type != BPMN.TASK:
                 continue
-            if ev.resource_id not in r_working_intervals:
-                r_working_intervals[ev.resource_id] = []
             for interval in ev.worked_intervals:
                 r_working_intervals[ev.resource_id].append(interval)
 
-- 
2.43.0


From 0303ba3f4d8d7c60184fe42a74e2b432c18a7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 53/80] fix: simulate with the declared multitasking capacities

---
 prosimos/multitasking/multitasking_struct.py | 23 ++++++++++----------
 prosimos/simulation_engine.py                | 13 ++++++-----
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/prosimos/multitasking/multitasking_struct.py b/prosimos/multitasking/multitasking_struct.py
index 97e3e03..a579c1c 100644
--- a/prosimos/multitasking/multitasking_struct.py
+++ b/prosimos/multitasking/multitasking_struct.py
@@ -54,8 +54,9 @@ class MultiTaskDS:
                 self.active_datetimes[r_id] = completed_at
             else:
                 self.active_datetimes[r_id] = max(self.active_datetimes[r_id], completed_at)
-            self.executed_tasks[r_id][t_id] += 1
-            self.total_tasks[t_id] += 1
+            r_executed = self.executed_tasks.setdefault(r_id, dict())
+            r_executed[t_id] = r_executed.get(t_id, 0) + 1
+            self.total_tasks[t_id] = self.total_tasks.get(t_id, 0) + 1
 
     def release_tasks_from(self, r_id: str, completed_at: datetime):
         if r_id in self.allocated_tasks and self.active_datetimes[r_id] is not None:
@@ -65,17 +66,17 @@ class MultiTaskDS:
         return completed_at
 
     def can_get_new_tasks(self, r_id: str, at_datetime: datetime):
-        if r_id in self.allocated_tasks and self.allocated_tasks[r_id] > 0:
+        if r_id not in self.allocated_tasks:
+            # no multitasking declared for the resource
+            return False
+        if self.allocated_tasks[r_id] > 0:
             if self.mt_type is MultiType.GLOBAL:
-                if self.allocated_tasks[r_id] >= len(self.res_multitask_info[r_id]):
-                    return False
-                return random.random() <= self.res_multitask_info[r_id][self.allocated_tasks[r_id]]
+                probabilities = self.res_multitask_info[r_id]
             else:
-                wd = at_datetime.weekday()
-                gr = self.interval_index(at_datetime)
-                if self.allocated_tasks[r_id] >= len(self.res_multitask_info[r_id][wd][gr]):
-                    return False
-                return random.random() <= self.res_multitask_info[r_id][wd][gr][self.allocated_tasks[r_id]]
+                probabilities = self.res_multitask_info[r_id][at_datetime.weekday()][self.interval_index(at_datetime)]
+            # the n-th entry is the probability of performing (at least) n tasks in parallel
+            next_count = self.allocated_tasks[r_id] + 1
+            return next_count < len(probabilities) and random.random() < probabilities[next_count]
         return True
 
     def register_resource(self, r_id: str):
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index fe92d25..041f5ac 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -297,12 +297,12 @@ class SimBPMEnv:
         #
         # r_id, r_avail_at = best_r, best_avail
         # self.sim_resources[r_id].allocated_tasks += 1
-        if c_event.enabled_at > r_avail_at:
-            next_avail_at = c_event.enabled_at
-            avail_datetime = self._datetime_from(next_avail_at)
-            is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
-            if not is_working:
-                r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
+        self.sim_resources[r_id].allocated_tasks += 1
+        r_avail_at = max(c_event.enabled_at, r_avail_at)
+        avail_datetime = self._datetime_from(r_avail_at)
+        is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
+        if not is_working:
+            r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
 
         return r_id, r_avail_at
 
@@ -312,6 +312,7 @@ class SimBPMEnv:
         r_next_avail = r_init_avail
         if not self.sim_setup.multitask_info.can_get_new_tasks(r_id, completed_dt):
             last_time = self.sim_setup.multitask_info.release_tasks_from(r_id, completed_dt)
+            r_next_avail = (last_time - self.sim_setup.start_datetime).total_seconds()
             r_next_avail += self.sim_setup.next_resting_time(r_id, last_time)
 
         self.resource_queue.update_resource_availability(r_id, r_next_avail)
-- 
2.43.0


From 7e50f2a52fc8d969d29b1b2588b08698dc69b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 54/80] fix: worked and available time were swapped in the
 resource figures of runs without output files

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 2371255..91a737f 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -213,8 +213,8 @@ def compute_resource_utilization(bpm_env):
         # r_info = bpm_env.sim_setup.resources_map[r_id]
         resource_info[r_id] = ResourceKPI(bpm_env.sim_setup.resources_map[r_id],
                                           bpm_env.sim_resources[r_id].allocated_tasks,
-                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.sim_resources[r_id].available_time,
+                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.get_utilization_for(r_id))
 
     # for r_id in bpm_env.sim_setup.resources_map:
-- 
2.43.0


From b05ebb1fbbb4f66a7e0921de0332f2b56c363cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 55/80] fix: gateways without any condition were reported as
 using conditions

---
 prosimos/simulation_properties_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index da931c9..e0912c0 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -359,9 +359,7 @@ def parse_gateway_conditions(gateway_json, branch_rules):
         if len(prob_info) > 0:
             gateway_conditions[g_id] = GatewayConditionChoice(out_arc, gateway_rules)
 
-        if len(missing_conditions) > 0 and \
-                len(missing_conditions) != g_info["probabilities"] and \
-                1 < len(g_info["probabilities"]) != len(gateway_rules):
+        if len(missing_conditions) > 0 and len(gateway_rules) > 0:
             warning_logger.add_warning(f"Gateway {g_id} is using conditions, but some are missing. Flows without conditions: {', '.join(missing_conditions)}")
 
     return gateway_conditions
-- 
2.43.0


From 8b7c7a27a92de7a004e10c19102e6e1b4a567d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 56/80] fix: loading of statistics files: instants lost their
 zone and fractions, names equal to headings, lookup of a utilization

---
 prosimos/simulation_stats.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/prosimos/simulation_stats.py b/prosimos/simulation_stats.py
index 1bc99ca..9146123 100644
--- a/prosimos/simulation_stats.py
+++ b/prosimos/simulation_stats.py
@@ -138,7 +138,7 @@ class SimulationResult:
         return (self.ended_at - self.started_at).total_seconds()
 
     def resource_utilization_for(self, pool_name):
-        return self.resource_utilization[pool_name] if pool_name in self.resource_utilization[pool_name] else 0
+        return self.resource_utilization[pool_name] if pool_name in self.resource_utilization else 0
 
 
 def load_bimp_simulation_results(results_file_path, simulation_log):
@@ -186,27 +186,27 @@ def load_bimp_simulation_results(results_file_path, simulation_log):
 def load_diff_simulation_results(csv_stats_path):
     sim_info = None
     started_at = None
-    with open(csv_stats_path, mode='r') as csv_file:
+    with open(csv_stats_path, mode='r', newline="", encoding="utf-8") as csv_file:
         csv_reader = csv.reader(csv_file, delimiter=',')
         output_section = 0
         kpi_index = 0
         kpi_array = None
         for row in csv_reader:
             if len(row) > 1:
-                if row[0] == "started_at":
-                    started_at = parse_date(row[1])
+                if row[0] == "started_at" and len(row) == 2:
+                    started_at = datetime.datetime.fromisoformat(row[1])
                     continue
-                if row[0] == "completed_at":
-                    sim_info = SimulationResult(started_at, parse_date(row[1]))
+                if row[0] == "completed_at" and len(row) == 2:
+                    sim_info = SimulationResult(started_at, datetime.datetime.fromisoformat(row[1]))
                     kpi_array = sim_info.get_kpi_ref_list()
                     continue
-                if row[0] == "Resource ID":
+                if row[:2] == ["Resource ID", "Resource name"]:
                     output_section = 1
                     continue
-                elif row[0] == "Name":
+                elif row[:2] == ["Name", "Count"]:
                     output_section = 2
                     continue
-                elif row[0] == "KPI":
+                elif row[:2] == ["KPI", "Min"]:
                     output_section = 3
                     continue
                 if output_section == 1:
-- 
2.43.0


From da373d917b12bad05bc981ee78532425d525301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 57/80] fix: several true conditions on flows of probability
 zero crashed the simulation

---
 prosimos/outgoing_flow_selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/outgoing_flow_selector.py b/prosimos/outgoing_flow_selector.py
index 21f9f89..d89c786 100644
--- a/prosimos/outgoing_flow_selector.py
+++ b/prosimos/outgoing_flow_selector.py
@@ -110,6 +110,9 @@ class OutgoingFlowSelector:
     @staticmethod
     def _scale_to_one(values):
         total = sum(values)
+        if total == 0:
+            # nothing tells the flows apart
+            return [1 / len(values)] * len(values)
         return [value / total for value in values]
 
     @staticmethod
-- 
2.43.0


From b11efefcdcc81825ab7434ae4f518e5cef8d7629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 58/80] fix: discovery lost choices without activity of
 parallel branches at the same distance

---
 prosimos/control_flow_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 4b45faf..40dfd97 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -731,8 +731,8 @@ class BPMNGraph:
                         if d < c_min or (BPMNGraph._has_start_event(closer_pred) and d != sys.maxsize):
                             c_min, closer_pred, or_f, temp_path = d, e_p, o_f, t_path
 
-                for e_id in closer_pred:
-                    enabled_pred[e_id] = closer_pred[e_id]
+                for pred_dist in closer_pred:
+                    enabled_pred.setdefault(pred_dist, list()).extend(closer_pred[pred_dist])
                 for e_id in temp_path:
                     path_split[e_id] = temp_path[e_id]
                 for e_id in or_f:
-- 
2.43.0


From b3476be9c5c79b1f6bdbc7e401d3ef8af7f9b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 59/80] fix: discovery replay took the start event for the
 origin of repeated parts of a loop

---
 prosimos/control_flow_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 40dfd97..c355eea 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -728,7 +728,9 @@ class BPMNGraph:
                         d, e_p, o_f, t_path = self.closer_enabled_predecessors(pr_info, in_flow, dict(), dict(), dict(),
                                                                                visited, p_state, dist + 1, min_dist)
 
-                        if d < c_min or (BPMNGraph._has_start_event(closer_pred) and d != sys.maxsize):
+                        # the start event counts as enabled always, i.e., it is an option only if there is no other
+                        if (d < c_min and not (closer_pred and BPMNGraph._has_start_event(e_p))) or (
+                                BPMNGraph._has_start_event(closer_pred) and d != sys.maxsize):
                             c_min, closer_pred, or_f, temp_path = d, e_p, o_f, t_path
 
                 for pred_dist in closer_pred:
-- 
2.43.0


From ff8470426e34c7dbed75ff094b2806784cc07053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 60/80] fix: discovery replay searched paths through parallel
 joins of uncompleted branches

---
 prosimos/control_flow_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index c355eea..92f0e26 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -719,6 +719,11 @@ class BPMNGraph:
             path_split[e_info.id] = flow_id
         visited.add(e_info.id)
         if e_info.is_gateway():
+            if e_info.type is BPMN.PARALLEL_GATEWAY and any(
+                    not p_state.has_token(in_flow) and not self._get_predecessor(in_flow).is_gateway()
+                    for in_flow in e_info.incoming_flows):
+                # some branch was not completed, i.e., no path through this gateway is possible
+                return sys.maxsize, enabled_pred, or_firing, path_split
             if e_info.type is BPMN.EXCLUSIVE_GATEWAY and e_info.is_join():
                 closer_pred, temp_path, or_f = dict(), dict(), dict()
                 c_min = sys.maxsize
-- 
2.43.0


From a6f2999c3a7cb6fa96f148136c14902156e30b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 61/80] fix: the discovered arrival calendar could not be read
 by the simulator

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 17eaf91..164feac 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -469,7 +469,7 @@ def preprocess_xes_log(
     # # (2) Discovering Arrival Time Calendar
     arrival_calendar = discover_arrival_calendar(initial_events, 60, 0.1, 1.0)
     # arrival_calendar = discover_arrival_calendar(initial_events, minutes_x_granule, min_confidence, min_support)
-    json_arrival_calendar = arrival_calendar.to_dict()
+    json_arrival_calendar = arrival_calendar.intervals_to_json()
 
     # # (3) Discovering Arrival Time Distribution
     arrival_time_dist = discover_arrival_time_distribution(initial_events, arrival_calendar, use_observed_arrival_times)
-- 
2.43.0


From 59495c7fd23c26a55fc047520bcf5454ad072b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 62/80] fix: discovered calendars lost or distorted the
 granules at full hours

---
 bpdfr_discovery/log_parser.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 164feac..d90556b 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -8,7 +8,7 @@ import numpy as np
 import pandas as pd
 import pytz
 from pix_framework.discovery.resource_calendar_and_performance.crisp.factory import CalendarFactory
-from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar
+from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar, int_week_days
 from pix_framework.statistics.distribution import DurationDistribution, get_best_fitting_distribution
 
 from bpdfr_discovery.exceptions import InvalidInputDiscoveryParameters
@@ -21,6 +21,19 @@ from prosimos.simulation_properties_parser import parse_simulation_model
 print_info = False
 
 
+class WeeklyCalendarFactory(CalendarFactory):
+    def _add_calendar_item(self, week_day: int, g_index: int, r_calendar: RCalendar):
+        # times are zero-padded: otherwise, e.g., 12:0:0 is read as an instant of another day than 11:30:0
+        start = g_index * self.minutes_x_granule
+        end = start + self.minutes_x_granule
+        r_calendar.add_calendar_item(
+            int_week_days[week_day],
+            int_week_days[week_day],
+            "%02d:%02d:00" % (start // 60, start % 60),
+            "%02d:%02d:00" % (end // 60, end % 60) if end < 1440 else "23:59:59.999",
+        )
+
+
 def event_list_from_xes_log(log_path):
     from pm4py.objects.log.importer.xes import importer as xes_importer
 
@@ -328,7 +341,7 @@ def preprocess_xes_log(
         log_path, bpmn_path, minutes_x_granule, min_confidence, min_support, min_participation, is_csv
     )
 
-    calendar_factory = CalendarFactory(minutes_x_granule)
+    calendar_factory = WeeklyCalendarFactory(minutes_x_granule)
     completed_events = list()
     total_traces = 0
 
@@ -888,7 +901,7 @@ def build_default_calendar(r_name):
 
 def discover_arrival_calendar(initial_events, minutes_x_granule, min_confidence, min_support):
     # print("Discovering Arrival Calendar ...")
-    arrival_calendar_factory = CalendarFactory(minutes_x_granule)
+    arrival_calendar_factory = WeeklyCalendarFactory(minutes_x_granule)
     for case_id in initial_events:
         arrival_calendar_factory.check_date_time("arrival", "arrival", initial_events[case_id])
     arrival_calendar = arrival_calendar_factory.build_weekly_calendars(min_confidence, min_support, 0.9)
-- 
2.43.0


From bd3044f66c5e18f94ad01b9c165479c681eddaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 63/80] fix: histograms of equally spaced arrivals crashed the
 discovery

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index d90556b..924ddc7 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -971,7 +971,7 @@ def _reject_outliers(data, m=5.0):
     data = np.asarray(data)
     d = np.abs(data - np.median(data))
     mdev = np.median(d)
-    s = d / mdev if mdev else 0.0
+    s = d / mdev if mdev else np.zeros(len(d))
     return data[s < m]
 
 
-- 
2.43.0


From 6b1c802e87a86fc5fb1cfcb9569ba537177f6627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 64/80] fix: discovery dropped events from the joint resources,
 i.e., calendars did not reach the required support

---
 bpdfr_discovery/log_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 924ddc7..cb3dde6 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -881,9 +881,8 @@ def _max_disjoint_intervals(interval_list):
                 current_last = interval_list[i].completed_at
             else:
                 discarded_list.append(interval_list[i])
-        if len(max_set) > 1:
-            disjoint_intervals.append(max_set)
-        if len(max_set) == 1 or len(discarded_list) == 0:
+        disjoint_intervals.append(max_set)
+        if len(discarded_list) == 0:
             break
         interval_list = discarded_list
     return disjoint_intervals
-- 
2.43.0


From 919904a22346e7d1a6ad34c977228a305ba73613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 65/80] fix: discovery crashed on tasks left without any
 resource

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index cb3dde6..8e3d9bd 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -843,7 +843,7 @@ def discover_resource_calendars(calendar_factory, task_resource_events, min_conf
             elif r_name in joint_event_candidates:
                 discarded_joint[task_name].append([r_name, joint_resource_freq[r_name]])
 
-        if calendar_factory.task_coverage(task_name) < min_support:
+        if calendar_factory.task_coverage(task_name) < min_support or not task_resources[task_name]:
             discarded_joint[task_name].sort(key=lambda x: x[1], reverse=True)
             for d_info in discarded_joint[task_name]:
                 resource_calendars[d_info[0]] = calendar_factory.build_unrestricted_resource_calendar(
-- 
2.43.0


From dc17816abf7e07a9e4a6901c39a1525ff589a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 66/80] fix: cases without any event of the model counted as
 arrivals in the year 9999 in the discovery

---
 bpdfr_discovery/log_parser.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 8e3d9bd..b72ec17 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -1,12 +1,10 @@
 import csv
 import json
 import sys
-from datetime import datetime
 from pathlib import Path
 
 import numpy as np
 import pandas as pd
-import pytz
 from pix_framework.discovery.resource_calendar_and_performance.crisp.factory import CalendarFactory
 from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar, int_week_days
 from pix_framework.statistics.distribution import DurationDistribution, get_best_fitting_distribution
@@ -365,7 +363,6 @@ def preprocess_xes_log(
         total_traces += 1
         started_events = dict()
         trace_info = Trace(caseid)
-        initial_events[caseid] = datetime(9999, 12, 31, tzinfo=pytz.UTC)
         for event in trace:
             total_events += 1
             if is_trace_event_start_or_end(event, bpmn_graph):
@@ -385,7 +382,7 @@ def preprocess_xes_log(
                 min_date = timestamp
             min_date = min(min_date, timestamp)
 
-            initial_events[caseid] = min(initial_events[caseid], timestamp)
+            initial_events[caseid] = min(initial_events.get(caseid, timestamp), timestamp)
 
             if resource not in resource_freq:
                 resource_cases[resource] = set()
-- 
2.43.0


From 65a78d3269c25c9ab0b2e875245754f5b6d18306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 67/80] fix: discovery from CSV logs not sorted by time paired
 the wrong starts and ends

---
 bpdfr_discovery/log_parser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index b72ec17..77416c6 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -292,7 +292,18 @@ def parse_csv(log_path):
             log_traces = list()
             trace_map = dict()
 
-            for row in csv_reader:
+            rows = [
+                (
+                    row,
+                    pd.to_datetime(row[i_map["start"]], utc=True),
+                    pd.to_datetime(row[i_map["end"]], utc=True),
+                )
+                for row in csv_reader
+            ]
+            # executions of the same activity may touch, i.e., the end of one must not be taken for the end of the next
+            rows.sort(key=lambda x: x[1:])
+
+            for row, started_at, completed_at in rows:
                 case_id = row[i_map["case"]]
                 if case_id not in trace_map:
                     trace_map[case_id] = len(log_traces)
@@ -301,13 +312,13 @@ def parse_csv(log_path):
                     row[i_map["activity"]],
                     "start",
                     row[i_map["resource"]],
-                    pd.to_datetime(row[i_map["start"]], utc=True),
+                    started_at,
                 )
                 log_traces[trace_map[case_id]].add_event(
                     row[i_map["activity"]],
                     "complete",
                     row[i_map["resource"]],
-                    pd.to_datetime(row[i_map["end"]], utc=True),
+                    completed_at,
                 )
 
             for trace in log_traces:
-- 
2.43.0


From 6d017f83189c62d6745b350779631b219860e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 68/80] fix: events without start or end crashed the discovery
 from CSV logs

---
 bpdfr_discovery/log_parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 77416c6..997831e 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -301,9 +301,12 @@ def parse_csv(log_path):
                 for row in csv_reader
             ]
             # executions of the same activity may touch, i.e., the end of one must not be taken for the end of the next
-            rows.sort(key=lambda x: x[1:])
+            rows.sort(key=lambda x: (pd.isnull(x[1]) or pd.isnull(x[2]), x[1], x[2]))
 
             for row, started_at, completed_at in rows:
+                if pd.isnull(started_at) or pd.isnull(completed_at):
+                    # incomplete events are kept without timestamps, i.e., to be counted as removed
+                    started_at = completed_at = pd.NaT
                 case_id = row[i_map["case"]]
                 if case_id not in trace_map:
                     trace_map[case_id] = len(log_traces)
@@ -322,7 +325,10 @@ def parse_csv(log_path):
                 )
 
             for trace in log_traces:
-                trace.events.sort(key=lambda x: x["time:timestamp"])
+                # incomplete events are the last ones already
+                known = [x for x in trace.events if not pd.isnull(x["time:timestamp"])]
+                known.sort(key=lambda x: x["time:timestamp"])
+                trace.events[: len(known)] = known
             return log_traces
     except IOError as e:
         print(str(e))
@@ -384,6 +390,10 @@ def preprocess_xes_log(
                 # event in the log does not match any task in the BPMN model
                 removed_events += 1
                 continue
+            if pd.isnull(event["time:timestamp"]):
+                # incomplete event
+                removed_events += 1
+                continue
 
             resource = validate_and_get_resource(event, bpmn_graph)
 
-- 
2.43.0


From 97bd81572245869f528244ae9eec140d4ad9d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 69/80] fix: a granule of zero minutes crashed the discovery
 instead of being refused

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 997831e..a102912 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -185,7 +185,7 @@ def compute_kpi_times_from_csv_log(log_path, bpmn_graph):
 
 
 def parse_and_validate_input(log_path, bpmn_path, minutes_x_granule, conf, supp, part, is_csv=False):
-    if minutes_x_granule < 0 or 1440 % minutes_x_granule != 0:
+    if minutes_x_granule <= 0 or 1440 % minutes_x_granule != 0:
         raise InvalidInputDiscoveryParameters(
             "Invalid granule_size. The time interval must be a divisor of 1400, e.g., 15, 30, 60 minutes"
         )
-- 
2.43.0


From 1aa19bc934916587c524425e80b3bb63f26e8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 70/80] fix: discovered models with intermediate events could
 not be simulated

---
 bpdfr_discovery/log_parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index a102912..644e5b7 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -529,6 +529,7 @@ def preprocess_xes_log(
         # "task_resource_distribution": map_task_id_from_names(task_resource_dist, bpmn_graph.from_name),
         "task_resource_distribution": processing_times_json(task_resource_dist, task_resources, bpmn_graph),
         "resource_calendars": res_json_calendar,
+        "event_distribution": event_distribution_json(task_events, bpmn_graph),
     }
     # save_prosimos_json(to_save, out_f_path)
     save_json(out_f_path, to_save)
@@ -580,6 +581,19 @@ def processing_times_json(res_task_distr, task_resources, bpmn_graph):
     return distributions
 
 
+def event_distribution_json(task_events, bpmn_graph: BPMNGraph):
+    """Durations of the intermediate events, i.e., regardless of any resource"""
+    distributions = []
+
+    for name in task_events:
+        event_id = bpmn_graph.from_name[name]
+        if bpmn_graph.element_info[event_id].type == BPMN.INTERMEDIATE_EVENT and task_events[name]:
+            distribution: DurationDistribution = discover_aggregated_task_distributions(task_events[name], False, None)
+            distributions.append({"event_id": event_id, **distribution.to_prosimos_distribution()})
+
+    return distributions
+
+
 def validate_and_get_resource(event, bpmn_graph: BPMNGraph):
     """
     Validate that task from the log file exists in the BPMN diagram
-- 
2.43.0


From c889b4745213c09bc4fd985b7b4e2d89108aca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 71/80] fix: tasks or resources without completed events
 crashed the discovery

---
 bpdfr_discovery/log_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 644e5b7..38bcdb1 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -470,6 +470,12 @@ def preprocess_xes_log(
             "- task_name, resource, start_datetime or end_datetime"
         )
 
+    # tasks and resources without completed events have no duration, nor working hours, to discover
+    for task_name in list(task_resource_events):
+        task_resource_events[task_name] = {r: evts for r, evts in task_resource_events[task_name].items() if evts}
+        if not task_resource_events[task_name]:
+            del task_resource_events[task_name]
+
     resource_freq_ratio = dict()
     for r_name in resource_freq:
         resource_freq_ratio[r_name] = resource_freq[r_name] / max_resource_freq
-- 
2.43.0


From 7b24b313963328cc9601a4d3da3372fb0e9fcadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 72/80] fix: intermediate events with several incoming flows
 wait for one token only, as tasks do

---
 prosimos/simulation_properties_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index e0912c0..8f30f47 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -459,7 +459,7 @@ def parse_simulation_model(bpmn_path):
         split_gateways = dict()
         for t_id in elements_map:
             e_info = elements_map[t_id]["info"]
-            if e_info.type is BPMN.TASK:
+            if e_info.type in [BPMN.TASK, BPMN.INTERMEDIATE_EVENT]:
                 if elements_map[t_id]["in"] > 1:
                     _add_fake_gateway(
                         bpmn_graph,
-- 
2.43.0


From 2b495e6674f085d1c00e7eb9ad030f28c4a74c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 73/80] fix: KPI times of a CSV log are computed in completion
 order, a join is enabled by its last branch

---
 bpdfr_discovery/log_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 38bcdb1..8606299 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -157,7 +157,9 @@ def compute_kpi_times_from_csv_log(log_path, bpmn_graph):
     cumul_task_stats = dict()
 
     for trace_info in trace_list:
-        task_sequence = sort_by_completion_times(trace_info)
+        # a join is enabled by the completion of its last branch
+        trace_info.sort_by_completion_date(True)
+        task_sequence = [ev_info.task_id for ev_info in trace_info.event_list]
         is_correct, fired_tasks, pending_tokens, enabling_times = bpmn_graph.reply_trace(
             task_sequence, flow_arcs_frequency, True, trace_info.event_list
         )
-- 
2.43.0


From ed294bd71eba25aed3207af30984f58386ecc970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 74/80] fix: statistics of a CSV log are computed in completion
 order, a join is enabled by its last branch

---
 prosimos/fuzzy_engine/event_log_analyser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/fuzzy_engine/event_log_analyser.py b/prosimos/fuzzy_engine/event_log_analyser.py
index 5c73442..8e14b1a 100644
--- a/prosimos/fuzzy_engine/event_log_analyser.py
+++ b/prosimos/fuzzy_engine/event_log_analyser.py
@@ -33,6 +33,8 @@ def compute_log_statistics(csv_log_path, bpmn_path):
     max_t = 0
     total_events = 0
     for trace in traces:
+        # a join is enabled by the completion of its last branch
+        trace.sort_by_completion_date(True)
         compute_enabling_processing_times(trace, bpmn_graph, max_waiting, max_processing)
         for ev in trace.event_list:
             total_events += 1
-- 
2.43.0


From 03e8b0393d9c8d15b76d847ebec3bd6eacee3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 75/80] fix: replay takes no silent path through a parallel
 join when activities of a nested block are missing

---
 prosimos/control_flow_manager.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 92f0e26..c08656d 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -698,6 +698,20 @@ class BPMNGraph:
             p_state.remove_token(task_info.incoming_flows[0])
             fired_tasks[task_index] = True
 
+    def _can_get_token(self, flow_id, p_state, known):
+        """Check whether firing gateways only is enough to have a token in the given flow"""
+        if p_state.has_token(flow_id):
+            return True
+        e_info = self._get_predecessor(flow_id)
+        if not e_info.is_gateway():
+            return False
+        if e_info.id not in known:
+            known[e_info.id] = False  # a loop cannot bring a token to itself
+            all_or_any = all if e_info.type is BPMN.PARALLEL_GATEWAY else any
+            known[e_info.id] = all_or_any(
+                self._can_get_token(in_flow, p_state, known) for in_flow in e_info.incoming_flows)
+        return known[e_info.id]
+
     def closer_enabled_predecessors(self, e_info, flow_id, enabled_pred, or_firing, path_split, visited, p_state, dist,
                                     min_dist):
         # Verificar que hacer cuando el camino más corto termina en el Start event,
@@ -719,9 +733,8 @@ class BPMNGraph:
             path_split[e_info.id] = flow_id
         visited.add(e_info.id)
         if e_info.is_gateway():
-            if e_info.type is BPMN.PARALLEL_GATEWAY and any(
-                    not p_state.has_token(in_flow) and not self._get_predecessor(in_flow).is_gateway()
-                    for in_flow in e_info.incoming_flows):
+            if e_info.type is BPMN.PARALLEL_GATEWAY and not all(
+                    self._can_get_token(in_flow, p_state, dict()) for in_flow in e_info.incoming_flows):
                 # some branch was not completed, i.e., no path through this gateway is possible
                 return sys.maxsize, enabled_pred, or_firing, path_split
             if e_info.type is BPMN.EXCLUSIVE_GATEWAY and e_info.is_join():
-- 
2.43.0


From a6b7149ecdf09861ae581137f850b793e0921e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 76/80] fix: available time of fuzzy resources after the last
 of their overlapping work intervals

---
 prosimos/simulation_stats_calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 91a737f..b5e46b3 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -301,7 +301,6 @@ def compute_fuzzy_availability(bpm_env):
 
         available_time = f_calendar.estimate_available_time(started_at, r_working_intervals[r_id][0].start)
         available_time += r_working_intervals[r_id][0].duration
-        available_time += f_calendar.estimate_available_time(r_working_intervals[r_id][i_len - 1].end, completed_at)
 
         last_date = r_working_intervals[r_id][0].end
         for i in range(1, i_len):
@@ -318,6 +317,8 @@ def compute_fuzzy_availability(bpm_env):
                 worked_time += c_interval.duration
                 available_time += c_interval.duration
             last_date = c_interval.end
+        # the interval started last is not necessarily the last one to end
+        available_time += f_calendar.estimate_available_time(last_date, completed_at)
         cumulative_worked_time[r_id] = worked_time
         cumulative_available_time[r_id] = available_time
         bpm_env.sim_resources[r_id].available_time = available_time
-- 
2.43.0


From 0c171d2e5ffd3e388c9e112d58c0670c7f7351e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 77/80] fix: first activity of a case redraws the global case
 attributes also when it is executed in a batch

---
 prosimos/simulation_engine.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 041f5ac..ef91055 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -56,6 +56,7 @@ class SimBPMEnv:
         self.resource_queue = DiffResourceQueue(self.sim_setup.task_resource, r_first_available)
         self.events_queue = EventQueue()
         self.all_process_states = dict()  # store all process states with a case_id as a key
+        self.executed_cases = set()
 
         self.case_prioritisation = CasePrioritisation(
             self.sim_setup.total_num_cases,
@@ -318,6 +319,16 @@ class SimBPMEnv:
         self.resource_queue.update_resource_availability(r_id, r_next_avail)
         self.sim_resources[r_id].worked_time += full_evt.ideal_duration
 
+    def redraw_global_case_attributes(self, p_case):
+        """The first activity of a case redraws the case attributes which are global"""
+        if p_case in self.executed_cases:
+            return
+
+        self.executed_cases.add(p_case)
+        global_case_attributes = self.sim_setup.all_attributes.global_case_attributes.attributes
+        new_attributes = {attr.name: attr.get_next_value() for attr in global_case_attributes}
+        self.sim_setup.bpmn_graph.all_attributes["global"].update(new_attributes)
+
     def update_attributes(self, current_event):
         event_attributes = self.sim_setup.all_attributes.event_attributes.attributes
         global_event_attributes = self.sim_setup.all_attributes.global_event_attributes.attributes
@@ -594,6 +605,8 @@ class SimBPMEnv:
 
         self._update_resource_availability(full_evt, r_id)
 
+        # the case of the event which triggered the batch is not necessarily one of the batch
+        self.redraw_global_case_attributes(full_evt.p_case)
         self.update_attributes(full_evt)
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
 
@@ -676,7 +689,6 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
     # print("Generation of all cases: %s" %
     #       str(datetime.timedelta(seconds=(datetime.datetime.now() - s_t).total_seconds())))
     current_event = bpm_env.events_queue.pop_next_event()
-    executed_cases = set()
     last_event_datetime = None
     if current_event is not None:
         last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
@@ -690,11 +702,8 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
         current_event = bpm_env.events_queue.pop_next_event()
 
     while current_event is not None:
-        if current_event.p_case not in executed_cases:
-            executed_cases.add(current_event.p_case)
-            global_case_attributes = bpm_env.sim_setup.all_attributes.global_case_attributes.attributes
-            new_attributes = {attr.name: attr.get_next_value() for attr in global_case_attributes}
-            bpm_env.sim_setup.bpmn_graph.all_attributes["global"].update(new_attributes)
+        if current_event.batch_info_exec is None:
+            bpm_env.redraw_global_case_attributes(current_event.p_case)
 
         bpm_env.execute_enabled_event(current_event)
 
-- 
2.43.0


From 8bb9e0a795f5c86268827238217543b2632c83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 78/80] fix: flows without a condition of an inclusive gateway
 are chosen by their probabilities when others have conditions

---
 prosimos/outgoing_flow_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/outgoing_flow_selector.py b/prosimos/outgoing_flow_selector.py
index d89c786..088d60b 100644
--- a/prosimos/outgoing_flow_selector.py
+++ b/prosimos/outgoing_flow_selector.py
@@ -98,7 +98,7 @@ class OutgoingFlowSelector:
         missing_conditions_flows = [flow for flow in candidates_list if flow not in evaluated_arcs_ids]
         if missing_conditions_flows:
             probabilities = element_probability[e_info.id].get_multiple_flows()
-            result_flows.extend([(flow, None) for flow in probabilities if flow in missing_conditions_flows])
+            result_flows.extend([flow for flow in probabilities if flow[0] in missing_conditions_flows])
 
         return result_flows
         
-- 
2.43.0


From 4ce1ca4a688987fa421a14c17146f2d6341c6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 79/80] fix: expon(mean) without a minimum in an attribute
 expression yields a sample, not 0

---
 prosimos/event_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 57b7d86..09b8284 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -50,7 +50,7 @@ def triang(c, minimum, maximum):
     return DurationDistribution(name="triang", mean=c, minimum=minimum, maximum=maximum).generate_sample(1)[0]
 
 
-def expon(mean, minimum=None, maximum=None):
+def expon(mean, minimum=0, maximum=None):
     return DurationDistribution(name="expon", mean=mean, minimum=minimum, maximum=maximum).generate_sample(1)[0]
 
 
-- 
2.43.0


From 231e84f36ed039d49fc839a0b8811cd59a2c3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:18 +0000
Subject: [PATCH 80/80] fix: triang in an attribute expression draws from the
 triangular distribution instead of always yielding its mode

---
 prosimos/event_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 09b8284..65b2e63 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -47,7 +47,8 @@ def norm(mean, std, minimum=None, maximum=None):
 
 
 def triang(c, minimum, maximum):
-    return DurationDistribution(name="triang", mean=c, minimum=minimum, maximum=maximum).generate_sample(1)[0]
+    # not supported by DurationDistribution
+    return np.random.triangular(minimum, c, maximum)
 
 
 def expon(mean, minimum=0, maximum=None):
-- 
2.43.0

