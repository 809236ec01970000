From 9ddf280977fdec7e4287a8a9828f650e8c9f480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 01/57] fix: simulating a single one-step case raised
 UnboundLocalError

---
 prosimos/simulation_engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 9b1a905..41d7da4 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -646,6 +646,8 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
     #       str(datetime.timedelta(seconds=(datetime.datetime.now() - s_t).total_seconds())))
     current_event = bpm_env.events_queue.pop_next_event()
     executed_cases = set()
+    if current_event is not None:
+        last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
 
     while current_event is not None:
         if current_event.p_case not in executed_cases:
-- 
2.43.0


From 3b67188a48cf13263e39bd4ce5f80359f8ce5f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 02/57] fix: activities of a case still waiting when its
 terminate end event is reached are cancelled

---
 prosimos/control_flow_manager.py | 10 +++++++++-
 prosimos/simulation_engine.py    |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index ea509f9..9cfe8fa 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -326,7 +326,7 @@ class BPMNGraph:
                                           which equals to enabled time for current event
         """
         if not self.is_enabled(e_id, p_state):
-            return []
+            return [], {}
         enabled_tasks = list()
         to_execute = [e_id]
         current = 0
@@ -337,6 +337,7 @@ class BPMNGraph:
             if e_info.type == BPMN.END_EVENT and e_info.event_type == EVENT_TYPE.TERMINATE:
                 """ Terminate End Event detected"""
                 p_state.remove_all_tokens_on_terminate()
+                self._remove_case_from_waiting_batches(case_id)
             else:
                 for in_flow in e_info.incoming_flows:
                     if p_state.tokens[in_flow] > 0:
@@ -970,6 +971,13 @@ class BPMNGraph:
                 self.batch_count[next_e] = self.batch_count[next_e] - batch_size
 
 
+    def _remove_case_from_waiting_batches(self, case_id):
+        """ A terminated case does not wait for any batch execution anymore """
+        for task_id, waiting_processes in self.batch_waiting_processes.items():
+            if case_id in waiting_processes:
+                del waiting_processes[case_id]
+                self.batch_count[task_id] -= 1
+
     def increase_task_count(self, task_id, case_id, enabled_time):
         """ Keep track of the batched tasks in the queue """
 
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 41d7da4..02e40b9 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -145,6 +145,10 @@ class SimBPMEnv:
         return enabled_datetime
 
     def execute_enabled_event(self, c_event: EnabledEvent):
+        if c_event.batch_info_exec is None and not self.sim_setup.is_enabled(c_event.task_id, c_event.p_state):
+            # the case was terminated while this task or event was waiting in the queue
+            return
+
         self.executed_events += 1
 
         event_element_info = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
-- 
2.43.0


From 64858940177c003b5cd1a8d96fd56bcba55cb7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 03/57] fix: the event winning an event-based gateway occurs
 after the duration it won with

---
 prosimos/simulation_engine.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 02e40b9..7fd3aad 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -586,9 +586,11 @@ class SimBPMEnv:
 
     def execute_event(self, c_event):
         # Handle event types separately (they don't need assigned resource)
-        event_duration_seconds = None
-        event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
-        [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
+        # The duration is already known for the event chosen by an event-based gateway
+        event_duration_seconds = c_event.duration_sec
+        if event_duration_seconds is None:
+            event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
+            [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
 
         completed_at = c_event.enabled_at + event_duration_seconds
         completed_datetime = c_event.enabled_datetime + timedelta(seconds=event_duration_seconds)
-- 
2.43.0


From ee46c87dfa56b9cf233207c2beddc847884aea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 04/57] fix: an inclusive join fired before the other branches
 of its split were started

---
 prosimos/control_flow_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 9cfe8fa..dcd613e 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -357,6 +357,9 @@ class BPMNGraph:
                     f_arcs = OutgoingFlowSelector.choose_outgoing_flow(e_info, self.element_probability,
                                                                        all_curr_attributes, self.gateway_conditions)
                 random.shuffle(f_arcs)
+                # flows leading straight to an inclusive join go last: whether the join
+                # fires depends on the tokens placed on all the other outgoing flows
+                f_arcs.sort(key=lambda f_arc: self._get_successor(f_arc[0]).type is BPMN.INCLUSIVE_GATEWAY)
 
             self.simulation_execution_stats.update_element_execution(case_id, e_info, f_arcs)
 
-- 
2.43.0


From c8f5272b99a75f4539600475338148029dba87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 05/57] fix: all intermediate events of a run shared one
 record, corrupting the statistics

---
 prosimos/execution_info.py              | 38 +++++++++++++------------
 prosimos/simulation_stats_calculator.py |  2 ++
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/prosimos/execution_info.py b/prosimos/execution_info.py
index 498a5fd..dcceaca 100644
--- a/prosimos/execution_info.py
+++ b/prosimos/execution_info.py
@@ -77,24 +77,26 @@ class TaskEvent:
 
     @classmethod
     def create_event_entity(cls, c_event: EnabledEvent, ended_at, ended_datetime):
-        cls.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
-        cls.task_id = c_event.task_id  # Name of the task related to the current event
-        cls.type = BPMN.INTERMEDIATE_EVENT
-        cls.enabled_at = c_event.enabled_at
-        cls.enabled_datetime = c_event.enabled_datetime
-        cls.started_at = c_event.enabled_at
-        cls.started_datetime = c_event.enabled_datetime
-        cls.completed_at = ended_at
-        cls.completed_datetime = ended_datetime
-        cls.idle_time = 0.0
-        cls.waiting_time = 0.0
-        cls.idle_cycle_time = 0.0
-        cls.idle_processing_time = 0.0
-        cls.cycle_time = 0.0
-        cls.processing_time = 0.0
-        cls.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
-
-        return cls
+        event = cls.__new__(cls)
+        event.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
+        event.task_id = c_event.task_id  # Name of the task related to the current event
+        event.type = BPMN.INTERMEDIATE_EVENT
+        event.enabled_at = c_event.enabled_at
+        event.enabled_datetime = c_event.enabled_datetime
+        event.started_at = c_event.enabled_at
+        event.started_datetime = c_event.enabled_datetime
+        event.completed_at = ended_at
+        event.completed_datetime = ended_datetime
+        event.idle_time = 0.0
+        event.waiting_time = 0.0
+        event.idle_cycle_time = 0.0
+        event.idle_processing_time = 0.0
+        event.cycle_time = 0.0
+        event.processing_time = 0.0
+        event.worked_intervals = []
+        event.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
+
+        return event
 
     def update_enabling_times(self, enabled_at):
         # what's the use case ?
diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index d170562..faeade1 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -272,6 +272,8 @@ def compute_fuzzy_availability(bpm_env):
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
+            if ev.type != BPMN.TASK:
+                continue
             if ev.resource_id not in r_working_intervals:
                 r_working_intervals[ev.resource_id] = []
             for interval in ev.worked_intervals:
-- 
2.43.0


From dda8b4ce00a443bccbd53976495756423766569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 06/57] fix: an inclusive join inside a loop waited forever for
 a token of a parallel branch

---
 prosimos/control_flow_manager.py | 41 ++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index dcd613e..017c472 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -146,7 +146,7 @@ class BPMNGraph:
         self.concurrent_enablers = dict()
         self.nodes_bitset = dict()
         self.arcs_bitset = dict()
-        self.or_join_pred = dict()  # or_id -> [0 = node predecesors bitset, 1 = predecesors flow arcs]
+        self.or_join_pred = dict()  # or_id -> {in_flow -> bitset of flow arcs leading to in_flow without visiting or_id}
         self.or_join_conflicting_pred = dict()
         self.decision_successors = dict()
         self.element_probability = None
@@ -203,21 +203,25 @@ class BPMNGraph:
         for e_id in self.element_info:
             element = self.element_info[e_id]
             if element.type is BPMN.INCLUSIVE_GATEWAY and element.is_join():
-                self.or_join_pred[e_id] = [0, 0]
                 self._find_or_conflicting_predecesors(e_id)
-                pred_queue = deque([e_id])
-                while len(pred_queue) > 0:
-                    element = self.element_info[pred_queue.popleft()]
-                    for flow_id in element.incoming_flows:
-                        prev_id = self.flow_arcs[flow_id][0]
-                        if self.or_join_pred[e_id][0] & self.nodes_bitset[prev_id] == 0:
-                            pred_queue.append(prev_id)
-                        self.or_join_pred[e_id][0] |= self.nodes_bitset[prev_id]
-                        if self.flow_arcs[flow_id][1] != e_id:
-                            self.or_join_pred[e_id][1] |= self.arcs_bitset[flow_id]
+                self.or_join_pred[e_id] = {flow_id: self._find_preceding_arcs(e_id, flow_id)
+                                           for flow_id in element.incoming_flows}
             if element.type in [BPMN.EXCLUSIVE_GATEWAY, BPMN.INCLUSIVE_GATEWAY] and element.is_split():
                 self._find_decision_successors(element)
 
+    def _find_preceding_arcs(self, or_join_id, in_flow):
+        preceding_arcs = 0
+        pred_queue = deque([in_flow])
+        while pred_queue:
+            prev_id = self.flow_arcs[pred_queue.popleft()][0]
+            if prev_id == or_join_id:
+                continue
+            for flow_id in self.element_info[prev_id].incoming_flows:
+                if preceding_arcs & self.arcs_bitset[flow_id] == 0:
+                    preceding_arcs |= self.arcs_bitset[flow_id]
+                    pred_queue.append(flow_id)
+        return preceding_arcs
+
     def _find_decision_successors(self, split_info):
         self.decision_successors[split_info.id] = set()
         visited = {split_info.id}
@@ -309,15 +313,16 @@ class BPMNGraph:
                         return True
                 return False
             else:
-                count_tokens = 0
+                # a pending token inhibits the join if it may still reach an incoming flow without token,
+                # unless it may as well reach an incoming flow that already has one (BPMN 2.0)
+                count_tokens = inhibiting_arcs = other_arcs = 0
                 for flow_id in e_info.incoming_flows:
                     if p_state.tokens[flow_id] > 0:
                         count_tokens += 1
-                if count_tokens == len(e_info.incoming_flows):
-                    return True
-                if count_tokens > 0 and self.or_join_pred[e_id][1] & p_state.state_mask == 0:
-                    return True
-                return False
+                        other_arcs |= self.or_join_pred[e_id][flow_id]
+                    else:
+                        inhibiting_arcs |= self.or_join_pred[e_id][flow_id]
+                return count_tokens > 0 and inhibiting_arcs & ~other_arcs & p_state.state_mask == 0
         return False
 
     def update_process_state(self, case_id, e_id, p_state, completed_datetime_prev_event: CustomDatetimeAndSeconds):
-- 
2.43.0


From fdcc4edeb9bfe60afb1f988acc3b6b0bc1bfd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 07/57] fix: flows to a nested inclusive split are not mistaken
 for flows to an inclusive join

---
 prosimos/control_flow_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 017c472..79f6b15 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -280,6 +280,10 @@ class BPMNGraph:
                     elements_queue.append(next_e.id)
         return None
 
+    @staticmethod
+    def _is_inclusive_join(e_info):
+        return e_info.type is BPMN.INCLUSIVE_GATEWAY and e_info.is_join()
+
     def is_enabled(self, e_id, p_state):
         if e_id not in self.element_info:
             return False
@@ -364,7 +368,7 @@ class BPMNGraph:
                 random.shuffle(f_arcs)
                 # flows leading straight to an inclusive join go last: whether the join
                 # fires depends on the tokens placed on all the other outgoing flows
-                f_arcs.sort(key=lambda f_arc: self._get_successor(f_arc[0]).type is BPMN.INCLUSIVE_GATEWAY)
+                f_arcs.sort(key=lambda f_arc: self._is_inclusive_join(self._get_successor(f_arc[0])))
 
             self.simulation_execution_stats.update_element_execution(case_id, e_info, f_arcs)
 
-- 
2.43.0


From ff7f97dbe994370794329d05aae4cb63d4de6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 08/57] fix: an attribute that is both a global case and a
 global event attribute was logged twice

---
 prosimos/all_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/all_attributes.py b/prosimos/all_attributes.py
index 9bab483..423dead 100644
--- a/prosimos/all_attributes.py
+++ b/prosimos/all_attributes.py
@@ -41,7 +41,8 @@ class AllAttributes:
             self.event_attributes
         ]
         columns = [attr.get_columns_generated() for attr in attributes_collections]
-        return [item for sublist in columns for item in sorted(sublist)]
+        # an attribute may be both a global case and a global event attribute: it is still a single column
+        return list(dict.fromkeys(item for sublist in columns for item in sorted(sublist)))
 
     def _extract_case_attributes(self, case_attributes, global_case_attribute_names):
         global_case_attributes = list()
-- 
2.43.0


From b05852e947cd89e0bfe9570d6668258626c9f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 09/57] fix: overlapping intervals were not merged properly in
 the process statistics

---
 prosimos/simulation_stats_calculator.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index faeade1..2690268 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -344,14 +344,11 @@ def sum_interval_union(interval_list):
         return 0
     interval_list = sorted(interval_list, key=lambda interval: interval.start)
     t_duration = interval_list[0].duration
-    for i in range(1, len(interval_list)):
-        i_interval = interval_list[i - 1].intersection(interval_list[i])
-        for j in range(i - 2, -1, -1):
-            intersection = interval_list[j].intersection(i_interval)
-            if intersection is None:
-                break
-            i_interval = intersection
-        t_duration += interval_list[i].duration - i_interval.duration if i_interval else interval_list[i].duration
+    last_end = interval_list[0].end
+    for interval in interval_list[1:]:
+        if interval.end > last_end:
+            t_duration += (interval.end - max(interval.start, last_end)).total_seconds()
+            last_end = interval.end
     return round(t_duration, 6)
 
 
-- 
2.43.0


From c61cef06413538805ae9c7c145bb712cc5050702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 10/57] fix: the processing time of a process ignored the
 working intervals of the calendars

---
 prosimos/simulation_stats_calculator.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 2690268..b0ecfc6 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -91,8 +91,8 @@ class LogInfo:
                     for interval in event_info.worked_intervals:
                         real_work_intervals.append(interval)
                 else:
-                    r_calendar.remove_idle_times(event_info.started_datetime, event_info.completed_datetime,
-                                                 real_work_intervals)
+                    real_work_intervals.extend(find_working_intervals(r_calendar, event_info.started_datetime,
+                                                                      event_info.completed_datetime))
             processing_intervals.append(Interval(event_info.started_datetime, event_info.completed_datetime))
             waiting_intervals.append(Interval(event_info.enabled_datetime, event_info.started_datetime))
 
@@ -339,6 +339,22 @@ def print_event_state(state, e_step, bpm_env, resource_id, to_print):
                                                     to_print, bpm_env.simpy_env.now))
 
 
+def find_working_intervals(r_calendar, from_date, to_date):
+    """
+    Working intervals of the calendar between both dates, i.e., excluding the idle times of the resource
+    """
+    working_intervals = list()
+    c_day = from_date.replace(hour=0, minute=0, second=0, microsecond=0)
+    while c_day < to_date:
+        for interval in r_calendar.work_intervals[c_day.weekday()]:
+            start = max(from_date, c_day + (interval.start - r_calendar.new_day))
+            end = min(to_date, c_day + (interval.end - r_calendar.new_day))
+            if start < end:
+                working_intervals.append(Interval(start, end))
+        c_day += datetime.timedelta(days=1)
+    return working_intervals
+
+
 def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
-- 
2.43.0


From 0ab4305066f290b7f2aa43a000f502da3628f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 11/57] fix: durations slightly below zero were dropped from
 the statistics instead of counting as zero

---
 prosimos/simulation_stats_calculator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index b0ecfc6..6358e3b 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -8,6 +8,9 @@ from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_ca
 from prosimos.execution_info import TaskEvent, Trace
 from prosimos.simulation_setup import SimDiffSetup
 
+# In seconds, the precision lost when durations are computed on floats and rounded to datetimes
+ROUNDING_ERROR = 1e-3
+
 
 class KPIInfo:
     def __init__(self):
@@ -28,6 +31,9 @@ class KPIInfo:
         self.avg = self.total / self.count if self.count > 0 else 0
 
     def add_value(self, new_value):
+        if -ROUNDING_ERROR < new_value < 0:
+            # durations are computed on floats: being slightly below zero means zero
+            new_value = 0
         if new_value >= 0:
             self.min = min(self.min, new_value)
             self.max = max(self.max, new_value)
-- 
2.43.0


From 49969e57601f3f9e5aadd386a9c52b75966f704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 12/57] fix: warnings of earlier simulations in the same
 process were written to the warnings of later ones

---
 prosimos/simulation_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 7fd3aad..08f3dac 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -694,6 +694,9 @@ def run_simulation(
     is_event_added_to_log=False,
     fixed_arrival_times=None,
 ):
+    # the warnings of a previous simulation in this process are not about this one
+    warning_logger.clear_warnings()
+
     diffsim_info = SimDiffSetup(bpmn_path, json_path, is_event_added_to_log, total_cases)
 
     if not diffsim_info:
-- 
2.43.0


From 29103205b52abe5dc9aa93bac719280834c33649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 13/57] fix: gateways without any condition were reported as
 having some conditions missing

---
 prosimos/simulation_properties_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index b24fae3..ddd3233 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -357,7 +357,7 @@ def parse_gateway_conditions(gateway_json, branch_rules):
             gateway_conditions[g_id] = GatewayConditionChoice(out_arc, gateway_rules)
 
         if len(missing_conditions) > 0 and \
-                len(missing_conditions) != g_info["probabilities"] and \
+                len(missing_conditions) != len(g_info["probabilities"]) and \
                 1 < len(g_info["probabilities"]) != len(gateway_rules):
             warning_logger.add_warning(f"Gateway {g_id} is using conditions, but some are missing. Flows without conditions: {', '.join(missing_conditions)}")
 
-- 
2.43.0


From 6017311faad3f5a536d4bd9ffdc04ad63c3578a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:55 +0000
Subject: [PATCH 14/57] fix: results depended on Python's hash seed when
 several tasks share their resources

---
 prosimos/simulation_queues_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_queues_ds.py b/prosimos/simulation_queues_ds.py
index 50aca39..a38d733 100644
--- a/prosimos/simulation_queues_ds.py
+++ b/prosimos/simulation_queues_ds.py
@@ -86,7 +86,7 @@ class DiffResourceQueue:
         # Grouping the tasks that share all the resources
         for task_id_1 in task_resource_map:
             if task_id_1 not in taken:
-                joint_tasks = set()
+                joint_tasks = list()
                 for task_id_2 in task_resource_map:
                     is_joint = True
                     if len(task_resource_map[task_id_2]) != len(task_resource_map[task_id_1]):
@@ -97,7 +97,7 @@ class DiffResourceQueue:
                             break
                     if is_joint:
                         taken.add(task_id_2)
-                        joint_tasks.add(task_id_2)
+                        joint_tasks.append(task_id_2)
                 joint_sets.append(joint_tasks)
 
         index = 0
-- 
2.43.0


From 5e012454c82711269caf6cab100413ad45fbe30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 15/57] fix: worked and available time of resources were
 swapped in the returned indicators

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 6358e3b..c529de4 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -217,8 +217,8 @@ def compute_resource_utilization(bpm_env):
         # r_info = bpm_env.sim_setup.resources_map[r_id]
         resource_info[r_id] = ResourceKPI(bpm_env.sim_setup.resources_map[r_id],
                                           bpm_env.sim_resources[r_id].allocated_tasks,
-                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.sim_resources[r_id].available_time,
+                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.get_utilization_for(r_id))
 
     # for r_id in bpm_env.sim_setup.resources_map:
-- 
2.43.0


From b6a7d230366e6439a59047ff5563266deaa4bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 16/57] fix: --is_event_added_to_log False was taken as True by
 the command line

---
 cli/diff_res_bpsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/diff_res_bpsim.py b/cli/diff_res_bpsim.py
index fe1e1f2..8e74922 100644
--- a/cli/diff_res_bpsim.py
+++ b/cli/diff_res_bpsim.py
@@ -30,7 +30,7 @@ def cli():
 @click.option('--starting_at', required=False,
               help='Date-time of the first process case in the simulation.'
                    'If this parameter is not provided, the current date-time is assigned.')
-@click.option('--is_event_added_to_log', required=False,
+@click.option('--is_event_added_to_log', required=False, type=click.BOOL, default=False,
               help='Boolean showing whether event should be added to the resulted simulation log.'
                    'If this parameter is not provided, False is considered as the parameter value.')
 @click.pass_context
-- 
2.43.0


From db599ce615a791dfdec58eda8ab5456a4e7745bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 17/57] fix: scenarios and warnings with other than ASCII
 characters failed in non-UTF-8 locales

---
 prosimos/simulation_engine.py            | 2 +-
 prosimos/simulation_properties_parser.py | 2 +-
 prosimos/simulation_stats.py             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 08f3dac..a0992c3 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -738,7 +738,7 @@ def run_simulation(
     else:
         warning_file_path = warning_file_name
 
-    with open(warning_file_path, "w") as warning_file:
+    with open(warning_file_path, "w", encoding="utf-8") as warning_file:
         for warning in warning_logger.get_all_warnings():
             warning_file.write(f"{warning}\n")
 
diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index ddd3233..23be7aa 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -51,7 +51,7 @@ int_week_days = {"MONDAY": 0, "TUESDAY": 1, "WEDNESDAY": 2, "THURSDAY": 3, "FRID
 
 
 def parse_json_sim_parameters(json_path):
-    with open(json_path) as json_file:
+    with open(json_path, encoding="utf-8") as json_file:
         json_data = json.load(json_file)
         model_type = json_data["model_type"] if "model_type" in json_data else "CRSIP"
 
diff --git a/prosimos/simulation_stats.py b/prosimos/simulation_stats.py
index 1bc99ca..68af5a8 100644
--- a/prosimos/simulation_stats.py
+++ b/prosimos/simulation_stats.py
@@ -186,7 +186,7 @@ def load_bimp_simulation_results(results_file_path, simulation_log):
 def load_diff_simulation_results(csv_stats_path):
     sim_info = None
     started_at = None
-    with open(csv_stats_path, mode='r') as csv_file:
+    with open(csv_stats_path, mode='r', encoding='utf-8') as csv_file:
         csv_reader = csv.reader(csv_file, delimiter=',')
         output_section = 0
         kpi_index = 0
-- 
2.43.0


From 012661e2e0d824d5f1368ec202c24ddb655d7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 18/57] fix: a resource was free before the tasks it performs
 in parallel in a batch were completed

---
 prosimos/simulation_engine.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index a0992c3..50343a6 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -539,6 +539,8 @@ class SimBPMEnv:
             if not is_working:
                 r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
 
+            longest_evt = None
+
             for case_id, enabled_time in batch_item:
                 p_case = case_id
                 enabled_at = enabled_time.seconds_from_start
@@ -561,21 +563,20 @@ class SimBPMEnv:
                     completed_datetime,
                 ) = self._update_logs_and_resource_availability(full_evt, r_id)
 
+                if longest_evt is None or full_evt.completed_at > longest_evt.completed_at:
+                    longest_evt = full_evt
+
                 yield completed_at, completed_datetime, p_case
 
-            # since the tasks are executed in parallel
+            # since the tasks are executed in parallel, the resource is busy until the longest of them is completed and
             # we add their duration only once cause they were happening at the same time
-            self.sim_resources[r_id].worked_time += full_evt.ideal_duration
+            self._update_resource_availability(longest_evt, r_id)
+            self.sim_resources[r_id].worked_time += longest_evt.ideal_duration
 
     def _update_logs_and_resource_availability(self, full_evt: TaskEvent, r_id):
         self.log_info.add_event_info(full_evt.p_case, full_evt, self.sim_setup.resources_map[r_id].cost_per_hour)
 
-        r_next_available = full_evt.completed_at
-
-        if self.sim_resources[r_id].switching_time > 0:
-            r_next_available += self.sim_setup.next_resting_time(r_id, full_evt.completed_datetime)
-
-        self.resource_queue.update_resource_availability(r_id, r_next_available)
+        self._update_resource_availability(full_evt, r_id)
 
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
 
@@ -584,6 +585,14 @@ class SimBPMEnv:
 
         return completed_at, completed_datetime
 
+    def _update_resource_availability(self, full_evt: TaskEvent, r_id):
+        r_next_available = full_evt.completed_at
+
+        if self.sim_resources[r_id].switching_time > 0:
+            r_next_available += self.sim_setup.next_resting_time(r_id, full_evt.completed_datetime)
+
+        self.resource_queue.update_resource_availability(r_id, r_next_available)
+
     def execute_event(self, c_event):
         # Handle event types separately (they don't need assigned resource)
         # The duration is already known for the event chosen by an event-based gateway
-- 
2.43.0


From ac86ed322a560f95f01ce0ab007464a9000266b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 19/57] fix: cases waiting for a batch were lost or executed
 twice when a batch was fired for some of them

The cases to execute were chosen by priority among all the waiting ones, while
those removed from the waiting list were the ones that joined it first.
---
 prosimos/control_flow_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 79f6b15..0fb0ef7 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -20,7 +20,9 @@ seconds_per_unit = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
 
 class BatchInfoForExecution:
     def __init__(self, all_case_ids, task_batch_info, curr_task_id, batch_spec, start_time_from_rule):
-        self.case_ids = all_case_ids[curr_task_id].copy()
+        # the batch includes only those who waited the longest, the rest keeps waiting for the next batch
+        num_tasks_in_batches = sum(size for size in batch_spec if size is not None)
+        self.case_ids = dict(list(all_case_ids[curr_task_id].items())[:num_tasks_in_batches])
         self.task_batch_info = task_batch_info[curr_task_id]
         self.batch_spec = batch_spec
         self.start_time_from_rule = start_time_from_rule
-- 
2.43.0


From c4b95bc1d3b6aaa862369fc22cf3f96884cdf8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 20/57] fix: full days were dropped from the moment at which
 batches at the end of a simulation are enabled

---
 prosimos/simulation_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 50343a6..b756483 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -621,7 +621,7 @@ class SimBPMEnv:
 
     def simulation_at_from_datetime(self, datetime):
         td = datetime - self.sim_setup.start_datetime
-        return td.seconds
+        return td.total_seconds()
 
     def get_utilization_for(self, resource_id):
         if self.sim_resources[resource_id].available_time == 0:
-- 
2.43.0


From dc576d5f049c0da6bef8fdbecdc83abda71ecca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 21/57] fix: tasks of a parallel batch started apart when the
 last of them was enabled after the batch was fired

---
 prosimos/simulation_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index b756483..7202c51 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -533,7 +533,9 @@ class SimBPMEnv:
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
-            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds)
+            # a parallel batch cannot start before all of its tasks are enabled
+            last_enabled_at = max(enabled_time.seconds_from_start for _, enabled_time in batch_item)
+            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds, last_enabled_at)
             avail_datetime = self._datetime_from(r_avail_at)
             is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
             if not is_working:
-- 
2.43.0


From 266460e382a1d02fe9d9ef6a8d33719a21bba543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 22/57] fix: AttributeError at the end of a simulation with
 cases waiting for a batch with a ready_wt rule

---
 prosimos/batch_processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 4de0143..f43c0ba 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -329,7 +329,7 @@ class FiringSubRule():
             return 0, None
 
 
-    def is_invalid_end(self, curr_batch_size, last_wt):
+    def is_invalid_end(self, curr_batch_size, last_wt, ready_wt_boundaries = None):
         is_invalid = False
 
         if RULE_TYPE(self.variable1) == RULE_TYPE.SIZE:
@@ -343,7 +343,7 @@ class FiringSubRule():
             # if we surpass the upper limit of waiting_time,
             # this will not be changed in the future cause we will not receive a new item
             # and thus ready_wt value will not be reset
-            _, high_boundary = self.ready_wt_boundaries
+            _, high_boundary = ready_wt_boundaries
             is_invalid = last_wt > high_boundary
 
         return is_invalid
@@ -839,7 +839,7 @@ class AndFiringRule():
         is_invalid = False
         
         for simple_rule in self.rules:
-            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt)
+            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt, self.ready_wt_boundaries)
 
             if is_invalid:
                 break
-- 
2.43.0


From 9b8c46e3b97023173fb0d87cda1e1a06bc02c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 23/57] fix: batches with a rule on a minimum size (size > n,
 size >= n) were never fired

---
 prosimos/batch_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index f43c0ba..a5841ee 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -718,7 +718,8 @@ class AndFiringRule():
                 # initial_batch_size = batch_size
                 # if previously batch_size satisfy the size rule - return it
                 # if not - return the one we've just calculated with the size rule limitations
-                batch_size = batch_size if rule_operator(batch_size, value2) else batch_size_rule
+                is_size_defined = batch_size != sys.maxsize
+                batch_size = batch_size if is_size_defined and rule_operator(batch_size, value2) else batch_size_rule
                 
                 if batch_size > current_batch_size or \
                     enabled_time > initial_curr_enabled_at:
-- 
2.43.0


From 3b98234a3f664cadc7ab851d32756024d292bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:36 +0000
Subject: [PATCH 24/57] fix: cases were never completed when no rule could fire
 the batch they were waiting for

Nothing was simulated at all when every case was waiting for its first batch, and
at the end of a simulation the tasks left without enough companions for their
rule (one task with a week_day, daily_hour or maximum size rule) were dropped.
---
 prosimos/control_flow_manager.py | 26 ++++++++++++++++++++++
 prosimos/simulation_engine.py    | 37 ++++++++++++++++++++++++++++----
 prosimos/simulation_setup.py     |  6 ++++++
 3 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 0fb0ef7..b770f1b 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1070,6 +1070,32 @@ class BPMNGraph:
 
         return enabled_task_batch
 
+    def get_remaining_batches(self, last_task_enabled_time: CustomDatetimeAndSeconds):
+        """
+        Batches with all the tasks still waiting at the end of the simulation, when no firing rule can be fulfilled.
+        They start at the earliest time allowed by the rules, once all of their tasks are enabled.
+        """
+        remaining_batches = dict()
+        for (task_id, waiting_tasks) in self.batch_waiting_processes.items():
+            if len(waiting_tasks) == 0:
+                continue
+
+            start_time = max([v.datetime for v in waiting_tasks.values()] + [last_task_enabled_time.datetime])
+            case_id_and_start_time = self.get_start_time(task_id, CustomDatetimeAndSeconds(0, start_time))
+            if case_id_and_start_time is not None:
+                start_time = max(start_time, case_id_and_start_time[1].datetime)
+
+            first_case_id = next(iter(waiting_tasks))
+            remaining_batches[task_id] = first_case_id, self.create_batch_info_and_clear_from_queue(
+                task_id, [len(waiting_tasks)], start_time
+            )
+
+        return remaining_batches
+
+    def get_last_enabled_time_of_waiting_tasks(self):
+        enabled_times = [v for waiting_tasks in self.batch_waiting_processes.values() for v in waiting_tasks.values()]
+        return max(enabled_times, key=lambda v: v.datetime, default=None)
+
     def create_batch_info_and_clear_from_queue(self, task_id: str, batch_spec, start_time_from_rule):
         batch_info = BatchInfoForExecution(
             self.batch_waiting_processes,
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 7202c51..79546c4 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -435,6 +435,19 @@ class SimBPMEnv:
                     )
                     self.calc_priority_and_append_to_queue(c_event, False)
 
+    def execute_remaining_batches(self, last_task_enabled_time: CustomDatetimeAndSeconds):
+        """Enqueue the tasks whose batch cannot be fired anymore, so that no case is left unfinished"""
+        for batch_task_id, (case_id, batch_info) in self.sim_setup.get_remaining_batches(last_task_enabled_time).items():
+            c_event = EnabledEvent(
+                case_id,
+                self.all_process_states[case_id],
+                batch_task_id,
+                self.simulation_at_from_datetime(batch_info.start_time_from_rule),
+                batch_info.start_time_from_rule,
+                batch_info,
+            )
+            self.calc_priority_and_append_to_queue(c_event, False)
+
     def _get_chunk(self, batch_spec, curr_index, all_case_ids):
         """Return only the part of the all_case_ids that will be executed as a batch"""
         acc_tasks_in_batch = 0
@@ -663,7 +676,12 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
     #       str(datetime.timedelta(seconds=(datetime.datetime.now() - s_t).total_seconds())))
     current_event = bpm_env.events_queue.pop_next_event()
     executed_cases = set()
-    if current_event is not None:
+    if current_event is None:
+        # all the cases are waiting for a batch
+        last_event_datetime = bpm_env.sim_setup.get_last_enabled_time_of_waiting_tasks()
+        if last_event_datetime is not None:
+            current_event = pop_next_batch_at_the_end(bpm_env, last_event_datetime)
+    else:
         last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
 
     while current_event is not None:
@@ -689,10 +707,21 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
         else:
             # we reached the point where all tasks enabled for the execution were executed
             # add to the events_queue batched tasks if any
-            bpm_env.execute_if_any_unexecuted_batch(last_event_datetime)
-
             # verifying whether we still have (batched) tasks to be executed in the future
-            current_event = bpm_env.events_queue.pop_next_event()
+            current_event = pop_next_batch_at_the_end(bpm_env, last_event_datetime)
+
+
+def pop_next_batch_at_the_end(bpm_env: SimBPMEnv, last_event_datetime: CustomDatetimeAndSeconds):
+    """Next batch to be executed when only tasks waiting for their batch are left"""
+    bpm_env.execute_if_any_unexecuted_batch(last_event_datetime)
+    next_event = bpm_env.events_queue.pop_next_event()
+
+    if next_event is None:
+        # no rule is going to be fulfilled by the remaining tasks
+        bpm_env.execute_remaining_batches(last_event_datetime)
+        next_event = bpm_env.events_queue.pop_next_event()
+
+    return next_event
 
 
 def run_simulation(
diff --git a/prosimos/simulation_setup.py b/prosimos/simulation_setup.py
index 824be34..da3e664 100644
--- a/prosimos/simulation_setup.py
+++ b/prosimos/simulation_setup.py
@@ -103,6 +103,12 @@ class SimDiffSetup:
     def is_any_unexecuted_batch(self, last_task_enabled_time):
         return self.bpmn_graph.is_any_unexecuted_batch(last_task_enabled_time)
 
+    def get_remaining_batches(self, last_task_enabled_time):
+        return self.bpmn_graph.get_remaining_batches(last_task_enabled_time)
+
+    def get_last_enabled_time_of_waiting_tasks(self):
+        return self.bpmn_graph.get_last_enabled_time_of_waiting_tasks()
+
     def find_arrival_calendar(self):
         # TODO: make sure this 0 as p_case does not break anything
         enabled_tasks = self.update_process_state(0, self.bpmn_graph.starting_event, self.initial_state(), None)
-- 
2.43.0


From 89b10547694a4799e1000916de074ec7322b0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 25/57] fix: attributes were not updated by tasks executed in a
 batch

---
 prosimos/simulation_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 79546c4..be164cf 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -593,6 +593,7 @@ class SimBPMEnv:
 
         self._update_resource_availability(full_evt, r_id)
 
+        self.update_attributes(full_evt)
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
 
         completed_at = full_evt.completed_at
-- 
2.43.0


From 4fe1a05f51d6e665176f35d784b6b47e7ff00e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 26/57] fix: cases terminated while a batch was waiting in the
 queue still executed it

---
 prosimos/simulation_engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index be164cf..873d601 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -466,6 +466,12 @@ class SimBPMEnv:
         ordered_case_ids = self.case_prioritisation.get_ordered_case_ids_by_priority(all_case_ids)
         batch_spec = c_event.batch_info_exec.batch_spec
         chunks = [self._get_chunk(batch_spec, i, ordered_case_ids) for i in range(0, len(batch_spec))]
+        # cases terminated while the batch was waiting in the queue do not execute it
+        chunks = [
+            [item for item in chunk if self.sim_setup.is_enabled(c_event.task_id, self.all_process_states[item[0]])]
+            for chunk in chunks
+        ]
+        chunks = [chunk for chunk in chunks if len(chunk) > 0]
 
         if c_event.batch_info_exec.is_sequential():
             return self.execute_seq_task_batch(c_event, chunks)
-- 
2.43.0


From 35986136e2ac0be03a840298575077ede7eb0d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 27/57] fix: batches took tasks in the order they were added
 instead of the order they were enabled

---
 prosimos/control_flow_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index b770f1b..418cdc6 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1004,6 +1004,10 @@ class BPMNGraph:
             return
 
         self.batch_waiting_processes[task_id][case_id] = enabled_time
+        # those who wait the longest go first, even if they were not the first ones added
+        self.batch_waiting_processes[task_id] = dict(
+            sorted(self.batch_waiting_processes[task_id].items(), key=lambda item: item[1].datetime)
+        )
 
         if task_id in self.batch_count:
             self.batch_count[task_id] += 1
-- 
2.43.0


From cf2d1d7d0b01c400c2fb8765eab3a2d0e287dbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 28/57] fix: days were dropped from waiting times when deciding
 who joins a batch

---
 prosimos/batch_processing.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index a5841ee..1574cae 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -34,6 +34,11 @@ def _get_operator_symbols_lt(operator_str: str):
 def _is_greater(op: operator):
     return op in [operator.ge, operator.gt]
 
+def _get_waiting_seconds(since: datetime, until: datetime) -> int:
+    """ Whole seconds between two moments. Happens only when no new cases will arrive: since > until """
+    diff = until - since
+    return diff.seconds if diff < timedelta(0) else int(diff.total_seconds())
+
 class BATCH_TYPE(Enum):
     SEQUENTIAL = 'Sequential'   # one after another
     CONCURRENT = 'Concurrent'   # tasks are in progress simultaneously 
@@ -123,7 +128,7 @@ class FiringSubRule():
             curr_enabled_datetime = element["curr_enabled_at"]
             op = _get_operator_symbols_ge(self.operator)
 
-            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).seconds
+            ready_wt_sec = _get_waiting_seconds(last_enabled_datetime, curr_enabled_datetime)
             is_rule_true = op(ready_wt_sec, self.value2)
            
             if is_rule_true == False:
@@ -466,7 +471,7 @@ class AndFiringRule():
                 # happens when no new cases will arrive 
                 return en_time_index, _get_enabled_time_for_wt_rule(prev_item, operator.gt, high_boundary)
 
-            diff = (item - prev_item).seconds
+            diff = _get_waiting_seconds(prev_item, item)
             is_batch_enabled_low = diff < low_boundary
 
             if is_batch_enabled_low:
@@ -508,7 +513,7 @@ class AndFiringRule():
         prev_item = first_item
         list_len = len(enabled_dt_with_curr_enabled)
         for en_time_index, item in enumerate(enabled_dt_with_curr_enabled[1:], 1):
-            diff = (item - first_item).seconds
+            diff = _get_waiting_seconds(first_item, item)
             is_batch_enabled_low = diff > low_boundary
             
             if not is_batch_enabled_low:
-- 
2.43.0


From 4322dad664d2d7463594466f3ec6693a012542e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 29/57] fix: granules given in seconds made simulations with
 fuzzy calendars fail

---
 prosimos/simulation_properties_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index 23be7aa..d502283 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -193,7 +193,9 @@ def _parse_local_multitasking(json_data, task_res_distr):
 
 
 def parse_fuzzy_calendar(json_data):
-    granule_size = json_data["granule_size"]["value"] * granule_units[(json_data["granule_size"]["time_unit"]).upper()]
+    granule_size = int(
+        json_data["granule_size"]["value"] * granule_units[(json_data["granule_size"]["time_unit"]).upper()]
+    )
     fuzzy_calendars = dict()
     resource_calendars = json_data["resource_calendars"]
     for r_info in resource_calendars:
-- 
2.43.0


From 2ccce0cd24ac9c91f3bd83af3b30493e1903f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 30/57] fix: tasks were completed in granules in which their
 resource is never available

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 1269d0a..f85fb62 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -120,12 +120,12 @@ class FuzzyModel:
 
         avail_info, size_seconds, week_day, i = self._extract_date_info(current_date)
 
-        real_duration = min(avail_info.duration_to_interval_end(current_date), ideal_duration)
+        real_duration = avail_info.duration_to_interval_end(current_date)
         if self.is_available(week_day, i):
-            to_date = it_date + timedelta(seconds=real_duration)
-            worked_intervals.append(Interval(it_date, to_date))
-            it_date = to_date
+            real_duration = min(real_duration, ideal_duration)
+            worked_intervals.append(Interval(it_date, it_date + timedelta(seconds=real_duration)))
             ideal_duration -= real_duration
+        it_date += timedelta(seconds=real_duration)
         i += 1
         while ideal_duration > 0:
             if i >= avail_info.i_count:
-- 
2.43.0


From 0884616f0547d6353c02257a403d1acabc89af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 31/57] fix: available time counted a granule twice or too long
 in simulations with fuzzy calendars

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index f85fb62..501edfe 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -152,16 +152,11 @@ class FuzzyModel:
         return False, None
 
     def estimate_available_time(self, from_date: datetime, to_date: datetime):
-        fuzzy_c, size_seconds, week_day, i = self._extract_date_info(from_date)
-        last_duration = fuzzy_c.duration_from_interval_start(to_date)
-        first_duration = fuzzy_c.duration_to_interval_end(from_date)
-
-        duration = fuzzy_c.probability_intervals[week_day][i] * first_duration
-        duration += fuzzy_c.probability_intervals[to_date.weekday()][fuzzy_c.interval_index(to_date)] * last_duration
-
-        to_date = to_date - timedelta(seconds=last_duration)
-        c_date = from_date + timedelta(seconds=first_duration)
+        duration = 0
+        c_date = from_date
         while c_date < to_date:
-            duration += fuzzy_c.probability_intervals[c_date.weekday()][fuzzy_c.interval_index(c_date)] * size_seconds
-            c_date += timedelta(seconds=size_seconds)
+            fuzzy_c, _, week_day, i = self._extract_date_info(c_date)
+            i_duration = min(fuzzy_c.duration_to_interval_end(c_date), (to_date - c_date).total_seconds())
+            duration += fuzzy_c.probability_intervals[week_day][i] * i_duration
+            c_date += timedelta(seconds=i_duration)
         return duration
-- 
2.43.0


From 6e7afcee5edda2ff17636db740e25f0391dbcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 32/57] fix: available time with fuzzy calendars depended on
 the calendar a resource was last drawn from

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 501edfe..8d84647 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -157,6 +157,9 @@ class FuzzyModel:
         while c_date < to_date:
             fuzzy_c, _, week_day, i = self._extract_date_info(c_date)
             i_duration = min(fuzzy_c.duration_to_interval_end(c_date), (to_date - c_date).total_seconds())
-            duration += fuzzy_c.probability_intervals[week_day][i] * i_duration
+            abs_prob = self.availability_calendar.probability_intervals[week_day][i]
+            rel_prob = self.workload_ratio.probability_intervals[week_day][i]
+            # a resource is available according to any of both, see is_available
+            duration += (1 - (1 - abs_prob) * (1 - rel_prob)) * i_duration
             c_date += timedelta(seconds=i_duration)
         return duration
-- 
2.43.0


From 495a897fd67962bbab9ee6202fbec0034ae16415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 33/57] fix: resources without tasks had no available time in
 simulations with fuzzy calendars

---
 prosimos/simulation_stats_calculator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index c529de4..f0f6a51 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -274,14 +274,12 @@ def compute_resorce_availability(bpm_env):
 
 def compute_fuzzy_availability(bpm_env):
     trace_list = bpm_env.log_info.trace_list
-    r_working_intervals = dict()
+    r_working_intervals = {r_id: [] for r_id in bpm_env.sim_resources}
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
             if ev.type != BPMN.TASK:
                 continue
-            if ev.resource_id not in r_working_intervals:
-                r_working_intervals[ev.resource_id] = []
             for interval in ev.worked_intervals:
                 r_working_intervals[ev.resource_id].append(interval)
 
-- 
2.43.0


From 8c4a02e8c215bb5db5950e6109ee3a99e199a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 34/57] fix: available time with fuzzy calendars ignored when
 the longest task of a parallel batch ends

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index f0f6a51..037ecda 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -305,7 +305,6 @@ def compute_fuzzy_availability(bpm_env):
 
         available_time = f_calendar.estimate_available_time(started_at, r_working_intervals[r_id][0].start)
         available_time += r_working_intervals[r_id][0].duration
-        available_time += f_calendar.estimate_available_time(r_working_intervals[r_id][i_len - 1].end, completed_at)
 
         last_date = r_working_intervals[r_id][0].end
         for i in range(1, i_len):
@@ -322,6 +321,7 @@ def compute_fuzzy_availability(bpm_env):
                 worked_time += c_interval.duration
                 available_time += c_interval.duration
             last_date = c_interval.end
+        available_time += f_calendar.estimate_available_time(last_date, completed_at)
         cumulative_worked_time[r_id] = worked_time
         cumulative_available_time[r_id] = available_time
         bpm_env.sim_resources[r_id].available_time = available_time
-- 
2.43.0


From d69ab2d1759047ff7fb4fd845d42e04424be8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 35/57] fix: branches were continued after a terminate end
 event reached at the same moment

---
 prosimos/control_flow_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 418cdc6..22eddc5 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -349,6 +349,8 @@ class BPMNGraph:
                 """ Terminate End Event detected"""
                 p_state.remove_all_tokens_on_terminate()
                 self._remove_case_from_waiting_batches(case_id)
+                # the elements of other branches reached at the same moment are not executed anymore
+                del to_execute[current + 1:]
             else:
                 for in_flow in e_info.incoming_flows:
                     if p_state.tokens[in_flow] > 0:
-- 
2.43.0


From 979dab4960f6c28ecbc006b58463eaccde354a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 36/57] fix: the waiting time was ignored by rules on both the
 waiting time and the size of a batch

---
 prosimos/batch_processing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 1574cae..10a2e8f 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -691,6 +691,7 @@ class AndFiringRule():
         enabled_time = initial_curr_enabled_at
 
         batch_size, enabled_time = self.get_firing_batch_size_ready_and_large(element, batch_size, enabled_time)
+        waiting_rules_time = enabled_time if self._has_rule([RULE_TYPE.READY_WT, RULE_TYPE.LARGE_WT]) else None
 
         is_time_forced = False
 
@@ -717,8 +718,10 @@ class AndFiringRule():
                 
                 # check whether enabled_time was forced by some prev rule (e.g., daily_hour > 15)
                 # use that previous time in case it additionally satisfies the size rule
-                # otherwise, use the datetime when the batched task was enabled
-                enabled_time = enabled_time if is_time_forced else element["curr_enabled_at"]
+                # otherwise, use the datetime when the batched task was enabled,
+                # unless the waiting time rules are not satisfied before some later moment
+                if not is_time_forced:
+                    enabled_time = max(element["curr_enabled_at"], waiting_rules_time or element["curr_enabled_at"])
                 
                 # initial_batch_size = batch_size
                 # if previously batch_size satisfy the size rule - return it
-- 
2.43.0


From 48f09d83ed0a6c843c814c6d254a321f10b9c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 37/57] fix: batches at the end of a simulation were fired
 before the time of their ready_wt rule

---
 prosimos/batch_processing.py     | 7 +++++++
 prosimos/control_flow_manager.py | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 10a2e8f..5ea3b2c 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -574,6 +574,13 @@ class AndFiringRule():
             return None
         else:
             _, en_time = wt_res
+            if en_time == None and rule_type == RULE_TYPE.READY_WT:
+                # nobody waited for long enough yet, this will enable the batch in the future
+                low_boundary, high_boundary = self.ready_wt_boundaries
+                last_item = draft_element["enabled_datetimes"][-1]
+                return _get_enabled_time_for_wt_rule(last_item, operator.gt, high_boundary) if draft_element["size"] == 1 \
+                    else _get_enabled_time_for_wt_rule(last_item, operator.ge, low_boundary)
+
             return en_time
 
     def is_size_one(self):
diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 22eddc5..0a098b4 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1117,9 +1117,9 @@ class BPMNGraph:
         all_keys = list(waiting_tasks.keys())
 
         first_key = all_keys[0]
-        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).seconds
+        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).total_seconds()
 
         last_key = all_keys[-1]
-        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).seconds
+        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).total_seconds()
 
         return self.batch_info[task_id].firing_rules.is_invalid_end(num_tasks_wait_batch, first_wt, last_wt)
-- 
2.43.0


From e0613e159745ba589c106d7733c972298ad760c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 38/57] fix: batches at the end of a simulation were fired on
 the right weekday, but after the hour of their rule

---
 prosimos/batch_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 5ea3b2c..872a846 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -817,6 +817,9 @@ class AndFiringRule():
                         en_time.time(),
                         en_time.tzinfo
                     )
+                    if subrule.operator == "=" and en_time < last_task_enabled_time.datetime:
+                        # this hour of the day is over, the next one is in a week
+                        en_time += timedelta(days=7)
                 expected_enabled_time.append(en_time)
             elif subrule.variable1 == "large_wt":
                 # was calculated previously
-- 
2.43.0


From 0130c98af3394d8a343190c072b47ba6be90ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 39/57] fix: the first key of the size distribution was taken
 as the probability of executing a batched task alone

---
 prosimos/batch_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 872a846..f650a7f 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -1008,7 +1008,7 @@ class BatchConfigPerTask():
         else:
             # redefine the probabilities
             # to be used to get the probabiity of batch to be executed alone
-            prob_for_one = self.probabilities[0]
+            prob_for_one = dict(zip(self.possible_options, self.probabilities)).get(1, 0)
             other_than_one_prob = 1 - prob_for_one
             
             self.possible_options = [1,2]
-- 
2.43.0


From 80ea55a6ea1e974c8fea2e3a58e8b814755b7ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 40/57] fix: an expired batch rule fired tasks that were
 enabled only later

---
 prosimos/batch_processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index f650a7f..1cd488d 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -921,8 +921,9 @@ class OrFiringRule():
             if rule.is_invalid(first_wt):
                 # in case rule is invalid,
                 # we trigger the batch execution straight away with all tasks waiting for the batch exec
-                # and "current" moment of time we have
-                return True, [spec["size"]], spec["curr_enabled_at"]
+                # at the "current" moment of time we have (those enabled later are not waiting yet)
+                batch_size = sum(enabled_at <= spec["curr_enabled_at"] for enabled_at in spec["enabled_datetimes"])
+                return True, [batch_size], spec["curr_enabled_at"]
         
         return is_batched_task_enabled, None, None
 
-- 
2.43.0


From 1e0e30f40940398eeed58bf820dd09042914ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 41/57] fix: the discovered arrival calendar could not be
 simulated

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 17eaf91..164feac 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -469,7 +469,7 @@ def preprocess_xes_log(
     # # (2) Discovering Arrival Time Calendar
     arrival_calendar = discover_arrival_calendar(initial_events, 60, 0.1, 1.0)
     # arrival_calendar = discover_arrival_calendar(initial_events, minutes_x_granule, min_confidence, min_support)
-    json_arrival_calendar = arrival_calendar.to_dict()
+    json_arrival_calendar = arrival_calendar.intervals_to_json()
 
     # # (3) Discovering Arrival Time Distribution
     arrival_time_dist = discover_arrival_time_distribution(initial_events, arrival_calendar, use_observed_arrival_times)
-- 
2.43.0


From 91a2c89feb3135c37f16d0eb1ae221d57093ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 42/57] fix: observed arrival times could not be used when most
 of the times between cases are equal

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 164feac..66c4cc1 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -958,7 +958,7 @@ def _reject_outliers(data, m=5.0):
     data = np.asarray(data)
     d = np.abs(data - np.median(data))
     mdev = np.median(d)
-    s = d / mdev if mdev else 0.0
+    s = d / mdev if mdev else np.zeros_like(d)
     return data[s < m]
 
 
-- 
2.43.0


From 0f8b420af5d22634bfece6f6247237e38258a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 43/57] fix: of several rules on the size of a batch, only one
 was applied

---
 prosimos/batch_processing.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 1cd488d..8660fcd 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -692,6 +692,19 @@ class AndFiringRule():
 
         return batch_size, enabled_time
 
+    def _get_batch_size_by_size(self, current_batch_size):
+        " Size of the batch fulfilling all the size rules, e.g., both limits of a range; 0 if there is none "
+        batch_size = current_batch_size
+        for rule in self.rules:
+            if rule.is_batch_size() and rule.operator in ['<', '<=', '=']:
+                batch_size = min(batch_size, rule.value2 - 1 if rule.operator == '<' else rule.value2)
+
+        return batch_size if self._is_size_allowed(batch_size) else 0
+
+    def _is_size_allowed(self, batch_size):
+        return all(_get_operator_symbols_eq(rule.operator)(batch_size, rule.value2)
+                   for rule in self.rules if rule.is_batch_size())
+
     def get_firing_batch_size(self, current_batch_size, element):
         batch_size = sys.maxsize
         initial_curr_enabled_at = element["curr_enabled_at"]
@@ -706,23 +719,12 @@ class AndFiringRule():
             curr_size = 0
 
             if subrule.is_batch_size():
-                value2 = subrule.value2
-                switcher = {
-                    '<': min(current_batch_size, value2 - 1),
-                    '<=': min(current_batch_size, value2),
-                    '=': value2 if current_batch_size >= value2 else 0,
-                    '>': current_batch_size if current_batch_size > value2 else 0,
-                    '>=': current_batch_size if current_batch_size >= value2 else 0
-                }
-
-                batch_size_rule = switcher.get(subrule.operator)
+                batch_size_rule = self._get_batch_size_by_size(current_batch_size)
                 
                 if batch_size == 0 or batch_size_rule == 0:
                     batch_size = 0
                     break
                 
-                rule_operator: operator = _get_operator_symbols_eq(subrule.operator)
-                
                 # check whether enabled_time was forced by some prev rule (e.g., daily_hour > 15)
                 # use that previous time in case it additionally satisfies the size rule
                 # otherwise, use the datetime when the batched task was enabled,
@@ -734,7 +736,7 @@ class AndFiringRule():
                 # if previously batch_size satisfy the size rule - return it
                 # if not - return the one we've just calculated with the size rule limitations
                 is_size_defined = batch_size != sys.maxsize
-                batch_size = batch_size if is_size_defined and rule_operator(batch_size, value2) else batch_size_rule
+                batch_size = batch_size if is_size_defined and self._is_size_allowed(batch_size) else batch_size_rule
                 
                 if batch_size > current_batch_size or \
                     enabled_time > initial_curr_enabled_at:
-- 
2.43.0


From e2b7d25dbf948d3ff7d13fbfd6152a8519c9a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 44/57] fix: the parts of a batch rule on hours depended on
 their order, and a range on a week day was left on another day

---
 prosimos/batch_processing.py        |  9 +++++++--
 prosimos/batch_processing_parser.py | 27 ++++++++++++---------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 8660fcd..9d5f1b5 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -812,6 +812,10 @@ class AndFiringRule():
                 expected_enabled_time.append(en_time)
                 week_day_date = en_time.date()
             elif subrule.variable1 == "daily_hour":
+                if subrule.operator in ["<", "<="] and self.daily_hour_range[0] != time(0, 0, 0):
+                    # the end of a range of hours, the batch is enabled at its beginning
+                    continue
+
                 en_time = subrule._get_min_enabled_time_daily_hour(last_task_enabled_time)
                 if week_day_date != None:
                     en_time = datetime.combine(
@@ -819,8 +823,9 @@ class AndFiringRule():
                         en_time.time(),
                         en_time.tzinfo
                     )
-                    if subrule.operator == "=" and en_time < last_task_enabled_time.datetime:
-                        # this hour of the day is over, the next one is in a week
+                    end_time = datetime.combine(week_day_date, self.daily_hour_range[1], en_time.tzinfo)
+                    if end_time < last_task_enabled_time.datetime:
+                        # these hours of the day are over, the next ones are in a week
                         en_time += timedelta(days=7)
                 expected_enabled_time.append(en_time)
             elif subrule.variable1 == "large_wt":
diff --git a/prosimos/batch_processing_parser.py b/prosimos/batch_processing_parser.py
index b2e7bce..01cbdbf 100644
--- a/prosimos/batch_processing_parser.py
+++ b/prosimos/batch_processing_parser.py
@@ -112,22 +112,19 @@ class BatchProcessingParser:
     def _move_size_to_end(list: List[FiringSubRule]):
         """
         Re-order the elements inside list so that:
-            1) size rule is the last one in the sequence
-            2) week_day rule is the second item from the end
+            1) size rules are the last ones in the sequence
+            2) daily_hour rule is the next before them; of a range of hours this is its beginning,
+               the time the batch is fired, and its end is the first one in the sequence
         """
 
-        BatchProcessingParser._move_to_end("daily_hour", list)
-        BatchProcessingParser._move_to_end("size", list)
+        hours = [item for item in list if item.variable1 == "daily_hour"]
+        firing_hour = next((item for item in hours if item.operator not in ["<", "<="]), hours[0] if hours else None)
 
-    @staticmethod
-    def _move_to_end(rule_name: str, list):
-        rule_index = next(
-            (i for i, item in enumerate(list) if item.variable1 == rule_name), -1
-        )
-        last_index = len(list) - 1
-
-        if rule_index == -1:
-            # size rule is not on the list of all rules
-            return
+        def position(item):
+            if item.variable1 == "size":
+                return 3
+            if item.variable1 == "daily_hour":
+                return 2 if item is firing_hour else 0
+            return 1
 
-        list.insert(last_index, list.pop(rule_index))
+        list.sort(key=position)
-- 
2.43.0


From 929e9305e372e4aec82438b35fcdd5688564e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 45/57] fix: with given arrival times, the end of the log and
 the statistics were not written

---
 prosimos/simulation_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 873d601..95aa759 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -795,9 +795,9 @@ def run_simulation(
 def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting_times=None):
     bpm_env = SimBPMEnv(diffsim_info, stat_fwriter, log_fwriter)
     execute_full_process(bpm_env, fixed_starting_times)
-    if fixed_starting_times is not None:
-        return bpm_env
     if log_fwriter is None and stat_fwriter is None:
+        if fixed_starting_times is not None:
+            return bpm_env
         return bpm_env.log_info.compute_process_kpi(bpm_env), bpm_env.log_info
     if log_fwriter:
         bpm_env.log_writer.force_write()
@@ -806,7 +806,7 @@ def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting
 
     warning_logger.add_warnings(bpm_env.sim_setup.bpmn_graph.simulation_execution_stats.find_issues())
 
-    return None
+    return None if fixed_starting_times is None else bpm_env
 
 
 def verify_miliseconds(array):
-- 
2.43.0


From b79d0dbf67934f97b4aabee0aa83ba2daa7e4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 46/57] fix: an intermediate event with several incoming flows
 waited for all of them

---
 prosimos/simulation_properties_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index d502283..10283b7 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -455,12 +455,12 @@ def parse_simulation_model(bpmn_path):
                 elements_map[flow_arc.attrib["targetRef"]]["in"] += 1
             # bpmn_graph.add_flow_arc(flow_arc.attrib["id"], flow_arc.attrib["sourceRef"], flow_arc.attrib["targetRef"])
 
-        # Adding fake gateways for tasks with multiple incoming/outgoing flow arcs
+        # Adding fake gateways for tasks and intermediate events with multiple incoming/outgoing flow arcs
         join_gateways = dict()
         split_gateways = dict()
         for t_id in elements_map:
             e_info = elements_map[t_id]["info"]
-            if e_info.type is BPMN.TASK:
+            if e_info.type in [BPMN.TASK, BPMN.INTERMEDIATE_EVENT]:
                 if elements_map[t_id]["in"] > 1:
                     _add_fake_gateway(
                         bpmn_graph,
-- 
2.43.0


From 934f052c983ed96696e004c6a078057f52a2e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 47/57] fix: the intervals of a calendar read around midnight
 lie on the same day

---
 prosimos/simulation_properties_parser.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index 10283b7..feb9968 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -3,6 +3,7 @@ import json
 import pprint
 import xml.etree.ElementTree as ET
 
+import pandas as pd
 from dateutil import parser
 from numpy import exp, log, sqrt
 from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar
@@ -253,10 +254,23 @@ def parse_arrival_calendar(json_data):
     if ARRIVAL_TIME_CALENDAR in json_data:
         arrival_calendar = RCalendar("arrival_time_calendar")
         for c_item in json_data[ARRIVAL_TIME_CALENDAR]:
-            arrival_calendar.add_calendar_item(c_item["from"], c_item["to"], c_item["beginTime"], c_item["endTime"])
+            arrival_calendar.add_calendar_item(
+                c_item["from"], c_item["to"], to_reference_day(c_item["beginTime"]), to_reference_day(c_item["endTime"])
+            )
     return arrival_calendar
 
 
+def to_reference_day(day_time):
+    """
+    Calendars compare the moments of their intervals. Without a date, the time would be completed with the date
+    at which it is read, so that intervals read before and after midnight would lie on different days.
+    """
+    try:
+        return pd.Timestamp(day_time).replace(year=2000, month=1, day=1)
+    except (ValueError, TypeError):
+        return day_time
+
+
 def parse_resource_profiles(json_data):
     resources_map = dict()
     resource_pool = dict()
@@ -280,7 +294,9 @@ def parse_resource_calendars(json_data):
     for c_info in json_data:
         r_calendar = RCalendar(c_info["id"])
         for c_item in c_info["time_periods"]:
-            r_calendar.add_calendar_item(c_item["from"], c_item["to"], c_item["beginTime"], c_item["endTime"])
+            r_calendar.add_calendar_item(
+                c_item["from"], c_item["to"], to_reference_day(c_item["beginTime"]), to_reference_day(c_item["endTime"])
+            )
         r_calendar.compute_cumulative_durations()
         calendars_info[r_calendar.calendar_id] = r_calendar
     return calendars_info
-- 
2.43.0


From 19c830900eda4de3b9decf70f7cc149b48ae2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 48/57] fix: discovered calendars do not depend on the day of
 discovery, nor durations fitted to them

---
 bpdfr_discovery/log_parser.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 66c4cc1..eb57dc2 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -16,11 +16,25 @@ from prosimos.control_flow_manager import BPMN, BPMNGraph
 from prosimos.exceptions import InvalidBpmnModelException, InvalidLogFileException
 from prosimos.execution_info import TaskEvent, Trace
 from prosimos.file_manager import FileManager
-from prosimos.simulation_properties_parser import parse_simulation_model
+from prosimos.simulation_properties_parser import parse_simulation_model, to_reference_day
 
 print_info = False
 
 
+class ReferenceDayCalendarFactory(CalendarFactory):
+    """Builds calendars all the intervals of which lie on the same day."""
+
+    class _Target:
+        def __init__(self, calendar):
+            self.calendar = calendar
+
+        def add_calendar_item(self, from_day, to_day, begin_time, end_time):
+            self.calendar.add_calendar_item(from_day, to_day, to_reference_day(begin_time), to_reference_day(end_time))
+
+    def _add_calendar_item(self, week_day, g_index, r_calendar):
+        super()._add_calendar_item(week_day, g_index, self._Target(r_calendar))
+
+
 def event_list_from_xes_log(log_path):
     from pm4py.objects.log.importer.xes import importer as xes_importer
 
@@ -328,7 +342,7 @@ def preprocess_xes_log(
         log_path, bpmn_path, minutes_x_granule, min_confidence, min_support, min_participation, is_csv
     )
 
-    calendar_factory = CalendarFactory(minutes_x_granule)
+    calendar_factory = ReferenceDayCalendarFactory(minutes_x_granule)
     completed_events = list()
     total_traces = 0
 
@@ -882,13 +896,15 @@ def _create_resource_profile_entry(r_id, r_name, amount=1, cost_per_hour=1):
 
 def build_default_calendar(r_name):
     r_calendar = RCalendar("%s_Default" % r_name)
-    r_calendar.add_calendar_item("MONDAY", "SUNDAY", "00:00:00.000" "", "23:59:59.999")
+    r_calendar.add_calendar_item(
+        "MONDAY", "SUNDAY", to_reference_day("00:00:00.000"), to_reference_day("23:59:59.999")
+    )
     return r_calendar
 
 
 def discover_arrival_calendar(initial_events, minutes_x_granule, min_confidence, min_support):
     # print("Discovering Arrival Calendar ...")
-    arrival_calendar_factory = CalendarFactory(minutes_x_granule)
+    arrival_calendar_factory = ReferenceDayCalendarFactory(minutes_x_granule)
     for case_id in initial_events:
         arrival_calendar_factory.check_date_time("arrival", "arrival", initial_events[case_id])
     arrival_calendar = arrival_calendar_factory.build_weekly_calendars(min_confidence, min_support, 0.9)
-- 
2.43.0


From 55305fb05aeb8bfab94eccba7b561ba38ef06ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 49/57] fix: a case can be replayed on a process in which an
 activity has no outgoing flow

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 0a098b4..6917c4f 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -564,7 +564,8 @@ class BPMNGraph:
 
             if el_id is None:  # NOTE: skipping if no such element in self.from_name
                 continue
-            p_state.add_token(self.element_info[el_id].outgoing_flows[0])
+            if self.element_info[el_id].outgoing_flows:
+                p_state.add_token(self.element_info[el_id].outgoing_flows[0])
             if current_index in pending_tasks:
                 for pending_index in pending_tasks[current_index]:
                     self.try_firing(pending_index, current_index, task_sequence, fired_tasks, pending_tasks,
-- 
2.43.0


From 8003adabf6a8981e1bf5f69737eb9682f739acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 50/57] fix: a case without any activity of the process is not
 discovered as one arriving in the year 9999

---
 bpdfr_discovery/log_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index eb57dc2..b1961e8 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -366,7 +366,6 @@ def preprocess_xes_log(
         total_traces += 1
         started_events = dict()
         trace_info = Trace(caseid)
-        initial_events[caseid] = datetime(9999, 12, 31, tzinfo=pytz.UTC)
         for event in trace:
             total_events += 1
             if is_trace_event_start_or_end(event, bpmn_graph):
@@ -386,7 +385,7 @@ def preprocess_xes_log(
                 min_date = timestamp
             min_date = min(min_date, timestamp)
 
-            initial_events[caseid] = min(initial_events[caseid], timestamp)
+            initial_events[caseid] = min(initial_events.get(caseid, timestamp), timestamp)
 
             if resource not in resource_freq:
                 resource_cases[resource] = set()
-- 
2.43.0


From bd6250e71c2ff1761cef43a0b4ca5854333513f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 51/57] fix: replayed, an activity after a parallel join is
 enabled by the branch that completes last

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 6917c4f..8cff99f 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -807,7 +807,8 @@ class BPMNGraph:
             e_info = suc_queue.popleft()
             for out_flow in e_info.outgoing_flows:
                 next_info = self._get_successor(out_flow)
-                p_state.flow_date[out_flow] = last_date
+                # branches of a parallel block may complete in another order than they started
+                p_state.flow_date[out_flow] = max(last_date, p_state.flow_date.get(out_flow, last_date))
                 if next_info.is_gateway() and next_info.id not in visited_elements:
                     suc_queue.append(next_info)
                     visited_elements.add(next_info.id)
-- 
2.43.0


From f35dd0e4e0e0ed5ed24952e0552715ac845a1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 52/57] fix: replay loses a parallel branch that passes
 silently when another does so at the same distance

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 8cff99f..0e019c5 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -705,7 +705,8 @@ class BPMNGraph:
                             c_min, closer_pred, or_f, temp_path = d, e_p, o_f, t_path
 
                 for e_id in closer_pred:
-                    enabled_pred[e_id] = closer_pred[e_id]
+                    # another parallel branch may have an enabled element at the same distance
+                    enabled_pred[e_id] = enabled_pred.get(e_id, []) + closer_pred[e_id]
                 for e_id in temp_path:
                     path_split[e_id] = temp_path[e_id]
                 for e_id in or_f:
-- 
2.43.0


From bc1c5d37ed135d18ec5a4781d74a317e84660653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 53/57] fix: parallel branches that all pass silently can be
 replayed

---
 prosimos/control_flow_manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 0e019c5..9d55b64 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -690,7 +690,7 @@ class BPMNGraph:
                     break
         if e_info.type in [BPMN.INCLUSIVE_GATEWAY, BPMN.EXCLUSIVE_GATEWAY]:
             path_split[e_info.id] = flow_id
-        visited.add(e_info.id)
+        visited[e_info.id] = sys.maxsize
         if e_info.is_gateway():
             if e_info.type is BPMN.EXCLUSIVE_GATEWAY and e_info.is_join():
                 closer_pred, temp_path, or_f = dict(), dict(), dict()
@@ -701,7 +701,7 @@ class BPMNGraph:
                         d, e_p, o_f, t_path = self.closer_enabled_predecessors(pr_info, in_flow, dict(), dict(), dict(),
                                                                                visited, p_state, dist + 1, min_dist)
 
-                        if d < c_min or (BPMNGraph._has_start_event(closer_pred) and d != sys.maxsize):
+                        if d < c_min or (BPMNGraph._has_start_event(closer_pred) and (e_p or o_f)):
                             c_min, closer_pred, or_f, temp_path = d, e_p, o_f, t_path
 
                 for e_id in closer_pred:
@@ -711,6 +711,7 @@ class BPMNGraph:
                     path_split[e_id] = temp_path[e_id]
                 for e_id in or_f:
                     or_firing[e_id] = dist
+                visited[e_info.id] = c_min
                 return c_min, enabled_pred, or_firing, path_split
             else:
                 c_min = dist if e_info.id in or_firing else sys.maxsize
@@ -720,7 +721,11 @@ class BPMNGraph:
                         res = self.closer_enabled_predecessors(pred_info, in_flow, enabled_pred, or_firing, path_split,
                                                                visited, p_state, dist + 1, min_dist)
                         c_min = min(res[0], c_min)
+                    elif pred_info.id in visited:
+                        # already reached through another parallel branch
+                        c_min = min(visited[pred_info.id], c_min)
 
+                visited[e_info.id] = c_min
                 return c_min, enabled_pred, or_firing, path_split
         return sys.maxsize, enabled_pred, or_firing, path_split
 
@@ -738,7 +743,7 @@ class BPMNGraph:
         pred_info = self._get_predecessor(from_task_info.incoming_flows[0])
         max_dist = [0]
         closer_pred = self.closer_enabled_predecessors(pred_info, from_task_info.incoming_flows[0], dict(),
-                                                       dict(), dict(), set(), p_state, 0,
+                                                       dict(), dict(), dict(), p_state, 0,
                                                        max_dist)
         enabled_pred = deque()
         for i in range(0, max_dist[0] + 1):
-- 
2.43.0


From a552f51d7265abe898bc87b4ab4ec9482f8bf514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 54/57] fix: probabilities of a global attribute need not sum
 to 1 exactly (0.7 + 0.2 + 0.1 do not)

---
 prosimos/global_attributes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/global_attributes.py b/prosimos/global_attributes.py
index 13e1dbc..722dc22 100644
--- a/prosimos/global_attributes.py
+++ b/prosimos/global_attributes.py
@@ -52,10 +52,12 @@ class GlobalAttribute:
             return self.value.generate_sample(1)[0]
 
     def validate(self):
+        epsilon = 1e-6
+
         if self.global_attr_type == GLOBAL_ATTR_TYPE.DISCRETE:
             actual_sum_probabilities = reduce(lambda acc, item: acc + item, self.value["probabilities"], 0)
 
-            if actual_sum_probabilities != 1:
+            if not (1 - epsilon <= actual_sum_probabilities <= 1 + epsilon):
                 raise InvalidGlobalAttributeException(
                     f"Global attribute ${self.name}: probabilities' sum should be equal to 1")
 
-- 
2.43.0


From 73b7460715daca353e14bb462ba768d894371bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 55/57] fix: a moment that cannot be read fails with a message
 naming it

---
 prosimos/simulation_properties_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index feb9968..ff1d3f8 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -753,7 +753,7 @@ def parse_datetime(time, has_date):
                 return datetime.datetime.strptime(time, time_format)
             except ValueError:
                 pass
-    raise ValueError
+    raise ValueError(f"{time!r} is not a date and time")
 
 
 def add_default_flows(gateway_conditions, bpmn_path):
-- 
2.43.0


From 4a89dcd98d166251e437d71a9efc881898c92495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 56/57] fix: elements of a process were spoiled by another
 process (pool) after it in the same file

---
 prosimos/simulation_properties_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index ff1d3f8..883522a 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -441,8 +441,8 @@ def parse_simulation_model(bpmn_path):
     }
 
     bpmn_graph = BPMNGraph()
-    elements_map = dict()
     for process in root.findall("xmlns:process", bpmn_element_ns):
+        elements_map = dict()
         for xmlns_key in to_extract:
             for bpmn_element in process.findall(xmlns_key, bpmn_element_ns):
                 name = (
-- 
2.43.0


From dbab255fb2ee1ee7e81b56a38199cee275b34328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 57/57] fix: attributes of an activity given in several entries
 were lost but those of the last one

---
 prosimos/event_attributes_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/event_attributes_parser.py b/prosimos/event_attributes_parser.py
index ef8747a..a91d6ac 100644
--- a/prosimos/event_attributes_parser.py
+++ b/prosimos/event_attributes_parser.py
@@ -9,7 +9,7 @@ class EventAttributesParser:
         event_attributes = {}
         for curr_event_attr in self.data:
             event_id = curr_event_attr["event_id"]
-            event_attributes[event_id] = {}
+            event_attributes.setdefault(event_id, {})
             for attr in curr_event_attr["attributes"]:
                 event_attr = EventAttribute(
                     event_id,
-- 
2.43.0

