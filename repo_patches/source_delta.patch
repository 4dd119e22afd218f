From 9fef674cb334b002cf4019be76df336c3924c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 01/35] fix: keep recorded order of events with equal
 timestamps when sorting a trace

---
 pipit/readers/otf2_reader.py        | 7 ++++++-
 pipit/readers/projections_reader.py | 7 ++++++-
 pipit/trace.py                      | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b685c3a..610a2dc 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -472,7 +472,12 @@ class OTF2Reader:
 
         # ensures the DataFrame is in order of increasing timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # convert these to ints
diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0a2044c..dbaf5d5 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -301,7 +301,12 @@ class ProjectionsReader:
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
         trace_df.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # categorical for memory savings
diff --git a/pipit/trace.py b/pipit/trace.py
index fcc9f75..a2c78da 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -91,7 +91,12 @@ class Trace:
 
         # sort the dataframe by Timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         return Trace(None, events_dataframe)
-- 
2.43.0


From 1160647afb89e382493d28855492edb5a9c03697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 02/35] fix: raise an error instead of hanging when a loading
 worker dies, and always release the pool

---
 pipit/readers/otf2_reader.py        | 20 ++++++++++++--------
 pipit/readers/projections_reader.py | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 610a2dc..dcc58fb 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -7,6 +7,7 @@ import otf2
 import numpy as np
 import pandas as pd
 import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
 import pipit.trace
 
 
@@ -442,14 +443,17 @@ class OTF2Reader:
 
         # parallelizes the reading of events
         # using the multiprocessing library
-        pool_size, pool = self.num_processes, mp.Pool(self.num_processes)
-
-        # list of dataframes returned by the processes pool
-        events_dataframes = pool.map(
-            self.events_reader, [(rank, pool_size) for rank in range(pool_size)]
-        )
-
-        pool.close()
+        # (unlike mp.Pool, this raises an error if a worker dies
+        # instead of waiting for its result forever)
+        pool_size = self.num_processes
+
+        with ProcessPoolExecutor(max_workers=pool_size) as pool:
+            # list of dataframes returned by the processes pool
+            events_dataframes = list(
+                pool.map(
+                    self.events_reader, [(rank, pool_size) for rank in range(pool_size)]
+                )
+            )
 
         # merges the dataframe into one events dataframe
         events_dataframe = pd.concat(events_dataframes)
diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index dbaf5d5..306b318 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -8,6 +8,7 @@ import gzip
 import pipit.trace
 import pandas as pd
 import multiprocessing as mp
+from concurrent.futures import ProcessPoolExecutor
 
 
 class ProjectionsConstants:
@@ -289,14 +290,17 @@ class ProjectionsReader:
         if self.num_processes > self.num_pes:
             self.num_processes = self.num_pes
 
-        pool_size, pool = self.num_processes, mp.Pool(self.num_processes)
+        pool_size = self.num_processes
 
-        # Read each log file and store as list of dataframes
-        dataframes_list = pool.map(
-            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
-        )
-
-        pool.close()
+        # (unlike mp.Pool, this raises an error if a worker dies
+        # instead of waiting for its result forever)
+        with ProcessPoolExecutor(max_workers=pool_size) as pool:
+            # Read each log file and store as list of dataframes
+            dataframes_list = list(
+                pool.map(
+                    self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
+                )
+            )
 
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
-- 
2.43.0


From 261c687e7c7288c1f6cfa8505f97f7757b260936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 03/35] fix: close the computation of a crashed Projections PE
 at its last recorded time, exactly once

---
 pipit/readers/projections_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 306b318..d0a0afe 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -353,6 +353,9 @@ class ProjectionsReader:
             # create an empty dict to append to
             data = self._create_empty_dict()
 
+            # whether this PE's log has been closed by END_COMPUTATION
+            computation_ended = False
+
             # opening the log file we need to read
             log_file = gzip.open(
                 self.executable_location + "." + str(pe_num) + ".log.gz", "rt"
@@ -699,6 +702,7 @@ class ProjectionsReader:
 
                 elif int(line_arr[0]) == ProjectionsConstants.END_COMPUTATION:
                     time = int(line_arr[1]) * 1000
+                    computation_ended = True
 
                     _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
@@ -799,8 +803,9 @@ class ProjectionsReader:
                     )
 
             # Making sure that the log file ends with END_COMPUTATION
-            if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1] * 1000
+            # (timestamps have already been converted to nanoseconds)
+            if len(data["Name"]) > 0 and not computation_ended:
+                time = max(data["Timestamp (ns)"])
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From efe9f615f9ab9f5ce19a86ffcc27ef5e59a56c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 04/35] fix: decode Projections notes, multicasts, user event
 pairs and non-array ids correctly

---
 pipit/readers/projections_reader.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index d0a0afe..3117680 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -111,7 +111,9 @@ class STSReader:
 
     # To get the dimension of an entry
     def get_dimension(self, entry_id):
-        return self.chares[self.entries[entry_id][1]][1]
+        dimension = self.chares[self.entries[entry_id][1]][1]
+        # ids of chares that are not arrays (-1) always have four components
+        return 4 if dimension == -1 else dimension
 
     # Gets the user event name from the user_event_id
     def get_user_event(self, user_event_id):
@@ -428,7 +430,7 @@ class ProjectionsReader:
                     )
 
                 elif int(line_arr[0]) == ProjectionsConstants.USER_SUPPLIED_NOTE:
-                    time = line_arr[1] * 1000
+                    time = int(line_arr[1]) * 1000
                     note = ""
                     for i in range(2, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -444,9 +446,9 @@ class ProjectionsReader:
                     int(line_arr[0])
                     == ProjectionsConstants.USER_SUPPLIED_BRACKETED_NOTE
                 ):
-                    time = line_arr[1] * 1000
-                    end_time = line_arr[2] * 1000
-                    user_event_id = line_arr[3]
+                    time = int(line_arr[1]) * 1000
+                    end_time = int(line_arr[2]) * 1000
+                    user_event_id = int(line_arr[3])
                     note = ""
                     for i in range(4, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -525,7 +527,7 @@ class ProjectionsReader:
                     send_time = int(line_arr[7]) * 1000
                     num_procs = int(line_arr[8])
                     dest_procs = []
-                    for i in (0, num_procs):
+                    for i in range(num_procs):
                         dest_procs.append(int(line_arr[9 + i]))
 
                     details = {
@@ -544,7 +546,7 @@ class ProjectionsReader:
                         "Instant",
                         time,
                         pe_num,
-                        "To " + str(num_procs) + "processors",
+                        details,
                     )
 
                 # Processing of chare (i.e. execution) ?
@@ -778,7 +780,7 @@ class ProjectionsReader:
                     }
 
                     _add_to_trace_dict(
-                        "User Event Pair", "Leave", time, pe_num, details
+                        data, "User Event Pair", "Leave", time, pe_num, details
                     )
 
                 # User stat (in code)
-- 
2.43.0


From c69257ea604b19fbc48f9126803e9fd7ccd5dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 05/35] fix: idle_time must not modify the list of idle
 functions passed to it or its default

---
 pipit/trace.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index a2c78da..f294070 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -623,7 +623,14 @@ class Trace:
             self.calc_inc_metrics()
 
         if mpi_events:
-            idle_functions += ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
+            # make a new list in order to not change the caller's list
+            # (or the default argument)
+            idle_functions = [
+                *idle_functions,
+                "MPI_Wait",
+                "MPI_Waitall",
+                "MPI_Recv",
+            ]
         # filter the dataframe to include only 'Enter' events within the specified
         # process with the specified function names
         df = self.events
-- 
2.43.0


From 078b3e26e8dd24a0fdb76ee86f9a1d80e7871d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 06/35] fix: load_imbalance failed with a TypeError for every
 trace

---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index f294070..700e756 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -574,7 +574,7 @@ class Trace:
         num_ranks = len(set(self.events["Process"]))
         num_display = num_ranks if num_processes > num_ranks else num_processes
 
-        flat_profile = self.flat_profile(metrics=metric, per_process=True)
+        flat_profile = self.flat_profile(metrics=metric, per_process=True)[metric]
 
         imbalance_dict = dict()
 
-- 
2.43.0


From d4eda09509d3b21aabf314a592338d28c8881cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 07/35] fix: order of load_imbalance rows depended on string
 hash randomisation

---
 pipit/trace.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 700e756..dfa82d9 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -586,7 +586,11 @@ class Trace:
         imbalance_dict[imb_ranks] = []
         imbalance_dict[mean_metric] = []
 
-        functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
+        functions = (
+            self.events.loc[self.events["Event Type"] == "Enter"]["Name"]
+            .unique()
+            .tolist()
+        )
         for function in functions:
             curr_series = flat_profile.loc[function]
 
@@ -598,7 +602,9 @@ class Trace:
 
         imbalance_df = pd.DataFrame(imbalance_dict)
         imbalance_df.index = functions
-        imbalance_df.sort_values(by=mean_metric, axis=0, inplace=True, ascending=False)
+        imbalance_df.sort_values(
+            by=mean_metric, axis=0, inplace=True, ascending=False, kind="stable"
+        )
 
         return imbalance_df
 
-- 
2.43.0


From cc61dcd9554b417d91c6caabff56753587c2bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 08/35] fix: time_profile must account for all threads of a
 process

---
 pipit/trace.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index dfa82d9..98b1e12 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -677,7 +677,14 @@ class Trace:
         )
         bin_size = edges[1] - edges[0]
 
-        total_bin_duration = bin_size * len(events["Process"].unique())
+        # every location (process, or thread if the trace has threads)
+        # can spend up to the length of the bin in it
+        location_cols = ["Process"]
+        if "Thread" in self.events.columns:
+            location_cols.append("Thread")
+        num_locations = len(self.events[location_cols].drop_duplicates())
+
+        total_bin_duration = bin_size * num_locations
 
         profile = []
 
-- 
2.43.0


From a79c700a3df5c43c1b006a6411771139ec813d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 09/35] fix: comm_matrix failed when some ranks have no
 recorded events

---
 pipit/trace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 98b1e12..19cc321 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -398,10 +398,6 @@ class Trace:
         # (mpi messages are sent between processes)
         ranks = set(self.events["Process"])
 
-        # create a 2d numpy array that will be returned
-        # at the end of the function
-        communication_matrix = np.zeros(shape=(len(ranks), len(ranks)))
-
         # filter the dataframe by MPI Send and Isend events
         sender_dataframe = self.events.loc[
             self.events["Name"].isin(["MpiSend", "MpiIsend"]),
@@ -420,6 +416,12 @@ class Trace:
             .to_list()
         )
 
+        # create a 2d numpy array that will be returned
+        # at the end of the function (it has to have room for the
+        # highest rank, since some ranks may not have any events)
+        num_ranks = max([*ranks, *receiver_ranks], default=-1) + 1
+        communication_matrix = np.zeros(shape=(num_ranks, num_ranks))
+
         # the length of the message_volume list created below
         # is the total number of messages sent
 
-- 
2.43.0


From 88638c2f9de326f1cb17041ed9c85cfb17363630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 10/35] fix: a call must not become the child of a call that
 has already ended

---
 pipit/trace.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 19cc321..7cf67be 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -252,6 +252,7 @@ class Trace:
                 df_indices, event_types = list(filtered_df.index), list(
                     filtered_df["Event Type"]
                 )
+                matching_indices = list(filtered_df["_matching_event"])
 
                 # loop through the events of the filtered dataframe
                 for i in range(len(filtered_df)):
@@ -277,11 +278,16 @@ class Trace:
                         # add enter dataframe index to stack
                         stack.append(curr_df_index)
                     else:
-                        # pop event off stack once matching leave found
+                        # remove event from stack once matching leave found
+                        # (it might not be the top of the stack if records
+                        # are missing from the trace)
                         # Note: parent, and children for a leave row
                         # can be found using the matching index that
                         # corresponds to the enter row
-                        stack.pop()
+                        if stack[-1] == matching_indices[i]:
+                            stack.pop()
+                        else:
+                            stack.remove(matching_indices[i])
 
                         curr_depth -= 1
 
-- 
2.43.0


From 0e68cf2dda15eb321513004a57959b3f2a23130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 11/35] fix: calling context tree merged different call paths
 whose joined names are equal

---
 pipit/util/cct.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b499227..48cfb4e 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -19,6 +19,7 @@ def create_cct(events):
     graph_nodes = [None for i in range(len(events))]
 
     # determines whether a node exists or not
+    # (maps the id of a parent node and a function name to a node)
     callpath_to_node = dict()
 
     node_id = 0  # each node has a unique id
@@ -45,7 +46,7 @@ def create_cct(events):
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
 
-        curr_depth, callpath = 0, ""
+        curr_depth = 0
 
         """
         Iterating over lists instead of
@@ -68,19 +69,31 @@ def create_cct(events):
 
             # encounter a new function through its entry point.
             if evt_type == "Enter":
-                # add the function to the stack and get the call path
+                # add the function to the stack
                 functions_stack.append(function_name)
-                callpath = "->".join(functions_stack)
 
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
 
+                # the call path is identified by the parent's call path and the
+                # function name (names can contain any string, including "->")
+                callpath = (
+                    None if parent_node is None else parent_node._pipit_nid,
+                    function_name,
+                )
+
                 if callpath in callpath_to_node:
                     # don't create new node if callpath is in map
                     curr_node = callpath_to_node[callpath]
                 else:
                     # create new node if callpath isn't in map
-                    curr_node = Node(node_id, parent_node, curr_depth)
+                    # (its level follows from its parent, since calls in the stack
+                    # can overlap if records are missing from the trace)
+                    curr_node = Node(
+                        node_id,
+                        parent_node,
+                        0 if parent_node is None else parent_node.level + 1,
+                    )
                     callpath_to_node[callpath] = curr_node
                     node_id += 1
 
-- 
2.43.0


From 2c3657af913d6e519671ae4b88e89a52a79e47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 12/35] fix: an interrupted analysis must not leave incomplete
 derived columns behind

---
 pipit/trace.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 7cf67be..6628a53 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -190,10 +190,11 @@ class Trace:
                         else:
                             continue
 
-            self.events["_matching_event"] = matching_events
-            self.events["_matching_timestamp"] = matching_times
-
-            self.events = self.events.astype({"_matching_event": "Int32"})
+            # add the columns in a single step, so that an interrupted call
+            # doesn't leave only some of them behind
+            self.events = self.events.assign(
+                _matching_event=matching_events, _matching_timestamp=matching_times
+            ).astype({"_matching_event": "Int32"})
 
     def _match_caller_callee(self):
         """Matches callers (parents) to callees (children) and adds three
@@ -291,15 +292,12 @@ class Trace:
 
                         curr_depth -= 1
 
-            self.events["_depth"], self.events["_parent"], self.events["_children"] = (
-                depth,
-                parent,
-                children,
-            )
-
-            self.events = self.events.astype({"_depth": "Int32", "_parent": "Int32"})
-            self.events = self.events.astype(
-                {"_depth": "category", "_parent": "category"}
+            # add the columns in a single step, so that an interrupted call
+            # doesn't leave only some of them behind
+            self.events = (
+                self.events.assign(_depth=depth, _parent=parent, _children=children)
+                .astype({"_depth": "Int32", "_parent": "Int32"})
+                .astype({"_depth": "category", "_parent": "category"})
             )
 
     def calc_inc_metrics(self, columns=None):
@@ -326,15 +324,17 @@ class Trace:
                 # calculate the inclusive metric by subtracting
                 # the values at the enter rows from the values
                 # at the corresponding leave rows
-                self.events.loc[
-                    (self.events["_matching_event"].notnull())
-                    & (self.events["Event Type"] == "Enter"),
-                    metric_col_name,
-                ] = (
+                inc_values = pd.Series(float("nan"), index=self.events.index)
+                inc_values.loc[enter_df.index] = (
                     self.events[col][enter_df["_matching_event"]].values
                     - enter_df[col].values
                 )
 
+                # only add the complete column, so that an interrupted
+                # call doesn't leave a column without values behind
+                self.events[metric_col_name] = inc_values
+
+            if metric_col_name not in self.inc_metrics:
                 self.inc_metrics.append(metric_col_name)
 
     def calc_exc_metrics(self, columns=None):
@@ -373,6 +373,8 @@ class Trace:
                         exc_values[curr_parent_idx] -= inc_values[child_idx]
 
                 self.events[metric_col_name] = exc_values
+
+            if metric_col_name not in self.exc_metrics:
                 self.exc_metrics.append(metric_col_name)
 
     def comm_matrix(self, output="size"):
-- 
2.43.0


From 792f0fa4ce42581c2ea2a59cc6a2de1897b3c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 13/35] fix: pair OTF2 metric values of all metric classes with
 their events per location

---
 pipit/readers/otf2_reader.py | 55 +++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index dcc58fb..a5a0e2d 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -210,11 +210,18 @@ class OTF2Reader:
                 .map(lambda attr: attr["members"])
                 .values
             )
-            metric_members = [] if len(metric_members) == 0 else metric_members[0]
+            # (a trace can have several metric classes)
+            metric_members = [
+                metric_member for members in metric_members for metric_member in members
+            ]
 
             # ids of metric members
+            # (members are strings such as "MetricMember 12")
             metric_ids = list(
-                map(lambda metric_member: int(metric_member[-1]), metric_members)
+                map(
+                    lambda metric_member: int(metric_member.split(" ")[-1]),
+                    metric_members,
+                )
             )
 
             # names of metrics
@@ -230,9 +237,10 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of time that the
-            # most recent metrics that were read at
-            prev_metric_time = -1
+            # used to keep track of the most recent metrics that were read
+            # at each location, which have not been paired with an event yet
+            # maps a location's id to a tuple of time and metric values by name
+            pending_metrics = dict()
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -255,25 +263,32 @@ class OTF2Reader:
                         )
                         metric_values = event.values
 
-                        # append the values for the metrics
-                        # to their appropriate lists
-                        for i in range(len(metrics)):
-                            metrics_dict[metrics[i]].append(metric_values[i])
-
                         # store the metrics and their timestamp
-                        prev_metric_time = event.time
+                        # (an event can be paired with several metric events)
+                        pending_time, pending_values = pending_metrics.get(
+                            loc._ref, (None, {})
+                        )
+                        if pending_time != event.time:
+                            pending_values = {}
+                        pending_values.update(zip(metrics, metric_values))
+                        pending_metrics[loc._ref] = (event.time, pending_values)
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
-                        # has the same timestamp
-                        if event.time != prev_metric_time:
-                            # if the event is not paired with any metric, then
-                            # add placeholders for all the metric lists
-                            for metric in metric_names:
-                                metrics_dict[metric].append(float("nan"))
-
-                        # reset this as a metric event was not read
-                        prev_metric_time = -1
+                        # has the same timestamp and follows at the same location
+                        pending_time, pending_values = pending_metrics.pop(
+                            loc._ref, (None, {})
+                        )
+                        if pending_time != event.time:
+                            pending_values = {}
+
+                        # append the values for the metrics to their appropriate
+                        # lists, or placeholders if the event is not paired
+                        # with any value for the metric
+                        for metric in metrics_dict:
+                            metrics_dict[metric].append(
+                                pending_values.get(metric, float("nan"))
+                            )
 
                         """
                         Below is code to read the primary information about the
-- 
2.43.0


From 43402115ed3aad42bb057a60b148c0c935ec50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 14/35] fix: OTF2 threads were merged or misnumbered if
 location ids of a process are not contiguous

---
 pipit/readers/otf2_reader.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index a5a0e2d..f978b3f 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -298,11 +298,10 @@ class OTF2Reader:
                         process_id = loc.group._ref
                         process_ids.append(process_id)
 
-                        # subtract the minimum location number of a process
-                        # from the location number to get threads numbered
-                        # 0 to (num_threads per process - 1) for each process.
+                        # threads are numbered 0 to
+                        # (num_threads per process - 1) for each process.
                         thread_ids.append(
-                            loc._ref - self.process_threads_map[process_id]
+                            self.process_threads_map[process_id][loc._ref]
                         )
 
                         # type of event - enter, leave, or other types
@@ -370,9 +369,9 @@ class OTF2Reader:
         DataFrame
         """
 
-        # OTF2 stores locations numbered from 0 to the (total number of threads - 1)
-        # across all processes. This dict will help us convert those to be orderered
-        # from 0 to (number of threads for each process - 1) per process instead.
+        # OTF2 numbers locations across all processes (with any numbers). This dict
+        # will help us convert those to be orderered from 0 to (number of threads for
+        # each process - 1) per process instead.
         self.process_threads_map = dict()
 
         # ids are the _ref attribute of an object
@@ -415,12 +414,10 @@ class OTF2Reader:
                         )
 
                         # each process (location group) will be mapped to its
-                        # minimum location number, which we will use to number threads
-                        # appropriately by subtracting that min from its location nums
-                        if process_num not in self.process_threads_map:
-                            self.process_threads_map[process_num] = location_num
-                        elif location_num < self.process_threads_map[process_num]:
-                            self.process_threads_map[process_num] = location_num
+                        # location numbers, which we will use to number threads
+                        self.process_threads_map.setdefault(process_num, {})[
+                            location_num
+                        ] = None
 
                     if hasattr(def_object, "_ref"):
                         # only add ids for those definitions that have it
@@ -437,6 +434,11 @@ class OTF2Reader:
                     # definitions DataFrame for
                     attributes.append(self.fields_to_dict(def_object))
 
+        # number the threads of each process in order of their location numbers
+        for process_locations in self.process_threads_map.values():
+            for thread_num, location_num in enumerate(sorted(process_locations)):
+                process_locations[location_num] = thread_num
+
         # return the definitions as a DataFrame
         definitions_dataframe = pd.DataFrame(
             {"Definition Type": def_name, "ID": def_id, "Attributes": attributes}
-- 
2.43.0


From 5d75fd24bca7ef784de1308c3cde2023a8151eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 15/35] fix: reading a truncated HPCToolkit database must raise
 an error instead of looping forever

---
 pipit/readers/hpctoolkit_reader.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a6cda33..91364e9 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -4,11 +4,33 @@
 # SPDX-License-Identifier: MIT
 
 
+import os
 import pandas as pd
 import pipit.trace
 from pipit.graph import Graph, Node
 
 
+class DatabaseFile:
+    """
+    File of an HPCToolkit database opened in binary mode. Unlike a regular file,
+    reading past its end (because it is truncated or corrupted) is an error.
+    """
+
+    def __init__(self, file_location):
+        self.file = open(file_location, "rb")
+        self.size = os.fstat(self.file.fileno()).st_size
+        self.seek = self.file.seek
+        self.tell = self.file.tell
+
+    def read(self, num_bytes: int) -> bytes:
+        # (check first, since num_bytes can be huge if the file is corrupted)
+        if num_bytes <= self.size - self.file.tell():
+            data = self.file.read(num_bytes)
+            if len(data) == num_bytes:
+                return data
+        raise EOFError("Unexpected end of file in " + str(self.file.name))
+
+
 class MetaReader:
     # adds new context id and return new nid
     def _add_context_id(self, context_id) -> int:
@@ -18,7 +40,7 @@ class MetaReader:
 
     def __init__(self, file_location):
         # open the file to ready in binary mode (rb)
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
 
         # setting necessary read options
         self.byte_order = "little"
@@ -808,7 +830,7 @@ class ProfileReader:
         self.meta_reader: MetaReader = meta_reader
 
         # open the file to ready in binary mode (rb)
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
 
         # setting necessary read options
         self.byte_order = "little"
@@ -1025,7 +1047,7 @@ class TraceReader:
         self, file_location: str, meta_reader: MetaReader, profile_reader: ProfileReader
     ) -> None:
         # open file
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
         self.meta_reader = meta_reader
         self.profile_reader = profile_reader
 
-- 
2.43.0


From 91e657c5354d58ba9256f9ee222a7f050ae091b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 16/35] fix: HPCToolkit names with non-ASCII characters

---
 pipit/readers/hpctoolkit_reader.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 91364e9..e24253f 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -284,11 +284,15 @@ class MetaReader:
         # So to create a list of these strings, we'll read them all into one string then
         # split them by the null character
 
-        # Reading entire section into a string
-        total_section: str = str(self.file.read(section_size), encoding="UTF-8")
+        # Reading entire section
+        total_section: bytes = self.file.read(section_size)
 
         # Splitting entire section into list of strings
-        self.common_strings: list[str] = total_section.split("\0")
+        # (pointers to strings count bytes, not characters)
+        encoded_strings: list[bytes] = total_section.split(b"\0")
+        self.common_strings: list[str] = [
+            str(encoded_string, encoding="UTF-8") for encoded_string in encoded_strings
+        ]
 
         # Now we are creating a map between the original location to the string
         # to the index of the string in self.common_strings.
@@ -298,7 +302,7 @@ class MetaReader:
         self.common_string_index_map: dict = {}
         for i in range(len(self.common_strings)):
             self.common_string_index_map[pointer_index] = i
-            pointer_index += len(self.common_strings[i]) + 1
+            pointer_index += len(encoded_strings[i]) + 1
 
     def __get_load_modules_index(self, load_module_pointer: int) -> int:
         """
@@ -360,13 +364,13 @@ class MetaReader:
         and ending at the first occurence of the null character
         """
         self.file.seek(file_pointer)
-        name = ""
+        name = b""
         while True:
-            read = str(self.file.read(1), encoding="UTF-8")
-            if read == "\0":
+            read = self.file.read(1)
+            if read == b"\0":
                 break
             name += read
-        return name
+        return str(name, encoding="UTF-8")
 
     def get_identifier_name(self, kind: int):
         """
-- 
2.43.0


From 809d11e85ff2fe072de49f45e71781e6237f69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 17/35] fix: HPCToolkit source line numbers above 65535 were
 cut off

---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index e24253f..39d6665 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -734,7 +734,7 @@ class MetaReader:
                     flex[0:8], byteorder=self.byte_order, signed=self.signed
                 )
                 sub_flex_2 = int.from_bytes(
-                    flex[8:10], byteorder=self.byte_order, signed=self.signed
+                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                 )
                 flex = flex[16:]
                 source_file_index = self.__get_source_file_index(sub_flex_1)
-- 
2.43.0


From ae67a2a7eb3b27c447f74cfe78361a1adc7e695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 18/35] fix: HPCToolkit traces without node identifiers could
 not be loaded

---
 pipit/readers/hpctoolkit_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 39d6665..f96bdd7 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -995,8 +995,8 @@ class ProfileReader:
 
     def __clean_hit(self, tuples_map: dict) -> dict:
         # add None for information not present
-        if "Node" not in tuples_map:
-            tuples_map["Node"] = None
+        if "NODE" not in tuples_map:
+            tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-- 
2.43.0


From 86332b1da1c73c4ad726f64af5ac9312a6526e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 19/35] fix: Nsight traces of a single process had no Process
 column, so that analyses failed

---
 pipit/readers/nsight_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index a956fb8..69fc505 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -45,6 +45,9 @@ class NsightReader:
             # Converting Thread from float to int
             self.df["Thread"] = self.df["Thread"].astype(int)
 
+        # every trace has a Process column (a single process has rank 0)
+        self.df["Process"] = 0
+
         # check if PID set is > 1, if so multiprocess or single process
         if len(pid) > 1:
             # Set Process column to PID
-- 
2.43.0


From 07ac94cb109cf1de459d692a923ae5bd07bb9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 20/35] fix: order Nsight events with equal timestamps such
 that ranges stay nested

---
 pipit/readers/nsight_reader.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index 69fc505..a20e80d 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import numpy as np
 import pandas as pd
 import pipit.trace
 
@@ -69,13 +70,28 @@ class NsightReader:
         df2["Event Type"] = "Leave"
         df2["Timestamp (ns)"] = df2["End (ns)"]
 
+        # Events with the same timestamp have to be ordered such that ranges stay
+        # nested: first leave ranges that started earlier (innermost first), then
+        # enter and leave empty ranges, and finally enter ranges that end later
+        # (outermost first)
+        start, end = self.df["Start (ns)"].values, self.df["End (ns)"].values
+        row, empty = np.arange(len(self.df)), start == end
+        enter_order = [np.where(empty, x, y) for x, y in [(1, 2), (row, -end), (0, row)]]
+        leave_order = [
+            np.where(empty, x, y) for x, y in [(1, 0), (row, -start), (1, -row)]
+        ]
+        tie_order = [np.concatenate(keys) for keys in zip(enter_order, leave_order)]
+
         # Combine dataframes together
         self.df = pd.concat([self.df, df2])
 
         # Tidy Dataframe
         self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
 
-        self.df.sort_values(by="Timestamp (ns)", ascending=True, inplace=True)
+        # (the last key is the primary one)
+        self.df = self.df.iloc[
+            np.lexsort([*reversed(tie_order), self.df["Timestamp (ns)"].values])
+        ]
 
         self.df.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 6d5e0eee63eb7b6649c41044e0b359a3037ce2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 21/35] fix: HPCToolkit traces with unnamed functions could not
 be loaded

---
 pipit/readers/hpctoolkit_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index f96bdd7..98ca79e 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -176,8 +176,11 @@ class MetaReader:
             #                         "load_modules_index": load_module_index, \
             #                         "source_file_index": source_file_index}
 
-            # getting function name
-            function_string = self.common_strings[function["string_index"]]
+            # getting function name (which is optional)
+            if function["string_index"] is not None:
+                function_string = self.common_strings[function["string_index"]]
+            else:
+                function_string = "<unkown function>"
         else:
             # function is unkown
             function_string = "<unkown function>"
-- 
2.43.0


From d62989fc1963b68fcf169f4df61161cdcd8a8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 22/35] fix: reject Projections sts files that have been cut
 off

---
 pipit/readers/projections_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 3117680..4ebf266 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -136,6 +136,8 @@ class STSReader:
         return self.user_events[event_id]
 
     def read_sts_file(self):
+        line_arr = [""]
+
         for line in self.sts_file:
             line_arr = line.split()
 
@@ -223,6 +225,10 @@ class STSReader:
 
         self.sts_file.close()
 
+        # without its last line, the file could have been cut off anywhere
+        if line_arr[0] != "END":
+            raise ValueError("Incomplete sts file - END is missing.")
+
 
 class ProjectionsReader:
     def __init__(
-- 
2.43.0


From 200a267fb0ea505032ede3da9334e49becc48c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 23/35] fix: reject empty Projections log files instead of
 taking them for a PE without events

---
 pipit/readers/projections_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 4ebf266..f900d4c 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -371,6 +371,7 @@ class ProjectionsReader:
 
             # Basing read on projections log reader and log entry viewer
             # Iterated through every line in the file and adds to dict
+            line = None
             for line in log_file:
                 line_arr = line.split()
 
@@ -810,6 +811,10 @@ class ProjectionsReader:
                         data, user_stat_name, "Instant", time, pe_num, details
                     )
 
+            # an intact log file has at least a header
+            if line is None:
+                raise EOFError("Projections log of PE " + str(pe_num) + " is empty.")
+
             # Making sure that the log file ends with END_COMPUTATION
             # (timestamps have already been converted to nanoseconds)
             if len(data["Name"]) > 0 and not computation_ended:
-- 
2.43.0


From a6c9cbd92d2ecc6b11a0277ccc53a52ab4aa019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 24/35] fix: OTF2 timestamps lost precision if one of the
 workers had no events

---
 pipit/readers/otf2_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index f978b3f..9bb2fb7 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -343,9 +343,11 @@ class OTF2Reader:
             trace.close()  # close event files
 
         # returns dataframe with all events and their fields
+        # (the timestamps have to remain exact integers until the global offset
+        # has been subtracted, also if there are no events in this subset)
         trace_df = pd.DataFrame(
             {
-                "Timestamp (ns)": timestamps,
+                "Timestamp (ns)": np.array(timestamps, dtype="int64"),
                 "Event Type": event_types,
                 "Name": names,
                 "Thread": thread_ids,
-- 
2.43.0


From 0b67796ba52b078a4fe13d6d173b29256172337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 25/35] fix: reject OTF2 traces whose event files have been cut
 off

---
 pipit/readers/otf2_reader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 9bb2fb7..5a0c11a 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -189,7 +189,17 @@ class OTF2Reader:
                 end_int = ((rank + 1) * per_process) + remainder
 
             # select the locations to read based on above calculations
-            loc_events = list(trace.events(locations[begin_int:end_int]).__iter__())
+            event_reader = trace.events(locations[begin_int:end_int])
+            loc_events = list(event_reader.__iter__())
+
+            # the OTF2 library doesn't report an error if it reaches the
+            # end of an event file that has been cut off
+            if len(loc_events) < len(event_reader):
+                raise EOFError(
+                    "The trace is incomplete: only {} of {} events could be read.".format(
+                        len(loc_events), len(event_reader)
+                    )
+                )
 
             # columns of the DataFrame
             timestamps, event_types, event_attributes, names = [], [], [], []
-- 
2.43.0


From 36fe14fcf462eb36b13530a2df1b440a32949946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:41 +0000
Subject: [PATCH 26/35] fix: order of simultaneous OTF2 events depended on the
 number of workers

---
 pipit/readers/otf2_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 5a0c11a..71fff0e 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -504,13 +504,15 @@ class OTF2Reader:
         events_dataframe["Timestamp (ns)"] *= (10**9) / resolution
 
         # ensures the DataFrame is in order of increasing timestamp
+        # (equal timestamps of different locations are ordered by location, as
+        # they would otherwise depend on which worker has read which locations,
+        # and sorting by several columns is always stable)
         events_dataframe.sort_values(
-            by="Timestamp (ns)",
+            by=["Timestamp (ns)", "Process", "Thread"],
             axis=0,
             ascending=True,
             inplace=True,
             ignore_index=True,
-            kind="stable",
         )
 
         # convert these to ints
-- 
2.43.0


From 4730b46b65b65a0be838d18998bf86848c85ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 27/35] fix: a CSV trace with a malformed time in seconds
 exhausted memory

---
 pipit/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 6628a53..fc925ef 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -72,7 +72,10 @@ class Trace:
 
         # if timestamps are in seconds, convert them to nanoseconds
         if "Timestamp (s)" in events_dataframe.columns:
-            events_dataframe["Timestamp (s)"] *= 10**9
+            # (fails if a time is not a number: repeating its text would exhaust memory)
+            events_dataframe["Timestamp (s)"] = (
+                pd.to_numeric(events_dataframe["Timestamp (s)"]) * 10**9
+            )
             events_dataframe.rename(
                 columns={"Timestamp (s)": "Timestamp (ns)"}, inplace=True
             )
-- 
2.43.0


From 90d79d075b9e0500bd19fef6ffb15a3ec95cd5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 28/35] fix: detect_pattern failed unless the metric had been
 calculated before

---
 pipit/trace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipit/trace.py b/pipit/trace.py
index fc925ef..37f6da2 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -851,6 +851,12 @@ class Trace:
     ):
         import stumpy
 
+        # calculate exclusive or inclusive time if needed
+        if metric == "time.exc":
+            self.calc_exc_metrics(["Timestamp (ns)"])
+        elif metric == "time.inc":
+            self.calc_inc_metrics(["Timestamp (ns)"])
+
         enter_events = self.events[
             (self.events["Name"] == start_event)
             & (self.events["Event Type"] == "Enter")
-- 
2.43.0


From c0f7b3cdfe23703daf8ae22f3322f7d0839f449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 29/35] fix: detect_pattern returned events of other processes
 with equal timestamps

---
 pipit/trace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipit/trace.py b/pipit/trace.py
index 37f6da2..57f4f6b 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -897,10 +897,12 @@ class Trace:
         for idx in indices[0]:
             end_idx = idx + window_size
 
+            # (events of other processes can have the same timestamps)
             match_original = self.events.loc[
                 self.events["Timestamp (ns)"].isin(
                     filtered_df.iloc[idx:end_idx]["Timestamp (ns)"].values
                 )
+                & (self.events["Process"] == process)
             ]
             patterns.append(match_original)
 
-- 
2.43.0


From 7776d2830de23c8bdef2c6eb150783bd7e7232cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 30/35] fix: HPCToolkit locations without a thread identifier
 were left out of all analyses

---
 pipit/readers/hpctoolkit_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 98ca79e..fb1ef03 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -1003,7 +1003,9 @@ class ProfileReader:
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-            tuples_map["THREAD"] = None
+            # a process without thread identifiers has a single thread
+            # (rows without a thread would be left out of every analysis)
+            tuples_map["THREAD"] = 0
         if "CORE" not in tuples_map:
             tuples_map["CORE"] = None
         return tuples_map
-- 
2.43.0


From 73c0182daabcb0ea856c94f7bec236c4032219f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 31/35] fix: Projections times and process ids became floating
 point numbers if a PE had no events

---
 pipit/readers/projections_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index f900d4c..3d7ae91 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -822,7 +822,12 @@ class ProjectionsReader:
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-            dfs.append(pd.DataFrame(data))
+            df = pd.DataFrame(data)
+            if len(df) == 0:
+                # columns without values are not integers by default, which would
+                # turn the times and ids of the other PEs into floating point numbers
+                df = df.astype({"Timestamp (ns)": "int64", "Process": "int64"})
+            dfs.append(df)
 
         return pd.concat(dfs)
 
-- 
2.43.0


From 463cb1f5727120ea0322f137dd03e42c1d7e4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 32/35] fix: reading Projections traces with non-ASCII names
 depended on the user's locale

---
 pipit/readers/projections_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 3d7ae91..9df42c0 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -84,7 +84,8 @@ class ProjectionsConstants:
 
 class STSReader:
     def __init__(self, file_location):
-        self.sts_file = open(file_location, "r")  # self.chares = {}
+        # (the encoding must not depend on the user's locale)
+        self.sts_file = open(file_location, "r", encoding="utf-8")  # self.chares = {}
 
         # In 'self.entries', each entry stores (entry_name: str, chare_id: int)
         self.entries = {}
@@ -366,7 +367,9 @@ class ProjectionsReader:
 
             # opening the log file we need to read
             log_file = gzip.open(
-                self.executable_location + "." + str(pe_num) + ".log.gz", "rt"
+                self.executable_location + "." + str(pe_num) + ".log.gz",
+                "rt",
+                encoding="utf-8",
             )
 
             # Basing read on projections log reader and log entry viewer
-- 
2.43.0


From 31065b320a7e3562a82851f4e22eb0e28f89b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 33/35] fix: flat_profile failed if asked to group by a list of
 columns

---
 pipit/trace.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 57f4f6b..510fef9 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -543,6 +543,8 @@ class Trace:
         """
 
         metrics = [metrics] if not isinstance(metrics, list) else metrics
+        several_columns = isinstance(groupby_column, list)
+        columns = groupby_column if several_columns else [groupby_column]
 
         # calculate inclusive time if needed
         if "time.inc" in metrics:
@@ -558,15 +560,16 @@ class Trace:
         if per_process:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*columns, "Process"], observed=True)[metrics]
                 .sum()
             )
         else:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*columns, "Process"], observed=True)[metrics]
                 .sum()
-                .groupby(groupby_column)
+                # (combinations of several columns that never occur are left out)
+                .groupby(groupby_column, observed=several_columns)
                 .mean()
             )
 
-- 
2.43.0


From b9ee8b44b7882df72f14f37ce8bdc989d28faa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 34/35] fix: load OTF2 traces with several flags set in a
 bitset field

---
 pipit/readers/otf2_reader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 71fff0e..76ef702 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -71,7 +71,17 @@ class OTF2Reader:
             and to ensure no pickling errors, I convert these objects to their
             string representation
             """
-            return str(field)
+            try:
+                return str(field)
+            except KeyError:
+                # the OTF2 library only has names for single flags, but
+                # several of them can be set (such as CREATE and TRUNCATE)
+                flags = "|".join(
+                    name
+                    for value, name in type(field)._names.items()
+                    if value and field.value & value == value
+                )
+                return type(field).__name__ + "." + (flags or str(field.value))
         else:
             "not an otf2 type, then just return normally"
             return field
-- 
2.43.0


From 6ba85ffa059ded5ed7db83d2b53dcd8dd35805f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 35/35] fix: Chrome export rounded floating-point attributes to
 ten decimals

---
 pipit/writers/chrome_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index fdc7a19..5688bc2 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -47,4 +47,6 @@ class ChromeWriter:
             df["args"] = events["Attributes"]
 
         # Write the dataframe to a JSON file
-        return df.to_json(path_or_buf=self.filename, orient="records")
+        return df.to_json(
+            path_or_buf=self.filename, orient="records", double_precision=15
+        )
-- 
2.43.0

