From 34389bffc0a0db5411524ce84f07566b0ac2f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 01/71] fix: C monitor loops forever on a constant operand

A constant operand was reported as new data on every pass, so each pass made
progress and r2u2_step never returned (e.g. `(F[0,1] true) xor a`).
---
 monitors/c/src/engines/mltl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 5b19179..7fcab1e 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -36,7 +36,8 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
             *result = set_verdict_false(monitor->time_stamp);
           }
         }
-        return true;
+        // As when reading a queue, only data the parent has yet to consume is ready
+        return get_verdict_time(*result) >= monitor->queue_arena.control_blocks[instr->memory_reference].next_time;
 
       case R2U2_FT_OP_ATOMIC:
         // Only load in atomics on first loop of time step
-- 
2.43.0


From 40f71771a403f9ef5a0e425d9986dce16d37b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 02/71] fix: since/trigger keep a right-operand edge the left
 operand has already broken

a S[0,2] b reported true after a was false following b, once a became true
again within the interval; trigger has the dual defect.
---
 monitors/c/src/engines/mltl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 7fcab1e..d252d70 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -332,6 +332,8 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
           }
           if (op0_rdy && !(get_verdict_truth(op0))){
             ctrl->next_time = get_verdict_time(op1) + 1;
+            // Left is false after the edge, so no later timestamp can use it
+            temp->edge = set_verdict_false(temp->edge);
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
               if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
@@ -422,6 +424,8 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
           }
           if (op0_rdy && get_verdict_truth(op0)){
             ctrl->next_time = get_verdict_time(op1) + 1;
+            // Left is true after the edge, so no later timestamp can use it
+            temp->edge = set_verdict_false(temp->edge);
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
               if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-- 
2.43.0


From 6fee5bb60ba9e5d9ecad2280432bc11d5dc425d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 03/71] fix: temporal observers stall when they consume
 operands without a result

Operands consumed without a new verdict did not count as progress (and since/
trigger did not consume them at all while the left operand held), so verdicts
waiting behind them were read late or overwritten in the operand's queue.
---
 monitors/c/src/engines/mltl.c | 40 +++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index d252d70..de48e10 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -163,6 +163,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
       if (ctrl->next_time < temp->lower_bound){
         ctrl->next_time = temp->lower_bound;
       }
+      r2u2_time consumed = ctrl->next_time;
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
@@ -208,6 +209,11 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         }
       }
 
+      // Data consumed without a new result: loop again to read what follows it
+      if (ctrl->next_time > consumed && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+      }
+
       error_cond = R2U2_OK;
       break;
     }
@@ -217,6 +223,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
       if (ctrl->next_time < temp->lower_bound){
         ctrl->next_time = temp->lower_bound;
       }
+      r2u2_time consumed = ctrl->next_time;
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
@@ -262,6 +269,11 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         }
       }
 
+      // Data consumed without a new result: loop again to read what follows it
+      if (ctrl->next_time > consumed && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+      }
+
       error_cond = R2U2_OK;
       break;
     }
@@ -289,6 +301,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         break;
       }
 
+      r2u2_time consumed = ctrl->next_time;
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
@@ -365,6 +378,19 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
           }
       }
 
+      // Result already known up to the data both sides have: move on, as leaving
+      // it unconsumed would hide the next left verdict behind this one
+      if (op0_rdy && op1_rdy && get_verdict_truth(op0) && !get_verdict_truth(op1)) {
+        r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
+        if (get_verdict_truth(temp->previous) && get_verdict_time(temp->previous) >= tau + temp->lower_bound) {
+          ctrl->next_time = max(ctrl->next_time, tau + 1);
+        }
+      }
+      // Data consumed without a new result: loop again to read what follows it
+      if (ctrl->next_time > consumed && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+      }
+
       error_cond = R2U2_OK;
       break;
     }
@@ -381,6 +407,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         break;
       }
 
+      r2u2_time consumed = ctrl->next_time;
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
@@ -458,6 +485,19 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
       }
 
+      // Result already known up to the data both sides have: move on, as leaving
+      // it unconsumed would hide the next left verdict behind this one
+      if (op0_rdy && op1_rdy && !get_verdict_truth(op0) && get_verdict_truth(op1)) {
+        r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
+        if (get_verdict_truth(temp->previous) && get_verdict_time(temp->previous) >= tau + temp->lower_bound) {
+          ctrl->next_time = max(ctrl->next_time, tau + 1);
+        }
+      }
+      // Data consumed without a new result: loop again to read what follows it
+      if (ctrl->next_time > consumed && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+      }
+
       error_cond = R2U2_OK;
       break;
     }
-- 
2.43.0


From b03093d17b47ea6d18ea025c92e8c86fbb7c9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 04/71] fix: a node could overwrite a verdict its parent has
 not consumed yet

A node able to produce several verdicts in one time step produced one per pass,
while a parent waiting on two operands consumes part of one per pass; the
queues are sized for parents that consume what is available first.
---
 monitors/c/src/engines/engines.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/monitors/c/src/engines/engines.c b/monitors/c/src/engines/engines.c
index ebbb6a6..723b219 100644
--- a/monitors/c/src/engines/engines.c
+++ b/monitors/c/src/engines/engines.c
@@ -25,15 +25,21 @@ r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
       }
       switch (monitor->progress) {
         case R2U2_MONITOR_PROGRESS_FIRST_LOOP: {
-          // First pass complete, rerun program counter to check for progress
-          monitor->mltl_program_count.curr_program_count= 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-          break;
-        }
-        case R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS: {
-          // Progress made this loop, rerun program counter
-          monitor->mltl_program_count.curr_program_count= 0;
+          // First pass complete, rerun instructions until none makes progress.
+          // Going backwards and starting over from the end after each progress
+          // lets parents consume a verdict before their child writes the next,
+          // which is what the queues are sized for.
           monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
+          while (monitor->mltl_program_count.curr_program_count > 0) {
+            monitor->mltl_program_count.curr_program_count--;
+            R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
+            error_cond = r2u2_mltl_update(monitor);
+            if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS) {
+              monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
+              monitor->mltl_program_count.curr_program_count = monitor->mltl_program_count.max_program_count;
+            }
+          }
+          monitor->mltl_program_count.curr_program_count = monitor->mltl_program_count.max_program_count;
           break;
         }
         case R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS: {
-- 
2.43.0


From 696ab9188c292ec869c5245fb7297e36d288d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 05/71] fix: queues too short beside once/historically results
 that are known ahead of time

These are compiled to since/trigger with a constant left operand, whose best-case
delay ignored the upper bound, so verdicts were overwritten before use (e.g.
a0 -> (H[0,2] (O[0,3] a1))).
---
 compiler/c2po/cpt.py | 6 ++++--
 compiler/c2po/scq.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d31da96..eaf4ad0 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -841,7 +841,8 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.SINCE, lb, ub, [lhs, rhs])
         operator.type = types.BoolType()
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        # A constant left operand is known ahead of time, as in once/historically
+        operator.bpd = rhs.bpd - ub if isinstance(lhs, Constant) else min(lhs.bpd, rhs.bpd) - lb
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
@@ -850,7 +851,8 @@ class TemporalOperator(Operator):
         loc: log.FileLocation, lb: int, ub: int, lhs: Expression, rhs: Expression
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.TRIGGER, lb, ub, [lhs, rhs])
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        # A constant left operand is known ahead of time, as in once/historically
+        operator.bpd = rhs.bpd - ub if isinstance(lhs, Constant) else min(lhs.bpd, rhs.bpd) - lb
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 06fbf5f..8f2b80f 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -39,7 +39,9 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
             )
             continue
 
-        max_wpd = max([sibling.wpd for sibling in expr.get_siblings()] + [0])
+        # Without siblings there is nothing to wait for
+        siblings = expr.get_siblings()
+        max_wpd = max([sibling.wpd for sibling in siblings] + [0]) if siblings else expr.bpd
         expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
         total_scq_size += expr.scq_size
         expr.scq = (
-- 
2.43.0


From fe5bd9c78e949af90259795c1b6d37930f998b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 06/71] fix: generated bounds too small for sparse or partly
 used signal mappings

---
 compiler/c2po/assemble.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5fd8629..c7a2879 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1152,8 +1152,11 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
     num_aliases_bytes = sum([
         (len(i.symbol)) for i in assembly if isinstance(i, AliasInstruction)
     ])
-    num_signals = len(context.signals)
-    num_atomics = len(set(context.atomic_id_map.values()))
+    # The monitor indexes these buffers by mapped column, so they must reach the largest index in use
+    num_signals = max(context.signal_mapping.values(), default=-1) + 1
+    num_atomics = max(context.atomic_id_map.values(), default=-1) + 1
+    if not context.enable_booleanizer:
+        num_atomics = max(num_atomics, num_signals)
     total_scq_size = sum([
         (i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in assembly if isinstance(i, CGInstruction)
     ])
-- 
2.43.0


From f2f377f4846ac8623022e55f631be8ef3133e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 07/71] fix: map files with multi-digit array indices or
 trailing text, trace file error reports, eqsat option spacing

---
 compiler/c2po/main.py  | 2 +-
 compiler/c2po/map.py   | 6 +++---
 compiler/c2po/trace.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index 24434dc..8dbe355 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -325,7 +325,7 @@ def cli(
                   f"--{'no-' if not enable_eqsat_associative else ''}associative " \
                   f"--{'no-' if not enable_eqsat_commutative else ''}commutative " \
                   f"--{'no-' if not enable_eqsat_multi_arity else ''}multi-arity " \
-                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal" \
+                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal " \
                   f"{f'--egglog-bin {egglog_path}' if egglog_path else ''} " \
                   f"{f'--smt-solver-path {smt_solver_path}' if smt_solver_path else ''}"
         script_lines.append(cmd)
diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 47f30e2..816e9f7 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -21,13 +21,13 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
     mapping: types.SignalMapping = {}
     lines = content.splitlines()
     for line in lines:
-        if re.match(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+", line):
+        if re.fullmatch(r"\s*[a-zA-Z_][a-zA-Z0-9_\[\]\.]*\s*:\s*\d+\s*", line):
             strs = line.split(":")
-            id = strs[0]
+            id = strs[0].strip()
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d..\d*\]", id):
+            if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d+\.\.\d+\]", id):
                 indices = id[id.find("[")+1 : id.find("]")].split("..")
                 for i in range(int(indices[0]), int(indices[1])+1):
                     id = id[:id.find("[")] + "[" + str(i) + "]"
diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index eb7b941..6531e6e 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -33,7 +33,7 @@ def parse_trace_file(
 
     cnt: int = 0
     signal_mapping: types.SignalMapping = {}
-    if lines[0][0] != "#":
+    if not lines[0].startswith("#"):
         # no header, so just set trace length
         context.trace_length = len(lines)
         return command.ReturnCode.SUCCESS
@@ -50,7 +50,7 @@ def parse_trace_file(
         if id in signal_mapping:
             log.warning(
                 f"signal '{id}' found multiple times in csv, using right-most value",
-                log.FileLocation(options['trace_filename'], 1)
+                log.FileLocation(options['filename'], 1)
             )
         signal_mapping[id] = cnt
         cnt += 1
@@ -60,7 +60,7 @@ def parse_trace_file(
     if len(missing) > 0:
         log.error(
             f"trace file does not contain all signals in the program: {', '.join(missing)}",
-            log.FileLocation(options['trace_filename'], 1),
+            log.FileLocation(options['filename'], 1),
         )
         return command.ReturnCode.ERROR
 
-- 
2.43.0


From 5bfc439cf18969ae14c92f6ee9b6f188441f4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 08/71] fix: negative integer constants crash the assembler

---
 compiler/c2po/assemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index c7a2879..8dd730f 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -839,7 +839,7 @@ def pack_bz_instruction(
         1,
         f"packing bz instruction: {instruction}\n\t"
         f"{format_strs[FieldType.ENGINE_TAG]:2} "
-        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_ID] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_INT])} "
+        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_INT] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_ID])} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_OPERATOR]:2} "
@@ -857,9 +857,9 @@ def pack_bz_instruction(
     format_str += (
         format_strs[FieldType.BZ_OPERAND_FLOAT]
         if isinstance(instruction.operand1, float)
-        else format_strs[FieldType.BZ_OPERAND_ID]
-        if instruction.operator is BZOperator.ICONST
         else format_strs[FieldType.BZ_OPERAND_INT]
+        if instruction.operator is BZOperator.ICONST
+        else format_strs[FieldType.BZ_OPERAND_ID]
     )
     format_str += (
         format_strs[FieldType.BZ_ID]
-- 
2.43.0


From 684190871c981fbb08f84cfcc9fd3f486171b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 09/71] fix: Boolean constants as Booleanizer operands crash
 the assembler

---
 compiler/c2po/assemble.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 8dd730f..d6f20c1 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -749,12 +749,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             ft_scqs += 1
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
-        # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # so if this is a bool literal with only TL parents we should skip. Otherwise it is an
+        # operand of a BZ instruction (e.g., `p == true` or `prev(false,p)`).
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
@@ -783,12 +783,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
-        # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # so if this is a bool literal with only TL parents we should skip. Otherwise it is an
+        # operand of a BZ instruction (e.g., `p == true` or `prev(false,p)`).
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
-- 
2.43.0


From 79ea0b5e7fed0bea1cca4a2863f7d30c4ac284c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:14 +0000
Subject: [PATCH 10/71] fix: Boolean == and != crash the assembler outside the
 Booleanizer; (p == false) rewritten to p

---
 compiler/c2po/desugar.py | 34 ++++++++++++++++++++++++++++++++++
 compiler/c2po/rewrite.py |  8 ++++----
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index db73c9e..fce3c56 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -426,6 +426,39 @@ unroll_array_accesses_command = command.Command(
 )
 command.CommandRegistry.register(unroll_array_accesses_command)
 
+def convert_bool_relations(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+    """Converts `==`/`!=` over Booleans to `<->`/`xor` if the Booleanizer cannot compute them, i.e., if it is disabled or an operand is computed by the TL engine."""
+    for expr in program.postorder(context):
+        if not (
+            cpt.is_operator(expr, cpt.OperatorKind.EQUAL)
+            or cpt.is_operator(expr, cpt.OperatorKind.NOT_EQUAL)
+        ) or not all(types.is_bool_type(child.type) for child in expr.children):
+            continue
+
+        if context.enable_booleanizer and not any(
+            child.engine is types.R2U2Engine.TEMPORAL_LOGIC and not isinstance(child, cpt.Constant)
+            for child in expr.children
+        ):
+            continue
+
+        lhs, rhs = expr.children
+        if cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
+            expr.replace(cpt.Operator.LogicalIff(expr.loc, lhs, rhs))
+        else:
+            expr.replace(cpt.Operator.LogicalXor(expr.loc, [lhs, rhs]))
+
+    log.debug(1, f"post Boolean relation conversion:\n{repr(program)}")
+    return command.ReturnCode.SUCCESS
+
+convert_bool_relations_command = command.Command(
+    name="convert_bool_relations",
+    description="Converts `==`/`!=` over Booleans to `<->`/`xor` if the Booleanizer cannot compute them.",
+    options=[],
+    func=convert_bool_relations,
+    guards=[command.WELL_TYPED],
+)
+command.CommandRegistry.register(convert_bool_relations_command)
+
 desugar_command = command.CompositeCommand(
     name="desugar",
     description="A list of commands to desugar a program. Only C2PO programs need to be desugared.",
@@ -440,6 +473,7 @@ desugar_command = command.CompositeCommand(
         resolve_struct_accesses_command,
         unroll_array_accesses_command, 
         resolve_struct_accesses_command,
+        convert_bool_relations_command,
     ],
     guards=[command.WELL_TYPED],
 )
diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..6a0f986 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -52,11 +52,11 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
             if isinstance(lhs, cpt.Constant) and isinstance(rhs, cpt.Constant):
                 pass
             elif isinstance(lhs, cpt.Constant) and isinstance(lhs.value, bool):
-                # (true == p) = p
-                new = rhs
+                # (true == p) = p, (false == p) = !p
+                new = rhs if lhs.value else cpt.Operator.LogicalNegate(expr.loc, rhs)
             elif isinstance(rhs, cpt.Constant) and isinstance(rhs.value, bool):
-                # (p == true) = p
-                new = lhs
+                # (p == true) = p, (p == false) = !p
+                new = lhs if rhs.value else cpt.Operator.LogicalNegate(expr.loc, lhs)
         elif cpt.is_operator(expr, cpt.OperatorKind.GLOBAL):
             expr = cast(cpt.TemporalOperator, expr)
 
-- 
2.43.0


From c94e62bab923a715941b3f186ac71f24c3b28020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:14 +0000
Subject: [PATCH 11/71] fix: >= and <= of large equal floats are false

---
 monitors/c/src/engines/booleanizer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitors/c/src/engines/booleanizer.c b/monitors/c/src/engines/booleanizer.c
index 08c0ca5..7f01531 100644
--- a/monitors/c/src/engines/booleanizer.c
+++ b/monitors/c/src/engines/booleanizer.c
@@ -133,7 +133,7 @@ r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor)
         case R2U2_BZ_OP_FGTE:
             f1 = (monitor->value_buffer)[instr->param1].f;
             f2 = (monitor->value_buffer)[instr->param2].f;
-            (monitor->value_buffer)[instr->memory_reference].i = (f1 > f2 - R2U2_FLOAT_EPSILON);
+            (monitor->value_buffer)[instr->memory_reference].i = (f1 >= f2) || (f2 - f1 < R2U2_FLOAT_EPSILON);
 
             R2U2_DEBUG_PRINT("\tBZ FGTE\n");
             R2U2_DEBUG_PRINT("\tb%d = %hhu = %f >= %f - %f (b%d == b%d - %f)\n", instr->memory_reference,
@@ -169,7 +169,7 @@ r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor)
         case R2U2_BZ_OP_FLTE:
             f1 = (monitor->value_buffer)[instr->param1].f;
             f2 = (monitor->value_buffer)[instr->param2].f;
-            (monitor->value_buffer)[instr->memory_reference].i = (f1 < f2 + R2U2_FLOAT_EPSILON);
+            (monitor->value_buffer)[instr->memory_reference].i = (f1 <= f2) || (f1 - f2 < R2U2_FLOAT_EPSILON);
 
             R2U2_DEBUG_PRINT("\tBZ FLTE\n");
             R2U2_DEBUG_PRINT("\tb%d = %hhu = %f <= %f + %f (b%d == b%d + %f)\n", instr->memory_reference,
-- 
2.43.0


From ea4720c857cb94a6408e1cb4663dd2d1f1553ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:14 +0000
Subject: [PATCH 12/71] fix: INT_MIN divided by -1 and remainder by the
 constant 0 kill the monitor

---
 compiler/c2po/type_check.py          | 2 +-
 monitors/c/src/engines/booleanizer.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3de92d9..f71da99 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -409,7 +409,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
-            if expr.operator is cpt.OperatorKind.ARITHMETIC_DIVIDE:
+            if expr.operator in {cpt.OperatorKind.ARITHMETIC_DIVIDE, cpt.OperatorKind.ARITHMETIC_MODULO}:
                 rhs = expr.children[1]
                 # TODO: disallow division by non-const expression entirely
                 if isinstance(rhs, cpt.Constant) and rhs.value == 0:
diff --git a/monitors/c/src/engines/booleanizer.c b/monitors/c/src/engines/booleanizer.c
index 7f01531..04cdafb 100644
--- a/monitors/c/src/engines/booleanizer.c
+++ b/monitors/c/src/engines/booleanizer.c
@@ -249,7 +249,7 @@ r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor)
         case R2U2_BZ_OP_IDIV:
             i1 = (monitor->value_buffer)[instr->param1].i;
             i2 = (monitor->value_buffer)[instr->param2].i;
-            (monitor->value_buffer)[instr->memory_reference].i = i1 / i2;
+            (monitor->value_buffer)[instr->memory_reference].i = (i2 == -1) ? (r2u2_int)(0u - (uint32_t)i1) : i1 / i2; // INT_MIN / -1 traps
 
             R2U2_DEBUG_PRINT("\tBZ IDIV\n");
             R2U2_DEBUG_PRINT("\tb%d = %d = %d / %d (b%d / b%d)\n", instr->memory_reference,
@@ -267,7 +267,7 @@ r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor)
         case R2U2_BZ_OP_MOD:
             i1 = (monitor->value_buffer)[instr->param1].i;
             i2 = (monitor->value_buffer)[instr->param2].i;
-            (monitor->value_buffer)[instr->memory_reference].i = i1 % i2;
+            (monitor->value_buffer)[instr->memory_reference].i = (i2 == -1) ? 0 : i1 % i2; // INT_MIN % -1 traps
 
             R2U2_DEBUG_PRINT("\tBZ IMOD\n");
             R2U2_DEBUG_PRINT("\tb%d = %d = %d %% %d (b%d %% b%d)\n", instr->memory_reference,
-- 
2.43.0


From 56ed4b33b73696910e518fafa81d31535a811931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 13/71] fix: identifiers starting with 'prev' do not parse

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f8265f1..8b1b9fb 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -56,7 +56,6 @@ class C2POLexer(sly.Lexer):
     # ARITH_PM    = r"\+/-|±"
 
     # Others
-    PREV = r'prev'
     CONTRACT_ASSIGN = r"=>"
     ASSIGN  = r":="
     SYMBOL  = r"[a-zA-Z_][a-zA-Z0-9_]*"
@@ -90,6 +89,7 @@ class C2POLexer(sly.Lexer):
     SYMBOL["sqrt"] = ARITH_SQRT
     SYMBOL["abs"]  = ARITH_ABS
     SYMBOL["xor"]  = LOG_XOR
+    SYMBOL["prev"] = PREV
     SYMBOL['G'] = TL_GLOBAL
     SYMBOL['F'] = TL_FUTURE
     SYMBOL['H'] = TL_HIST
-- 
2.43.0


From 342e3a24a70475edca5281125806518f02501d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 14/71] fix: i-1 and x-1.5 lexed as two operands

---
 compiler/c2po/parse_c2po.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 8b1b9fb..fa05760 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -22,8 +22,8 @@ class C2POLexer(sly.Lexer):
     ignore_newline = r"\n+"
 
     REL_NEQ = r"!=|≠" # longer tokens must come first
-    DECIMAL   = r"-?\d*\.\d+"
-    NUMERAL     = r"-?[1-9][0-9]*|0"
+    DECIMAL   = r"\d*\.\d+"
+    NUMERAL     = r"[1-9][0-9]*|0"
 
     # Propositional logic ops/literals
     LOG_NEG  = r"!|¬"
@@ -320,9 +320,9 @@ class C2POParser(sly.Parser):
         return types.ArrayType(p[0])
     
     # Array type
-    @_("type LBRACK NUMERAL RBRACK")
+    @_("type LBRACK integer RBRACK")
     def type(self, p):
-        size = int(p[2])
+        size = p[2]
         if size < 0:
             log.error(
                 f"Array sizes must be greater than zero (found '{size}')", 
@@ -457,14 +457,14 @@ class C2POParser(sly.Parser):
         return cpt.StructAccess(log.FileLocation(self.filename, p.lineno), p[0], p[2])
 
     # Array member access
-    @_("expr LBRACK NUMERAL RBRACK")
+    @_("expr LBRACK integer RBRACK")
     def expr(self, p):
-        return cpt.ArrayIndex(log.FileLocation(self.filename, p.lineno), p[0], int(p[2]))
+        return cpt.ArrayIndex(log.FileLocation(self.filename, p.lineno), p[0], p[2])
     
     # Array slice access
-    @_("expr LBRACK NUMERAL DDOT NUMERAL RBRACK")
+    @_("expr LBRACK integer DDOT integer RBRACK")
     def expr(self, p):
-        return cpt.ArraySlice(log.FileLocation(self.filename, p.lineno), p[0], int(p[2]), int(p[4]))
+        return cpt.ArraySlice(log.FileLocation(self.filename, p.lineno), p[0], p[2], p[4])
 
     # Unary expressions
     @_("LOG_NEG expr")
@@ -477,6 +477,9 @@ class C2POParser(sly.Parser):
 
     @_("ARITH_SUB expr %prec UNARY_ARITH_SUB")
     def expr(self, p):
+        # Signed literals are constants; the lexer leaves the sign out so that `i-1` is a subtraction
+        if isinstance(p[1], cpt.Constant) and not isinstance(p[1].value, bool):
+            return cpt.Constant(log.FileLocation(self.filename, p.lineno), -p[1].value)
         return cpt.Operator.ArithmeticNegate(log.FileLocation(self.filename, p.lineno), p[1])
     
     @_("ARITH_SQRT LPAREN expr RPAREN")
@@ -662,9 +665,17 @@ class C2POParser(sly.Parser):
         return cpt.ConcreteInterval(p[1], p[3])
 
     @_("NUMERAL")
+    def integer(self, p):
+        return int(p[0])
+
+    @_("ARITH_SUB NUMERAL")
+    def integer(self, p):
+        return -int(p[1])
+
+    @_("integer")
     def bound(self, p):
-        num = int(p[0])
-        if int(p[0]) < 0:
+        num = p[0]
+        if num < 0:
             log.error(
                 f"interval bounds must be greater than zero (found '{num}')", 
                 log.FileLocation(self.filename, p.lineno)
-- 
2.43.0


From bdfbe98e9b0d8648f239b374d3a47de4868171b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 15/71] fix: p == false compiled as p

---
 compiler/c2po/desugar.py | 5 +++--
 compiler/c2po/rewrite.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index fce3c56..a0358ed 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -427,7 +427,7 @@ unroll_array_accesses_command = command.Command(
 command.CommandRegistry.register(unroll_array_accesses_command)
 
 def convert_bool_relations(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
-    """Converts `==`/`!=` over Booleans to `<->`/`xor` if the Booleanizer cannot compute them, i.e., if it is disabled or an operand is computed by the TL engine."""
+    """Converts `==`/`!=` over Booleans to `<->`/`xor` if the Booleanizer cannot compute them (i.e., if it is disabled or an operand is computed by the TL engine) or need not (i.e., if an operand is `false` and only the TL engine uses the result)."""
     for expr in program.postorder(context):
         if not (
             cpt.is_operator(expr, cpt.OperatorKind.EQUAL)
@@ -436,7 +436,8 @@ def convert_bool_relations(program: cpt.Program, context: cpt.Context, options:
             continue
 
         if context.enable_booleanizer and not any(
-            child.engine is types.R2U2Engine.TEMPORAL_LOGIC and not isinstance(child, cpt.Constant)
+            child.engine is types.R2U2Engine.TEMPORAL_LOGIC
+            and (not isinstance(child, cpt.Constant) or not (child.value or any(p.engine is types.R2U2Engine.BOOLEANIZER for p in expr.parents)))
             for child in expr.children
         ):
             continue
diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index 6a0f986..f672c7f 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -52,11 +52,11 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
             if isinstance(lhs, cpt.Constant) and isinstance(rhs, cpt.Constant):
                 pass
             elif isinstance(lhs, cpt.Constant) and isinstance(lhs.value, bool):
-                # (true == p) = p, (false == p) = !p
-                new = rhs if lhs.value else cpt.Operator.LogicalNegate(expr.loc, rhs)
+                # (true == p) = p
+                new = rhs
             elif isinstance(rhs, cpt.Constant) and isinstance(rhs.value, bool):
-                # (p == true) = p, (p == false) = !p
-                new = lhs if rhs.value else cpt.Operator.LogicalNegate(expr.loc, lhs)
+                # (p == true) = p
+                new = lhs
         elif cpt.is_operator(expr, cpt.OperatorKind.GLOBAL):
             expr = cast(cpt.TemporalOperator, expr)
 
-- 
2.43.0


From 8baaf3582f0ab37f69332f73b1dc2cef066d156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 16/71] fix: reject illegal characters, symbols declared twice,
 ordered Booleans and temporal operands of arithmetic

---
 compiler/c2po/atomics.py    |  7 +++++++
 compiler/c2po/parse_c2po.py |  4 +++-
 compiler/c2po/type_check.py | 15 +++++++++++++--
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/atomics.py b/compiler/c2po/atomics.py
index b1bf758..bd6423f 100644
--- a/compiler/c2po/atomics.py
+++ b/compiler/c2po/atomics.py
@@ -19,6 +19,13 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
     aid: int = 0
 
     for expr in program.postorder(context):
+        if expr.engine == types.R2U2Engine.BOOLEANIZER and any(
+            child.engine == types.R2U2Engine.TEMPORAL_LOGIC and not isinstance(child, cpt.Constant)
+            for child in expr.children
+        ) and not isinstance(expr, cpt.Atomic):
+            log.error(f"logical and temporal expressions not supported as operands of '{expr.symbol}'\n    {expr}", expr.loc)
+            return command.ReturnCode.ERROR
+
         if (
             expr.engine == types.R2U2Engine.TEMPORAL_LOGIC 
             or isinstance(expr, cpt.Constant) 
diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index fa05760..c1a420f 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -105,12 +105,14 @@ class C2POLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     # Extra action for newlines
     def ignore_newline(self, t):
         self.lineno += t.value.count("\n")
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, self.lineno))
         self.index += 1
 
@@ -714,7 +716,7 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: C2POParser = C2POParser(options["filename"], context.mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not parser.status or not lexer.status:
         return None
 
     return cpt.Program(0, sections)
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index f71da99..779e76f 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -39,7 +39,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
         elif isinstance(expr, cpt.Constant):
             if (
                 isinstance(expr.value, int)
-                and expr.value.bit_length() > (types.IntType.width - (1 if types.IntType.is_signed else 0))
+                and (expr.value if expr.value >= 0 else ~expr.value).bit_length() > (types.IntType.width - (1 if types.IntType.is_signed else 0))
             ):
                 log.error(
                     f"constant '{expr.value}' not representable in configured int type ({types.IntType.width} bits, {'signed' if types.IntType.is_signed else 'unsigned'})",
@@ -508,6 +508,16 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
+            if types.is_bool_type(lhs.type) and expr.operator not in {
+                cpt.OperatorKind.EQUAL,
+                cpt.OperatorKind.NOT_EQUAL,
+            }:
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', Booleans are not ordered\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             expr.type = types.BoolType(lhs.type.is_const and rhs.type.is_const)
         elif cpt.is_logical_operator(expr):
             expr = cast(cpt.Operator, expr)
@@ -702,8 +712,9 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
         None if type checking fails, the context object otherwise.
     """
     status = True
+    symbols: set[str] = set()
     for section in program.sections:
-        is_good = type_check_section(section, set(), context, options)
+        is_good = type_check_section(section, symbols, context, options)
         status = status and is_good
 
     log.debug(1, f"type checking result: {status}")
-- 
2.43.0


From ff4636ec168b72836718bb17037253dda5512284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 17/71] fix: contract reports missing with the generated
 bounds, aux strings written past the formula table

---
 monitors/c/src/internals/process_binary.c | 29 ++++++++++++-----------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 77fbcbe..9473647 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -71,7 +71,7 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
     size_t aux_contract_num = 0;
     int length = 0;
     r2u2_aux_info_arena_t* aux_arena = &(monitor->aux_info_arena);
-    (aux_arena->formula_control_blocks)[0].spec_str = aux_arena->aux_mem;
+    char* aux_str = aux_arena->aux_mem; // Next free byte of the string arena
 
     do {
       // Length encodes size of processed string not including null
@@ -82,27 +82,28 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
       if (sscanf((char*)&(spec[offset]), "%c", &type) == 1) {
         switch(type){
           case 'C': {
-            if (aux_contract_num == 0){ // All formulas always appear in binary before contracts
-              (aux_arena->contract_control_blocks)[0].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str) + 1; // Leave a Null
-            }
-            sscanf((char*)&(spec[offset]), "%*c %s %u %u %u%n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str, &(aux_arena->contract_control_blocks[aux_contract_num].spec_0), &(aux_arena->contract_control_blocks[aux_contract_num].spec_1), &(aux_arena->contract_control_blocks[aux_contract_num].spec_2), &length);
-            if (R2U2_AUX_MAX_CONTRACTS > (aux_contract_num + 1)){
-              (aux_arena->contract_control_blocks)[aux_contract_num+1].spec_str = (aux_arena->contract_control_blocks)[aux_contract_num].spec_str + strlen((aux_arena->contract_control_blocks)[aux_contract_num].spec_str) + 1; // Leave a Null
-              R2U2_DEBUG_PRINT("Mapping contract: %s\n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str);
-            } else {
+            if (aux_contract_num >= R2U2_AUX_MAX_CONTRACTS){
               // Done processing Formulas and ran out of space to save any more Contract information
               length = 0;
               break;
             }
+            (aux_arena->contract_control_blocks)[aux_contract_num].spec_str = aux_str;
+            sscanf((char*)&(spec[offset]), "%*c %s %u %u %u%n", aux_str, &(aux_arena->contract_control_blocks[aux_contract_num].spec_0), &(aux_arena->contract_control_blocks[aux_contract_num].spec_1), &(aux_arena->contract_control_blocks[aux_contract_num].spec_2), &length);
+            R2U2_DEBUG_PRINT("Mapping contract: %s\n", aux_str);
+            aux_str += strlen(aux_str) + 1; // Leave a Null
             aux_contract_num++;
             break;
           }
           case 'F': {
-            sscanf((char*)&(spec[offset]), "%*c %s %u%n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str, &(aux_arena->formula_control_blocks[aux_formula_num].spec), &length);
-            if (R2U2_AUX_MAX_FORMULAS > (aux_formula_num + 1)){
-              (aux_arena->formula_control_blocks)[aux_formula_num+1].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num].spec_str) + 1; // Leave a Null
-              R2U2_DEBUG_PRINT("Mapping formula: %s\n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str);
-            } // Note: If bound is exceeded, we keep iterating to find contracts section of binary
+            if (aux_formula_num >= R2U2_AUX_MAX_FORMULAS){
+              // Bound is exceeded, but keep iterating to find contracts section of binary
+              sscanf((char*)&(spec[offset]), "%*c %*s %*u%n", &length);
+              break;
+            }
+            (aux_arena->formula_control_blocks)[aux_formula_num].spec_str = aux_str;
+            sscanf((char*)&(spec[offset]), "%*c %s %u%n", aux_str, &(aux_arena->formula_control_blocks[aux_formula_num].spec), &length);
+            R2U2_DEBUG_PRINT("Mapping formula: %s\n", aux_str);
+            aux_str += strlen(aux_str) + 1; // Leave a Null
             aux_formula_num++;
             break;
           }
-- 
2.43.0


From ea71e74c655f7d2736871aa2a16c08c220765924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 18/71] fix: a reloaded monitor keeps queue state of the
 previous run

---
 monitors/c/src/engines/mltl.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index de48e10..e5498c7 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -673,6 +673,14 @@ r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* monitor,
 
             }
 
+            // Start from the initial state, whatever ran on this queue before
+            ctrl->write = 0;
+            ctrl->read1 = 0;
+            ctrl->read2 = 0;
+            ctrl->next_time = 0;
+            for (r2u2_addr i = 0; i < ctrl->length; i++) {
+                ctrl->queue[i] = 0;
+            }
             ctrl->queue[0] = r2u2_infinity;
 
             #if R2U2_DEBUG
-- 
2.43.0


From cc30dda9c1a5078ace0ddbe60dd441309ebcc194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 19/71] fix: trace values spelled ' 0', '0\r' or '0.0' read as
 true, event line without a value crashes the CLI

---
 monitors/c/src/cli/csv_trace.c | 5 ++++-
 monitors/c/src/lib.c           | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 3181ecb..d5f4375 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -27,10 +27,13 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
       char* temp_var;
       char* timechar = strtok_r(signal+1, " ", &temp_var);
       uint32_t time_signature;
-      if(sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_END_OF_TRACE;
+      if(timechar == NULL || sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_END_OF_TRACE;
       (monitor->time_stamp) = time_signature;
       R2U2_DEBUG_PRINT("Event: %u\n",monitor->time_stamp);
       signal = strtok_r(NULL, " ", &temp_var);
+      // The first value is in the next field if none follows the time
+      if (signal == NULL) signal = strtok(NULL, ",\n");
+      if (signal == NULL) break;
     }
     r2u2_load_string_signal(monitor, i, signal);
   }
diff --git a/monitors/c/src/lib.c b/monitors/c/src/lib.c
index 2288728..1b2579f 100644
--- a/monitors/c/src/lib.c
+++ b/monitors/c/src/lib.c
@@ -54,7 +54,9 @@ void r2u2_load_float_signal(r2u2_monitor_t* monitor, size_t index, r2u2_float va
 
 void r2u2_load_string_signal(r2u2_monitor_t* monitor, size_t index, char* value){
   if (monitor->bz_program_count.max_program_count == 0) {
-    monitor->atomic_buffer[index] = (strcmp(value,"0") != 0);
+    // Any spelling of zero is false (e.g., "0", " 0", "0\r", "0.0"), all else is true
+    double number;
+    monitor->atomic_buffer[index] = !(sscanf(value, "%lf", &number) == 1 && number == 0);
   } else {
     //Note that to be interpreted as a float, the string value must include a decimal point
     if (strchr(value, '.') != NULL){
-- 
2.43.0


From 9eed4b320d97b6c1c0264c3b20e798268fef3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 20/71] fix: float constants with the top bit of their low word
 set are loaded wrongly

---
 monitors/c/src/instructions/booleanizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/c/src/instructions/booleanizer.c b/monitors/c/src/instructions/booleanizer.c
index 43180bd..d47058d 100644
--- a/monitors/c/src/instructions/booleanizer.c
+++ b/monitors/c/src/instructions/booleanizer.c
@@ -6,7 +6,7 @@ r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* spec) {
 }
 
 r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
-    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24) +
+    uint64_t temp_val = (spec[0] + ((uint64_t)spec[1] << 8) + ((uint64_t)spec[2] << 16) + ((uint64_t)spec[3] << 24) +
                 ((uint64_t)spec[4] << 32) + ((uint64_t)spec[5] << 40) + ((uint64_t)spec[6] << 48) + ((uint64_t)spec[7] << 56));
     r2u2_float val;
     memcpy(&val, &temp_val, 8);
-- 
2.43.0


From cf30353370677412b4c5ec9ed8031925dd6c4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 21/71] fix: monitors built with gcc and generated bounds of
 zero crash at load

---
 monitors/c/src/memory/monitor.h | 34 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/monitors/c/src/memory/monitor.h b/monitors/c/src/memory/monitor.h
index 3eaaf8d..d1ea8f4 100644
--- a/monitors/c/src/memory/monitor.h
+++ b/monitors/c/src/memory/monitor.h
@@ -57,6 +57,10 @@ typedef struct {
 // Indicates the required storage size of the temporal metadata block arena in the SCQ arena memory
 #define R2U2_TEMPORAL_METADATA_SIZE sizeof(r2u2_scq_temporal_block_t) / sizeof(r2u2_verdict)
 
+// Arrays of length zero are not C (gcc drops the whole initializer), but generated
+// bounds are zero for whatever a specification does not use
+#define R2U2_EXTENT(n) ((n) > 0 ? (n) : 1)
+
 // Shortcut for getting a monitor of predefined extents
 // Should only be used at file scope because:
 //  1) C99 compound literals are used for memory domains and adopt enclosing scope
@@ -69,17 +73,17 @@ typedef struct {
       .time_stamp = 0, \
       .progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP, \
       .bz_program_count = (program_count_t){0,0}, \
-      .bz_instruction_tbl = (r2u2_bz_instruction_t [R2U2_MAX_BZ_INSTRUCTIONS]){0}, \
+      .bz_instruction_tbl = (r2u2_bz_instruction_t [R2U2_EXTENT(R2U2_MAX_BZ_INSTRUCTIONS)]){0}, \
       .mltl_program_count = (program_count_t){0,0}, \
-      .mltl_instruction_tbl = (r2u2_mltl_instruction_t [R2U2_MAX_TL_INSTRUCTIONS]){0}, \
+      .mltl_instruction_tbl = (r2u2_mltl_instruction_t [R2U2_EXTENT(R2U2_MAX_TL_INSTRUCTIONS)]){0}, \
       .out_file = NULL, \
       .out_func = NULL, \
-      .signal_vector = (r2u2_value_t [R2U2_MAX_SIGNALS]){0}, \
-      .value_buffer = (r2u2_value_t [R2U2_MAX_BZ_INSTRUCTIONS]){0}, \
-      .atomic_buffer = (r2u2_bool [R2U2_MAX_ATOMICS]){0}, \
-      .aux_info_arena = {(r2u2_formula_aux_info_t [R2U2_AUX_MAX_FORMULAS]){0}, (r2u2_contract_aux_info_t [R2U2_AUX_MAX_CONTRACTS]){0}, (char [R2U2_MAX_AUX_BYTES]) {0}, 0, 0}, \
-      .queue_arena = {(r2u2_scq_control_block_t [R2U2_MAX_TL_INSTRUCTIONS]){0}, \
-                      (r2u2_verdict [R2U2_MAX_QUEUE_SLOTS + (R2U2_MAX_TEMPORAL_OPERATORS * R2U2_TEMPORAL_METADATA_SIZE)]){0}}, \
+      .signal_vector = (r2u2_value_t [R2U2_EXTENT(R2U2_MAX_SIGNALS)]){0}, \
+      .value_buffer = (r2u2_value_t [R2U2_EXTENT(R2U2_MAX_BZ_INSTRUCTIONS)]){0}, \
+      .atomic_buffer = (r2u2_bool [R2U2_EXTENT(R2U2_MAX_ATOMICS)]){0}, \
+      .aux_info_arena = {(r2u2_formula_aux_info_t [R2U2_EXTENT(R2U2_AUX_MAX_FORMULAS)]){0}, (r2u2_contract_aux_info_t [R2U2_EXTENT(R2U2_AUX_MAX_CONTRACTS)]){0}, (char [R2U2_EXTENT(R2U2_MAX_AUX_BYTES)]) {0}, 0, 0}, \
+      .queue_arena = {(r2u2_scq_control_block_t [R2U2_EXTENT(R2U2_MAX_TL_INSTRUCTIONS)]){0}, \
+                      (r2u2_verdict [R2U2_EXTENT(R2U2_MAX_QUEUE_SLOTS + (R2U2_MAX_TEMPORAL_OPERATORS * R2U2_TEMPORAL_METADATA_SIZE))]){0}}, \
     }
 #else
   #define R2U2_DEFAULT_MONITOR \
@@ -87,16 +91,16 @@ typedef struct {
       .time_stamp = 0, \
       .progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP, \
       .bz_program_count = (program_count_t){0,0}, \
-      .bz_instruction_tbl = (r2u2_bz_instruction_t [R2U2_MAX_BZ_INSTRUCTIONS]){0}, \
+      .bz_instruction_tbl = (r2u2_bz_instruction_t [R2U2_EXTENT(R2U2_MAX_BZ_INSTRUCTIONS)]){0}, \
       .mltl_program_count = (program_count_t){0,0}, \
-      .mltl_instruction_tbl = (r2u2_mltl_instruction_t [R2U2_MAX_TL_INSTRUCTIONS]){0}, \
+      .mltl_instruction_tbl = (r2u2_mltl_instruction_t [R2U2_EXTENT(R2U2_MAX_TL_INSTRUCTIONS)]){0}, \
       .out_file = NULL, \
       .out_func = NULL, \
-      .signal_vector = (r2u2_value_t [R2U2_MAX_SIGNALS]){0}, \
-      .value_buffer = (r2u2_value_t [R2U2_MAX_BZ_INSTRUCTIONS]){0}, \
-      .atomic_buffer = (r2u2_bool [R2U2_MAX_ATOMICS]){0}, \
-      .queue_arena = {(r2u2_scq_control_block_t [R2U2_MAX_TL_INSTRUCTIONS]){0}, \
-                      (r2u2_verdict [R2U2_MAX_QUEUE_SLOTS + (R2U2_MAX_TEMPORAL_OPERATORS * R2U2_TEMPORAL_METADATA_SIZE)]){0}}, \
+      .signal_vector = (r2u2_value_t [R2U2_EXTENT(R2U2_MAX_SIGNALS)]){0}, \
+      .value_buffer = (r2u2_value_t [R2U2_EXTENT(R2U2_MAX_BZ_INSTRUCTIONS)]){0}, \
+      .atomic_buffer = (r2u2_bool [R2U2_EXTENT(R2U2_MAX_ATOMICS)]){0}, \
+      .queue_arena = {(r2u2_scq_control_block_t [R2U2_EXTENT(R2U2_MAX_TL_INSTRUCTIONS)]){0}, \
+                      (r2u2_verdict [R2U2_EXTENT(R2U2_MAX_QUEUE_SLOTS + (R2U2_MAX_TEMPORAL_OPERATORS * R2U2_TEMPORAL_METADATA_SIZE))]){0}}, \
     }
 #endif
 
-- 
2.43.0


From 04ca268c280c4409d62827e47a754116a7ea353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 22/71] fix: over-long specification names are reported but the
 binary is still written, without names

---
 compiler/c2po/assemble.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index d6f20c1..71ef71f 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -973,12 +973,12 @@ def pack_instruction(
     return binary_len + binary
 
 
-def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> tuple[list[AliasInstruction], bytes]:
+def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> Optional[tuple[list[AliasInstruction], bytes]]:
     """
     `options` is a dictionary of options for the assembly.
     - `aux`: Whether to include aux data (e.g., contract status and specification naming)
 
-    Returns a tuple of (list of AliasInstructions, bytes)
+    Returns a tuple of (list of AliasInstructions, bytes), or None if an alias cannot be packed
     - The list of AliasInstructions to be packed
     - The bytes of the packed AliasInstructions
     """
@@ -988,16 +988,16 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     for spec in program.get_specs():
         if isinstance(spec, cpt.Contract):
             log.internal(f"contract found during assembly: {spec}")
-            return ([], bytes())
+            return None
         elif not isinstance(spec, cpt.Formula):
-            return ([], bytes())
+            return None
 
         if options["aux"] and len(spec.symbol) > 50:
             log.error(
                 f"specification identifier name '{spec.symbol}' is too long, please choose a shorter name (limit 50 characters)", 
                 spec.loc,
             )
-            return ([], bytes())
+            return None
 
         alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
         aliases.append(alias)
@@ -1052,7 +1052,10 @@ def assemble(
     binary += b"\x00"
 
     if options["aux"]:
-        (aliases, binary_aliases) = pack_aliases(program, context, options)
+        packed_aliases = pack_aliases(program, context, options)
+        if packed_aliases is None:
+            return command.ReturnCode.ASSEMBLY_ERROR
+        (aliases, binary_aliases) = packed_aliases
         assembly += aliases
         binary += binary_aliases
     else:
-- 
2.43.0


From 83b9adf94ac3b279a0d86d0b5a1ed1731b679513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 23/71] fix: rewriting drops operands of conjunctions and
 disjunctions with three or more operands

---
 compiler/c2po/rewrite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..9ae7a1e 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -129,8 +129,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                     lb = expr.interval.lb + opnd1.interval.lb
                     ub = expr.interval.ub + opnd1.interval.ub
                     new = cpt.TemporalOperator.Future(expr.loc, lb, ub, opnd2)
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND) and len(expr.children) == 2:
+            # These rules are for binary operators, others are left as they are
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
@@ -220,8 +220,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                         cpt.Operator.LogicalAnd(expr.loc, [lhs_lhs, rhs_lhs]),
                         lhs_rhs
                     )
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR) and len(expr.children) == 2:
+            # These rules are for binary operators, others are left as they are
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
-- 
2.43.0


From 9d9c11f78fefa288da716596c8956a235f46299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 24/71] fix: to_nnf leaves negations of what a removed double
 negation uncovers

---
 compiler/c2po/cpt.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index eaf4ad0..4880008 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1647,7 +1647,7 @@ def preorder(
 ) -> Iterator[Expression]:
     """Performs a preorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[Expression] = []
-    visited: set[int] = set()
+    visited: dict[int, Expression] = {} # keeps the visited expressions alive, so that their IDs stay unique
 
     if isinstance(start, Expression):
         stack.append(start)
@@ -1660,14 +1660,17 @@ def preorder(
         if id(expr) in visited:
             continue
 
-        yield expr
+        visited[id(expr)] = expr
+        prev_replacement = expr.replacement
 
-        # if expr has been replaced since we just yielded it, need to traverse down the replacement node
-        cur = expr.replacement if expr.replacement else expr
+        yield expr
 
-        visited.add(id(cur))
+        # if expr has been replaced since we just yielded it, need to traverse the replacement node instead
+        if expr.replacement and expr.replacement is not prev_replacement:
+            stack.append(expr.replacement)
+            continue
 
-        for child in reversed(cur.children):
+        for child in reversed(expr.children):
             stack.append(child)
 
 def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expression]) -> Expression:
-- 
2.43.0


From f43759b610f0a7400825220612aad55ff79a7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 25/71] fix: to_bnf leaves <-> in the formula

---
 compiler/c2po/transform.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 0dd4e06..0d4b97b 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -60,6 +60,29 @@ def to_bnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
                     ],
                 )
             )
+        elif expr.operator is cpt.OperatorKind.LOGICAL_EQUIV:
+            lhs = expr.children[0]
+            rhs = expr.children[1]
+            # p <-> q = !(p && !q) && !(!p && q)
+            expr.replace(
+                cpt.Operator.LogicalAnd(
+                    expr.loc,
+                    [
+                        cpt.Operator.LogicalNegate(
+                            lhs.loc,
+                            cpt.Operator.LogicalAnd(
+                                lhs.loc, [lhs, cpt.Operator.LogicalNegate(rhs.loc, rhs)]
+                            ),
+                        ),
+                        cpt.Operator.LogicalNegate(
+                            rhs.loc,
+                            cpt.Operator.LogicalAnd(
+                                lhs.loc, [cpt.Operator.LogicalNegate(lhs.loc, lhs), rhs]
+                            ),
+                        ),
+                    ],
+                )
+            )
         elif expr.operator is cpt.OperatorKind.FUTURE:
             expr = cast(cpt.TemporalOperator, expr)
             operand = expr.children[0]
-- 
2.43.0


From bdd319373137f71435365e8a555f576532be6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 26/71] fix: to_nnf does not push negations through past-time
 operators

---
 compiler/c2po/transform.py | 62 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 0d4b97b..d79a096 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -292,6 +292,68 @@ def to_nnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
                         cpt.Operator.LogicalNegate(rhs.loc, rhs),
                     )
                 )
+            elif cpt.is_operator(operand, cpt.OperatorKind.ONCE):
+                operand = cast(cpt.TemporalOperator, operand)
+                bounds = operand.interval
+
+                # !O p = H !p
+                expr.replace(
+                    cpt.TemporalOperator.Historical(
+                        expr.loc,
+                        bounds.lb,
+                        bounds.ub,
+                        cpt.Operator.LogicalNegate(operand.loc, operand.children[0]),
+                    )
+                )
+            elif cpt.is_operator(operand, cpt.OperatorKind.HISTORICAL):
+                operand = cast(cpt.TemporalOperator, operand)
+                bounds = operand.interval
+
+                # !H p = O !p
+                expr.replace(
+                    cpt.TemporalOperator.Once(
+                        expr.loc,
+                        bounds.lb,
+                        bounds.ub,
+                        cpt.Operator.LogicalNegate(operand.loc, operand.children[0]),
+                    )
+                )
+            elif cpt.is_operator(operand, cpt.OperatorKind.SINCE):
+                operand = cast(cpt.TemporalOperator, operand)
+
+                lhs = operand.children[0]
+                rhs = operand.children[1]
+
+                bounds = operand.interval
+
+                # !(p S q) = !p T !q
+                expr.replace(
+                    cpt.TemporalOperator.Trigger(
+                        expr.loc,
+                        bounds.lb,
+                        bounds.ub,
+                        cpt.Operator.LogicalNegate(lhs.loc, lhs),
+                        cpt.Operator.LogicalNegate(rhs.loc, rhs),
+                    )
+                )
+            elif cpt.is_operator(operand, cpt.OperatorKind.TRIGGER):
+                operand = cast(cpt.TemporalOperator, operand)
+
+                lhs = operand.children[0]
+                rhs = operand.children[1]
+
+                bounds = operand.interval
+
+                # !(p T q) = !p S !q
+                expr.replace(
+                    cpt.TemporalOperator.Since(
+                        expr.loc,
+                        bounds.lb,
+                        bounds.ub,
+                        cpt.Operator.LogicalNegate(lhs.loc, lhs),
+                        cpt.Operator.LogicalNegate(rhs.loc, rhs),
+                    )
+                )
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
             lhs = expr.children[0]
             rhs = expr.children[1]
-- 
2.43.0


From 8752f49b98e16aa081207fad38668b29689ce4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 27/71] fix: expressions shared by future-time and past-time
 formulas get wrong registers and unconfigured queues

---
 compiler/c2po/assemble.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 71ef71f..731e100 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -723,6 +723,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
     ft_instructions: dict[cpt.Expression, TLInstruction] = {}
     pt_instructions: dict[cpt.Expression, TLInstruction] = {}
     cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
+    pt_cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
 
     # For tracking scq usage across FT and PT
     ft_scqs: int = 0
@@ -780,7 +781,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
             log.debug(1, f"Generating: {expr}\n\t" f"{pt_instructions[expr]}")
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip. Otherwise it is an
@@ -789,13 +790,15 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             continue
 
         if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
-            bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
+            # FT formulas may use this very node as well (e.g., via a definition)
+            if expr not in bz_instructions:
+                bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
             if not new_pt_instruction:
                 return None
             pt_instructions[expr] = new_pt_instruction
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
     # value after current iteration)
@@ -805,7 +808,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-    cg_instructions_ordered = [cg_instr for cg_instrs in cg_instructions.values() for cg_instr in cg_instrs]
+    cg_instructions_ordered = [cg_instr for cg_instrs in [*cg_instructions.values(), *pt_cg_instructions.values()] for cg_instr in cg_instrs]
     idx = 0
     end_of_instructions = len(cg_instructions_ordered)
     while idx < end_of_instructions:
-- 
2.43.0


From 517562ec625f0af87e2df45d3342f177099367f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 28/71] fix: csv reader writes past the input buffers when a
 trace has more columns than the specification reads

---
 monitors/c/src/cli/csv_trace.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index d5f4375..9c6dd24 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -17,6 +17,9 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
     if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
   }
   
+  // Only this many signals fit in the monitor's input buffer
+  const uintptr_t limit = (monitor->bz_program_count.max_program_count == 0) ? R2U2_MAX_ATOMICS : R2U2_MAX_SIGNALS;
+
   for(i = 0, signal = strtok(csv_reader->in_buf, ",\n"); signal; i++, signal = strtok(NULL, ",\n")) {
     // Follow the pointer to the signal vector, then assign the ith element
     // Note this is a pointer into the r2u2_csv_reader_t in_buf which must
@@ -35,7 +38,8 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
       if (signal == NULL) signal = strtok(NULL, ",\n");
       if (signal == NULL) break;
     }
-    r2u2_load_string_signal(monitor, i, signal);
+    // Traces may hold more columns than the specification reads
+    if (i < limit) r2u2_load_string_signal(monitor, i, signal);
   }
 
   return R2U2_OK;
-- 
2.43.0


From 4505288c0584525b81234a0423ae5b9e9d4bf364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 29/71] fix: generate_map fails for programs with input arrays

---
 compiler/c2po/map.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 816e9f7..4b00bd9 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -103,9 +103,15 @@ def generate_map(
     output_file = options["output"]
     
     if not cpt.has_valid_signal_mapping(program, context):
+        # Each element of an input array is a signal of its own
+        symbols = list(context.signals.items())
         mapping: types.SignalMapping = {}
-        for i, signal in enumerate(context.signals):
-            mapping[signal] = i
+        while len(symbols) > 0:
+            (symbol, type) = symbols.pop(0)
+            if isinstance(type, types.ArrayType):
+                symbols = [(f"{symbol}[{i}]", type.member_type) for i in range(type.size)] + symbols
+            else:
+                mapping[symbol] = len(mapping)
 
         missing = cpt.assign_signal_ids(program, context, mapping)
         if len(missing) > 0:
-- 
2.43.0


From 35c4b3141f1f7f4b0b111473d419abde9fdccc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 30/71] fix: resolve accesses through bound struct variables,
 and unroll one-element sets and arrays without one-operand operators

---
 compiler/c2po/desugar.py | 172 ++++++++++++++++++---------------------
 1 file changed, 79 insertions(+), 93 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index a0358ed..07af0f3 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -152,18 +152,15 @@ resolve_contracts_command = command.Command(
 command.CommandRegistry.register(resolve_contracts_command)
 
 
-def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+def resolve_access(expr: cpt.Expression) -> bool:
     """
-    Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
-    Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
+    Replaces `expr` with the expression it accesses, if it is an access to a known struct or array. An access to a struct or array that is not known yet (for example, to a member of a bound variable) is left as it is.
+    Returns False if the access is out-of-bounds, True otherwise.
     """
-    def resolve_struct_accesses(expr: cpt.Expression, context: cpt.Context) -> None:
-        if not isinstance(expr, cpt.StructAccess):
-            return
-
+    if isinstance(expr, cpt.StructAccess):
         s = expr.get_struct()
         if not isinstance(s, cpt.Struct):
-            return
+            return True
 
         member = s.get_member(expr.member)
         if not member:
@@ -171,49 +168,71 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                              f"Please open an issue at {log.ISSUE_URL}.")
 
         new_type = member.type
-        if member:
-            expr.replace(member)
-            member.type = new_type
+        expr.replace(member)
+        member.type = new_type
+    elif isinstance(expr, (cpt.ArrayIndex, cpt.ArraySlice)):
+        array = expr.get_array()
+        if not isinstance(array, cpt.ArrayExpression):
+            return True
+
+        # Not all out-of-bounds errors are checked during type checking
+        # Ex: a struct has an array member type of uninterpreted size,
+        # must check this case here
+        last = expr.get_index() if isinstance(expr, cpt.ArrayIndex) else max(expr.get_indices())
+        if last >= len(array.children):
+            log.error(f"out-of-bounds array index ({expr})", expr.loc)
+            return False
+
+        if isinstance(expr, cpt.ArrayIndex):
+            expr.replace(array.children[expr.get_index()])
+        else:
+            start, stop = expr.get_indices()
+            expr.replace(cpt.ArrayExpression(expr.loc, array.children[start : stop + 1]))
 
+    return True
+
+def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+    """
+    Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
+    Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
+    """
     for expr in program.preorder(context):
         if not isinstance(expr, cpt.SetAggregation):
             continue
 
         if expr.operator is cpt.SetAggregationKind.FOR_EACH:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(expr.get_set(), context)]):
+                return command.ReturnCode.ERROR
 
-            new = cpt.Operator.LogicalAnd(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
-            )
+            members = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            # A conjunction needs at least two operands
+            new = cpt.Operator.LogicalAnd(expr.loc, members) if len(members) > 1 else members[0]
 
             expr.replace(new)
 
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(new, context)]):
+                return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_SOME:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(expr.get_set(), context)]):
+                return command.ReturnCode.ERROR
 
-            new = cpt.Operator.LogicalOr(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
-            )
+            members = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            # A disjunction needs at least two operands
+            new = cpt.Operator.LogicalOr(expr.loc, members) if len(members) > 1 else members[0]
 
             expr.replace(new)
 
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(new, context)]):
+                return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_EXACTLY:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(expr.get_set(), context)]):
+                return command.ReturnCode.ERROR
 
             num = expr.get_num()
             if not num:
@@ -223,10 +242,11 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                 expr.loc,
                 cpt.Operator.ArithmeticAdd(
                     expr.loc,
+                    # A sum needs at least two operands
                     [
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
-                    ],
+                    ] + [cpt.Constant(expr.loc, 0)] * (len(expr.get_set().children) == 1),
                     types.IntType(),
                 ),
                 num,
@@ -234,11 +254,11 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             expr.replace(new)
 
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(new, context)]):
+                return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_LEAST:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(expr.get_set(), context)]):
+                return command.ReturnCode.ERROR
 
             num = expr.get_num()
             if not num:
@@ -248,10 +268,11 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                 expr.loc,
                 cpt.Operator.ArithmeticAdd(
                     expr.loc,
+                    # A sum needs at least two operands
                     [
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
-                    ],
+                    ] + [cpt.Constant(expr.loc, 0)] * (len(expr.get_set().children) == 1),
                     types.IntType(),
                 ),
                 num,
@@ -259,11 +280,11 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             expr.replace(new)
 
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(new, context)]):
+                return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_MOST:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(expr.get_set(), context)]):
+                return command.ReturnCode.ERROR
 
             num = expr.get_num()
             if not num:
@@ -273,10 +294,11 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                 expr.loc,
                 cpt.Operator.ArithmeticAdd(
                     expr.loc,
+                    # A sum needs at least two operands
                     [
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
-                    ],
+                    ] + [cpt.Constant(expr.loc, 0)] * (len(expr.get_set().children) == 1),
                     types.IntType(),
                 ),
                 num,
@@ -284,8 +306,8 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             expr.replace(new)
 
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+            if not all([resolve_access(subexpr) for subexpr in cpt.postorder(new, context)]):
+                return command.ReturnCode.ERROR
 
     log.debug(1, f"post set aggregation unrolling:\n{repr(program)}")
 
@@ -342,45 +364,10 @@ def resolve_array_accesses(program: cpt.Program, context: cpt.Context, options:
     Resolves array access operations to the underlying member expression.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
+    # The struct accesses in between array accesses (as in `s.m[0].n[1]`) can only be resolved along with them
     for expr in program.postorder(context):
-        if isinstance(expr, cpt.ArrayIndex):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            if not isinstance(expr.get_array().type, types.ArrayType):
-                log.error(f"array access on a non-array expression, did you run type_check first? ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-                
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_index() >= array_type.size:
-                log.error(f"out-of-bounds array index ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-
-            array = expr.get_array()
-            expr.replace(array.children[expr.get_index()])
-        
-        elif isinstance(expr, cpt.ArraySlice):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_indices()[0] >= array_type.size or expr.get_indices()[1] >= array_type.size:
-                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                context.status = False
-                continue
-
-            array = expr.get_array()
-
-            new = cpt.ArrayExpression(
-                expr.loc,
-                [
-                    array.children[i]
-                    for i in range(expr.get_indices()[0], expr.get_indices()[1]+1)
-                ],
-            )
-            expr.replace(new)
+        if not resolve_access(expr):
+            return command.ReturnCode.ERROR
 
     log.debug(1, f"post array access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
@@ -404,13 +391,12 @@ def unroll_array_accesses(program: cpt.Program, context: cpt.Context, options: d
 
         if isinstance(expr.children[0], cpt.ArrayExpression) and isinstance(expr.children[1], cpt.ArrayExpression):
             if cpt.is_relational_operator(expr) and isinstance(expr, cpt.Operator): # Only relational operators supported for now
-                new = cpt.Operator.LogicalAnd(
-                    expr.loc,
-                    [
-                        cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
-                        for x in range(len(expr.children[0].children))
-                    ],
-                )
+                comparisons: list[cpt.Expression] = [
+                    cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
+                    for x in range(len(expr.children[0].children))
+                ]
+                # A conjunction needs at least two operands
+                new = cpt.Operator.LogicalAnd(expr.loc, comparisons) if len(comparisons) > 1 else comparisons[0]
 
                 expr.replace(new)
 
-- 
2.43.0


From e55b1b2e666405a5a436327b60f73249c568b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 31/71] fix: push copies the program together with its context,
 and pop restores all of it

---
 compiler/c2po/cpt.py | 107 +++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 55 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 4880008..484e930 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -127,8 +127,9 @@ class Expression(Node):
     def __repr__(self) -> str:
         return to_prefix_str(self, with_internal_labels=True)
 
-    def deepcopy(self, context: Context) -> Expression:
-        return deepcopy_expr(self, context, {})
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> Expression:
+        """Deeply copies this expression. The expressions in `memo` are not copied again, so calls with the same `memo` share what the originals share."""
+        return deepcopy_expr(self, context, {} if memo is None else memo)
 
 class Match(Expression):
     def __init__(self, loc: log.FileLocation, name: str, match_function: Callable[[str], bool]) -> None:
@@ -1117,8 +1118,9 @@ class SpecificationSet(Expression):
     def __str__(self) -> str:
         return "spec_set"
 
-    def deepcopy(self, context: Context) -> SpecificationSet:
-        children = [c.deepcopy(context) for c in self.children]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> SpecificationSet:
+        memo = {} if memo is None else memo
+        children = [c.deepcopy(context, memo) for c in self.children]
         new = SpecificationSet(self.loc, cast("list[Specification]", children))
         self.copy_attrs(new)
         return new
@@ -1139,8 +1141,8 @@ class StructDefinition(Node):
         members_str_list = [str(s) + ";" for s in self.var_decls]
         return self.symbol + ": {" + " ".join(members_str_list) + "}"
     
-    def deepcopy(self, context: Context) -> StructDefinition:
-        var_decls = [v.deepcopy(context) for v in self.var_decls]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> StructDefinition:
+        var_decls = [v.deepcopy(context, memo) for v in self.var_decls]
         new = StructDefinition(self.loc, self.symbol, var_decls)
         return new
     
@@ -1159,8 +1161,8 @@ class EnumDefinition(Node):
         members_str_list = [str(s) + "," for s in self.var_defs]
         return self.symbol + ": {" + " ".join(members_str_list) + "}"
     
-    def deepcopy(self, context: Context) -> EnumDefinition:
-        var_defs = [v.deepcopy(context) for v in self.var_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumDefinition:
+        var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
         new = EnumDefinition(self.loc, self.symbol, var_defs)
         return new
 
@@ -1173,7 +1175,7 @@ class VariableDeclaration(Node):
     def __str__(self) -> str:
         return f"{','.join(self.variables)}: {str(self.type)}"
 
-    def deepcopy(self, context: Context) -> VariableDeclaration:
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> VariableDeclaration:
         variables = [str(v) for v in self.variables]
         new = VariableDeclaration(self.loc, variables, self.type)
         return new
@@ -1187,8 +1189,8 @@ class Definition(Node):
     def __str__(self) -> str:
         return f"{self.symbol} := {self.expr}"
 
-    def deepcopy(self, context: Context) -> Definition:
-        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context))
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> Definition:
+        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context, memo))
         return new
 
 class StructSection(Node):
@@ -1202,14 +1204,9 @@ class StructSection(Node):
         structs_str_list = [str(s) + ";" for s in self.struct_defs]
         return "STRUCT\n\t" + "\n\t".join(structs_str_list)
     
-    def deepcopy(self, context: Context) -> StructSection:
-        struct_defs = [s.deepcopy(context) for s in self.struct_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> StructSection:
+        struct_defs = [s.deepcopy(context, memo) for s in self.struct_defs]
         new = StructSection(self.loc, struct_defs)
-
-        # Update context
-        for struct_def in new.struct_defs:
-            context.add_struct(struct_def.symbol, struct_def.members)
-
         return new
     
 class EnumSection(Node):
@@ -1223,14 +1220,9 @@ class EnumSection(Node):
         enums_str_list = [str(s) + ";" for s in self.enum_defs]
         return "ENUM\n\t" + "\n\t".join(enums_str_list)
     
-    def deepcopy(self, context: Context) -> EnumSection:
-        enum_defs = [s.deepcopy(context) for s in self.enum_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumSection:
+        enum_defs = [s.deepcopy(context, memo) for s in self.enum_defs]
         new = EnumSection(self.loc, enum_defs)
-
-        # Update context
-        for enum_def in new.enum_defs:
-            context.add_enum(enum_def.symbol, enum_def.members)
-
         return new
 
 class InputSection(Node):
@@ -1244,15 +1236,9 @@ class InputSection(Node):
         signals_str_list = [str(s) + ";" for s in self.signal_decls]
         return "INPUT\n\t" + "\n\t".join(signals_str_list)
 
-    def deepcopy(self, context: Context) -> InputSection:
-        signal_decls = [s.deepcopy(context) for s in self.signal_decls]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> InputSection:
+        signal_decls = [s.deepcopy(context, memo) for s in self.signal_decls]
         new = InputSection(self.loc, signal_decls)
-
-        # Update context
-        for signal_decl in new.signal_decls:
-            for signal in signal_decl.variables:
-                context.add_signal(signal, signal_decl.type)
-
         return new
 
 class DefineSection(Node):
@@ -1264,14 +1250,9 @@ class DefineSection(Node):
         defines_str_list = [str(s) + ";" for s in self.defines]
         return "DEFINE\n\t" + "\n\t".join(defines_str_list)
 
-    def deepcopy(self, context: Context) -> DefineSection:
-        defines = [d.deepcopy(context) for d in self.defines]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> DefineSection:
+        defines = [d.deepcopy(context, memo) for d in self.defines]
         new = DefineSection(self.loc, defines)
-
-        # Update context
-        for define in new.defines:
-            context.add_definition(define.symbol, define.expr)
-
         return new
 
 class SpecSection(Node):
@@ -1279,17 +1260,9 @@ class SpecSection(Node):
         super().__init__(loc)
         self.specs = specs
 
-    def deepcopy(self, context: Context) -> SpecSection:
-        specs = [cast(Specification, s.deepcopy(context)) for s in self.specs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> SpecSection:
+        specs = [cast(Specification, s.deepcopy(context, memo)) for s in self.specs]
         new = type(self)(self.loc, specs)
-
-        # Update context
-        for spec in new.specs:
-            if isinstance(spec, Formula):
-                context.add_formula(spec.symbol, spec)
-            elif isinstance(spec, Contract):
-                context.add_contract(spec.symbol, spec)
-
         return new
 
 class FutureTimeSpecSection(SpecSection):
@@ -1424,9 +1397,12 @@ class Program(Node):
     def __repr__(self) -> str:
         return "\n".join([repr(s) for s in self.get_specs()])
 
-    def deepcopy(self, context: Context) -> Program:
-        sections = [s.deepcopy(context) for s in self.sections]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> Program:
+        sections = [s.deepcopy(context, memo) for s in self.sections]
         new = Program(self.loc, sections)
+        # The specifications to compile and the ones in the sections differ once a command replaces one of them
+        new.ft_spec_set = self.ft_spec_set.deepcopy(context, memo)
+        new.pt_spec_set = self.pt_spec_set.deepcopy(context, memo)
         new.total_scq_size = self.total_scq_size
         new.is_dummy = self.is_dummy
         new.is_well_typed = self.is_well_typed
@@ -1500,6 +1476,7 @@ class Context:
         """
         self.definitions.clear()
         self.structs.clear()
+        self.enums.clear()
         self.signals.clear()
         self.variables.clear()
         self.specifications.clear()
@@ -1574,6 +1551,7 @@ class Context:
         new = Context()
         new.definitions = { k: v for k, v in self.definitions.items() }
         new.structs = { k: v for k, v in self.structs.items() }
+        new.enums = { k: dict(v) for k, v in self.enums.items() }
         new.signals = { k: v for k, v in self.signals.items() }
         new.variables = { k: v for k, v in self.variables.items() }
         new.specifications = { k: v for k, v in self.specifications.items() }
@@ -1583,9 +1561,9 @@ class Context:
         new.bound_vars = { k: v for k, v in self.bound_vars.items() }
         new.signal_mapping = { k: v for k, v in self.signal_mapping.items() }
 
-        # Deepcopy is not needed for the assembly list
+        # The instructions themselves are never changed
         # TODO: Consider warning user? Or have a check that assembly matches the program?
-        new.assembly = self.assembly 
+        new.assembly = list(self.assembly)
 
         new.trace = self.trace
         new.binary = self.binary
@@ -1602,6 +1580,9 @@ class Context:
         new.map_filename = self.map_filename
         new.egglog_path = self.egglog_path
         new.smt_solver_path = self.smt_solver_path
+        new.r2u2_c_path = self.r2u2_c_path
+        new.r2u2_bin_path = self.r2u2_bin_path
+        new.r2u2_output = self.r2u2_output
         new.mission_time = self.mission_time
         new.enable_booleanizer = self.enable_booleanizer
         new.script_filename = self.script_filename
@@ -1712,6 +1693,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = SymbolicIntervalVariable(expr.loc, expr.symbol)
         elif isinstance(expr, ArrayExpression):
             new = ArrayExpression(expr.loc, [memo[id(c)] for c in expr.children])
+        elif isinstance(expr, ArraySlice):
+            new = ArraySlice(expr.loc, memo[id(expr.children[0])], expr.start, expr.stop)
         elif isinstance(expr, ArrayIndex):
             new = ArrayIndex(expr.loc, memo[id(expr.children[0])], expr.index)
         elif isinstance(expr, Struct):
@@ -1776,8 +1759,22 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
     return memo[id(start)]
 
 def deepcopy_program_with_context(program: Program, context: Context) -> tuple[Program, Context]:
-    new_program = program.deepcopy(context)
+    """Deeply copies `program` and `context`: the copies share no expression with the originals, and the copied context refers to the expressions of the copied program."""
+    memo: dict[int, Expression] = {}
     new_context = context.deepcopy()
+    new_program = program.deepcopy(new_context, memo)
+
+    def copy(expr: Expression) -> Expression:
+        return expr.deepcopy(new_context, memo)
+
+    new_context.definitions = { k: copy(v) for k, v in context.definitions.items() }
+    new_context.enums = { k: { m: copy(e) for m, e in v.items() } for k, v in context.enums.items() }
+    new_context.specifications = { k: cast(Formula, copy(v)) for k, v in context.specifications.items() }
+    new_context.contracts = { k: cast(Contract, copy(v)) for k, v in context.contracts.items() }
+    new_context.bound_vars = { k: cast(ArrayExpression, copy(v)) for k, v in context.bound_vars.items() }
+    new_context.atomic_id_map = { copy(k): v for k, v in context.atomic_id_map.items() }
+    new_context.atomic_expr_map = { k: copy(v) for k, v in context.atomic_expr_map.items() }
+
     return new_program, new_context
 
 def rename(
-- 
2.43.0


From 39fc5c5b3784a4dbc1754440ddceecfcba4349bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 32/71] fix: a past-time formula that is a constant crashes the
 assembler instead of being reported

---
 compiler/c2po/assemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 731e100..9741a23 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -557,6 +557,11 @@ def gen_pt_instruction(
     ptid = len(instructions)
 
     if isinstance(expr, cpt.Formula):
+        # Special case: if formula is a constant, report error
+        if isinstance(expr.get_expr(), cpt.Constant):
+            log.error(f"found constant formula '{expr}', this is not supported")
+            return None
+
         operand1_type, operand1_value = (
             TLOperandType.SUBFORMULA,
             instructions[expr.get_expr()].id,
-- 
2.43.0


From 52193ac432ffda05edc83fc94526e6c8a2b6137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 33/71] fix: printed enums and counting set aggregations cannot
 be read back

---
 compiler/c2po/cpt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 484e930..fc623c1 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1158,8 +1158,8 @@ class EnumDefinition(Node):
             self.members[var_def.symbol] = var_def.expr
 
     def __str__(self) -> str:
-        members_str_list = [str(s) + "," for s in self.var_defs]
-        return self.symbol + ": {" + " ".join(members_str_list) + "}"
+        members_str_list = [f"{s.symbol}: {s.expr}" for s in self.var_defs]
+        return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
     def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumDefinition:
         var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
@@ -2020,9 +2020,13 @@ def to_infix_str(start: Expression) -> str:
                 s += f"{expr.symbol}({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
-                s += ")("
+            elif seen == 1 and expr.get_num() is not None:
+                s += ", "
                 stack.append((seen + 1, expr))
+                stack.append((0, cast(Expression, expr.get_num())))
+            elif seen <= 2:
+                s += ")("
+                stack.append((3, expr))
                 stack.append((0, expr.get_expr()))
             else:
                 s += ")"
-- 
2.43.0


From 92e7944567bd0c039fe7603583c72c38187a6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 34/71] fix: xor written in MLTL-standard text cannot be read
 back

---
 compiler/c2po/cpt.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index fc623c1..3b5f3b1 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2219,10 +2219,15 @@ def to_mltl_std(program: Program, context: Context) -> str:
                 else:
                     mltl += ")"
             elif is_temporal_operator(expr) or is_logical_operator(expr):
+                # MLTL standard has no xor: it is written with <->, negated if that flips the result
+                negate = (
+                    is_operator(expr, OperatorKind.LOGICAL_XOR)
+                    and len(expr.children) % 2 == 0
+                )
                 if seen == len(expr.children):
-                    mltl += ")"
+                    mltl += "))" if negate else ")"
                 elif seen == 0:
-                    mltl += "("
+                    mltl += "(!(" if negate else "("
                     stack.append((seen + 1, expr))
                     stack.append((0, expr.children[seen]))
                 else:
@@ -2230,6 +2235,8 @@ def to_mltl_std(program: Program, context: Context) -> str:
                         symbol = "&"
                     elif is_operator(expr, OperatorKind.LOGICAL_OR):
                         symbol = "|"
+                    elif is_operator(expr, OperatorKind.LOGICAL_XOR):
+                        symbol = "<->"
                     else:
                         symbol = expr.symbol
 
-- 
2.43.0


From 307e5c93862421ba4349dedd01df5bdb2a5b14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 35/71] fix: the mission time option is ignored when C2PO text
 is parsed, and the session's when MLTL text is

---
 compiler/c2po/parse_c2po.py | 7 ++++++-
 compiler/c2po/parse_mltl.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index c1a420f..282f516 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -712,8 +712,13 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.clear() 
     context.set_spec_filename(options["filename"])
 
+    # the command's own option takes precedence over the session's mission time
+    mission_time = options["mission_time"]
+    if mission_time < 0:
+        mission_time = context.mission_time
+
     lexer: C2POLexer = C2POLexer(options["filename"])
-    parser: C2POParser = C2POParser(options["filename"], context.mission_time)
+    parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status or not lexer.status:
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 7f586c9..4934b12 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -274,8 +274,13 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.clear() 
     context.set_spec_filename(options["filename"])
 
+    # the command's own option takes precedence over the session's mission time
+    mission_time = options["mission_time"]
+    if mission_time < 0:
+        mission_time = context.mission_time
+
     lexer: MLTLLexer = MLTLLexer(options["filename"])
-    parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
+    parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status:
-- 
2.43.0


From a9d4e73bd619f68e29b7de1af5ca18a8c143bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 36/71] fix: an empty set literal crashes the parser

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 282f516..8619cc5 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -413,7 +413,7 @@ class C2POParser(sly.Parser):
     # Empty array expression
     @_("LBRACE RBRACE")
     def expr(self, p):
-        return cpt.ArrayExpression(ln, [])
+        return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [])
 
     # Parameterized set aggregation expression
     @_("KW_FOREXACTLY LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
-- 
2.43.0


From 2f3c7bdd73ca4718c8c39429ecafd855b7797d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 37/71] fix: negative array indices are read as positive ones,
 and the index just past the end type checks

---
 compiler/c2po/type_check.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 779e76f..2a5d43f 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -155,14 +155,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if (abs(expr.start) > array_type.size or abs(expr.stop) > array_type.size) and array_type.size > -1:
+            if (
+                expr.start < 0
+                or expr.stop < 0
+                or (expr.stop >= array_type.size and array_type.size > -1)
+            ):
                 log.error(f"Out-of-bounds array index ({expr})", expr.loc)
                 return False
 
-            if expr.start < 0:
-                expr.start = -expr.start
-            if expr.stop < 0:
-                expr.stop = -expr.stop
             if expr.start > expr.stop:
                 log.error(f"Invalid array index ({expr}), {expr.start} is greater than {expr.stop}", expr.loc)
                 return False
@@ -179,13 +179,10 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if abs(expr.index) > array_type.size and array_type.size > -1:
+            if expr.index < 0 or (expr.index >= array_type.size and array_type.size > -1):
                 log.error(f"out-of-bounds array index ({expr})", expr.loc)
                 return False
 
-            if expr.index < 0:
-                expr.index = -expr.index
-
             # Hacky special case where the array is a signal array, we use a temporary signal to
             # avoid repeating code
             if isinstance(expr.get_array(), cpt.Variable):
-- 
2.43.0


From f9bb0e036fba9012aa944e70055f170d91de612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 38/71] fix: arithmetic operators and ~ accept Boolean operands

---
 compiler/c2po/type_check.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 2a5d43f..fd5c1f7 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -382,7 +382,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                         expr.loc,
                     )
                     return False
-                elif child.type != new_type or not types.is_integer_type(child.type):
+                elif (
+                    child.type != new_type
+                    or not types.is_integer_type(child.type)
+                    or (
+                        expr.operator is cpt.OperatorKind.BITWISE_NEGATE
+                        and types.is_bool_type(child.type)
+                    )
+                ):
                     log.error(
                         f"Invalid operands for '{expr.symbol}', found '{child.type}' ('{child}') but expected '{new_type}'\n    {expr}",
                         expr.loc,
@@ -458,6 +465,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
 
+            if new_type not in [types.IntType(), types.FloatType()]:
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', found '{new_type}' but expected 'int' or 'float'\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             expr.type = new_type
         elif cpt.is_relational_operator(expr):
             expr = cast(cpt.Operator, expr)
-- 
2.43.0


From 06eb93b51bb507759fba4924737cec1e5378555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 39/71] fix: float modulo passes the type checker and then
 crashes the assembler

---
 compiler/c2po/type_check.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index fd5c1f7..8366287 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -423,6 +423,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
                 
+            if expr.operator is cpt.OperatorKind.ARITHMETIC_MODULO and new_type == types.FloatType():
+                log.error(
+                    f"modulo invalid for float expressions, the monitor does not support it\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             if expr.operator is cpt.OperatorKind.ARITHMETIC_SQRT:
                 rhs = expr.children[0]
                 if rhs.type == types.IntType():
-- 
2.43.0


From a0953a20b893c612467363c9515e4c368a5cbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 40/71] fix: arrays of Booleans are compared for order

---
 compiler/c2po/type_check.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 8366287..d0ad361 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -526,7 +526,11 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if types.is_bool_type(lhs.type) and expr.operator not in {
+            compared_type = lhs.type
+            if isinstance(compared_type, types.ArrayType):
+                compared_type = compared_type.member_type
+
+            if types.is_bool_type(compared_type) and expr.operator not in {
                 cpt.OperatorKind.EQUAL,
                 cpt.OperatorKind.NOT_EQUAL,
             }:
-- 
2.43.0


From 4abf75ac234ca225f2968210cc253965d36838af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 41/71] fix: definitions with future-time operators are
 refused, and labels mix times unnoticed until the assembler crashes

---
 compiler/c2po/cpt.py        | 11 +++++++----
 compiler/c2po/type_check.py | 39 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 3b5f3b1..bb55a4b 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1440,7 +1440,7 @@ class Context:
         self.stats: stats.Stats = stats.Stats()
 
         # Status flags
-        self.is_ft = False
+        self.is_ft: Optional[bool] = None # None outside of FTSPEC and PTSPEC sections
         self.has_future_time = False
         self.has_past_time = False
         self.status = True
@@ -1490,7 +1490,7 @@ class Context:
         self.constraints.clear()
         self.stats = stats.Stats()
         self.trace_length = -1
-        self.is_ft = False
+        self.is_ft = None
         self.has_future_time = False
         self.has_past_time = False
         self.status = True
@@ -1508,10 +1508,10 @@ class Context:
         return symbols
 
     def is_future_time(self) -> bool:
-        return self.is_ft
+        return self.is_ft is True
 
     def is_past_time(self) -> bool:
-        return not self.is_ft
+        return self.is_ft is False
 
     def set_future_time(self) -> None:
         self.is_ft = True
@@ -1519,6 +1519,9 @@ class Context:
     def set_past_time(self) -> None:
         self.is_ft = False
 
+    def set_any_time(self) -> None:
+        self.is_ft = None
+
     def add_signal(self, symbol: str, t: types.Type) -> None:
         self.signals[symbol] = t
 
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index d0ad361..4c4c30b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -1,7 +1,34 @@
-from typing import cast, Any
+from typing import cast, Any, Optional
 from c2po import cpt, log, types, command
 
 
+def find_mixed_time(start: cpt.Expression, context: cpt.Context) -> Optional[cpt.Expression]:
+    """Returns a temporal operator in `start`, or in what it refers to by name, that may not be used in the current section, if any."""
+    stack: list[cpt.Expression] = [start]
+    visited: dict[int, cpt.Expression] = {}
+
+    while len(stack) > 0:
+        expr = stack.pop()
+        if id(expr) in visited:
+            continue
+        visited[id(expr)] = expr
+
+        if context.is_past_time() and cpt.is_future_time_operator(expr):
+            return expr
+        if context.is_future_time() and cpt.is_past_time_operator(expr):
+            return expr
+
+        if isinstance(expr, cpt.Variable):
+            if expr.symbol in context.definitions:
+                stack.append(context.definitions[expr.symbol])
+            elif expr.symbol in context.specifications:
+                stack.append(context.specifications[expr.symbol])
+
+        stack.extend(expr.children)
+
+    return None
+
+
 def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[str, Any]) -> bool:
     """Returns True `start` is well-typed."""
     log.debug(2, f"type checking: {repr(start)}")
@@ -121,6 +148,15 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             else:
                 log.error(f"symbol '{symbol}' not recognized", expr.loc)
                 return False
+
+            if symbol not in context.bound_vars:
+                mixed = find_mixed_time(expr, context)
+                if mixed is not None:
+                    log.error(
+                        f"mixed-time formulas unsupported, '{symbol}' refers to a formula of the other time\n    {mixed}",
+                        expr.loc,
+                    )
+                    return False
         elif isinstance(expr, cpt.Atomic):
             expr.type = types.BoolType()
         elif isinstance(expr, cpt.SymbolicIntervalVariable):
@@ -656,6 +692,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 ]
                 [type_check_expr(sig, context, options) for sig in signals]
     elif isinstance(section, cpt.DefineSection):
+        context.set_any_time()
         for definition in section.defines:
             if definition.symbol in symbols:
                 status = False
-- 
2.43.0


From dc50f65446a46c338e1fe1c5e4acce1b09681233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 42/71] fix: a struct instantiated with too few or too many
 members type checks

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 4c4c30b..a26ccef 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -263,7 +263,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             target_types = [m for m in context.structs[expr.symbol].values()]
             actual_types = [c.type for c in expr.children]
 
-            if any(
+            if len(target_types) != len(actual_types) or any(
                 [
                     target_type != actual_type
                     for target_type, actual_type in zip(target_types, actual_types)
-- 
2.43.0


From fdf1975d2505ede02891d6cc2743ffd6f631e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 43/71] fix: an input, definition or label may take the name of
 an earlier enum or enum member

---
 compiler/c2po/type_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index a26ccef..2a2b660 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -719,7 +719,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
             context.add_struct(struct.symbol, struct.members)
     elif isinstance(section, cpt.EnumSection):
         for enum in section.enum_defs:
-            if enum.symbol in context.get_symbols():
+            if enum.symbol in symbols or enum.symbol in context.get_symbols():
                 status = False
                 log.error(
                     f"Symbol '{enum.symbol}' already in use",
@@ -738,6 +738,8 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Symbol '{member_name}' already in use",
                         enum.loc,
                     )
+            symbols.add(enum.symbol)
+            symbols.update(enum.members.keys())
             context.add_enum(enum.symbol, enum.members)
     elif isinstance(section, cpt.SpecSection):
         if isinstance(section, cpt.FutureTimeSpecSection):
-- 
2.43.0


From a9dcc3388aaff6af82c620cd3e25a715242dded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 44/71] fix: a struct or enum may declare the same member twice

---
 compiler/c2po/parse_c2po.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 8619cc5..7e56114 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -191,6 +191,16 @@ class C2POParser(sly.Parser):
     def section(self, p):
         return []
 
+    def check_unique(self, members: list[str], lineno: int) -> None:
+        """Reports members of a struct or enum that are declared more than once."""
+        for i, member in enumerate(members):
+            if member in members[:i]:
+                self.status = False
+                log.error(
+                    f"member '{member}' declared more than once",
+                    log.FileLocation(self.filename, lineno),
+                )
+
     @_("KW_STRUCT struct struct_list")
     def struct_section(self, p):
         return cpt.StructSection(log.FileLocation(self.filename, p.lineno), [p[1]] + p[2])
@@ -214,6 +224,8 @@ class C2POParser(sly.Parser):
             # for v in variables:
             #     members[v] = type
 
+        self.check_unique([v for decl in members for v in decl.variables], p.lineno)
+
         return cpt.StructDefinition(log.FileLocation(self.filename, p.lineno), p[0], members)
     
     @_("KW_ENUM enum enum_list")
@@ -240,6 +252,8 @@ class C2POParser(sly.Parser):
             member_def = cpt.Definition(ln, variable, value)
             members.append(member_def)
 
+        self.check_unique([member.symbol for member in members], p.lineno)
+
         return cpt.EnumDefinition(log.FileLocation(self.filename, p.lineno), p[0], members)
     
     @_("enum_declaration_list enum_declaration")
-- 
2.43.0


From a02f9a3954ce5350f3754cbdacd2cde5b9b2520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 45/71] fix: a bound variable stays declared after its set
 aggregation, may hide an input, and an inner one of the same name crashes the
 compiler

---
 compiler/c2po/cpt.py        |  8 +++++++-
 compiler/c2po/type_check.py | 13 +++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index bb55a4b..2eaa094 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1598,6 +1598,7 @@ def postorder(
     """Performs a postorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[tuple[bool, Expression]] = []
     visited: set[int] = set()
+    shadowed: list[Optional[ArrayExpression]] = [] # bindings hidden by the ones of inner set aggregations
 
     if isinstance(start, Expression):
         stack.append((False, start))
@@ -1609,9 +1610,13 @@ def postorder(
 
         if seen and isinstance(expr, SetAggregation):
             del context.bound_vars[expr.bound_var.symbol]
+            outer = shadowed.pop()
+            if outer is not None:
+                context.bound_vars[expr.bound_var.symbol] = outer
             yield expr
             continue
         elif seen and isinstance(expr, Bind):
+            shadowed.append(context.bound_vars.get(expr.bound_var.symbol))
             context.bound_vars[expr.bound_var.symbol] = expr.get_set()
             continue
         elif seen:
@@ -1789,9 +1794,10 @@ def rename(
         return repl
 
     new: Node = expr.deepcopy(context)
+    binding = context.bound_vars.get(target.symbol)
 
     for node in postorder(new, context):
-        if target == node:
+        if target == node and context.bound_vars.get(target.symbol) is binding: # not bound again within `expr`
             node.replace(repl)
 
     return new
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 2a2b660..268389e 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -284,11 +284,16 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             expr.type = types.StructType(expr.symbol, is_const)
         elif isinstance(expr, cpt.SetAggregation):
             s: cpt.ArrayExpression = expr.get_set()
-            boundvar: cpt.Variable = expr.bound_var
+            symbol = expr.bound_var.symbol
 
-            if isinstance(s.type, types.ArrayType):
-                context.add_variable(boundvar.symbol, s.type.member_type)
-            else:
+            if symbol not in context.bound_vars and (
+                symbol in context.get_symbols()
+                or any(symbol in members for members in context.enums.values())
+            ):
+                log.error(f"symbol '{symbol}' already in use", expr.loc)
+                return False
+
+            if not isinstance(s.type, types.ArrayType):
                 log.error(
                     f"set aggregation set must be Set type (found '{s.type}')",
                     expr.loc,
-- 
2.43.0


From 9e11c8daa6f826bec3a533c1d68ea3d2bff2069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 46/71] fix: an enum member outside the integer range is
 accepted and wraps around

---
 compiler/c2po/type_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 268389e..5856e65 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -737,6 +737,8 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
                         enum.loc,
                     )
+                elif not type_check_expr(member_expr, context, options):
+                    status = False
                 if member_name in context.get_symbols() or member_name == enum.symbol:
                     status = False
                     log.error(
-- 
2.43.0


From a8fb4fa17bd971621941c7af758b6ef44ac378b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 47/71] fix: a set aggregation over something that is no array
 is reported as a bug of the compiler

---
 compiler/c2po/type_check.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 5856e65..66748db 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -111,9 +111,9 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if symbol in context.bound_vars:
                 set_expr = context.bound_vars[symbol]
                 if not types.is_array_type(set_expr.type):
-                    log.internal(
-                        f"set aggregation set not assigned to type 'set', found '{set_expr.type}'\n    "
-                        f"{expr}",
+                    log.error(
+                        f"set aggregation set must be Set type (found '{set_expr.type}')",
+                        expr.loc,
                     )
                     return False
 
-- 
2.43.0


From 880c68273f091afebf13be94b88714496864ddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 48/71] fix: propagation delays stale after a definition is
 expanded, queues too short and bit-vector encodings too narrow

---
 compiler/c2po/cpt.py       | 46 ++++++++++++++++++++++++++------------
 compiler/c2po/eqsat.py     |  1 +
 compiler/c2po/sat.py       |  2 ++
 compiler/c2po/scq.py       |  2 ++
 compiler/c2po/transform.py |  2 ++
 5 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 2eaa094..be54c29 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -524,14 +524,18 @@ class Operator(Expression):
         self.operator: OperatorKind = op_kind
         self.symbol: str = op_kind.value
 
-        self.wpd = max([c.wpd for c in children])
-        self.bpd = min([c.bpd for c in children])
+        Operator.update_propagation_delay(self)
 
         if is_temporal_operator(self) or is_logical_operator(self):
             self.engine = types.R2U2Engine.TEMPORAL_LOGIC
         else:
             self.engine = types.R2U2Engine.BOOLEANIZER
 
+    def update_propagation_delay(self) -> None:
+        """Computes the best- and worst-case propagation delays from those of the children."""
+        self.wpd = max([c.wpd for c in self.children])
+        self.bpd = min([c.bpd for c in self.children])
+
     @staticmethod
     def Min(loc: log.FileLocation, operands: list[Expression]) -> Operator:
         new = Operator(loc, OperatorKind.MIN, operands)
@@ -780,8 +784,24 @@ class TemporalOperator(Operator):
         super().__init__(loc, operator, children)
         self.interval = ConcreteInterval(lb, ub)
         self.symbol = f"{operator.value}[{lb},{ub}]"
-        self.bpd = min([c.bpd for c in children]) + lb
-        self.wpd = max([c.wpd for c in children]) + ub
+        self.update_propagation_delay()
+
+    def update_propagation_delay(self) -> None:
+        (lb, ub) = self.interval
+        super().update_propagation_delay()
+
+        if self.operator in {OperatorKind.HISTORICAL, OperatorKind.ONCE}:
+            operand = self.children[0]
+            self.bpd = operand.bpd - ub
+            self.wpd = operand.bpd - lb
+        elif self.operator in {OperatorKind.SINCE, OperatorKind.TRIGGER}:
+            (lhs, rhs) = self.children
+            # A constant left operand is known ahead of time, as in once/historically
+            self.bpd = rhs.bpd - ub if isinstance(lhs, Constant) else self.bpd - lb
+            self.wpd -= lb
+        else:
+            self.bpd += lb
+            self.wpd += ub
 
     @staticmethod
     def Global(
@@ -822,8 +842,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.HISTORICAL, lb, ub, [operand])
         operator.type = types.BoolType()
-        operator.bpd = operand.bpd - ub
-        operator.wpd = operand.bpd - lb
         return operator
 
     @staticmethod
@@ -832,8 +850,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.ONCE, lb, ub, [operand])
         operator.type = types.BoolType()
-        operator.bpd = operand.bpd - ub
-        operator.wpd = operand.bpd - lb
         return operator
 
     @staticmethod
@@ -842,9 +858,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.SINCE, lb, ub, [lhs, rhs])
         operator.type = types.BoolType()
-        # A constant left operand is known ahead of time, as in once/historically
-        operator.bpd = rhs.bpd - ub if isinstance(lhs, Constant) else min(lhs.bpd, rhs.bpd) - lb
-        operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
     @staticmethod
@@ -852,9 +865,6 @@ class TemporalOperator(Operator):
         loc: log.FileLocation, lb: int, ub: int, lhs: Expression, rhs: Expression
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.TRIGGER, lb, ub, [lhs, rhs])
-        # A constant left operand is known ahead of time, as in once/historically
-        operator.bpd = rhs.bpd - ub if isinstance(lhs, Constant) else min(lhs.bpd, rhs.bpd) - lb
-        operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
 class SymbolicTemporalOperator(Operator):
@@ -1785,6 +1795,14 @@ def deepcopy_program_with_context(program: Program, context: Context) -> tuple[P
 
     return new_program, new_context
 
+def update_propagation_delays(
+    start: Union[Expression, list[Expression]], context: Context
+) -> None:
+    """Recomputes the propagation delays of `start` and each expression in it. Required after replacing sub-expressions, `replace` does not do so for the expressions that contain the replaced one."""
+    for expr in postorder(start, context):
+        if isinstance(expr, Operator):
+            expr.update_propagation_delay()
+
 def rename(
     target: Expression, repl: Expression, expr: Expression, context: Context
 ) -> Expression:
diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 4ff23f2..d473caf 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -111,6 +111,7 @@ def to_egglog(
             egglog += "\n\n"
     elif options["greedy_extraction"]:
         with open(GREEDY_COST_PATH, "r") as f:
+            cpt.update_propagation_delays(start, context)
             # To force extraction to avoid extended operators, we set their costs to wpd * 2. 
             # No term in the egraph will have a cost greater than this.
             egglog += f.read().replace("MAX_COST", str(start.wpd * 2))
diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7b559e2..6477bce 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1009,6 +1009,8 @@ def to_smt(
     """Encodes the given expression into an SMT encoding and returns it. Returns None if the encoding fails."""
     log.debug(2, f"encoding expression:\n\t{repr(expr)}")
 
+    cpt.update_propagation_delays(expr, context)
+
     start = util.get_rusage_time()
     if theory == SMTTheory.UFLIA:
         smt = to_uflia_smtlib2(expr, context, strict)
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 8f2b80f..21b7f1b 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -11,6 +11,8 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     scq_constant = options["scq_constant"]
     total_scq_size = 0
 
+    cpt.update_propagation_delays(cast("list[cpt.Expression]", program.get_specs()), context)
+
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
             continue
diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index d79a096..05777f3 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -585,6 +585,8 @@ def sort_operands_by_pd(program: cpt.Program, context: cpt.Context, options: dic
     """Sorts all operands of commutative operators by increasing worst-case propagation delay.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
+    cpt.update_propagation_delays(cast("list[cpt.Expression]", program.get_specs()), context)
+
     for expr in program.postorder(context):
         if not cpt.is_commutative_operator(expr):
             continue
-- 
2.43.0


From ba506ddcf4ec4a0d58e4f2e6149a388994ae5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 49/71] fix: QF_UFLIA satisfiability check leaves out the last
 step of the trace

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 6477bce..478d4a8 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -596,8 +596,8 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         smt_commands.append("(declare-fun len () Int)")
         smt_commands.append(f"(assert ({expr_map[start]} 0 len))")
     else:
-        # wpd proxy for cplen (okay since wpd >= cplen)
-        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd}))")
+        # wpd + 1 proxy for cplen (okay since wpd + 1 >= cplen)
+        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd + 1}))")
 
     smt_commands.append("(check-sat)")
 
-- 
2.43.0


From be29783cecec42ac3132098e0ea4f0ddbe7031d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 50/71] fix: UFLIA satisfiability check takes F[0,0] and F[1,1]
 as true past the end of the trace

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 478d4a8..ad10d45 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -800,9 +800,9 @@ def to_uflia_smtlib2(
                 # Special case for F[0,0] phi and F[1,1] phi -- no need for quantifier
                 # This is necessary for performance reasons, many FRET formulas timeout without this optimization
                 if lb == "0" and ub == "0":
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == "1" and ub == "1":
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
                 result = f"(assert (<= {lb} {ub}))\n"
             else: 
@@ -811,9 +811,9 @@ def to_uflia_smtlib2(
                 ub = expr.interval.ub
 
                 if lb == 0 and ub == 0:
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == 1 and ub == 1:
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
             return result + f"({fun_signature} (and (> len (+ {lb} k)) (exists ((i Int)) (and (<= (+ {lb} k) i) (<= i (+ {ub} k)) ({expr_map[expr.children[0]]} i len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.UNTIL):
-- 
2.43.0


From 932110bed29477d0f31e1a658e8b0670a4243cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 51/71] fix: UFLIA satisfiability check ignores the length of
 all but two operands of && and ||

---
 compiler/c2po/sat.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index ad10d45..9df2668 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -620,6 +620,7 @@ def to_uflia_smtlib2(
     is_nonlinear: bool = False
     has_mission_time: bool = False
     status: bool = True
+    num_cplens: int = 0
 
     def smt_min_expr(expr1: str, expr2: str) -> str:
         return f"(ite (<= {expr1} {expr2}) {expr1} {expr2})"
@@ -851,6 +852,13 @@ def to_uflia_smtlib2(
             status = False
             return ""
 
+    def define_cplen(cplen: str) -> str:
+        """Names `cplen`, so that expressions that use it more than once do not repeat it."""
+        nonlocal num_cplens
+        num_cplens += 1
+        smt_commands.append(f"(define-fun cplen_{num_cplens} () Int {cplen})")
+        return f"cplen_{num_cplens}"
+
     def expr_to_cplen(
         expr_: cpt.Expression,
         constr_cache: dict[cpt.Expression, str],
@@ -888,9 +896,13 @@ def to_uflia_smtlib2(
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
                 cplen = cplen_cache[expr.children[0]]
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = define_cplen(smt_max_expr(cplen, cplen_cache[child]))
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = define_cplen(smt_max_expr(cplen, cplen_cache[child]))
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
                 cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_EQUIV):
-- 
2.43.0


From 615385bd30543a322fa091bc4c157654e2bf4776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 52/71] fix: satisfiability check rounds integer quotients to
 negative infinity, the monitor to zero

---
 compiler/c2po/sat.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 9df2668..5606a73 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -168,6 +168,10 @@ def to_smt_type(t: types.Type) -> str:
         return "Real"
     return "NoType"
 
+def smt_truncated(op: str, lhs: str, rhs: str) -> str:
+    """Returns the quotient (`div`) or remainder (`mod`) of the SMT functions `lhs` and `rhs` as the monitor computes them: rounded towards zero, where SMT-LIB rounds towards negative infinity for positive divisors."""
+    return f"(ite (>= ({lhs} k len) 0) ({op} ({lhs} k len) ({rhs} k len)) (- ({op} (- ({lhs} k len)) ({rhs} k len))))"
+
 def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool) -> Optional[str]:
     """Encodes the given expression into an SMT encoding using the QF_BV theory and returns it. Returns None if the encoding fails."""
     log.debug(
@@ -481,12 +485,12 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {smt_truncated('div', expr_map[expr.children[0]], expr_map[expr.children[1]])})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {smt_truncated('mod', expr_map[expr.children[0]], expr_map[expr.children[1]])})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             smt_commands.append(
@@ -732,10 +736,10 @@ def to_uflia_smtlib2(
             return f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
-            return f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {smt_truncated('div', expr_map[expr.children[0]], expr_map[expr.children[1]])})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
-            return f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {smt_truncated('mod', expr_map[expr.children[0]], expr_map[expr.children[1]])})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
-- 
2.43.0


From f02fa125ac8d15a94f923466a3092a75ddac8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 53/71] fix: QF_UFLIA satisfiability check crashes on a unary
 minus

ARITHMETIC_NEGATE is an alias of ARITHMETIC_SUBTRACT, so the two-operand
branch also took a negation.
---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 5606a73..2bbec0b 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -473,7 +473,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             smt_commands.append(
                 f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT):
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-- 
2.43.0


From 9ab7594b563da85c48e4cb7dc2ce62b18a9f3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 54/71] fix: equivalence check answers equiv when a formula
 cannot be encoded

---
 compiler/c2po/sat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 2bbec0b..5685724 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1414,9 +1414,10 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
         expr1 = spec1.get_expr()
         expr2 = spec2.get_expr()
         equiv_smt = to_smt_equiv(expr1, expr2, context, theory, options["strict"])
-        if equiv_smt is None:
+        if not equiv_smt:
             log.error("failed to generate SMT encoding for equivalence", spec1.loc)
             status = False
+            equiv = equiv if equiv == EquivResult.NOT_EQUIV else EquivResult.UNKNOWN
             continue
 
         result = run_smt_solver(
-- 
2.43.0


From 5c7c9912e87e1aa10e5547b237f006431da81744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 55/71] fix: quotients in interval bounds and constraints are
 encoded as reals, which the solver refuses

---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 5685724..a75214d 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -668,7 +668,7 @@ def to_uflia_smtlib2(
                 cache[expr] = f"(* {cache[expr.children[0]]} {cache[expr.children[1]]})"
             elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
                 is_nonlinear = True
-                cache[expr] = f"(/ {cache[expr.children[0]]} {cache[expr.children[1]]})"
+                cache[expr] = f"(div {cache[expr.children[0]]} {cache[expr.children[1]]})"
             elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
                 is_nonlinear = True
                 cache[expr] = f"(mod {cache[expr.children[0]]} {cache[expr.children[1]]})"
-- 
2.43.0


From 20edca2e4a08bad48951e168630f00f73a3e23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 56/71] fix: in equivalence files * and / do not bind tighter
 than + and -

---
 compiler/c2po/parse_equiv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index a394c2f..c7bbcce 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -96,7 +96,8 @@ class MLTLEquivParser(sly.Parser):
         ("left", TL_UNTIL, TL_RELEASE),
         ("left", REL_EQ, REL_NEQ),
         ("left", REL_GT, REL_LT, REL_GTE, REL_LTE),
-        ("left", ARITH_ADD, ARITH_SUB, ARITH_MUL, ARITH_DIV),
+        ("left", ARITH_ADD, ARITH_SUB),
+        ("left", ARITH_MUL, ARITH_DIV),
         ("right", LOG_NEG, TL_GLOBAL, TL_FUTURE),
         ("right", LPAREN, MIN, MAX)
     )
-- 
2.43.0


From 2ba792176199ede7dbe94e57185eb45278916dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 57/71] fix: equivalence check distinguishes formulas by
 intervals with negative lower bounds

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index a75214d..5a5a272 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -782,7 +782,7 @@ def to_uflia_smtlib2(
                 elif lb == "1" and ub == "1":
                     return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
-                result = f"(assert (<= {lb} {ub}))\n"
+                result = f"(assert (<= 0 {lb} {ub}))\n"
             else: 
                 expr = cast(cpt.TemporalOperator, expr)
                 lb = expr.interval.lb
@@ -809,7 +809,7 @@ def to_uflia_smtlib2(
                 elif lb == "1" and ub == "1":
                     return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
-                result = f"(assert (<= {lb} {ub}))\n"
+                result = f"(assert (<= 0 {lb} {ub}))\n"
             else: 
                 expr = cast(cpt.TemporalOperator, expr)
                 lb = expr.interval.lb
@@ -829,7 +829,7 @@ def to_uflia_smtlib2(
                 expr = cast(cpt.SymbolicTemporalOperator, expr)
                 lb = interval_constraint_to_smt(expr.interval.lb, constr_cache)
                 ub = interval_constraint_to_smt(expr.interval.ub, constr_cache)
-                result = f"(assert (<= {lb} {ub}))\n"
+                result = f"(assert (<= 0 {lb} {ub}))\n"
             else: 
                 expr = cast(cpt.TemporalOperator, expr)
                 lb = expr.interval.lb
@@ -844,7 +844,7 @@ def to_uflia_smtlib2(
                 expr = cast(cpt.SymbolicTemporalOperator, expr)
                 lb = interval_constraint_to_smt(expr.interval.lb, constr_cache)
                 ub = interval_constraint_to_smt(expr.interval.ub, constr_cache)
-                result = f"(assert (<= {lb} {ub}))\n"
+                result = f"(assert (<= 0 {lb} {ub}))\n"
             else: 
                 expr = cast(cpt.TemporalOperator, expr)
                 lb = expr.interval.lb
-- 
2.43.0


From ea8b50da96df326f08dd30bdda9265969c14e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 58/71] fix: generated Sabre code shifts by the rest of an
 interval across words and within its buffers

---
 compiler/c2po/sabre.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 88ddbc1..d006327 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -236,10 +236,13 @@ uint{word_size}_t future(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+        uint64_t words = leftover_shift >> {log_word_size}, bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + words < nbuf; ++i) {{
+            uint{word_size}_t shifted = buf[i + words] << bits;
+            if (bits != 0 && i + words + 1 < nbuf) {{
+                shifted |= buf[i + words + 1] >> ({word_size} - bits);
+            }}
+            buf[i] |= shifted;
         }}
     }} 
   
@@ -273,10 +276,13 @@ uint{word_size}_t global(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+        uint64_t words = leftover_shift >> {log_word_size}, bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + words < nbuf; ++i) {{
+            uint{word_size}_t shifted = buf[i + words] << bits;
+            if (bits != 0 && i + words + 1 < nbuf) {{
+                shifted |= buf[i + words + 1] >> ({word_size} - bits);
+            }}
+            buf[i] &= shifted;
         }}
     }} 
     
@@ -319,13 +325,13 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf2[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i] & buf2[i + (leftover_shift >> {log_word_size})] :
-                buf1[i] & ((buf2[i] << leftover_shift) | (buf2[i+1] >> ({word_size} - leftover_shift)));
-            buf1[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i + (leftover_shift >> {log_word_size})] :
-                (buf1[i] << leftover_shift) | (buf1[i+1] >> ({word_size} - leftover_shift));
+        uint64_t words = leftover_shift >> {log_word_size}, bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + words < nbuf; ++i) {{
+            uint{word_size}_t shifted = buf2[i + words] << bits;
+            if (bits != 0 && i + words + 1 < nbuf) {{
+                shifted |= buf2[i + words + 1] >> ({word_size} - bits);
+            }}
+            buf2[i] |= buf1[i] & shifted;
         }}
     }} 
 
-- 
2.43.0


From 93385c39a1b8e54f935d91ebaeea7e1f41007237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 59/71] fix: generated Sabre until looks no further than its
 interval

---
 compiler/c2po/sabre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index d006327..9988d25 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -307,7 +307,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
             );
     }}
 
-    for(j = 1; j <= (({word_size // 2} < ((ub + 1) >> 1)) ? {word_size // 2} : (ub + 1) >> 1); j <<= 1) {{
+    for(j = 1; j <= (({word_size // 2} < ((ub - lb + 1) >> 1)) ? {word_size // 2} : (ub - lb + 1) >> 1); j <<= 1) {{
         for(i = 0; i < nbuf - 1; ++i) {{
             buf2[i] |= buf1[i] & ((buf2[i] << j) | (buf2[i+1] >> ({word_size} - j)));
             buf1[i] &= (buf1[i] << j) | (buf1[i+1] >> ({word_size} - j));
@@ -316,7 +316,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
         buf1[nbuf - 1] &= buf1[nbuf - 1] << j;
     }}
 
-    for(; j <= (ub + 1) >> 1; j <<= 1) {{
+    for(; j <= (ub - lb + 1) >> 1; j <<= 1) {{
         for(i = 0; (i + (j >> {log_word_size})) < nbuf; ++i) {{
             buf2[i] |= buf1[i] & buf2[i + (j >> {log_word_size})];
             buf1[i] &= buf1[i + (j >> {log_word_size})];
-- 
2.43.0


From 1b90a15a5a108170a4dc5b764ca61e5ab6c22dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 60/71] fix: generated Sabre code computes equivalence bit by
 bit

---
 compiler/c2po/sabre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 9988d25..7bcd96f 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -83,7 +83,7 @@ def gen_code(
             rhs = expr.children[1]
             return line(
                 f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = "
-                f"({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] == {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
+                f"~ ({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] ^ {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_XOR):
             lhs = expr.children[0]
-- 
2.43.0


From 89f24abf8f3543ac23ad3acc493132937b3c2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 61/71] fix: generated Sabre code represents true by a word of
 ones

---
 compiler/c2po/sabre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 7bcd96f..9fe7420 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -54,7 +54,7 @@ def gen_code(
         # check if expr is a constant true/false
         if isinstance(expr, cpt.Constant) and expr.value in [True, False]:
             return line(
-                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {int(expr.value)};", indent
+                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {'~ 0' if expr.value else '0'};", indent
             )
         if cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
             return line(
-- 
2.43.0


From 7876990dc3a44e53366682af750f12f40987d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 62/71] fix: generated Sabre code reads the column each signal
 is mapped to

---
 compiler/c2po/sabre.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 9fe7420..f294f7f 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -15,6 +15,12 @@ def hexlit(value: int, word_size: int) -> str:
 def line(s: str, indent: int = 0) -> str:
     return f"{TAB*indent}{s}\n"
 
+def signal_column(signal: cpt.Signal) -> int:
+    """Returns the input column of `signal`: its mapped ID, or the number in its name if there is no mapping."""
+    if signal.signal_id >= 0:
+        return signal.signal_id
+    return int(signal.symbol[1:])
+
 def gen_code(
     formula: cpt.Expression,
     context: cpt.Context,
@@ -133,8 +139,7 @@ def gen_code(
     cnt = 0
     for expr in cpt.postorder(formula, context):
         if isinstance(expr, cpt.Signal):
-            aid = int(str(expr)[1:])
-            fid[expr] = f"atomics[{aid}]"
+            fid[expr] = f"atomics[{signal_column(expr)}]"
         else:
             fid[expr] = f"f_{cnt}"
             cnt += 1
@@ -455,11 +460,6 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
     Returns:
         A ReturnCode.SUCCESS if the Sabre code was generated successfully, ReturnCode.ERROR otherwise.
     """
-    if options["nsigs"] == -1:
-        nsigs = program.get_num_signals(context)
-    else:
-        nsigs = options["nsigs"]
-    
     spec = None
     if options["formula"] is None:
         for spec_ in program.ft_spec_set.get_specs():
@@ -489,6 +489,21 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
                 log.error(f"formula symbol '{symbol}' is a contract")
                 return command.ReturnCode.ERROR
 
+    try:
+        columns = [
+            signal_column(expr)
+            for expr in cpt.postorder(spec.get_expr(), context)
+            if isinstance(expr, cpt.Signal)
+        ]
+    except ValueError:
+        log.error("signals must be mapped or be named by a letter and their number (e.g., 'a0')")
+        return command.ReturnCode.ERROR
+    min_nsigs = max(columns, default=0) + 1
+    nsigs = min_nsigs if options["nsigs"] == -1 else options["nsigs"]
+    if nsigs < min_nsigs:
+        log.error(f"formula uses {min_nsigs} signals, but only {nsigs} are given")
+        return command.ReturnCode.ERROR
+
     code = gen_code(spec.get_expr(), context, options["word_size"], nsigs, options["raw_bytes"], options["profile"])
     if code is None:
         log.error(f"failed to generate Sabre code for {spec.symbol}")
-- 
2.43.0


From 40d72154e548fd6652e26a8d6fbc94134c254659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 63/71] fix: Rust monitor loops forever or panics on a constant
 operand

---
 monitors/rust/r2u2_core/src/engines/mltl.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/mltl.rs b/monitors/rust/r2u2_core/src/engines/mltl.rs
index 03f8ade..7c392a6 100644
--- a/monitors/rust/r2u2_core/src/engines/mltl.rs
+++ b/monitors/rust/r2u2_core/src/engines/mltl.rs
@@ -31,11 +31,15 @@ fn check_operand_data(instr: MLTLInstruction, monitor: &mut Monitor, op_num: u8)
             }
         }
         MLTL_OP_TYPE_DIRECT => {
-            if instr.opcode == MLTL_OP_SINCE || instr.opcode == MLTL_OP_TRIGGER {
-                let queue_ctrl = monitor.queue_arena.control_blocks[instr.memory_reference as usize];
-                return Some(r2u2_verdict{time: monitor.time_stamp.saturating_add(queue_ctrl.temporal_block.upper_bound), truth: value != 0});
+            let queue_ctrl = monitor.queue_arena.control_blocks[instr.memory_reference as usize];
+            let time = if instr.opcode == MLTL_OP_SINCE || instr.opcode == MLTL_OP_TRIGGER {
+                monitor.time_stamp.saturating_add(queue_ctrl.temporal_block.upper_bound)
             } else {
-                return Some(r2u2_verdict{time: monitor.time_stamp, truth: value != 0});
+                monitor.time_stamp
+            };
+            // As when reading a queue, only data the parent has yet to consume is ready
+            if time >= queue_ctrl.next_time {
+                return Some(r2u2_verdict{time: time, truth: value != 0});
             }
         }
         MLTL_OP_TYPE_SUBFORMULA => {
-- 
2.43.0


From 8c38de6da4cf57f477aeadc987ca9d1179a0f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 64/71] fix: since/trigger of the Rust monitor keep a
 right-operand edge the left operand has already broken

---
 monitors/rust/r2u2_core/src/engines/mltl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monitors/rust/r2u2_core/src/engines/mltl.rs b/monitors/rust/r2u2_core/src/engines/mltl.rs
index 7c392a6..803ef26 100644
--- a/monitors/rust/r2u2_core/src/engines/mltl.rs
+++ b/monitors/rust/r2u2_core/src/engines/mltl.rs
@@ -763,6 +763,8 @@ fn since_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2u2
             }
             if ready_op0 && !value_op0.truth {
                 queue_ctrl.next_time = value_op1.time.saturating_add(1);
+                // Left is false after the edge, so no later timestamp can use it
+                queue_ctrl.temporal_block.edge.truth = false;
                 if value_op1.time >= queue_ctrl.temporal_block.previous.time.saturating_sub(queue_ctrl.temporal_block.lower_bound){
                     verdict.time = value_op1.time.saturating_add(queue_ctrl.temporal_block.lower_bound);
                     verdict.truth = false;
@@ -977,6 +979,8 @@ fn trigger_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2
             }
             if ready_op0 && value_op0.truth {
                 queue_ctrl.next_time = value_op1.time.saturating_add(1);
+                // Left is true after the edge, so no later timestamp can use it
+                queue_ctrl.temporal_block.edge.truth = false;
                 if value_op1.time >= queue_ctrl.temporal_block.previous.time.saturating_sub(queue_ctrl.temporal_block.lower_bound){
                     verdict.time = value_op1.time.saturating_add(queue_ctrl.temporal_block.lower_bound);
                     verdict.truth = true;
-- 
2.43.0


From a2f57f498ab6a2cccb20572e5ddb6b849d391ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 65/71] fix: temporal observers of the Rust monitor stall when
 they consume operands without a result

---
 monitors/rust/r2u2_core/src/engines/mltl.rs | 33 +++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/monitors/rust/r2u2_core/src/engines/mltl.rs b/monitors/rust/r2u2_core/src/engines/mltl.rs
index 803ef26..85eab4d 100644
--- a/monitors/rust/r2u2_core/src/engines/mltl.rs
+++ b/monitors/rust/r2u2_core/src/engines/mltl.rs
@@ -64,6 +64,15 @@ fn push_result(instr: MLTLInstruction, monitor: &mut Monitor, verdict: r2u2_verd
     scq_write(monitor, instr.memory_reference, verdict);
 }
 
+// Data consumed without a new result: loop again to read what follows it
+#[verifier::external]
+fn check_consumed(instr: MLTLInstruction, monitor: &mut Monitor, consumed: r2u2_time){
+    if monitor.progress == MonitorProgressState::ReloopNoProgress &&
+        monitor.queue_arena.control_blocks[instr.memory_reference as usize].next_time > consumed {
+        monitor.progress = MonitorProgressState::ReloopWithProgress;
+    }
+}
+
 #[verifier::external]
 pub fn mltl_update(monitor: &mut Monitor){
     let instr = monitor.mltl_instruction_table[monitor.mltl_program_count.curr_program_count];
@@ -133,16 +142,20 @@ pub fn mltl_update(monitor: &mut Monitor){
         MLTL_OP_UNTIL => {
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("FT UNTIL");
+            let consumed = monitor.queue_arena.control_blocks[instr.memory_reference as usize].next_time;
             let op0 = check_operand_data(instr, monitor, 0);
             let op1 = check_operand_data(instr, monitor, 1);
             if let Some(result) = until_operator(op0.is_some(), op0.unwrap_or_default(), op1.is_some(), op1.unwrap_or_default(), &mut monitor.queue_arena.control_blocks[instr.memory_reference as usize]) { push_result(instr, monitor, result) }
+            check_consumed(instr, monitor, consumed);
         }
         MLTL_OP_RELEASE => {
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("FT RELEASE");
+            let consumed = monitor.queue_arena.control_blocks[instr.memory_reference as usize].next_time;
             let op0 = check_operand_data(instr, monitor, 0);
             let op1 = check_operand_data(instr, monitor, 1);
             if let Some(result) = release_operator(op0.is_some(), op0.unwrap_or_default(), op1.is_some(), op1.unwrap_or_default(), &mut monitor.queue_arena.control_blocks[instr.memory_reference as usize]) { push_result(instr, monitor, result) }
+            check_consumed(instr, monitor, consumed);
         }
         MLTL_OP_ONCE => {
             return;
@@ -153,16 +166,20 @@ pub fn mltl_update(monitor: &mut Monitor){
         MLTL_OP_SINCE => {
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("PT SINCE");
+            let consumed = monitor.queue_arena.control_blocks[instr.memory_reference as usize].next_time;
             let op0 = check_operand_data(instr, monitor, 0);
             let op1 = check_operand_data(instr, monitor, 1);
             if let Some(result) = since_operator(op0.is_some(), op0.unwrap_or_default(), op1.is_some(), op1.unwrap_or_default(), &mut monitor.queue_arena.control_blocks[instr.memory_reference as usize]) { push_result(instr, monitor, result) }
+            check_consumed(instr, monitor, consumed);
         }
         MLTL_OP_TRIGGER => {
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("PT TRIGGER");
+            let consumed = monitor.queue_arena.control_blocks[instr.memory_reference as usize].next_time;
             let op0 = check_operand_data(instr, monitor, 0);
             let op1 = check_operand_data(instr, monitor, 1);
             if let Some(result) = trigger_operator(op0.is_some(), op0.unwrap_or_default(), op1.is_some(), op1.unwrap_or_default(), &mut monitor.queue_arena.control_blocks[instr.memory_reference as usize]) { push_result(instr, monitor, result) }
+            check_consumed(instr, monitor, consumed);
         }
         MLTL_OP_NOT => {
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
@@ -795,6 +812,14 @@ fn since_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2u2
             return Some(verdict);
         }
     }
+    // Result already known up to the data both sides have: move on, as leaving
+    // it unconsumed would hide the next left verdict behind this one
+    if ready_op0 && ready_op1 && value_op0.truth && !value_op1.truth {
+        let tau = min(value_op0.time, value_op1.time);
+        if queue_ctrl.temporal_block.previous.truth && queue_ctrl.temporal_block.previous.time >= tau.saturating_add(queue_ctrl.temporal_block.lower_bound) {
+            queue_ctrl.next_time = max(queue_ctrl.next_time, tau.saturating_add(1));
+        }
+    }
     #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
     debug_print!("Waiting");
     return None;
@@ -1011,6 +1036,14 @@ fn trigger_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2
             return Some(verdict);
         }
     }
+    // Result already known up to the data both sides have: move on, as leaving
+    // it unconsumed would hide the next left verdict behind this one
+    if ready_op0 && ready_op1 && !value_op0.truth && value_op1.truth {
+        let tau = min(value_op0.time, value_op1.time);
+        if queue_ctrl.temporal_block.previous.truth && queue_ctrl.temporal_block.previous.time >= tau.saturating_add(queue_ctrl.temporal_block.lower_bound) {
+            queue_ctrl.next_time = max(queue_ctrl.next_time, tau.saturating_add(1));
+        }
+    }
     #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
     debug_print!("Waiting");
     return None;
-- 
2.43.0


From 197b7cd09d0a4576c11cb81a8299eb145bc77fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 66/71] fix: a node of the Rust monitor could overwrite a
 verdict its parent has not consumed yet

---
 monitors/rust/r2u2_core/src/engines/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/mod.rs b/monitors/rust/r2u2_core/src/engines/mod.rs
index 0fb88aa..7000384 100644
--- a/monitors/rust/r2u2_core/src/engines/mod.rs
+++ b/monitors/rust/r2u2_core/src/engines/mod.rs
@@ -47,16 +47,22 @@ pub fn r2u2_engine_step(monitor: &mut Monitor) -> r2u2_bool{
         }
         match monitor.progress {
             MonitorProgressState::FirstLoop => {
-                // First pass complete, rerun program counter to check for progress
-                monitor.mltl_program_count.curr_program_count = 0;
-                monitor.progress = MonitorProgressState::ReloopNoProgress;
-            }
-            MonitorProgressState::ReloopWithProgress => {
-                // Progress made this loop, rerun program counter
-                monitor.mltl_program_count.curr_program_count = 0;
+                // First pass complete, rerun instructions until none makes progress.
+                // Going backwards and starting over from the end after each progress
+                // lets parents consume a verdict before their child writes the next,
+                // which is what the queues are sized for.
                 monitor.progress = MonitorProgressState::ReloopNoProgress;
+                while monitor.mltl_program_count.curr_program_count > 0 {
+                    monitor.mltl_program_count.curr_program_count -= 1;
+                    mltl_update(monitor);
+                    if monitor.progress == MonitorProgressState::ReloopWithProgress {
+                        monitor.progress = MonitorProgressState::ReloopNoProgress;
+                        monitor.mltl_program_count.curr_program_count = monitor.mltl_program_count.max_program_count;
+                    }
+                }
+                monitor.mltl_program_count.curr_program_count = monitor.mltl_program_count.max_program_count;
             }
-            MonitorProgressState::ReloopNoProgress => {
+            _ => {
                 // End of timestamp, setup for next step
                 match monitor.time_stamp.checked_add(1) {
                     Some(n) => { 
-- 
2.43.0


From bcd05038e43bde4ea41e4909b82777efd3e13cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 67/71] fix: updating the binary of the Rust monitor appends to
 the instructions of the previous one

---
 monitors/rust/r2u2_core/src/memory/monitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/rust/r2u2_core/src/memory/monitor.rs b/monitors/rust/r2u2_core/src/memory/monitor.rs
index 3079430..ad73295 100644
--- a/monitors/rust/r2u2_core/src/memory/monitor.rs
+++ b/monitors/rust/r2u2_core/src/memory/monitor.rs
@@ -87,7 +87,7 @@ impl Monitor{
     pub fn reset(&mut self) {
         self.clock_reset();
         self.bz_program_count.max_program_count = 0;
-        self.bz_program_count.max_program_count = 0;
+        self.mltl_program_count.max_program_count = 0;
         for elem in self.queue_arena.control_blocks.iter_mut() {
             *elem = SCQCtrlBlock::default();
         }
-- 
2.43.0


From fe9d6e6a8bc9290087f60ffeb73d423e4f38c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 68/71] fix: overflow flag of the Rust monitor forgets
 overflows followed by another operation

---
 .../rust/r2u2_core/src/engines/booleanizer.rs | 32 ++++++++++++++-----
 monitors/rust/r2u2_core/src/engines/mod.rs    |  3 ++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/booleanizer.rs b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
index 5d1d647..6f9b12a 100644
--- a/monitors/rust/r2u2_core/src/engines/booleanizer.rs
+++ b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
@@ -192,7 +192,9 @@ pub fn bz_update(monitor: &mut Monitor){
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("BZ INEG");
             let op = monitor.value_buffer[instr.param1 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_negative(op);
+            let (result, overflow) = integer_negative(op);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = (-1 * {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op);
         }
@@ -209,7 +211,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IADD");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_add(op0, op1);
+            let (result, overflow) = integer_add(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} + {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -227,7 +231,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ ISUB");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_subtract(op0, op1);
+            let (result, overflow) = integer_subtract(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} - {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -245,7 +251,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IMUL");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_multiply(op0, op1);
+            let (result, overflow) = integer_multiply(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} * {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -263,7 +271,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IDIV");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_divide(op0, op1);
+            let (result, overflow) = integer_divide(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} / {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -281,7 +291,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ MOD");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_mod(op0, op1);
+            let (result, overflow) = integer_mod(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} % {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -290,7 +302,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IPOW");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_power(op0, op1);
+            let (result, overflow) = integer_power(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} pow {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -323,7 +337,9 @@ pub fn bz_update(monitor: &mut Monitor){
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("BZ IABS");
             let op = monitor.value_buffer[instr.param1 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_absolute_value(op);
+            let (result, overflow) = integer_absolute_value(op);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = (|{}|)", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op);
         }
diff --git a/monitors/rust/r2u2_core/src/engines/mod.rs b/monitors/rust/r2u2_core/src/engines/mod.rs
index 7000384..c0e5ae5 100644
--- a/monitors/rust/r2u2_core/src/engines/mod.rs
+++ b/monitors/rust/r2u2_core/src/engines/mod.rs
@@ -32,6 +32,9 @@ pub fn r2u2_engine_step(monitor: &mut Monitor) -> r2u2_bool{
     #[cfg(feature = "aux_string_specs")]
     (monitor.contract_buffer_idx = 0);
     
+    // The overflow flag covers all operations of this step
+    monitor.overflow_error = false;
+
     // Run booleanizer instructions (once)
     while monitor.bz_program_count.curr_program_count < monitor.bz_program_count.max_program_count {
         bz_update(monitor);
-- 
2.43.0


From 290bad9bc2dea3eeea862d5af816d2f44b30615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 69/71] fix: Rust monitor panics on the remainder of the
 smallest integer by -1

---
 monitors/rust/r2u2_core/src/engines/booleanizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/rust/r2u2_core/src/engines/booleanizer.rs b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
index 6f9b12a..a419268 100644
--- a/monitors/rust/r2u2_core/src/engines/booleanizer.rs
+++ b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
@@ -703,7 +703,8 @@ fn integer_mod(op0: r2u2_int, op1: r2u2_int) -> (result: (r2u2_int, r2u2_bool))
     if op1 == 0 {
         return (0, true);
     } else {
-        return (op0 % op1, false);
+        // The remainder for -1 is 0, also for the smallest integer whose quotient overflows
+        return (op0.wrapping_rem(op1), false);
     }
 }
 
-- 
2.43.0


From 2adac495e0851c5a774d4302fe049213f07a0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:58 +0000
Subject: [PATCH 70/71] fix: >= and <= of the Rust monitor fail on equal
 infinite floats

---
 monitors/rust/r2u2_core/src/engines/booleanizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/booleanizer.rs b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
index a419268..19b1b63 100644
--- a/monitors/rust/r2u2_core/src/engines/booleanizer.rs
+++ b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
@@ -495,7 +495,7 @@ fn integer_greater_than_or_equal(op0: r2u2_int, op1: r2u2_int) -> (result: r2u2_
 #[inline(always)]
 fn float_greater_than_or_equal(op0: r2u2_float, op1: r2u2_float) -> (result: r2u2_int)
 {
-    if (op0 > op1) || (float_equal(op0, op1) == 1) {
+    if (op0 >= op1) || (float_equal(op0, op1) == 1) {
         return 1;
     } else {
         return 0;
@@ -545,7 +545,7 @@ fn integer_less_than_or_equal(op0: r2u2_int, op1: r2u2_int) -> (result: r2u2_int
 #[inline(always)]
 fn float_less_than_or_equal(op0: r2u2_float, op1: r2u2_float) -> (result: r2u2_int)
 {
-    if (op0 < op1) || (float_equal(op0, op1) == 1) {
+    if (op0 <= op1) || (float_equal(op0, op1) == 1) {
         return 1;
     } else {
         return 0;
-- 
2.43.0


From 63a40b3d505d17c8010b06c77c6f1859ac976efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:49 +0000
Subject: [PATCH 71/71] fix: Rust monitor saturates powers by the parity of the
 base instead of the exponent

---
 monitors/rust/r2u2_core/src/engines/booleanizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/rust/r2u2_core/src/engines/booleanizer.rs b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
index 19b1b63..880e7d7 100644
--- a/monitors/rust/r2u2_core/src/engines/booleanizer.rs
+++ b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
@@ -716,7 +716,7 @@ fn integer_power(op0: r2u2_int, op1: r2u2_int) -> (result: (r2u2_int, r2u2_bool)
     match op0.checked_pow(op1 as u32) {
         Some(n) => { return (n, false); },
         None => {
-            if op0 < 0 && ((op0 % 2) != 0){
+            if op0 < 0 && ((op1 % 2) != 0){
                 return (r2u2_int::MIN, true);
             } else {
                 return (r2u2_int::MAX, true);
-- 
2.43.0

