From 66367234438de473b1aeadcc5a8eb77ff4413501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:06 +0000
Subject: [PATCH 01/65] fix: name only the states inside an in-place repeat as
 recurring

When a macro step never ends, states used before the repeat began were also
reported as recurring (and their last use was lost), so a machine could be
recorded as not quasihalting although it does.
---
 Code/Macro/Simulator.py      |  8 ++++++--
 Code/Macro/Turing_Machine.py | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index fbc64c0..f72dc62 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -181,8 +181,12 @@ class Simulator(object):
     # Apply transition
     if self.op_state == Turing_Machine.INF_REPEAT:
       self.inf_reason = io_pb2.INF_MACRO_STEP
-      # TODO(shawn): This is not 100% accurate. We should only ignore states involved in the repeat-in-place, but trans.states_last_seen could include some states before the repeat.
-      self.inf_recur_states = list(trans.states_last_seen.keys())
+      # Only ignore states involved in the repeat-in-place. Note that
+      # trans.states_last_seen can include some states before the repeat.
+      self.inf_recur_states = list(trans.inf_recur_states)
+      if self.compute_steps and self.states_last_seen is not None:
+        for state, trans_last_seen in trans.states_last_seen.items():
+          self.states_last_seen[state] = self.step_num + trans_last_seen
     # Chain move
     elif trans.state_out == self.state and trans.dir_out == self.dir and \
        self.op_state == Turing_Machine.RUNNING:
diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index f3af892..59b4c7b 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -52,7 +52,7 @@ class Transition(object):
                condition,
                symbol_out, state_out, dir_out,
                num_base_steps, states_last_seen,
-               condition_details = None):
+               condition_details = None, inf_recur_states = None):
     self.condition = condition
     self.condition_details = condition_details if condition_details else []
     self.symbol_out = symbol_out
@@ -60,6 +60,8 @@ class Transition(object):
     self.dir_out = dir_out
     self.num_base_steps = num_base_steps
     self.states_last_seen = states_last_seen
+    # If condition == INF_REPEAT: The base states that are part of the repeat.
+    self.inf_recur_states = inf_recur_states
 
   # TODO: Deprecate
   def to_legacy_tuple(self):
@@ -106,6 +108,9 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
   old_config = None
   # Arbitrarily start looking for repeats after ~100 steps (~0.1ms).
   next_config_save = 128
+  # All states seen since `old_config`.
+  recent_states = set()
+  inf_recur_states = None
 
   # Simulate Machine on macro symbol
   while True:
@@ -113,6 +118,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     trans = tm.get_trans_object(symbol, state, dir)
     for state, base_last_seen in trans.states_last_seen.items():
       states_last_seen[state] = num_base_steps + base_last_seen
+      recent_states.add(state)
     num_base_steps += trans.num_base_steps
     num_loops += 1
     tape[pos] = trans.symbol_out
@@ -127,6 +133,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Found a repeated config.
       condition = INF_REPEAT
       condition_details = [pos]
+      inf_recur_states = recent_states
       break
     if num_loops >= next_config_save:
       # Brent's algorithm for loop detection:
@@ -135,6 +142,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       #   any repeat which starts at `init_time` and has period `period`
       #   we'll detect the repeat by step `2 * max(init_time, period)`.
       old_config = (state, dir, pos, list(tape))
+      recent_states = set()
       next_config_save *= 2
 
     if num_loops > max_loops:
@@ -147,6 +155,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Base machine stopped running (HALT, INF_REPEAT, etc.)
       condition = trans.condition
       condition_details = trans.condition_details + [pos]
+      inf_recur_states = trans.inf_recur_states
       break
     if not (0 <= pos < len(tape)):
       # We ran off one end of the macro symbol. We're done.
@@ -160,7 +169,8 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     # Block_Macro_Machine, but Backsymbol_Macro_Machine will need to modify
     # this and state_out.
     symbol_out=tape, state_out=state, dir_out=dir,
-    num_base_steps=num_base_steps, states_last_seen=states_last_seen)
+    num_base_steps=num_base_steps, states_last_seen=states_last_seen,
+    inf_recur_states=inf_recur_states)
 
 
 class Turing_Machine(object):
-- 
2.43.0


From e18d364ce68f1cc3385506a36c0000dc15918715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 02/65] fix: sum cubic and fractional terms of a rule's step
 count exactly

---
 Code/Macro/Proof_System.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..98c198c 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -1470,14 +1470,16 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
       total += rest * N
     elif k_pow == 1:
       # sum_{k=0}^{N-1}(coef * k) = coef * N(N-1)/2
-      total += (rest * N * (N - 1)) // 2
+      total += ae.div(rest * N * (N - 1), 2)
     elif k_pow == 2:
       # sum_{k=0}^{N-1}(coef * k^2) = coef * N(N-1)(2N-1)/6
-      total += (rest * N * (N - 1) * (2 * N - 1)) // 6
+      total += ae.div(rest * N * (N - 1) * (2 * N - 1), 6)
     elif k_pow == 3:
       # sum_{k=0}^{N-1}(coef * k^3) = coef * (N(N-1)/2)^2
       # https://proofwiki.org/wiki/Sum_of_Sequence_of_Cubes
-      total += ((rest * N * (N - 1)) // 2)**2
+      total += ae.div(rest * N * (N - 1) * N * (N - 1), 4)
     else:
       raise NotImplementedError(f"Cannot series sum {term} over {k}")
-  return total
+  # Individual terms may be fractional, but the total never is if `expr` is
+  # integer-valued.
+  return ae.simp_frac(total)
-- 
2.43.0


From c18ccc12bf6599875f95fac477b54d560c7466a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:20 +0000
Subject: [PATCH 03/65] fix: allow exponentials whose smallest value is a small
 integer

---
 Code/Exp_Int.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e412781..5f2386d 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -332,7 +332,12 @@ class ExpInt:
         self.min_value = -math.inf
       else:
         min_terms = sum(min_terms)
-        self.min_value = (min_terms + min_val(self.const)) / self.denom
+        min_numer = min_terms + min_val(self.const)
+        if isinstance(min_numer, int):
+          # Keep this an int (`/` would produce a float).
+          self.min_value = min_numer // self.denom
+        else:
+          self.min_value = min_numer / self.denom
         assert isinstance(self.min_value, (ExpInt, int)), self
       self.vars = set(variables(self.const) | variables(self.denom))
       for term in self.terms:
-- 
2.43.0


From 9669b830eb69781adf52aab481c2ca9657f8c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:55 +0000
Subject: [PATCH 04/65] fix: apply a linear rule at its fixed point

---
 Code/Macro/Rule_Func.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index c7cca12..7b1b1d4 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -91,6 +91,9 @@ class Mult_Func(Func):
     # be very large!
     m_n = exp_int(base = self.coef, exponent = num_reps)
     numer = ((a*m + self.const) * m_n - self.const)
+    if isinstance(numer, int):
+      # a is a fixed point: m_n cancels out.
+      return numer // m
     assert isinstance(numer, (ExpInt, Expression)), numer
     return numer / m
 
-- 
2.43.0


From 09b57414499ffcb5372fa14128375af0d0303426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 05/65] fix: stop looping when an exponential rule maps its
 minimum to itself

---
 Code/Macro/Rule_Func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index 7b1b1d4..e8d81b0 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -137,4 +137,5 @@ class Pow_Func(Func):
           return min
         else:
           # TODO: Add tests that actually use this logic.
-          min = math.ceil(x_bound)
+          # Always make progress (even if x_bound == min exactly).
+          min = max(min + 1, math.ceil(x_bound))
-- 
2.43.0


From b363eb3b770ab3e870e1bfbd5e0fdb7f527f291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:10 +0000
Subject: [PATCH 06/65] fix: linear-recurrence search with a bound of one step
 gives no answer instead of crashing

---
 Code/Lin_Recur_Detect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Lin_Recur_Detect.py b/Code/Lin_Recur_Detect.py
index e816422..f4ded59 100644
--- a/Code/Lin_Recur_Detect.py
+++ b/Code/Lin_Recur_Detect.py
@@ -45,6 +45,7 @@ def lin_detect_not_min(tm : Turing_Machine.Simple_Machine,
   sim = Direct_Simulator.DirectSimulator(tm)
   states_last_seen = {sim.state: sim.step_num}
   sim.step()
+  steps_reset = sim.step_num
 
   while (not max_steps or sim.step_num < max_steps) and not result.success:
     # Brent's algorithm for loop detection:
-- 
2.43.0


From 7bd712f2cc242f8097cc8d2e4f65890661515a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:19 +0000
Subject: [PATCH 07/65] fix: CTL4 looks at the outermost run when deciding what
 may precede the last two symbols

---
 Code/CTL4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 24f4419..7b6e189 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -114,7 +114,7 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
         B = set([sim.tape.tape[d][1].symbol])
         if len(sim.tape.tape[d]) >= 3:
           A.add(sim.tape.tape[d][2].symbol)
-        if sim.tape.tape[d][-2].num > 2:
+        if sim.tape.tape[d][1].num > 2:
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-- 
2.43.0


From 894623dc70c5caf391ec2f1bf47c9cd21c1dde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:55 +0000
Subject: [PATCH 08/65] fix: backtracking filter reads the transition table of
 the record's machine

---
 Code/Backtracking_Filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 95fa922..09f109c 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -185,7 +185,8 @@ def backtrack_ttable(TTable, steps, max_width):
 def backtrack(tm_record, num_steps, max_width):
   info = tm_record.proto.filter.backtrack
   with IO.Timer(info.result):
-    TTable = IO.parse_ttable(tm_record.tm().ttable_str())
+    TTable = [[(trans.symbol_out, trans.dir_out, trans.state_out)
+               for trans in row] for row in tm_record.tm().trans_table]
     # Run the simulator/filter on this machine
     result = backtrack_ttable(TTable, num_steps, max_width)
 
-- 
2.43.0


From ad27473e5e584672bc6aa041f04995d488f8f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:55 +0000
Subject: [PATCH 09/65] fix: backtracking does not call a machine that halts on
 its first step infinite

---
 Code/Backtracking_Filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 09f109c..1b1ad95 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -119,6 +119,11 @@ def backtrack_single_halt(halt_state, halt_symbol,
   pos_configs = [Partial_Config(halt_state, halt_symbol)]
   max_width_seen = len(pos_configs)
   num_nodes = 0
+  if is_init_config(pos_configs[0]):
+    # The very first transition (A0) halts.
+    return BacktrackResult(success = False, halted = True,
+                           max_steps = 0, max_width = max_width_seen,
+                           num_nodes = num_nodes)
   for i in range(steps):
     # All configurations that could lead to pos_configs in one step.
     prev_configs = []
-- 
2.43.0


From 8566f81d37f85c9667bb0eba92790e9b658f2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:55 +0000
Subject: [PATCH 10/65] fix: backtracking a machine without halt transitions
 reports it infinite instead of crashing

---
 Code/Backtracking_Filter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 1b1ad95..bbfbf8c 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -159,7 +159,9 @@ def backtrack_ttable(TTable, steps, max_width):
   giving up if there are more than |max_width| possible configs."""
   # Get initial ttable info.
   halts, to_state, dir_to_symbol = get_info(TTable)
-  combined_result = None
+  # With no halts at all there is nothing to backtrack from: Trivially infinite.
+  combined_result = BacktrackResult(success = True, halted = False,
+                                    max_steps = 0, max_width = 0, num_nodes = 0)
   # See if all halts cannot be reached
   for halt_state, halt_symbol in halts:
     for symbol_out, dir_out, state_out in TTable[halt_state]:
@@ -179,10 +181,7 @@ def backtrack_ttable(TTable, steps, max_width):
     if not result.success:
       return result
 
-    if combined_result:
-      combined_result.merge(result)
-    else:
-      combined_result = result
+    combined_result.merge(result)
 
   # If all halt states cannot be reached, we have succeeded!
   return combined_result
-- 
2.43.0


From 0f122caa5a389c2cde0354f70e15493a361d46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:33 +0000
Subject: [PATCH 11/65] fix: the pipeline works with the proof system turned
 off

---
 Code/Macro_Simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..d1c0974 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -175,13 +175,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
-- 
2.43.0


From 6903438e28aa2344a07579ced0461f5aa7f16fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 12/65] fix: read every transition of a machine stored in list
 form

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..fe5c140 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -110,6 +110,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
+      i += 3
   return Turing_Machine.tm_from_quintuples(quints,
                                            states = list(range(tm_list.num_states)),
                                            symbols = list(range(tm_list.num_symbols)))
-- 
2.43.0


From 213c7ee58f4e2dcaf5a4881949fd7c8281e7768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 13/65] fix: storing a machine in list form does not change the
 machine

---
 Code/IO/TM_Record.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index fe5c140..cd6a2e9 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -91,14 +91,15 @@ def unpack_tm(pack : bytes) -> Turing_Machine.Simple_Machine:
                                            symbols = list(range(symbol_in)))
 
 def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> None:
+  tm_list.Clear()
   tm_list.num_states = tm.num_states
   tm_list.num_symbols = tm.num_symbols
   for state in range(tm.num_states):
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
-      if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+      # symbol == -1 means undefined cell.
+      tm_list.ttable_list.append(
+        -1 if trans.condition == Turing_Machine.UNDEFINED else trans.symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
-- 
2.43.0


From 94400213707cab5c0fcc5f4d93a897f62b0f4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 14/65] fix: store machines with eight symbols in list form,
 they do not fit the packed form

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index cd6a2e9..6d3b7ae 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -128,7 +128,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
-- 
2.43.0


From d34b7a25df8e76f4c57fb23771ce89bd36fa688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 15/65] fix: read records that store the machine as text

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 6d3b7ae..13fa492 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -121,7 +121,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
-- 
2.43.0


From d8329c2c47612c7c36b8d716240493342ac3c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 16/65] fix: standardising the halt transition works for large
 and reloaded machines

---
 Code/IO/TM_Record.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 13fa492..4429bff 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -176,10 +176,10 @@ class TM_Record:
     undefined transition. In that case, edit the transition to be a standard
     halt transition."""
     assert self.is_halting()
-    self.tme.set_halt_trans(
+    self.tm_enum().set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    write_tm(self.tme.tm, self.proto.tm)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From d0ca9681397d5da450cb8a861d97f1872b87845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 17/65] fix: a record remembers whether its machine may have no
 halt transition

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 4429bff..ac5c2f2 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -152,6 +152,7 @@ class TM_Record:
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = tm_enum.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From 99f93385fa64699336d12c57a1836ae81497497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 18/65] fix: compressed text files are read and written as text

---
 Code/IO/Morphett.py | 4 ++--
 Code/IO/StdText.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From 2fd44b4528351c94d3a4f182852b7d8a2a91dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:33 +0000
Subject: [PATCH 19/65] fix: index readers can be used in a with statement

---
 Code/IO/BBC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index a08720b..2c54bca 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -147,6 +147,7 @@ class IndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "rb")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
@@ -178,6 +179,7 @@ class TextIndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "r")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
-- 
2.43.0


From 2edae055486e2a88ca6882861297dcd7bcb0399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:31 +0000
Subject: [PATCH 20/65] fix: tree normal form numbers symbols in the order they
 are first written

---
 Code/TNF.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Code/TNF.py b/Code/TNF.py
index 777d178..7298a22 100755
--- a/Code/TNF.py
+++ b/Code/TNF.py
@@ -65,15 +65,18 @@ def to_TNF(tm : Turing_Machine.Simple_Machine, max_steps : int) -> Turing_Machin
     if sim.step_num > max_steps or sim.halted:
       return None
 
+    trans = tm.get_trans_object(symbol_in = sim.tape.read(), state_in = sim.state)
     sim.step()
 
     if sim.state in unordered_states:
       state_order.append(sim.state)
       unordered_states.remove(sim.state)
-    cur_symb = sim.tape.read()
-    if cur_symb in unordered_symbols:
-      symbol_order.append(cur_symb)
-      unordered_symbols.remove(cur_symb)
+    # Symbols are ordered by when they are first written (by a transition that
+    # does not halt), same as in TM_Enum.
+    if (trans.condition == Turing_Machine.RUNNING
+        and trans.symbol_out in unordered_symbols):
+      symbol_order.append(trans.symbol_out)
+      unordered_symbols.remove(trans.symbol_out)
 
     if len(unordered_states) == 1:
       state_order.append(unordered_states.pop())
-- 
2.43.0


From 866371b828f8a502ad43f1c6a4ea469db46fef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:31 +0000
Subject: [PATCH 21/65] fix: lexical normal form is the smallest table over all
 renamings and both mirror images

---
 Code/LNF.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/Code/LNF.py b/Code/LNF.py
index bc53e52..9c8a454 100644
--- a/Code/LNF.py
+++ b/Code/LNF.py
@@ -10,9 +10,7 @@ from Macro import Turing_Machine
 import TNF
 
 
-def permute(old_tm, state_order, symbol_order):
-  # L < R
-  swap_dirs = (old_tm.trans_table[state_order[0]][0].dir_out == Turing_Machine.RIGHT)
+def permute(old_tm, state_order, symbol_order, swap_dirs):
   perm_tm = TNF.permute_table(old_tm, state_order, symbol_order, swap_dirs)
 
   # Find new state number corresponding to start state (old 0) and symbol.
@@ -38,16 +36,17 @@ def iter_perms(xs):
 
 def brute_lnf(old_tm):
   """Calculate LNF using brute-force method."""
-  best_str = old_tm.ttable_str()
-  best_tm = old_tm
+  best_str = None
+  best_tm = None
   for state_order in iter_perms(list(range(old_tm.num_states))):
     for symbol_order in iter_perms(list(range(old_tm.num_symbols))):
-      perm_tm = permute(old_tm, state_order, symbol_order)
-      perm_str = perm_tm.ttable_str()
-      # print(f" Debug: {state_order} / {perm_str}")
-      if perm_str < best_str:
-        best_str = perm_str
-        best_tm = perm_tm
+      for swap_dirs in (False, True):
+        perm_tm = permute(old_tm, state_order, symbol_order, swap_dirs)
+        perm_str = perm_tm.ttable_str()
+        # print(f" Debug: {state_order} / {perm_str}")
+        if best_str is None or perm_str < best_str:
+          best_str = perm_str
+          best_tm = perm_tm
   return best_tm
 
 
-- 
2.43.0


From feaa2a115f8c184b1c825a1b8cfe5eb3e2428923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 22/65] fix: reject machines with unknown next states or rows
 of different lengths

---
 Code/IO/TM_Record.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index ac5c2f2..2a7a87c 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -19,6 +19,7 @@ def parse_tm(line : str) -> Turing_Machine.Simple_Machine:
   num_states = len(rows)
   max_symbol = 0
   for state_in, row in enumerate(rows):
+    assert len(row) == len(rows[0]), f"Invalid TM format: {line}"
     for symbol_in, i in enumerate(range(0, len(row), 3)):
       max_symbol = max(max_symbol, symbol_in)
       trans_str = row[i:i+3]
@@ -27,6 +28,7 @@ def parse_tm(line : str) -> Turing_Machine.Simple_Machine:
         symbol_out = SYMBOLS_DISPLAY.find(trans_str[0])
         dir_out = DIRS_DISPLAY.find(trans_str[1])
         state_out = STATES_DISPLAY.find(trans_str[2])
+        assert state_out >= 0, f"Invalid TM format: {line}"
         if state_out >= num_states:
           state_out = -1
         assert symbol_out >= 0
-- 
2.43.0


From 068d19d66f434f639817a6539d8f30f2808f79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 23/65] fix: print machines with 25 states or 10 symbols, which
 fit the text format

---
 Code/Macro/Turing_Machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index 59b4c7b..2c081a4 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -281,7 +281,7 @@ class Simple_Machine(Turing_Machine):
     return self.trans_table[state_in][symbol_in]
 
   def ttable_str(self) -> str:
-    if self.num_states < 25 and self.num_symbols < 10:
+    if self.num_states <= 25 and self.num_symbols <= 10:
       row_strs = []
       for row in self.trans_table:
         row_strs.append("".join(trans.to_ttable_str()
-- 
2.43.0


From 4a5621f7c75d58f33184c07f8cb61d776cbb7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 24/65] fix: refuse to write a machine that does not fit the
 text format instead of writing a blank line

---
 Code/IO/StdText.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index 5ad55d7..c0aaa3c 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -45,8 +45,14 @@ class Writer:
     if self.outfilename:
       self.outfile.close()
 
+  def _write_ttable(self, tm : Turing_Machine.Simple_Machine) -> None:
+    ttable = tm.ttable_str()
+    if not ttable:
+      raise ValueError(f"{tm.num_states}x{tm.num_symbols} TM is too big for text format")
+    self.outfile.write(ttable)
+
   def write_record(self, tm_record : TM_Record) -> None:
-    self.outfile.write(tm_record.tm().ttable_str())
+    self._write_ttable(tm_record.tm())
     halt_status = tm_record.proto.status.halt_status
     if halt_status.is_halting:
       # Remove _ from int strings so that we can sort them with `sort`.
@@ -59,7 +65,7 @@ class Writer:
 
   def write_tm(self, tm : Turing_Machine.Simple_Machine) -> None:
     """Convenience method to just write a TM directly without wrapping it in a record."""
-    self.outfile.write(tm.ttable_str())
+    self._write_ttable(tm)
     self.outfile.write("\n")
 
   def flush(self):
-- 
2.43.0


From 447318a4a08684286b029da46b7a850c5922feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 25/65] fix: a blank line does not end a file of machines

---
 Code/IO/StdText.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index c0aaa3c..90fd78c 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -95,9 +95,16 @@ class Reader:
     if self.infilename:
       self.infile.close()
 
+  def _read_line(self) -> str:
+    """Next line that is not blank (or "" at the end of the file)."""
+    for line in self.infile:
+      line = line.strip()
+      if line:
+        return line
+    return ""
+
   def read_record(self) -> TM_Record:
-    line = self.infile.readline()
-    line = line.strip()
+    line = self._read_line()
     if line:
       tm = parse_tm(line.split()[0])
       tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt = False)
@@ -105,8 +112,7 @@ class Reader:
       return tm_record
 
   def skip_record(self) -> bool:
-    line = self.infile.readline()
-    return line != ""
+    return self._read_line() != ""
 
   def __iter__(self):
     tm_record = self.read_record()
-- 
2.43.0


From a119687b37fc85e7223d2a39d38e37893280a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 26/65] fix: reject an unknown direction instead of reading it
 as a move to the left

---
 Code/IO/Morphett.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 9a9f15f..cce64d4 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -82,6 +82,8 @@ class Reader:
         if state_out.lower().startswith("halt"):
           state_out = -1
         dir_out = DIRS.find(dir_out)
+        if dir_out == -1:
+          raise ValueError(f"Unexpected direction in line: {line}")
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
         if state_in not in states:
           states.append(state_in)
-- 
2.43.0


From f423923405fae9841a21657937e9bcbb18350114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 27/65] fix: old text format handles every machine form, reason
 and unknown result

---
 Code/IO/OldText.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Code/IO/OldText.py b/Code/IO/OldText.py
index 8865f50..19fa457 100644
--- a/Code/IO/OldText.py
+++ b/Code/IO/OldText.py
@@ -30,6 +30,8 @@ inf_reason2str = {
   io_pb2.INF_REVERSE_ENGINEER: "Reverse_Engineer",
   io_pb2.INF_LIN_RECUR: "Lin_Recur",
   io_pb2.INF_CTL: "CTL",
+  io_pb2.INF_BACKTRACK: "Backtrack",
+  io_pb2.INF_CLOSED_GRAPH: "Closed_Graph",
 }
 str2inf_reason = {s: inf_reason for (inf_reason, s) in inf_reason2str.items()}
 
@@ -118,7 +120,7 @@ class ReaderWriter(object):
     io_record = Record()
     if self.log_number is not None:
       io_record.log_number = self.log_number
-    io_record.tm = TM_Record.unpack_tm(tm_record.proto.tm.ttable_packed)
+    io_record.tm = tm_record.tm()
 
     if tm_record.is_unknown_halting():
       io_record.category = Exit_Condition.UNKNOWN
@@ -141,6 +143,9 @@ class ReaderWriter(object):
       elif unk_reason == "over_steps_in_macro":
         reason = Exit_Condition.OVER_STEPS_IN_MACRO
         args = ()
+      elif unk_reason == "threw_exception":
+        reason = Exit_Condition.ERROR
+        args = ()
       else:
         raise Exception(unknown_info)
 
-- 
2.43.0


From 6a34fcc83c7690fb193dff33b8c9d2e4d750d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 28/65] fix: skipping a bbchallenge record reports whether
 there was one

---
 Code/IO/BBC.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index 2c54bca..b18dedf 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -107,9 +107,8 @@ class Reader:
 
   def skip_record(self) -> bool:
     """Skip ahead 1 record. Return False if no records left in file."""
-    # whence = 1 means (from current position).
-    pb_bytes = self.infile.seek(_BYTES_PER_RECORD, 1)
-    return pb_bytes == _BYTES_PER_RECORD
+    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
+    return len(tm_bytes) == _BYTES_PER_RECORD
 
   def get_tm(self, tm_num) -> TM_Record:
     # whence = 0 means (from the start).
-- 
2.43.0


From ff3a14b19e2a30e66779ae908d6a7bd1eb5a43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 29/65] fix: report a truncated bbchallenge index as an error

---
 Code/IO/BBC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index b18dedf..0dde688 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -164,7 +164,7 @@ class IndexReader:
         return
       elif len(n_bytes) != 4:
         raise IO_Error("Unexpected EOF while reading block "
-                       f"(expected 4 bytes, got {len(len_bytes)}).")
+                       f"(expected 4 bytes, got {len(n_bytes)}).")
       # Big Endian (>), 4 bytes (L).
       yield struct.unpack(">L", n_bytes)[0]
 
-- 
2.43.0


From 23b24631f1059a168e9c63b08ecade46f675c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:48 +0000
Subject: [PATCH 30/65] fix: skipping over a truncated record is an error

---
 Code/IO/Proto.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/IO/Proto.py b/Code/IO/Proto.py
index 9f0317a..291c0bb 100644
--- a/Code/IO/Proto.py
+++ b/Code/IO/Proto.py
@@ -108,7 +108,10 @@ class Reader:
     pb_len = self._read_message_len()
     if pb_len != None:
       # Skip ahead pb_len bytes.
-      pb_bytes = self.infile.seek(pb_len, 1)
+      pb_bytes = self.infile.read(pb_len)
+      if len(pb_bytes) != pb_len:
+        raise IO_Error("Unexpected EOF while reading data block "
+                       f"(expected {pb_len}, got {len(pb_bytes)})")
       return True
     return False
 
-- 
2.43.0


From 2e872e4233c6479b94d5a0f43d9d5e8c57265cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:08 +0000
Subject: [PATCH 31/65] fix: refuse to write a second machine into a Morphett
 file, they would be read as one

---
 Code/IO/Morphett.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index cce64d4..e977d22 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -18,6 +18,7 @@ class Writer:
   def __init__(self, outfilename : Path):
     self.outfilename = Path(outfilename)
     self.outfile = None
+    self.written = False
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
@@ -31,6 +32,9 @@ class Writer:
 
 
   def write_record(self, tm_record : TM_Record) -> None:
+    if self.written:
+      raise ValueError("Morphett format only supports one TM per file")
+    self.written = True
     tm = tm_record.tm()
     # Morphett uses _ for blank symbol.
     tm.symbols[0] = "_"
-- 
2.43.0


From b94ae0e7910b9f5b40cf8693c6f6d47b6a4edfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:54 +0000
Subject: [PATCH 32/65] fix: sampling reports the number of records it scanned

---
 Code/IO_Sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Code/IO_Sample.py b/Code/IO_Sample.py
index c4e725d..fa93616 100755
--- a/Code/IO_Sample.py
+++ b/Code/IO_Sample.py
@@ -11,19 +11,20 @@ import IO
 
 
 def sample(in_filenames, out_filename, sample_size):
-  num_records = 1
+  num_records = 0
   num_read = 0
   sample = []
   for in_filename in in_filenames:
     try:
       with IO.Reader(in_filename) as reader:
         while True:
+          # Note: The record being considered here is number num_records + 1.
           if len(sample) < sample_size:
             if not (tm_record := reader.read_record()):
               break
             num_read += 1
             sample.append(tm_record)
-          elif random.random() < sample_size / num_records:
+          elif random.random() < sample_size / (num_records + 1):
             # Replace one of the existing sampled TMs with decreasing chance.
             if not (tm_record := reader.read_record()):
               break
-- 
2.43.0


From e7acfb78856f031be3ce5ebf64c063b76c57d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:54 +0000
Subject: [PATCH 33/65] fix: splitting an empty file does not divide by zero

---
 Code/Zero_Reflexive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Zero_Reflexive.py b/Code/Zero_Reflexive.py
index 92d41fe..176badd 100644
--- a/Code/Zero_Reflexive.py
+++ b/Code/Zero_Reflexive.py
@@ -41,7 +41,7 @@ def main():
         if num_total % 100_000 == 0:
           print(f" ... {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / num_total:.2%} ({time.time() - start_time:_.0f}s)")
 
-    print(f"# Zero Reflexive TMs: {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / num_total:.2%} ({time.time() - start_time:_.0f}s)")
+    print(f"# Zero Reflexive TMs: {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / max(num_total, 1):.2%} ({time.time() - start_time:_.0f}s)")
 
 if __name__ == "__main__":
   main()
-- 
2.43.0


From 20b8fc966c18a23583bdfadbe5fa1c15473a5680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:54 +0000
Subject: [PATCH 34/65] fix: find records of machines that are not stored in
 packed form

---
 Code/Find_Record.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Code/Find_Record.py b/Code/Find_Record.py
index 08dacdc..6e5eaa3 100755
--- a/Code/Find_Record.py
+++ b/Code/Find_Record.py
@@ -5,15 +5,13 @@ from pathlib import Path
 import time
 
 import IO
-from IO.TM_Record import pack_tm
 
 
 def find(tm_std, in_filename):
-  tm = IO.parse_tm(tm_std)
-  ttable_bytes = pack_tm(tm)
+  ttable_str = IO.parse_tm(tm_std).ttable_str()
   with IO.Reader(in_filename) as reader:
     for record_num, tm_record in enumerate(reader):
-      if tm_record.proto.tm.ttable_packed == ttable_bytes:
+      if tm_record.ttable_str() == ttable_str:
         print(record_num)
         print(tm_record.proto)
         print("ttable:", tm_record.ttable_str())
-- 
2.43.0


From 85d0666d8bb6c11195f4ac3097763ec9c9c356d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:54 +0000
Subject: [PATCH 35/65] fix: print statistics of records that were never
 simulated

---
 Code/TM_Analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/TM_Analyze.py b/Code/TM_Analyze.py
index 389860f..3a8555e 100755
--- a/Code/TM_Analyze.py
+++ b/Code/TM_Analyze.py
@@ -217,7 +217,7 @@ class TMStats:
     print(f"  - num_loops         : Mean {self.sim_num_loops.mean():9_.0f}  Max {self.sim_num_loops.max_value:9_d}")
     # self.print_hist(self.sim_num_loops.log_hist)
     # print()
-    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_d}")
+    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_}")
     print(f"  - num_rules_proven  : Mean {self.sim_num_rules_proven.mean():9_.0f}  Max {self.sim_num_rules_proven.max_value:9_d}  (Set in {self.sim_num_rules_proven.count / self.count:7.2%})")
     print(f"  - num_linear_rules  : Mean {self.sim_num_linear_rules_proven.mean():9_.0f}  Max {self.sim_num_linear_rules_proven.max_value:9_d}  (Set in {self.sim_num_linear_rules_proven.count / self.count:7.2%})")
     print(f"  - num_exponential_rules  : Mean {self.sim_num_exponential_rules_proven.mean():9_.0f}  Max {self.sim_num_exponential_rules_proven.max_value:9_d}  (Set in {self.sim_num_exponential_rules_proven.count / self.count:7.2%})")
-- 
2.43.0


From 2b90c00228d6e9e90e980a6e2f537f72e9c52276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:52 +0000
Subject: [PATCH 36/65] fix: comparing files handles repeated lines and a
 missing final newline

---
 Tools/venn_diff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Tools/venn_diff.py b/Tools/venn_diff.py
index f2e32a7..08635f0 100755
--- a/Tools/venn_diff.py
+++ b/Tools/venn_diff.py
@@ -13,14 +13,16 @@ from pathlib import Path
 def venn_diff(in_left, in_right, out_inter, out_lonly, out_ronly):
   left_lines = set()
   for line in in_left:
-    left_lines.add(line)
+    # The last line may not end in a newline.
+    left_lines.add(line.rstrip("\n") + "\n")
 
   left_only = left_lines
   left_all = frozenset(left_lines)
   for line in in_right:
+    line = line.rstrip("\n") + "\n"
     if line in left_all:
       # Line is in both left and right
-      left_only.remove(line)
+      left_only.discard(line)
       out_inter.write(line)
 
     else:
-- 
2.43.0


From 702d9efe6aa6896ce7f2588667f17f85269d8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:52 +0000
Subject: [PATCH 37/65] fix: shuffling does not join the last line to another
 one

---
 cpp/scripts/shuffle_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/scripts/shuffle_split.py b/cpp/scripts/shuffle_split.py
index aeb03a9..d38ad19 100755
--- a/cpp/scripts/shuffle_split.py
+++ b/cpp/scripts/shuffle_split.py
@@ -15,7 +15,8 @@ args = parser.parse_args()
 # a good idea for a small-ish file. For larger files, a more clever algorithm
 # would be needed.
 with open(args.infile, "r") as infile:
-  lines = infile.readlines()
+  # The last line may not end in a newline.
+  lines = [line.rstrip("\n") + "\n" for line in infile]
 random.shuffle(lines)
 
 lines_per_chunk = len(lines) / args.num_chunks
-- 
2.43.0


From ebc29deb5f2d7575bcd965c4d58ffa65c0a70273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 38/65] fix: Expression.substitute: also substitute inside of
 ExpInt coefs and const

---
 Code/Algebraic_Expression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Code/Algebraic_Expression.py b/Code/Algebraic_Expression.py
index baf6c24..9f735dd 100644
--- a/Code/Algebraic_Expression.py
+++ b/Code/Algebraic_Expression.py
@@ -147,7 +147,7 @@ class Term:
 
   def substitute(self, subs):
     """Substitute values from dict 'subs' to get an int."""
-    return reduce(operator.mul, [vp.substitute(subs) for vp in self.vars]) * self.coef
+    return reduce(operator.mul, [vp.substitute(subs) for vp in self.vars]) * substitute(self.coef, subs)
 
 def Term_from_string(input):
   input_split = input.split()
@@ -243,7 +243,8 @@ class Expression:
 
   def substitute(self, subs):
     """Substitute values from dict 'subs' to get an int."""
-    val = sum([t.substitute(subs) for t in self.terms]) + self.const
+    # Note: coefs and const may themselves contain variables (ex: ExpInt).
+    val = sum([t.substitute(subs) for t in self.terms]) + substitute(self.const, subs)
     return simp_frac(val)
 
 
-- 
2.43.0


From 35c1a8a5d4473d9deb40178ec1140e138668e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 39/65] fix: ExpInt: remainder and value of powers whose
 exponent is a small ExpInt

---
 Code/Exp_Int.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 5f2386d..6fd2d5f 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -160,7 +160,7 @@ class ExpTerm:
     if self.is_const:
       exp_as_int = try_eval(self.exponent)
 
-      if not exp_as_int:
+      if exp_as_int is None:
         assert isinstance(self.exponent, ExpInt), self.exponent
         # For large enough exponent, the coeficient and even base don't have much effect.
         (height, top) = self.exponent.tower_value
@@ -202,7 +202,7 @@ class ExpTerm:
     return new_coef * exp_int(self.base, new_exp)
 
   def mod(self, m : int) -> int:
-    return (exp_mod(self.base, self.exponent, m) * self.coef) % m
+    return (exp_mod(self.base, try_simplify(self.exponent), m) * self.coef) % m
 
   def mul_int(self, n : int):
     assert isinstance(n, int), n
-- 
2.43.0


From 3bdf35f1e05bdeb6307b87a47a2874346d2cd0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 40/65] fix: ExpInt.substitute: never return a float, support
 sums with constant powers

---
 Code/Exp_Int.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 6fd2d5f..e664bd0 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -3,7 +3,7 @@
 from fractions import Fraction
 import math
 
-from Algebraic_Expression import Expression, min_val, variables, substitute
+from Algebraic_Expression import Expression, div, min_val, variables, substitute
 from Common import is_const
 from Math import gcd, lcm, int_pow, exp_mod, prec_mult, prec_add
 
@@ -196,7 +196,7 @@ class ExpTerm:
     return self.vars
   def substitute(self, assignment):
     if self.is_const:
-      return self
+      return ExpInt([self], const = 0, denom = 1)
     new_coef = substitute(self.coef, assignment)
     new_exp = substitute(self.exponent, assignment)
     return new_coef * exp_int(self.base, new_exp)
@@ -327,7 +327,8 @@ class ExpInt:
 
     else:  # not self.is_const
       assert is_const(self.denom), self
-      min_terms = [term.min_value for term in self.terms]
+      min_terms = [ExpInt([term], const = 0, denom = 1) if term.is_const else term.min_value
+                   for term in self.terms]
       if -math.inf in min_terms:
         self.min_value = -math.inf
       else:
@@ -341,7 +342,8 @@ class ExpInt:
         assert isinstance(self.min_value, (ExpInt, int)), self
       self.vars = set(variables(self.const) | variables(self.denom))
       for term in self.terms:
-        self.vars.update(term.vars)
+        if not term.is_const:
+          self.vars.update(term.vars)
       self.vars = frozenset(self.vars)
 
   def min_val(self):
@@ -353,7 +355,7 @@ class ExpInt:
       return self
     numer = sum(term.substitute(assignment) for term in self.terms)
     numer += substitute(self.const, assignment)
-    return numer / substitute(self.denom, assignment)
+    return div(numer, substitute(self.denom, assignment))
 
   def tex_formula(self):
     return tex_formula(self)
-- 
2.43.0


From a4cfcfef8394d8b395610ccd840f5577ee48d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 41/65] fix: ExpInt: exact signs and comparisons of close or
 cancelling values, refuse if undecidable

---
 Code/Exp_Int.py | 223 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 160 insertions(+), 63 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e664bd0..3cd2d49 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -1,6 +1,7 @@
 """Library for representing very large integers of the form: a b^n + c"""
 
 from fractions import Fraction
+import functools
 import math
 
 from Algebraic_Expression import Expression, div, min_val, variables, substitute
@@ -115,6 +116,101 @@ def sign(x):
   else:
     return (x > 0) - (x < 0)
 
+# Every ExpTerm which is not evaluated as an `int` is larger than this.
+_GIANT_INT = 2**(EXP_THRESHOLD - 1)
+def log_tower(tower):
+  """Convert tower values of giant `int`s to the scale used for giant ExpInts."""
+  (height, top) = tower
+  if height == 0 and top > _GIANT_INT:
+    return (1, math.log10(top))
+  return tower
+
+def compare_towers(a, b, num_terms = 1):
+  """Compare (positive) values based on their (approximate) tower values.
+  Returns 0 if they are too close to tell apart. With `num_terms` > 1, the
+  result even holds for the sum of that many values of this size."""
+  (height_a, top_a) = a
+  (height_b, top_b) = b
+  if height_a == height_b == 0 and num_terms == 1:
+    return (top_a > top_b) - (top_a < top_b)
+
+  # Bring both to the same height (>= 1).
+  while height_a < max(height_b, 1):
+    height_a += 1
+    top_a = math.log10(top_a) if top_a > 0 else -math.inf
+  while height_b < max(height_a, 1):
+    height_b += 1
+    top_b = math.log10(top_b) if top_b > 0 else -math.inf
+
+  if top_a == top_b:
+    return 0
+  # Above the first level, the bases, coefficients, etc. are ignored. So small
+  # differences are not meaningful.
+  if top_a > top_b:
+    (big, small, res) = (top_a, top_b, 1)
+  else:
+    (big, small, res) = (top_b, top_a, -1)
+  if small == -math.inf:
+    return res
+  if small < 0 and height_a > 1:
+    # Such tiny values do not differ much from 1 one level further down.
+    small = 0
+  margin = 2 + math.log10(num_terms)
+  if isinstance(big, int):
+    # These may be too large to fit in float.
+    small = math.floor(small)
+    margin = math.ceil(margin) + big // 10**9
+  else:
+    margin += big * 1e-9
+  return res if big - small > margin else 0
+
+def compare(a, b):
+  """Return sign of `a - b`.
+  Raises ExpIntException if we cannot figure it out."""
+  a = try_simplify(a)
+  b = try_simplify(b)
+  if is_simple(a) and is_simple(b):
+    return (a > b) - (a < b)
+  sign_a = sign(a)
+  sign_b = sign(b)
+  if sign_a != sign_b:
+    return 1 if sign_a > sign_b else -1
+  res = compare_towers(tower_value(a), tower_value(b))
+  if res:
+    return sign_a * res
+  # They are very close to each other, so we need their exact difference.
+  return sign(a - b)
+
+# Difference of exponents up to which we'll evaluate sums of powers as `int`.
+_MAX_EXPONENT_DIFF = 100_000
+def factor_sum(terms, const):
+  """Write `sum(terms) + const` as `coef * base^exponent`.
+  Small terms which cannot affect the sign may be dropped.
+  Returns pair (coef, exponent)."""
+  items = [(term.exponent, term.coef) for term in terms]
+  if const:
+    items.append((0, const))
+  items.sort(key = functools.cmp_to_key(lambda x, y: compare(x[0], y[0])),
+             reverse = True)
+  base = terms[0].base
+  (exponent, coef) = items[0]
+  for i in range(1, len(items)):
+    (next_exponent, next_coef) = items[i]
+    diff = try_simplify(exponent - next_exponent)
+    if coef == 0:
+      coef = next_coef
+    elif isinstance(diff, int) and diff <= _MAX_EXPONENT_DIFF:
+      coef = coef * base**diff + next_coef
+    else:
+      # base^diff > 2^_MAX_EXPONENT_DIFF, thus it dominates everything else.
+      rest = sum(abs(c) for (_, c) in items[i:])
+      if (compare(diff, _MAX_EXPONENT_DIFF) <= 0 or
+          rest.bit_length() >= _MAX_EXPONENT_DIFF):
+        raise ExpIntException("Cannot evaluate sum of terms of ExpInt")
+      return (coef, exponent)
+    exponent = next_exponent
+  return (coef, exponent)
+
 def exp_int_depth(x):
   if isinstance(x, ExpInt):
     return x.depth
@@ -124,6 +220,31 @@ def exp_int_depth(x):
     return 0
 
 
+def term_tower_value(base, coef, exponent):
+  """tower_value() of `coef * base^exponent`"""
+  exp_as_int = try_eval(exponent)
+
+  if exp_as_int is None:
+    assert isinstance(exponent, ExpInt), exponent
+    # For large enough exponent, the coeficient and even base don't have much effect.
+    (height, top) = exponent.tower_value
+    assert top >= 0, top
+    # value = b^(10^^height[^top]) ~= 10^^(height+1)[^top]
+    return (height + 1, top)
+
+  else:
+    assert isinstance(exp_as_int, int)
+    if exp_as_int < EXP_THRESHOLD:
+      # value = 10^^0[^value]
+      return tower_value(coef * base**exp_as_int)
+
+    else:
+      top = prec_mult(exp_as_int, math.log10(base))
+      top = prec_add(top, math.log10(abs(coef)))
+      # value = 10^top = 10^^1[^top]
+      return (1, abs(top))
+
+
 class ExpTerm:
   """An integer represented by a formula: `a b^n`"""
   def __init__(self, base : int, coef : int, exponent):
@@ -158,27 +279,7 @@ class ExpTerm:
     # Is this a constant? Or an expression?
     self.is_const = is_const(self.exponent)
     if self.is_const:
-      exp_as_int = try_eval(self.exponent)
-
-      if exp_as_int is None:
-        assert isinstance(self.exponent, ExpInt), self.exponent
-        # For large enough exponent, the coeficient and even base don't have much effect.
-        (height, top) = self.exponent.tower_value
-        assert top >= 0, top
-        # self = b^(10^^height[^top]) ~= 10^^(height+1)[^top]
-        self.tower_value = (height + 1, top)
-
-      else:
-        assert isinstance(exp_as_int, int)
-        if exp_as_int < EXP_THRESHOLD:
-          # self = value = 10^^0[^value]
-          self.tower_value = tower_value(self.coef * self.base**exp_as_int)
-
-        else:
-          top = prec_mult(exp_as_int, math.log10(self.base))
-          top = prec_add(top, math.log10(abs(self.coef)))
-          # self = 10^top = 10^^1[^top]
-          self.tower_value = (1, abs(top))
+      self.tower_value = term_tower_value(self.base, self.coef, self.exponent)
 
     else:  # not self.is_const
       min_coef = min_val(self.coef)
@@ -224,28 +325,27 @@ class ExpTerm:
 
 def normalize_terms(terms):
   """Simplify sum of ExpTerms by combining ones that we can."""
-  assert len({term.base for term in terms}) == 1, terms
+  if len({term.base for term in terms}) != 1:
+    raise ExpIntException("ExpInt add: base mismatch")
   if not all(term.is_const for term in terms):
     # For expressions, don't attempt to normalize.
     return terms
 
-  new_terms = []
-  prev_exponent = None
-  prev_coef = None
-  prev_base = None
+  # List of [exponent, sum of coefs]
+  groups = []
   for term in sorted(terms, key=lambda t: tower_value(t.exponent), reverse=True):
-    if struct_eq(term.exponent, prev_exponent):
-      assert term.base == prev_base
-      prev_coef += term.coef
+    for group in groups:
+      if struct_eq(term.exponent, group[0]):
+        group[1] += term.coef
+        break
     else:
-      if prev_coef:
-        # Don't add term if coef == 0 (or None)
-        new_terms.append(ExpTerm(prev_base, prev_coef, prev_exponent))
-      prev_base = term.base
-      prev_coef = term.coef
-      prev_exponent = term.exponent
-  if prev_coef:
-    new_terms.append(ExpTerm(prev_base, prev_coef, prev_exponent))
+      groups.append([term.exponent, term.coef])
+  # Don't add terms with coef == 0
+  new_terms = [ExpTerm(terms[0].base, coef, exponent)
+               for (exponent, coef) in groups if coef]
+  if new_terms and len(new_terms) < len(terms):
+    # Combining terms can change their exponent (ex: 2^8 + 2^8 = 2^9).
+    return normalize_terms(new_terms)
   return new_terms
 
 
@@ -305,23 +405,32 @@ class ExpInt:
 
       else:
         # At least one term is too large to fit in an `int`.
-        max_pos_tower = max((term.tower_value for term in self.terms
-                             if term.sign > 0), default = tower_value(0))
-        max_neg_tower = max((term.tower_value for term in self.terms
-                             if term.sign < 0), default = tower_value(0))
-        if max_pos_tower == max_neg_tower:
-          raise ExpIntException(f"Cannot evalulate sign of ExpInt: {self}    ({max_pos_tower} == {max_neg_tower})")
-        self.tower_value = max(max_pos_tower, max_neg_tower)
-        if max_neg_tower > max_pos_tower:
-          self.sign = -1
+        values = [(term.sign, log_tower(term.tower_value)) for term in self.terms]
+        values.append((sign(self.const), log_tower(tower_value(self.const))))
+        max_pos_tower = max((tower for (sgn, tower) in values if sgn > 0),
+                            default = tower_value(0))
+        max_neg_tower = max((tower for (sgn, tower) in values if sgn < 0),
+                            default = tower_value(0))
+        self.sign = compare_towers(max_pos_tower, max_neg_tower, len(values))
+        if self.sign:
+          self.tower_value = max(max_pos_tower, max_neg_tower)
         else:
-          self.sign = 1
+          # Too close to call based on tower values alone.
+          (coef, exponent) = factor_sum(self.terms, self.const)
+          self.sign = sign(coef)
+          if coef == 0:
+            self.tower_value = tower_value(0)
+          elif is_simple(exponent) and exponent == 0:
+            self.tower_value = log_tower(tower_value(coef))
+          else:
+            self.tower_value = term_tower_value(self.terms[0].base, coef, exponent)
 
         # Tweak tower value for denom
         if self.denom != 1:
           (height, top) = self.tower_value
-          assert height >= 1, self
-          if height == 1:
+          if height == 0:
+            self.tower_value = (height, top // self.denom)
+          elif height == 1:
             top = prec_add(top, -math.log10(self.denom))
             self.tower_value = (height, top)
 
@@ -478,13 +587,7 @@ class ExpInt:
     if other == -math.inf:
       return True
 
-    if self.sign < 0:
-      return not (-self >= -other)
-    if sign(other) < 0:
-      # self > 0 > other
-      return True
-
-    return self.tower_value > tower_value(other)
+    return compare(self, other) > 0
 
   def __ge__(self, other):
     assert is_const(self), self
@@ -493,13 +596,7 @@ class ExpInt:
     if other == -math.inf:
       return True
 
-    if self.sign < 0:
-      return not (-self > -other)
-    if sign(other) < 0:
-      # self > 0 > other
-      return True
-
-    return self.tower_value >= tower_value(other)
+    return compare(self, other) >= 0
 
   # Boilerplate
   def __neg__(self):
-- 
2.43.0


From 689f03fcaa6ff5a02974a5d6b21acd5cacfe7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 42/65] fix: use integer target queue sizes in MPI work queue

---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From d422d2c67a2ee4d748163ef9dfff373642d7627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 43/65] fix: LinRecurDetect with a bound of one step

---
 cpp/src/lin_recur.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/src/lin_recur.cpp b/cpp/src/lin_recur.cpp
index 54e2bcd..81dcf71 100644
--- a/cpp/src/lin_recur.cpp
+++ b/cpp/src/lin_recur.cpp
@@ -45,7 +45,11 @@ LinRecurResult LinRecurDetect(const TuringMachine& tm, const long max_steps) {
   // TODO: Consider Seek(1024) or something like this to avoid lots of early copies.
   sim.Step();
 
-  long init_step_num;
+  long init_step_num = sim.step_num();
+  if (sim.is_halted()) {
+    return {true, false, 0, 0, 0, sim.last_state(), sim.last_symbol(),
+            init_step_num, sim.step_num()};
+  }
   while (sim.step_num() < max_steps) {
     init_step_num = sim.step_num();
     const long steps_reset = 2 * init_step_num;
-- 
2.43.0


From 35e2dd6a93703bdd50676d040c710901392288e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:14 +0000
Subject: [PATCH 44/65] fix: lr_enum tracks the largest period also with
 only_unknown

---
 cpp/src/lin_recur_enumerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..ef8cbce 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -122,10 +122,10 @@ EnumExpandParams LinRecurEnum::filter_tm(const TuringMachine& tm) {
       WriteTuringMachine(tm, &out_inf_stream_);
       out_inf_stream_ << " | Lin_Recur " << result.lr_period << " "
                        << result.lr_offset << " <" << result.lr_start_step << "\n";
-      if (result.lr_period > max_period_) {
-        max_period_ = result.lr_period;
-        max_period_tm_.reset(new TuringMachine(tm));
-      }
+    }
+    if (result.lr_period > max_period_) {
+      max_period_ = result.lr_period;
+      max_period_tm_.reset(new TuringMachine(tm));
     }
   } else {
     num_tms_unknown_ += 1;
-- 
2.43.0


From 21b7a55efd5b114e8cfd36ae21a030058b57277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:14 +0000
Subject: [PATCH 45/65] fix: LinRecurEnum::only_unknown was not initialised
 without Boost

---
 cpp/src/lin_recur_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index ef8cbce..2e35b84 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -35,6 +35,8 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     max_steps_(max_steps),
     proc_id_(proc_id)
 {
+  only_unknown = only_unknown_in;
+
 #ifdef BOOST_FOUND
   std::string file_suffix = "";
 
@@ -42,8 +44,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From 0f01a09061aedcfcb50c00677ef1e35b870ff589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:40 +0000
Subject: [PATCH 46/65] fix: continued enumeration offered symbols outside of
 tree normal form

---
 cpp/src/turing_machine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 443fe8a..32ebfaf 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -31,7 +31,10 @@ TuringMachine::TuringMachine(
   for (const auto& row : transitions_) {
     for (const LookupResult& trans : row) {
       max_state = std::max(max_state, trans.state);
-      max_symbol = std::max(max_symbol, trans.symbol);
+      // Undecided transitions do not use any symbol (yet).
+      if (!trans.undecided) {
+        max_symbol = std::max(max_symbol, trans.symbol);
+      }
       if (trans.state < 0) {
         num_halts += 1;
       }
-- 
2.43.0


From 9934feb3144b3d77702ed18f0aa0f8e1590f1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 47/65] fix: lr_enum_local_parallel_dev_null.sh failed merging
 files it never writes

---
 cpp/scripts/lr_enum_local_parallel_dev_null.sh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cpp/scripts/lr_enum_local_parallel_dev_null.sh b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
index 33d25c3..3592454 100755
--- a/cpp/scripts/lr_enum_local_parallel_dev_null.sh
+++ b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
@@ -67,14 +67,12 @@ echo
 date
 echo "(4) Merging the results"
 if [ "${COMPRESS_OUTPUT}" = "false" ]; then
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt
-  # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
+  # Note: Halting and infinite TMs were not saved and we don't include
+  # ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt
 else
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt.gz
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt.gz
-  # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
+  # Note: Halting and infinite TMs were not saved and we don't include
+  # ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt.gz
 fi
 
-- 
2.43.0


From 57ef68853bf26a30aec547e2b63684d291644215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 48/65] fix: do not capture free variables when substituting
 into an iterated function

---
 rust/src/count_expr.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index 125c2d0..b2c63e1 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -93,6 +93,11 @@ impl VarSubst {
         self.0.insert(x, expr);
     }
 
+    // Set of all variables appearing free in the substituted values.
+    fn value_vars(&self) -> HashSet<Variable> {
+        self.0.values().flat_map(|expr| expr.free_vars()).collect()
+    }
+
     // Return new substitution with x removed.
     // Useful for substituting inside a function where x is bound.
     pub fn without(&self, x: &Variable) -> Self {
@@ -263,6 +268,19 @@ impl Function {
         vars
     }
 
+    // Rename the bound variable (if necessary) so that it is not in `vars`.
+    fn avoid_vars(&self, vars: &HashSet<Variable>) -> Function {
+        if !vars.contains(&self.bound_var) {
+            return self.clone();
+        }
+        let used_vars = self.expr.free_vars().union(vars).copied().collect();
+        let new_var = Variable::new_unused(&used_vars);
+        Function {
+            bound_var: new_var,
+            expr: self.apply(new_var.into()),
+        }
+    }
+
     pub fn is_identity(&self) -> bool {
         self.expr == CountExpr::from(self.bound_var)
     }
@@ -306,20 +324,20 @@ impl Function {
 
 impl RecursiveExpr {
     pub fn free_vars(&self) -> HashSet<Variable> {
-        let mut vars = self.func.expr.free_vars();
+        let mut vars = self.func.free_vars();
         vars.extend(self.num_repeats.free_vars());
         vars.extend(self.base.free_vars());
         vars
     }
 
     pub fn subst(&self, var_subst: &VarSubst) -> Result<RecursiveExpr, VarSubstError> {
+        // Ignore the bound variable in the substitution!
+        let func_subst = var_subst.without(&self.func.bound_var);
+        // Avoid capturing free variables of the substituted values.
+        let func = self.func.avoid_vars(&func_subst.value_vars());
         let new_func = Function {
-            bound_var: self.func.bound_var,
-            expr: self
-                .func
-                .expr
-                // Ignore the bound variable in the substitution!
-                .subst(&var_subst.without(&self.func.bound_var))?,
+            bound_var: func.bound_var,
+            expr: func.expr.subst(&func_subst.without(&func.bound_var))?,
         };
         Ok(RecursiveExpr {
             func: Box::new(new_func),
-- 
2.43.0


From 860edc2f3cf376e1f9ec96262f60b7756a113370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:38 +0000
Subject: [PATCH 49/65] fix: do not capture free variables of the outer
 function when composing

---
 rust/src/count_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index b2c63e1..a8d0640 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -295,7 +295,8 @@ impl Function {
     // Compose two functions (applying the first, first).
     // f.compose(g): x -> g(f(x))
     pub fn compose(&self, g: &Function) -> Function {
-        let f = self.clone();
+        // x must not capture any free variables of g
+        let f = self.avoid_vars(&g.free_vars());
         Function {
             // x
             bound_var: f.bound_var,
-- 
2.43.0


From adc585e8ce05bcd12d6c5457d4810c59eef8f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 50/65] fix: do not capture free variables when comparing
 functions up to renaming

---
 rust/src/count_expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index a8d0640..ce55a2f 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -314,12 +314,15 @@ impl Function {
 
     fn known_equal(&self, other: &Function) -> bool {
         // Support alpha equivalence (two functions being equal up to renaming of bound variables).
+        // Note: The variable we rename to must not already be free in either function.
+        let vars = self.free_vars().union(&other.free_vars()).copied().collect();
+        let this = self.avoid_vars(&vars);
         // TODO: unwrap ...
         let other_renamed = other
             .expr
-            .subst(&VarSubst::single(other.bound_var, self.bound_var.into()))
+            .subst(&VarSubst::single(other.bound_var, this.bound_var.into()))
             .unwrap();
-        self.expr.known_equal(&other_renamed)
+        this.expr.known_equal(&other_renamed)
     }
 }
 
-- 
2.43.0


From a65209c09894d4109fd8d55c1aca13af0c0c15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:35 +0000
Subject: [PATCH 51/65] fix: substitute iterated functions into a sum without
 capturing variables

---
 rust/src/count_expr.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index ce55a2f..677ee29 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -176,10 +176,20 @@ impl VarSum {
             };
         }
         // First we add bound variables for all RecursiveExpr substitutions to `new_var_sum`.
-        for (x, count, _) in rec_subst.iter() {
-            // If `x` is free in `expr`, we cannot do the substitution below as simply.
-            // TODO: Replace `x` with a new (unused) variable in this case.
-            assert!(!new_var_sum.free_vars().contains(x));
+        // If `x` is free in `new_var_sum` or in one of the other substituted values, then binding it
+        // below would capture that variable, so we use a new (unused) variable instead.
+        for i in 0..rec_subst.len() {
+            let mut vars = new_var_sum.free_vars();
+            for (j, (y, _, rec_expr)) in rec_subst.iter().enumerate() {
+                if j != i {
+                    vars.insert(*y);
+                    vars.extend(rec_expr.free_vars());
+                }
+            }
+            let (x, count, _) = &mut rec_subst[i];
+            if vars.contains(x) {
+                *x = Variable::new_unused(&vars);
+            }
             new_var_sum += VarSum::from(*x) * *count;
         }
         // Then, for each RecursiveExpr substitution, we apply the substitution via function application.
-- 
2.43.0


From 63ba5f8972a4857e1c3c900ee1965333e06b3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:02 +0000
Subject: [PATCH 52/65] fix: reject malformed terms such as 2n5 when parsing a
 sum

---
 rust/src/count_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index 677ee29..b49c013 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -783,7 +783,7 @@ impl FromStr for VarSum {
         let parts = s.split('+').collect::<Vec<&str>>();
         for part in parts {
             // Parse things like "12", "x", "2n", "4a" using regular expressions:
-            let re = Regex::new(r"^(?P<coef>\d+)?(?P<var>[a-z])|(?P<const>\d+)$").unwrap();
+            let re = Regex::new(r"^(?:(?P<coef>\d+)?(?P<var>[a-z])|(?P<const>\d+))$").unwrap();
             let caps = re
                 .captures(part)
                 .ok_or(ParseError::CountRegexFailed(part.to_string()))?;
-- 
2.43.0


From 13239c6064dde83441c0cdfd4a6d0e373bdc42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 53/65] fix: return a parse error instead of panicking on
 counts that do not fit

---
 rust/src/count_expr.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index b49c013..aa7b356 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -775,6 +775,11 @@ impl FromStr for Variable {
     }
 }
 
+fn parse_count(s: &str) -> Result<CountType, ParseError> {
+    s.parse()
+        .map_err(|_| ParseError::CountRegexFailed(s.to_string()))
+}
+
 impl FromStr for VarSum {
     type Err = ParseError;
 
@@ -791,10 +796,13 @@ impl FromStr for VarSum {
             if let Some(var) = caps.name("var") {
                 let var_expr = VarSum::from(Variable::from_str(var.as_str())?);
                 // coefficient defaults to 1 if not present.
-                let coef: CountType = caps.name("coef").map_or(1, |f| f.as_str().parse().unwrap());
+                let coef: CountType = match caps.name("coef") {
+                    None => 1,
+                    Some(coef) => parse_count(coef.as_str())?,
+                };
                 expr += var_expr * coef;
             } else {
-                let constant: CountType = caps.name("const").unwrap().as_str().parse().unwrap();
+                let constant: CountType = parse_count(caps.name("const").unwrap().as_str())?;
                 expr += VarSum::from(constant);
             }
         }
-- 
2.43.0


From 9d368cb9767012fa6ed4b62117783e1792938938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:43 +0000
Subject: [PATCH 54/65] fix: comparing infinite blocks of different periods
 does not loop forever

---
 rust/src/config.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rust/src/config.rs b/rust/src/config.rs
index fbd5d57..44e1b30 100644
--- a/rust/src/config.rs
+++ b/rust/src/config.rs
@@ -19,7 +19,7 @@ pub struct RepBlock {
     pub rep: CountOrInf,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub struct HalfTape(Vec<RepBlock>);
 
 pub type Tape = EnumMap<Dir, HalfTape>;
@@ -140,6 +140,11 @@ impl HalfTape {
         }
     }
 
+    // Is this just an infinite block (plus at most one block split off from it)?
+    fn is_infinite_tail(&self) -> bool {
+        self.0.len() <= 2 && self.0[0].rep == CountOrInf::Infinity
+    }
+
     pub fn subst(&self, var_subst: &VarSubst) -> Result<HalfTape, VarSubstError> {
         Ok(HalfTape(
             self.0
@@ -174,6 +179,8 @@ impl HalfTape {
     pub fn replace(&self, old: &HalfTape, new: &HalfTape) -> Result<HalfTape, String> {
         let mut curr = self.normalize();
         let mut sub = old.normalize();
+        // Pairs of infinite tapes already compared.
+        let mut seen: Vec<(HalfTape, HalfTape)> = vec![];
         while !sub.0.is_empty() {
             if curr.0.is_empty() {
                 return Err(format!(
@@ -205,6 +212,16 @@ impl HalfTape {
                 }
             }
 
+            // If both tapes are down to infinite blocks (of different periods), we could pop symbols forever.
+            // Once we get back to a pair of tapes we have already seen, we know they are identical.
+            if curr.is_infinite_tail() && sub.is_infinite_tail() {
+                let pair = (curr.clone(), sub.clone());
+                if seen.contains(&pair) {
+                    return Ok(new.clone());
+                }
+                seen.push(pair);
+            }
+
             match (curr.pop_symbol(), sub.pop_symbol()) {
                 (Some(l), Some(r)) => {
                     if l != r {
-- 
2.43.0


From fc16e8b3569d663437733c4c29e3a5bea332d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:15 +0000
Subject: [PATCH 55/65] fix: Quick_Sim --freeze-prover crashed when the prover
 is turned off

---
 Code/Quick_Sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Quick_Sim.py b/Code/Quick_Sim.py
index 1f7054f..9bd67b5 100755
--- a/Code/Quick_Sim.py
+++ b/Code/Quick_Sim.py
@@ -66,7 +66,7 @@ def run(machine, block_size, back, prover, recursive, options):
         sim.print_self()
         sim.loop_run(options.print_loops)
         total_loops += options.print_loops
-        if options.freeze_prover:
+        if options.freeze_prover and sim.prover:
           sim.prover.frozen = True
   finally:
     sim.print_self()
-- 
2.43.0


From a7a1ca3b5fbfaeddaf22652a16a393332581c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:15 +0000
Subject: [PATCH 56/65] fix: printing a simulation with a block offset start
 state crashed

---
 Code/Macro/Turing_Machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index 2c081a4..e1a9f8c 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -360,6 +360,9 @@ class OffsetStartState:
     self.state = state
     self.offset = offset
 
+  def print_with_dir(self, dir):
+    return "%s+%d" % (self.state.print_with_dir(dir), self.offset)
+
 class Block_Macro_Machine(Macro_Machine):
   """A derivative Turing Machine which simulates another machine clumping k-symbols together into a block-symbol"""
   MAX_TTABLE_CELLS = 100000
-- 
2.43.0


From ebd0fc1bc0509725a04ab943d47dca6222a6a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:15 +0000
Subject: [PATCH 57/65] fix: filter.sh compared file sizes as strings

---
 Tools/filter.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/filter.sh b/Tools/filter.sh
index ee139aa..a866879 100755
--- a/Tools/filter.sh
+++ b/Tools/filter.sh
@@ -37,6 +37,6 @@ cp ${WORK_DIR}/unknown.pb ${ROOT_DIR}/unknown.pb
 # Human readable stuff
 time ${TOOLS_DIR}/../Code/TM_Analyze.py ${WORK_DIR}/out.pb
 # Only convert to text if it's reasonably small.
-if [[ "$(wc -c < ${ROOT_DIR}/unknown.pb)" < 1000000 ]]; then
+if [[ "$(wc -c < ${ROOT_DIR}/unknown.pb)" -lt 1000000 ]]; then
   ${TOOLS_DIR}/../Code/IO_Convert.py ${ROOT_DIR}/unknown.{pb,txt}
 fi
-- 
2.43.0


From 9f8755e1048aadd84bf5818ee2ff56012ba44083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:15 +0000
Subject: [PATCH 58/65] fix: Enumerate --num-enum crashed with --no-output

---
 Code/Enumerate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index d161d41..0b1d638 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -83,7 +83,8 @@ class Enumerator(object):
     """
     while True:
       if self.options.num_enum and self.tm_num >= self.options.num_enum:
-        self.pout.write("Ran requested number of TMs...\n")
+        if self.pout:
+          self.pout.write("Ran requested number of TMs...\n")
         break
 
       # While we have machines to run, pop one off the stack ...
-- 
2.43.0


From 8c0facbfda20626b92612675d03843741052d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:15 +0000
Subject: [PATCH 59/65] fix: copying a halted DirectSimulator lost how it
 halted

---
 Code/Direct_Simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Direct_Simulator.py b/Code/Direct_Simulator.py
index d86aa08..5d457b0 100644
--- a/Code/Direct_Simulator.py
+++ b/Code/Direct_Simulator.py
@@ -114,6 +114,10 @@ class DirectSimulator:
     new_sim.halted = self.halted
     new_sim.tape = self.tape.copy()
     new_sim.step_num = self.step_num
+    if self.halted:
+      new_sim.halt_score = self.halt_score
+      new_sim.halt_from_state = self.halt_from_state
+      new_sim.halt_from_symbol = self.halt_from_symbol
     return new_sim
 
   def step(self):
-- 
2.43.0


From 69bfcfb6cc4b85ab501891a398c20866d06f3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:46 +0000
Subject: [PATCH 60/65] fix: support dividing an ExpInt by a negative integer

---
 Code/Exp_Int.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 3cd2d49..df0d8bb 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -379,13 +379,13 @@ class ExpInt:
 
   def normalize(self):
     common = gcd(self.const, self.denom)
-    # Force denominator to be postitive
-    common = abs(common) * sign(self.denom)
     assert isinstance(common, int), (common, repr(self.denom))
     if common != 1:
       for term in self.terms:
         common = gcd(common, term.coef)
         assert isinstance(common, int), (common, repr(term.coef))
+    # Force denominator to be postitive
+    common = abs(common) * sign(self.denom)
     if common != 1:
       self.const //= common
       self.denom //= common
@@ -489,7 +489,7 @@ class ExpInt:
     # (sum(a_i b^k_i) + c) / d = n other + r
     # sum(a_i b^k_i) + c = n (d other) + rd
     # rd = (sum(a_i b^k_i) + c) % (d other)
-    m = self.denom * other_int
+    m = self.denom * abs(other_int)
     terms_rem = sum(term.mod(m) for term in self.terms) % m
     rd = (terms_rem + self.const) % m
     r, rdr = divmod(rd, self.denom)
-- 
2.43.0


From 8f1a5973c4f31c54a1339985deb22d5280939ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 61/65] fix: do not report a step count once it is no longer
 known

With --exp-linear-rules a linear rule gives no step count, and with
--no-steps there never is one. Quick_Sim still printed the partial count
as the total, and used the stale last-seen steps for its quasihalt result.
---
 Code/Macro/Simulator.py | 8 +++++++-
 Code/Quick_Sim.py       | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index f72dc62..c96f69e 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -159,7 +159,12 @@ class Simulator(object):
         self.tape = prover_result.new_tape
         self.num_rule_moves += 1
         if prover_result.num_base_steps is None:
+          # Steps are unknown from now on, so the partial counts are meaningless.
           self.compute_steps = False
+          self.steps_from_macro = None
+          self.steps_from_chain = None
+          self.steps_from_rule = None
+          self.states_last_seen = None
         if self.compute_steps:
           if self.states_last_seen is not None and prover_result.states_last_seen:
             for state, prover_last_seen in prover_result.states_last_seen.items():
@@ -236,7 +241,8 @@ class Simulator(object):
   def print_steps(self):
     print()
     print("         Steps:                     Times Applied:")
-    print(template("Total:", self.step_num, self.num_loops))
+    print(template("Total:", self.step_num if self.compute_steps else None,
+                   self.num_loops))
     print(template("Macro:", self.steps_from_macro, self.num_macro_moves))
     print(template("Chain:", self.steps_from_chain, self.num_chain_moves))
     if self.prover:
diff --git a/Code/Quick_Sim.py b/Code/Quick_Sim.py
index 9bd67b5..db0b6b0 100755
--- a/Code/Quick_Sim.py
+++ b/Code/Quick_Sim.py
@@ -80,7 +80,7 @@ def run(machine, block_size, back, prover, recursive, options):
       print("State: ", sim.op_details[0][1])
       print("Symbol:", sim.op_details[0][0])
     print()
-    if options.compute_steps:
+    if sim.compute_steps:
       print("Steps:   ", big_int_approx_and_full_str(sim.step_num))
     print("Nonzeros:", big_int_approx_and_full_str(sim.get_nonzeros()))
     if options.latex:
-- 
2.43.0


From 68728b5ac61f8193d83e6a7c7c4443515cb347eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:44 +0000
Subject: [PATCH 62/65] fix: CTL4 start sets count the second-to-last symbol
 only where it is

---
 Code/CTL4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 7b6e189..b54b937 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -102,7 +102,7 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
   for d in range(2):
     # Pass all symbols from this side of tape except for inf 0s
     # A is set of all symbols except the last two non-zeros
-    A = set([block.symbol for block in sim.tape.tape[d][2:]])
+    A = set([block.symbol for block in sim.tape.tape[d][3:]])
     # The number of non-zero symbols not in A is at least 2
     # Set C to the last non-zero symbol
     # Set B to the second to last non-zero symbol
@@ -118,7 +118,7 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-        if sim.tape.tape[d][-3].num > 1:
+        if sim.tape.tape[d][2].num > 1:
           A.add(sim.tape.tape[d][2].symbol)
     # Only one non-zero symbols not in A
     # Set C to the zero symbol
-- 
2.43.0


From ae6c1089b9baca91e45bcd728532597245ebe0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:24 +0000
Subject: [PATCH 63/65] fix: Curses_Sim drew into the corner of the pad and
 stopped with an error

---
 Code/Curses_Sim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Code/Curses_Sim.py b/Code/Curses_Sim.py
index 0b5074d..124e72b 100644
--- a/Code/Curses_Sim.py
+++ b/Code/Curses_Sim.py
@@ -118,7 +118,13 @@ class VisSim:
       else:
         text = " "
       self.log("Writing", line_num, col_num, repr(text), attr)
-      self.pad.addstr(line_num, col_num, text, attr)
+      try:
+        self.pad.addstr(line_num, col_num, text, attr)
+      except curses.error:
+        # curses draws the bottom-right corner, but then fails to advance the
+        # cursor past it.
+        if (line_num, col_num) != (self.pad_height() - 1, self.pad_width() - 1):
+          raise
 
   def move_vert(self, vert_offset):
     # TODO: if self.cur_line +
-- 
2.43.0


From f310828a61a5c2f958a9054760ead5bbbf507522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:24 +0000
Subject: [PATCH 64/65] fix: Curses_Sim looped forever when scrolling down
 after the machine halted

---
 Code/Curses_Sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Curses_Sim.py b/Code/Curses_Sim.py
index 124e72b..b1b5dae 100644
--- a/Code/Curses_Sim.py
+++ b/Code/Curses_Sim.py
@@ -131,7 +131,7 @@ class VisSim:
     self.cur_line += vert_offset
     if self.cur_line < 0:
       self.cur_line = 0
-    while self.cur_line + curses.LINES > self.sim.step_num:
+    while self.cur_line + curses.LINES > self.pad_height():
       self.expand_pad(self.pad_height() + self.buffer_size)
     self.draw()
 
-- 
2.43.0


From b570585ca67e0d354cd7def4b81890e4c9b72246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:24 +0000
Subject: [PATCH 65/65] fix: Curses_Sim did not widen its pad when scrolled
 right of it

---
 Code/Curses_Sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Curses_Sim.py b/Code/Curses_Sim.py
index b1b5dae..368666e 100644
--- a/Code/Curses_Sim.py
+++ b/Code/Curses_Sim.py
@@ -138,7 +138,7 @@ class VisSim:
   def move_hor(self, hor_offset):
     self.cur_pos += hor_offset
     while (self.cur_pos + self.pos_offset - curses.COLS < 0 or
-           self.cur_pos + self.pos_offset + self.cur_pos > self.pad_width()):
+           self.cur_pos + self.pos_offset + curses.COLS > self.pad_width()):
       self.expand_pad(self.pad_height(), self.pad_width() + self.buffer_size)
     self.draw()
 
-- 
2.43.0

