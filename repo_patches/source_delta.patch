From 82914f348ae7cee7cdc8203f0fbc2aed7466173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 01/24] fix: bit queue loses bits of chunks that cross a word
 boundary

---
 semantic_codec/architecture/bits.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..8d9e950 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -24,10 +24,12 @@ class BitQueue(object):
             self._eq_word += 1
             self._bytes.append(0)
 
+            # The rest of the bits, those that did not fit, go to the beginning of the next word
+            value >>= w + 1
             w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
+            self._eq_bit -= BitQueue.WORD_SIZE
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+                                                        from_bit, from_bit + w, 0)
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
@@ -55,9 +57,13 @@ class BitQueue(object):
             self._bytes.pop(0)
             self._eq_word -= 1
 
+            # The rest of the bits go after the first ones. The ones beyond the end of the value are dropped
+            to_bit += w
             w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            last = min(w, BitQueue.WORD_SIZE - to_bit) - 1
+            if last >= 0:
+                value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + last, to_bit)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From 29dd4fc0e2cdd153230af63cc1f3db9c4a086310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 02/24] fix: deinterleave truncates uneven data and rejects
 some partial losses

---
 semantic_codec/interleaver/interleaver2d.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..6c8d2e0 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,24 +195,21 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [packets[p] for p in interleave_order if p in packets and packets[p] is not None]
+    if len(received) == 0:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
 
     errors = []
 
     data = BitQueue(word_size)
-    while not last_queue.empty():
+    while any(not q.empty() for q in received):
         for p in interleave_order:
             a = 0
             if not p in packets or packets[p] is None:
                 errors.append((data._eq_word, data._eq_bit))
+            elif packets[p].empty():
+                # The last round does not necessarily use all the packets
+                break
             else:
                 a = packets[p].dequeue(a, 0)
             data.enqueue(a, 0)
-- 
2.43.0


From 5f90531cf42291fed39b2fce6323b6a0bd54df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 03/24] fix: predicted corruption misses bits of lost packets

---
 semantic_codec/corruption/corruption.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..93d0c7c 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -71,7 +71,7 @@ def corrupt_all_bits_tuples(tuples, instruction):
     size = 0
     for t in tuples:
         l, h = t
-        Bits.check_range(l, h)
+        Bits.check_range(l, h - 1)
         size += h - l
     result = [instruction] * (2 ** size)
     kk = 1
@@ -245,22 +245,23 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while any(x < total_bits for x in b):
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
                 bit = int(math.fmod(b[i], WORD_SIZE))
                 last_bit = bit + bits_per_interleave
-                t2 = None
+                tuples = []
                 if last_bit >= WORD_SIZE:
-                    t1 = (bte, bit, WORD_SIZE - 1 - bit)
-                    t2 = (bte + 1, 0, bits_per_interleave - WORD_SIZE + 1 + bit)
+                    if bit < WORD_SIZE - 1:
+                        tuples.append((bte, bit, WORD_SIZE - 1 - bit))
+                    tuples.append((bte, WORD_SIZE - 1, 1))
+                    tuples.append((bte + 1, 0, bits_per_interleave - WORD_SIZE + 1 + bit))
                 else:
-                    t1 = (bte, bit)
-                if not t1 in errors:
-                    errors.append(t1)
-                if t2 and not t2 in errors:
-                    errors.append(t2)
+                    tuples.append((bte, bit))
+                for t in tuples:
+                    if not t in errors:
+                        errors.append(t)
             # Jump to the next cyclic error
             b[i] += jump
 
-- 
2.43.0


From 214523c213c837bf4dc62edbb2612da99893e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 04/24] fix: packet corruptor lists duplicate candidates and
 fails when no data is lost

---
 semantic_codec/corruption/corruptors.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..33533f5 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -54,12 +54,12 @@ class PacketCorruptor(Corruptor):
         self.corrupted_program_path = save_corrupted_path
 
     def _corrupt_address(self, tuples, address, program):
-        corrupted = []
+        corrupted, seen = [], set()
         for inst in program[address]:
             for c_inst in corrupt_all_bits_tuples(tuples, inst.encoding):
-                arm_inst = CAPSInstruction(c_inst, program[address][0].address)
-                if not arm_inst in corrupted:
-                    corrupted.append(arm_inst)
+                if c_inst not in seen:
+                    seen.add(c_inst)
+                    corrupted.append(CAPSInstruction(c_inst, program[address][0].address))
         program[address] = corrupted
 
     def corrupt(self, program):
@@ -85,7 +85,8 @@ class PacketCorruptor(Corruptor):
         errors.sort(key=lambda x: x[0] * vv + x[1])
 
         # Corrupt the program
-        k, tuples, e = 0, [], errors[0]
+        # (the lost packets might not have carried any data at all)
+        k, tuples, e = 0, [], errors[0] if errors else (0, 0)
         current = e[0]
 
         # Create a nice progress bar. TODO: Factor this out so other widgets can be used as well.
-- 
2.43.0


From f86581909e1758b8436da11c3b2bde424c73dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 05/24] fix: random corruption can loop forever and skips bit
 combinations

---
 semantic_codec/corruption/corruption.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 93d0c7c..78cc270 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -95,16 +95,16 @@ def corrupt_bits(hi, lo, amount, instruction):
     """
     # Generate random positions
     result, bits = [instruction], []
+    amount = min(amount, hi - lo + 1)
     while len(bits) < amount:
         x = random.randint(lo, hi)
         if x not in bits:
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if Bits.is_on(i, j) else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
@@ -151,7 +151,7 @@ def corrupt_program(program, err_percent, max_amount):
     :param max_amount: Maximal amount of bit errors per instructions, meaning that each corrupted instructions can
                        have up to this amount of errors
     """
-    if 0 > err_percent > 100:
+    if not 0 <= err_percent <= 100:
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
@@ -159,17 +159,15 @@ def corrupt_program(program, err_percent, max_amount):
 
     len_program = len(program)
 
-    corrupted_amount = math.ceil(max(1, len_program * err_percent))
+    # Only the instructions that are not corrupted already can be corrupted
+    corrupted_amount = min(math.ceil(max(1, len_program * err_percent)),
+                           len([v for v in program.values() if len(v) == 1]))
 
-    # Find the min and max address in the program
-    min_addr = sys.maxsize
-    max_addr = -sys.maxsize
-    for k in program:
-        min_addr = k if min_addr > k else min_addr
-        max_addr = k if max_addr < k else max_addr
+    addresses = sorted(program.keys())
 
     while corrupted_amount > 0:
-        p = random.randint(0, len_program) * 4 + min_addr
+        k = random.randint(0, len_program)
+        p = addresses[k] if k < len_program else None
         if p in program and len(program[p]) == 1:
             a = random.randint(1, max_amount)
             for r in corrupt_bits(31, 0, a, program[p][0].encoding):
-- 
2.43.0


From ec847d586a62d6e1223b0f6e0c33dfb8aeced829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 06/24] fix: recuperator fails when a function has gaps or no
 valid candidate at its ends

---
 semantic_codec/metadata/recuperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..f159fca 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -241,7 +241,7 @@ class ProbabilisticRecuperator(Recuperator):
         """
         reg_equals_inst = False
         c, t = 0, 0
-        for i in self._program[addr]:
+        for i in self._program[addr] if addr in self._program else []:
             if not i.ignore:
                 t += 1
                 # Include the register information
@@ -261,7 +261,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
@@ -298,7 +298,7 @@ class ProbabilisticRecuperator(Recuperator):
                 for a in range(last_addr, addr, -4):
                     cb2 = cb1
                     tb2 = tb1
-                    for i in self._program[a]:
+                    for i in self._program[a] if a in self._program else []:
                         if not i.ignore:
                             tb1 += 1
                             tp1 += 1
-- 
2.43.0


From 7f7acbaac70be1baa8e1687f8c66bf554642496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 07/24] fix: sharing registers with the original is taken as
 certainty and discards it

---
 semantic_codec/metadata/recuperator.py | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index f159fca..6a902b5 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -108,8 +108,6 @@ def probabilistic_rules_remove_step(scores_dict, inst):
 
     # Conditional register score
     pc = scores_dict['pc'] if 'pc' in scores_dict else 1
-    # Register score
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
     # Register distance score
     prd = scores_dict['prd'] if 'prd' in scores_dict else 1
     # Opcode score
@@ -121,8 +119,10 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Branch distance score
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
-    hi = max(pc, po, pr)
-    # Register score again
+    # Only conditions and opcodes make a candidate certain: different candidates of one address can use the same
+    # registers, but these can also belong to an instruction using more of them
+    hi = max(pc, po)
+    # Register score
     pr = scores_dict['pr'] if 'pr' in scores_dict else 0
 
     if hi == 1 and lo != 0:
@@ -205,7 +205,21 @@ class ProbabilisticRecuperator(Recuperator):
             po = 0
         inst.scores_by_rule['po'] = po
 
-    def _compute_registers(self, inst, cpmd):
+    def _certain_storages(self, addr, cpmd):
+        """
+        Storages that the instruction in this address uses for sure: there are as many addresses having a candidate
+        with that storage as instructions using it in the original program
+        """
+        result = set()
+        for inst in self._program[addr]:
+            if not inst.ignore:
+                for s in inst.storages_used():
+                    if s in self._collector.storage_count and \
+                            self._collector.storage_count[s] == cpmd.address_with_reg[s]:
+                        result.add(s)
+        return result
+
+    def _compute_registers(self, inst, cpmd, certain):
         """
         Compute the probability that this instruction is awarded all of its registers from the metadata
         """
@@ -221,6 +235,9 @@ class ProbabilisticRecuperator(Recuperator):
             pr = av
         except KeyError:
             pr = 0
+        # An instruction not using the storages that this address needs is impossible
+        if not certain.issubset(r):
+            pr = 0
         inst.scores_by_rule['pr'] = pr
 
     def _prob_of_a(self, val, addr):
@@ -545,6 +562,7 @@ class ProbabilisticRecuperator(Recuperator):
             addr = addresses[i]
             if addr in self._functions:
                 current_fn = addr
+            certain = self._certain_storages(addr, cpmd)
             for inst in self._program[addr]:
                 if inst.ignore:
                     continue
@@ -554,7 +572,7 @@ class ProbabilisticRecuperator(Recuperator):
 
                 self._compute_conditional(inst, cpmd)
                 self._compute_opcode(inst, cpmd)
-                self._compute_registers(inst, cpmd)
+                self._compute_registers(inst, cpmd, certain)
                 self._compute_push_pop(inst, cpmd, addr, current_fn)
                 self._compute_branch_address(inst, current_fn, lowest_addr, highest_addr)
                 if i > 0:
-- 
2.43.0


From 14ae9edeb9d26957bc3ec9f29d90a5ed1e450630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 08/24] fix: push and pop instructions are always discarded
 when they are not certain

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 6a902b5..a4620e8 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -123,7 +123,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # registers, but these can also belong to an instruction using more of them
     hi = max(pc, po)
     # Register score
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From 307e9e1587ccdee55ea2fadaf8d897c63d51fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 09/24] fix: a report that fails leaves the standard output
 redirected and its file open

---
 recover_program.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recover_program.py b/recover_program.py
index d773027..924cea1 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -12,13 +12,20 @@ from semantic_codec.solution.solution_quality import SolutionQuality
 
 
 def print_report(instructions_output_file, original_program, recovered_program):
+    orig_stdout = sys.stdout
+    with open(instructions_output_file, 'w') as f:
+        sys.stdout = f
+        try:
+            _print_report(original_program, recovered_program)
+        finally:
+            sys.stdout = orig_stdout
+
+
+def _print_report(original_program, recovered_program):
 
     depths ={}
 
     errors, recovered, fail_looses, fail_tide = 0, 0, 0, 0
-    orig_stdout = sys.stdout
-    f = open(instructions_output_file, 'w')
-    sys.stdout = f
 
     bad_rules = {}
     aver_instr_tie_sum = 0
@@ -120,8 +127,6 @@ def print_report(instructions_output_file, original_program, recovered_program):
 
     print("DEPTHS: {}".format(depths))
 
-    sys.stdout = orig_stdout
-
 
 def remove_bad_candidates_at_addr(v):
     previous = len(v)
-- 
2.43.0


From 620e539ab0e8c08c793140ef0e0c45d8cef4bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 10/24] fix: report of a program without ambiguous addresses
 divides by zero

---
 recover_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recover_program.py b/recover_program.py
index 924cea1..6bf31d7 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -123,7 +123,7 @@ def _print_report(original_program, recovered_program):
     print("------------")
 
     print("ERRORS: {} -- LOSING: {} -- TIDE: {} --RECOVERED: {} -- RATIO: {} ".format(
-        errors, fail_looses, fail_tide, recovered, recovered / errors))
+        errors, fail_looses, fail_tide, recovered, recovered / errors if errors > 0 else 1.0))
 
     print("DEPTHS: {}".format(depths))
 
-- 
2.43.0


From 64fb25849febb2d8ba0fc505a674d992775cc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 11/24] fix: undamaged words that are not instructions are
 removed from the program

---
 recover_program.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recover_program.py b/recover_program.py
index 6bf31d7..697792e 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -130,6 +130,9 @@ def _print_report(original_program, recovered_program):
 
 def remove_bad_candidates_at_addr(v):
     previous = len(v)
+    if previous == 1:
+        # Nothing to choose from, even if the only candidate has a bad score (e.g. is not a valid instruction)
+        return 0
     one_count = 0
     less_than_one_count = 0
     i = 0
-- 
2.43.0


From 2f799ddb7b00f8aedb1ee098c6d123049f3726c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 12/24] fix: solution stream has too few bits for candidate
 counts that are no powers of two

---
 semantic_codec/solution/solution_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..7235d50 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -1,4 +1,4 @@
-from math import log
+from math import ceil, log
 
 from constraint import *
 
@@ -251,7 +251,7 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            size = ceil(log(ln, 2)) if ln > 1 else 0
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From 996c64820e93d9af36652c1ae82c493d38ad9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 13/24] fix: number of solutions is added instead of multiplied
 and lost after evaluation

---
 semantic_codec/solution/solution_quality.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..22c16a5 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -68,10 +68,9 @@ class SolutionQuality(object):
             else:
                 bins[k] = 1
 
-        i = 1
-        amount = 0
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
@@ -82,7 +81,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
@@ -111,8 +110,8 @@ class SolutionQuality(object):
             if not ln in self._highest_depth_bin:
                 self._highest_depth_bin[ln] = 0
 
-            r = (i+1) / ln
             if ln > 0:
+                r = (i + 1) / ln
                 if r > self._highest_depth_bin[ln]:
                     self._highest_depth_bin[ln] = r
                     max_addr_bin[ln] = addr
-- 
2.43.0


From 241eeeee175fe85b941af62bc1704d022107c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 14/24] fix: text of an undecodable instruction differs in
 every run

---
 semantic_codec/architecture/capstone_instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..054825d 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -23,7 +23,8 @@ class CAPSInstruction(Instruction):
 
     def __str__(self):
         if not self._cap:
-            return super(CAPSInstruction, self).__str__()
+            # The default would show the memory address of this object, different in every run
+            return '<undefined 0x{:08x}>'.format(self.encoding)
         return '{}\t{}'.format(self._cap.mnemonic, self._cap.op_str)
 
 
-- 
2.43.0


From 5bbbab8c47e61a15e8f5b5b4a9831fc1d5483a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 15/24] fix: the constraint problem hid a candidate twice and
 failed

A candidate that exceeded the counts of two storages at once was hidden
twice from its domain, which raises ValueError.
---
 semantic_codec/solution/solution_builders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index 7235d50..2a3ffd5 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -60,7 +60,9 @@ class ExactFieldSumConstraint(Constraint):
                             vv = self._field_fn(value)
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
+                                    # A value can be hidden only once
                                     domain.hideValue(value)
+                                    break
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From 0712f2ba33c27b535f39906c8e66570733d11dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:11 +0000
Subject: [PATCH 16/24] fix: the command-line programs pass a fractional number
 of packets

store_packets and recover_program divided the size by the packet size; the
interleaver then failed or produced an order that uses packet 0 twice.
---
 recover_program.py | 3 ++-
 store_packets.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/recover_program.py b/recover_program.py
index 697792e..d89d6a9 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -1,3 +1,4 @@
+import math
 import os
 
 from semantic_codec.architecture.disassembler_readers import TextDisassembleReader, ElfioTextDisassembleReader
@@ -257,7 +258,7 @@ if __name__ == "__main__":
             ll = 0
             for f in original_program:
                 ll += len(f.instructions)
-            packet_count = ll / 32
+            packet_count = math.ceil(ll / 32)
             lost = [3]
             print('[INFO:] Program Size: {} bytes -- Loss: {} -- Packet count: {}'.format(
                 ll * 4, 16 * len(lost) * 2, packet_count))
diff --git a/store_packets.py b/store_packets.py
index a9a7b76..12734fa 100644
--- a/store_packets.py
+++ b/store_packets.py
@@ -5,6 +5,7 @@ Program to store packets into a file
 import os
 import struct
 import sys
+from math import ceil
 
 from bitarray import bitarray
 
@@ -42,7 +43,7 @@ if __name__ == '__main__':
     # Interleave the file using the SP algorithm
     bits_per_interlave = 2
     packet_size = 16
-    packet_count = len(original_program) * 4 / packet_size  # <- Total bytes in data divided by packet_size
+    packet_count = ceil(len(original_program) * 4 / packet_size)  # <- Total bytes in data divided by packet_size
 
     # Build the 2D interleave order
     m = build_2d_interleave_sp(packet_count, flat=True)
-- 
2.43.0


From d168b106c4989cb803dd48905c3bfc3018e48911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 17/24] fix: a memory operand based on r0 is not counted as use
 of r0

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 054825d..29480f6 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -70,10 +70,10 @@ class CAPSInstruction(Instruction):
                     result.append(register)
             if i.type == ARM_OP_MEM:
                 register = AReg.CAPSTONE_REGS[i.value.mem.base]
-                if register != 0 and not register in result:
+                if i.value.mem.base != 0 and not register in result:
                     result.append(register)
                 register = AReg.CAPSTONE_REGS[i.value.mem.index]
-                if register != 0 and not register in result:
+                if i.value.mem.index != 0 and not register in result:
                     result.append(register)
 
         return result
-- 
2.43.0


From 891acc433c16174f306f6df8894a93f7ef9cf976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 18/24] fix: the progress bar fails on a console without block
 characters

---
 semantic_codec/report/print_progress.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/report/print_progress.py b/semantic_codec/report/print_progress.py
index 8af64bf..99d227b 100644
--- a/semantic_codec/report/print_progress.py
+++ b/semantic_codec/report/print_progress.py
@@ -14,6 +14,18 @@ class TextProgressBar(object):
         self.suffix = suffix
         self._prev_percent = None
 
+    @staticmethod
+    def _write(text):
+        # There may be no console, or one that cannot show the block characters
+        if sys.stdout is None:
+            return
+        encoding = getattr(sys.stdout, 'encoding', None) or 'utf-8'
+        try:
+            text.encode(encoding)
+        except UnicodeEncodeError:
+            text = text.replace('█', '#').encode(encoding, 'replace').decode(encoding)
+        sys.stdout.write(text)
+
     def _go_to_end(self):
         self.iteration = self._total
         self._prev_percent = 100
@@ -21,8 +33,8 @@ class TextProgressBar(object):
 
     def _print_last_iteration(self):
             bar = '█' * self._bar_length
-            sys.stdout.write('\r%s |%s| %s%s %s' % (self.prefix, bar, 100, '%', self.suffix)),
-            sys.stdout.write('\n')
+            self._write('\r%s |%s| %s%s %s' % (self.prefix, bar, 100, '%', self.suffix))
+            self._write('\n')
 
     def progress(self):
         """
@@ -50,10 +62,11 @@ class TextProgressBar(object):
         percents = str_format.format(p)
         filled_length = int(round(self._bar_length * self.iteration / float(self._total)))
         bar = '█' * filled_length + '-' * (self._bar_length - filled_length)
-        sys.stdout.write('\r%s |%s| %s%s %s' % (self.prefix, bar, percents, '%', self.suffix)),
+        self._write('\r%s |%s| %s%s %s' % (self.prefix, bar, percents, '%', self.suffix))
 
         if self.iteration + self._print_dist >= self._total:
             self._go_to_end()
-        sys.stdout.flush()
+        if sys.stdout is not None:
+            sys.stdout.flush()
 
         self._prev_percent = p
\ No newline at end of file
-- 
2.43.0


From e0cf1a8295948640e3c63644446f090af6f0a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 19/24] fix: instructions before the first function of a
 listing are silently dropped

store_packets and recover_program take the program from its functions, so that
a listing with instructions before the first function symbol was stored and
recovered without them, as a success.
---
 semantic_codec/architecture/disassembler_readers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/architecture/disassembler_readers.py b/semantic_codec/architecture/disassembler_readers.py
index fa43390..d81480c 100644
--- a/semantic_codec/architecture/disassembler_readers.py
+++ b/semantic_codec/architecture/disassembler_readers.py
@@ -47,7 +47,9 @@ class ElfioTextDisassembleReader(DisassembleReader):
 
         functions = {}
 
-        current_fn = None
+        # Instructions before the first known function belong to none of them, but are part of the program
+        unknown = ElfFunction()
+        current_fn = unknown
 
         self.instructions = []
         section = None
@@ -73,11 +75,12 @@ class ElfioTextDisassembleReader(DisassembleReader):
                     inst = CAPSInstruction(encoding, position=address)
                     if address in functions:
                         current_fn = functions[address]
-                    if current_fn:
-                        current_fn.instructions.append(inst)
+                    current_fn.instructions.append(inst)
                     self.instructions.append(inst)
 
         self.functions = [x for x in functions.values()]
+        if unknown.instructions:
+            self.functions.insert(0, unknown)
 
         return self.functions, self.instructions
 
-- 
2.43.0


From 9cba9d7b34086afdaea61aae4306f84833f16c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 20/24] fix: functions without instructions are taken for a
 function at address 0

A listing names many symbols without instructions. They were all entered as a
function from 0 to 0: a branch to address 0 counted as a call, and a function
that really begins at address 0 lost its end, so that branches into it were
taken for branches to nowhere.
---
 semantic_codec/metadata/probabilistic_rules/rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/semantic_codec/metadata/probabilistic_rules/rules.py b/semantic_codec/metadata/probabilistic_rules/rules.py
index adbe6a9..c7a4c0f 100644
--- a/semantic_codec/metadata/probabilistic_rules/rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/rules.py
@@ -29,6 +29,9 @@ def from_functions_to_list_and_addr(functions):
     fns = {}
 
     for f in functions:
+        if not f.instructions:
+            # Symbols of data, or of functions in other modules, have no address in the program
+            continue
         fns[f.start_addr()] = (f.start_addr(), f.final_addr())
         for inst in f.instructions:
             result.append(inst)
-- 
2.43.0


From 0422c14d37fd5f6ad9b745ed4edabb6481490e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 21/24] fix: wrong end of a function that has gaps between its
 instructions

Branches to its last instructions were taken for branches to nowhere, and pops
were looked for at the wrong address.
---
 semantic_codec/architecture/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/functions.py b/semantic_codec/architecture/functions.py
index 76a92e7..8fdd4f9 100644
--- a/semantic_codec/architecture/functions.py
+++ b/semantic_codec/architecture/functions.py
@@ -16,7 +16,8 @@ class ElfFunction(object):
 
     def final_addr(self):
         if len(self.instructions) > 0:
-            return self.instructions[0].address + self.length_in_bytes() - 4
+            # There may be gaps between the instructions
+            return max(inst.address for inst in self.instructions)
         else:
             return 0
 
-- 
2.43.0


From 4ddc9832bd0c8293322e940afff4fcb04274dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 22/24] fix: numbers of solutions with thousands of digits made
 the report of the quality raise

---
 recover_program.py                          |  4 ++--
 semantic_codec/solution/solution_quality.py | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/recover_program.py b/recover_program.py
index d89d6a9..083f18a 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -9,7 +9,7 @@ from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_l
 from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules
 from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator
 from semantic_codec.solution.solution_io import SolutionWriter
-from semantic_codec.solution.solution_quality import SolutionQuality
+from semantic_codec.solution.solution_quality import SolutionQuality, count_to_str
 
 
 def print_report(instructions_output_file, original_program, recovered_program):
@@ -224,7 +224,7 @@ def run_recovery(original_program, corruptor, recuperator, passes=1):
     b = ForwardConstraintSolutionEnumerator(program, original_program)
     b.build()
     print('[INFO]: Constrained solution size: {}'.format(b.solution_size))
-    print('[INFO]: Constrained solution: {}'.format(b.solution))
+    print('[INFO]: Constrained solution: {}'.format(count_to_str(b.solution)))
     a = SolutionQuality(program, original_program)
     a.report()
 
diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index 22c16a5..15aecab 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -4,6 +4,17 @@ from math import log
 from semantic_codec.metadata.recuperator import probabilistic_rules
 
 
+def count_to_str(count):
+    """
+    Gives a number of solutions as text. Numbers of thousands of digits cannot be converted
+    to decimal (see sys.set_int_max_str_digits), these are given in hexadecimal
+    """
+    try:
+        return str(count)
+    except ValueError:
+        return hex(count)
+
+
 class SolutionQuality(object):
     """
     Class that computes the solution's quality so far. The quality of the answer is mostly how small is the solution,
@@ -126,5 +137,5 @@ class SolutionQuality(object):
         a = self
         print('[INFO]: Solutions: {}'.format(a.solution_count_bins))
         print('[INFO]: Solutions size: {}'.format(a.solution_size))
-        print('[INFO]: Solutions count: {}'.format(a.solution_count))
+        print('[INFO]: Solutions count: {}'.format(count_to_str(a.solution_count)))
 
-- 
2.43.0


From 6b711be22b46f4a4c752901dee1b2707b9cad45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 23/24] fix: recovery walks through every address of the gap in
 a function, which does not end when the gap is large

---
 semantic_codec/metadata/recuperator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index a4620e8..e32e6fb 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -312,7 +312,11 @@ class ProbabilisticRecuperator(Recuperator):
                 cb1, cp1, tb1, tp1 = 0, 0, 0, 0
                 cb2, tb2 = 0, 0
                 p2 = 0
-                for a in range(last_addr, addr, -4):
+                steps = range(last_addr, addr, -4)
+                if len(steps) > len(self._program):
+                    # There is nothing to count in the gaps of a function, however large: one step in each is enough
+                    steps = sorted({s for a in self._program for s in (a, a - 4) if s in steps}, reverse=True)
+                for a in steps:
                     cb2 = cb1
                     tb2 = tb1
                     for i in self._program[a] if a in self._program else []:
-- 
2.43.0


From 4d1fe91590cba21152121ba28be8cf857fe0d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 24/24] fix: branch targets in the upper half of the address
 space were negative, so branches there seemed to leave the program

---
 semantic_codec/architecture/capstone_instruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 29480f6..5e67520 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -173,7 +173,8 @@ class CAPSInstruction(Instruction):
             if self._jumping_address is None:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
-                        self._jumping_address = op.value.imm
+                        # Addresses are unsigned
+                        self._jumping_address = op.value.imm & 0xffffffff
                         break
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
-- 
2.43.0

