From fea54b2fa27309c54619df0f7f9392cd0b88aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 01/56] fix: close managed recorders and deliveries in reverse
 order

Two function recorders (deliveries) of one source left the function patched
after the manager's context was closed, because the first one restored the
original and the second one then restored the wrapper of the first.
---
 mmrazor/models/task_modules/delivery/delivery_manager.py | 4 +++-
 mmrazor/models/task_modules/recorder/recorder_manager.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..2145b51 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -109,5 +109,7 @@ class DistillDeliveryManager:
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         """Exit the context manager."""
-        for delivery in self.deliveries.values():
+        # Deliveries of the same source wrap each other, so they have to be
+        # closed in the reverse order.
+        for delivery in reversed(list(self.deliveries.values())):
             delivery.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..0822db0 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -112,5 +112,7 @@ class RecorderManager:
 
     def __exit__(self, exc_type, exc_value, traceback):
         """Exit the context manager."""
-        for recorder in self.recorders.values():
+        # Recorders of the same source wrap each other, so they have to be
+        # closed in the reverse order.
+        for recorder in reversed(list(self.recorders.values())):
             recorder.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From cf1c4505eb3e4fde03e209431fe9f18553a6acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 02/56] fix: method recorders and deliveries wrap what is there
 when entered

The original method was looked up once in the constructor, so of two contexts
on one method only the inner one worked, and leaving a context could install a
stale wrapper.  A method inherited from a base class is removed from the
subclass again when the context closes.
---
 .../task_modules/delivery/method_outputs_delivery.py      | 8 +++++++-
 .../task_modules/recorder/method_outputs_recorder.py      | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..b2f32cd 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -125,6 +125,9 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
+        # Another context may have wrapped the method in the meantime.
+        self.inherited = self.method_name not in vars(self.imported_cls)
+        self.origin_method = getattr(self.imported_cls, self.method_name)
         wrapped_method = self.deliver_wrapper(self.origin_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
@@ -133,7 +136,10 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Reset the origin method.
         """
-        setattr(self.imported_cls, self.method_name, self.origin_method)
+        if self.inherited:
+            delattr(self.imported_cls, self.method_name)
+        else:
+            setattr(self.imported_cls, self.method_name, self.origin_method)
 
     def deliver_wrapper(self, origin_method: Callable) -> Callable:
         """Wrap the specific method to make the intermediate results of the
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..c59de2d 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -148,6 +148,9 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
+        # Another context may have wrapped the method in the meantime.
+        self.inherited = self.method_name not in vars(imported_cls)
+        self.origin_method = getattr(imported_cls, self.method_name)
         origin_method = self.origin_method
         # add record wrapper to origin method.
         record_method = self.method_record_wrapper(origin_method,
@@ -164,4 +167,7 @@ class MethodOutputsRecorder(BaseRecorder):
         origin_method = self.origin_method
 
         # restore the origin method
-        setattr(imported_cls, self.method_name, origin_method)
+        if self.inherited:
+            delattr(imported_cls, self.method_name)
+        else:
+            setattr(imported_cls, self.method_name, origin_method)
-- 
2.43.0


From 13e9c87023eb3aac51043152785c573308f7ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 03/56] fix: size of the channels filling a gap in
 MutableChannelContainer

A gap in front of a registered range was filled with a channel of negative
size, so that reading the mask raised.
---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From f44e578e6bfbb7ab9cad66e002b4aade97504475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 04/56] fix: IndexDict accepted ranges that enclose a stored
 one

e.g. [0, 4) or [0, 6) next to [2, 4).
---
 mmrazor/utils/index_dict.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/utils/index_dict.py b/mmrazor/utils/index_dict.py
index a053024..e2add71 100644
--- a/mmrazor/utils/index_dict.py
+++ b/mmrazor/utils/index_dict.py
@@ -48,8 +48,7 @@ class IndexDict(OrderedDict):
             start, end = __o
             existed = False
             for s, e in self.keys():
-                existed = (s <= start < e or s < end < e or
-                           (s < start and end < e)) or existed
+                existed = (start < e and s < end) or existed
 
             return existed
 
-- 
2.43.0


From 3d29d5def3cb8ccfe384ed326200cb20c1704e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 05/56] fix: OneShotMutableChannel shared its default
 candidates

The default list was filled in place, so every later channel without explicit
candidates inherited the size of the first one; and the list of the caller was
sorted in place.
---
 .../mutables/mutable_channel/oneshot_mutable_channel.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..533bf75 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,10 +23,10 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
-        self.candidate_choices = candidate_choices
+        candidate_choices = sorted(candidate_choices)
         if candidate_choices == []:
             candidate_choices.append(num_channels if self.is_num_mode else 1.0)
+        self.candidate_choices = candidate_choices
 
     @property
     def current_choice(self) -> Union[int, float]:
-- 
2.43.0


From 805410f731c5a8c1f5eb51f8182409d9a75556dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 06/56] fix: a refused second fix_chosen changed the fixed
 mutable

The choice of channels and the input matching of DiffChoiceRoute were
overwritten before the call was refused.
---
 .../models/mutables/mutable_channel/base_mutable_channel.py | 6 +++---
 .../models/mutables/mutable_module/diff_mutable_module.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
index 65d5a44..a3b2f4e 100644
--- a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
@@ -50,14 +50,14 @@ class BaseMutableChannel(BaseMutable, DerivedMethodMixin):
 
     def fix_chosen(self, chosen=None):
         """Fix the mutable  with chosen."""
-        if chosen is not None:
-            self.current_choice = chosen
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        if chosen is not None:
+            self.current_choice = chosen
+
         self.is_fixed = True
 
     def dump_chosen(self) -> DumpChosen:
diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..c86301b 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -496,13 +496,13 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        self._unfixed_choices = self.choices
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From a3c77d405a4086c0eb5441acbc463466c70598f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 07/56] fix: a refused second fix_chosen of
 SequentialMutableChannelUnit changed its choice

---
 .../mutable_channel/units/sequential_mutable_channel_unit.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..700cae1 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -83,6 +83,7 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
 
     def fix_chosen(self, choice=None):
         """fix chosen."""
+        assert self.mutable_channel.is_fixed is False
         super().fix_chosen(choice)
         self.mutable_channel.fix_chosen()
 
-- 
2.43.0


From 60cffaeeb0237117ecb04521a4fda37855818399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 08/56] fix: fixing an operation to an unknown choice removed
 all candidates

---
 .../models/mutables/mutable_module/diff_mutable_module.py   | 6 ++++++
 .../mutables/mutable_module/one_shot_mutable_module.py      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index c86301b..166c736 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -221,6 +221,9 @@ class DiffMutableOP(DiffMutableModule):
         if isinstance(chosen, str):
             chosen = [chosen]
 
+        assert all(c in self.choices for c in chosen), \
+            f'{chosen} are not all in the candidates {self.choices}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -501,6 +504,9 @@ class DiffChoiceRoute(DiffMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert all(c in self.choices for c in chosen), \
+            f'{chosen} are not all in the candidates {self.choices}'
+
         self._unfixed_choices = self.choices
 
         for c in self.choices:
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 434b050..1443350 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -231,6 +231,9 @@ class OneShotMutableOP(OneShotMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert chosen in self.choices, \
+            f'{chosen} is not one of the candidates {self.choices}'
+
         for c in self.choices:
             if c != chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From bc92d01eace340be65fb4bfcc5f4c9d2057e90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 09/56] fix: OneHotMutableOP fixed the second candidate instead
 of the best

---
 mmrazor/models/mutables/mutable_module/diff_mutable_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 166c736..7428171 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -318,7 +318,7 @@ class OneHotMutableOP(DiffMutableOP):
             index = (
                 sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
             if index:
-                self.fix_chosen(self.choices[index])
+                self.fix_chosen(self.choices[sorted_param[1][0].item()])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
-- 
2.43.0


From 5ee3f21005578b9f2fb31dfd39816520c73fcf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 10/56] fix: a width ratio number/total lost one channel to
 float rounding

---
 .../mutables/mutable_channel/sequential_mutable_channel.py    | 4 +++-
 .../mutable_channel/units/sequential_mutable_channel_unit.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..f157316 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -137,4 +137,6 @@ class SquentialMutableChannel(SimpleMutableChannel):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # a ratio is often computed as `number / num_channels`, whose
+            # product with `num_channels` may be a little below the number
+            return max(1, int(self.num_channels * choice + 1e-6))
diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index 700cae1..3d7fe4f 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -150,7 +150,9 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # a ratio is often computed as `number / num_channels`, whose
+            # product with `num_channels` may be a little below the number
+            return max(1, int(self.num_channels * choice + 1e-6))
 
     def _make_divisible_info(self, choice, new_choice):
         logger = MMLogger.get_current_instance()
-- 
2.43.0


From 4e20d17c2de553c931b8a6b9c6e291838583f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 11/56] fix: a divisible width could exceed the channels of its
 unit

---
 .../mutable_channel/units/sequential_mutable_channel_unit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index 3d7fe4f..7f23614 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -135,8 +135,9 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
     def _make_divisible(self, choice_int: int):
         """Make the choice divisible."""
         from mmrazor.models.utils import make_divisible
-        return make_divisible(choice_int, self.divisor, self.min_value,
-                              self.min_ratio)
+        choice = make_divisible(choice_int, self.divisor, self.min_value,
+                                self.min_ratio)
+        return min(choice, self.num_channels)
 
     def _num2ratio(self, choice: Union[int, float]) -> float:
         """Convert the a number choice to a ratio choice."""
-- 
2.43.0


From e1b68b0f9a44600179258d294a0c74ed60d5c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 12/56] fix: a mutable derived from values could not be
 expanded again

---
 mmrazor/models/mutables/derived_mutable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..cbcfea7 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -158,7 +158,8 @@ class DerivedMethodMixin:
                 f'Not support type of ratio: {type(expand_ratio)}')
 
         mask_fn: Optional[Callable] = None
-        if hasattr(self, 'current_mask'):
+        # a mutable derived from values has no mask
+        if getattr(self, 'mask_fn', True) and hasattr(self, 'current_mask'):
             if isinstance(expand_ratio, int):
                 mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
             elif isinstance(expand_ratio, float):
-- 
2.43.0


From 2e2c1cba86bdc3c8947f48ee75d1cc1e0b789528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 13/56] fix: mask of a mutable divided by a float or a mutable
 had another size than its choice

---
 mmrazor/models/mutables/derived_mutable.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index cbcfea7..b863d46 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -184,10 +184,14 @@ class DerivedMethodMixin:
             current_ratio = ratio
         elif isinstance(ratio, float):
             current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            divisor = 1
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         elif isinstance(ratio, BaseMutable):
             current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            divisor = 1
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
-- 
2.43.0


From d6b07aca7683fabd756a0e93b2cf8fb2d5c8d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 14/56] fix: remove a linear layer from the path once it is
 traced

Without it the layers of the next branch were appended to the path of the
linear layer, connecting unrelated layers.
---
 mmrazor/models/task_modules/tracer/parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index c342da7..9b440fc 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -99,6 +99,7 @@ def parse_linear(tracer, grad_fn, module2name, param2module, cur_path,
         visited[name] = True
         tracer.backward_trace(parent, module2name, param2module, cur_path,
                               result_paths, visited, shared_module)
+    cur_path.pop(-1)
 
 
 def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
-- 
2.43.0


From 2c3ae68306f7bd748b2cc91f67d7e2beeab4c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 15/56] fix: different concatenations could be taken for one
 when tracing backward

---
 mmrazor/models/task_modules/tracer/backward_tracer.py | 2 ++
 mmrazor/models/task_modules/tracer/parsers.py         | 8 +++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/backward_tracer.py b/mmrazor/models/task_modules/tracer/backward_tracer.py
index f87c760..a304a27 100644
--- a/mmrazor/models/task_modules/tracer/backward_tracer.py
+++ b/mmrazor/models/task_modules/tracer/backward_tracer.py
@@ -33,6 +33,7 @@ class BackwardTracer:
         ), 'loss_calculator should be a dict, ConfigDict or ' \
            'callable object'
         self.loss_calculator = loss_calculator
+        self._concat_grad_fns = list()
 
     @property
     def backward_parser(self):
@@ -195,6 +196,7 @@ class BackwardTracer:
 
         self.backward_trace(pseudo_loss.grad_fn, module2name, param2module,
                             Path(), module_path_list, visited, share_modules)
+        self._concat_grad_fns.clear()
 
         self._reset_norm_running_stats(model)
 
diff --git a/mmrazor/models/task_modules/tracer/parsers.py b/mmrazor/models/task_modules/tracer/parsers.py
index 9b440fc..d8fe73b 100644
--- a/mmrazor/models/task_modules/tracer/parsers.py
+++ b/mmrazor/models/task_modules/tracer/parsers.py
@@ -119,11 +119,9 @@ def parse_cat(tracer, grad_fn, module2name, param2module, cur_path,
         >>> # ``out`` is obtained by concatenating two tensors
     """
     parents = grad_fn.next_functions
-    concat_id = '_'.join([str(id(p)) for p in parents])
-    concat_id_list = [str(id(p)) for p in parents]
-    concat_id_list.sort()
-    concat_id = '_'.join(concat_id_list)
-    name = f'concat_{concat_id}'
+    # ``grad_fn`` has to be kept alive as long as its id identifies it.
+    tracer._concat_grad_fns.append(grad_fn)
+    name = f'concat_{id(grad_fn)}'
 
     visited[name] = True
     sub_path_lists = list()
-- 
2.43.0


From ca01b23f637b6595f41292c51a46f384b59db8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 16/56] fix: tracing a model backward reset the weights and
 statistics of its norm layers

---
 .../task_modules/tracer/backward_tracer.py    | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/backward_tracer.py b/mmrazor/models/task_modules/tracer/backward_tracer.py
index a304a27..9cc3da6 100644
--- a/mmrazor/models/task_modules/tracer/backward_tracer.py
+++ b/mmrazor/models/task_modules/tracer/backward_tracer.py
@@ -168,12 +168,23 @@ class BackwardTracer:
         return share_modules
 
     @staticmethod
-    def _reset_norm_running_stats(model):
+    def _get_norm_running_stats(model):
+        """Get a copy of the states, which are changed by calculating the
+        pseudo loss."""
+        return {
+            name: buffer.clone()
+            for name, module in model.named_modules()
+            if isinstance(module, _NormBase)
+            for name, buffer in module.named_buffers(name, recurse=False)
+        }
+
+    @staticmethod
+    def _reset_norm_running_stats(model, running_stats):
         """As we calculate the pseudo loss during tracing, we need to reset
-        states of parameters."""
-        for module in model.modules():
-            if isinstance(module, _NormBase):
-                module.reset_parameters()
+        states of the norm layers."""
+        buffers = dict(model.named_buffers())
+        for name, stat in running_stats.items():
+            buffers[name].data.copy_(stat)
 
     def trace(self, model):
         """Trace trace the architecture topology of the input model."""
@@ -185,6 +196,8 @@ class BackwardTracer:
 
         self._register_share_module_hook(model)
 
+        running_stats = self._get_norm_running_stats(model)
+
         pseudo_loss = self.loss_calculator(model)
 
         share_modules = self._find_share_modules(model)
@@ -198,6 +211,6 @@ class BackwardTracer:
                             Path(), module_path_list, visited, share_modules)
         self._concat_grad_fns.clear()
 
-        self._reset_norm_running_stats(model)
+        self._reset_norm_running_stats(model, running_stats)
 
         return module_path_list
-- 
2.43.0


From 083f7f4ff3f275ad365ce641ddf37837cf584424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 17/56] fix: channels returned by a model and used in it as
 well were pruned

---
 mmrazor/structures/graph/module_graph.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mmrazor/structures/graph/module_graph.py b/mmrazor/structures/graph/module_graph.py
index d907719..5507905 100644
--- a/mmrazor/structures/graph/module_graph.py
+++ b/mmrazor/structures/graph/module_graph.py
@@ -385,11 +385,25 @@ class PathToGraphConverter(GraphConverter):
 
         self._insert_bind_nodes()
         self._topo_rename()
+        self._connect_outputs()
 
     def _parse(self, path_list: PathList):
         """Parse path list."""
         self._parse_helper(path_list, [])
 
+    def _connect_outputs(self):
+        """Connect the nodes, which are used by other nodes and returned by the
+        model as well, with an output node."""
+        for path in self.path_list:
+            if len(path) == 0:
+                continue
+            node = self._add_or_find_node(path[0])
+            if len(node.next_nodes) > 0 and not any(
+                    n.is_output() for n in node.next_nodes):
+                output = self.graph.add_or_find_node(
+                    ModuleNode('auto_output', 'output_placeholder'))
+                self.graph.connect(node, output)
+
     def _parse_helper(self, path_unit: Union[PathList, Path, PathNode],
                       next_nodes: List[ModuleNode]):
         """Parse a node(unit) in path list."""
-- 
2.43.0


From e972f1124d92d8b8b3bebb6022a635691bf128d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 18/56] fix: a sum which is concatenated was not traced as a
 sum

---
 mmrazor/structures/graph/module_graph.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mmrazor/structures/graph/module_graph.py b/mmrazor/structures/graph/module_graph.py
index 5507905..a1060ac 100644
--- a/mmrazor/structures/graph/module_graph.py
+++ b/mmrazor/structures/graph/module_graph.py
@@ -427,8 +427,9 @@ class PathToGraphConverter(GraphConverter):
             if isinstance(path_unit, PathConcatNode):
                 current_node = self._add_or_find_node(path_unit)
                 self._connect_nexts(current_node, next_nodes)
-                for catpath in path_unit.path_lists:  # sibling
-                    self._parse_helper(catpath, [current_node])
+                if len(current_node.prev_nodes) == 0:  # not parsed yet
+                    for catpath in path_unit.path_lists:  # sibling
+                        self._parse_cat_operand(catpath, current_node)
 
             # single node
             else:
@@ -436,6 +437,17 @@ class PathToGraphConverter(GraphConverter):
                 self._connect_nexts(current_node, next_nodes)
         return current_node
 
+    def _parse_cat_operand(self, catpath: PathList, cat_node: ModuleNode):
+        """Parse an operand of a cat node, which may combine the results of
+        several nodes."""
+        roots = set(path[0].name for path in catpath if len(path) > 0)
+        if len(roots) > 1:
+            operand = self._new_placeholder_node('bind_placeholder')
+            self.graph.connect(operand, cat_node)
+        else:
+            operand = cat_node
+        self._parse_helper(catpath, [operand])
+
     def _add_or_find_cat_node(self, pathnode: PathConcatNode):
         """Receive a cat-node.
 
-- 
2.43.0


From 889bd1442d2ba180c5c3b7a8311f9569edf065d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 19/56] fix: only one of the sources of a GroupNorm was kept
 from being pruned

---
 mmrazor/structures/graph/module_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/graph/module_graph.py b/mmrazor/structures/graph/module_graph.py
index a1060ac..ad4e29f 100644
--- a/mmrazor/structures/graph/module_graph.py
+++ b/mmrazor/structures/graph/module_graph.py
@@ -304,7 +304,8 @@ class GraphConverter:
         for node in self.graph:
             if (isinstance(node.val, nn.Conv2d)
                     or isinstance(node.val, nn.Linear)
-                    or isinstance(node.val, nn.modules.batchnorm._BatchNorm)):
+                    or isinstance(node.val, nn.modules.batchnorm._BatchNorm)
+                    or isinstance(node.val, nn.GroupNorm)):
                 if len(node.prev_nodes) > 1:
                     need_bind_nodes.append(node)
         for node in need_bind_nodes:
-- 
2.43.0


From 5997046ac21ffe71ed4da97fd5ce88abff89bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 20/56] fix: output nodes of a backward traced graph were
 looked up by outdated names

---
 mmrazor/structures/graph/module_graph.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mmrazor/structures/graph/module_graph.py b/mmrazor/structures/graph/module_graph.py
index ad4e29f..3f6a24f 100644
--- a/mmrazor/structures/graph/module_graph.py
+++ b/mmrazor/structures/graph/module_graph.py
@@ -383,22 +383,24 @@ class PathToGraphConverter(GraphConverter):
         self.cat_dict: Dict[str, str] = {}
         self.name2module = dict(model.named_modules())
         self._parse(self.path_list)
+        # cat nodes can only be found by their path before they are renamed
+        output_nodes = [
+            self._add_or_find_node(path[0]) for path in self.path_list
+            if len(path) > 0
+        ]
 
         self._insert_bind_nodes()
         self._topo_rename()
-        self._connect_outputs()
+        self._connect_outputs(output_nodes)
 
     def _parse(self, path_list: PathList):
         """Parse path list."""
         self._parse_helper(path_list, [])
 
-    def _connect_outputs(self):
+    def _connect_outputs(self, nodes: List[ModuleNode]):
         """Connect the nodes, which are used by other nodes and returned by the
         model as well, with an output node."""
-        for path in self.path_list:
-            if len(path) == 0:
-                continue
-            node = self._add_or_find_node(path[0])
+        for node in nodes:
             if len(node.next_nodes) > 0 and not any(
                     n.is_output() for n in node.next_nodes):
                 output = self.graph.add_or_find_node(
-- 
2.43.0


From 5d21ca971b64b22dd16eaa83072ee05ed35c08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 21/56] fix: choices given by a config were reset when units
 were prepared from it

---
 .../mutators/channel_mutator/channel_mutator.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/mutators/channel_mutator/channel_mutator.py b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
index 910992e..b0492a9 100644
--- a/mmrazor/models/mutators/channel_mutator/channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
@@ -104,15 +104,15 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
 
         self._name2module = dict(supernet.named_modules())
 
+        from_cfg = isinstance(self.parse_cfg, dict) and (
+            self.parse_cfg['type'] == 'Config' or 'from_cfg' in self.parse_cfg)
         if isinstance(self.parse_cfg,
                       ChannelAnalyzer) or 'Analyzer' in self.parse_cfg['type']:
-            if isinstance(self.parse_cfg,
-                          dict) and 'from_cfg' in self.parse_cfg:
+            if from_cfg:
                 units = self._prepare_from_cfg(supernet, self.units_cfg)
             else:
                 units = self._prepare_from_tracer(supernet, self.parse_cfg)
-        elif self.parse_cfg['type'] == 'Config' \
-                or 'from_cfg' in self.parse_cfg:
+        elif from_cfg:
             units = self._prepare_from_cfg(supernet, self.units_cfg)
         elif self.parse_cfg['type'] == 'Predefined':
             units = self._prepare_from_predefined_model(supernet)
@@ -122,6 +122,10 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
             units[i] = units[i].to(device)
             units[i].prepare_for_pruning(supernet)
             self._name2unit[units[i].name] = units[i]
+            # preparing a unit may reset the choice given by the config
+            if from_cfg and 'choice' in self.units_cfg[units[i].name]:
+                units[i].current_choice = self.units_cfg[
+                    units[i].name]['choice']
 
         self.units = ModuleList(units)
 
-- 
2.43.0


From 33938b5a2a8b94d59f650b1914e6237a2b9e8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 22/56] fix: the prefix of a subnet was stripped as a set of
 characters

---
 mmrazor/structures/subnet/fix_subnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..6a6246d 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -78,7 +78,8 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             chosen = subnet_dict.get(alias, None)
         else:
             if prefix:
-                mutable_name = name.lstrip(prefix)
+                mutable_name = name[len(prefix):] if name.startswith(
+                    prefix) else name
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
-- 
2.43.0


From 62a1bf39712f6e087886f5bdc5f90e8758bb81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 23/56] fix: a ratio-mode OneShotMutableChannel could not be
 fixed to its exported choice

---
 .../mutables/mutable_channel/oneshot_mutable_channel.py  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 533bf75..0bafe93 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -40,3 +40,12 @@ class OneShotMutableChannel(SquentialMutableChannel):
         SquentialMutableChannel.current_choice.fset(  # type: ignore
             self,  # type: ignore
             choice)  # type: ignore
+
+    def fix_chosen(self, chosen=...):
+        """Fix the choice, which may be an exported number of channels."""
+        if isinstance(chosen, int) and not self.is_num_mode:
+            for choice in self.candidate_choices:
+                if self._ratio2num(choice) == chosen:
+                    chosen = choice
+                    break
+        super().fix_chosen(chosen)
-- 
2.43.0


From c9360eb7c4db0f38ec32673b644cc849792c3731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 24/56] fix: a custom search group ending with an alias raised
 KeyError

---
 mmrazor/models/mutators/group_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..73f06ee 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -160,7 +160,7 @@ class GroupMixin():
                     grouped_mutable_names.append(item)
 
             # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            prefix = group_mutables[0].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
-- 
2.43.0


From dbfe0693fc13192beb42f16b75f6d55849eb8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 25/56] fix: an element with derived elements was in several
 search groups

---
 mmrazor/models/mutators/group_mixin.py | 73 +++++++++++++-------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 73f06ee..373d83f 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -1,6 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 from collections import Counter
-from typing import Dict, List
+from typing import Dict, Iterator, List, Tuple
 
 from torch.nn import Module
 
@@ -70,17 +70,36 @@ class GroupMixin():
                 return True
         return False
 
+    def _named_mutables(
+            self, supernet: Module) -> Iterator[Tuple[str, MUTABLE_TYPE]]:
+        """Every supported mutable of the supernet once, with its name.
+
+        A mutable which is only the source of derived mutables is named by the
+        first of them.
+        """
+        modules = list(supernet.named_modules())
+        named = {id(m) for _, m in modules if self.is_supported_mutable(m)}
+        names = {name for name, _ in modules}
+        for name, module in modules:
+            if self.is_supported_mutable(module):
+                yield name, module
+            elif hasattr(module, 'source_mutables'):
+                source_name = name
+                for each_mutable in module.source_mutables:
+                    if self.is_supported_mutable(
+                            each_mutable) and id(each_mutable) not in named:
+                        named.add(id(each_mutable))
+                        yield source_name, each_mutable
+                        while source_name in names:
+                            source_name += '_'
+                        names.add(source_name)
+
     def _build_name_mutable_mapping(
             self, supernet: Module) -> Dict[str, MUTABLE_TYPE]:
         """Mapping module name to mutable."""
         name2mutable: Dict[str, MUTABLE_TYPE] = dict()
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                name2mutable[name] = module
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        name2mutable[name] = each_mutable
+        for name, mutable in self._named_mutables(supernet):
+            name2mutable[name] = mutable
 
         self._name2mutable = name2mutable
 
@@ -97,16 +116,9 @@ class GroupMixin():
             else:
                 dict[key].append(name)
 
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                if module.alias is not None:
-                    _append(module.alias, alias2mutable_names, name)
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        if each_mutable.alias is not None:
-                            _append(each_mutable.alias, alias2mutable_names,
-                                    name)
+        for name, mutable in self._named_mutables(supernet):
+            if mutable.alias is not None:
+                _append(mutable.alias, alias2mutable_names, name)
 
         return alias2mutable_names
 
@@ -187,25 +199,12 @@ class GroupMixin():
                     current_group_nums += 1
 
         # check whether all the mutable objects are in the search_groups
-        for name, module in supernet.named_modules():
-            if self.is_supported_mutable(module):
-                if name in grouped_mutable_names:
-                    continue
-                else:
-                    prefix = module.mutable_prefix
-                    group_name = prefix + '_' + str(current_group_nums)
-                    search_groups[group_name] = [module]
-                    current_group_nums += 1
-            elif hasattr(module, 'source_mutables'):
-                for each_mutable in module.source_mutables:
-                    if self.is_supported_mutable(each_mutable):
-                        if name in grouped_mutable_names:
-                            continue
-                        else:
-                            prefix = each_mutable.mutable_prefix
-                            group_name = prefix + '_' + str(current_group_nums)
-                            search_groups[group_name] = [each_mutable]
-                            current_group_nums += 1
+        for name, mutable in name2mutable.items():
+            if name not in grouped_mutable_names:
+                prefix = mutable.mutable_prefix
+                group_name = prefix + '_' + str(current_group_nums)
+                search_groups[group_name] = [mutable]
+                current_group_nums += 1
 
         grouped_counter = Counter(grouped_mutable_names)
 
-- 
2.43.0


From a8c196047ad6ce1f26e7fbc7854aa70f59f1a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 26/56] fix: preparing a channel mutator from a configuration
 leaves that configuration as it is

The from_cfg mark was popped out of the parse_cfg dict handed in, so a second
mutator built from the same dict ignored the written widths.
---
 mmrazor/models/mutators/channel_mutator/channel_mutator.py | 7 +++++--
 mmrazor/structures/subnet/fix_subnet.py                    | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutators/channel_mutator/channel_mutator.py b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
index b0492a9..e95f697 100644
--- a/mmrazor/models/mutators/channel_mutator/channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
@@ -333,8 +333,11 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
         assert isinstance(config, dict)
 
         if 'Analyzer' in self.parse_cfg['type']:
-            self.parse_cfg.pop('from_cfg')
-            tracer = TASK_UTILS.build(self.parse_cfg)
+            # `parse_cfg` may be shared with other mutators, leave it as it is
+            tracer = TASK_UTILS.build({
+                k: v
+                for k, v in self.parse_cfg.items() if k != 'from_cfg'
+            })
             unit_configs = tracer.analyze(model)
 
         units = []
diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 6a6246d..ed8c936 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -117,7 +117,7 @@ def _load_fix_subnet_by_mutator(model: nn.Module, mutator_cfg: Dict) -> None:
         raise ValueError('mutator_cfg must contain key channel_unit_cfg, '
                          f'but got mutator_cfg:'
                          f'{mutator_cfg}')
-    mutator = MODELS.build(mutator_cfg)
+    mutator = MODELS.build(copy.deepcopy(mutator_cfg))
     mutator.parse_cfg['from_cfg'] = True
     mutator.prepare_from_supernet(model)
 
-- 
2.43.0


From c50031275188fbfcca48dc25c8b1c104e67477c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 27/56] fix: iterative pruning to a target given in another
 kind than the units' choices

A ratio as target of units that count channels was truncated to an integer
(0.5 became 0 and then 1 channel); a count as target of units that use ratios
was taken for a ratio.
---
 mmrazor/models/algorithms/pruning/ite_prune_algorithm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
index 937aaa1..ed59927 100644
--- a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
+++ b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
@@ -7,7 +7,8 @@ from mmengine import MessageHub, MMLogger
 from mmengine.model import BaseModel
 from mmengine.structures import BaseDataElement
 
-from mmrazor.models.mutables import MutableChannelUnit
+from mmrazor.models.mutables import (MutableChannelUnit,
+                                     SequentialMutableChannelUnit)
 from mmrazor.models.mutators import ChannelMutator
 from mmrazor.registry import MODELS
 from ..base import BaseAlgorithm
@@ -152,6 +153,12 @@ class ItePruneAlgorithm(BaseAlgorithm):
                 continue
             unit_target = target[unit_name]
             assert isinstance(unit_target, (float, int))
+            # the schedule is computed in the kind of choice the unit has
+            if isinstance(unit, SequentialMutableChannelUnit):
+                if unit.is_num_mode:
+                    unit_target = unit._ratio2num(unit_target)
+                else:
+                    unit_target = unit._num2ratio(unit_target)
             target_pruning_ratio[unit_name] = unit_target
         return target_pruning_ratio
 
-- 
2.43.0


From fbe09926e848233cd51a00fac58598abd6586ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 28/56] fix: greedy sampling trains every one of the best
 candidates

The best list was never consumed, so the first batch's best candidate was
trained for ever and no further candidates were sampled.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..96d77ee 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -218,6 +218,10 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             2. Pop from the `top_k_candidates` one by one to train
             the supernet.
         """
+        if len(self.top_k_candidates) > 0:
+            # the one returned by the last call has been trained
+            self.top_k_candidates.pop(0)
+
         if len(self.top_k_candidates) == 0:
             self.update_cur_prob(cur_iter=self._iter)
 
-- 
2.43.0


From 02398dd5a57bbe0101d494cf9eb8559a9c1e5ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 29/56] fix: the probability of the greedy sampler goes from
 init_prob to max_prob

The linear schedule started at 0 instead of init_prob (and ended below
max_prob), the cosine one started at 1 and went down, and both divided by
zero for an empty interval.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 96d77ee..4e48ef8 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -252,7 +252,7 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
     def update_cur_prob(self, cur_iter: int) -> None:
         """update current probablity of sampling from the candidates, which is
         generated based on the probablity strategy and current iter."""
-        if cur_iter > self.schedule_end_iter:
+        if cur_iter >= self.schedule_end_iter:
             self.cur_prob = self.max_prob
         elif cur_iter < self.schedule_start_iter:
             self.cur_prob = self.init_prob
@@ -260,14 +260,12 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             schedule_all_steps = self.schedule_end_iter - \
                 self.schedule_start_iter
             schedule_cur_steps = cur_iter - self.schedule_start_iter
+            ratio = schedule_cur_steps / schedule_all_steps
+            tmp = self.max_prob - self.init_prob
             if self.prob_schedule == 'linear':
-                tmp = self.max_prob - self.init_prob
-                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps
+                self.cur_prob = tmp * ratio + self.init_prob
             elif self.prob_schedule == 'consine':
-                tmp_1 = (1 - self.init_prob) * 0.5
-                tmp_2 = math.pi * schedule_cur_steps
-                tmp_3 = schedule_all_steps
-                self.cur_prob = tmp_1 * (1 + math.cos(tmp_2 / tmp_3)) \
+                self.cur_prob = tmp * 0.5 * (1 - math.cos(math.pi * ratio)) \
                     + self.init_prob
             else:
                 raise ValueError('`prob_schedule` is eroor, it should be \
-- 
2.43.0


From fefdd8152b8cfab562d9c472216c3027fffb402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 30/56] fix: greedy sampling trains in training mode after
 scoring candidates

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4e48ef8..bc2b3d8 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -305,6 +305,8 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             outputs = self.runner.model.val_step(data_batch)
             self.evaluator.process(data_samples=outputs, data_batch=data_batch)
         metrics = self.evaluator.evaluate(len(self.dataloader_val.dataset))
+        # the candidates are scored in the middle of the training
+        self.runner.model.train()
         return metrics
 
     def _sample_from_supernet(self) -> SupportRandomSubnet:
-- 
2.43.0


From 52d0bf3a05a02b21b727b4c68f6910700249d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 31/56] fix: the greedy sampler samples from algorithms without
 sample_subnet

No algorithm has that method any more, subnets are sampled by the mutator.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index bc2b3d8..9613b2b 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -311,8 +311,9 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
 
     def _sample_from_supernet(self) -> SupportRandomSubnet:
         """Sample from the supernet."""
-        subnet = self.model.sample_subnet()
-        return subnet
+        if hasattr(self.model, 'sample_subnet'):
+            return self.model.sample_subnet()
+        return self.model.mutator.sample_choices()
 
     def _sample_from_candidates(self) -> SupportRandomSubnet:
         """Sample from the candidates."""
-- 
2.43.0


From 17006fa606cebc476deee7b12c79c896bb69a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 32/56] fix: a resumed greedy search skipped the target reached
 by its last saved step

---
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..39e66b4 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -95,10 +95,7 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
-                continue
-
+        for target in self.target_flops[len(self.searched_subnet):]:
             if self.current_flops <= target:
                 self.searched_subnet.append(self.current_subnet)
                 self.searched_subnet_flops.append(self.current_flops)
-- 
2.43.0


From 4d460618854a1e29b9247d64b0dcffc78db9c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 33/56] fix: resource estimates ignored the input size and
 units of the estimator, and were per module for ever after one per module

---
 .../estimators/resource_estimator.py          | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..55cef0b 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -117,13 +117,12 @@ class ResourceEstimator(BaseEstimator):
         resource_metrics = dict()
         measure_latency = True if latency_cfg else False
 
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
 
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
@@ -162,13 +161,12 @@ class ResourceEstimator(BaseEstimator):
                 params results (string | float format) of each modules in the
                 ``flops_params_cfg['spec_modules']``.
         """
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
         flops_params_cfg['seperate_return'] = True
 
         assert len(flops_params_cfg['spec_modules']), (
-- 
2.43.0


From c3dcc5efebfe8e964707efa57f21e6482e5624a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 34/56] fix: estimating the resources of a model left methods
 on it and left it in evaluation mode

---
 .../counters/flops_params_counter.py          |  4 +++
 .../estimators/resource_estimator.py          | 28 +++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 4a3e44d..f46b8ac 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -435,6 +435,10 @@ def stop_flops_params_count(self):
     """
     remove_batch_counter_hook_function(self)
     self.apply(remove_flops_params_counter_hook_function)
+    for name in ('start_flops_params_count', 'stop_flops_params_count',
+                 'reset_flops_params_count',
+                 'compute_average_flops_params_cost', '__batch_counter__'):
+        self.__dict__.pop(name, None)
 
 
 def reset_flops_params_count(self):
diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index 55cef0b..8911c09 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -131,12 +131,17 @@ class ResourceEstimator(BaseEstimator):
         else:
             latency_cfg = self.latency_cfg
 
-        model.eval()
-        flops, params = get_model_flops_params(model, **flops_params_cfg)
-        if measure_latency:
-            latency = get_model_latency(model, **latency_cfg)
-        else:
-            latency = '0.0 ms' if self.as_strings else 0.0  # type: ignore
+        training = {m: m.training for m in model.modules()}
+        try:
+            model.eval()
+            flops, params = get_model_flops_params(model, **flops_params_cfg)
+            if measure_latency:
+                latency = get_model_latency(model, **latency_cfg)
+            else:
+                latency = '0.0 ms' if self.as_strings else 0.0  # type: ignore
+        finally:
+            for module, mode in training.items():
+                module.training = mode
 
         resource_metrics.update({
             'flops': flops,
@@ -173,9 +178,14 @@ class ResourceEstimator(BaseEstimator):
             'spec_modules can not be empty when calling '
             f'`estimate_separation_modules` of {self.__class__.__name__} ')
 
-        model.eval()
-        spec_modules_resources = get_model_flops_params(
-            model, **flops_params_cfg)
+        training = {m: m.training for m in model.modules()}
+        try:
+            model.eval()
+            spec_modules_resources = get_model_flops_params(
+                model, **flops_params_cfg)
+        finally:
+            for module, mode in training.items():
+                module.training = mode
         return spec_modules_resources
 
     def _check_flops_params_cfg(self, flops_params_cfg: dict) -> None:
-- 
2.43.0


From a5b420fbac1e3ac2b101c51a602c3c47fbe6554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 35/56] fix: operation counts of upsampling in a batch, of
 biases of transposed convolutions and of shared layers per module

---
 .../estimators/counters/flops_params_counter.py          | 9 +++++----
 .../counters/op_counters/deconv_layer_counter.py         | 2 +-
 .../counters/op_counters/upsample_layer_counter.py       | 7 +------
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index f46b8ac..83186bd 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -293,10 +293,11 @@ def print_model_with_flops_params(model,
     def del_extra_repr(m):
         """Recover origin extra_repr method."""
         if hasattr(m, 'original_extra_repr'):
-            m.extra_repr = m.original_extra_repr
+            del m.extra_repr
             del m.original_extra_repr
         if hasattr(m, 'accumulate_flops'):
             del m.accumulate_flops
+            del m.accumulate_params
 
     model.apply(add_extra_repr)
     print(model, file=ost, flush=flush)
@@ -334,9 +335,9 @@ def accumulate_sub_module_flops_params(model, units=None):
                 sum += accumulate_flops(m)
             return sum
 
-    for module in model.modules():
-        _flops = accumulate_flops(module)
-        _params = accumulate_params(module)
+    accumulated = [(module, accumulate_flops(module),
+                    accumulate_params(module)) for module in model.modules()]
+    for module, _flops, _params in accumulated:
         module.__flops__ = _flops
         module.__params__ = _params
         if units is not None:
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 0426fbb..646365a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -32,7 +32,7 @@ class ConvTranspose2dCounter(BaseCounter):
         bias_flops = 0
         if module.bias is not None:
             output_height, output_width = output.shape[2:]
-            bias_flops = out_channels * batch_size * output_height * output_height  # noqa: E501
+            bias_flops = out_channels * batch_size * output_height * output_width  # noqa: E501
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 12958b6..a0c0f96 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -11,10 +11,5 @@ class UpsampleCounter(BaseCounter):
     @staticmethod
     def add_count_hook(module, input, output):
         """Calculate FLOPs and params based on the size of input & output."""
-        output_size = output[0]
-        batch_size = output_size.shape[0]
-        output_elements_count = batch_size
-        for val in output_size.shape[1:]:
-            output_elements_count *= val
-        module.__flops__ += int(output_elements_count)
+        module.__flops__ += int(output.numel())
         module.__params__ += get_model_parameters_number(module)
-- 
2.43.0


From 37bcdf1bf74811ffc660bd207b12ba1e0eb654dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 36/56] fix: resource estimates of dynamic layers counted
 parameters and groups which are not selected

---
 .../op_counters/conv_layer_counter.py         | 29 ++++++++++++
 .../op_counters/linear_layer_counter.py       | 10 ++++-
 .../op_counters/norm_layer_counter.py         | 44 +++++++++++++++++++
 3 files changed, 82 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..95bfba0 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -75,6 +75,9 @@ class DynamicConv2dCounter(ConvCounter):
         output_dims = list(output.shape[2:])
 
         kernel_dims = list(module.kernel_size)
+        if 'kernel_size' in module.mutable_attrs:
+            kernel_dims = [module.mutable_attrs['kernel_size'].current_choice
+                           ] * len(kernel_dims)
 
         if 'out_channels' in module.mutable_attrs:
             out_channels = module.mutable_attrs[
@@ -93,6 +96,8 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            groups = in_channels
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
@@ -113,3 +118,27 @@ class DynamicConv2dCounter(ConvCounter):
 
         module.__flops__ += overall_flops
         module.__params__ += int(overall_params)
+
+
+@TASK_UTILS.register_module()
+class DynamicConv2dAdaptivePaddingCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for DynamicConv2dAdaptivePadding module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class BigNasConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for BigNasConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class OFAConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for OFAConv2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class FuseConv2dCounter(DynamicConv2dCounter):
+    """FLOPs/params counter for FuseConv2d module."""
+    pass
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
index 80c024c..83c7c7e 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/linear_layer_counter.py
@@ -22,4 +22,12 @@ class LinearCounter(BaseCounter):
 
 @TASK_UTILS.register_module()
 class DynamicLinearCounter(LinearCounter):
-    pass
+    """FLOPs/params counter for DynamicLinear module."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the channels in use."""
+        input = input[0]
+        module.__flops__ += int(np.prod(input.shape) * output.shape[-1])
+        module.__params__ += sum(p.numel() for p in module.get_dynamic_params()
+                                 if p is not None)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
index 54f3f26..94ffeff 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
@@ -68,6 +68,50 @@ class GroupNormCounter(BNCounter):
     pass
 
 
+class DynamicBNCounter(BNCounter):
+    """FLOPs/params counter for batch norms with dynamic channels."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """Calculate FLOPs and params based on the channels in use."""
+        batch_flops = np.prod(input[0].shape)
+        if getattr(module, 'affine', False):
+            batch_flops *= 2
+        module.__flops__ += int(batch_flops)
+        _, _, weight, bias = module.get_dynamic_params()
+        module.__params__ += sum(p.numel() for p in (weight, bias)
+                                 if p is not None)
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm1dCounter(DynamicBNCounter):
+    """FLOPs/params counter for DynamicBatchNorm1d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm2dCounter(DynamicBNCounter):
+    """FLOPs/params counter for DynamicBatchNorm2d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class DynamicBatchNorm3dCounter(DynamicBNCounter):
+    """FLOPs/params counter for DynamicBatchNorm3d module."""
+    pass
+
+
+@TASK_UTILS.register_module()
+class SwitchableBatchNorm2dCounter(DynamicBNCounter):
+    """FLOPs/params counter for SwitchableBatchNorm2d module."""
+
+    @staticmethod
+    def add_count_hook(module, input, output):
+        """The candidate of the chosen width, if any, is counted itself."""
+        if module.activated_channel_num() == module.num_features:
+            DynamicBNCounter.add_count_hook(module, input, output)
+
+
 @TASK_UTILS.register_module()
 class DMCPBatchNorm2dCounter(BNCounter):
     """FLOPs/params counter for DynamicBatchNorm2d module."""
-- 
2.43.0


From a999a15e064d9ac0c9eb2d90f207e5c6ee273e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 37/56] fix: an iteration-based combined loader stopped after
 its first pass

---
 mmrazor/engine/runner/darts_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..3c3762c 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -171,7 +171,7 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From 3a6afe47888bfe224e9fdc783de2b1e782b91aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 38/56] fix: statistics calibration with dict batches, unused
 layers and one-dimensional norms

---
 .../engine/runner/utils/calibrate_bn_mixin.py   | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..5643991 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -51,8 +51,9 @@ class CalibrateBNMixin:
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
             real_input = input[0]
-            mean = real_input.mean((0, 2, 3))
-            var = real_input.var((0, 2, 3), unbiased=True)
+            dims = [d for d in range(real_input.dim()) if d != 1]
+            mean = real_input.mean(dims)
+            var = real_input.var(dims, unbiased=True)
 
             mean_average_meter.update(mean, real_input.size(0))
             var_average_meter.update(var, real_input.size(0))
@@ -76,11 +77,14 @@ class CalibrateBNMixin:
             f'Total sample number for calibration: {calibrate_sample_num}')
         remaining = calibrate_sample_num
         for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
             if isinstance(data_batch, torch.Tensor):
+                data_batch = data_batch[:remaining]
                 data_batch_nums = len(data_batch)
             else:
+                data_batch = {
+                    key: value[:remaining]
+                    for key, value in data_batch.items()
+                }
                 data_batch_nums = len(data_batch['inputs'])
             if dist.is_initialized() and dist.is_available():
                 data_batch_tensor = torch.tensor(
@@ -102,6 +106,8 @@ class CalibrateBNMixin:
             if isinstance(module, _BatchNorm):
                 mean_average_meter = module.__mean_average_meter__
                 var_average_meter = module.__var_average_meter__
+                del module.__mean_average_meter__
+                del module.__var_average_meter__
                 if mean_average_meter.count == 0 or \
                         var_average_meter.count == 0:
                     assert mean_average_meter.count == 0 and \
@@ -132,9 +138,6 @@ class CalibrateBNMixin:
                 module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
                 module.running_var[:feature_dim].copy_(calibrated_bn_var)
 
-                del module.__mean_average_meter__
-                del module.__var_average_meter__
-
         self.runner.logger.debug('Remove all hooks for calibration')
         self.runner.logger.info('Calibrate batch norm statistics done')
         for handle in hook_handles:
-- 
2.43.0


From b37c8a302c86a56e7b41d41ca54ee65e0e24c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 39/56] fix: the student of data-free distillation was updated
 by the loss of the generator

---
 .../configurable/datafree_distillation.py     | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1aff807..8488813 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import Dict, List, Tuple
+from contextlib import contextmanager
+from typing import Dict, Iterator, List, Tuple
 
 import torch
 import torch.nn as nn
@@ -11,6 +12,20 @@ from mmrazor.registry import MODELS
 from ...base import BaseAlgorithm
 
 
+@contextmanager
+def discard_grads(module: nn.Module) -> Iterator[None]:
+    """Discard the gradients which are accumulated on the parameters of
+    ``module`` in this context."""
+    grads = [(param, param.grad) for param in module.parameters()]
+    for param, _ in grads:
+        param.grad = None
+    try:
+        yield
+    finally:
+        for param, grad in grads:
+            param.grad = grad
+
+
 @MODELS.register_module()
 class DataFreeDistillation(BaseAlgorithm):
     """Algorithm for data-free teacher-student distillation Typically, the
@@ -166,7 +181,9 @@ class DataFreeDistillation(BaseAlgorithm):
             loss_generator = self.generator_distiller.compute_distill_losses()
 
         generator_loss, generator_loss_vars = self.parse_losses(loss_generator)
-        optimizer.update_params(generator_loss)
+        # The student is not updated by the loss of the generator.
+        with discard_grads(self.student):
+            optimizer.update_params(generator_loss)
         log_vars = dict(add_prefix(generator_loss_vars, 'generator'))
 
         return generator_loss, log_vars
@@ -223,7 +240,9 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
         distill_loss, distill_log_vars = self.parse_losses(loss_distill)
         log_vars.update(add_prefix(distill_log_vars, 'distill'))
 
-        optim_wrapper['generator'].update_params(generator_loss)
+        # The student is not updated by the loss of the generator.
+        with discard_grads(self.student):
+            optim_wrapper['generator'].update_params(generator_loss)
         optim_wrapper['architecture'].update_params(distill_loss)
 
         return log_vars
-- 
2.43.0


From a5400f3e51281ba3b1913ae98e97c5f3a8558d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 40/56] fix: dumping a subnet removed the sampled weights of
 the model, kept all subnets, and estimates were one epoch early

---
 mmrazor/engine/hooks/dump_subnet_hook.py       | 18 +++++++++---------
 .../engine/hooks/estimate_resources_hook.py    | 14 ++++----------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/mmrazor/engine/hooks/dump_subnet_hook.py b/mmrazor/engine/hooks/dump_subnet_hook.py
index 1aaeaba..b693320 100644
--- a/mmrazor/engine/hooks/dump_subnet_hook.py
+++ b/mmrazor/engine/hooks/dump_subnet_hook.py
@@ -2,14 +2,13 @@
 import copy
 import os.path as osp
 from pathlib import Path
-from typing import Optional, Sequence, Union
+from typing import List, Optional, Sequence, Union
 
 from mmengine.dist import master_only
 from mmengine.fileio import FileClient, dump
 from mmengine.hooks import Hook
 from mmengine.registry import HOOKS
 
-from mmrazor.models.mutables.base_mutable import BaseMutable
 from mmrazor.structures import convert_fix_subnet, export_fix_subnet
 
 DATA_BATCH = Optional[Sequence[dict]]
@@ -61,6 +60,7 @@ class DumpSubnetHook(Hook):
         self.save_last = save_last
         self.args = kwargs
         self.file_client_args = file_client_args
+        self.saved_subnets: List[str] = []
 
     def before_train(self, runner) -> None:
         """Finish all operations, related to checkpoint.
@@ -114,13 +114,6 @@ class DumpSubnetHook(Hook):
         """
         model = runner.model.module if runner.distributed else runner.model
 
-        # delete non-leaf tensor to get deepcopy(model).
-        # TODO solve the hard case.
-        for module in model.architecture.modules():
-            if isinstance(module, BaseMutable):
-                if hasattr(module, 'arch_weights'):
-                    delattr(module, 'arch_weights')
-
         copied_model = copy.deepcopy(model)
         copied_model.mutator.set_choices(copied_model.mutator.sample_choices())
 
@@ -141,6 +134,13 @@ class DumpSubnetHook(Hook):
 
         dump(subnet_dict, filepath, file_format='yaml')
 
+        # keep the latest subnets only
+        if filepath in self.saved_subnets:
+            self.saved_subnets.remove(filepath)
+        self.saved_subnets.append(filepath)
+        while 0 < self.max_keep_subnets < len(self.saved_subnets):
+            file_client.remove(self.saved_subnets.pop(0))
+
     def after_train_iter(self,
                          runner,
                          batch_idx: int,
diff --git a/mmrazor/engine/hooks/estimate_resources_hook.py b/mmrazor/engine/hooks/estimate_resources_hook.py
index 28f381a..01211e2 100644
--- a/mmrazor/engine/hooks/estimate_resources_hook.py
+++ b/mmrazor/engine/hooks/estimate_resources_hook.py
@@ -61,7 +61,8 @@ class EstimateResourcesHook(Hook):
         if not self.by_epoch:
             return
 
-        if self.every_n_epochs(runner, self.interval):
+        # the epochs of the runner are complete when it validates
+        if self.every_n_epochs(runner, self.interval, start=1):
             self.estimate_resources(runner)
 
     def after_val_iter(self,
@@ -78,7 +79,8 @@ class EstimateResourcesHook(Hook):
         if self.by_epoch:
             return
 
-        if self.every_n_train_iters(runner, self.interval):
+        # the iterations of the runner are complete when it validates
+        if self.every_n_train_iters(runner, self.interval, start=1):
             self.estimate_resources(runner)
 
     def estimate_resources(self, runner) -> None:
@@ -103,16 +105,8 @@ class EstimateResourcesHook(Hook):
         get the current searched subnet from the supernet.
         """
         # Avoid circular import
-        from mmrazor.models.mutables.base_mutable import BaseMutable
         from mmrazor.structures import export_fix_subnet, load_fix_subnet
 
-        # delete non-leaf tensor to get deepcopy(model).
-        # TODO solve the hard case.
-        for module in model.architecture.modules():
-            if isinstance(module, BaseMutable):
-                if hasattr(module, 'arch_weights'):
-                    delattr(module, 'arch_weights')
-
         copied_model = copy.deepcopy(model)
         copied_model.mutator.set_choices(copied_model.mutator.sample_choices())
 
-- 
2.43.0


From fc2377c2603dc1614576b8a431152413c9201265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 41/56] fix: DSNAS handled the gradients of its architecture
 after the step they are for

---
 mmrazor/models/algorithms/nas/dsnas.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e5937ba..c82f321 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -159,10 +159,12 @@ class DSNAS(BaseAlgorithm):
                     mutator_loss = self.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
@@ -314,10 +316,12 @@ class DSNASDDP(MMDistributedDataParallel):
                     mutator_loss = self.module.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.module.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.module.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From e33dc3f50750c28cdd5a5c4031101a945ab96dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 42/56] fix: DSNAS failed to fix its architecture when not
 distributed or resumed in fine-tuning

---
 mmrazor/models/algorithms/nas/dsnas.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index c82f321..a3c6809 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -4,9 +4,8 @@ import os
 from typing import Any, Dict, List, Optional, Union
 
 import torch
-import torch.distributed as dist
 import torch.nn.functional as F
-from mmengine.dist import get_dist_info
+from mmengine.dist import broadcast, get_dist_info
 from mmengine.logging import MessageHub
 from mmengine.model import BaseModel, MMDistributedDataParallel
 from mmengine.optim import OptimWrapper, OptimWrapperDict
@@ -130,10 +129,10 @@ class DSNAS(BaseAlgorithm):
             cur_epoch = self.message_hub.get_info('epoch')
             need_update_mutator = self.need_update_mutator(cur_epoch)
 
-            if cur_epoch == self.finetune_epochs and self.is_supernet:
+            if cur_epoch >= self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self._fix_archtecture()
                 self.is_supernet = False
 
@@ -286,11 +285,11 @@ class DSNASDDP(MMDistributedDataParallel):
             need_update_mutator = self.module.need_update_mutator(cur_epoch)
 
             # TODO process the input
-            if cur_epoch == self.module.finetune_epochs and \
+            if cur_epoch >= self.module.finetune_epochs and \
                self.module.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.module.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self.module._fix_archtecture()
                 self.module.is_supernet = False
 
-- 
2.43.0


From aa88cc57097d6c42db6ada1852c92d5a71654736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 43/56] fix: DSNAS took mutables which share an alias for
 separate search groups

---
 mmrazor/models/algorithms/nas/dsnas.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index a3c6809..6c4dca9 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -198,6 +198,13 @@ class DSNAS(BaseAlgorithm):
 
         return mutable_module_resources
 
+    def _get_arch_param(self, mutable: BaseMutable) -> nn.Parameter:
+        """Get the arch param of the search group of a mutable."""
+        for name, mutables in self.mutator.search_groups.items():
+            if any(mutable is m for m in mutables):
+                return self.mutator.arch_params[name]
+        raise KeyError(f'{mutable} is in no search group.')
+
     def need_update_mutator(self, cur_epoch: int) -> bool:
         """Whether to update mutator."""
         if cur_epoch >= self.pretrain_epochs and \
@@ -218,9 +225,7 @@ class DSNAS(BaseAlgorithm):
         flops_loss = 0.0
         for name, module in self.architecture.named_modules():
             if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
-                probs = F.softmax(self.mutator.arch_params[k], -1)
+                probs = F.softmax(self._get_arch_param(module), -1)
                 arch_loss += torch.log(
                     (module.arch_weights * probs).sum(-1)).sum()
 
@@ -247,12 +252,11 @@ class DSNAS(BaseAlgorithm):
 
     def handle_grads(self):
         """Handle grads of arch params & arch weights."""
-        for name, module in self.architecture.named_modules():
-            if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
-                self.mutator.arch_params[k].grad.data.mul_(
-                    module.arch_weights.grad.data.sum())
+        for name, modules in self.mutator.search_groups.items():
+            self.mutator.arch_params[name].grad.data.mul_(
+                sum(module.arch_weights.grad.data.sum()
+                    for module in modules))
+            for module in modules:
                 module.arch_weights.grad.zero_()
 
 
-- 
2.43.0


From ab1c0eac3b89d2ef93efbf991ee6500a7ba54e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 44/56] fix: an operation fixed by its threshold took part in
 the search as its first candidate

---
 mmrazor/models/algorithms/nas/dsnas.py            | 15 +++++++++------
 .../mutable_module/diff_mutable_module.py         |  8 +++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 6c4dca9..fea9702 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -221,18 +221,20 @@ class DSNAS(BaseAlgorithm):
         Returns:
             Dict: Loss of the mutator.
         """
-        arch_loss = 0.0
-        flops_loss = 0.0
+        # mutables fixed by their threshold do not contribute
+        arch_loss = sum(0. * p.sum()
+                        for p in self.mutator.arch_params.values())
+        flops_loss = arch_loss
         for name, module in self.architecture.named_modules():
-            if isinstance(module, BaseMutable):
+            if isinstance(module, BaseMutable) and not module.is_fixed:
                 probs = F.softmax(self._get_arch_param(module), -1)
-                arch_loss += torch.log(
+                arch_loss = arch_loss + torch.log(
                     (module.arch_weights * probs).sum(-1)).sum()
 
                 # get the index of op with max arch weights.
                 index = (module.arch_weights == 1).nonzero().item()
                 _module_key = name + '._candidates.' + module.choices[index]
-                flops_loss += probs[index] * \
+                flops_loss = flops_loss + probs[index] * \
                     self.mutable_module_resources[_module_key]['flops']
 
         mutator_loss = dict(arch_loss=arch_loss / self.world_size)
@@ -252,7 +254,8 @@ class DSNAS(BaseAlgorithm):
 
     def handle_grads(self):
         """Handle grads of arch params & arch weights."""
-        for name, modules in self.mutator.search_groups.items():
+        for name, mutables in self.mutator.search_groups.items():
+            modules = [m for m in mutables if not m.is_fixed]
             self.mutator.arch_params[name].grad.data.mul_(
                 sum(module.arch_weights.grad.data.sum()
                     for module in modules))
diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 7428171..00cd050 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -233,6 +233,8 @@ class DiffMutableOP(DiffMutableModule):
 
     def sample_choice(self, arch_param: Tensor) -> str:
         """Sample choice based on arch_parameters."""
+        if self.is_fixed:
+            return self._chosen[0]
         return self.choices[torch.argmax(arch_param).item()]
 
     def dump_chosen(self) -> DumpChosen:
@@ -321,9 +323,7 @@ class OneHotMutableOP(DiffMutableOP):
                 self.fix_chosen(self.choices[sorted_param[1][0].item()])
 
         if self.is_fixed:
-            index = self.choices.index(self._chosen[0])
-            self.arch_weights.data.zero_()
-            self.arch_weights.data[index].fill_(1.0)
+            return self.forward_fixed(x)
         self.arch_weights.requires_grad_()
 
         # forward based on self.arch_weights
@@ -532,6 +532,8 @@ class DiffChoiceRoute(DiffMutableModule):
 
     def sample_choice(self, arch_param: Tensor) -> List[str]:
         """sample choice based on `arch_param`."""
+        if self.is_fixed:
+            return list(self._chosen)
         sort_idx = torch.argsort(-arch_param).cpu().numpy().tolist()
         choice_idx = sort_idx[:self.num_chosen]
         choice = [self.choices[i] for i in choice_idx]
-- 
2.43.0


From c782d68db08fb30923f8ab7660bb3767dad779ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 45/56] fix: a network with relative positions could not be
 copied after a training step

---
 .../dynamic_ops/bricks/dynamic_relative_position.py   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..ed45d0e 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -112,10 +112,9 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
         else:
             self.current_head_dim = self.mutable_head_dims.activated_channels
 
-        self.sample_eb_table_h = self.embeddings_table_h[:, :self.
-                                                         current_head_dim]
-        self.sample_eb_table_v = self.embeddings_table_v[:, :self.
-                                                         current_head_dim]
+        # kept out of the module, which could not be copied otherwise
+        sample_eb_table_h = self.embeddings_table_h[:, :self.current_head_dim]
+        sample_eb_table_v = self.embeddings_table_v[:, :self.current_head_dim]
 
         # remove the first cls token distance computation
         length_q = length_q - 1
@@ -148,7 +147,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
         final_mat_h = torch.LongTensor(final_mat_h)
         # get the embeddings with the corresponding distance
 
-        embeddings = self.sample_eb_table_v[final_mat_v] + \
-            self.sample_eb_table_h[final_mat_h]
+        embeddings = sample_eb_table_v[final_mat_v] + \
+            sample_eb_table_h[final_mat_h]
 
         return embeddings
-- 
2.43.0


From cd115f038dae4f3e8264e459bec7ad09bc4ac48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 46/56] fix: the expected widths of DMCP could not be exported

---
 mmrazor/engine/hooks/dmcp_subnet_hook.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/hooks/dmcp_subnet_hook.py b/mmrazor/engine/hooks/dmcp_subnet_hook.py
index 5c3186f..f854a31 100644
--- a/mmrazor/engine/hooks/dmcp_subnet_hook.py
+++ b/mmrazor/engine/hooks/dmcp_subnet_hook.py
@@ -2,6 +2,7 @@
 import json
 import os
 
+import torch
 from mmengine.hooks import Hook
 from mmengine.registry import HOOKS
 
@@ -38,6 +39,7 @@ class DMCPSubnetHook(Hook):
         runner.logger.info('export finished and '
                            f'{save_path} saved in {runner.work_dir}.')
 
+    @torch.no_grad()
     def after_run(self, runner):
         """Save the sampled subnet under target FLOPs.
 
-- 
2.43.0


From eee6cae8ddeef584019167e06d2fba304931ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 47/56] fix: architecture and weight updates of Darts and DMCP
 took in each other's gradients

---
 mmrazor/models/algorithms/nas/darts.py    | 10 +++++++-
 mmrazor/models/algorithms/pruning/dmcp.py |  5 +++-
 mmrazor/models/utils/__init__.py          |  5 ++--
 mmrazor/models/utils/utils.py             | 29 ++++++++++++++++++++++-
 4 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..7208aff 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -10,7 +10,7 @@ from torch import nn
 from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.models.mutators import NasMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, pop_grads, put_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ..base import BaseAlgorithm
 
@@ -115,6 +115,7 @@ class Darts(BaseAlgorithm):
             log_vars = dict()
 
             # Update the parameter of mutator
+            grads = pop_grads(self.architecture)
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
@@ -135,8 +136,10 @@ class Darts(BaseAlgorithm):
                     mutator_loss)
                 optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+            put_grads(self.architecture, grads)
 
             # Update the parameter of supernet
+            grads = pop_grads(self.mutator)
             with optim_wrapper['architecture'].optim_context(self):
                 pseudo_data = self.data_preprocessor(supernet_data, True)
                 supernet_batch_inputs = pseudo_data['inputs']
@@ -147,6 +150,7 @@ class Darts(BaseAlgorithm):
                 supernet_loss)
             optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
+            put_grads(self.mutator, grads)
 
         else:
             # Enable automatic mixed precision training context.
@@ -354,6 +358,7 @@ class DartsDDP(MMDistributedDataParallel):
             log_vars = dict()
 
             # Update the parameter of mutator
+            grads = pop_grads(self.module.architecture)
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
@@ -376,8 +381,10 @@ class DartsDDP(MMDistributedDataParallel):
                         mutator_loss)
                     optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+            put_grads(self.module.architecture, grads)
 
             # Update the parameter of supernet
+            grads = pop_grads(self.module.mutator)
             with optim_wrapper['architecture'].optim_context(self):
                 pseudo_data = self.module.data_preprocessor(
                     supernet_data, True)
@@ -391,6 +398,7 @@ class DartsDDP(MMDistributedDataParallel):
 
                 optim_wrapper['architecture'].update_params(supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
+            put_grads(self.module.mutator, grads)
 
         else:
             # Enable automatic mixed precision training context.
diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..b73ff10 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -12,7 +12,7 @@ from torch import nn
 
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import ChannelMutator, DMCPChannelMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, pop_grads, put_grads
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ...task_modules.estimators import ResourceEstimator
 from ..base import BaseAlgorithm
@@ -224,6 +224,8 @@ class DMCP(BaseAlgorithm):
         """
         arch_params_loss = dict()
         self.eval()
+        # the weights are not to be updated from the arch_loss
+        grads = pop_grads(self.architecture)
         # update arch_loss
         self.set_subnet(mode='max', arch_train=True)
         with optim_wrapper['mutator'].optim_context(self):
@@ -240,6 +242,7 @@ class DMCP(BaseAlgorithm):
         parsed_flops_loss, _ = self.parse_losses({'loss': flops_loss})
         optim_wrapper['mutator'].update_params(parsed_flops_loss)
         arch_params_loss.update(add_prefix({'loss': flops_loss}, 'flops'))
+        put_grads(self.architecture, grads)
         self.train()
         return arch_params_loss
 
diff --git a/mmrazor/models/utils/__init__.py b/mmrazor/models/utils/__init__.py
index e3be949..894fd86 100644
--- a/mmrazor/models/utils/__init__.py
+++ b/mmrazor/models/utils/__init__.py
@@ -4,10 +4,11 @@ from .misc import add_prefix
 from .optim_wrapper import reinitialize_optim_wrapper_count_status
 from .parse_values import parse_values
 from .quantization_util import pop_rewriter_function_record, str2class
-from .utils import get_module_device, set_requires_grad
+from .utils import (get_module_device, pop_grads, put_grads,
+                    set_requires_grad)
 
 __all__ = [
     'make_divisible', 'add_prefix', 'reinitialize_optim_wrapper_count_status',
     'str2class', 'get_module_device', 'set_requires_grad', 'parse_values',
-    'pop_rewriter_function_record'
+    'pop_rewriter_function_record', 'pop_grads', 'put_grads'
 ]
diff --git a/mmrazor/models/utils/utils.py b/mmrazor/models/utils/utils.py
index b2fc496..22b4743 100644
--- a/mmrazor/models/utils/utils.py
+++ b/mmrazor/models/utils/utils.py
@@ -1,5 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import List, Union
+from typing import List, Optional, Union
 
 import torch
 import torch.nn as nn
@@ -37,3 +37,30 @@ def set_requires_grad(nets: Union[nn.Module, List[nn.Module]],
         if net is not None:
             for param in net.parameters():
                 param.requires_grad = requires_grad
+
+
+def pop_grads(module: nn.Module) -> List[Optional[torch.Tensor]]:
+    """Take the gradients away from the parameters of a module.
+
+    Together with :func:`put_grads` it keeps a backward pass that is not meant
+    for these parameters from contributing to their next update.
+
+    Args:
+        module (nn.Module): A module contains the parameters.
+    """
+    grads = []
+    for param in module.parameters():
+        grads.append(param.grad)
+        param.grad = None
+    return grads
+
+
+def put_grads(module: nn.Module, grads: List[Optional[torch.Tensor]]) -> None:
+    """Give the parameters of a module the gradients ``pop_grads`` has taken.
+
+    Args:
+        module (nn.Module): A module contains the parameters.
+        grads (list[torch.Tensor]): The return value of ``pop_grads``.
+    """
+    for param, grad in zip(module.parameters(), grads):
+        param.grad = grad
-- 
2.43.0


From 428b416bc2609c93b244cfdda17a4ea1dbc0670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 48/56] fix: the unrolled step of Darts took no virtual step
 and mixed the gradients of its passes

---
 mmrazor/models/algorithms/nas/darts.py | 34 ++++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index 7208aff..1fce62b 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -189,8 +189,8 @@ class Darts(BaseAlgorithm):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [param.grad for param in self.architecture.parameters()]
-        d_arch = [param.grad for param in self.mutator.parameters()]
+        d_model = pop_grads(self.architecture)
+        d_arch = pop_grads(self.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -219,12 +219,14 @@ class Darts(BaseAlgorithm):
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [param.grad for param in self.architecture.parameters()]
+        gradients = pop_grads(self.architecture)
+        pop_grads(self.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w.sub_(lr * (momentum * m + g + weight_decay * w))
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -266,7 +268,8 @@ class Darts(BaseAlgorithm):
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.mutator.parameters()]
+            dalpha = pop_grads(self.mutator)
+            pop_grads(self.architecture)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
@@ -440,10 +443,8 @@ class DartsDDP(MMDistributedDataParallel):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
-        d_arch = [param.grad for param in self.module.mutator.parameters()]
+        d_model = pop_grads(self.module.architecture)
+        d_arch = pop_grads(self.module.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -472,14 +473,14 @@ class DartsDDP(MMDistributedDataParallel):
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
+        gradients = pop_grads(self.module.architecture)
+        pop_grads(self.module.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.module.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w.sub_(lr * (momentum * m + g + weight_decay * w))
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -521,7 +522,8 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.module.mutator.parameters()]
+            dalpha = pop_grads(self.module.mutator)
+            pop_grads(self.module.architecture)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
-- 
2.43.0


From 5da73f178ded8a1e9191f7b1b711d5fbe063201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 49/56] fix: the log_l1 loss of DMCP compared operations with a
 target in millions

---
 mmrazor/models/algorithms/pruning/dmcp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index b73ff10..3ea9b72 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -260,7 +260,8 @@ class DMCP(BaseAlgorithm):
                 the target FLOPs. And the type of this loss should be the same
                 as the expected FLOPs.
         """
-        flops_error = expected_flops - self.target_flops * 1e6
+        target_flops = self.target_flops * 1e6
+        flops_error = expected_flops - target_flops
 
         if self.flops_loss_type == 'l2':
             floss = torch.pow(flops_error, 2)
@@ -272,10 +273,10 @@ class DMCP(BaseAlgorithm):
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            lower_flops = target_flops * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < target_flops):
                 floss = expected_flops * 0
             else:
                 floss = (
-- 
2.43.0


From d3c5ddabca99cc952826453ae24afffd9e65b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 50/56] fix: quantizers named an argument of torch's fusion
 which has another name since torch 2.0

---
 mmrazor/models/quantizers/academic_quantizer.py | 2 +-
 mmrazor/models/quantizers/native_quantizer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/academic_quantizer.py b/mmrazor/models/quantizers/academic_quantizer.py
index 0dbe6dc..12ffca7 100644
--- a/mmrazor/models/quantizers/academic_quantizer.py
+++ b/mmrazor/models/quantizers/academic_quantizer.py
@@ -109,7 +109,7 @@ class AcademicQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,
             is_qat=True,
             fuse_custom_config=fuse_custom_config)
         prepared = prepare(
diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 7b6f2f9..67942da 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -236,7 +236,7 @@ class TorchNativeQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,
             is_qat=True,
             backend_config=self.backend_config)
         prepared = prepare(
-- 
2.43.0


From c933ce804a9b0be3a955ae25a267bb861ed1e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 51/56] fix: resetting the quantizers spoilt fixed parameters
 and kept the histogram of the dummy input

---
 .../algorithms/quantization/mm_architecture.py      | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index ce6d926..6f0429c 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -16,13 +16,17 @@ from mmrazor.structures.quantization import QConfigHandler
 from ..base import BaseAlgorithm, BaseModel
 
 try:
-    from torch.ao.quantization import (FakeQuantizeBase, MinMaxObserver,
+    from torch.ao.quantization import (FakeQuantizeBase,
+                                       FixedQParamsFakeQuantize,
+                                       HistogramObserver, MinMaxObserver,
                                        PerChannelMinMaxObserver,
                                        disable_observer)
 except ImportError:
     from mmrazor.utils import get_placeholder
 
     FakeQuantizeBase = get_placeholder('torch>=1.13')
+    FixedQParamsFakeQuantize = get_placeholder('torch>=1.13')
+    HistogramObserver = get_placeholder('torch>=1.13')
     MinMaxObserver = get_placeholder('torch>=1.13')
     PerChannelMinMaxObserver = get_placeholder('torch>=1.13')
     disable_observer = get_placeholder('torch>=1.13')
@@ -100,6 +104,13 @@ class MMArchitectureQuant(BaseAlgorithm):
         for module in model.modules():
             if isinstance(module, (MinMaxObserver, PerChannelMinMaxObserver)):
                 module.reset_min_max_vals()
+            elif isinstance(module, HistogramObserver):
+                module.histogram.zero_()
+                module.min_val.fill_(float('inf'))
+                module.max_val.fill_(float('-inf'))
+            elif isinstance(module, FixedQParamsFakeQuantize):
+                # its parameters are given, not calculated from statistics
+                continue
             elif isinstance(module, FakeQuantizeBase):
                 module.scale.data = torch.ones_like(module.scale)
                 module.zero_point.data = torch.zeros_like(module.zero_point)
-- 
2.43.0


From c55ce0d50bc37142d2aa93627fa2f296f8968918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 52/56] fix: a resumed LSQ training initialised the learned
 scales anew

---
 mmrazor/engine/runner/quantization_loops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 58d91cf..c77089a 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -184,6 +184,8 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
         """Iterate one epoch."""
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
+        # the scales of a resumed training are initialized already
+        self.is_first_batch = self._iter == 0
 
         for idx, data_batch in enumerate(self.dataloader):
             if self.is_first_batch:
-- 
2.43.0


From c2462eeb5e8a3f6f1308c51d2de0cf519d4357f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 53/56] fix: syncing quantization parameters failed on an
 absent submodule

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index 6f0429c..a6ffc55 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -134,7 +134,7 @@ class MMArchitectureQuant(BaseAlgorithm):
 
         def traverse(module, prefix):
             for name, child in module._modules.items():
-                if module is None:
+                if child is None:
                     continue
                 child_name = f'{prefix}{name}'
                 if isinstance(child, FakeQuantizeBase):
-- 
2.43.0


From 31a86d9b88fef9c83562a5ab8da0f1ba3a47028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 54/56] fix: quantized copies of a module used twice did not
 share its weights

---
 mmrazor/models/task_modules/tracer/fx/custom_tracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index 68d5f08..487f4d9 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -1,6 +1,7 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import functools
 from copy import deepcopy
+from itertools import chain
 from types import FunctionType
 from typing import Any, Callable, Dict, List, Optional, Tuple, Type, Union
 
@@ -173,7 +174,10 @@ def duplicate_reused_nodes(graph: Graph, modules: Dict[str, Any] = {}):
             for idx, node in enumerate(target_dict[key]):
                 if idx == 0:
                     continue
-                module = deepcopy(modules[node.target])
+                module = modules[node.target]
+                # the copies keep sharing the parameters and buffers
+                tensors = chain(module.parameters(), module.buffers())
+                module = deepcopy(module, {id(t): t for t in tensors})
                 node.target += _dup_prefix + str(idx)
                 dup_modules[node.target] = module
     graph.lint()
-- 
2.43.0


From 000b0744daf54ae8bb3ef903f61683ca1100efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 55/56] fix: a quantized network with a function of fixed range
 could not be deployed

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index a6ffc55..1dcc4ec 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -384,6 +384,9 @@ class MMArchitectureQuant(BaseAlgorithm):
             if 'activation_post_process_' in node.name:
                 module_name = node.target
                 module = getattr(observed_model, module_name)
+                if isinstance(module, FixedQParamsFakeQuantize):
+                    # it does not follow the qscheme of the activations
+                    continue
                 fakequant_new = QConfigHandler.replace_fakequant(
                     module,
                     self.quantizer.qconfig.a_qscheme,
-- 
2.43.0


From e9754aee5e78d5ba21a7c9f485ff75d55df98a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 56/56] fix: the weights of a deployed network were quantized a
 second time by other parameters

---
 mmrazor/models/quantizers/native_quantizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 67942da..e8e3b2e 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -317,6 +317,14 @@ class TorchNativeQuantizer(BaseQuantizer):
                         enable_observer(new_child)
                         new_child.weight_fake_quant(new_child.weight)
                         disable_observer(new_child)
+                        if update_weight_with_fakequant:
+                            # the weights are quantized already, by the
+                            # parameters they keep
+                            fixed_fakequant = new_child.weight_fake_quant
+                            fixed_fakequant.scale.data.copy_(
+                                weight_fakequant.scale.data)
+                            fixed_fakequant.zero_point.data.copy_(
+                                weight_fakequant.zero_point.data.round())
                     else:
                         new_child = float_child.to(device)
                     setattr(module, name, new_child)
-- 
2.43.0

