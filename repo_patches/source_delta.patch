From 6253028bd414d0555de5600200c2e8a0b494dcc7 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 01/43] fix: restore temporarily set attributes when the
 wrapped code raises

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From 49597281e65a7a4fabc836472aa83fe704843510 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 02/43] fix: look up the call mode by value so that copied
 modules and integer modes work

---
 continual/module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..4db0882 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -50,7 +50,7 @@ def _callmode(cm) -> torch.Tensor:
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
     elif isinstance(cm, int):
-        cm = torch.tensor(int)
+        cm = torch.tensor(cm)
     return cm
 
 
@@ -346,11 +346,11 @@ class CoModule(ABC):
         """
         _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
         forward_call = {
-            (True, _callmode("forward")): self._slow_forward,
-            (False, _callmode("forward")): self.forward,
-            (False, _callmode("forward_steps")): self.forward_steps,
-            (False, _callmode("forward_step")): self.forward_step,
-        }[(bool(torch._C._get_tracing_state()), _call_mode)]
+            (True, int(CALL_MODES["forward"])): self._slow_forward,
+            (False, int(CALL_MODES["forward"])): self.forward,
+            (False, int(CALL_MODES["forward_steps"])): self.forward_steps,
+            (False, int(CALL_MODES["forward_step"])): self.forward_step,
+        }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
-- 
2.43.0


From c9012a35c0ec84a6b37acf2f5631e02c0996f9b2 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 03/43] fix: make the call_mode context nestable and local to
 its thread

---
 continual/module.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 4db0882..dbbcbfa 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -1,6 +1,8 @@
 import functools
 import itertools
+import threading
 from abc import ABC
+from contextlib import contextmanager
 from enum import Enum
 from typing import List, Optional, Tuple, Union
 
@@ -54,7 +56,7 @@ def _callmode(cm) -> torch.Tensor:
     return cm
 
 
-class _CallModeContext(object):
+class _CallModeContext(threading.local):
     """Context-manager which temporarily specifies a call_mode
 
     When the call_mode context is used, the ``__call__`` function of continual modules with be set accordingly
@@ -76,17 +78,14 @@ class _CallModeContext(object):
         self.cur = _callmode("forward")
         self.prev = None
 
+    @contextmanager
     def __call__(self, value: Union[str, int, torch.Tensor]):
-        self.prev = self.cur
-        self.cur = _callmode(value)
-        return self
-
-    def __enter__(self):
-        pass
-
-    def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        outer = (self.cur, self.prev)
+        self.cur, self.prev = _callmode(value), self.cur
+        try:
+            yield self
+        finally:
+            self.cur, self.prev = outer
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From 0bcc2ed1c722bb1d54f6a2d522436b08a12aa00f Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 04/43] fix: explicit forward calls on containers are
 unaffected by an active call_mode context

---
 continual/container.py | 38 +++++++++++++++++++++++++-------------
 continual/module.py    | 10 ++++++++++
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..86875e4 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict, abc
+from contextlib import contextmanager
 from enum import Enum
 from functools import reduce, wraps
 from typing import Callable, List, Optional, Sequence, Tuple, TypeVar, Union, overload
@@ -8,7 +9,7 @@ from torch import Tensor, nn
 
 from .delay import Delay
 from .logging import getLogger
-from .module import CoModule, PaddingMode, _callmode
+from .module import CoModule, PaddingMode, _callmode, call_mode
 from .skip import Skip
 from .utils import (
     function_repr,
@@ -55,6 +56,14 @@ ReductionFunc = Callable[[Sequence[Tensor]], Tensor]
 ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 
 
+@contextmanager
+def child_call_mode(module: nn.Module, mode: str):
+    """Invoke a child module in the given mode, irrespective of an active `co.call_mode` context"""
+    with temporary_parameter(module, "call_mode", _callmode(mode)):
+        with call_mode.suspended():
+            yield module
+
+
 def apply_forward(module: CoModule, input: Tensor):
     if isinstance(module, nn.RNNBase):
         return module.forward(input)[0]
@@ -326,7 +335,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with child_call_mode(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
 
@@ -335,14 +344,14 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with child_call_mode(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
 
     def forward(self, inputs: List[T]) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with child_call_mode(m, "forward"):
                 outs.append(apply_forward(m, inputs[i]))
         return outs
 
@@ -632,14 +641,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward(self, input):
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with child_call_mode(m, "forward"):
                 input = apply_forward(m, input)
         return input
 
     def forward_step(self, input, update_state=True):
         for module in self:
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(module, "call_mode", _callmode("forward_step")):
+            with child_call_mode(module, "forward_step"):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
@@ -670,7 +679,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with child_call_mode(m, "forward_steps"):
                 # == m.forward_steps
                 input = m(input, pad_end=pad_end, update_state=update_state)
 
@@ -871,7 +880,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_step"):
+            with child_call_mode(m, "forward_step"):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -881,7 +890,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_steps"):
+            with child_call_mode(m, "forward_steps"):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -890,7 +899,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward"):
+            with child_call_mode(m, "forward"):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
@@ -1040,10 +1049,13 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
-            return apply_forward(self._modules["0"], input)
+            module = self._modules["0"]
         elif "1" in self._modules:
-            return apply_forward(self._modules["1"], input)
-        return input
+            module = self._modules["1"]
+        else:
+            return input
+        with child_call_mode(module, "forward"):
+            return apply_forward(module, input)
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
diff --git a/continual/module.py b/continual/module.py
index dbbcbfa..ec2c451 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -87,6 +87,16 @@ class _CallModeContext(threading.local):
         finally:
             self.cur, self.prev = outer
 
+    @contextmanager
+    def suspended(self):
+        """Let calls follow the ``call_mode`` of each module, e.g. while a container invokes its children"""
+        outer = (self.cur, self.prev)
+        self.prev = None
+        try:
+            yield self
+        finally:
+            self.cur, self.prev = outer
+
 
 call_mode = _CallModeContext()
 
-- 
2.43.0


From 26811b2751565b500131a55ff8c045bcb0077f72 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 05/43] fix: Conditional forwards pad_end and update_state,
 threads the state of both branches, and cleans them

---
 continual/container.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 86875e4..7509411 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1059,28 +1059,44 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_step(input, update_state)
+            return self._modules["0"].forward_step(
+                input, update_state=update_state
+            )
         elif "1" in self._modules:
-            return self._modules["1"].forward_step(input, update_state)
+            return self._modules["1"].forward_step(
+                input, update_state=update_state
+            )
         return input
 
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
-        prev_state = prev_state or [None, None]
+        next_state = list(prev_state or [None for _ in self._modules])
         if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
+            input, next_state[0] = self._modules["0"]._forward_step(
+                input, next_state[0]
+            )
         elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+            input, next_state[1] = self._modules["1"]._forward_step(
+                input, next_state[1]
+            )
+        return input, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
+            return self._modules["0"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
+            return self._modules["1"].forward_steps(
+                input, pad_end=pad_end, update_state=update_state
+            )
         return input
 
+    def clean_state(self):
+        for m in self._modules.values():
+            m.clean_state()
+
     @property
     def _state_shape(self):
         return [m._state_shape for m in self._modules.values()]
-- 
2.43.0


From 27fa14e0a37166946a0fa5c08f4b14678079a79e Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 06/43] fix: convert a module that occurs multiple times in a
 network only once

---
 continual/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..f4c25fe 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -106,7 +106,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             else getattr(module, "call_mode", _callmode("forward"))
         )
         if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
+            return orig_forward(*args, **kwargs)
         return CoModule._call_impl(module, *args, **kwargs)
 
     module.forward = forward_with_callmode
@@ -224,7 +224,7 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
+    if CoModule.is_valid(module):  # Incl. modules which were enhanced earlier
         return module
 
     if type(module) in NAIVE_MAPPING:
-- 
2.43.0


From 9349d087385f3d5cf1d03d75423b03169f316398 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 07/43] fix: pad the end of the passed steps in forward_steps
 when update_state=False

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index ec2c451..0661d60 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -284,9 +284,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From 8d677ba407b6d491b95f5bd2ace6da13e3a572e7 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 08/43] fix: attention modules do not touch their state when
 update_state=False, also before their first step

---
 continual/multihead_attention/mha_base.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..0f08a90 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -418,7 +418,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-            stride_index += 1
+            stride_index = stride_index + 1
 
         new_state = (*new_state, stride_index)
 
@@ -461,7 +461,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         tmp_state = self.get_state()
 
         if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
+            tmp_state = _clone_state(tmp_state)
 
         o, tmp_state = MultiheadAttentionBase._forward_step(
             self, query, key, value, tmp_state
@@ -472,8 +472,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
-            self.set_state(backup_state)
 
         return o
 
@@ -515,7 +513,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         tmp_state = self.get_state()
 
         if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
+            tmp_state = _clone_state(tmp_state)
 
         T = query.shape[0]
         assert T == key.shape[0]
@@ -533,8 +531,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif backup_state is not None:
-            self.set_state(backup_state)
 
         if len(outs) == 0:
             return o
-- 
2.43.0


From 10aecf6e7d1d1bf44819af1544c7d6e3c30c541f Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 09/43] fix: SingleOutputMultiheadAttention.forward_steps
 output shape when batch_first=False

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From 4ac69d10ad3aebb42db8ff9ad73f0898ad336542 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 10/43] fix: dilated pooling keeps all frames of its window in
 order; correct its receptive field

---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..1a475a4 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From 7aac5dea497c7ae5e209402f62d1660b713f62b7 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 11/43] fix: keep the stride phase of temporally strided
 convolutions with kernel size 1

---
 continual/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/conv.py b/continual/conv.py
index 697d445..05e5713 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,7 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        if self.state_buffer.dim() > 1:  # NB: has zero length for kernel_size 1
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From 358ffc776384aaa0961e55b58762ce7a2aa48ef6 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 12/43] fix: RetroactiveUnity wraps around after delay + 1
 steps (multi-layer TransformerEncoder)

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..79a7722 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,7 +91,7 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
-- 
2.43.0


From 11415479031b296e5ada546641017f4bd8314da0 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 13/43] fix: delay the residual of
 SingleOutputTransformerEncoderLayer to match its query_index

---
 continual/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 79a7722..05e24e1 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -8,7 +8,7 @@ from torch import Tensor, nn
 
 from continual.delay import State as DelayState
 
-from .closure import Identity, Lambda
+from .closure import Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
@@ -270,7 +270,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else Delay(mha.delay),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From 61772e812aeeae0c73941d145983248f4a5ab2ea Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 14/43] fix: activation="gelu" in transformer encoder layers
 (was relu), and conversion of built-in functions

---
 continual/convert.py     | 3 ++-
 continual/transformer.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index f4c25fe..cbb4ab7 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,7 +1,7 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
 from functools import wraps
-from types import FunctionType
+from types import BuiltinFunctionType, FunctionType
 from typing import Callable, Type, Union
 
 from torch import Tensor, nn
@@ -273,6 +273,7 @@ register(nn.Sequential, Sequential)
 
 # Closure
 register(FunctionType, Lambda)
+register(BuiltinFunctionType, Lambda)
 
 # RNN
 register(nn.RNN, RNN)
diff --git a/continual/transformer.py b/continual/transformer.py
index 05e24e1..ed995d1 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -472,7 +472,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From 9b473841d0565b205a9e7448498953419091f342 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 15/43] fix: Parallel passes on streams which have not produced
 an output yet

---
 continual/container.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index 7509411..31aeb99 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -327,7 +327,10 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         prev_state = prev_state or [None for _ in range(len(self))]
         outs, next_state = [], []
         for i, module in enumerate(self):
-            out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
+            if inputs[i] is None:  # Not ready yet, e.g. while a prior module warms up
+                out, n_state = None, prev_state[i]
+            else:
+                out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
             outs.append(out)
             next_state.append(n_state)
         return outs, next_state
@@ -335,6 +338,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # Not ready yet, e.g. while a prior module warms up
+                outs.append(None)
+                continue
             with child_call_mode(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
@@ -344,6 +350,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:
+                outs.append(None)
+                continue
             with child_call_mode(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
-- 
2.43.0


From 7791a29ab97dba248395bfb4952514cb41cbb31f Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 16/43] fix: align the delays of parallel modules with temporal
 stride

---
 continual/container.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 31aeb99..97abba7 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -56,6 +56,15 @@ ReductionFunc = Callable[[Sequence[Tensor]], Tensor]
 ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 
 
+def add_delay(module: nn.Module, delay: int) -> nn.Module:
+    if delay == 0:
+        return module
+    if num_from(getattr(module, "stride", 1)) > 1:
+        # The delay is given in input steps
+        return Sequential(OrderedDict([("1", Delay(delay)), ("0", module)]))
+    return Sequential(module, Delay(delay))
+
+
 @contextmanager
 def child_call_mode(module: nn.Module, mode: str):
     """Invoke a child module in the given mode, irrespective of an active `co.call_mode` context"""
@@ -281,14 +290,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
             # If there is a delay mismatch, automatically add delay to match the longest
             max_delay = max([m.delay for _, m in modules])
             modules = [
-                (
-                    key,
-                    (
-                        Sequential(module, Delay(max_delay - module.delay))
-                        if module.delay < max_delay
-                        else module
-                    ),
-                )
+                (key, add_delay(module, max_delay - module.delay))
                 for key, module in modules
             ]
 
@@ -828,14 +830,7 @@ class BroadcastReduce(Sequential):
             # If there is a delay mismatch, automatically add delay to match the longest
             max_delay = max([m.delay for _, m in modules])
             modules = [
-                (
-                    key,
-                    (
-                        Sequential(module, Delay(max_delay - module.delay))
-                        if module.delay < max_delay
-                        else module
-                    ),
-                )
+                (key, add_delay(module, max_delay - module.delay))
                 for key, module in modules
             ]
 
-- 
2.43.0


From 32f004f19f7ff8893f10ea478f77170fcf6141bd Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 17/43] fix: RecyclingPositionalEncoding exposes its state and
 _forward_step does not reset it

---
 continual/positional_encoding.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..f2c2673 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -189,8 +189,13 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         return output, (state_index,)
 
     def init_state(self) -> State:
-        self.state_index = torch.tensor(0)
-        return (self.state_index,)
+        return (torch.tensor(0),)
 
     def clean_state(self):
         self.state_index = torch.tensor(0)
+
+    def get_state(self) -> State:
+        return (self.state_index,)
+
+    def set_state(self, state: State):
+        self.state_index = state[0]
-- 
2.43.0


From efd6cc2dee8be3e942f7c15790c751bab3e36190 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 18/43] fix: Delay(auto_shrink="centered") shrinks as
 auto_shrink=True during forward_step(s)

---
 continual/delay.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..1e06640 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -69,9 +69,7 @@ class Delay(CoModule, torch.nn.Module):
         padding = self._make_padding(first_output)
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
-            -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
-            else -self.delay
+            -2 * self.delay if self.auto_shrink in {True, "centered"} else -self.delay
         )
         return state_buffer, state_index
 
-- 
2.43.0


From d9cbe725b886db8e35245dc5b51a4065abacc56d Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 19/43] fix: make the flat_state_dict context nestable and
 local to its thread

---
 continual/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index fccdcae..9099286 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -1,3 +1,4 @@
+import threading
 from collections import OrderedDict, abc
 from contextlib import contextmanager
 from functools import partial, reduce
@@ -59,17 +60,21 @@ def temporary_parameter(obj, attr: str, val):
             rsetattr(obj, attr, prev_val)
 
 
-class _FlatStateDict(object):
+class _FlatStateDict(threading.local):
     """Context-manager state holder."""
 
     def __init__(self):
-        self.flatten = False
+        self.depth = 0
+
+    @property
+    def flatten(self) -> bool:
+        return self.depth > 0
 
     def __enter__(self):
-        self.flatten = True
+        self.depth += 1
 
     def __exit__(self, *args, **kwargs):
-        self.flatten = False
+        self.depth -= 1
 
 
 flat_state_dict = _FlatStateDict()
-- 
2.43.0


From 3d552fd4e528555ed437afeb87661eba9f898004 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 20/43] fix: containers expose the states of their modules in
 get_state and set_state

---
 continual/container.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 97abba7..2f8b080 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -150,6 +150,21 @@ class FlattenableStateDict:
         return load_state_dict(self, state_dict, strict, flatten)
 
 
+class ContainerState:
+    """Mixes in access to the states of all child modules"""
+
+    def get_state(self) -> Optional[List[Optional[State]]]:
+        state = [m.get_state() for m in self._modules.values()]
+        return None if all(s is None for s in state) else state
+
+    def set_state(self, state: List[Optional[State]]):
+        for m, s in zip(self._modules.values(), state):
+            if s is None:
+                m.clean_state()
+            else:
+                m.set_state(s)
+
+
 def co_add_module(self, name: str, module: Optional["nn.Module"]) -> None:
     if not CoModule.is_valid(module):
         # Attempt automatic conversion
@@ -220,7 +235,7 @@ class Broadcast(CoModule, nn.Module):
         return self.forward(input)
 
 
-class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
+class Parallel(FlattenableStateDict, ContainerState, CoModule, nn.Sequential):
     """Container for  executing modules in parallel.
     Modules will be added to it in the order they are passed in the
     constructor.
@@ -575,7 +590,7 @@ class Reduce(CoModule, nn.Module):
         return self.reduce(inputs)
 
 
-class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
+class Sequential(FlattenableStateDict, ContainerState, CoModule, nn.Sequential):
     """A sequential container.
     This module is an augmentation of `torch.nn.Sequential`
     which adds continual inference methods
@@ -992,7 +1007,7 @@ def Residual(
     )
 
 
-class Conditional(FlattenableStateDict, CoModule, nn.Module):
+class Conditional(FlattenableStateDict, ContainerState, CoModule, nn.Module):
     """Module wrapper for conditional invocations at runtime.
 
     For instance, it can be used to apply a softmax if the module isn't training::
-- 
2.43.0


From 16742f20f33f17ce25b73977ee01c2d9ac5f6a1d Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 21/43] fix: divisor_override of AvgPool2d and AvgPool3d during
 forward_step(s)

---
 continual/pooling.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/continual/pooling.py b/continual/pooling.py
index 1a475a4..a0c880c 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -35,6 +35,25 @@ def unity(x: Tensor) -> Tensor:
     return x
 
 
+def avg_pool_frame_override(
+    x: Tensor, kernel_size, stride, padding, ceil_mode, divisor_override
+) -> Tensor:
+    """Spatial average pooling of a frame, which is scaled so that averaging the
+    pooled frames over time corresponds to a division by `divisor_override`"""
+    one_dim = len(kernel_size) == 2
+    if one_dim:
+        x = x.unsqueeze(2)
+        kernel_size, stride, padding = [
+            (v[0], v0, v[1])
+            for v, v0 in ((kernel_size, 1), (stride, 1), (padding, 0))
+        ]
+    x = F.avg_pool2d(
+        x, kernel_size[1:], stride[1:], padding[1:], ceil_mode, divisor_override=1
+    )
+    x = x * (kernel_size[0] / divisor_override)
+    return x.squeeze(2) if one_dim else x
+
+
 class PoolType(Enum):
     AVG = "avg"
     MAX = "max"
@@ -413,6 +432,15 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
+            )
+            if self.divisor_override is None
+            else partial(
+                avg_pool_frame_override,
+                kernel_size=self.kernel_size,
+                stride=self.stride,
+                padding=self.padding,
+                ceil_mode=self.ceil_mode,
+                divisor_override=self.divisor_override,
             ),
             num_input_dims=2,
             kernel_size=self.kernel_size,
@@ -543,6 +571,14 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
+            )
+            if self.divisor_override is None
+            else partial(
+                avg_pool_frame_override,
+                kernel_size=self.kernel_size,
+                stride=self.stride,
+                padding=self.padding,
+                ceil_mode=self.ceil_mode,
                 divisor_override=self.divisor_override,
             ),
             num_input_dims=3,
-- 
2.43.0


From 067bdcc1d4cff37eab17d23535e363d238e86827 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 22/43] fix: Delay(auto_shrink=...).forward_steps(pad_end=True)
 does not output the shrunk steps

---
 continual/delay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index 1e06640..a257846 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -118,7 +118,9 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # When shrinking, the last steps don't have a corresponding output
+        padding = 0 if self.auto_shrink else self.delay
+        with temporary_parameter(self, "padding", (padding,)):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From d3bf71aab82f9b82543944312d5599312ffbaf77 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 23/43] fix: Conditional reports the padding and stride of its
 modules

---
 continual/container.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index 2f8b080..47e023b 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1132,5 +1132,13 @@ class Conditional(FlattenableStateDict, ContainerState, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    @property
+    def stride(self) -> Tuple[int]:
+        return getattr(self._modules["0"], "stride", (1,))
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (max(getattr(m, "padding", (0,))[0] for m in self._modules.values()),)
+
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From 94893143af38753b9f8fc4462822711a6de42d87 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 24/43] fix: forward_steps(pad_end=True) of transformer encoder
 layers does not flush the residual past the attention

---
 continual/transformer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index ed995d1..f7108cc 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -39,7 +39,14 @@ class MhaType(Enum):
     REGULAR = "regular"
 
 
-class SelectOrDelay(Delay):
+class AttentionDelay(Delay):
+    """Delay of the residual around an attention module, which has no end-padding"""
+
+    def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
+        return Delay.forward_steps(self, input, False, update_state)
+
+
+class SelectOrDelay(AttentionDelay):
     """Select a temporal index during forward, or delay correspondingly during forward_step(s)"""
 
     def forward(self, x: Tensor) -> Optional[Tensor]:
@@ -47,7 +54,7 @@ class SelectOrDelay(Delay):
         return x[:, :, -1 - self._delay].unsqueeze(2)
 
 
-class RetroactiveUnity(Delay):
+class RetroactiveUnity(AttentionDelay):
     """Unity mapping during forward. During forward_step(s), a single-to-many mapping is assumed,
     and all cached values are output."""
 
@@ -270,7 +277,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Delay(mha.delay),
+                        else AttentionDelay(mha.delay),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From 025260873337c928f1554a07b2deb10438ee0108 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 25/43] fix: max pooling pads time with negative infinity by
 default in all dimensions, as documented

---
 continual/pooling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index a0c880c..4f01abc 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -695,7 +695,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -785,7 +785,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -816,7 +816,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -909,7 +909,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -940,7 +940,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
-- 
2.43.0


From 71c00264a0d14a9676b137c88ac65c6b3a57b8bf Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 26/43] fix: attention forward_steps (and thereby warm_up)
 accepts zero steps

---
 continual/multihead_attention/mha_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 0f08a90..787d8be 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -518,7 +518,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         T = query.shape[0]
         assert T == key.shape[0]
         assert T == value.shape[0]
-        outs = []
+        o, outs = None, []
         for t in range(T):
             o, tmp_state = MultiheadAttentionBase._forward_step(
                 self, query[t], key[t], value[t], tmp_state
@@ -529,7 +529,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
                     o = o.transpose(0, 1)
                 outs.append(o)
 
-        if update_state:
+        if update_state and tmp_state is not None:
             self.set_state(tmp_state)
 
         if len(outs) == 0:
-- 
2.43.0


From da70164c9f913677ef8bbd6b28acb9c3fd1ebb4a Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 27/43] fix: warm_up of modules without delay (e.g. user
 functions) does not pass an empty clip

---
 continual/module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/module.py b/continual/module.py
index 0661d60..31a9a06 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -330,6 +330,8 @@ class CoModule(ABC):
         Args:
             step_shape (Sequence[int]): input shape with which to warm the model up, including batch size.
         """
+        if self.delay == 0:
+            return  # Nothing to warm up
         step_shape = (*step_shape[:2], self.delay, *step_shape[2:])
         dummy = self._make_padding(torch.zeros(step_shape, dtype=torch.float))
         self.forward_steps(dummy)
-- 
2.43.0


From 232cfa5c2b3325a9d958c34f46e6436301f09a21 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 28/43] fix: receptive field of Conditional includes the delays
 it adds to its modules

---
 continual/container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 47e023b..1969dc1 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1047,9 +1047,6 @@ class Conditional(FlattenableStateDict, ContainerState, CoModule, nn.Module):
 
         # Ensure modules have the same delay
         self._delay = max(on_true.delay, getattr(on_false, "delay", 0))
-        self._receptive_field = max(
-            on_true.receptive_field, getattr(on_false, "receptive_field", 1)
-        )
 
         self.add_module(
             "0",
@@ -1066,6 +1063,8 @@ class Conditional(FlattenableStateDict, ContainerState, CoModule, nn.Module):
                 else Sequential(Delay(self._delay - on_false.delay), on_false),
             )
 
+        self._receptive_field = max(m.receptive_field for m in self._modules.values())
+
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
             module = self._modules["0"]
-- 
2.43.0


From 75cdb373e5314fbdf3feba6c77878f1861fc7b29 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:47 +0000
Subject: [PATCH 29/43] fix: convolution steps refuse frames of wrong rank
 instead of interpreting them as unbatched

---
 continual/conv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/continual/conv.py b/continual/conv.py
index 05e5713..171ff79 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -171,9 +171,9 @@ class _ConvCoNd(CoModule, _ConvNd):
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State]
     ) -> Tuple[Optional[Tensor], Optional[State]]:
-        # assert (
-        #     len(input.shape) == self._input_len - 1
-        # ), f"A tensor of shape {(*self.input_shape_desciption[:2], *self.input_shape_desciption[3:])} should be passed as input but got {input.shape}"
+        assert (
+            len(input.shape) == self._input_len - 1
+        ), f"A tensor of shape {(*self.input_shape_desciption[:2], *self.input_shape_desciption[3:])} should be passed as input but got {input.shape}"
 
         # if (
         #     _forward_step_impl is not None
@@ -280,9 +280,9 @@ class _ConvCoNd(CoModule, _ConvNd):
     def forward_steps(
         self, input: Tensor, pad_end: bool = False, update_state: bool = True
     ) -> Optional[Tensor]:
-        # assert (
-        #     len(input.shape) == self._input_len
-        # ), f"A tensor of shape {self.input_shape_desciption} should be passed as input but got {input.shape}."
+        assert (
+            len(input.shape) == self._input_len
+        ), f"A tensor of shape {self.input_shape_desciption} should be passed as input but got {input.shape}."
         return self._forward_steps_impl(input, pad_end, update_state)
 
     def forward(self, input: Tensor) -> Tensor:
-- 
2.43.0


From 7911973179bdcc76b2fa15f16a4e162b36a013ff Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 30/43] fix: converted convolutions keep the dtype and device
 of the original

---
 continual/conv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/continual/conv.py b/continual/conv.py
index 171ff79..6636571 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -416,6 +416,8 @@ class Conv1d(_ConvCoNd):
                     dilation=module.dilation,
                     groups=module.groups,
                     bias=module.bias is not None,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
@@ -516,6 +518,8 @@ class Conv2d(_ConvCoNd):
                     dilation=module.dilation,
                     groups=module.groups,
                     bias=module.bias is not None,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
@@ -616,6 +620,8 @@ class Conv3d(_ConvCoNd):
                     dilation=module.dilation,
                     groups=module.groups,
                     bias=module.bias is not None,
+                    device=module.weight.device,
+                    dtype=module.weight.dtype,
                     padding_mode=module.padding_mode,
                     temporal_fill=temporal_fill or module.padding_mode,
                 ),
-- 
2.43.0


From 36eea8f3e7ab430c890c4a112076c75a0c978c65 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 31/43] fix: refuse to convert bidirectional recurrent modules
 instead of dropping the backward direction

---
 continual/rnn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..66dec33 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,9 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = RNN(
             **{
                 **dict(
@@ -370,6 +373,9 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = GRU(
             **{
                 **dict(
@@ -626,6 +632,9 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert (
+            not module.bidirectional
+        ), "`bidirectional == True` is not supported for a Continual module"
         comodule = LSTM(
             **{
                 **dict(
-- 
2.43.0


From eba4f271cf2877b5169f802aafe39d46b26b820a Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:58 +0000
Subject: [PATCH 32/43] fix: refuse to convert transformer encoders with
 norm_first instead of computing another function

---
 continual/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index f7108cc..63de162 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -589,6 +589,9 @@ class TransformerEncoder(Sequential):
 
         # Create model
         tel = trans_enc.layers[0]
+        assert (
+            not tel.norm_first
+        ), "`norm_first == True` is not supported for a continual TransformerEncoder"
         layer_factory = TransformerEncoderLayerFactory(
             d_model=tel.self_attn.embed_dim,
             nhead=tel.self_attn.num_heads,
-- 
2.43.0


From 164c797b060f670e5db5327985dbd62b456daaa8 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:07 +0000
Subject: [PATCH 33/43] fix: call_mode of modules enhanced by forward_stepping
 can be set by name or number

---
 continual/convert.py | 2 +-
 continual/module.py  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index cbb4ab7..6b6956e 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -103,7 +103,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         _call_mode = (
             call_mode.cur
             if call_mode.prev is not None
-            else getattr(module, "call_mode", _callmode("forward"))
+            else _callmode(getattr(module, "call_mode", "forward"))
         )
         if _call_mode == _callmode("forward"):
             return orig_forward(*args, **kwargs)
diff --git a/continual/module.py b/continual/module.py
index 31a9a06..5cbea49 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -354,7 +354,9 @@ class CoModule(ABC):
         Returns:
             [type]: [description]
         """
-        _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
+        _call_mode = _callmode(
+            call_mode.cur if call_mode.prev is not None else self.call_mode
+        )
         forward_call = {
             (True, int(CALL_MODES["forward"])): self._slow_forward,
             (False, int(CALL_MODES["forward"])): self.forward,
-- 
2.43.0


From 2b4394ff5f12c76ce5da4c3b9d9c53767a0ae8bf Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:09 +0000
Subject: [PATCH 34/43] fix: exporting to ONNX no longer switches the network
 to training mode

---
 continual/onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/continual/onnx.py b/continual/onnx.py
index fb5d37d..88985b3 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -254,6 +254,8 @@ class OnnxWrapper(torch.nn.Module):
     def __init__(self, model: CoModule):
         super().__init__()
         self.model = model
+        # Upon export, the mode of the wrapper is restored to all sub-modules
+        self.training = model.training
 
     def forward(self, x: torch.Tensor, *states: torch.Tensor):
         shaped_state, _ = _shape_list(states, self.model._state_shape)
-- 
2.43.0


From 2e4a1a23433536482b8a35ef4c073377a67a361f Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 35/43] fix: exported ONNX networks with states of different
 sizes can be executed

---
 continual/onnx.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/continual/onnx.py b/continual/onnx.py
index 88985b3..9d52090 100644
--- a/continual/onnx.py
+++ b/continual/onnx.py
@@ -278,6 +278,11 @@ class OnnxWrapper(torch.nn.Module):
     @property
     def state_dynamic_axes(self) -> Dict[str, List[int]]:
         isdyn = flatten(self.model._dynamic_state_inds)
-        ins = {sn: {0: "batch"} for sn, i in zip(self.state_input_names, isdyn) if i}
+        # One name per state: the leading sizes of different states are not equal in general
+        ins = {
+            sn: {0: f"batch_{sn}"}
+            for sn, i in zip(self.state_input_names, isdyn)
+            if i
+        }
         outs = {self._i2o_name(k): v for k, v in ins.items()}
         return {**ins, **outs}
-- 
2.43.0


From e48a31638f0cd3bfb738dd2291415265908aa4ad Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 36/43] fix: containers direct their children's call mode per
 thread instead of modifying shared modules

---
 continual/container.py |  8 +++----
 continual/convert.py   |  7 +-----
 continual/module.py    | 50 ++++++++++++++++++++++++++++++++----------
 3 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 1969dc1..0dcd799 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -9,14 +9,13 @@ from torch import Tensor, nn
 
 from .delay import Delay
 from .logging import getLogger
-from .module import CoModule, PaddingMode, _callmode, call_mode
+from .module import CoModule, PaddingMode, call_mode
 from .skip import Skip
 from .utils import (
     function_repr,
     load_state_dict,
     num_from,
     state_dict,
-    temporary_parameter,
 )
 
 logger = getLogger(__name__)
@@ -68,9 +67,8 @@ def add_delay(module: nn.Module, delay: int) -> nn.Module:
 @contextmanager
 def child_call_mode(module: nn.Module, mode: str):
     """Invoke a child module in the given mode, irrespective of an active `co.call_mode` context"""
-    with temporary_parameter(module, "call_mode", _callmode(mode)):
-        with call_mode.suspended():
-            yield module
+    with call_mode.for_child(module, mode):
+        yield module
 
 
 def apply_forward(module: CoModule, input: Tensor):
diff --git a/continual/convert.py b/continual/convert.py
index 6b6956e..798fca6 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -100,12 +100,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module.call_mode = _callmode("forward")
 
     def forward_with_callmode(*args, **kwargs):
-        _call_mode = (
-            call_mode.cur
-            if call_mode.prev is not None
-            else _callmode(getattr(module, "call_mode", "forward"))
-        )
-        if _call_mode == _callmode("forward"):
+        if call_mode.mode_of(module) == _callmode("forward"):
             return orig_forward(*args, **kwargs)
         return CoModule._call_impl(module, *args, **kwargs)
 
diff --git a/continual/module.py b/continual/module.py
index 5cbea49..6ddf5f7 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -56,6 +56,14 @@ def _callmode(cm) -> torch.Tensor:
     return cm
 
 
+def _contains(parent, module) -> bool:
+    return parent is module or (
+        isinstance(parent, CoModule)
+        and hasattr(parent, "__len__")
+        and any(_contains(m, module) for m in parent)
+    )
+
+
 class _CallModeContext(threading.local):
     """Context-manager which temporarily specifies a call_mode
 
@@ -77,25 +85,43 @@ class _CallModeContext(threading.local):
     def __init__(self):
         self.cur = _callmode("forward")
         self.prev = None
+        self.child = None
 
     @contextmanager
     def __call__(self, value: Union[str, int, torch.Tensor]):
-        outer = (self.cur, self.prev)
-        self.cur, self.prev = _callmode(value), self.cur
+        outer = (self.cur, self.prev, self.child)
+        self.cur, self.prev, self.child = _callmode(value), self.cur, None
         try:
             yield self
         finally:
-            self.cur, self.prev = outer
+            self.cur, self.prev, self.child = outer
 
     @contextmanager
-    def suspended(self):
-        """Let calls follow the ``call_mode`` of each module, e.g. while a container invokes its children"""
-        outer = (self.cur, self.prev)
-        self.prev = None
+    def for_child(self, module: torch.nn.Module, value: Union[str, int, torch.Tensor]):
+        """Let calls of a module (and those it contains) use the given mode, e.g. while a container invokes its children.
+        Calls of other modules follow their own ``call_mode``.
+        The module itself isn't modified since it may be in use by other threads."""
+        outer = (self.cur, self.prev, self.child)
+        self.prev, self.child = None, (module, _callmode(value))
         try:
             yield self
         finally:
-            self.cur, self.prev = outer
+            self.cur, self.prev, self.child = outer
+
+    def child_mode(self, module: torch.nn.Module) -> Optional[torch.Tensor]:
+        """The mode in which a container is invoking the module, if any"""
+        if self.child is not None and _contains(self.child[0], module):
+            return self.child[1]
+        return None
+
+    def mode_of(self, module: torch.nn.Module) -> torch.Tensor:
+        """The mode in which a call of the module is executed"""
+        mode = self.child_mode(module)
+        if mode is not None:
+            return mode
+        if self.prev is not None:
+            return self.cur
+        return _callmode(getattr(module, "call_mode", "forward"))
 
 
 call_mode = _CallModeContext()
@@ -338,6 +364,10 @@ class CoModule(ABC):
 
     @property
     def call_mode(self) -> torch.Tensor:
+        if not torch.jit.is_scripting():
+            child_mode = call_mode.child_mode(self)
+            if child_mode is not None:
+                return child_mode
         return self._call_mode
 
     @call_mode.setter
@@ -354,9 +384,7 @@ class CoModule(ABC):
         Returns:
             [type]: [description]
         """
-        _call_mode = _callmode(
-            call_mode.cur if call_mode.prev is not None else self.call_mode
-        )
+        _call_mode = call_mode.mode_of(self)
         forward_call = {
             (True, int(CALL_MODES["forward"])): self._slow_forward,
             (False, int(CALL_MODES["forward"])): self.forward,
-- 
2.43.0


From b71a74c0f597a68974e4658079b7d981a77042e1 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 37/43] fix: backward hooks and hooks with keyword arguments
 can be used with current versions of torch

---
 continual/module.py | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 6ddf5f7..6fd443d 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -15,6 +15,11 @@ from torch.nn.modules.module import (
     _global_forward_pre_hooks,
 )
 
+try:
+    from torch.nn.modules.module import _global_backward_pre_hooks
+except ImportError:  # torch<2.0  # pragma: no cover
+    _global_backward_pre_hooks = {}
+
 __all__ = ["CoModule", "call_mode"]
 
 # First element is a value buffer, while others are indexes
@@ -392,25 +397,40 @@ class CoModule(ABC):
             (False, int(CALL_MODES["forward_step"])): self.forward_step,
         }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
+        # Not available in older versions of torch
+        _backward_pre_hooks = getattr(self, "_backward_pre_hooks", {})
+        _pre_with_kwargs = getattr(self, "_forward_pre_hooks_with_kwargs", {})
+        _with_kwargs = getattr(self, "_forward_hooks_with_kwargs", {})
+
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
         if not (
             self._backward_hooks
+            or _backward_pre_hooks
             or self._forward_hooks
             or self._forward_pre_hooks
             or _global_backward_hooks
+            or _global_backward_pre_hooks
             or _global_forward_hooks
             or _global_forward_pre_hooks
         ):
             return forward_call(*input, **kwargs)
         # Do not call functions when jit is used
         full_backward_hooks, non_full_backward_hooks = [], []
+        backward_pre_hooks = []
+        if _backward_pre_hooks or _global_backward_pre_hooks:
+            backward_pre_hooks = self._get_backward_pre_hooks()
         if self._backward_hooks or _global_backward_hooks:
             full_backward_hooks, non_full_backward_hooks = self._get_backward_hooks()
         if _global_forward_pre_hooks or self._forward_pre_hooks:
-            for hook in itertools.chain(
-                _global_forward_pre_hooks.values(), self._forward_pre_hooks.values()
+            for hook_id, hook in itertools.chain(
+                _global_forward_pre_hooks.items(), self._forward_pre_hooks.items()
             ):
+                if hook_id in _pre_with_kwargs:
+                    result = hook(self, input, kwargs)
+                    if result is not None:
+                        input, kwargs = result
+                    continue
                 result = hook(self, input)
                 if result is not None:
                     if not isinstance(result, tuple):
@@ -418,16 +438,24 @@ class CoModule(ABC):
                     input = result
 
         bw_hook = None
-        if full_backward_hooks:
-            bw_hook = hooks.BackwardHook(self, full_backward_hooks)
+        if full_backward_hooks or backward_pre_hooks:
+            try:
+                bw_hook = hooks.BackwardHook(
+                    self, full_backward_hooks, backward_pre_hooks
+                )
+            except TypeError:  # torch<2.0  # pragma: no cover
+                bw_hook = hooks.BackwardHook(self, full_backward_hooks)
             input = bw_hook.setup_input_hook(input)
 
         result = forward_call(*input, **kwargs)
         if _global_forward_hooks or self._forward_hooks:
-            for hook in itertools.chain(
-                _global_forward_hooks.values(), self._forward_hooks.values()
+            for hook_id, hook in itertools.chain(
+                _global_forward_hooks.items(), self._forward_hooks.items()
             ):
-                hook_result = hook(self, input, result)
+                if hook_id in _with_kwargs:
+                    hook_result = hook(self, input, kwargs, result)
+                else:
+                    hook_result = hook(self, input, result)
                 if hook_result is not None:
                     result = hook_result
 
-- 
2.43.0


From 636a72dd6e2900509d40a88f8d56c0a0e75ff1b4 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:13 +0000
Subject: [PATCH 38/43] fix: AdaptiveAvgPool2d and AdaptiveMaxPool2d accept
 output_size None for the spatial dimension in streams

---
 continual/pooling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 4f01abc..2269b24 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -1002,9 +1002,9 @@ class AdaptiveAvgPool2d(nn.AdaptiveAvgPool2d, _PoolNd):
         _PoolNd.__init__(
             self,
             temporal_pool=PoolType.AVG,
-            spatial_pool_fn=partial(
-                F.adaptive_avg_pool1d, output_size=self.output_size[1]
-            ),
+            spatial_pool_fn=unity
+            if self.output_size[1] is None
+            else partial(F.adaptive_avg_pool1d, output_size=self.output_size[1]),
             num_input_dims=2,
             kernel_size=(kernel_size, None),
             stride=(stride, None),
@@ -1155,7 +1155,9 @@ class AdaptiveMaxPool2d(nn.AdaptiveMaxPool2d, _PoolNd):
         _PoolNd.__init__(
             self,
             temporal_pool=PoolType.MAX,
-            spatial_pool_fn=partial(
+            spatial_pool_fn=unity
+            if self.output_size[1] is None
+            else partial(
                 F.adaptive_max_pool1d,
                 output_size=self.output_size[1],
                 return_indices=False,
-- 
2.43.0


From abeb694683b82d36d0c2e90de24364047951ef11 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:48 +0000
Subject: [PATCH 39/43] fix: continual attention with other key and value
 dimensions (kdim, vdim) can be stepped

---
 continual/multihead_attention/mha_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 787d8be..75c1b8a 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -415,6 +415,10 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             self.out_proj.weight,
             self.out_proj.bias,
             training=self.training,
+            use_separate_proj_weight=not self._qkv_same_embed_dim,
+            q_proj_weight=self.q_proj_weight,
+            k_proj_weight=self.k_proj_weight,
+            v_proj_weight=self.v_proj_weight,
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-- 
2.43.0


From 297ea5321fb33f7bf078069ef9bac6c827c7c85f Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 40/43] fix: TransformerEncoder can be built with three or more
 layers

---
 continual/transformer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 63de162..f3304af 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -413,7 +413,6 @@ def RetroactiveTransformerEncoderLayer(
     )
 
 
-# TODO: impl
 def StepLocalTransformerEncoderLayer(
     d_model: int,
     nhead: int,
@@ -427,7 +426,22 @@ def StepLocalTransformerEncoderLayer(
     dtype=None,
     sequence_len: int = None,
 ):
-    ...
+    """Regular Transformer Encoder layer, which computes the outputs of all tokens in the sequence.
+
+    It follows a :class:`RetroactiveTransformerEncoderLayer`, where each step holds a whole sequence.
+    """
+    return SingleOutputTransformerEncoderLayer(
+        d_model,
+        nhead,
+        dim_feedforward,
+        dropout,
+        activation,
+        layer_norm_eps,
+        device,
+        dtype,
+        sequence_len,
+        single_output_forward=False,
+    )
 
 
 def TransformerEncoderLayerFactory(
-- 
2.43.0


From fdc382c599094ff8678821bb1438780a5dae0fca Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:52 +0000
Subject: [PATCH 41/43] fix: pooling steps can be differentiated (the pooled
 frames were overwritten in place)

---
 continual/pooling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 2269b24..d31fdf5 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -218,7 +218,9 @@ class _PoolNd(CoModule, nn.Module):
         output = None
         if stride_index == self.stride[0] - 1:
             if self.dilation[0] == 1:
-                frame_selection = buffer
+                # NB: The buffer is updated in place by the next step, whereas the frames that were
+                # pooled are needed as they are now during back-propagation
+                frame_selection = buffer.clone() if buffer.requires_grad else buffer
             else:
                 frame_selection = buffer.index_select(
                     dim=0,
-- 
2.43.0


From 9630ac1327e865e727d08b02fdb23cab0d5b41a6 Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:56 +0000
Subject: [PATCH 42/43] fix: legacy backward hooks made steps without an output
 raise

---
 continual/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/module.py b/continual/module.py
index 6fd443d..b79f5b5 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -463,7 +463,7 @@ class CoModule(ABC):
             result = bw_hook.setup_output_hook(result)
 
         # Handle the non-full backward hooks
-        if non_full_backward_hooks:
+        if non_full_backward_hooks and result is not None:
             var = result
             while not isinstance(var, torch.Tensor):
                 if isinstance(var, dict):
-- 
2.43.0


From 779e3d391ba1b75bc9bb9b8c817d17fbb2dfb92c Mon Sep 17 00:00:00 2001
From: dev <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 43/43] fix: Sequential dropped frames that are tensor
 subclasses (or tuples of streams) during steps

---
 continual/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 0dcd799..ca124d2 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -676,7 +676,7 @@ class Sequential(FlattenableStateDict, ContainerState, CoModule, nn.Sequential):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
-            if not type(input) in {Tensor, list}:
+            if not isinstance(input, (Tensor, list, tuple)):
                 return None
         return input
 
@@ -700,7 +700,7 @@ class Sequential(FlattenableStateDict, ContainerState, CoModule, nn.Sequential):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True):
         for m in self:
-            if not type(input) in {Tensor, list} or len(input) == 0:
+            if not isinstance(input, (Tensor, list, tuple)) or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
             with child_call_mode(m, "forward_steps"):
-- 
2.43.0

