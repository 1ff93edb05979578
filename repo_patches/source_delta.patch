From 1375dcc80a6c5f0cf00f8192a43bf03ef1438f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 01/39] fix: MultipleModule passes branch shapes by keyword
 when predicting its output shape

---
 escnn/nn/modules/multiple_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/multiple_module.py b/escnn/nn/modules/multiple_module.py
index a132433..5d92ca6 100644
--- a/escnn/nn/modules/multiple_module.py
+++ b/escnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From a5c93d380f3f26625c45e9e5566f0aa4943466aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 02/39] fix: NormMaxPool output shape prediction honours
 ceil_mode

---
 escnn/nn/modules/pooling/norm_max.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/pooling/norm_max.py b/escnn/nn/modules/pooling/norm_max.py
index f47d8f7..ab7ca09 100644
--- a/escnn/nn/modules/pooling/norm_max.py
+++ b/escnn/nn/modules/pooling/norm_max.py
@@ -225,9 +225,10 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
+        rounding = math.ceil if self.ceil_mode else math.floor
+        ho = rounding(
             (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
+        wo = rounding(
             (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
 
         return b, self.out_type.size, ho, wo
-- 
2.43.0


From a1a61e92e0af7265ab0479fd3dc75a471e757576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 03/39] fix: anti-aliased max pooling applies padding once and
 predicts its actual output shape

---
 escnn/nn/modules/pooling/pointwise_max.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index 7fe1503..2f8d76a 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -245,7 +245,8 @@ class _PointwiseMaxPoolAntialiasedND(_PointwiseMaxPoolND):
         _filter = _filter.view(1, 1, *[filter_size]*self.d).repeat((in_type.size, 1, *[1]*self.d))
 
         self.register_buffer('filter', _filter)
-        self._pad = tuple(p + int((filter_size - 1) // 2) for p in self.padding)
+        # `padding` is already applied by the dense max-pooling; here, only compensate for the size of the blurring filter
+        self._pad = (int((filter_size - 1) // 2),) * self.d
 
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
@@ -284,6 +285,21 @@ class _PointwiseMaxPoolAntialiasedND(_PointwiseMaxPoolND):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type, coords=None)
 
+    def evaluate_output_shape(self, input_shape: Tuple) -> Tuple:
+        assert len(input_shape) == 2 + self.d, (input_shape, self.d)
+        assert input_shape[1] == self.in_type.size
+
+        b, c = input_shape[:2]
+        shape_i = input_shape[2:]
+
+        # the downsampling is performed by the blurring convolution, which always rounds down
+        shape_o = tuple(
+            math.floor((shape_i[i] + 2 * self.padding[i] - self.dilation[i] * (self.kernel_size[i] - 1) - 1) / self.stride[i] + 1)
+            for i in range(self.d)
+        )
+
+        return (b, self.out_type.size, *shape_o)
+
     def export(self):
         raise NotImplementedError
 
-- 
2.43.0


From 90e64997f46c40614fb8f0b9a6b3ea6a797be296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 04/39] fix: convolution output shape prediction supports
 per-axis padding

---
 escnn/nn/modules/conv/rd_convolution.py            | 4 +++-
 escnn/nn/modules/conv/rd_transposed_convolution.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/conv/rd_convolution.py b/escnn/nn/modules/conv/rd_convolution.py
index eea1b4c..3c3eb32 100644
--- a/escnn/nn/modules/conv/rd_convolution.py
+++ b/escnn/nn/modules/conv/rd_convolution.py
@@ -342,9 +342,11 @@ class _RdConv(EquivariantModule, ABC):
         b, c = input_shape[:2]
         w = input_shape[2:]
         
+        padding = self.padding if isinstance(self.padding, tuple) else (self.padding,) * self.d
+
         wo = [None]*self.d
         for i in range(self.d):
-            wo[i] = math.floor((w[i] + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+            wo[i] = math.floor((w[i] + 2 * padding[i] - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return (b, self.out_type.size) + tuple(wo)
 
diff --git a/escnn/nn/modules/conv/rd_transposed_convolution.py b/escnn/nn/modules/conv/rd_transposed_convolution.py
index f862340..1ae27e8 100644
--- a/escnn/nn/modules/conv/rd_transposed_convolution.py
+++ b/escnn/nn/modules/conv/rd_transposed_convolution.py
@@ -324,9 +324,12 @@ class _RdConvTransposed(EquivariantModule, ABC):
         b, c = input_shape[:2]
         w = input_shape[2:]
         
+        padding = self.padding if isinstance(self.padding, tuple) else (self.padding,) * self.d
+        output_padding = self.output_padding if isinstance(self.output_padding, tuple) else (self.output_padding,) * self.d
+
         wo = [None]*self.d
         for i in range(self.d):
-            wo[i] = (w[i]-1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+            wo[i] = (w[i]-1) * self.stride - 2 * padding[i] + self.dilation * (self.kernel_size - 1) + output_padding[i] + 1
 
         return (b, self.out_type.size) + tuple(wo)
 
-- 
2.43.0


From eff8c6e5d0dc6efdbd70280c9a3f87213c3cc8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 05/39] fix: branching and gated modules predict output shapes
 in any dimensionality

---
 escnn/nn/modules/branching_module.py      | 6 ++----
 escnn/nn/modules/nonlinearities/gated2.py | 8 +++-----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/escnn/nn/modules/branching_module.py b/escnn/nn/modules/branching_module.py
index fb59aed..cf4eb3f 100644
--- a/escnn/nn/modules/branching_module.py
+++ b/escnn/nn/modules/branching_module.py
@@ -219,12 +219,10 @@ class BranchingModule(EquivariantModule):
         return output
 
     def evaluate_output_shape(self, input_shape: Tuple[int, ...]) -> Dict[Any, Tuple[int, ...]]:
-        assert len(input_shape) == 4
+        assert len(input_shape) > 1
         assert input_shape[1] == self.in_type.size
     
-        b, c, hi, wi = input_shape
-    
-        return {l: (b, repr.size, hi, wi) for l, repr in self.out_type.items()}
+        return {l: (input_shape[0], repr.size, *input_shape[2:]) for l, repr in self.out_type.items()}
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/escnn/nn/modules/nonlinearities/gated2.py b/escnn/nn/modules/nonlinearities/gated2.py
index e954ad6..fb8fa36 100644
--- a/escnn/nn/modules/nonlinearities/gated2.py
+++ b/escnn/nn/modules/nonlinearities/gated2.py
@@ -210,18 +210,16 @@ class GatedNonLinearity2(EquivariantModule):
         assert len(input_shapes) == 2
         gates_shape, input_shape = input_shapes
         
-        assert len(gates_shape) == 4
+        assert len(gates_shape) > 1
         assert gates_shape[1] == self.in_type[0].size
 
-        assert len(input_shape) == 4
+        assert len(input_shape) > 1
         assert input_shape[1] == self.in_type[1].size
         
         assert gates_shape[0] == input_shape[0]
         assert gates_shape[2:] == input_shape[2:]
 
-        b, c, hi, wi = input_shape
-
-        return b, self.out_type.size, hi, wi
+        return (input_shape[0], self.out_type.size, *input_shape[2:])
         
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From 444147026816862d5caefe1187db85d14bfb6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:58 +0000
Subject: [PATCH 06/39] fix: point convolution output shape prediction takes
 the shape its forward accepts

---
 escnn/nn/modules/pointconv/rd_point_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/pointconv/rd_point_convolution.py b/escnn/nn/modules/pointconv/rd_point_convolution.py
index 55de19c..8912c4a 100644
--- a/escnn/nn/modules/pointconv/rd_point_convolution.py
+++ b/escnn/nn/modules/pointconv/rd_point_convolution.py
@@ -376,10 +376,10 @@ class _RdPointConv(torch_geometric.nn.MessagePassing, EquivariantModule, ABC):
         return super(_RdPointConv, self).train(mode)
 
     def evaluate_output_shape(self, input_shape: Tuple) -> Tuple:
-        assert len(input_shape) == 3
+        assert len(input_shape) == 2
         assert input_shape[1] == self.in_type.size
 
-        return input_shape[0], self.out_type.size, input_shape[2]
+        return input_shape[0], self.out_type.size
 
     def __repr__(self):
         extra_lines = []
-- 
2.43.0


From 34a746427731e5985ec8b1a16c727ee9d6d73888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:54 +0000
Subject: [PATCH 07/39] fix: exported convolutions keep the padding mode

---
 escnn/nn/modules/conv/r2convolution.py | 1 +
 escnn/nn/modules/conv/r3convolution.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/escnn/nn/modules/conv/r2convolution.py b/escnn/nn/modules/conv/r2convolution.py
index 3c0c3ef..4bbfdf3 100644
--- a/escnn/nn/modules/conv/r2convolution.py
+++ b/escnn/nn/modules/conv/r2convolution.py
@@ -364,6 +364,7 @@ class R2Conv(_RdConv):
                                self.out_type.size,
                                self.kernel_size,
                                padding=self.padding,
+                               padding_mode=self.padding_mode,
                                stride=self.stride,
                                dilation=self.dilation,
                                groups=self.groups,
diff --git a/escnn/nn/modules/conv/r3convolution.py b/escnn/nn/modules/conv/r3convolution.py
index 4ae314b..fc2ea50 100644
--- a/escnn/nn/modules/conv/r3convolution.py
+++ b/escnn/nn/modules/conv/r3convolution.py
@@ -357,6 +357,7 @@ class R3Conv(_RdConv):
                                self.out_type.size,
                                self.kernel_size,
                                padding=self.padding,
+                               padding_mode=self.padding_mode,
                                stride=self.stride,
                                dilation=self.dilation,
                                groups=self.groups,
-- 
2.43.0


From 67f5b4e62338b221e09248b4c25e65570ccd3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:54 +0000
Subject: [PATCH 08/39] fix: exported transposed convolutions keep the output
 padding

---
 escnn/nn/modules/conv/r2_transposed_convolution.py | 1 +
 escnn/nn/modules/conv/r3_transposed_convolution.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/escnn/nn/modules/conv/r2_transposed_convolution.py b/escnn/nn/modules/conv/r2_transposed_convolution.py
index ed85aff..cd785df 100644
--- a/escnn/nn/modules/conv/r2_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r2_transposed_convolution.py
@@ -270,6 +270,7 @@ class R2ConvTransposed(_RdConvTransposed):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
diff --git a/escnn/nn/modules/conv/r3_transposed_convolution.py b/escnn/nn/modules/conv/r3_transposed_convolution.py
index c048152..6ebb9e6 100644
--- a/escnn/nn/modules/conv/r3_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r3_transposed_convolution.py
@@ -384,6 +384,7 @@ class R3ConvTransposed(_RdConvTransposed):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From abe4fe9674c73d962f86dcaed406bb8de244e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:54 +0000
Subject: [PATCH 09/39] fix: exported max pooling keeps ceil_mode

---
 escnn/nn/modules/pooling/pointwise_max.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index 2f8d76a..d726878 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -169,9 +169,9 @@ class _PointwiseMaxPoolND(EquivariantModule):
         self.eval()
 
         if self.d == 2:
-            return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+            return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
         elif self.d == 3:
-            return torch.nn.MaxPool3d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+            return torch.nn.MaxPool3d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 630c5b18b4951cff3a6fbc2bc8e32eb935920887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:54 +0000
Subject: [PATCH 10/39] fix: GNormBatchNorm exports a batch norm of the
 dimensionality of its base space

---
 escnn/nn/modules/batchnormalization/gnorm.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index a3c922c..601b650 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -427,7 +427,16 @@ class GNormBatchNorm(EquivariantModule):
 
         self.eval()
 
-        batchnorm = torch.nn.BatchNorm3d(
+        if self.in_type.gspace.dimensionality in [0, 1]:
+            bnorm_class = torch.nn.BatchNorm1d
+        elif self.in_type.gspace.dimensionality == 2:
+            bnorm_class = torch.nn.BatchNorm2d
+        elif self.in_type.gspace.dimensionality == 3:
+            bnorm_class = torch.nn.BatchNorm3d
+        else:
+            raise NotImplementedError
+
+        batchnorm = bnorm_class(
             self.in_type.size,
             self.eps,
             self.momentum,
-- 
2.43.0


From 4934833dd0b83c8ce03a3c885540b4e8466eae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:00 +0000
Subject: [PATCH 11/39] fix: GNormBatchNorm refuses to export fields whose
 statistics are not channel-wise

---
 escnn/nn/modules/batchnormalization/gnorm.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index 601b650..ccd6a3b 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -454,6 +454,12 @@ class GNormBatchNorm(EquivariantModule):
                     inner-batch normalization into conventional BatchNorm2d'''
                 )
 
+            if hasattr(self, f"{self._escape_name(name)}_change_of_basis"):
+                raise NotImplementedError(
+                    '''Representations with a non-trivial change of basis can not be normalized channel-wise and,
+                    therefore, can not be converted into conventional batch normalization'''
+                )
+
             n = self._nfields[name]
 
             start, end = getattr(self, f"{self._escape_name(name)}_indices")
@@ -478,15 +484,6 @@ class GNormBatchNorm(EquivariantModule):
                     1, n, size
                 ), bias, name=name, out=None).view(-1)
 
-            if hasattr(self, f"{self._escape_name(name)}_change_of_basis"):
-                cob = getattr(self, f"{self._escape_name(name)}_change_of_basis")
-
-                batchnorm.running_var.data[start:end] = torch.einsum(
-                    "ds,cs->cd",
-                    cob,
-                    batchnorm.running_var.data[start:end].view(n, size)
-                ).view(-1)
-
         batchnorm.eval()
 
         return batchnorm
-- 
2.43.0


From 30429522f2ada0434aa4607898b016eae7c26f98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 12/39] fix: kernel basis caches of a GSpace distinguish
 representations that share a name

The caches were keyed by the representations' names, so a second
representation with the same name but another change of basis got the
first one's kernel basis and the layer was not equivariant.
---
 escnn/gspaces/gspace.py | 12 ++++++------
 escnn/gspaces/r0.py     |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/escnn/gspaces/gspace.py b/escnn/gspaces/gspace.py
index ea36234..f566de9 100644
--- a/escnn/gspaces/gspace.py
+++ b/escnn/gspaces/gspace.py
@@ -356,15 +356,15 @@ class GSpace(ABC):
         assert in_repr.group == self.fibergroup
         assert out_repr.group == self.fibergroup
     
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory_fiber_basis:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory_fiber_basis:
         
             basis = escnn.kernels.kernels_on_point(in_repr, out_repr)
         
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory_fiber_basis[(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory_fiber_basis[(in_repr, out_repr)] = basis
     
         # return the dictionary with all the basis built
-        return self._fields_intertwiners_basis_memory_fiber_basis[(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory_fiber_basis[(in_repr, out_repr)]
 
     def build_kernel_basis(self,
                            in_repr: escnn.group.Representation,
@@ -446,16 +446,16 @@ class GSpace(ABC):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
     
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
         
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
         
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
     
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     @abstractmethod
     def _basis_generator(self,
diff --git a/escnn/gspaces/r0.py b/escnn/gspaces/r0.py
index 362accd..c21ba02 100644
--- a/escnn/gspaces/r0.py
+++ b/escnn/gspaces/r0.py
@@ -64,15 +64,15 @@ class GSpace0D(GSpace):
         # build the key
         key = ()
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
     
             basis = self._basis_generator(in_repr, out_repr)
     
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with the basis built
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def _basis_generator(self,
                          in_repr: escnn.group.Representation,
-- 
2.43.0


From 4bb44a18d87d19b1478e7143a5e899f1cace3241 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 13/39] fix: NormalizedR3Conv's basis cache creates its inner
 tables and keys on the representations

---
 escnn/kernels/polar_basis_poulenard.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/escnn/kernels/polar_basis_poulenard.py b/escnn/kernels/polar_basis_poulenard.py
index e03d987..bab7c82 100644
--- a/escnn/kernels/polar_basis_poulenard.py
+++ b/escnn/kernels/polar_basis_poulenard.py
@@ -1,3 +1,5 @@
+from collections import defaultdict
+
 import numpy as np
 import torch
 
@@ -172,7 +174,7 @@ def normalized_kernels_SO3_act_R3(in_repr: Representation, out_repr: Representat
     return basis
 
 
-_fields_intertwiners_basis_memory_normaliedSO3 = dict()
+_fields_intertwiners_basis_memory_normaliedSO3 = defaultdict(dict)
 
 
 class NormalizedR3Conv(R3Conv):
@@ -188,10 +190,10 @@ class NormalizedR3Conv(R3Conv):
         key["maximum_requency"] = maximum_frequency
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in _fields_intertwiners_basis_memory_normaliedSO3[key]:
+        if (in_repr, out_repr) not in _fields_intertwiners_basis_memory_normaliedSO3[key]:
             basis = normalized_kernels_SO3_act_R3(in_repr, out_repr, rings, maximum_frequency=maximum_frequency)
             # store the basis in the dictionary
-            _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr.name, out_repr.name)] = basis
+            _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr, out_repr)] = basis
         # return the dictionary with all the basis built for this filter size
-        return _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr.name, out_repr.name)]
+        return _fields_intertwiners_basis_memory_normaliedSO3[key][(in_repr, out_repr)]
 
-- 
2.43.0


From 80374878939c2ff8045a7a749721034ef74250af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:09:55 +0000
Subject: [PATCH 14/39] fix: default names of induced representations
 distinguish the coset representatives

The default name is the key under which the representation is reused, so a
second call with other representatives returned the first representation.
---
 escnn/group/group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index ff18e07..14fd57c 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -509,6 +509,8 @@ class Group(ABC):
 
         if name is None:
             name = f"quotient[{subgroup_id}]"
+            if representatives is not None:
+                name += f"{representatives}"
         
         if name not in self.representations:
             subgroup, _, _ = self.subgroup(subgroup_id)
@@ -558,6 +560,8 @@ class Group(ABC):
 
         if name is None:
             name = f"induced[{subgroup_id}][{repr.name}]"
+            if representatives is not None:
+                name += f"{representatives}"
 
         if name not in self.representations:
 
-- 
2.43.0


From cb5eb2bfff60f91346c570bd35feef6c83bf8676 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 15/39] fix: groups are hashable

The subclasses of Group define __eq__ and so lost __hash__; hashing a
GSpace0D, which hashes its fiber group, raised TypeError.
---
 escnn/group/directproduct.py        | 3 +++
 escnn/group/group.py                | 3 +++
 escnn/group/groups/cyclicgroup.py   | 2 ++
 escnn/group/groups/dihedralgroup.py | 2 ++
 escnn/group/groups/ico.py           | 2 ++
 escnn/group/groups/o2group.py       | 2 ++
 escnn/group/groups/o3group.py       | 2 ++
 escnn/group/groups/octa.py          | 2 ++
 escnn/group/groups/so2group.py      | 2 ++
 escnn/group/groups/so3group.py      | 2 ++
 10 files changed, 22 insertions(+)

diff --git a/escnn/group/directproduct.py b/escnn/group/directproduct.py
index a16c3ca..334c94b 100644
--- a/escnn/group/directproduct.py
+++ b/escnn/group/directproduct.py
@@ -381,6 +381,9 @@ class DirectProductGroup(Group):
         else:
             return self.G1 == other.G1 and self.G2 == other.G2
 
+    def __hash__(self):
+        return hash((self.G1, self.G2))
+
     def sample(self):
         return self.element((
             self.G1.sample().to(self.G1.PARAM),
diff --git a/escnn/group/group.py b/escnn/group/group.py
index 14fd57c..0642299 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -287,6 +287,9 @@ class Group(ABC):
     def __eq__(self, other):
         pass
 
+    def __hash__(self):
+        return hash((self.__class__, self.order()))
+
     @abstractmethod
     def sample(self) -> GroupElement:
         r"""
diff --git a/escnn/group/groups/cyclicgroup.py b/escnn/group/groups/cyclicgroup.py
index f6772ba..4cac15e 100644
--- a/escnn/group/groups/cyclicgroup.py
+++ b/escnn/group/groups/cyclicgroup.py
@@ -248,6 +248,8 @@ class CyclicGroup(Group):
         else:
             return self.name == other.name and self.order() == other.order()
 
+    __hash__ = Group.__hash__
+
     def _subgroup(self, id: int) -> Tuple[
         Group,
         Callable[[GroupElement], GroupElement],
diff --git a/escnn/group/groups/dihedralgroup.py b/escnn/group/groups/dihedralgroup.py
index 3c5073f..f455920 100644
--- a/escnn/group/groups/dihedralgroup.py
+++ b/escnn/group/groups/dihedralgroup.py
@@ -281,6 +281,8 @@ class DihedralGroup(Group):
             return False
         else:
             return self.name == other.name and self.rotation_order == other.rotation_order
+
+    __hash__ = Group.__hash__
     
     def _subgroup(self, id: Tuple[int, int]) -> Tuple[
         Group,
diff --git a/escnn/group/groups/ico.py b/escnn/group/groups/ico.py
index f13ca76..a7955fe 100644
--- a/escnn/group/groups/ico.py
+++ b/escnn/group/groups/ico.py
@@ -197,6 +197,8 @@ class Icosahedral(Group):
         else:
             return self.name == other.name
 
+    __hash__ = Group.__hash__
+
     def _process_subgroup_id(self, id):
 
         if not isinstance(id, tuple):
diff --git a/escnn/group/groups/o2group.py b/escnn/group/groups/o2group.py
index 1f60772..dd5dd92 100644
--- a/escnn/group/groups/o2group.py
+++ b/escnn/group/groups/o2group.py
@@ -331,6 +331,8 @@ class O2(Group):
         else:
             return self.name == other.name # and self._maximum_frequency == other._maximum_frequency
 
+    __hash__ = Group.__hash__
+
     def _subgroup(self, id: Tuple[float, int]) -> Tuple[
         Group,
         Callable[[GroupElement], GroupElement],
diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index ede614f..ad27b94 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -419,6 +419,8 @@ class O3(Group):
         else:
             return self.name == other.name # and self._maximum_frequency == other._maximum_frequency
 
+    __hash__ = Group.__hash__
+
     def _process_subgroup_id(self, id):
         
         # (True, None)   -> Inversion C_2 subgroup
diff --git a/escnn/group/groups/octa.py b/escnn/group/groups/octa.py
index f9f95f8..efdd7b9 100644
--- a/escnn/group/groups/octa.py
+++ b/escnn/group/groups/octa.py
@@ -184,6 +184,8 @@ class Octahedral(Group):
         else:
             return self.name == other.name
 
+    __hash__ = Group.__hash__
+
     def _process_subgroup_id(self, id):
 
         if not isinstance(id, tuple):
diff --git a/escnn/group/groups/so2group.py b/escnn/group/groups/so2group.py
index 4f68e3b..da94855 100644
--- a/escnn/group/groups/so2group.py
+++ b/escnn/group/groups/so2group.py
@@ -256,6 +256,8 @@ class SO2(Group):
         else:
             return self.name == other.name # and self._maximum_frequency == other._maximum_frequency
 
+    __hash__ = Group.__hash__
+
     def _subgroup(self, id: int) -> Tuple[
         Group,
         Callable[[GroupElement], GroupElement],
diff --git a/escnn/group/groups/so3group.py b/escnn/group/groups/so3group.py
index 032710c..1da6d9d 100644
--- a/escnn/group/groups/so3group.py
+++ b/escnn/group/groups/so3group.py
@@ -324,6 +324,8 @@ class SO3(Group):
         else:
             return self.name == other.name # and self._maximum_frequency == other._maximum_frequency
 
+    __hash__ = Group.__hash__
+
     def _process_subgroup_id(self, id):
 
         if not isinstance(id, tuple):
-- 
2.43.0


From 2aa1303faf145cf41223adbf8f7d19a95fa74430 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 16/39] fix: equal representations and point bases have equal
 hashes

Both hashed the name of the group, which does not take part in the
comparison of direct product groups.  Comparing representations of
different size that share a name raised ValueError.
---
 escnn/group/representation.py            | 3 ++-
 escnn/kernels/steerable_filters_basis.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/escnn/group/representation.py b/escnn/group/representation.py
index 8fddb97..0530452 100644
--- a/escnn/group/representation.py
+++ b/escnn/group/representation.py
@@ -371,6 +371,7 @@ class Representation:
             return False
         
         return (self.name == other.name
+                and self.size == other.size
                 and self.group == other.group
                 and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
@@ -380,7 +381,7 @@ class Representation:
         return f"{self.group.name}|[{self.name}]:{self.size}"
     
     def __hash__(self):
-        return hash(repr(self))
+        return hash((self.name, self.size))
     
     def tensor(self, other: Representation) -> Representation:
         r"""
diff --git a/escnn/kernels/steerable_filters_basis.py b/escnn/kernels/steerable_filters_basis.py
index 798669f..1118b41 100644
--- a/escnn/kernels/steerable_filters_basis.py
+++ b/escnn/kernels/steerable_filters_basis.py
@@ -343,5 +343,5 @@ class PointBasis(SteerableFiltersBasis):
             return False
 
     def __hash__(self):
-        return hash(self.group.__class__) * 1000 + sum(hash(x) for x in self.group._keys.items())
+        return hash(self.group)
 
-- 
2.43.0


From b9d3b8dde9c5e8b1d48eb28e305059b53fcc2a88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 17/39] fix: equal gspaces and field types have equal hashes

GSpace2D and GSpace3D compare the processed subgroup id but hashed their
name, which spells the id as the caller wrote it; FieldType did the same
through gspace.name.  GSpace3D('so3') and GSpace3D((False, 'so3')) were
equal with different hashes.
---
 escnn/gspaces/r2.py    | 2 +-
 escnn/gspaces/r3.py    | 2 +-
 escnn/nn/field_type.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/escnn/gspaces/r2.py b/escnn/gspaces/r2.py
index 195b220..a888f49 100644
--- a/escnn/gspaces/r2.py
+++ b/escnn/gspaces/r2.py
@@ -149,7 +149,7 @@ class GSpace2D(gspaces.GSpace):
             return False
     
     def __hash__(self):
-        return 1000 * hash(self.name) + hash(self._sg_id)
+        return hash((self.dimensionality, self._sg_id))
     
     
 def rot2dOnR2(N: int = -1, maximum_frequency: int = 6) -> GSpace2D:
diff --git a/escnn/gspaces/r3.py b/escnn/gspaces/r3.py
index 2ed6d2c..9697843 100644
--- a/escnn/gspaces/r3.py
+++ b/escnn/gspaces/r3.py
@@ -165,7 +165,7 @@ class GSpace3D(gspaces.GSpace):
             return False
     
     def __hash__(self):
-        return 1000 * hash(self.name) + hash(self._sg_id)
+        return hash((self.dimensionality, self._sg_id))
 
 
 ########################################################################################################################
diff --git a/escnn/nn/field_type.py b/escnn/nn/field_type.py
index 509ff62..fc96b3c 100644
--- a/escnn/nn/field_type.py
+++ b/escnn/nn/field_type.py
@@ -96,7 +96,7 @@ class FieldType:
         self._field_start = None
         self._field_end = None
 
-        self._hash = hash(self.gspace.name + ': {' + ', '.join([r.name for r in self.representations]) + '}')
+        self._hash = hash((self.gspace, self.representations))
 
         self._uniform = True
         rho = self.representations[0]
-- 
2.43.0


From e0b087c55621a8e8c3442564404a4cc749884ccd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 18/39] fix: hash the tensors of a kernel basis by value, not
 by identity

---
 escnn/kernels/basis.py                                      | 4 ++--
 escnn/nn/modules/basismanager/basisexpansion_singleblock.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/escnn/kernels/basis.py b/escnn/kernels/basis.py
index 5ff9145..8ffa4aa 100644
--- a/escnn/kernels/basis.py
+++ b/escnn/kernels/basis.py
@@ -154,14 +154,14 @@ class AdjointBasis(KernelBasis):
     
     def __eq__(self, other):
         if isinstance(other, AdjointBasis):
-            return self.basis == other.basis and torch.allclose(self.adj, other.adj)
+            return self.basis == other.basis and torch.allclose(self.adj, other.adj.to(self.adj.device))
         # elif self.basis == other:
         #     return np.allclose(self.adj, np.eye(self.adj.shape[0))
         else:
             return False
     
     def __hash__(self):
-        return hash(self.adj) + 1000 * hash(self.basis)
+        return hash(self.adj.cpu().numpy().tobytes()) + 1000 * hash(self.basis)
 
 
 class UnionBasis(KernelBasis):
diff --git a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
index 679eed5..59b4e89 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
@@ -107,6 +107,7 @@ class SingleBlockBasisExpansion(torch.nn.Module, BasisManager):
         if isinstance(other, SingleBlockBasisExpansion):
             return (
                     self.basis == other.basis and
+                    self.sampled_basis.shape == other.sampled_basis.shape and
                     torch.allclose(self.sampled_basis, other.sampled_basis) and
                     (self._mask == other._mask).all()
             )
@@ -114,7 +115,7 @@ class SingleBlockBasisExpansion(torch.nn.Module, BasisManager):
             return False
     
     def __hash__(self):
-        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis) + hash(self._mask)
+        return 10000 * hash(self.basis) + hash(self._mask.cpu().numpy().tobytes())
 
 # dictionary storing references to already built basis tensors.
 # when a new filter tensor is built, it is also stored here
-- 
2.43.0


From 76e51be84a3cfd6c077110c6883a06d2d9a128da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 19/39] fix: shell bases with equal filters compare equal and
 hash alike

With a filter, __eq__ returned the element-wise comparison of two tensors
(ambiguous as a truth value) and __hash__ hashed the mask by identity.
---
 escnn/kernels/polar_basis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index be7d571..781e760 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -573,13 +573,14 @@ class SphericalShellsBasis(SteerableFiltersBasis):
             return (
                     self.radial == other.radial and
                     self.L == other.L and
-                    self._filter == other._filter
+                    (self._filter is None) == (other._filter is None) and
+                    (self._filter is None or torch.equal(self._filter, other._filter.to(self._filter.device)))
             )
         else:
             return False
     
     def __hash__(self):
-        return self.L + hash(self.radial) + hash(self._filter)
+        return self.L + hash(self.radial)
 
 
 class CircularShellsBasis(SteerableFiltersBasis):
@@ -1009,11 +1010,12 @@ class CircularShellsBasis(SteerableFiltersBasis):
             return (
                     self.radial == other.radial and
                     self.L == other.L and
-                    self._filter == other._filter
+                    (self._filter is None) == (other._filter is None) and
+                    (self._filter is None or torch.equal(self._filter, other._filter.to(self._filter.device)))
             )
         else:
             return False
 
     def __hash__(self):
-        return self.L + hash(self.radial) + hash(self._filter)
+        return self.L + hash(self.radial)
 
-- 
2.43.0


From 0549f635735d7403165202e4a7d28e86e6b79ea5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 20/39] fix: circular shell bases with different reflection
 axes are different

Equality ignored the axis, so that the sampled filters of one axis, which
are shared through a cache keyed by the basis, were reused for another and
the layer was not equivariant.
---
 escnn/kernels/polar_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 781e760..0739513 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -1010,6 +1010,7 @@ class CircularShellsBasis(SteerableFiltersBasis):
             return (
                     self.radial == other.radial and
                     self.L == other.L and
+                    self.axis == other.axis and
                     (self._filter is None) == (other._filter is None) and
                     (self._filter is None or torch.equal(self._filter, other._filter.to(self._filter.device)))
             )
@@ -1017,5 +1018,5 @@ class CircularShellsBasis(SteerableFiltersBasis):
             return False
 
     def __hash__(self):
-        return self.L + hash(self.radial)
+        return self.L + hash(self.radial) + hash(self.axis)
 
-- 
2.43.0


From 3c05ebc0004604688a9ccabbdea4caf98b692e9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 21/39] fix: radial profiles compare with their own class and
 with other sizes

Comparing profiles with different numbers of rings raised RuntimeError, and
a normalised profile compared equal to the unnormalised one with the same
rings but not to itself.
---
 escnn/kernels/polar_basis.py           | 3 ++-
 escnn/kernels/polar_basis_poulenard.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 0739513..28ef94f 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -109,7 +109,8 @@ class GaussianRadialProfile(KernelBasis):
     def __eq__(self, other):
         if isinstance(other, GaussianRadialProfile):
             return (
-                        torch.allclose(self.radii, other.radii.to(self.radii.device))
+                        self.radii.shape == other.radii.shape
+                    and torch.allclose(self.radii, other.radii.to(self.radii.device))
                     and torch.allclose(self.sigma, other.sigma.to(self.sigma.device))
             )
         else:
diff --git a/escnn/kernels/polar_basis_poulenard.py b/escnn/kernels/polar_basis_poulenard.py
index bab7c82..2fd5681 100644
--- a/escnn/kernels/polar_basis_poulenard.py
+++ b/escnn/kernels/polar_basis_poulenard.py
@@ -107,9 +107,10 @@ class GaussianRadialProfileNormalized(KernelBasis):
         return {"radius": self.radii[0, r, 0, 0].item(), "sigma": self.sigma[0, r, 0, 0].item(), "idx": r}
     
     def __eq__(self, other):
-        if isinstance(other, GaussianRadialProfile):
+        if isinstance(other, GaussianRadialProfileNormalized):
             return (
-                        torch.allclose(self.radii, other.radii.to(self.radii.device))
+                        self.radii.shape == other.radii.shape
+                    and torch.allclose(self.radii, other.radii.to(self.radii.device))
                     and torch.allclose(self.sigma, other.sigma.to(self.sigma.device))
             )
         else:
-- 
2.43.0


From d97e9e56ff9d072d2e81dbb1b70d80bf63269ea1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:20:15 +0000
Subject: [PATCH 22/39] fix: sparse orbit bases that describe their elements
 differently are different

---
 escnn/kernels/sparse_basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/escnn/kernels/sparse_basis.py b/escnn/kernels/sparse_basis.py
index 642ccb9..cff35ab 100644
--- a/escnn/kernels/sparse_basis.py
+++ b/escnn/kernels/sparse_basis.py
@@ -258,6 +258,8 @@ class SparseOrbitBasis(SteerableFiltersBasis):
             return False
         elif not np.isclose(self.sigma, other.sigma):
             return False
+        elif self._attributes != other._attributes:
+            return False
         elif (self.change_of_basis is None) != (other.change_of_basis is None):
             return False
         elif self.change_of_basis is not None:
-- 
2.43.0


From e068e46f9337fc2ec4ccb3a7990a0b9fe0b4eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:14 +0000
Subject: [PATCH 23/39] fix: cyclic and dihedral elements can be built from
 rotation matrices

---
 escnn/group/groups/cyclicgroup.py   | 2 +-
 escnn/group/groups/dihedralgroup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/group/groups/cyclicgroup.py b/escnn/group/groups/cyclicgroup.py
index 4cac15e..913f3b7 100644
--- a/escnn/group/groups/cyclicgroup.py
+++ b/escnn/group/groups/cyclicgroup.py
@@ -198,7 +198,7 @@ class CyclicGroup(Group):
             assert np.allclose(element @ element.T, np.eye(2))
     
             cos = (element[0, 0] + element[1, 1]) / 2.
-            sin = (element[1, 0] - element[1, 0]) / 2.
+            sin = (element[1, 0] - element[0, 1]) / 2.
     
             element = np.arctan2(sin, cos)
             p_from = 'radians'
diff --git a/escnn/group/groups/dihedralgroup.py b/escnn/group/groups/dihedralgroup.py
index f455920..8269f9b 100644
--- a/escnn/group/groups/dihedralgroup.py
+++ b/escnn/group/groups/dihedralgroup.py
@@ -231,7 +231,7 @@ class DihedralGroup(Group):
             assert np.allclose(rotation @ rotation.T, np.eye(2))
     
             cos = (rotation[0, 0] + rotation[1, 1]) / 2.
-            sin = (rotation[1, 0] - rotation[1, 0]) / 2.
+            sin = (rotation[1, 0] - rotation[0, 1]) / 2.
     
             rotation = np.arctan2(sin, cos)
             p_from = 'radians'
-- 
2.43.0


From 82152f5a5f15629bfe5e690e403e23bb6e3c90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:14 +0000
Subject: [PATCH 24/39] fix: CyclicGroup inverts elements given in any
 parametrization

---
 escnn/group/groups/cyclicgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/cyclicgroup.py b/escnn/group/groups/cyclicgroup.py
index 913f3b7..5de12ee 100644
--- a/escnn/group/groups/cyclicgroup.py
+++ b/escnn/group/groups/cyclicgroup.py
@@ -116,7 +116,7 @@ class CyclicGroup(Group):
             its opposite :math:`r^{-j \mod N}`
             
         """
-        self._change_param(element, param, 'int')
+        element = self._change_param(element, param, 'int')
         element = (-element) % self.N
         return self._change_param(element, 'int', param)
 
-- 
2.43.0


From 10c6ef0f4c431aa0777dc426c15088dd9ec6aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:14 +0000
Subject: [PATCH 25/39] fix: SO3 and O3 sample elements in the requested
 parametrization

---
 escnn/group/groups/o3group.py  | 2 +-
 escnn/group/groups/so3group.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index ad27b94..bff5049 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -253,7 +253,7 @@ class O3(Group):
     ###########################################################################
     
     def sample(self, param: str = PARAMETRIZATION) -> GroupElement:
-        return self.element((np.random.randint(0, 2), _grid('rand', N=1, parametrization=param)[0]))
+        return self.element((np.random.randint(0, 2), _grid('rand', N=1, parametrization=param)[0]), param)
 
     def grid(self, type: str, *args, adj=IDENTITY, parametrization: str = PARAMETRIZATION, **kwargs) -> List[GroupElement]:
         r"""
diff --git a/escnn/group/groups/so3group.py b/escnn/group/groups/so3group.py
index 1da6d9d..0cf4246 100644
--- a/escnn/group/groups/so3group.py
+++ b/escnn/group/groups/so3group.py
@@ -155,7 +155,7 @@ class SO3(Group):
     ###########################################################################
     
     def sample(self, param: str = PARAM) -> GroupElement:
-        return self.element(_grid('rand', N=1, parametrization=param)[0])
+        return self.element(_grid('rand', N=1, parametrization=param)[0], param)
     
     def grid(self, type: str, *args, adj: GroupElement = None, parametrization: str = PARAMETRIZATION, **kwargs) -> List[GroupElement]:
         r"""
-- 
2.43.0


From 842165abce616506f199b3dbcf02f87f98f6d07e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:25:12 +0000
Subject: [PATCH 26/39] fix: directsum drops the non-linearities its change of
 basis does not preserve

---
 escnn/group/representation.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/escnn/group/representation.py b/escnn/group/representation.py
index 0530452..6334691 100644
--- a/escnn/group/representation.py
+++ b/escnn/group/representation.py
@@ -574,18 +574,36 @@ def directsum(reprs: List[escnn.group.Representation],
         cob_inv[p:p + r.size, p:p + r.size] = r.change_of_basis_inv
         p += r.size
 
+    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
+
     if change_of_basis is not None:
+        # only keep the non-linearities which are still equivariant in the new basis
+        supported_nonlinearities &= _nonlinearities_preserved(change_of_basis)
+
         change_of_basis = change_of_basis @ cob
         change_of_basis_inv = sp.linalg.inv(change_of_basis)
     else:
         change_of_basis = cob
         change_of_basis_inv = cob_inv
 
-    supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
-    
     return Representation(group, name, irreps, change_of_basis, supported_nonlinearities, change_of_basis_inv=change_of_basis_inv)
 
 
+def _nonlinearities_preserved(change_of_basis: np.ndarray) -> Set[str]:
+    # gates rescale (or are) whole fields, independently of the basis
+    preserved = {'gated', 'gate'}
+
+    if np.allclose(change_of_basis @ change_of_basis.T, np.eye(len(change_of_basis))):
+        # an orthogonal matrix preserves the norm of a field
+        preserved.add('norm')
+
+        if np.allclose(np.abs(change_of_basis).max(axis=0), 1.) and (change_of_basis > -1e-8).all():
+            # a permutation matrix also preserves the channels themselves
+            preserved.update(['pointwise', 'concatenated'])
+
+    return preserved
+
+
 def disentangle(repr: Representation) -> Tuple[np.ndarray, List[Representation]]:
     r"""
     
-- 
2.43.0


From 61c93ed51d2681a3ce9060d70ea487e4fbe6ba9c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:25:12 +0000
Subject: [PATCH 27/39] fix: tensor products support norm non-linearities only
 if both factors do

---
 escnn/group/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index 0642299..40e4e98 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -947,7 +947,9 @@ def _tensor_nonlinearities(repr1: escnn.group.Representation, repr2: escnn.group
         supported_nonlinearities.append('pointwise')
         
     supported_nonlinearities.append('gated')
-    supported_nonlinearities.append('norm')
+
+    if 'norm' in repr1.supported_nonlinearities and 'norm' in repr2.supported_nonlinearities:
+        supported_nonlinearities.append('norm')
 
     if 'gate' in repr1.supported_nonlinearities and 'gate' in repr2.supported_nonlinearities:
         supported_nonlinearities.append('gate')
-- 
2.43.0


From 1650d940eaf641ca49bd459b9308104313631f2e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:45:30 +0000
Subject: [PATCH 28/39] fix: GNormBatchNorm wrote its running variance in
 evaluation mode

---
 escnn/nn/modules/batchnormalization/gnorm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index ccd6a3b..a83e850 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -274,7 +274,8 @@ class GNormBatchNorm(EquivariantModule):
                 weight = 1.
 
             # helps in case mixed precision is used
-            vars[vars < 0.] = 0.
+            # (not in-place: in evaluation mode, these are the running statistics themselves)
+            vars = vars.clamp(min=0.)
 
             # compute the scalar multipliers needed
             scales = weight / (vars + self.eps).sqrt()
-- 
2.43.0


From 9904b436c36fd838bb454beebf8cf2f2fff056e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:45:30 +0000
Subject: [PATCH 29/39] fix: reset_parameters of norm batch normalizations
 raised without affine weights

---
 escnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 escnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/induced_norm.py b/escnn/nn/modules/batchnormalization/induced_norm.py
index 81ec69f..bacc0e9 100644
--- a/escnn/nn/modules/batchnormalization/induced_norm.py
+++ b/escnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/escnn/nn/modules/batchnormalization/norm.py b/escnn/nn/modules/batchnormalization/norm.py
index 8847ca7..b261206 100644
--- a/escnn/nn/modules/batchnormalization/norm.py
+++ b/escnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.uniform_()
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From 3733d717f7b550faca36c022b1c88d1e54454e3b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:50:48 +0000
Subject: [PATCH 30/39] fix: GeometricTensor.split appended to the list of the
 caller and failed without one

---
 escnn/nn/geometric_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/geometric_tensor.py b/escnn/nn/geometric_tensor.py
index 8026225..449f7f0 100644
--- a/escnn/nn/geometric_tensor.py
+++ b/escnn/nn/geometric_tensor.py
@@ -350,9 +350,10 @@ class GeometricTensor:
             
         """
         if breaks is None:
-            breaks = list(range(len(self.type)))
+            breaks = range(1, len(self.type))
             
-        breaks.append(len(self.type))
+        # copy the list, such that the one passed by the caller is not modified
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From bd48a242daff8745c421faea63bb4ee67b22b739 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:50:48 +0000
Subject: [PATCH 31/39] fix: MergeModule and MultipleModule rewrote the list of
 modules of the caller

---
 escnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/escnn/nn/modules/merge_module.py b/escnn/nn/modules/merge_module.py
index 1e5eb48..3a7c544 100644
--- a/escnn/nn/modules/merge_module.py
+++ b/escnn/nn/modules/merge_module.py
@@ -41,6 +41,9 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        # copy the list, such that the one passed by the caller is not modified
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
-- 
2.43.0


From 1fd5a12b5843264f258aff37b9101f30d4d84d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:51 +0000
Subject: [PATCH 32/39] fix: NormBatchNorm.reset_parameters drew random weights
 instead of restoring ones

---
 escnn/nn/modules/batchnormalization/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/batchnormalization/norm.py b/escnn/nn/modules/batchnormalization/norm.py
index b261206..b88cdbc 100644
--- a/escnn/nn/modules/batchnormalization/norm.py
+++ b/escnn/nn/modules/batchnormalization/norm.py
@@ -142,7 +142,7 @@ class NormBatchNorm(EquivariantModule):
         if self.affine:
             for s in self._order:
                 weight = getattr(self, f"{s}_weight")
-                weight.data.uniform_()
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From e15a58d4b6186781f089fbe85609df74b2f9bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:11 +0000
Subject: [PATCH 33/39] fix: subgroup of a product of two non-trivial subgroups
 restricts the first component with the first factor's map

---
 escnn/group/directproduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/directproduct.py b/escnn/group/directproduct.py
index 334c94b..2e1a1b4 100644
--- a/escnn/group/directproduct.py
+++ b/escnn/group/directproduct.py
@@ -492,7 +492,7 @@ class DirectProductGroup(Group):
             return H1, inclusion_left(self, H1, parent1), restrict_left(self, H1, child1)
         else:
             H = direct_product(H1, H2)
-            return H, inclusion(self, H, parent1, parent2), restrict(self, H, child2, child2)
+            return H, inclusion(self, H, parent1, parent2), restrict(self, H, child1, child2)
 
     def _combine_subgroups(self, sg_id1, sg_id2):
         assert isinstance(sg_id1, tuple) and len(sg_id1) == 2
-- 
2.43.0


From 8536a7379b787376cf15220d4e901aa7a3f2fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:11 +0000
Subject: [PATCH 34/39] fix: Group.get_irrep_id returns the id, not the
 representation, for irreps given by name

---
 escnn/group/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index 40e4e98..4c409fb 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -864,7 +864,7 @@ class Group(ABC):
         elif isinstance(psi, str):
             psi = self.representations[psi]
             assert isinstance(psi, escnn.group.IrreducibleRepresentation)
-            return psi
+            return psi.id
         elif isinstance(psi, tuple):
             return self.irrep(*psi).id
         else:
-- 
2.43.0


From 84d242be0ba5795424bb7ed8009a7679cdecfc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:41 +0000
Subject: [PATCH 35/39] fix: reshape grouped messages to the channels of their
 output block

block_out holds groups * (fields per group) * size = out_indices[2] entries per
point; the contiguous branch multiplied that by groups once more, so
compute_messages raised for groups > 1 with more than one kind of input field.
---
 escnn/nn/modules/basismanager/basissampler_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/basismanager/basissampler_blocks.py b/escnn/nn/modules/basismanager/basissampler_blocks.py
index 44ecdc6..37fd3a2 100644
--- a/escnn/nn/modules/basismanager/basissampler_blocks.py
+++ b/escnn/nn/modules/basismanager/basissampler_blocks.py
@@ -464,7 +464,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                 block_out = self._compute_out_block(weights, _input, points, io_pair)
 
                 if self._contiguous[io_pair]:
-                    _out[:, out_indices[0]:out_indices[1]] += block_out.reshape(S, groups*out_indices[2])
+                    _out[:, out_indices[0]:out_indices[1]] += block_out.reshape(S, out_indices[2])
                 else:
                     _out[:, out_indices] += block_out.reshape(S, -1)
 
-- 
2.43.0


From 824a57bc9b1d3801606c1d3062eb45f789f2fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:41 +0000
Subject: [PATCH 36/39] fix: GNormBatchNorm applied the change of basis only to
 tensors with two spatial dimensions

---
 escnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index a83e850..4afad69 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -243,7 +243,7 @@ class GNormBatchNorm(EquivariantModule):
             
             if hasattr(self, f"{self._escape_name(name)}_change_of_basis_inv"):
                 cob_inv = getattr(self, f"{self._escape_name(name)}_change_of_basis_inv")
-                slice = torch.einsum("ds,bcsxy->bcdxy", (cob_inv, slice))
+                slice = torch.einsum("ds,bcs...->bcd...", (cob_inv, slice))
 
             if not self.track_running_stats:
                 means, vars = self._compute_statistics(slice, name)
@@ -291,7 +291,7 @@ class GNormBatchNorm(EquivariantModule):
             
             if hasattr(self, f"{self._escape_name(name)}_change_of_basis"):
                 cob = getattr(self, f"{self._escape_name(name)}_change_of_basis")
-                normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
+                normalized = torch.einsum("ds,bcs...->bcd...", (cob, normalized))
                 
             if not self._contiguous[name]:
                 output[:, indices, ...] = normalized.view(b, -1, *shape)
-- 
2.43.0


From 500b62e349ce6cc543ae9e2d3c80769c4143ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:09 +0000
Subject: [PATCH 37/39] fix: InducedGatedNonLinearity1 with drop_gates=False
 wrote the gates without merging their channels

---
 escnn/nn/modules/nonlinearities/induced_gated1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/induced_gated1.py b/escnn/nn/modules/nonlinearities/induced_gated1.py
index d8bd722..16f50a7 100644
--- a/escnn/nn/modules/nonlinearities/induced_gated1.py
+++ b/escnn/nn/modules/nonlinearities/induced_gated1.py
@@ -229,9 +229,9 @@ class InducedGatedNonLinearity1(EquivariantModule):
         if not self.drop_gates:
             # copy the gates in the output
             if self._contiguous[GATES_ID]:
-                output[:, self.gates_indices[0]:self.gates_indices[1], ...] = gates
+                output[:, self.gates_indices[0]:self.gates_indices[1], ...] = gates.view(b, -1, *spatial_dims)
             else:
-                output[:, self.gates_indices, ...] = gates
+                output[:, self.gates_indices, ...] = gates.view(b, -1, *spatial_dims)
         
         next_gate = 0
         
-- 
2.43.0


From e17db6f5da96c44118467befcc64fbda11cc1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:09 +0000
Subject: [PATCH 38/39] fix: FieldDropout in place left fields that are not
 contiguous untouched

---
 escnn/nn/modules/dropout/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/dropout/field.py b/escnn/nn/modules/dropout/field.py
index 2e6e240..ee02d6d 100644
--- a/escnn/nn/modules/dropout/field.py
+++ b/escnn/nn/modules/dropout/field.py
@@ -156,9 +156,12 @@ class FieldDropout(EquivariantModule):
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                 if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                     output[:, indices, ...] = out.view(shape)
+                else:
+                    # indexing returns a copy, so the result has to be written back
+                    input[:, indices, ...] = out.view(shape)
             
         if self.inplace:
             output = input
-- 
2.43.0


From 2546a0b76e254d44487447f721789a2c780c76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:15 +0000
Subject: [PATCH 39/39] fix: GNormBatchNorm viewed the result of an einsum,
 which need not be contiguous

---
 escnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index 4afad69..6dbd25d 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -294,9 +294,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcs...->bcd...", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, *shape)
+                output[:, indices, ...] = normalized.reshape(b, -1, *shape)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, *shape)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, *shape)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0

