From 6b61f3356034ea72cb8277a200101e214aa1be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:49 +0000
Subject: [PATCH 01/20] fix: FoldNormal samples were not folded to the
 non-negative half line

---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..8461a74 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From a1fd02693bac2d79780a30424e2854eb90ae7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:32 +0000
Subject: [PATCH 02/20] fix: samples of non-reparameterized Gamma, Beta,
 InverseGamma, Dirichlet and Poisson let gradients leak into their parameters

---
 zhusuan/distributions/multivariate.py |  3 ++-
 zhusuan/distributions/univariate.py   | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..c8567ed 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,8 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 8461a74..b2f4af4 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -732,8 +732,9 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        return tf.stop_gradient(
+            tf.random_gamma([n_samples], self.alpha,
+                            beta=self.beta, dtype=self.dtype))
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -829,7 +830,7 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -914,8 +915,9 @@ class Poisson(Distribution):
         return self.rate.get_shape()
 
     def _sample(self, n_samples):
-        samples = tf.random_poisson(self.rate, [n_samples],
-                                    dtype=self.param_dtype)
+        samples = tf.stop_gradient(
+            tf.random_poisson(self.rate, [n_samples],
+                              dtype=self.param_dtype))
         if self.param_dtype != self.dtype:
             samples = tf.cast(samples, self.dtype)
         return samples
@@ -1142,7 +1144,7 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From ed421478b2af95bd7f8c0acdbbbee3e4f6923a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:50 +0000
Subject: [PATCH 03/20] fix: BayesianNet.deterministic silently replaced an
 existing node of the same name

---
 zhusuan/framework/bn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..6c6ef42 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -380,6 +380,10 @@ class _BayesianNet(object):
 
         :return: A Tensor. The same as `input_tensor`.
         """
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
         input_tensor = tf.convert_to_tensor(input_tensor)
         self._nodes[name] = input_tensor
         return input_tensor
-- 
2.43.0


From 1d3ab01168878fff69a5874f2147aadc82d23a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:12 +0000
Subject: [PATCH 04/20] fix: MetaBayesianNet.observe failed when args or kwargs
 were left at their defaults

---
 zhusuan/framework/meta_bn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/meta_bn.py b/zhusuan/framework/meta_bn.py
index 0ffbf5a..acc5f42 100644
--- a/zhusuan/framework/meta_bn.py
+++ b/zhusuan/framework/meta_bn.py
@@ -60,8 +60,8 @@ class MetaBayesianNet(object):
                              "is not provided.")
         else:
             self._f = f
-        self._args = copy.copy(args)
-        self._kwargs = copy.copy(kwargs)
+        self._args = () if args is None else copy.copy(args)
+        self._kwargs = {} if kwargs is None else copy.copy(kwargs)
         self._scope = scope
         self._reuse_variables = reuse_variables
         self._log_joint = None
-- 
2.43.0


From 2de004bb92ebac25bdbe0f8fd6e01ba9db1443ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:13 +0000
Subject: [PATCH 05/20] fix: arithmetic with a plain number or a numpy array on
 the left of a StochasticTensor failed

---
 zhusuan/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fc77731..3be6e22 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -23,6 +23,9 @@ class TensorArithmeticMixin(object):
     inherit from this mixin class.
     """
 
+    # let numpy arrays defer to the reflected operators below
+    __array_priority__ = 100
+
     # overloading arithmetic operations
     def __abs__(self):
         return tf.abs(self)
@@ -34,19 +37,19 @@ class TensorArithmeticMixin(object):
         return tf.add(self, other)
 
     def __radd__(self, other):
-        return tf.add(other, self)
+        return other + tf.convert_to_tensor(self)
 
     def __sub__(self, other):
         return tf.subtract(self, other)
 
     def __rsub__(self, other):
-        return tf.subtract(other, self)
+        return other - tf.convert_to_tensor(self)
 
     def __mul__(self, other):
         return tf.multiply(self, other)
 
     def __rmul__(self, other):
-        return tf.multiply(other, self)
+        return other * tf.convert_to_tensor(self)
 
     def __div__(self, other):
         return tf.divide(self, other)
@@ -58,25 +61,25 @@ class TensorArithmeticMixin(object):
         return tf.truediv(self, other)
 
     def __rtruediv__(self, other):
-        return tf.truediv(other, self)
+        return other / tf.convert_to_tensor(self)
 
     def __floordiv__(self, other):
         return tf.floordiv(self, other)
 
     def __rfloordiv__(self, other):
-        return tf.floordiv(other, self)
+        return other // tf.convert_to_tensor(self)
 
     def __mod__(self, other):
         return tf.mod(self, other)
 
     def __rmod__(self, other):
-        return tf.mod(other, self)
+        return other % tf.convert_to_tensor(self)
 
     def __pow__(self, other):
         return tf.pow(self, other)
 
     def __rpow__(self, other):
-        return tf.pow(other, self)
+        return other ** tf.convert_to_tensor(self)
 
     # logical operations
     def __invert__(self):
-- 
2.43.0


From 0a359b9f5047d0ea69abb8ccffaadb76d99e367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:02 +0000
Subject: [PATCH 06/20] fix: log_mean_exp and log_sum_exp returned NaN instead
 of the infinite value when the maximum is infinite

---
 zhusuan/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index 3be6e22..4095605 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -170,6 +170,8 @@ def log_sum_exp(x, axis=None, keepdims=False):
     """
     x = tf.convert_to_tensor(x)
     x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    # avoid inf - inf when the maximum itself is infinite
+    x_max = tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
     ret = tf.log(tf.reduce_sum(tf.exp(x - x_max), axis=axis,
                                keepdims=True)) + x_max
     if not keepdims:
@@ -192,6 +194,8 @@ def log_mean_exp(x, axis=None, keepdims=False):
     """
     x = tf.convert_to_tensor(x)
     x_max = tf.reduce_max(x, axis=axis, keepdims=True)
+    # avoid inf - inf when the maximum itself is infinite
+    x_max = tf.where(tf.is_finite(x_max), x_max, tf.zeros_like(x_max))
     ret = tf.log(tf.reduce_mean(tf.exp(x - x_max), axis=axis,
                                 keepdims=True)) + x_max
     if not keepdims:
-- 
2.43.0


From b5b50785a84b093de4d49841445348033f82fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:53 +0000
Subject: [PATCH 07/20] fix: the Empirical StochasticTensor ignored its
 is_continuous argument

---
 zhusuan/legacy/framework/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/framework/stochastic.py b/zhusuan/legacy/framework/stochastic.py
index d6d9bee..78d5006 100644
--- a/zhusuan/legacy/framework/stochastic.py
+++ b/zhusuan/legacy/framework/stochastic.py
@@ -1169,7 +1169,7 @@ class Empirical(StochasticTensor):
             batch_shape,
             value_shape=value_shape,
             group_ndims=group_ndims,
-            is_continous=is_continuous,
+            is_continuous=is_continuous,
             **kwargs
         )
         super(Empirical, self).__init__(
-- 
2.43.0


From 87b18f1e611d61be8138b2b54aabce92da0a032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:37 +0000
Subject: [PATCH 08/20] fix: variational objectives accepted model latents that
 are neither observed nor given a variational posterior

---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From 48fd450e357599b7486e75dd1897bc171525f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:44 +0000
Subject: [PATCH 09/20] fix: reinforce could subtract a moving mean already
 updated with the current signal

---
 zhusuan/variational/exclusive_kl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..878f8a7 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,11 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
+            # the mean must be read before it is updated with this signal
             l_signal = l_signal - moving_mean
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From 3b83edb42e261f916d41b6cebd13bfe8df917e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:09 +0000
Subject: [PATCH 10/20] fix: reinforce with variance reduction failed for log
 joints that are not float32

---
 zhusuan/variational/exclusive_kl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index 878f8a7..c372630 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -208,7 +208,7 @@ class EvidenceLowerBoundObjective(VariationalObjective):
             bc = tf.reduce_mean(l_signal)
             # TODO: fix get variable failure for repeated calls.
             moving_mean = tf.get_variable(
-                'moving_mean', shape=[],
+                'moving_mean', shape=[], dtype=bc.dtype,
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-- 
2.43.0


From 617059c0eca6daf19a3f59ef07bd5351a9c0d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:57 +0000
Subject: [PATCH 11/20] fix: HMC with adapt_step_size fed as False replaced the
 given step size by 1

---
 zhusuan/hmc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..3a6e941 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -81,8 +81,10 @@ class StepsizeTuner:
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
+            # until the first adaptation the step size is the initial one
             self.log_epsilon_bar = tf.Variable(
-                0.0, dtype=tf.float32, name="log_epsilon_bar", trainable=False)
+                tf.log(tf.constant(initial_stepsize, dtype=tf.float32)),
+                dtype=tf.float32, name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
 
@@ -463,8 +465,12 @@ class HMC:
         if self.adapt_step_size is None:
             new_step_size = self.step_size
         else:
-            if_initialize_step_size = tf.logical_or(tf.equal(new_t, 1),
-                tf.equal(tf.cast(new_t, tf.int32), self.mass_collect_iters))
+            if_initialize_step_size = tf.logical_and(
+                self.step_size_tuner.adapt_step_size,
+                tf.logical_or(
+                    tf.equal(new_t, 1),
+                    tf.equal(tf.cast(new_t, tf.int32),
+                             self.mass_collect_iters)))
             def iss():
                 return self._init_step_size(current_q, current_p, mass,
                                             get_gradient, get_log_posterior)
-- 
2.43.0


From 724346636811350b379708e7082580806c14f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:14 +0000
Subject: [PATCH 12/20] fix: HMC could overwrite its step size while the
 trajectory of the same iteration was still using it

---
 zhusuan/hmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 3a6e941..43414cf 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -378,7 +378,9 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # The step size must not change while the trajectory still uses it.
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From d13e766756775b38effc5f75ee4f452380aaae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:02 +0000
Subject: [PATCH 13/20] fix: SGHMC and SGNHT resampled momenta at irregular
 intervals because the iteration counter was read and incremented without
 order

---
 zhusuan/sgmcmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..30db241 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,12 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        update_ops = list(update_ops)
+        # The iteration counter must not change before the updates that depend
+        # on it are done.
+        with tf.control_dependencies(update_ops):
+            update_t = self.t.assign_add(1)
+        sample_op = tf.group(update_t, *update_ops)
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From 5f3bcabc535b5ed760e72bf8555d4875200b7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:15 +0000
Subject: [PATCH 14/20] fix: SGLD and PSGLD could update one latent variable
 before the gradients of the others were taken

---
 zhusuan/sgmcmc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index 30db241..c6a8970 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -193,8 +193,11 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        grads = grad_func(qs)
+        # All gradients are taken before any latent variable is updated.
+        with tf.control_dependencies(grads):
+            return zip(*[self._update_single(q, grad)
+                         for q, grad in zip(qs, grads)])
 
     def _update_single(self, q, grad):
         new_q = q + 0.5 * self.lr * grad + tf.random_normal(
@@ -248,8 +251,11 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        grads = grad_func(qs)
+        # All gradients are taken before any latent variable is updated.
+        with tf.control_dependencies(grads):
+            return zip(*[self._update_single(q, grad, aux)
+                         for q, grad, aux in zip(qs, grads, self.vs)])
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
-- 
2.43.0


From d73e108270c825447223e9bebfd01b46d559dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:00 +0000
Subject: [PATCH 15/20] fix: HMC with step size adaptation refused a Tensor as
 step_size

---
 zhusuan/hmc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index 43414cf..5dbc590 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -76,14 +76,15 @@ class StepsizeTuner:
                                               name="kappa")
             self.delta = tf.convert_to_tensor(delta, dtype=tf.float32,
                                               name="delta")
-            self.mu = tf.constant(10 * initial_stepsize, dtype=tf.float32,
-                                  name="mu")
+            self.mu = tf.convert_to_tensor(
+                10 * initial_stepsize, dtype=tf.float32, name="mu")
 
             self.step = tf.Variable(0.0, dtype=tf.float32,
                                     name="step", trainable=False)
             # until the first adaptation the step size is the initial one
             self.log_epsilon_bar = tf.Variable(
-                tf.log(tf.constant(initial_stepsize, dtype=tf.float32)),
+                tf.log(tf.convert_to_tensor(
+                    initial_stepsize, dtype=tf.float32)),
                 dtype=tf.float32, name="log_epsilon_bar", trainable=False)
             self.h_bar = tf.Variable(0.0, dtype=tf.float32,
                                      name="h_bar", trainable=False)
-- 
2.43.0


From 74210296cdb44b79b979f0e2c3976b86b5c58f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:22 +0000
Subject: [PATCH 16/20] fix: planar normalizing flow overflowed for parameters
 with a large inner product

---
 zhusuan/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 6563333..1354910 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -161,7 +161,7 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
             dot_prod = tf.matmul(param_w, aux_u, transpose_a=True)
             param_u = aux_u + param_w / tf.matmul(param_w, param_w,
                                                   transpose_a=True) \
-                * (tf.log(tf.exp(dot_prod) + 1) - 1 - dot_prod)
+                * (tf.nn.softplus(dot_prod) - 1 - dot_prod)
             param_u = tf.transpose(param_u, name='param_u_%d' % iter)
             param_bs.append(param_b)
             param_ws.append(param_w)
-- 
2.43.0


From 346f95dd6b6c86c08bbe6b6f429d3c9f348b9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:41 +0000
Subject: [PATCH 17/20] fix: VIMCO gave wrong gradients or failed for a
 negative sample axis

---
 zhusuan/variational/monte_carlo.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zhusuan/variational/monte_carlo.py b/zhusuan/variational/monte_carlo.py
index 1d88262..d711318 100644
--- a/zhusuan/variational/monte_carlo.py
+++ b/zhusuan/variational/monte_carlo.py
@@ -186,8 +186,10 @@ class ImportanceWeightedObjective(VariationalObjective):
         # check size along the sample axis
         err_msg = "VIMCO is a multi-sample gradient estimator, size along " \
                   "`axis` in the objective should be larger than 1."
-        if l_signal.get_shape()[self._axis:self._axis + 1].is_fully_defined():
-            if l_signal.get_shape()[self._axis].value < 2:
+        static_shape = l_signal.get_shape()
+        if static_shape.ndims is not None and \
+                static_shape[self._axis].value is not None:
+            if static_shape[self._axis].value < 2:
                 raise ValueError(err_msg)
         _assert_size_along_axis = tf.assert_greater_equal(
             tf.shape(l_signal)[self._axis], 2, message=err_msg)
@@ -201,9 +203,10 @@ class ImportanceWeightedObjective(VariationalObjective):
         x, sub_x = l_signal, mean_except_signal
 
         n_dim = tf.rank(x)
-        axis_dim_mask = tf.cast(tf.one_hot(self._axis, n_dim), tf.bool)
+        axis = tf.floormod(self._axis, n_dim)
+        axis_dim_mask = tf.cast(tf.one_hot(axis, n_dim), tf.bool)
         original_mask = tf.cast(tf.one_hot(n_dim - 1, n_dim), tf.bool)
-        axis_dim = tf.ones([n_dim], tf.int32) * self._axis
+        axis_dim = tf.ones([n_dim], tf.int32) * axis
         originals = tf.ones([n_dim], tf.int32) * (n_dim - 1)
         perm = tf.where(original_mask, axis_dim, tf.range(n_dim))
         perm = tf.where(axis_dim_mask, originals, perm)
-- 
2.43.0


From 879b17e5bb2097d3c7d3440aaad24f76a011f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 18/20] fix: Implicit.log_prob applied group_ndims twice

---
 zhusuan/legacy/distributions/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index 066df50..cf682cc 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -159,7 +159,7 @@ class Implicit(Distribution):
         return tf.expand_dims(self.samples, 0)
 
     def _log_prob(self, given):
-        return tf.log(self.prob(given))
+        return tf.log(self._prob(given))
 
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
-- 
2.43.0


From d2f6d4d8d03f7e11a55ed703f1d87b6c3b778e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 19/20] fix: Implicit.prob was -inf (log_prob NaN) instead of 0
 away from the samples

---
 zhusuan/legacy/distributions/special.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/legacy/distributions/special.py b/zhusuan/legacy/distributions/special.py
index cf682cc..4599f3a 100644
--- a/zhusuan/legacy/distributions/special.py
+++ b/zhusuan/legacy/distributions/special.py
@@ -164,8 +164,8 @@ class Implicit(Distribution):
     def _prob(self, given):
         prob = tf.equal(given, self.samples)
         if self.is_continuous:
-            prob = tf.cast(prob, self.param_dtype)
+            zeros = tf.zeros_like(prob, dtype=self.param_dtype)
             inf_dtype = tf.cast(inf, self.param_dtype)
-            return (2 * prob - 1) * inf_dtype
+            return tf.where(prob, zeros + inf_dtype, zeros)
         else:
             return tf.cast(prob, tf.float32)
-- 
2.43.0


From 36eafda0e818906280719d920c33de24612d4283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:40 +0000
Subject: [PATCH 20/20] fix: auxiliary variables of the SGMCMC samplers were
 trainable

---
 zhusuan/sgmcmc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index c6a8970..0f7fef7 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -230,7 +230,7 @@ class PSGLD(SGLD):
 
         @staticmethod
         def _define_variables(qs):
-            return [tf.Variable(tf.zeros_like(q)) for q in qs]
+            return [tf.Variable(tf.zeros_like(q), trainable=False) for q in qs]
 
         @staticmethod
         def _get_preconditioner(hps, q, grad, aux):
@@ -330,7 +330,8 @@ class SGHMC(SGMCMC):
     def _define_variables(self, qs):
         # Define the augmented momentum variables.
         self.vs = [
-            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)))
+            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)),
+                        trainable=False)
             for q in qs]
 
     def _update(self, qs, grad_func):
@@ -458,14 +459,16 @@ class SGNHT(SGMCMC):
     def _define_variables(self, qs):
         # Define the augmented momentum variables.
         self.vs = [
-            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)))
+            tf.Variable(tf.random_normal(tf.shape(q), stddev=tf.sqrt(self.lr)),
+                        trainable=False)
             for q in qs]
         # Define the augmented friction variables.
         if self.use_vector_alpha:
-            self.alphas = [tf.Variable(self.a*tf.ones(tf.shape(q)))
+            self.alphas = [tf.Variable(self.a*tf.ones(tf.shape(q)),
+                                       trainable=False)
                            for q in qs]
         else:
-            self.alphas = [tf.Variable(self.a) for q in qs]
+            self.alphas = [tf.Variable(self.a, trainable=False) for q in qs]
 
     def _update(self, qs, grad_func):
         def resample_momentum(v):
-- 
2.43.0

