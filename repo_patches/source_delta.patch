From 4d3e5c7b7c98043d00d73073fff886f846d54dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:29 +0000
Subject: [PATCH 01/16] fix: FoldNormal samples are folded at zero

---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 3c0bf87..8461a74 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -309,7 +309,8 @@ class FoldNormal(Distribution):
             mean = tf.stop_gradient(mean)
             std = tf.stop_gradient(std)
         shape = tf.concat([[n_samples], self.batch_shape], 0)
-        samples = tf.random_normal(shape, dtype=self.dtype) * std + mean
+        samples = tf.abs(
+            tf.random_normal(shape, dtype=self.dtype) * std + mean)
         static_n_samples = n_samples if isinstance(n_samples, int) else None
         samples.set_shape(
             tf.TensorShape([static_n_samples]).concatenate(
-- 
2.43.0


From ba0858e5d6a1337902ce886de71e2bdbe81cf536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:03 +0000
Subject: [PATCH 02/16] fix: samples of non-reparameterized gamma-based
 distributions carry no gradient

Gamma, Beta, InverseGamma and Dirichlet declare is_reparameterized=False, but
tf.random_gamma has a registered gradient, so tf.gradients() of their samples
with respect to the parameters was not None.
---
 zhusuan/distributions/multivariate.py |  4 +++-
 zhusuan/distributions/univariate.py   | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/zhusuan/distributions/multivariate.py b/zhusuan/distributions/multivariate.py
index a3a5a46..a249775 100644
--- a/zhusuan/distributions/multivariate.py
+++ b/zhusuan/distributions/multivariate.py
@@ -660,7 +660,9 @@ class Dirichlet(Distribution):
     def _sample(self, n_samples):
         samples = tf.random_gamma([n_samples], self.alpha,
                                   beta=1, dtype=self.dtype)
-        return samples / tf.reduce_sum(samples, -1, keepdims=True)
+        # is_reparameterized is False
+        return tf.stop_gradient(
+            samples / tf.reduce_sum(samples, -1, keepdims=True))
 
     def _log_prob(self, given):
         given, alpha = maybe_explicit_broadcast(
diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index 8461a74..f3b173b 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -732,8 +732,10 @@ class Gamma(Distribution):
                                          self.beta.get_shape())
 
     def _sample(self, n_samples):
-        return tf.random_gamma([n_samples], self.alpha,
-                               beta=self.beta, dtype=self.dtype)
+        samples = tf.random_gamma([n_samples], self.alpha,
+                                  beta=self.beta, dtype=self.dtype)
+        # is_reparameterized is False
+        return tf.stop_gradient(samples)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
@@ -829,7 +831,8 @@ class Beta(Distribution):
             self.alpha, self.beta, 'alpha', 'beta')
         x = tf.random_gamma([n_samples], alpha, beta=1, dtype=self.dtype)
         y = tf.random_gamma([n_samples], beta, beta=1, dtype=self.dtype)
-        return x / (x + y)
+        # is_reparameterized is False
+        return tf.stop_gradient(x / (x + y))
 
     def _log_prob(self, given):
         # TODO: not right when given=0 or 1
@@ -1142,7 +1145,8 @@ class InverseGamma(Distribution):
     def _sample(self, n_samples):
         gamma = tf.random_gamma([n_samples], self.alpha,
                                 beta=self.beta, dtype=self.dtype)
-        return 1 / gamma
+        # is_reparameterized is False
+        return tf.stop_gradient(1 / gamma)
 
     def _log_prob(self, given):
         alpha, beta = self.alpha, self.beta
-- 
2.43.0


From b0bb43a3b64b245189ceb692eda31f0111d00bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:50 +0000
Subject: [PATCH 03/16] fix: gradients of float-valued Poisson samples do not
 fail

tf.gradients() of a Poisson sample with a floating dtype raised LookupError
(no gradient defined for RandomPoissonV2) instead of carrying no gradient.
---
 zhusuan/distributions/univariate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zhusuan/distributions/univariate.py b/zhusuan/distributions/univariate.py
index f3b173b..7386c79 100644
--- a/zhusuan/distributions/univariate.py
+++ b/zhusuan/distributions/univariate.py
@@ -921,7 +921,8 @@ class Poisson(Distribution):
                                     dtype=self.param_dtype)
         if self.param_dtype != self.dtype:
             samples = tf.cast(samples, self.dtype)
-        return samples
+        # tf.random_poisson has no gradient defined
+        return tf.stop_gradient(samples)
 
     def _log_prob(self, given):
         rate = self.rate
-- 
2.43.0


From 4c461d5747f1a7608e4670d945c77170b5b0983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:53 +0000
Subject: [PATCH 04/16] fix: BayesianNet.deterministic() silently replaced an
 existing node

---
 zhusuan/framework/bn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 3fdeb1b..1a8ae04 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -381,6 +381,10 @@ class _BayesianNet(object):
         :return: A Tensor. The same as `input_tensor`.
         """
         input_tensor = tf.convert_to_tensor(input_tensor)
+        if name in self._nodes:
+            raise ValueError(
+                "There exists a node with name '{}' in the {}. Names should "
+                "be unique.".format(name, BayesianNet.__name__))
         self._nodes[name] = input_tensor
         return input_tensor
 
-- 
2.43.0


From a0107ffce393b9e1c4fc1bf1959b8ae89ee2d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:17 +0000
Subject: [PATCH 05/16] fix: old-style nodes could replace a node and left
 log_joint stale

---
 zhusuan/framework/bn.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zhusuan/framework/bn.py b/zhusuan/framework/bn.py
index 1a8ae04..69f5508 100644
--- a/zhusuan/framework/bn.py
+++ b/zhusuan/framework/bn.py
@@ -66,6 +66,7 @@ class StochasticTensor(TensorArithmeticMixin):
     """
 
     def __init__(self, bn, name, dist, observation=None, **kwargs):
+        register = False
         if bn is None:
             warnings.warn(
                 "The old-style StochasticTensor wrappers will be removed "
@@ -77,7 +78,11 @@ class StochasticTensor(TensorArithmeticMixin):
             except RuntimeError:
                 pass
             else:
-                bn.nodes[name] = self
+                if name in bn.nodes:
+                    raise ValueError(
+                        "There exists a node with name '{}' in the {}. Names "
+                        "should be unique.".format(name, BayesianNet.__name__))
+                register = True
 
         self._bn = bn
         self._name = name
@@ -91,6 +96,11 @@ class StochasticTensor(TensorArithmeticMixin):
                 self._bn._observed[name])
         else:
             self._observation = None
+        if register:
+            # invalidate the log joint cache
+            if hasattr(bn, "_log_joint_cache"):
+                del bn._log_joint_cache
+            bn.nodes[name] = self
         super(StochasticTensor, self).__init__()
 
     def _check_observation(self, observation):
-- 
2.43.0


From c3205c8f5cdd03b8bba10fc6774fceb7654fd925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:04 +0000
Subject: [PATCH 06/16] fix: MetaBayesianNet without args or kwargs could not
 be observed

---
 zhusuan/framework/meta_bn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zhusuan/framework/meta_bn.py b/zhusuan/framework/meta_bn.py
index 0ffbf5a..cf709da 100644
--- a/zhusuan/framework/meta_bn.py
+++ b/zhusuan/framework/meta_bn.py
@@ -60,8 +60,8 @@ class MetaBayesianNet(object):
                              "is not provided.")
         else:
             self._f = f
-        self._args = copy.copy(args)
-        self._kwargs = copy.copy(kwargs)
+        self._args = copy.copy(args) if args is not None else ()
+        self._kwargs = copy.copy(kwargs) if kwargs is not None else {}
         self._scope = scope
         self._reuse_variables = reuse_variables
         self._log_joint = None
-- 
2.43.0


From 8832d21635ca8e34f93eda44d17a7db7bda56966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:04 +0000
Subject: [PATCH 07/16] fix: old-style Empirical node dropped is_continuous

---
 zhusuan/legacy/framework/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/legacy/framework/stochastic.py b/zhusuan/legacy/framework/stochastic.py
index d6d9bee..78d5006 100644
--- a/zhusuan/legacy/framework/stochastic.py
+++ b/zhusuan/legacy/framework/stochastic.py
@@ -1169,7 +1169,7 @@ class Empirical(StochasticTensor):
             batch_shape,
             value_shape=value_shape,
             group_ndims=group_ndims,
-            is_continous=is_continuous,
+            is_continuous=is_continuous,
             **kwargs
         )
         super(Empirical, self).__init__(
-- 
2.43.0


From cef727a7a97752dd96d272ad045f9e06a6216d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:41 +0000
Subject: [PATCH 08/16] fix: numpy array on the left of a stochastic tensor
 operator

---
 zhusuan/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index fc77731..943391b 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -23,6 +23,10 @@ class TensorArithmeticMixin(object):
     inherit from this mixin class.
     """
 
+    # let numpy arrays on the left defer to the reflected operators below
+    # (as `tf.Tensor` does) instead of building an array of Tensors
+    __array_priority__ = 100
+
     # overloading arithmetic operations
     def __abs__(self):
         return tf.abs(self)
-- 
2.43.0


From 93ce918a156d68c1fe7d2e7c3392d0dcbed15376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:47 +0000
Subject: [PATCH 09/16] fix: Python number on the left of a stochastic tensor
 operator

---
 zhusuan/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zhusuan/utils.py b/zhusuan/utils.py
index 943391b..5de396c 100644
--- a/zhusuan/utils.py
+++ b/zhusuan/utils.py
@@ -38,19 +38,19 @@ class TensorArithmeticMixin(object):
         return tf.add(self, other)
 
     def __radd__(self, other):
-        return tf.add(other, self)
+        return other + tf.convert_to_tensor(self)
 
     def __sub__(self, other):
         return tf.subtract(self, other)
 
     def __rsub__(self, other):
-        return tf.subtract(other, self)
+        return other - tf.convert_to_tensor(self)
 
     def __mul__(self, other):
         return tf.multiply(self, other)
 
     def __rmul__(self, other):
-        return tf.multiply(other, self)
+        return other * tf.convert_to_tensor(self)
 
     def __div__(self, other):
         return tf.divide(self, other)
@@ -62,25 +62,25 @@ class TensorArithmeticMixin(object):
         return tf.truediv(self, other)
 
     def __rtruediv__(self, other):
-        return tf.truediv(other, self)
+        return other / tf.convert_to_tensor(self)
 
     def __floordiv__(self, other):
         return tf.floordiv(self, other)
 
     def __rfloordiv__(self, other):
-        return tf.floordiv(other, self)
+        return other // tf.convert_to_tensor(self)
 
     def __mod__(self, other):
         return tf.mod(self, other)
 
     def __rmod__(self, other):
-        return tf.mod(other, self)
+        return other % tf.convert_to_tensor(self)
 
     def __pow__(self, other):
         return tf.pow(self, other)
 
     def __rpow__(self, other):
-        return tf.pow(other, self)
+        return other ** tf.convert_to_tensor(self)
 
     # logical operations
     def __invert__(self):
-- 
2.43.0


From 14b749bd2eabc724ae95f3a9c67fd7793ff38ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:21 +0000
Subject: [PATCH 10/16] fix: reject model latents that have no variational
 posterior

_validate_variational_inputs iterated over the names of the nodes, so the
check never fired and the bound was evaluated at a prior sample.
---
 zhusuan/variational/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zhusuan/variational/base.py b/zhusuan/variational/base.py
index 44dc7d2..659c013 100644
--- a/zhusuan/variational/base.py
+++ b/zhusuan/variational/base.py
@@ -89,7 +89,7 @@ class VariationalObjective(TensorArithmeticMixin):
         self._observed = copy.copy(observed)
 
     def _validate_variational_inputs(self, bn):
-        for node in bn.nodes:
+        for node in six.itervalues(bn.nodes):
             if isinstance(node, StochasticTensor) and (not node.is_observed()):
                 raise ValueError(
                     "Stochastic node '{}' in the model is neither "
-- 
2.43.0


From 0cf8131ab2497b73258e0d9b8bdf89274f8501a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 11/16] fix: SGLD/PSGLD must not overwrite a latent another
 gradient still reads

With several latent variables the gradient of each depends on all of them,
but every assignment was ordered only after its own new value, so a
schedule could compute a gradient at a mixture of old and new positions.
---
 zhusuan/sgmcmc.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index dfcccfd..295eda2 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -189,15 +189,21 @@ class SGLD(SGMCMC):
         pass
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad)
-                     for q, grad in zip(qs, grad_func(qs))])
+        new_qs, infos = zip(*[self._update_single(q, grad)
+                              for q, grad in zip(qs, grad_func(qs))])
+        return self._assign_all(qs, new_qs), infos
+
+    def _assign_all(self, qs, new_qs):
+        # The gradients depend on all latent variables, so none of them may be
+        # overwritten before all the new values have been computed.
+        with tf.control_dependencies(new_qs):
+            return [q.assign(new_q) for q, new_q in zip(qs, new_qs)]
 
     def _update_single(self, q, grad):
         new_q = q + 0.5 * self.lr * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr))
-        update_q = q.assign(new_q)
         info = {"q": new_q}
-        return update_q, info
+        return new_q, info
 
 
 class PSGLD(SGLD):
@@ -244,17 +250,18 @@ class PSGLD(SGLD):
         self.vs = self.preconditioner._define_variables(qs)
 
     def _update(self, qs, grad_func):
-        return zip(*[self._update_single(q, grad, aux)
-                     for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        new_qs, infos = zip(*[
+            self._update_single(q, grad, aux)
+            for q, grad, aux in zip(qs, grad_func(qs), self.vs)])
+        return self._assign_all(qs, new_qs), infos
 
     def _update_single(self, q, grad, aux):
         g = self.preconditioner._get_preconditioner(
             self.preconditioner_hparams, q, grad, aux)
         new_q = q + 0.5 * self.lr * g * grad + tf.random_normal(
             tf.shape(q), stddev=tf.sqrt(self.lr * g))
-        update_q = q.assign(new_q)
         info = {"q": new_q}
-        return update_q, info
+        return new_q, info
 
 
 class SGHMC(SGMCMC):
-- 
2.43.0


From 2c074ffc333b2dfd8df8a41644a77793446ca990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 12/16] fix: advance the SGMCMC counter only after the update
 has read it

The increment was unordered with the test that decides whether momenta are
resampled in this iteration.
---
 zhusuan/sgmcmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/sgmcmc.py b/zhusuan/sgmcmc.py
index 295eda2..ec1d555 100644
--- a/zhusuan/sgmcmc.py
+++ b/zhusuan/sgmcmc.py
@@ -104,8 +104,9 @@ class SGMCMC(object):
         self._define_variables(qs)
         update_ops, infos = self._update(qs, grad_func)
 
-        with tf.control_dependencies([self.t.assign_add(1)]):
-            sample_op = tf.group(*update_ops)
+        # The update may read the counter, so it is advanced only afterwards.
+        with tf.control_dependencies(list(update_ops)):
+            sample_op = tf.group(self.t.assign_add(1))
         list_attrib = zip(*map(lambda d: six.itervalues(d), infos))
         list_attrib_with_k = map(lambda l: dict(zip(self._latent_k, l)),
                                  list_attrib)
-- 
2.43.0


From 185a50692eb34eaa0b2a4358af01ed33bc09acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 13/16] fix: HMC must not replace the step size while leapfrog
 steps read it

When adaptation is fed False the assignment depended only on the averaged
step size, so it could run in the middle of the leapfrog loop.
---
 zhusuan/hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zhusuan/hmc.py b/zhusuan/hmc.py
index cfcee4c..1fc4e37 100644
--- a/zhusuan/hmc.py
+++ b/zhusuan/hmc.py
@@ -376,7 +376,10 @@ class HMC:
         new_step_size = self.step_size_tuner.tune(
             tf.reduce_mean(acceptance_rate),
             tf.cast(if_initialize_step_size, tf.float32))
-        update_step_size = tf.assign(self.step_size, new_step_size)
+        # Without adaptation the new step size does not depend on this
+        # iteration, whose leapfrog steps may still be reading the old one.
+        with tf.control_dependencies([acceptance_rate]):
+            update_step_size = tf.assign(self.step_size, new_step_size)
         return tf.stop_gradient(update_step_size)
 
     def sample(self, meta_bn, observed, latent):
-- 
2.43.0


From c3e1e4e2e5a0574c1cf7a447eccb4f9d28d7e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 14/16] fix: reinforce() subtracts the moving mean from before
 its update

The subtraction and the update of the moving mean were unordered, so the
learning signal used either value depending on the schedule.
---
 zhusuan/variational/exclusive_kl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zhusuan/variational/exclusive_kl.py b/zhusuan/variational/exclusive_kl.py
index d2eceb1..b7ef822 100644
--- a/zhusuan/variational/exclusive_kl.py
+++ b/zhusuan/variational/exclusive_kl.py
@@ -212,9 +212,10 @@ class EvidenceLowerBoundObjective(VariationalObjective):
                 initializer=tf.constant_initializer(0.),
                 trainable=False)
 
-            update_mean = moving_averages.assign_moving_average(
-                moving_mean, bc, decay=decay)
             l_signal = l_signal - moving_mean
+            with tf.control_dependencies([l_signal]):
+                update_mean = moving_averages.assign_moving_average(
+                    moving_mean, bc, decay=decay)
             with tf.control_dependencies([update_mean]):
                 l_signal = tf.identity(l_signal)
 
-- 
2.43.0


From 19d6d9c4ac5c96dfe8c2921d10ec1d8c76b9e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:54 +0000
Subject: [PATCH 15/16] fix: reject rank-0 log_probs and samples in the
 normalizing flows

The static rank checks treated rank 0 as unknown, and the dynamic rank
check was only attached to log_probs, so a scalar log_probs was accepted
whenever only the transformed samples were used.
---
 zhusuan/transform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zhusuan/transform.py b/zhusuan/transform.py
index 6563333..d49cce7 100644
--- a/zhusuan/transform.py
+++ b/zhusuan/transform.py
@@ -99,9 +99,9 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
     static_logprob_shape = log_probs.get_shape()
     static_sample_ndim = convert_to_int(static_sample_shape.ndims)
     static_logprob_ndim = convert_to_int(static_logprob_shape.ndims)
-    if static_sample_ndim and static_sample_ndim <= 1:
+    if static_sample_ndim is not None and static_sample_ndim <= 1:
         raise ValueError('samples should have rank >= 2')
-    if static_sample_ndim and static_logprob_ndim \
+    if static_sample_ndim is not None and static_logprob_ndim is not None \
             and static_sample_ndim != static_logprob_ndim + 1:
         raise ValueError('log_probs should have rank (N-1), while N is the '
                          'rank of samples')
@@ -126,6 +126,7 @@ def planar_normalizing_flow(samples, log_probs, n_iters):
                         message='log_probs should have rank (N-1), while N is'
                                 ' the rank of samples')
     with tf.control_dependencies([_assert_logprob_ndim]):
+        samples = tf.identity(samples)
         log_probs = tf.identity(log_probs)
     _assert_same_shape = \
         tf.assert_equal(dynamic_sample_shape[:-1], dynamic_logprob_shape,
@@ -235,9 +236,9 @@ def inv_autoregressive_flow(samples, hidden, log_probs, autoregressive_nn,
     static_logprob_shape = log_probs.get_shape()
     static_sample_ndim = convert_to_int(static_sample_shape.ndims)
     static_logprob_ndim = convert_to_int(static_logprob_shape.ndims)
-    if static_sample_ndim and static_sample_ndim <= 1:
+    if static_sample_ndim is not None and static_sample_ndim <= 1:
         raise ValueError('samples should have rank >= 2')
-    if static_sample_ndim and static_logprob_ndim \
+    if static_sample_ndim is not None and static_logprob_ndim is not None \
             and static_sample_ndim != static_logprob_ndim + 1:
         raise ValueError('log_probs should have rank (N-1), while N is the '
                          'rank of samples')
@@ -262,6 +263,7 @@ def inv_autoregressive_flow(samples, hidden, log_probs, autoregressive_nn,
                         message='log_probs should have rank (N-1), while N is'
                                 ' the rank of samples')
     with tf.control_dependencies([_assert_logprob_ndim]):
+        samples = tf.identity(samples)
         log_probs = tf.identity(log_probs)
     _assert_same_shape = \
         tf.assert_equal(dynamic_sample_shape[:-1], dynamic_logprob_shape,
-- 
2.43.0


From 8c854a60f7b01d008cf296a0a2dab2cc9ac2dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:47 +0000
Subject: [PATCH 16/16] fix: VIMCO with a negative sample axis

The permutation that moves the sample axis to the end was built from one_hot(axis), which is all
zeros for a negative axis, and the static size check read an empty slice for axis=-1.
---
 zhusuan/variational/monte_carlo.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zhusuan/variational/monte_carlo.py b/zhusuan/variational/monte_carlo.py
index 1d88262..3d58ac0 100644
--- a/zhusuan/variational/monte_carlo.py
+++ b/zhusuan/variational/monte_carlo.py
@@ -186,8 +186,9 @@ class ImportanceWeightedObjective(VariationalObjective):
         # check size along the sample axis
         err_msg = "VIMCO is a multi-sample gradient estimator, size along " \
                   "`axis` in the objective should be larger than 1."
-        if l_signal.get_shape()[self._axis:self._axis + 1].is_fully_defined():
-            if l_signal.get_shape()[self._axis].value < 2:
+        if l_signal.get_shape().ndims is not None:
+            size_along_axis = l_signal.get_shape()[self._axis].value
+            if size_along_axis is not None and size_along_axis < 2:
                 raise ValueError(err_msg)
         _assert_size_along_axis = tf.assert_greater_equal(
             tf.shape(l_signal)[self._axis], 2, message=err_msg)
@@ -201,9 +202,10 @@ class ImportanceWeightedObjective(VariationalObjective):
         x, sub_x = l_signal, mean_except_signal
 
         n_dim = tf.rank(x)
-        axis_dim_mask = tf.cast(tf.one_hot(self._axis, n_dim), tf.bool)
+        axis = self._axis if self._axis >= 0 else n_dim + self._axis
+        axis_dim_mask = tf.cast(tf.one_hot(axis, n_dim), tf.bool)
         original_mask = tf.cast(tf.one_hot(n_dim - 1, n_dim), tf.bool)
-        axis_dim = tf.ones([n_dim], tf.int32) * self._axis
+        axis_dim = tf.ones([n_dim], tf.int32) * axis
         originals = tf.ones([n_dim], tf.int32) * (n_dim - 1)
         perm = tf.where(original_mask, axis_dim, tf.range(n_dim))
         perm = tf.where(axis_dim_mask, originals, perm)
-- 
2.43.0

