From e4872b1d3b506c6e7c84f2a0e4201b7137f67c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 01/35] fix: use the prior's rate in the gamma-Poisson
 conjugate posterior

---
 aemcmc/conjugates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2c2617f..51b2417 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -52,7 +52,11 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, 1)
+    # The last parameter in a gamma graph is the scale, i.e. `1 / beta`, while
+    # the one taken by the gamma's user-level constructor is the rate
+    new_beta_et = etuple(
+        etuplize(at.add), etuple(etuplize(at.reciprocal), beta_lv), 1
+    )
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
-- 
2.43.0


From 79bc074a77dcc6c2042eb8b163c96863eac54c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 02/35] fix: pass scales instead of rates to the exponentials
 in the horseshoe kernel

---
 aemcmc/gibbs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57743eb..f1af0eb 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -241,11 +241,14 @@ def horseshoe_posterior(
     lmbda2_inv = at.reciprocal(lambda2)
     tau2_inv = at.reciprocal(tau2)
 
-    upsilon_inv = srng.exponential(1 + lmbda2_inv)
-    zeta_inv = srng.exponential(1 + tau2_inv)
+    # `RandomStream.exponential` takes a scale parameter
+    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))
+    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))
 
     beta2 = beta**2
-    lambda2_inv_new = srng.exponential(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    lambda2_inv_new = srng.exponential(
+        at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    )
     tau2_inv_new = srng.gamma(
         0.5 * (beta.shape[0] + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
-- 
2.43.0


From c8356c6fb2742fd0278b410f19cec7a080ddeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 03/35] fix: add prior precisions, not inverse std. devs., to
 the regression posterior

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index f1af0eb..5ac1f00 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -45,7 +45,7 @@ def normal_regression_overdetermined_posterior(
     indices = at.arange(Q.shape[1])
     Q = at.subtensor.set_subtensor(
         Q[indices, indices],
-        at.diag(Q) + lmbdatau_inv,
+        at.diag(Q) + lmbdatau_inv**2,
     )
     return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)
 
@@ -64,7 +64,7 @@ def normal_regression_underdetermined_posterior(
     See `update_beta` for a description of the parameters and return value.
 
     """
-    return multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)
+    return multivariate_normal_cong2017(srng, lmbdatau_inv**2, omega, X, z)
 
 
 def normal_regression_posterior(
-- 
2.43.0


From eda5637d889a99ac1eb823c391efe83dc981a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 04/35] fix: pair the dispersion kernel's RNGs with their own
 updates

---
 aemcmc/gibbs.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 5ac1f00..af09cd4 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -632,21 +632,18 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
     # Build the `Op` corresponding to the sampling step
-    update_outputs = [h_posterior.owner.inputs[0].default_update]
-    update_outputs.extend(updates.values())
+    h_rng = h_posterior.owner.inputs[0]
+    updates = {h_rng: h_rng.default_update, **updates}
 
-    outputs = [h_posterior] + update_outputs
+    outputs = [h_posterior] + list(updates.values())
     inputs = remove_constants([h, p, a, b, y])
     gibbs = DispersionGibbsKernel(inputs, outputs)
 
     h_posterior = gibbs(*inputs)
     h_posterior.name = f"{h.name or 'h'}_posterior"
 
-    updates_offset = len(inputs)
-    updates = {
-        h_posterior.owner.inputs[updates_offset]: h_posterior.owner.outputs[1],
-        h_posterior.owner.inputs[updates_offset + 1]: h_posterior.owner.outputs[2],
-    }
+    # The outputs following the first one are the updates for the RNGs
+    updates = dict(zip(updates.keys(), h_posterior.owner.outputs[1:]))
 
     res.append((h, h_posterior, updates))
 
-- 
2.43.0


From ac32ee22eee560785cee8895ece8b6383cdb7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 05/35] fix: do not use conjugate posteriors for broadcasted or
 shared latents

---
 aemcmc/conjugates.py | 33 +++++++++++++++++++++++++++++++++
 aemcmc/utils.py      | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 51b2417..c7762a4 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -11,9 +11,30 @@ from kanren import eq, lall, run
 from unification import var
 
 from aemcmc.rewriting import sampler_finder, sampler_finder_db
+from aemcmc.utils import get_rv_dependents
 
 if TYPE_CHECKING:
+    from aesara.graph.basic import Apply
+    from aesara.graph.fg import FunctionGraph
     from aesara.tensor.random.utils import RandomStream
+    from aesara.tensor.var import TensorVariable
+
+
+def is_elementwise_model(
+    fgraph: "FunctionGraph", node: "Apply", prior_rv: "TensorVariable"
+) -> bool:
+    """Determine if `node` is the only observation model for `prior_rv`.
+
+    The conjugate relations below combine each element in `prior_rv` with exactly
+    one observation, so they do not apply when `prior_rv` is broadcasted or used
+    by other measurable variables.
+
+    """
+    prior_idx = len(node.inputs) - 1
+    return (
+        prior_rv.type.broadcastable == node.outputs[1].type.broadcastable
+        and get_rv_dependents(fgraph, prior_rv) == {(node, prior_idx)}
+    )
 
 
 def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_expr):
@@ -86,6 +107,10 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     gamma_rv = rv_et[-1].evaled_obj
+
+    if not is_elementwise_model(fgraph, node, gamma_rv):
+        return None
+
     gamma_posterior = eval_if_etuple(res)
 
     return [(gamma_rv, gamma_posterior, None)]
@@ -160,6 +185,10 @@ def local_beta_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not is_elementwise_model(fgraph, node, beta_rv):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
@@ -237,6 +266,10 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not is_elementwise_model(fgraph, node, beta_rv):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index de295ec..b43a6f2 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -1,9 +1,11 @@
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Dict, Optional, Tuple
+from typing import TYPE_CHECKING, Dict, Optional, Set, Tuple
 
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Constant, Variable, ancestors
+from aesara.graph.basic import Apply, Constant, Variable, ancestors
+from aesara.graph.fg import FunctionGraph
 from aesara.tensor import as_tensor_variable
+from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.type import RandomType
 from aesara.tensor.var import TensorVariable
 
@@ -80,6 +82,34 @@ def remove_constants(inputs):
     return res
 
 
+def get_rv_dependents(fgraph: FunctionGraph, rv: Variable) -> Set[Tuple[Apply, int]]:
+    r"""Get the `RandomVariable` nodes in `fgraph` that directly depend on `rv`.
+
+    Returns
+    -------
+    The dependent nodes, each paired with the index of an input through which it
+    depends on `rv` without any other `RandomVariable`\s in between.
+
+    """
+    res = set()
+    seen = {rv}
+    to_visit = [rv]
+
+    while to_visit:
+        for client, idx in fgraph.clients[to_visit.pop()]:
+            if not isinstance(client, Apply):
+                # This is an `fgraph` output
+                continue
+            if isinstance(client.op, RandomVariable):
+                res.add((client, idx))
+            else:
+                new_vars = [out for out in client.outputs if out not in seen]
+                seen.update(new_vars)
+                to_visit.extend(new_vars)
+
+    return res
+
+
 def get_rv_updates(
     srng: "RandomStream", *rvs: TensorVariable
 ) -> Dict[SharedVariable, "Variable"]:
-- 
2.43.0


From ac04e1e6c043e0ef154233618f5aeb1927422770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 06/35] fix: require a constant -1 in the logistic regression
 patterns

---
 aemcmc/gibbs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index af09cd4..1ddafca 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -2,7 +2,8 @@ from typing import List, Mapping, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
-from aesara.graph.basic import Variable
+import numpy as np
+from aesara.graph.basic import Constant, Variable
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
@@ -318,6 +319,13 @@ X_lv = var()
 beta_lv = var()
 neg_one_lv = var()
 
+
+def is_constant_equal(x, value) -> bool:
+    """Determine if `x` is a constant with elements that are all equal to `value`."""
+    x = eval_if_etuple(x)
+    return isinstance(x, Constant) and bool(np.all(x.data == value))
+
+
 sigmoid_dot_pattern = etuple(
     etuplize(at.sigmoid),
     etuple(etuplize(at.mul), neg_one_lv, etuple(etuple(Dot), X_lv, beta_lv)),
@@ -354,7 +362,7 @@ def nbinom_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a negative binomial regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant_equal(s[neg_one_lv], -1):
         raise ValueError(
             "Not a negative binomial regression. The argument to "
             + "the sigmoid must be minus the dot product."
@@ -667,7 +675,7 @@ def bern_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a Bernoulli regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant_equal(s[neg_one_lv], -1):
         raise ValueError(
             "Not a Bernoulli regression. The argument to the sigmoid "
             + "must be minus the dot product."
-- 
2.43.0


From 1f9e997c83b4ec643389dd956546779492cf6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 07/35] fix: broadcast the prior std. dev. against the
 regression coefficients

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 1ddafca..6ce9c5c 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -552,7 +552,7 @@ def nbinom_normal_posterior(srng, beta, beta_std, X, h, y):
     w = srng.gen(polyagamma, y + h, X @ beta)
     z = 0.5 * (y - h) / w
 
-    tau_beta = at.reciprocal(beta_std)
+    tau_beta = at.broadcast_to(at.reciprocal(beta_std), beta.shape)
 
     beta_posterior = normal_regression_posterior(srng, w, tau_beta, X, z)
 
@@ -732,7 +732,7 @@ def bern_normal_posterior(
     w = srng.gen(polyagamma, 1, X @ beta)
     z = (y - 0.5) / w
 
-    tau_beta = at.reciprocal(beta_std)
+    tau_beta = at.broadcast_to(at.reciprocal(beta_std), beta.shape)
 
     beta_posterior = normal_regression_posterior(srng, w, tau_beta, X, z)
 
-- 
2.43.0


From fd8d1362c2e849ea0c30ddb755edd006313f1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 08/35] fix: check all the conditions required by the horseshoe
 and logistic regression kernels

---
 aemcmc/gibbs.py | 73 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 9 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 6ce9c5c..be690a1 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -3,7 +3,8 @@ from typing import List, Mapping, Optional, Tuple
 import aesara
 import aesara.tensor as at
 import numpy as np
-from aesara.graph.basic import Constant, Variable
+from aesara.graph.basic import Apply, Constant, Variable, ancestors
+from aesara.graph.fg import FunctionGraph
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
@@ -22,7 +23,7 @@ from aemcmc.dists import (
 )
 from aemcmc.rewriting import sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
-from aemcmc.utils import remove_constants
+from aemcmc.utils import get_rv_dependents, remove_constants
 
 gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
@@ -132,6 +133,12 @@ def normal_regression_posterior(
     return beta_posterior
 
 
+def is_constant_equal(x, value) -> bool:
+    """Determine if `x` is a constant with elements that are all equal to `value`."""
+    x = eval_if_etuple(x)
+    return isinstance(x, Constant) and bool(np.all(x.data == value))
+
+
 halfcauchy_1_lv, halfcauchy_2_lv = var(), var()
 zero_lv = var()
 horseshoe_pattern = etuple(
@@ -151,6 +158,9 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
     if s is False:
         raise ValueError("Not a horseshoe prior.")
 
+    if not is_constant_equal(s[zero_lv], 0):
+        raise ValueError("Not a horseshoe prior. The mean must be zero.")
+
     halfcauchy_1 = eval_if_etuple(s[halfcauchy_1_lv])
     if halfcauchy_1.owner is None or not isinstance(
         halfcauchy_1.owner.op, type(at.random.halfcauchy)
@@ -170,6 +180,14 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model is not half-Cauchy distributed."
         )
 
+    for halfcauchy in (halfcauchy_1, halfcauchy_2):
+        loc, scale = halfcauchy.owner.inputs[3:]
+        if not (is_constant_equal(loc, 0) and is_constant_equal(scale, 1)):
+            raise ValueError(
+                "Not a horseshoe prior. The shrinkage parameters must be "
+                + "standard half-Cauchy distributed."
+            )
+
     if halfcauchy_1.type.ndim == 0 or all(s == 1 for s in halfcauchy_1.type.shape):
         lmbda_rv = halfcauchy_2
         tau_rv = halfcauchy_1
@@ -294,6 +312,18 @@ def normal_horseshoe_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    # The conditionals below assume one local shrinkage parameter per regression
+    # coefficient, and that neither parameter is used anywhere else.
+    if (
+        rv_var.type.ndim != 1
+        or lambda_rv.type.broadcastable != rv_var.type.broadcastable
+        or any(
+            get_rv_dependents(fgraph, shrinkage_rv) != {(node, 4)}
+            for shrinkage_rv in (lambda_rv, tau_rv)
+        )
+    ):
+        return None
+
     tau2 = tau_rv**2
     lambda2 = lambda_rv**2
     lambda_posterior, tau_posterior = horseshoe_posterior(
@@ -319,18 +349,34 @@ X_lv = var()
 beta_lv = var()
 neg_one_lv = var()
 
-
-def is_constant_equal(x, value) -> bool:
-    """Determine if `x` is a constant with elements that are all equal to `value`."""
-    x = eval_if_etuple(x)
-    return isinstance(x, Constant) and bool(np.all(x.data == value))
-
-
 sigmoid_dot_pattern = etuple(
     etuplize(at.sigmoid),
     etuple(etuplize(at.mul), neg_one_lv, etuple(etuple(Dot), X_lv, beta_lv)),
 )
 
+
+def is_logistic_regression(
+    fgraph: FunctionGraph, node: Apply, X: TensorVariable, beta_rv: TensorVariable
+) -> bool:
+    """Determine if the match for `node` is a regression on centered normals.
+
+    The Gibbs kernels below assume that `beta_rv` is a vector of independent
+    normals with zero means that is not used by any other measurable variable.
+
+    """
+    p_idx = len(node.inputs) - 1
+    return (
+        beta_rv.owner is not None
+        and isinstance(beta_rv.owner.op, NormalRV)
+        and is_constant_equal(beta_rv.owner.inputs[3], 0)
+        and beta_rv.type.ndim == 1
+        and X.type.ndim == 2
+        and node.outputs[1].type.ndim == 1
+        and beta_rv not in ancestors([X])
+        and get_rv_dependents(fgraph, beta_rv) == {(node, p_idx)}
+    )
+
+
 a_lv = var()
 b_lv = var()
 gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_lv)
@@ -614,6 +660,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_logistic_regression(fgraph, node, X, beta_rv):
+        return None
+
     beta_std = beta_rv.owner.inputs[4]
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
@@ -635,6 +684,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return res
 
+    if h.type.ndim != 0 or get_rv_dependents(fgraph, h) != {(node, 3)}:
+        return res
+
     p = at.sigmoid(-X @ beta_posterior)
 
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
@@ -759,6 +811,9 @@ def bern_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
+    if not is_logistic_regression(fgraph, node, X, beta_rv):
+        return None
+
     beta_std = beta_rv.owner.inputs[4]
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
 
-- 
2.43.0


From f23f81e692bb841702c719368e3bca538f7f44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 09/35] fix: condition the dispersion step on the current
 regression coefficients

---
 aemcmc/gibbs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index be690a1..d53cee3 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -687,7 +687,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     if h.type.ndim != 0 or get_rv_dependents(fgraph, h) != {(node, 3)}:
         return res
 
-    p = at.sigmoid(-X @ beta_posterior)
+    # This uses the current value of `beta_rv`, whatever determines it (e.g. the
+    # sample step above or an observation)
+    p = at.sigmoid(-X @ beta_rv)
 
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
-- 
2.43.0


From 1d73a05a9c5461de0ba130c9956d302523325673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 10/35] fix: accept the OpFromGraph arguments used to clone
 sampling steps

---
 aemcmc/types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index 67a05d6..2fbe4c5 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -16,8 +16,15 @@ class SamplingStep(OpFromGraph):
 
     """
 
-    def __init__(self, inputs: List[TensorVariable], outputs: List[TensorVariable]):
-        super().__init__(inputs, outputs, inline=True)
+    def __init__(
+        self,
+        inputs: List[TensorVariable],
+        outputs: List[TensorVariable],
+        inline: bool = True,
+        **kwargs,
+    ):
+        # The additional arguments are provided when the `Op` is cloned
+        super().__init__(inputs, outputs, inline=inline, **kwargs)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 96cd2fba48331bbbc06218c4b0187b1cfce44c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 11/35] fix: pair the shared variables in NUTS steps with their
 own updates

---
 aemcmc/nuts.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 90a7b82..6e709df 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -165,11 +165,9 @@ def construct_sampler(
     posterior = nuts_op(*inputs)
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
-    updates_input = posterior[0].owner.inputs[len(inputs) :]
-    updates_output = posterior[len(results) :]
-    updates = {
-        updates_input[i]: update_out for i, update_out in enumerate(updates_output)
-    }
+    # The outputs that follow the samples are the new values of the updated
+    # shared variables
+    updates = dict(zip(updates.keys(), posterior[len(results) :]))
 
     return results, updates, {nuts_op: parameters}
 
-- 
2.43.0


From 00befdc08c3d3eb0354a11a1bbab47e3e2da597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 12/35] fix: use the values of other random variables in NUTS
 transforms

---
 aemcmc/nuts.py | 64 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 6e709df..59b0fbf 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
@@ -12,7 +12,13 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, graph_inputs
+from aesara.graph.basic import (
+    Apply,
+    Variable,
+    clone_get_equiv,
+    graph_inputs,
+    io_toposort,
+)
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -85,8 +91,12 @@ def step(
     # when the support of each random variable's distribution is unconstrained. Get
     # the default transform that corresponds to each random variable.
     transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
+
+    # The transforms can depend on other random variables (e.g. through the bounds
+    # of a uniform), in which case they need to use the values of those variables.
+    rvs_to_values = {**realized_rvs_to_values, **to_sample_rvs}
     transformed_values = [
-        transform_forward(rv, vv, transforms[rv])
+        transform_forward(rv, vv, transforms[rv], rvs_to_values)
         for rv, vv in zip(to_sample_rvs, initial_values)
     ]
 
@@ -133,10 +143,18 @@ def step(
     # values back to the original space.
     (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
     transformed_params = rp_map.unravel_params(new_q)
-    results = {
-        rv: transform_backward(rv, transformed_params[pv], transforms[rv])
-        for rv, pv in zip(to_sample_rvs, placeholder_values)
-    }
+    placeholders = dict(zip(to_sample_rvs, placeholder_values))
+    rvs_to_new_values = dict(realized_rvs_to_values)
+    for node in io_toposort([], to_sample_rvs.keys()):
+        for rv in node.outputs:
+            if rv in placeholders:
+                rvs_to_new_values[rv] = transform_backward(
+                    rv,
+                    transformed_params[placeholders[rv]],
+                    transforms[rv],
+                    rvs_to_new_values,
+                )
+    results = {rv: rvs_to_new_values[rv] for rv in to_sample_rvs}
 
     return (
         results,
@@ -181,10 +199,29 @@ def get_transform(rv: TensorVariable):
         return None
 
 
-def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def realize_rv_inputs(
+    rv: TensorVariable, rvs_to_values: Optional[Dict[TensorVariable, TensorVariable]]
+) -> List[Variable]:
+    """Get the inputs of a random variable in terms of other random variables' values."""
+    memo = clone_get_equiv(
+        [],
+        rv.owner.inputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(rvs_to_values or {}),
+    )
+    return [memo[i] for i in rv.owner.inputs]
+
+
+def transform_forward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Optional[Dict[TensorVariable, TensorVariable]] = None,
+):
     """Push variables to the transformed space."""
     if transform:
-        res = transform.forward(vv, *rv.owner.inputs)
+        res = transform.forward(vv, *realize_rv_inputs(rv, rvs_to_values))
         if vv.name:
             res.name = f"{vv.name}_trans"
         return res
@@ -192,10 +229,15 @@ def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTrans
         return vv
 
 
-def transform_backward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def transform_backward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Optional[Dict[TensorVariable, TensorVariable]] = None,
+):
     """Pull variables back from the transformed space."""
     if transform:
-        res = transform.backward(vv, *rv.owner.inputs)
+        res = transform.backward(vv, *realize_rv_inputs(rv, rvs_to_values))
         return res
     else:
         return vv
-- 
2.43.0


From 744be6fa6eeaa4ffb4be8f784022feb47f92d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 13/35] fix: use a deterministic order for the variables
 sampled by NUTS

---
 aemcmc/basic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 701fc3d..06d573d 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,4 +1,4 @@
-from typing import Dict, Tuple
+from typing import Dict, List, Tuple
 
 from aesara.graph.basic import Apply, Variable
 from aesara.graph.fg import FunctionGraph
@@ -54,7 +54,8 @@ def construct_sampler(
     posterior_updates: Dict[Variable, Variable] = {}
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
-    rvs_without_samplers = set()
+    # This order determines the layout of the NUTS parameters
+    rvs_without_samplers: List[TensorVariable] = []
 
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
@@ -63,7 +64,7 @@ def construct_sampler(
         rv_steps = discovered_samplers.get(rv)
 
         if not rv_steps:
-            rvs_without_samplers.add(rv)
+            rvs_without_samplers.append(rv)
             continue
 
         # TODO FIXME: Just choosing one for now, but we should consider them all.
@@ -103,9 +104,7 @@ def construct_sampler(
 
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
-        to_sample_rvs = {
-            rv: posterior_sample_steps[rv] for rv in list(rvs_without_samplers)
-        }
+        to_sample_rvs = {rv: posterior_sample_steps[rv] for rv in rvs_without_samplers}
         realized_values = {
             rv: vv
             for rv, vv in posterior_sample_steps.items()
-- 
2.43.0


From 4678fb977702330bd3992469c8a2df00e99e8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 14/35] fix: skip RNGs that are not shared variables in
 get_rv_updates

---
 aemcmc/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index b43a6f2..fb73b68 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -6,7 +6,6 @@ from aesara.graph.basic import Apply, Constant, Variable, ancestors
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor import as_tensor_variable
 from aesara.tensor.random.op import RandomVariable
-from aesara.tensor.random.type import RandomType
 from aesara.tensor.var import TensorVariable
 
 if TYPE_CHECKING:
@@ -137,7 +136,7 @@ def get_rv_updates(
     rv_updates = {}
 
     for var in ancestors(rvs):
-        if not isinstance(var, SharedVariable) and not isinstance(var.type, RandomType):
+        if not isinstance(var, SharedVariable):
             continue
 
         # TODO: Consider making sure the updates correspond to "in-place"
-- 
2.43.0


From e8f3d5c18e824f879520397d8990b54bf9364db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 15/35] fix: draw one standard variate per element in the
 location-scale relation

---
 aemcmc/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index 106d586..69db344 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -58,8 +58,10 @@ def location_scale_transform(in_expr, out_expr):
             sd_lv,
             etuple(
                 distribution_lv,
-                0,
-                1,
+                # These make sure that there's one draw per element when the
+                # size is implied by the parameters
+                etuple(at.zeros_like, mu_lv),
+                etuple(at.ones_like, sd_lv),
                 rng=rng_lv,
                 size=size_lv,
                 dtype=type_idx_lv,
-- 
2.43.0


From d942192d6be548a75b04fd4187c0e9c6af6de3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 16/35] fix: support shared variables in sampling steps and
 subsumption rewrites

---
 aemcmc/rewriting.py | 6 ++++++
 aemcmc/utils.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 73ab76e..70429dc 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
+from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
@@ -356,6 +357,11 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     if not found_subsumable_ds:
         return None  # pragma: no cover
 
+    if any(isinstance(i, SharedVariable) for i in new_inputs):
+        # `SubsumingElemwise`s do not keep their shared variable inputs, so they
+        # couldn't be expanded
+        return None
+
     assert len(subsumed_inputs) == len(node.inputs)
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index fb73b68..edc9162 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -72,10 +72,15 @@ class ModelInfo:
 
 
 def remove_constants(inputs):
+    r"""Remove the inputs that `OpFromGraph`\s determine on their own.
+
+    In other words, `Constant`\s and `SharedVariable`\s.
+
+    """
     res = []
     for inp in inputs:
         inp_t = as_tensor_variable(inp)
-        if not isinstance(inp_t, Constant):
+        if not isinstance(inp_t, (Constant, SharedVariable)):
             res.append(inp_t)
 
     return res
-- 
2.43.0


From e4010de24a98fa622f9d5d0cdeedfaa10832e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 17/35] fix: reject horseshoe priors with additional constant
 factors

---
 aemcmc/gibbs.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index d53cee3..38ff8d5 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -21,7 +21,7 @@ from aemcmc.dists import (
     multivariate_normal_rue2005,
     polyagamma,
 )
-from aemcmc.rewriting import sampler_finder, sampler_finder_db
+from aemcmc.rewriting import SubsumingElemwise, sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
 from aemcmc.utils import get_rv_dependents, remove_constants
 
@@ -158,6 +158,16 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
     if s is False:
         raise ValueError("Not a horseshoe prior.")
 
+    # The constants in subsumed `Elemwise`s aren't present in `graph_et`
+    std_node = graph.owner.inputs[4].owner
+    if isinstance(std_node.op, SubsumingElemwise):
+        std_node = std_node.op.inner_outputs[0].owner
+    if len(std_node.inputs) != 2:
+        raise ValueError(
+            "Not a horseshoe prior. The std. dev. must be the product of exactly "
+            + "two shrinkage parameters."
+        )
+
     if not is_constant_equal(s[zero_lv], 0):
         raise ValueError("Not a horseshoe prior. The mean must be zero.")
 
-- 
2.43.0


From ca2890a8c83081e22ab518ee1b0f3e13cf76b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 18/35] fix: do not copy random variables when expanding
 subsumed elemwise graphs

---
 aemcmc/rewriting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 70429dc..c9a884a 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -6,7 +6,7 @@ from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
+from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -391,11 +391,17 @@ def inline_SubsumingElemwise(fgraph, node):
     if not op.is_inline:
         return False  # pragma: no cover
 
-    res = clone_replace(
-        op.inner_outputs, {u: v for u, v in zip(op.inner_inputs, node.inputs)}
+    # The new inputs must not be cloned; otherwise, the resulting graph would use
+    # copies of the random variables it contains
+    memo = clone_get_equiv(
+        op.inner_inputs,
+        op.inner_outputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(zip(op.inner_inputs, node.inputs)),
     )
 
-    return res
+    return [memo[out] for out in op.inner_outputs]
 
 
 expand_subsumptions = in2out(inline_SubsumingElemwise)
-- 
2.43.0


From 4376f90e16f4e900950a76bcf6e26e467b784777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 19/35] fix: keep the constants in subsumed elemwise graphs
 during canonicalization

---
 aemcmc/rewriting.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index c9a884a..76c13a4 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -12,6 +12,7 @@ from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
 from aesara.graph.rewriting.basic import in2out, node_rewriter
 from aesara.graph.rewriting.db import SequenceDB
+from aesara.scalar import ScalarOp
 from aesara.tensor.elemwise import DimShuffle, Elemwise
 from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.utils import RandomStream
@@ -177,6 +178,16 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     return decorator
 
 
+class SubsumedScalarOp(ScalarOp):
+    """A scalar `Op` for which some of the arguments are no longer available."""
+
+    __props__ = ("scalar_op",)
+
+    def __init__(self, scalar_op: ScalarOp):
+        super().__init__(name=str(scalar_op))
+        self.scalar_op = scalar_op
+
+
 class SubsumingElemwise(OpFromGraph, Elemwise):
     r"""A class representing an `Elemwise` with `DimShuffle`\ed arguments."""
 
@@ -184,6 +195,10 @@ class SubsumingElemwise(OpFromGraph, Elemwise):
         # TODO: Mock the `Elemwise` interface just enough for our purposes
         self.elemwise_op = outputs[0].owner.op
         self.scalar_op = self.elemwise_op.scalar_op
+        if len(inputs) != len(outputs[0].owner.inputs):
+            # Some inputs are missing (e.g. constants), so this isn't the scalar
+            # `Op` applied to `inputs` and it can't be rewritten as such
+            self.scalar_op = SubsumedScalarOp(self.scalar_op)
         self.nfunc_spec = self.elemwise_op.nfunc_spec
         self.inplace_pattern = self.elemwise_op.inplace_pattern
         # self.destroy_map = self.elemwise_op.destroy_map
-- 
2.43.0


From 15ac05863eb8d27d2d0fbc44900f57c2ebe5cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 20/35] fix: accept symbolic transition matrices in ffbs_step

---
 aemcmc/ffbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 6c33bf9..9d5a2b5 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -64,6 +64,7 @@ def ffbs_step(
     """
 
     gamma_0 = at.as_tensor(gamma_0)
+    Gammas = at.as_tensor(Gammas)
     log_lik = at.as_tensor(log_lik)
 
     # Number of observations
@@ -78,7 +79,7 @@ def ffbs_step(
 
     # Make sure we have a transition matrix for each element in a state
     # sequence
-    Gammas = at.broadcast_to(Gammas, (N,) + Gammas.shape[-2:])
+    Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-- 
2.43.0


From 8b481ac5f0b9394c119fa9403608cb67b24d1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 21/35] fix: keep the ffbs_step forward probabilities from
 underflowing

---
 aemcmc/ffbs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 9d5a2b5..940c6b4 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -2,6 +2,7 @@ from typing import Mapping, Tuple
 
 import aesara
 import aesara.tensor as at
+import numpy as np
 from aesara.tensor.random import RandomStream
 from aesara.tensor.var import TensorVariable
 
@@ -83,11 +84,15 @@ def ffbs_step(
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-        lik_n = at.exp(log_lik_n - log_lik_n.max())
-        alpha_n = at.dot(alpha_nm1, Gamma_n) * lik_n
+        prior_n = at.dot(alpha_nm1, Gamma_n)
+        # States that cannot be reached must not determine the scale of the
+        # likelihoods, since the ones of all the other states could underflow
+        log_lik_max = at.switch(at.gt(prior_n, 0), log_lik_n, -np.inf).max()
+        lik_n = at.exp(at.minimum(log_lik_n - log_lik_max, 0))
+        alpha_n = prior_n * lik_n
         alpha_n_sum = at.sum(alpha_n, axis=-1)
         rescaled_alpha_n = at.switch(
-            at.lt(alpha_n_sum, lower_prec_bound), alpha_n / lower_prec_bound, alpha_n
+            at.lt(alpha_n_sum, lower_prec_bound), alpha_n / alpha_n_sum, alpha_n
         )
         return rescaled_alpha_n
 
-- 
2.43.0


From 72f34566a44ea63939090308bea3c9d64a01bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 22/35] fix: use the sign of the matched link in the Bernoulli
 regression step

The step is built for models with success probability sigmoid(-X @ beta), but
bern_normal_posterior samples the posterior under sigmoid(X @ beta).
---
 aemcmc/gibbs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 38ff8d5..fe4daf6 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -827,7 +827,9 @@ def bern_logistic_finder(fgraph, node, srng):
         return None
 
     beta_std = beta_rv.owner.inputs[4]
-    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
+    # `bern_normal_posterior` assumes that the success probability is
+    # `at.sigmoid(X @ beta)`, while the one matched here is `at.sigmoid(-X @ beta)`
+    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-- 
2.43.0


From 84493a30a09b44c8b6d2c81b909426a22060528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 23/35] fix: do not fail on dispersions that are not random
 variables

gamma_match raised a TypeError for constant and free dispersions, so the whole
negative-binomial regression finder failed (with a logged rewrite error).
---
 aemcmc/gibbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index fe4daf6..ac40b86 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -393,6 +393,10 @@ gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_l
 
 
 def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        # `etuplize` does not support constants and other root variables
+        raise ValueError("Not a gamma prior.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, gamma_pattern)
     if s is False:
-- 
2.43.0


From 56c782cd45417cc24cd7923518b78699c0047140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 24/35] fix: do not differentiate through the sampling steps

---
 aemcmc/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index 2fbe4c5..6ea3358 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -26,6 +26,11 @@ class SamplingStep(OpFromGraph):
         # The additional arguments are provided when the `Op` is cloned
         super().__init__(inputs, outputs, inline=inline, **kwargs)
 
+    def connection_pattern(self, node):
+        # The samples (and the updated RNG states) are never differentiated with
+        # respect to the inputs, and it might not even be possible to do so.
+        return [[False for _ in node.outputs] for _ in node.inputs]
+
 
 @dataclass(frozen=True)
 class Sampler:
-- 
2.43.0


From 27190fff12c0520a705608d3b16ef68d7cefafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 25/35] fix: return the unchanged RNG when ffbs_step has no
 backward steps

---
 aemcmc/ffbs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 940c6b4..3d1367f 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -3,6 +3,7 @@ from typing import Mapping, Tuple
 import aesara
 import aesara.tensor as at
 import numpy as np
+from aesara.ifelse import ifelse
 from aesara.tensor.random import RandomStream
 from aesara.tensor.var import TensorVariable
 
@@ -130,6 +131,12 @@ def ffbs_step(
         name="backward-pass",
     )
 
+    # `Scan` doesn't provide updated RNGs when it doesn't perform any steps
+    updates = {
+        rng: ifelse(at.gt(N, 1), updated_rng, rng)
+        for rng, updated_rng in updates.items()
+    }
+
     state_samples_rev = at.join(
         0, at.atleast_Nd(state_np1, n=state_samples_rev.type.ndim), state_samples_rev
     )
-- 
2.43.0


From 0c18842f4ca9ceaf1d255be7c029419c518a68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 26/35] fix: put the NUTS steps last in the scan order

---
 aemcmc/basic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 06d573d..1d8de47 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -114,7 +114,12 @@ def construct_sampler(
             srng, to_sample_rvs, realized_values
         )
 
-        posterior_sample_steps.update(nuts_sample_steps)
+        # These steps use the values produced by all the other steps, so they come
+        # last in the scan order
+        for rv, nuts_step in nuts_sample_steps.items():
+            del posterior_sample_steps[rv]
+            posterior_sample_steps[rv] = nuts_step
+
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
-- 
2.43.0


From 6e40e55c8416373040a658f1363b44a88fb24265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 27/35] fix: keep the other sampling steps out of the loops of
 NUTS steps

---
 aemcmc/nuts.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 59b0fbf..ceb755a 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -168,7 +168,18 @@ def construct_sampler(
     to_sample_rvs: Dict[RandomVariable, TensorVariable],
     realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
 ) -> Tuple[Dict[RandomVariable, TensorVariable], Dict, Dict[Apply, TensorVariable]]:
-    results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_values)
+    # The realized values can be the results of other sampling steps.  Those must
+    # be inputs of the NUTS step; otherwise, they would become part of the `Scan`s
+    # it contains and be sampled anew in each iteration.
+    realized_rvs_to_inputs = {
+        rv: vv if vv.owner is None else vv.clone()
+        for rv, vv in realized_rvs_to_values.items()
+    }
+    inputs_to_values = {
+        realized_rvs_to_inputs[rv]: vv for rv, vv in realized_rvs_to_values.items()
+    }
+
+    results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_inputs)
 
     # Build an `Op` that represents the NUTS sampling step
     update_outputs = list(updates.values())
@@ -180,7 +191,7 @@ def construct_sampler(
     ]
     nuts_op = NUTSKernel(inputs, outputs)
 
-    posterior = nuts_op(*inputs)
+    posterior = nuts_op(*[inputs_to_values.get(i, i) for i in inputs])
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
     # The outputs that follow the samples are the new values of the updated
-- 
2.43.0


From 7f92f2900b40dbaff214949028cd85ee62486e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 28/35] fix: use the newest values in all sampling steps

---
 aemcmc/basic.py | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 1d8de47..f15b48a 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,7 +1,8 @@
-from typing import Dict, List, Tuple
+from typing import Dict, List, Set, Tuple
 
-from aesara.graph.basic import Apply, Variable
+from aesara.graph.basic import Apply, Variable, ancestors, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
+from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.var import TensorVariable
 
@@ -12,7 +13,45 @@ from aemcmc.rewriting import (
     expand_subsumptions,
     sampler_rewrites_db,
 )
-from aemcmc.types import Sampler
+from aemcmc.types import Sampler, SamplingStep
+
+
+def replace_step_inputs(
+    sfgraph: FunctionGraph, rvs_to_values: Dict[TensorVariable, TensorVariable]
+):
+    r"""Replace the random variables used by the sampling step in `sfgraph` with their values.
+
+    The nodes that draw the new values are changed in-place, because the updates of
+    their RNGs refer to them.  Everything else the step uses can be shared with
+    other steps and the model itself, for which the values in `rvs_to_values` can
+    be different, so those graphs need to be copied.
+
+    """
+    step_nodes: Set[Apply] = set()
+
+    for node in sfgraph.toposort():
+        if any(out in rvs_to_values for out in node.outputs):
+            continue
+
+        if isinstance(node.op, (RandomVariable, SamplingStep)) or any(
+            inp.owner in step_nodes for inp in node.inputs
+        ):
+            step_nodes.add(node)
+
+            for i, inp in enumerate(node.inputs):
+                if inp.owner in step_nodes or rvs_to_values.keys().isdisjoint(
+                    ancestors([inp])
+                ):
+                    continue
+
+                memo = clone_get_equiv(
+                    [],
+                    [inp],
+                    copy_inputs=False,
+                    copy_orphans=False,
+                    memo=dict(rvs_to_values),
+                )
+                sfgraph.change_node_input(node, i, memo[inp], import_missing=True)
 
 
 def construct_sampler(
@@ -84,7 +123,7 @@ def construct_sampler(
         )
 
         # Update the other sampled random variables in this step's graph
-        sfgraph.replace_all(list(posterior_sample_steps.items()), import_missing=True)
+        replace_step_inputs(sfgraph, posterior_sample_steps)
 
         expand_subsumptions.rewrite(sfgraph)
 
-- 
2.43.0


From 7d59b607964dfc864af1bfbed9e174edde97ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 29/35] fix: do not use joint steps when some of their
 variables are observed

---
 aemcmc/basic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index f15b48a..7d82063 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -96,11 +96,23 @@ def construct_sampler(
     # This order determines the layout of the NUTS parameters
     rvs_without_samplers: List[TensorVariable] = []
 
+    # Steps that jointly update multiple variables aren't valid when some of those
+    # variables are observed
+    observed_step_nodes = {
+        step.owner
+        for rv in obs_rvs_to_values
+        for _, step, _ in discovered_samplers.get(rv, ())
+    }
+
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
             continue
 
-        rv_steps = discovered_samplers.get(rv)
+        rv_steps = [
+            step_info
+            for step_info in discovered_samplers.get(rv, ())
+            if step_info[1].owner not in observed_step_nodes
+        ]
 
         if not rv_steps:
             rvs_without_samplers.append(rv)
-- 
2.43.0


From 8ae6667727b2566522b6c75d04bed30dd5ab2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 30/35] fix: use copies of the random variables to construct
 the NUTS density

---
 aemcmc/nuts.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index ceb755a..b5a5534 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -104,10 +104,18 @@ def step(
     # of the realized variables. The placeholder nodes are defined in the
     # transformed space and will be replaced by their actual value when building
     # the NUTS kernel.
+    #
+    # `joint_logprob` changes the graphs of the random variables in-place, and we
+    # still need them for the backward transforms, so it's given copies.
+    rv_copies = clone_get_equiv(
+        [], list(rvs_to_values), copy_inputs=False, copy_orphans=False
+    )
     logprob, placeholder_values = joint_logprob(
-        *to_sample_rvs.keys(),
-        realized=realized_rvs_to_values,
-        extra_rewrites=TransformValuesRewrite(transforms),
+        *(rv_copies[rv] for rv in to_sample_rvs),
+        realized={rv_copies[rv]: vv for rv, vv in realized_rvs_to_values.items()},
+        extra_rewrites=TransformValuesRewrite(
+            {rv_copies[rv]: transform for rv, transform in transforms.items()}
+        ),
     )
 
     # Algorithms in `AeHMC` work with flat arrays so we need to ravel parameter
-- 
2.43.0


From 3ba8af198b02418f0f66cd036f8052d8b275c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 31/35] fix: keep the default updates of the model's shared
 variables

---
 aemcmc/basic.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 7d82063..2885898 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,6 +1,13 @@
 from typing import Dict, List, Set, Tuple
 
-from aesara.graph.basic import Apply, Variable, ancestors, clone_get_equiv
+from aesara.compile.sharedvalue import SharedVariable
+from aesara.graph.basic import (
+    Apply,
+    Variable,
+    ancestors,
+    clone_get_equiv,
+    graph_inputs,
+)
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.utils import RandomStream
@@ -72,6 +79,14 @@ def construct_sampler(
     any updates generated by the sampler steps.
     """
 
+    # The `OpFromGraph`s constructed below replace the default updates of the shared
+    # variables they use, so those of the model need to be restored
+    default_updates = {
+        var: var.default_update
+        for var in graph_inputs([*obs_rvs_to_values.keys(), *obs_rvs_to_values.values()])
+        if isinstance(var, SharedVariable)
+    }
+
     fgraph, obs_rvs_to_values, memo, new_to_old_rvs = construct_ir_fgraph(
         obs_rvs_to_values
     )
@@ -174,6 +189,9 @@ def construct_sampler(
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
+    for var, default_update in default_updates.items():
+        var.default_update = default_update
+
     sampling_steps = {
         new_to_old_rvs[rv]: step
         for rv, step in posterior_sample_steps.items()
-- 
2.43.0


From 5129db0fb54e09f72a19afe7dac9bd5768dd5860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 32/35] fix: keep the types of the coefficients in the logistic
 regression steps

---
 aemcmc/gibbs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index ac40b86..b8e3875 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -616,7 +616,8 @@ def nbinom_normal_posterior(srng, beta, beta_std, X, h, y):
 
     beta_posterior = normal_regression_posterior(srng, w, tau_beta, X, z)
 
-    return beta_posterior
+    # The integer-valued observations can upcast the result
+    return at.cast(beta_posterior, beta.dtype)
 
 
 class NBRegressionGibbsKernel(SamplingStep):
@@ -804,7 +805,8 @@ def bern_normal_posterior(
 
     beta_posterior = normal_regression_posterior(srng, w, tau_beta, X, z)
 
-    return beta_posterior
+    # The integer-valued observations can upcast the result
+    return at.cast(beta_posterior, beta.dtype)
 
 
 class BernoulliRegressionGibbsKernel(SamplingStep):
-- 
2.43.0


From dca840f615e9d999cfc1af4100a1270813545846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 33/35] fix: apply SubsumingElemwise to inputs of other types

Rewrites like local_dimshuffle_lift treat a SubsumingElemwise as an Elemwise
and apply it to transposed inputs.  The inner graph kept the types of the
original inputs, so the inputs were specified to have the original shapes,
and models like normal((x - 1).T, 1) with a column x failed when they were
evaluated.
---
 aemcmc/rewriting.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 76c13a4..891acd7 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -6,7 +6,13 @@ from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
+from aesara.graph.basic import (
+    Apply,
+    Variable,
+    clone_get_equiv,
+    clone_replace,
+    io_toposort,
+)
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -212,6 +218,21 @@ class SubsumingElemwise(OpFromGraph, Elemwise):
         # the originals...
         used_inputs = remove_constants(inputs)
 
+        if any(
+            not inner_inp.type.is_super(inp.type)
+            for inner_inp, inp in zip(self.inner_inputs, used_inputs)
+        ):
+            # Rewrites treat this as an `Elemwise` and apply it to inputs of other
+            # types (e.g. transposed ones)
+            new_inputs = [inp.type() for inp in used_inputs]
+            new_outputs = clone_replace(
+                self.inner_outputs,
+                dict(zip(self.inner_inputs, new_inputs)),
+                rebuild_strict=False,
+            )
+            new_op = type(self)(new_inputs, new_outputs, inline=self.is_inline)
+            return new_op.make_node(*used_inputs)
+
         # The user interface doesn't expect the shared variable inputs of the
         # inner-graph, but, since `Op.make_node` does (and `Op.__call__`
         # dispatches to `Op.make_node`), we need to compensate here
-- 
2.43.0


From 900ccbd099c7ace541c50a98ebc00d4bbffb56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 34/35] fix: reject model descriptions in which random
 variables share a value variable

The inverse map of such a description silently lost all but one of the random
variables.
---
 aemcmc/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index edc9162..50ffad5 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -39,6 +39,9 @@ class ModelInfo:
             "values_to_rvs", {v: k for k, v in self.rvs_to_values.items()}
         )
 
+        if len(self.values_to_rvs) != len(self.rvs_to_values):
+            raise ValueError("Random variables must have distinct value variables")
+
         all_rvs = set(self.observed_rvs)
         all_rvs.update(self.rvs_to_values.keys())
 
-- 
2.43.0


From bab7a4024099b7528b263ad33e6b6f9abce54b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 35/35] fix: draw Polya-Gamma variates with large tilts
 accurately

The package that draws them is wrong for large tilts (e.g. the mean of PG(1, -200)
is off, and so are larger shapes with tilts above 28), where the distribution
is numerically equal to an inverse Gaussian.
---
 aemcmc/dists.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index ecf5386..55e77ba 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -21,9 +21,23 @@ class PolyaGammaRV(RandomVariable):
     @classmethod
     def rng_fn(cls, rng, h, z, size=None):
         bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng
-        return random_polyagamma(h, z, size=size, random_state=bg).astype(
-            aesara.config.floatX
+
+        # The methods used by `random_polyagamma` break down when `z` is large, but,
+        # for these values, the distribution is numerically equal to an inverse Gaussian
+        z = np.abs(z)
+        is_large = z > 25
+        res = random_polyagamma(
+            h, np.where(is_large, 0.0, z), size=size, random_state=bg
         )
+        if np.any(is_large):
+            mean = np.divide(h, 2 * np.where(is_large, z, 1.0))
+            res = np.where(
+                is_large,
+                rng.wald(mean, np.square(h) / 4, size=np.shape(res)),
+                res,
+            )
+
+        return np.asarray(res, dtype=aesara.config.floatX)
 
 
 polyagamma = PolyaGammaRV()
-- 
2.43.0

