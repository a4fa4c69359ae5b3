From e634d820f7d8e722d27087ba27b6aa2b09d61efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 01/94] fix: VartimeCovarianceMatrix.fix starts a new sequence
 (reset chunk and step counters)

---
 mdp/utils/covariance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index dbf9f5f..755158a 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -335,6 +335,9 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         self._avg = None
         # number of observation so far during the training phase
         self._tlen = 0.
+        # the next chunk starts a new sequence
+        self._steps = 0
+        self.tchunk = 0
 
         return cov_mtx, avg, tlen
 
-- 
2.43.0


From a710eca905bc7b2660c6faf996decc0c1ea8b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 02/94] fix: VartimeCovarianceMatrix does not count the gap
 twice for a chunk of one sample

---
 mdp/utils/covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 755158a..693362d 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -265,7 +265,7 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         if dt is None:
             _dt = 1.
         elif type(dt) == numx.ndarray:
-            _dt = dt[-x.shape[0]+1:, None]
+            _dt = dt[len(dt)-x.shape[0]+1:, None]
         else:
             _dt = dt
         sqdt = numx.sqrt(_dt)
-- 
2.43.0


From 57b23cd3966a1f4fefda3fd894791c19d5281328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 03/94] fix: VartimeCovarianceMatrix honours time_dep=False for
 increments of full length

---
 mdp/utils/covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index 693362d..641c0bb 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -242,7 +242,8 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
 
         # account for the gap between chunks
         if self.tchunk > 0:
-            if dt is not None and type(dt) == numx.ndarray and dt.shape[0] == x.shape[0]:
+            if (time_dep and dt is not None and type(dt) == numx.ndarray
+                    and dt.shape[0] == x.shape[0]):
                 self._avg += (self.xlast + x[0, :])*dt[0]/2.
                 self._cov_mtx += (numx.outer(self.xlast, self.xlast) +
                                   numx.outer(x[0, :], x[0, :]))*dt[0]/2.
-- 
2.43.0


From 3e05b51708eb85dd29fb1d0393b00c04d9d07f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 04/94] fix: ClassifierCumulator accepts a single label and
 lists of labels

---
 mdp/classifier_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/classifier_node.py b/mdp/classifier_node.py
index 41a3f1a..15c3981 100644
--- a/mdp/classifier_node.py
+++ b/mdp/classifier_node.py
@@ -123,7 +123,7 @@ class ClassifierCumulator(VariadicCumulator('data', 'labels'), ClassifierNode):
         else:
             labels = [labels] * x.shape[0]
 
-        self.labels.extend(labels.ravel().tolist())
+        self.labels.extend(numx.asarray(labels).ravel().tolist())
 
     def _stop_training(self, *args, **kwargs):
         """Transform the data and labels lists to array objects and reshape them."""
-- 
2.43.0


From 16c75457ed9714fc6eae31e2f11a64d56559912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 05/94] fix: NormalizingRecursiveExpansionNode does not
 overwrite the data it executes on

---
 mdp/nodes/recursive_expansion_nodes.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 1c2e382..0666053 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -690,7 +690,7 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             be along the first axis, variables along the second.
         :type x: numpy.ndarray
         """
-        self.domain_transformation(x)
+        x = self.domain_transformation(x)
         return super(NormalizingRecursiveExpansionNode, self)._execute(x)
 
     def _train(self, x):
@@ -746,7 +746,7 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             self.diff = self.diff.clip(min=0)
 
             def f(x):
-                x -= self.diff
+                x = x - self.diff
                 return x
 
         elif self.upper == float('Inf'):
@@ -754,7 +754,7 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             self.diff = self.diff.clip(max=0)
 
             def f(x):
-                x -= self.diff
+                x = x - self.diff
                 return x
         else:
             mean = self.lower+(self.upper-self.lower)/2.0
@@ -771,13 +771,12 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
                     return x
             elif datamaxdev < dev:
                 def f(x):
-                    x += (-datamean)+mean
+                    x = x + (-datamean)+mean
                     return x
             else:
                 def f(x):
-                    x += (-datamean)+mean*datamaxdev/dev
-                    x *= dev/datamaxdev
-                    return x
+                    x = x + (-datamean)+mean*datamaxdev/dev
+                    return x * (dev/datamaxdev)
         self.domain_transformation = f
 
     @staticmethod
-- 
2.43.0


From b9fccc8139e56208765e9547a951fd4a3817c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 06/94] fix: RecursiveExpansionNode of degree 1 uses the chosen
 function family

---
 mdp/nodes/recursive_expansion_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index 0666053..b79dcdb 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -587,8 +587,11 @@ class RecursiveExpansionNode(_ExpansionNode):
         # in case input is unreasonable
         elif deg == 1:
             result[:, 0] = 1
+            # the init function may fill in more than the first order
+            first = np.empty([num_samples, 3], dtype=self.dtype)
             for i in range(num_vars):
-                result[:, i+1] = x[:, i]
+                self.r_init(first, x, 1, i)
+                result[:, i+1] = first[:, 1]
         elif self.with0:
             return np.ones((num_samples, num_vars))
         else:
-- 
2.43.0


From a51a8e1294d430eba4919d9977bcbcda8dc52cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 07/94] fix: TimeDelayNode accepts data shorter than the delay

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..711dd26 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -434,7 +434,7 @@ class TimeDelayNode(TimeFramesNode):
         y = numx.zeros((rows, cols), dtype=self.dtype)
 
         for frame in range(self.time_frames):
-            y[gap*frame:, frame*n:(frame+1)*n] = x[:rows-gap*frame, :]
+            y[gap*frame:, frame*n:(frame+1)*n] = x[:max(rows-gap*frame, 0), :]
 
         return y
 
-- 
2.43.0


From 119072cfdb53ed3c72828904572a28835e098ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 08/94] fix: Flow += leaves the flow unchanged when the
 dimensions do not match

---
 mdp/linear_flows.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..10bb4fc 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -548,14 +548,16 @@ class Flow(object):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency before changing the flow
+        self._check_nodes_consistency(flow_copy)
+        self.flow = flow_copy
         return self
 
     # public container methods
-- 
2.43.0


From d416eeeebc02ba5d09a03efb5afe3adb4930ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 09/94] fix: Flow.train accepts None for a node that is already
 trained

---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 10bb4fc..d7b5087 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if node is not trainable or already trained
             return
 
         try:
-- 
2.43.0


From 148f043b4edc5e3c6eeb833d394f3affc226b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 10/94] fix: switchboard factory can create a
 DoubleRhomb2dSwitchboard

---
 mdp/hinet/switchboard_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard_factory.py b/mdp/hinet/switchboard_factory.py
index 6df50eb..784c99f 100644
--- a/mdp/hinet/switchboard_factory.py
+++ b/mdp/hinet/switchboard_factory.py
@@ -132,6 +132,6 @@ class FactoryDoubleRhomb2dSwitchboard(FactoryExtensionChannelSwitchboard,
     def _get_switchboard_kwargs(free_params, prev_switchboard,
                                 prev_output_dim):
         in_channel_dim = (prev_output_dim // prev_switchboard.output_channels)
-        return {"long_out_channels_xy": prev_switchboard.long_out_channels_xy,
+        return {"long_in_channels_xy": prev_switchboard.long_out_channels_xy,
                 "diag_field_channels": free_params["field_size"],
                 "in_channel_dim": in_channel_dim}
-- 
2.43.0


From 3907168d3ba9aee0367871c827660a9670489f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 11/94] fix: Switchboard refuses negative connection indices
 (their inverse was wrong)

---
 mdp/hinet/switchboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index c90f07e..81d8fa1 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -56,6 +56,10 @@ class Switchboard(mdp.Node):
             err = ("One or more switchboard connection "
                    "indices exceed the input dimension.")
             raise SwitchboardException(err)
+        if numx.nanmin(connections) < 0:
+            err = ("One or more switchboard connection "
+                   "indices are negative.")
+            raise SwitchboardException(err)
         # checks passed
         self.connections = numx.array(connections)
         output_dim = len(connections)
-- 
2.43.0


From b37c6fd02b757d1643fe38b605c601889be4b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 12/94] fix: executing an untrained CloneLayer of undefined
 output dimension trains the node on all its inputs

---
 mdp/hinet/layer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mdp/hinet/layer.py b/mdp/hinet/layer.py
index 1894d5d..37f68c4 100644
--- a/mdp/hinet/layer.py
+++ b/mdp/hinet/layer.py
@@ -268,6 +268,18 @@ class CloneLayer(Layer):
         if self.output_dim is None:
             self.output_dim = self._get_output_dim_from_nodes()
 
+    def _pre_execution_checks(self, x):
+        """Make sure that an untrained node is trained with all its inputs."""
+        if (self.get_current_train_phase() == 0 and
+            not self._train_phase_started):
+            while True:
+                self.train(x)
+                if self.get_remaining_train_phase() > 1:
+                    self.stop_training()
+                else:
+                    break
+        super(CloneLayer, self)._pre_execution_checks(x)
+
     def _execute(self, x, *args, **kwargs):
         n_samples = x.shape[0]
         x = x.reshape(n_samples * x.shape[1] // self.node.input_dim, self.node.input_dim)
-- 
2.43.0


From 128879d70145b516e4c4aeadc697912fbe8f0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 13/94] fix: Graph.remove_node works for nodes with a self-loop

---
 mdp/graph/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 7f66e5e..b62f0d1 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -153,7 +153,10 @@ class Graph(object):
             raise GraphException(errstr)
 
         # remove all edges containing this node
-        for edge in node.get_edges():
+        # (a self-loop is both an incoming and an outgoing edge)
+        for edge in node.get_edges_in():
+            self.remove_edge(edge)
+        for edge in node.get_edges_out():
             self.remove_edge(edge)
         # remove the node
         self.nodes.remove(node)
-- 
2.43.0


From bb9f71c728dad88c16a7a1500f0ac053ceac3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 14/94] fix: Graph.dfs visits the nodes in depth-first order

---
 mdp/graph/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index b62f0d1..58e3560 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -290,7 +290,7 @@ class Graph(object):
         # result list containing the nodes in Depth-First order
         dfs_list = []
         # keep track of all already visited nodes
-        visited_nodes = { root: None }
+        visited_nodes = {}
 
         # stack (lifo) list
         dfs_stack = []
@@ -299,6 +299,10 @@ class Graph(object):
         while len(dfs_stack):
             # consider the next node on the stack
             node = dfs_stack.pop()
+            # (a node can be on the stack more than once)
+            if node in visited_nodes:
+                continue
+            visited_nodes[node] = None
             dfs_list.append(node)
             # visit the node
             if visit_fct is not None:
@@ -306,7 +310,6 @@ class Graph(object):
             # add all sons to the stack (if not already visited)
             for son in neighbors_fct(node):
                 if son not in visited_nodes:
-                    visited_nodes[son] = None
                     dfs_stack.append(son)
 
         return dfs_list
-- 
2.43.0


From b0554f01bc180fa4dd1e19a6654612c83be0dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 15/94] fix: a failed extension activation leaves other active
 extensions intact

---
 mdp/extension.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..522d333 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -353,6 +353,11 @@ def deactivate_extension(extension_name, verbose=False):
         if node_cls == _SETUP_FUNC_ATTR or node_cls == _TEARDOWN_FUNC_ATTR:
             continue
         for attr_name in list(attributes.keys()):
+            ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
+            if node_cls.__dict__.get(ext_attr_name) != extension_name:
+                # the attribute was not injected because the activation
+                # failed (it can belong to another active extension)
+                continue
             original_name = ORIGINAL_ATTR_PREFIX + attr_name
             if verbose:
                 print ("extension %s: removing %s from %s" %
@@ -374,17 +379,9 @@ def deactivate_extension(extension_name, verbose=False):
                     setattr(node_cls, attr_name, original_attr)
                 delattr(node_cls, original_name)
             else:
-                try:
-                    # no original attribute to restore, so simply delete
-                    # might be missing if the activation failed
-                    delattr(node_cls, attr_name)
-                except AttributeError:
-                    pass
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-            except AttributeError:
-                pass
+                # no original attribute to restore, so simply delete
+                delattr(node_cls, attr_name)
+            delattr(node_cls, ext_attr_name)
     if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
         _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
     _active_extensions.remove(extension_name)
-- 
2.43.0


From 6ab2e34309d34f52e4dbd3420544d7952d6b65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 16/94] fix: deactivating an extension restores the original
 attributes exactly

---
 mdp/extension.py | 64 ++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 522d333..822defa 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -293,6 +293,23 @@ def get_active_extensions():
     # value is used in a for-loop (see deactivate_extensions function)
     return list(_active_extensions)
 
+def _get_original_attribute(node_cls, attr_name):
+    """Return the attribute of the class as it is without extensions.
+
+    The attribute is returned as it is stored in the class which defines it,
+    without invoking descriptors. A one element tuple is returned, or None if
+    there is no such attribute.
+    """
+    for cls in node_cls.__mro__:
+        if _EXTENSION_ATTR_PREFIX + attr_name in cls.__dict__:
+            # the attribute in this class belongs to an extension
+            original_name = ORIGINAL_ATTR_PREFIX + attr_name
+            if original_name in cls.__dict__:
+                return (cls.__dict__[original_name],)
+        elif attr_name in cls.__dict__:
+            return (cls.__dict__[attr_name],)
+    return None
+
 def activate_extension(extension_name, verbose=False):
     """Activate the extension by injecting the extension methods."""
     if extension_name not in list(_extensions.keys()):
@@ -315,24 +332,21 @@ def activate_extension(extension_name, verbose=False):
                            (extension_name, attr_name, node_cls.__name__))
                 ## store the original attribute / make it available
                 ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
-                if attr_name in dir(node_cls):
-                    if ext_attr_name in node_cls.__dict__:
-                        # two extensions override the same attribute
-                        err = ("Name collision for attribute '" +
-                               attr_name + "' between extension '" +
-                               getattr(node_cls, ext_attr_name)
-                               + "' and newly activated extension '" +
-                               extension_name + "'.")
-                        raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
-                        original_attr = getattr(node_cls, attr_name)
-                        if verbose:
-                            print ("extension %s: overwriting %s in %s" %
-                                (extension_name, attr_name, node_cls.__name__))
-                        setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
-                                original_attr)
+                if ext_attr_name in node_cls.__dict__:
+                    # two extensions override the same attribute
+                    err = ("Name collision for attribute '" +
+                           attr_name + "' between extension '" +
+                           getattr(node_cls, ext_attr_name)
+                           + "' and newly activated extension '" +
+                           extension_name + "'.")
+                    raise ExtensionException(err)
+                original_attr = _get_original_attribute(node_cls, attr_name)
+                if original_attr is not None:
+                    if verbose:
+                        print ("extension %s: overwriting %s in %s" %
+                            (extension_name, attr_name, node_cls.__name__))
+                    setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
+                            original_attr[0])
                 setattr(node_cls, attr_name, attr_value)
                 # store to which extension this attribute belongs, this is also
                 # used as a flag that this is an extension attribute
@@ -368,14 +382,12 @@ def deactivate_extension(extension_name, verbose=False):
                     print ("extension %s: restoring %s in %s" %
                            (extension_name, attr_name, node_cls.__name__))
                 delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
-                # Check if the attribute is defined by one of the super
-                # classes and test if the overwritten method is not that
-                # method, otherwise we would inject unwanted methods.
-                # Note: '==' tests identity for .__func__ and .__self__,
-                #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
+                original_attr = node_cls.__dict__[original_name]
+                # Check if the attribute is inherited from one of the super
+                # classes, otherwise we would inject unwanted methods.
+                if not any(x.__dict__.get(name) is original_attr
+                           for x in node_cls.__mro__[1:]
+                           for name in (attr_name, original_name)):
                     setattr(node_cls, attr_name, original_attr)
                 delattr(node_cls, original_name)
             else:
-- 
2.43.0


From a9263cc101cb9ab999c452a7329ef849651f8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 17/94] fix: OrderedResultContainer.get_results returns an
 empty list when there are no results

---
 mdp/parallel/scheduling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..2e34de4 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -72,6 +72,8 @@ class OrderedResultContainer(ListResultContainer):
         """Sort the results into the original order and return them in list."""
         results = self._results
         self._results = []
+        if not results:
+            return []
         results.sort(key=lambda x: x[1])
         return list(zip(*results))[0]
 
-- 
2.43.0


From fc4d97086962796a20e997c4dc313bcf59ec15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 18/94] fix: Scheduler.add_task releases the lock when the task
 is refused or fails

---
 mdp/parallel/scheduling.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 2e34de4..4f0aa26 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -250,6 +250,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
@@ -353,10 +354,16 @@ class Scheduler(object):
         task_callable must not be called. Only a forked version can be called.
         """
         # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
-        # release lock before store_result
-        self._lock.release()
+        try:
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except:
+            # the task is over, and the scheduler can still be used
+            self._n_open_tasks -= 1
+            raise
+        finally:
+            # release lock before store_result
+            self._lock.release()
         self._store_result(result, task_index)
 
     def _shutdown(self):
-- 
2.43.0


From 74159bb8f3df5ce6b1861246c4f02f5fbf6f4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 19/94] fix: Scheduler.set_task_callable accepts a plain
 function, like add_task

---
 mdp/parallel/scheduling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 4f0aa26..d2f97ff 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -277,6 +277,9 @@ class Scheduler(object):
         task_callable -- Callable that will be used unless a new task_callable
             is given.
         """
+        if not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
         self._lock.acquire()
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
-- 
2.43.0


From daf9b6c63d24f3af57394b89f858ea7d614d3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 20/94] fix: ThreadScheduler runs at most n_threads tasks at
 once

---
 mdp/parallel/thread_schedule.py | 60 ++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..cbf77e1 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -52,36 +52,40 @@ class ThreadScheduler(Scheduler):
         It blocks when the maximum number of threads is reached (given by
         n_threads) or when the system is not able to start a new thread.
         """
+        while self._n_active_threads >= self._n_threads:
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        self._n_active_threads += 1
+        self._lock.release()
+        task_callable = task_callable.fork()
+        if self.copy_callable:
+            # create a deep copy of the task_callable,
+            # since it might not be thread safe 
+            # (but the fork is still required)
+            as_str = pickle.dumps(task_callable, -1)
+            task_callable = pickle.loads(as_str)
         task_started = False
         while not task_started:
-            if self._n_active_threads >= self._n_threads:
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                self._lock.release()
-                task_callable = task_callable.fork()
-                if self.copy_callable:
-                    # create a deep copy of the task_callable,
-                    # since it might not be thread safe 
-                    # (but the fork is still required)
-                    as_str = pickle.dumps(task_callable, -1)
-                    task_callable = pickle.loads(as_str)
-                try:
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(data, task_callable,
-                                                    task_index))
-                    thread.start()
-                    task_started = True
-                except Exception:
-                    if self.verbose:
-                        print ("unable to create new thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(data, task_callable,
+                                                task_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
-        self._store_result(result, task_index)
-        self._n_active_threads -= 1
+        try:
+            result = task_callable(data)
+            self._store_result(result, task_index)
+        finally:
+            self._lock.acquire()
+            self._n_active_threads -= 1
+            self._lock.release()
-- 
2.43.0


From 372583ccaf7aa38d97424658c49af5b4dc751117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 21/94] fix: ProcessScheduler can always be shut down once the
 results are available

---
 mdp/parallel/process_schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..59ec7d3 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -187,9 +187,10 @@ class ProcessScheduler(Scheduler):
             traceback.print_exc()
             self._free_processes.append(process)
             sys.exit("failed to execute task %d in process:" % task_index)
-        # store the result and clean up
-        self._store_result(result, task_index)
+        # store the result and clean up, the process must be free again before
+        # the task counts as finished (otherwise shutdown could fail)
         self._free_processes.append(process)
+        self._store_result(result, task_index)
 
 
 def _process_run(cache_callable=True):
-- 
2.43.0


From a3f70d55c4e301477d6bfd8774e5a5de31ad95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 22/94] fix: ProcessScheduler does not mistake the callable
 cached in a process for a newer one

---
 mdp/parallel/process_schedule.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 59ec7d3..54f1a39 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -142,6 +142,9 @@ class ProcessScheduler(Scheduler):
         or when the processes are all in use.
         """
         task_started = False
+        # index of the callable of this task, the scheduler might already have
+        # a newer one when the task is pushed to the process
+        callable_index = self._last_callable_index
         while not task_started:
             if not len(self._free_processes):
                 # release lock for other threads and wait
@@ -154,7 +157,8 @@ class ProcessScheduler(Scheduler):
                     self._lock.release()
                     thread = threading.Thread(target=self._task_thread,
                                               args=(process, data,
-                                                    task_callable, task_index))
+                                                    task_callable, task_index,
+                                                    callable_index))
                     thread.start()
                     task_started = True
                 except thread.error:
@@ -163,7 +167,8 @@ class ProcessScheduler(Scheduler):
                                " waiting 2 seconds...")
                     time.sleep(2)
 
-    def _task_thread(self, process, data, task_callable, task_index):
+    def _task_thread(self, process, data, task_callable, task_index,
+                     callable_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
@@ -173,8 +178,8 @@ class ProcessScheduler(Scheduler):
         try:
             if self._cache_callable:
                 # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
+                if process._callable_index != callable_index:
+                    process._callable_index = callable_index
                 else:
                     task_callable = None
             # push the task to the process
-- 
2.43.0


From b6e7630d65711535a6f1223d3c60f5024c40db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 23/94] fix: ProcessScheduler forks the callable also when it
 is not cached

---
 mdp/parallel/process_schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 54f1a39..e5de0ce 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -239,6 +239,7 @@ def _process_run(cache_callable=True):
                     task_callable = task_callable.fork()
                 else:
                     task_callable.setup_environment()
+                    task_callable = task_callable.fork()
                 result = task_callable(data)
                 del task_callable  # free memory
                 pickle.dump(result, pickle_out, protocol=-1)
-- 
2.43.0


From efe33954f855f4ef0678cab1593ff1dfdd649262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 24/94] fix: ExecuteResultContainer forgets the joined flow
 node with its results

---
 mdp/parallel/parallelflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..fb42923 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -207,6 +207,8 @@ class ExecuteResultContainer(OrderedResultContainer):
         excecute_results = super(ExecuteResultContainer, self).get_results()
         flownode_results = ([self._flownode,]
                               + ([None] * (len(excecute_results)-1)))
+        # reset, so that the forks are not joined again with the next results
+        self._flownode = None
         return list(zip(excecute_results, flownode_results))
 
 ### ParallelFlow Class ###
-- 
2.43.0


From f87c65a6b610b5eb05004b6bf0fa3d32a2d7bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 25/94] fix: parallel execution honours nodenr

---
 mdp/parallel/parallelflows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index fb42923..0ec081e 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -624,6 +624,7 @@ class ParallelFlow(mdp.Flow):
         # forked in the scheduler.
         self._next_task = (task_data_chunk,
                            self._execute_callable_class(self._flownode,
+                                                        nodenr=nodenr,
                                                         purge_nodes=True))
 
     def _create_execute_task(self):
-- 
2.43.0


From 5917eb2e602d820b4bf71cf9fc5d6f7daf8dbc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 26/94] fix: save with protocol 0 opens the file in binary mode

---
 mdp/linear_flows.py     | 15 +++++----------
 mdp/nodes/misc_nodes.py |  4 +---
 mdp/signal_node.py      |  4 +---
 3 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index d7b5087..6a622ee 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -438,9 +438,7 @@ class Flow(object):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
     def __call__(self, iterable, nodenr=None):
@@ -668,19 +666,16 @@ class CheckpointSaveFunction(CheckpointFunction):
                            closing the training phase
                            if set to 1 the training phase is closed and then
                            the node is dumped
-        'binary'        -- sets binary mode for opening the file.
-                           When using a protocol higher than 0, make sure
-                           the file is opened in binary mode.
+        'binary'        -- has no effect, the file is always opened in
+                           binary mode.
         'protocol'      -- is the 'protocol' argument for the pickle dump
                            (see Pickle documentation for details)
         """
         self.filename = filename
         self.proto = protocol
         self.stop_training = stop_training
-        if binary or protocol > 0:
-            self.mode = 'wb'
-        else:
-            self.mode = 'w'
+        # pickle writes bytes, whatever the protocol
+        self.mode = 'wb'
 
     def __call__(self, node):
         with open(self.filename, self.mode) as fid:
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 711dd26..ccbe4fb 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -725,9 +725,7 @@ class NoiseNode(PreserveDimNode):
             # self.noise_func attribute.
             return real_pickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'w' if protocol == 0 else 'wb'
-            with open(filename, mode) as flh:
+            with open(filename, 'wb') as flh:
                 real_pickle.dump(self, flh, protocol)
 
 
diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..6c27ee0 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -721,9 +721,7 @@ class Node(with_metaclass(NodeMetaclass, object)):
         if filename is None:
             return _cPickle.dumps(self, protocol)
         else:
-            # if protocol != 0 open the file in binary mode
-            mode = 'wb' if protocol != 0 else 'w'
-            with open(filename, mode) as flh:
+            with open(filename, 'wb') as flh:
                 _cPickle.dump(self, flh, protocol)
 
 
-- 
2.43.0


From f3fa48ce7907d929f1746193de98b6dcb94c0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 27/94] fix: a trained NormalizingRecursiveExpansionNode can be
 saved

---
 mdp/nodes/recursive_expansion_nodes.py | 44 ++++++++++++++------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/mdp/nodes/recursive_expansion_nodes.py b/mdp/nodes/recursive_expansion_nodes.py
index b79dcdb..ab33504 100644
--- a/mdp/nodes/recursive_expansion_nodes.py
+++ b/mdp/nodes/recursive_expansion_nodes.py
@@ -735,30 +735,24 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             than the ones already supplied during training.
         """
 
-        # the following conditionals go through different domain types
+        # the following conditionals go through different domain types,
+        # the transformation is a method, so that the node can be pickled
         if self.lower is None or self.upper is None:
-            def f(x):
-                return x
+            f = self._keep
 
         elif self.lower == -float('Inf') and self.upper == float('Inf'):
-            def f(x):
-                return x
+            f = self._keep
 
         elif self.lower == -float('Inf'):
             self.diff = self.amaxcolumn-self.upper
             self.diff = self.diff.clip(min=0)
-
-            def f(x):
-                x = x - self.diff
-                return x
+            f = self._translate
 
         elif self.upper == float('Inf'):
             self.diff = self.amincolumn-self.lower
             self.diff = self.diff.clip(max=0)
+            f = self._translate
 
-            def f(x):
-                x = x - self.diff
-                return x
         else:
             mean = self.lower+(self.upper-self.lower)/2.0
             dev = (self.upper-self.lower)
@@ -770,18 +764,28 @@ class NormalizingRecursiveExpansionNode(RecursiveExpansionNode):
             datamean = (xmax+xmin)/2.
 
             if (xmax < self.upper) and (xmin > self.lower):
-                def f(x):
-                    return x
+                f = self._keep
             elif datamaxdev < dev:
-                def f(x):
-                    x = x + (-datamean)+mean
-                    return x
+                self._data_mean = datamean
+                self._target_mean = mean
+                self._scale = 1
+                f = self._move_and_scale
             else:
-                def f(x):
-                    x = x + (-datamean)+mean*datamaxdev/dev
-                    return x * (dev/datamaxdev)
+                self._data_mean = datamean
+                self._target_mean = mean*datamaxdev/dev
+                self._scale = dev/datamaxdev
+                f = self._move_and_scale
         self.domain_transformation = f
 
+    def _keep(self, x):
+        return x
+
+    def _translate(self, x):
+        return x - self.diff
+
+    def _move_and_scale(self, x):
+        return (x + (-self._data_mean) + self._target_mean) * self._scale
+
     @staticmethod
     def is_trainable():
         return True
-- 
2.43.0


From 32c3f524f5505d9184849af9979ddfc1ddddb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 28/94] fix: instances of Cumulator can be saved

---
 mdp/signal_node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 6c27ee0..ec7d937 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -783,7 +783,8 @@ def VariadicCumulator(*fields):
 
     return Cumulator
 
-Cumulator = VariadicCumulator('data')
-Cumulator.__doc__ = """A specialized version of `VariadicCumulator` which only
-                    fills the field ``self.data``.
-                    """
+
+class Cumulator(VariadicCumulator('data')):
+    """A specialized version of `VariadicCumulator` which only
+    fills the field ``self.data``.
+    """
-- 
2.43.0


From ccdac9e46059d9e1539c5e07ae42b8d900198b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 29/94] fix: a trained HitParadeNode can be saved

---
 mdp/nodes/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/__init__.py b/mdp/nodes/__init__.py
index b2ced40..18965cc 100644
--- a/mdp/nodes/__init__.py
+++ b/mdp/nodes/__init__.py
@@ -32,7 +32,8 @@ from .recursive_expansion_nodes import (RecursiveExpansionNode,
                                         NormalizingRecursiveExpansionNode)
 
 # import internals for use in test_suites
-from .misc_nodes import OneDimensionalHitParade as _OneDimensionalHitParade
+from .misc_nodes import OneDimensionalHitParade
+_OneDimensionalHitParade = OneDimensionalHitParade
 from .expansion_nodes import expanded_dim as _expanded_dim
 
 from .mca_nodes_online import MCANode
@@ -54,7 +55,7 @@ __all__ = ['PCANode', 'WhiteningNode', 'NIPALSNode', 'FastICANode',
            'EtaComputerNode', 'HitParadeNode', 'NoiseNode', 'NormalNoiseNode',
            'TimeFramesNode', 'TimeDelayNode', 'TimeDelaySlidingWindowNode',
            'CutoffNode', 'AdaptiveCutoffNode', 'HistogramNode',
-           'IdentityNode', '_OneDimensionalHitParade',
+           'IdentityNode', 'OneDimensionalHitParade', '_OneDimensionalHitParade',
            'OnlineCenteringNode', 'OnlineTimeDiffNode', 'CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode',
            'IncSFANode', 'RecursiveExpansionNode', 'NormalizingRecursiveExpansionNode', ]
 
-- 
2.43.0


From 291a3b4ef02d1a664c94f045537e3556f9f8d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 30/94] fix: BiCheckpointFlow accepts checkpoint functions that
 return None

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..f1508a8 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -607,7 +607,7 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                              msg_iterables[i_node], stop_messages[i_node])
             if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From 346d846833e006d08cce929678bbe8e8bae11760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 31/94] fix: BiFlow.execute accepts several chunks without
 output

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index f1508a8..e362642 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -348,7 +348,7 @@ class BiFlow(mdp.Flow):
             else:
                 if y_results is None:
                     y_results = False
-                else:
+                elif y_results is not False:
                     err = "Some but not all y return values were None."
                     raise BiFlowException(err)
         if empty_iterator:
-- 
2.43.0


From 928d60a885d3abe5ed2335fcc8dd7101caff2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 32/94] fix: BiFlow leaves the messages of the caller alone

The nodes remove their own keys ("id->key") from a message, so these keys were
missing in the second training phase, and the caller's dictionaries and lists
were modified.
---
 bimdp/biflow.py                  | 12 ++++++++++--
 bimdp/parallel/parallelbiflow.py | 17 +++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index e362642..5e67ef8 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -68,7 +68,9 @@ class MessageResultContainer(object):
                         self._msg_results[key] = msg[key]
                     else:
                         try:
-                            self._msg_results[key] += msg[key]
+                            # don't modify the value from the first message
+                            self._msg_results[key] = (self._msg_results[key] +
+                                                      msg[key])
                         except:
                             err = ("Could not combine final msg results "
                                    "in BiFlow.")
@@ -176,6 +178,9 @@ class BiFlow(mdp.Flow):
         empty_iterator = True
         for (x, msg) in zip(iterable, msg_iterable):
             empty_iterator = False
+            if msg:
+                # the nodes remove keys from the message, so use a copy
+                msg = msg.copy()
             ## execute the flow until the nodes return value is right
             i_node = 0
             while True:
@@ -252,7 +257,7 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
-            result = self.flow[nodenr].stop_training(stop_msg)
+            result = self.flow[nodenr].stop_training(stop_msg.copy())
         if result is None:
             # the training phase ends here without an execute phase
             return
@@ -311,6 +316,9 @@ class BiFlow(mdp.Flow):
         for (x, msg, target) in zip(iterable, msg_iterable,
                                                target_iterable):
             empty_iterator = False
+            if msg:
+                # the nodes remove keys from the message, so use a copy
+                msg = msg.copy()
             if not target:
                 i_node = 0
             else:
diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index fceac56..2feff44 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -35,6 +35,9 @@ class BiFlowTrainCallable(parallel.FlowTrainCallable):
         data -- tuple containing x and msg
         """
         x, msg = data
+        if msg:
+            # the nodes remove keys from the message, so use a copy
+            msg = msg.copy()
         while True:
             result = self._flownode.train(x, msg)
             if (result is None) or isinstance(result, dict):
@@ -375,8 +378,11 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 print ("    finished nonparallel task no. %d" % i_task)
         # perform stop_training with result check
         self._stop_training_hook()
-        result = self._flownode.stop_training(
-                                self._stop_messages[self._i_train_node])
+        stop_msg = self._stop_messages[self._i_train_node]
+        if stop_msg:
+            # the nodes remove keys from the message, so use a copy
+            stop_msg = stop_msg.copy()
+        result = self._flownode.stop_training(stop_msg)
         self._post_stop_training_hook()
         if (result is not None) and (not isinstance(result, dict)):
             if (isinstance(result, tuple) and
@@ -541,8 +547,11 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 self._flownode.join(result)
             # perform local stop_training with result check
             self._stop_training_hook()
-            result = self._flownode.stop_training(
-                                    self._stop_messages[self._i_train_node])
+            stop_msg = self._stop_messages[self._i_train_node]
+            if stop_msg:
+                # the nodes remove keys from the message, so use a copy
+                stop_msg = stop_msg.copy()
+            result = self._flownode.stop_training(stop_msg)
             self._post_stop_training_hook()
             if (result is not None):
                 target = result[2]
-- 
2.43.0


From 0f808c4d693a7c4038fda7b332ca0b526ef2b590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 33/94] fix: training a BiFlow with an unknown target raises
 BiFlowException

The target of the result of train or stop_training was used as an index if no
node with this id exists.
---
 bimdp/biflow.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 5e67ef8..6027f32 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -237,6 +237,10 @@ class BiFlow(mdp.Flow):
                            "during training: " + str(result))
                     raise BiFlowException(err)
                 i_node = self._target_to_index(target, nodenr)
+                if not isinstance(i_node, int):
+                    err = ("Target node not found in flow during " +
+                           "training, last target value: " + str(target))
+                    raise BiFlowException(err)
             self._bi_reset()
         if empty_iterator:
             if self.flow[nodenr].get_current_train_phase() == 1:
@@ -278,6 +282,11 @@ class BiFlow(mdp.Flow):
                    "for stop_training: " + str(result))
             raise BiFlowException(err)
         i_node = self._target_to_index(target, nodenr)
+        if not isinstance(i_node, int):
+            err = ("Target node not found in flow during " +
+                   "stop_training phase, last target value: " +
+                   str(target))
+            raise BiFlowException(err)
         result = self._execute_seq(x, msg, i_node=i_node)
         # check that we reached the end of flow or get EXIT_TARGET,
         # only complain if the target was not found
-- 
2.43.0


From 18c43b731ec892dc6b583eaf9368dec5c56a5b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 34/94] fix: the last node of a BiFlowNode may return a
 training result

Without a target the result goes to the next node, which can be outside of the
BiFlowNode.
---
 bimdp/hinet/biflownode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 78d2dd2..4fad499 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -156,6 +156,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                     # to the outer flow
                     return result
                 ## check if the target is in this flow, return otherwise
+                if target is None:
+                    target = 1
                 if isinstance(target, int):
                     i_node = i_node + target
                     # values of +1 and -1 beyond this flow are allowed
@@ -205,6 +207,8 @@ class BiFlowNode(BiNode, hinet.FlowNode):
                 err = ("Node produced invalid return value " +
                        "for stop_training: " + str(result))
                 raise BiFlowException(err)
+            if target is None:
+                target = 1
             if isinstance(target, int):
                 i_node = nodenr + target
                 # values of +1 and -1 beyond this flow are allowed
-- 
2.43.0


From 10d1f71b63b53128e28c40bb2affd46bc66baec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 35/94] fix: CloneBiLayer can be switched back to a single node

This raised AttributeError since BiNode.is_bi_training was removed.
---
 bimdp/hinet/bilayer.py            | 4 ----
 bimdp/parallel/parallelbihinet.py | 3 ---
 2 files changed, 7 deletions(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index c8d3e28..afe0484 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -80,10 +80,6 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                 err = ("Calling switch_to_instance during training will "
                        "probably result in lost training data.")
                 raise CloneBiLayerException(err)
-            elif self.is_bi_training():
-                err = ("Calling switch_to_instance during bi_learning will "
-                       "probably result in lost learning data.")
-                raise CloneBiLayerException(err)
             self.node = self.nodes[0]
             self.nodes = [self.node] * len(self.nodes)
 
diff --git a/bimdp/parallel/parallelbihinet.py b/bimdp/parallel/parallelbihinet.py
index c32ad76..0cc81d1 100644
--- a/bimdp/parallel/parallelbihinet.py
+++ b/bimdp/parallel/parallelbihinet.py
@@ -35,9 +35,6 @@ class ParallelCloneBiLayer(CloneBiLayer, mdp.parallel.ParallelExtensionNode):
             if self.is_training():
                 for forked_node in self.nodes[1:]:
                     self.nodes[0].join(forked_node)
-            elif self.is_bi_training():
-                for forked_node in self.nodes[1:]:
-                    self.nodes[0].bi_join(forked_node)
             self.node = self.nodes[0]
             self.nodes = (self.node,) * len(self.nodes)
 
-- 
2.43.0


From a55934427ac6e655bdbb9cd090132fb14dcb22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 36/94] fix: CloneBiLayer recognises the node specific
 use_copies key in a message

BiNode removed it from the message before it was looked for.
---
 bimdp/hinet/bilayer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index afe0484..468d2fb 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -284,6 +284,14 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
 
     ## Helper methods for message handling ##
 
+    def _extract_method_args(self, method, msg, msg_id_keys):
+        """Check for the copy flag before the node specific keys are removed."""
+        copy_flag = self._extract_message_key("use_copies", msg, msg_id_keys)
+        if copy_flag is not None:
+            self.use_copies = copy_flag
+        return super(CloneBiLayer, self)._extract_method_args(method, msg,
+                                                              msg_id_keys)
+
     def _extract_message_copy_flag(self, msg):
         """Look for the the possible copy flag and modify the msg if needed.
 
-- 
2.43.0


From 5047ad79a096b5ca7d7cd6e1b796db03f4461e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 37/94] fix: target ids reach the BiFlowNode in a CloneBiLayer
 for every part of the data

A single BiFlowNode instance used the requested id only for the first part.
---
 bimdp/hinet/bilayer.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/bimdp/hinet/bilayer.py b/bimdp/hinet/bilayer.py
index 468d2fb..67b5128 100644
--- a/bimdp/hinet/bilayer.py
+++ b/bimdp/hinet/bilayer.py
@@ -51,6 +51,8 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
                                            n_nodes=n_nodes, dtype=dtype)
         # (self.node is None) is used as flag for self.use_copies
         self.use_copies = use_copies
+        # last node_id requested from the single node instance
+        self._last_id_request = None
 
     use_copies = property(fget=lambda self: self._get_use_copies(),
                           fset=lambda self, flag: self._set_use_copies(flag))
@@ -113,7 +115,11 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
             node_dim = x.shape[1] // len(self.nodes)
         else:
             node_dim = None
+        id_request = self._get_id_request()
         for i_node, node in enumerate(self.nodes):
+            if id_request and i_node:
+                # the node instance only uses the request once
+                node._request_node_id(id_request)
             if node_dim:
                 node_x = x[:, node_dim*i_node : node_dim*(i_node+1)]
             else:
@@ -163,7 +169,11 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
             node_dim = x.shape[1] // len(self.nodes)
         else:
             node_dim = None
+        id_request = self._get_id_request()
         for i_node, node in enumerate(self.nodes):
+            if id_request and i_node:
+                # the node instance only uses the request once
+                node._request_node_id(id_request)
             if node_dim:
                 node_x = x[:, node_dim*i_node : node_dim*(i_node+1)]
             else:
@@ -256,6 +266,7 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
 
     def _bi_reset(self):
         """Call bi_reset on all the inner nodes."""
+        self._last_id_request = None
         if self.use_copies:
             for node in self.nodes:
                 node.bi_reset()
@@ -271,7 +282,10 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
         if self.node_id == node_id:
             return self
         if not self.use_copies:
-            return self.node._request_node_id(node_id)
+            found_node = self.node._request_node_id(node_id)
+            if found_node:
+                self._last_id_request = node_id
+            return found_node
         else:
             # return the first find, but call _request_node_id on all copies
             # otherwise BiFlowNode._last_id_request would get confused
@@ -284,6 +298,14 @@ class CloneBiLayer(BiNode, hinet.CloneLayer):
 
     ## Helper methods for message handling ##
 
+    def _get_id_request(self):
+        """Return the node_id requested from the single node and reset it."""
+        id_request = self._last_id_request
+        self._last_id_request = None
+        if self.use_copies:
+            return None
+        return id_request
+
     def _extract_method_args(self, method, msg, msg_id_keys):
         """Check for the copy flag before the node specific keys are removed."""
         copy_flag = self._extract_message_key("use_copies", msg, msg_id_keys)
-- 
2.43.0


From 5b90b3ff3ce2026b87cf59fd26da334a7eb97a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 38/94] fix: stop messages reach the last node of a BiFlowNode

---
 bimdp/hinet/biflownode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bimdp/hinet/biflownode.py b/bimdp/hinet/biflownode.py
index 4fad499..b060619 100644
--- a/bimdp/hinet/biflownode.py
+++ b/bimdp/hinet/biflownode.py
@@ -230,8 +230,9 @@ class BiFlowNode(BiNode, hinet.FlowNode):
         """Return wrapper for stop_training to set BiFlowNode outputdim."""
         # We have to overwrite the version from FlowNode to take care of the
         # optional return value.
-        def _stop_training_wrapper(*args, **kwargs):
-            result = func(*args, **kwargs)
+        # the msg argument must be visible for BiNode.stop_training
+        def _stop_training_wrapper(msg=None):
+            result = func(msg)
             self.output_dim = node.output_dim
             return result
         return _stop_training_wrapper
-- 
2.43.0


From 21b72dead74476ba65edef839e2b469b01111f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 39/94] fix: gradient of a SameInputLayer

It used the gradient of Layer, which splits the input.
---
 bimdp/nodes/gradient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index 47c1493..3c8add5 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -146,6 +146,10 @@ def _layer_grad(self, x):
                 node._get_grad(x[:, in_start:in_stop])
     return grad
 
+@mdp.extension_method("gradient", mdp.hinet.SameInputLayer, "_get_grad")
+def _same_input_layer_grad(self, x):
+    return np.concatenate([node._get_grad(x) for node in self.nodes], axis=1)
+
 # this is an optimized implementation, the original implementation is
 # used for reference in the unittest
 @mdp.extension_method("gradient", mdp.hinet.Switchboard, "_gradient")
-- 
2.43.0


From 2345ab440ab10f63c133df15eae06224ba91b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 40/94] fix: gradient of a CloneBiLayer that is the first node

The inner nodes started with an identity matrix for their part of the input, so
the result had the wrong shape.
---
 bimdp/nodes/gradient.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bimdp/nodes/gradient.py b/bimdp/nodes/gradient.py
index 3c8add5..3300b14 100644
--- a/bimdp/nodes/gradient.py
+++ b/bimdp/nodes/gradient.py
@@ -6,6 +6,7 @@ from builtins import range
 
 import mdp
 import bimdp
+from bimdp.hinet import CloneBiLayer
 np = mdp.numx
 
 class NotDifferentiableException(mdp.NodeException):
@@ -150,6 +151,17 @@ def _layer_grad(self, x):
 def _same_input_layer_grad(self, x):
     return np.concatenate([node._get_grad(x) for node in self.nodes], axis=1)
 
+@mdp.extension_method("gradient", CloneBiLayer, "_execute")
+def _clonebilayer_execute(self, x, msg=None):
+    # the inner nodes only get a part of the input, so they can't create the
+    # initial gradient
+    if msg and msg.get("method") == "gradient" and msg.get("grad") is None:
+        grad = np.zeros((len(x), self.input_dim, self.input_dim))
+        diag_indices = np.arange(self.input_dim)
+        grad[:,diag_indices,diag_indices] = 1.0
+        msg = dict(msg, grad=grad)
+    return self._non_extension__execute(x, msg)
+
 # this is an optimized implementation, the original implementation is
 # used for reference in the unittest
 @mdp.extension_method("gradient", mdp.hinet.Switchboard, "_gradient")
-- 
2.43.0


From c70b8d6483a38d48eeeaf4a5e7118e421e4b0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 41/94] fix: KMeansClassifier keeps the centroids if it stops
 after max_iter iterations

---
 mdp/nodes/classifier_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index 9b57ebd..c9be172 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -435,6 +435,8 @@ class KMeansClassifier(ClassifierNode):
                 self._centroids = centroids
                 return
             centroids = new_centroids
+        # stopped before the centroids converged
+        self._centroids = centroids
 
     def _nearest_centroid_idx(self, data, centroids):
         dists = numx.array([numx.linalg.norm(data - c) for c in centroids])
-- 
2.43.0


From 498f0b9409e2dd38f0de57936d43275fbc4340fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 42/94] fix: KNNClassifier does not keep a reference to the
 training data

---
 mdp/nodes/classifier_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/classifier_nodes.py b/mdp/nodes/classifier_nodes.py
index c9be172..ae795b6 100644
--- a/mdp/nodes/classifier_nodes.py
+++ b/mdp/nodes/classifier_nodes.py
@@ -769,7 +769,8 @@ class KNNClassifier(ClassifierNode):
                 x_label = numx.compress(labels==label, x, axis=0)
                 self._add_samples(x_label, label)
         else:
-            self._add_samples(x, labels)
+            # copy, the array belongs to the user
+            self._add_samples(x.copy(), labels)
     
     def _add_samples(self, x, label):
         """Store x set for later neirest-neighbour calculation."""
-- 
2.43.0


From 03ad2b2ce532e489013c55a0d4343eac63854deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 43/94] fix: HistogramNode does not keep a reference to the
 training data

---
 mdp/nodes/misc_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index ccbe4fb..17da3d2 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -898,7 +898,8 @@ class HistogramNode(PreserveDimNode):
         if self.data_hist is not None:
             self.data_hist = numx.concatenate([self.data_hist, x])
         else:
-            self.data_hist = x
+            # copy, the array belongs to the user
+            self.data_hist = x.copy()
 
     def _stop_training(self):
         """Pickle the histogram data to file and clear it if required."""
-- 
2.43.0


From ddcbd92ef64b418b16d974203103002eafdc369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 44/94] fix: Cumulator does not keep references to the training
 data

---
 mdp/signal_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index ec7d937..c047c9d 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -773,7 +773,8 @@ def VariadicCumulator(*fields):
             """Collect all input data in a list."""
             self.tlen += args[0].shape[0]
             for field, data in zip(self._cumulator_fields, args):
-                getattr(self, field).append(data)
+                # copy, the array belongs to the user
+                getattr(self, field).append(numx.array(data))
 
         def _stop_training(self, *args, **kwargs):
             """Concatenate the collected data in a single array."""
-- 
2.43.0


From 5a43a7c0f93efcd3d7cb9aa5a0dca24f28ddb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 45/94] fix: the terminal node of an OnlineFlow is trained with
 all the data

---
 mdp/linear_flows_online.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..fdd4b41 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -138,7 +138,12 @@ class OnlineFlow(mdp.Flow):
                             node.train(x)
 
                     # input for the next node
-                    x = node.execute(x)
+                    # (executing a terminal offline node would close its
+                    # training phase)
+                    if (nodenr < len(self.flow) - 1 or
+                        not node.is_training() or
+                        isinstance(node, mdp.OnlineNode)):
+                        x = node.execute(x)
                 except FlowExceptionCR as e:
                     # this exception was already propagated,
                     # probably during the execution  of a node upstream in the flow
-- 
2.43.0


From 5986fd414cef467ee259983b43f7afb514d099f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 46/94] fix: inverse of a CircularOnlineFlow

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index fdd4b41..5e9c31f 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -542,7 +542,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
+        flow = list(self.flow)[:self.output_node_idx + 1]
         for i in range(len(flow) - 1, -1, -1):
             try:
                 x = flow[i].inverse(x)
-- 
2.43.0


From d8f35bdf0feabe52323fbdfa5db6a16b84633ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 47/94] fix: CircularOnlineFlow.set_stored_input before the
 input dimension is known

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 5e9c31f..2dcaab1 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -427,7 +427,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
-- 
2.43.0


From 27658fb662d59710d5e7d0b1ee04924430e32c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 48/94] fix: CircularOnlineFlow refuses node indices outside of
 the flow

---
 mdp/linear_flows_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 2dcaab1..c659594 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -552,7 +552,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -560,7 +560,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From 5b068840127d0784944278cefe2d7ecd9ad7ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 49/94] fix: adding online flows and circular online flows

---
 mdp/linear_flows_online.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index c659594..79d0770 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -286,7 +286,7 @@ class OnlineFlow(mdp.Flow):
     def __add__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            flow_copy = list(self.flow).__add__(other.flow)
+            flow_copy = list(self.flow) + list(other.flow)
             # check OnlineFlow compatibility
             self._check_compatibility(flow_copy)
             # check dimension consistency
@@ -602,8 +602,7 @@ class CircularOnlineFlow(OnlineFlow):
     def __add__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            flow_copy = list(self.flow)
-            flow_copy.append(other)
+            flow_copy = list(self.flow) + list(other.flow)
             self._check_compatibility(flow_copy)
             self._check_nodes_consistency(flow_copy)
             # if no exception was raised, accept the new sequence
-- 
2.43.0


From d977fd735dda405f8a5cc3dc13ed3274d594d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 50/94] fix: a refused += leaves an online flow unchanged

---
 mdp/linear_flows_online.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 79d0770..4580fa1 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -310,15 +310,17 @@ class OnlineFlow(mdp.Flow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        # check everything before changing the flow
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        self.flow = flow_copy
         self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
         return self
 
@@ -624,15 +626,17 @@ class CircularOnlineFlow(OnlineFlow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, OnlineFlow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.OnlineNode):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate OnlineFlow or OnlineNode'
                        ' (not \'%s\') to CircularOnlineFlow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        # check everything before changing the flow
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        self.flow = _deque(flow_copy)
         return self
 
     # public container methods
-- 
2.43.0


From 24e7060bbc043ba5a9d07441974bbd8ee2988812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 51/94] fix: item assignment, deletion, insert and pop of a
 CircularOnlineFlow

---
 mdp/linear_flows_online.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 4580fa1..c9c6b61 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -577,10 +577,26 @@ class CircularOnlineFlow(OnlineFlow):
     # private container methods
 
     def __setitem__(self, key, value):
+        idx = list(range(len(self.flow)))
+        if isinstance(key, slice):
+            value = list(value)
+            idx[key] = [None] * len(value)
+        else:
+            idx[key] = None
         super(CircularOnlineFlow, self).__setitem__(key, value)
+        self._update_after_edit(idx)
+
+    def _update_after_edit(self, idx):
+        """Restore the circular queue and find the output node after an edit.
+
+        idx -- the former index of each node in the sequence, None for a new
+            node.
+        """
         self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node is replaced! Resetting the output node.')
+        if self.output_node_idx in idx:
+            self.output_node_idx = idx.index(self.output_node_idx)
+        else:
+            print('Output node is replaced or deleted! Resetting the output node to the default last node.')
             self.reset_output_node()
 
     def __getitem__(self, key):
@@ -593,13 +609,10 @@ class CircularOnlineFlow(OnlineFlow):
             return self.flow[key]
 
     def __delitem__(self, key):
+        idx = list(range(len(self.flow)))
+        del idx[key]
         super(CircularOnlineFlow, self).__delitem__(key)
-        self.flow = _deque(self.flow)
-        if (key.start < self.output_node_idx) and (self.output_node_idx < key.stop()):
-            print('Output node deleted! Resetting the output node to the default last node.')
-            self.reset_output_node()
-        elif self.output_node_idx > key.stop():
-            self.set_output_node(self.output_node_idx - key.stop + key.start)
+        self._update_after_edit(idx)
 
     def __add__(self, other):
         # append other to self
@@ -663,6 +676,3 @@ class CircularOnlineFlow(OnlineFlow):
         self[i:i] = [x]
         self._check_nodes_consistency(self.flow)
         self._check_compatibility(self.flow)
-
-        if self.output_node_idx >= i:
-            self.set_output_node(self.output_node_idx + 1)
-- 
2.43.0


From 17b234cf395c8908577a3f014454700faf97b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 52/94] fix: stop_training of online flow nodes with a
 non-trainable first node or several iterations

---
 mdp/hinet/flownode_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 1eb5067..8bf3705 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -107,7 +107,7 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
@@ -251,7 +251,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
-- 
2.43.0


From fda8e951124890e32f90df474291bbdf10f3d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 53/94] fix: trained nodes in online flow nodes

---
 mdp/hinet/flownode_online.py | 46 +++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 8bf3705..f5456df 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -106,6 +106,21 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
 
             return _execute
 
+        def get_train_function(node):
+            # a node that is trained already is only executed
+            def _train(*args, **kwargs):
+                if node.is_training():
+                    node.train(*args, **kwargs)
+
+            return _train
+
+        def get_stop_training_function(node):
+            def _stop_training(*args, **kwargs):
+                if node.is_training():
+                    node.stop_training(*args, **kwargs)
+
+            return _stop_training
+
         def get_empty_function():
             def _empty(*args, **kwargs):
                 pass
@@ -130,11 +145,13 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # skip the execution for the last trainable node.
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                get_empty_function())]
 
         # try fix the dimension of the internal nodes and the FlowNode
@@ -250,6 +267,21 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
 
             return _execute
 
+        def get_train_function(node):
+            # a node that is trained already is only executed
+            def _train(*args, **kwargs):
+                if node.is_training():
+                    node.train(*args, **kwargs)
+
+            return _train
+
+        def get_stop_training_function(node):
+            def _stop_training(*args, **kwargs):
+                if node.is_training():
+                    node.stop_training(*args, **kwargs)
+
+            return _stop_training
+
         def get_empty_function():
             def _empty(*args, **kwargs):
                 pass
@@ -298,12 +330,12 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, get_empty_function(),
+                train_seq += [(get_train_function(trainable_nodes[i]), get_empty_function(),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # the execute function channels the data through the remaining nodes
                 # to generate input for the next iteration
-                train_seq += [(trainable_nodes[i].train, get_empty_function(),
+                train_seq += [(get_train_function(trainable_nodes[i]), get_empty_function(),
                                get_execute_function(trainable_nodes_nrs[i], len(self._flow)))]
 
         # repeat for (self._flow_iterations-1) iterations
@@ -318,12 +350,14 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             if i < (len(trainable_nodes_nrs) - 1):
                 # the execute function channels the data from the current node to the
                 # next trainable node
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                get_execute_function(trainable_nodes_nrs[i], trainable_nodes_nrs[i + 1]))]
             else:
                 # the execute function channels the data through the remaining nodes
                 # to save the output for the next train call.
-                train_seq += [(trainable_nodes[i].train, trainable_nodes[i].stop_training,
+                train_seq += [(get_train_function(trainable_nodes[i]),
+                               get_stop_training_function(trainable_nodes[i]),
                                _get_save_output_wrapper(get_execute_function(trainable_nodes_nrs[i],
                                                                              len(self._flow))))]
 
-- 
2.43.0


From 9584e594f9a57f9496c8061e92e6c596c72cd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 54/94] fix: FlowNode of a single expansion node

---
 mdp/hinet/flownode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..a1adf36 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -82,7 +82,8 @@ class FlowNode(mdp.Node):
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
         if len(self._flow) == 1:
-            self._flow[-1].output_dim = n
+            if last_node.output_dim != n:
+                last_node.output_dim = n
         elif last_node.output_dim is None:
             self._fix_nodes_dimensions()
             # check if it worked
-- 
2.43.0


From 61df7209e000e756c227d656e7ceb6920f977938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 55/94] fix: FlowNode.copy keeps the sequence type of the flow

---
 mdp/hinet/flownode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a1adf36..c0011b5 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -197,12 +197,13 @@ class FlowNode(mdp.Node):
         #    result of _get_train_seq).
         #
         # copy the nodes by delegation
-        old_nodes = self._flow[:]
+        old_nodes = self._flow.flow
         new_nodes = [node.copy() for node in old_nodes]
         # now copy the rest of this flownode via deepcopy
         self._flow.flow = None
         new_flownode = _copy.deepcopy(self)
-        new_flownode._flow.flow = new_nodes
+        # keep the type of the container, it is not always a list
+        new_flownode._flow.flow = type(old_nodes)(new_nodes)
         self._flow.flow = old_nodes
         return new_flownode
 
-- 
2.43.0


From fe7812a5579d3c202d3879adc20194eec85fe209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 56/94] fix: training phases of online flow nodes without
 trainable nodes

---
 mdp/hinet/flownode_online.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index f5456df..a12bffd 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -137,7 +137,7 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
         train_seq = []
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
-        if trainable_nodes_nrs[0] > 0:
+        if trainable_nodes_nrs and trainable_nodes_nrs[0] > 0:
             train_seq += [(get_empty_function(), get_empty_function(),
                            get_execute_function(0, trainable_nodes_nrs[0]))]
 
@@ -322,7 +322,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
         train_seq = []
         # if the first node is not trainable, channel the input data through
         # the nodes until the first trainable-node.
-        if trainable_nodes_nrs[0] > 0:
+        if trainable_nodes_nrs and trainable_nodes_nrs[0] > 0:
             train_seq += [(get_empty_function(), get_empty_function(),
                            get_execute_function(0, trainable_nodes_nrs[0]))]
 
@@ -342,7 +342,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
         train_seq *= (self._flow_iterations - 1)
 
         # for the last iteration add stop_training calls and save output.
-        if trainable_nodes_nrs[0] > 0:
+        if trainable_nodes_nrs and trainable_nodes_nrs[0] > 0:
             train_seq += [(get_empty_function(), get_empty_function(),
                            get_execute_function(0, trainable_nodes_nrs[0]))]
 
@@ -361,7 +361,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
                                _get_save_output_wrapper(get_execute_function(trainable_nodes_nrs[i],
                                                                              len(self._flow))))]
 
-        if self._ignore_input:
+        if self._ignore_input and train_seq:
             # finally, if ignore input is set, then add the ignore input wraaper to the first train_seq.
             train_seq[0] = (_get_ignore_input_train_wrapper(train_seq[0][0]), train_seq[0][1],
                             _get_ignore_input_execute_wrapper(train_seq[0][2]))
-- 
2.43.0


From aaa08dbca01e4e8693460a1bb68785fca26c81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 57/94] fix: online layers count their training iterations

---
 mdp/hinet/layer_online.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index 9911284..6f25d6a 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -94,6 +94,11 @@ class OnlineLayer(Layer, mdp.OnlineNode):
         """
         return mdp.OnlineNode._get_train_seq(self)
 
+    def train(self, x, *args, **kwargs):
+        """Update the nodes according to the input data `x`."""
+        # the train method of Layer is that of Node, not of OnlineNode
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
+
 
 class CloneOnlineLayer(CloneLayer, OnlineLayer):
     """OnlineLayer with a single node instance that is used multiple times.
@@ -147,3 +152,8 @@ class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
         self.numx_rng = numx_rng
         # set training type
         self._set_training_type_from_nodes(nodes)
+
+    def train(self, x, *args, **kwargs):
+        """Update the nodes according to the input data `x`."""
+        # the train method of SameInputLayer is that of Node
+        mdp.OnlineNode.train(self, x, *args, **kwargs)
-- 
2.43.0


From 3e22a99cc1802ca76ae2ff470ed592fcf9264bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 58/94] fix: OnlineTimeDiffNode trained in batches

---
 mdp/nodes/stats_nodes_online.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/stats_nodes_online.py b/mdp/nodes/stats_nodes_online.py
index 0b99c92..aaf5967 100644
--- a/mdp/nodes/stats_nodes_online.py
+++ b/mdp/nodes/stats_nodes_online.py
@@ -169,13 +169,14 @@ class OnlineTimeDiffNode(mdp.PreserveDimOnlineNode):
 
     def _check_params(self, x):
         if self.x_prev is None:
-            self.x_prev = mdp.numx.zeros(x.shape, dtype=self.dtype)
-            self.x_cur = mdp.numx.zeros(x.shape, dtype=self.dtype)
+            self.x_prev = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
+            self.x_cur = mdp.numx.zeros((1, x.shape[1]), dtype=self.dtype)
 
     def _train(self, x):
         """Update the buffer."""
-        self.x_prev = self.x_cur
-        self.x_cur = x[-1:]
+        # copies, the array belongs to the user
+        self.x_prev = x[-2:-1].copy() if x.shape[0] > 1 else self.x_cur
+        self.x_cur = x[-1:].copy()
 
     @staticmethod
     def is_invertible():
-- 
2.43.0


From bc28b9b01e01511e2662a8cf3779b65614a3aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 59/94] fix: initial eigenvectors given to the constructor of
 CCIPCANode and MCANode

---
 mdp/nodes/mca_nodes_online.py | 3 +++
 mdp/nodes/pca_nodes_online.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mdp/nodes/mca_nodes_online.py b/mdp/nodes/mca_nodes_online.py
index 653a234..c946054 100755
--- a/mdp/nodes/mca_nodes_online.py
+++ b/mdp/nodes/mca_nodes_online.py
@@ -111,6 +111,9 @@ class MCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # the initial vectors were given to the constructor
+            self.init_eigen_vectors = self._init_v
 
     def _train(self, x):
         """Update the minor components."""
diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index a5b482a..60ce046 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -121,6 +121,9 @@ class CCIPCANode(mdp.OnlineNode):
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.output_dim).astype(self.dtype)
             else:
                 self.init_eigen_vectors = 0.1 * self.numx_rng.randn(self.input_dim, self.input_dim).astype(self.dtype)
+        elif self.v is None:
+            # the initial vectors were given to the constructor
+            self.init_eigen_vectors = self._init_v
 
     def _amnesic(self, n):
         """Return amnesic weights.
-- 
2.43.0


From 9e619f9013f85fcfe5c04308197b6121d4f2f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 60/94] fix: CCIPCANode only supports incremental training

---
 mdp/nodes/pca_nodes_online.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdp/nodes/pca_nodes_online.py b/mdp/nodes/pca_nodes_online.py
index 60ce046..3fb8411 100755
--- a/mdp/nodes/pca_nodes_online.py
+++ b/mdp/nodes/pca_nodes_online.py
@@ -125,6 +125,14 @@ class CCIPCANode(mdp.OnlineNode):
             # the initial vectors were given to the constructor
             self.init_eigen_vectors = self._init_v
 
+    def _get_supported_training_types(self):
+        """Return the list of training types supported by this node.
+
+        :return: Supported training types.
+        :rtype: list
+        """
+        return ['incremental']
+
     def _amnesic(self, n):
         """Return amnesic weights.
         
-- 
2.43.0


From 4162e92bef3041a6705a6b8b5ff24c014a37f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 61/94] fix: IncSFANode with remove_mean=False

---
 mdp/nodes/sfa_nodes_online.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index 61adb08..f9e7f05 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -146,7 +146,7 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-            x = self.avgnode.execute(x)
+                x = self.avgnode.execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
             x = self.whiteningnode.execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
@@ -235,7 +235,10 @@ class IncSFANode(mdp.OnlineNode):
 
         :return: The inverse of the slow feature response.
         """
-        return mult(y, pinv(self.sf)) + self.avgnode.avg
+        x = mult(y, pinv(self.sf))
+        if self.remove_mean:
+            x = self.avgnode._inverse(x)
+        return x
 
     def __repr__(self):
         """Print all args.
-- 
2.43.0


From 879f20b8a1fac8c5a34d60a48bbb2867ca9e9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 62/94] fix: IncSFANode does not train its nodes twice with the
 first data

---
 mdp/nodes/sfa_nodes_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index f9e7f05..d643614 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -146,9 +146,9 @@ class IncSFANode(mdp.OnlineNode):
         if self._init_sf is None:
             if self.remove_mean:
                 self._pseudo_check_fn(self.avgnode, x)
-                x = self.avgnode.execute(x)
+                x = self.avgnode._execute(x)
             self._pseudo_check_fn(self.whiteningnode, x)
-            x = self.whiteningnode.execute(x)
+            x = self.whiteningnode._execute(x)
             self._pseudo_check_fn(self.tdiffnode, x)
             self._pseudo_check_fn(self.mcanode, x)
             self._init_sf = mult(self.whiteningnode.init_eigen_vectors, self.mcanode.init_eigen_vectors)
-- 
2.43.0


From 4f661b5faf4efee1d3d70463111e6f050c25c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 63/94] fix: IncSFANode learns from all samples of the first
 training call

---
 mdp/nodes/sfa_nodes_online.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdp/nodes/sfa_nodes_online.py b/mdp/nodes/sfa_nodes_online.py
index d643614..8757949 100644
--- a/mdp/nodes/sfa_nodes_online.py
+++ b/mdp/nodes/sfa_nodes_online.py
@@ -158,8 +158,6 @@ class IncSFANode(mdp.OnlineNode):
 
         if self._new_episode is None:  # Set new_episode to True for the very first sample
             self._new_episode = True
-        elif self._new_episode:  # Set new_episode to False for the subsequent samples
-            self._new_episode = False
 
     @staticmethod
     def _pseudo_check_fn(node, x):
@@ -217,6 +215,7 @@ class IncSFANode(mdp.OnlineNode):
             if new_episode is not None:
                 self._new_episode = new_episode
             sf_change = self._step_train(x)
+            self._new_episode = False  # for the subsequent samples
 
         self.wv = self.whiteningnode.v
         self.sf_change = sf_change
-- 
2.43.0


From f6f9856f3429d6a61ea193718b73d8976d9eb82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 64/94] fix: only variables without any covariance are left out
 by the rank deficit solvers

---
 mdp/utils/symeig_semidefinite.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 5f3e138..82b90f1 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -148,8 +148,7 @@ def _find_blank_data_idx(B, rank_threshold):
     if len(zero_idx) > 0:
         # If near-zero entries are in first line we check the whole columns:
         #nonzerolines = (abs(numx.sum(B, 0)) > rank_threshold).nonzero()[0]
-        zero_idx = (numx.mean(abs(B[zero_idx]), 0) < \
-                rank_threshold).nonzero()[0]
+        zero_idx = zero_idx[numx.mean(abs(B[zero_idx]), 1) < rank_threshold]
         if len(zero_idx) > 0:
             nonzero_idx = numx.arange(len(B))
             nonzero_idx[zero_idx] = -1
-- 
2.43.0


From 04cd60cad339d1995f9b7b43246a357d29f0ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 65/94] fix: symeig_semidefinite_reg reports the rank deficit
 in every case

---
 mdp/utils/symeig_semidefinite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/utils/symeig_semidefinite.py b/mdp/utils/symeig_semidefinite.py
index 82b90f1..4205613 100644
--- a/mdp/utils/symeig_semidefinite.py
+++ b/mdp/utils/symeig_semidefinite.py
@@ -122,6 +122,8 @@ def symeig_semidefinite_reg(
         # Sometimes (unlikely though) the values in m are not sorted
         # In this case we search all indices:
         m_idx = (m < 0.5).nonzero()[0]
+        if not dfc_out is None:
+            dfc_out.rank_deficit = len(m)-len(m_idx)
         eg = eg[m_idx]
         ev = ev[:, m_idx]
     if range is None:
-- 
2.43.0


From 10567fd0761d2c0c8441a894e9afc64b8fabc7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 66/94] fix: output_dim of SFANode and SFA2Node is the number
 of components with rank deficits

---
 mdp/nodes/sfa_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/sfa_nodes.py b/mdp/nodes/sfa_nodes.py
index d610139..8b13173 100644
--- a/mdp/nodes/sfa_nodes.py
+++ b/mdp/nodes/sfa_nodes.py
@@ -314,6 +314,10 @@ class SFANode(Node):
             del self.cov_mtx
             del self.dcov_mtx
 
+        if self.output_dim is not None and self.sf.shape[1] < self.output_dim:
+            # there are less components because of the rank deficit
+            self._output_dim = self.sf.shape[1]
+
         # store bias
         self._bias = mult(self.avg, self.sf)
 
@@ -693,7 +697,7 @@ class SFA2Node(SFANode):
 
         # set the output dimension if necessary
         if self.output_dim is None:
-            self.output_dim = self._expnode.output_dim
+            self.output_dim = self.sf.shape[1]
 
     def _execute(self, x, n=None):
         """Compute the output of the slowest functions.
-- 
2.43.0


From 2f2943e64af34d53a6c3038e3cc720af25d893e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 67/94] fix: ParallelFlow.train with a list of schedulers if
 the last nodes are trained locally

---
 mdp/parallel/parallelflows.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 0ec081e..39b5415 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -326,19 +326,19 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -360,6 +360,14 @@ class ParallelFlow(mdp.Flow):
                         raise Exception(err)
                     else:
                         self.use_results(results)
+                    if schedulers is not None and self._i_train_node is None:
+                        # dispose schedulers for the remaining nodes,
+                        # the last scheduler will be shutdown in finally
+                        for _ in range(len(self.flow) - 1 -
+                                       last_trained_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers, None)
                     # check if we have to switch to next scheduler
                     if ((schedulers is not None) and
                         (self._i_train_node is not None) and
-- 
2.43.0


From 0cd4b5bc005c85cb3afc8e69b007bc5af914d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:16 +0000
Subject: [PATCH 68/94] fix: ParallelLayer forks and joins nodes that use
 execute forks

---
 mdp/parallel/parallelhinet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index ac95fde..579272e 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -51,7 +51,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
         """Fork or copy all the nodes in the layer to fork the layer."""
         forked_nodes = []
         for node in self.nodes:
-            if node.is_training():
+            if node.is_training() or node.use_execute_fork():
                 forked_nodes.append(node.fork())
             else:
                 forked_nodes.append(node)
@@ -60,7 +60,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
     def _join(self, forked_node):
         """Join the trained nodes from the forked layer."""
         for i_node, layer_node in enumerate(self.nodes):
-            if layer_node.is_training():
+            if layer_node.is_training() or layer_node.use_execute_fork():
                 layer_node.join(forked_node.nodes[i_node])
     
     def use_execute_fork(self):
-- 
2.43.0


From b3d3d2883ad215d91044f50de5d317a991aa9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:47 +0000
Subject: [PATCH 69/94] fix: cov2 normalises the product of the means like the
 second moment

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index d00237b..237c5a1 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -218,7 +218,7 @@ def cov2(x, y):
     mnx = x.mean(axis=0)
     mny = y.mean(axis=0)
     tlen = x.shape[0]
-    return old_div(mdp.utils.mult(x.T, y),(tlen-1)) - numx.outer(mnx, mny)
+    return old_div(mdp.utils.mult(x.T, y) - tlen*numx.outer(mnx, mny), tlen-1)
 
 
 def cov_maxima(cov):
-- 
2.43.0


From e3f5767f0664e6f4122c32b90884739cda1b3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 70/94] fix: the default centre of gabor is the centre of the
 array also if it is not square

---
 mdp/utils/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/utils/routines.py b/mdp/utils/routines.py
index 237c5a1..1ef1397 100644
--- a/mdp/utils/routines.py
+++ b/mdp/utils/routines.py
@@ -491,7 +491,7 @@ def gabor(size, alpha, phi, freq, sgm, x0=None, res=1, ampl=1.):
 
     # init
     w, h = size
-    if x0 is None: x0 = (w//2, h//2)
+    if x0 is None: x0 = (h//2, w//2)
     y0, x0 = x0
 
     # some useful quantities
-- 
2.43.0


From 31f5caa99473084db057a7e7c2b69b816e7318f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 71/94] fix: the eigenvectors of a QuadraticForm with repeated
 eigenvalues are orthogonal

---
 mdp/utils/quad_forms.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index d1ee0bf..84bce04 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -50,12 +50,8 @@ class QuadraticForm(object):
                mdp.utils.mult(x, self.f) + self.c)
 
     def _eig_sort(self, x):
-        E, W = numx_linalg.eig(x)
-        E, W = E.real, W.real
-        idx = E.argsort()
-        E = E.take(idx)
-        W = W.take(idx, axis=1)
-        return E, W
+        # x is symmetric, eigenvalues are returned in ascending order
+        return numx_linalg.eigh(x)
 
     def get_extrema(self, norm, tol = 1.E-4):
         """
-- 
2.43.0


From 0a4188fe207034a6551d197bc62f97d085223451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 72/94] fix: extrema of a QuadraticForm with a singular matrix
 and a linear term

---
 mdp/utils/quad_forms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index 84bce04..65759d0 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -68,14 +68,16 @@ class QuadraticForm(object):
         else:
             H_definite_positive, H_definite_negative = False, False
             E, W = self._eig_sort(H)
-            if E[0] >= 0:
+            if E[0] > 0:
                 # H is positive definite
                 H_definite_positive = True
-            elif E[-1] <= 0:
+            elif E[-1] < 0:
                 # H is negative definite
                 H_definite_negative = True
 
-            x0 = mdp.numx_linalg.solve(-H, f)
+            if H_definite_positive or H_definite_negative:
+                # solution of H*x0 = -f
+                x0 = -mdp.utils.mult(W, mdp.utils.mult(W.T, f)/E)
             if H_definite_positive and mdp.utils.norm2(x0) <= norm:
                 xmin = x0
                 # x0 is a minimum
-- 
2.43.0


From 70b29c834f05e37477109b634972a48db6508e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 73/94] fix: extrema of a QuadraticForm whose linear term is
 orthogonal to the first eigenvector

---
 mdp/utils/quad_forms.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index 65759d0..ce898e7 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -103,6 +103,8 @@ class QuadraticForm(object):
             # c = 0.5*x0'*H*x0 + f'*x0 + c -> do we need it?
         mu, V = self._eig_sort(H)
         alpha = mdp.utils.mult(V.T, f).reshape((H.shape[0],))
+        # direction of the largest eigenvalue
+        v_max = V[:, -1]
         # v_i = alpha_i * v_i (alpha is a raw_vector)
         V = V*alpha
         # left bound for lambda
@@ -112,7 +114,8 @@ class QuadraticForm(object):
         # search by bisection until norm(x)**2 = norm**2
         norm_2 = norm**2
         norm_x_2 = 0
-        while abs(norm_x_2-norm_2) > tol and old_div((lr-ll),lr) > epsilon:
+        min_size = epsilon*max(abs(ll), lr-ll)
+        while abs(norm_x_2-norm_2) > tol and lr-ll > min_size:
             # bisection of the lambda-interval
             lambd = 0.5*(lr-ll)+ll
             # eigenvalues of (lambda*Id - H)^-1
@@ -125,6 +128,12 @@ class QuadraticForm(object):
             else:
                 lr = lambd
         x = (V*beta).sum(axis=1)
+        if norm_2 - norm_x_2 > tol:
+            # f has no component along v_max, so that the norm cannot be
+            # reached for any lambda: all x + s*v_max are solutions
+            b = (x*v_max).sum()
+            s = numx.sqrt(b*b + norm_2 - norm_x_2)
+            x = x + ((s if b >= 0 else -s) - b)*v_max
         if x0:
             x = x + x0
         return x
-- 
2.43.0


From 98760d2e7b245208369b9ee8f6b74b0a6dba73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:45 +0000
Subject: [PATCH 74/94] fix: extrema of a QuadraticForm if the norm or the
 linear term is small

---
 mdp/utils/quad_forms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdp/utils/quad_forms.py b/mdp/utils/quad_forms.py
index ce898e7..246bf13 100644
--- a/mdp/utils/quad_forms.py
+++ b/mdp/utils/quad_forms.py
@@ -113,9 +113,8 @@ class QuadraticForm(object):
         lr = old_div(mdp.utils.norm2(f),norm) + ll
         # search by bisection until norm(x)**2 = norm**2
         norm_2 = norm**2
-        norm_x_2 = 0
         min_size = epsilon*max(abs(ll), lr-ll)
-        while abs(norm_x_2-norm_2) > tol and lr-ll > min_size:
+        while True:
             # bisection of the lambda-interval
             lambd = 0.5*(lr-ll)+ll
             # eigenvalues of (lambda*Id - H)^-1
@@ -127,6 +126,8 @@ class QuadraticForm(object):
                 ll = lambd
             else:
                 lr = lambd
+            if abs(norm_x_2-norm_2) <= tol or lr-ll <= min_size:
+                break
         x = (V*beta).sum(axis=1)
         if norm_2 - norm_x_2 > tol:
             # f has no component along v_max, so that the norm cannot be
-- 
2.43.0


From 5c00da591a0b107d6906bc38104cea5ffff50eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:06 +0000
Subject: [PATCH 75/94] fix: invalid results of a BiNode are reported by a
 BiFlowException

---
 bimdp/biflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 6027f32..07ffe16 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -347,7 +347,7 @@ class BiFlow(mdp.Flow):
                 raise BiFlowException(err)
             else:
                 err = ("BiNode execution returned invalid result type: " +
-                       result)
+                       str(result))
                 raise BiFlowException(err)
             self._bi_reset()
             if msg:
@@ -557,7 +557,7 @@ class BiFlow(mdp.Flow):
                     x, msg, target = result
                 else:
                     err = ("BiNode execution returned invalid result type: " +
-                           result)
+                           str(result))
                     raise BiFlowException(err)
             else:
                 # just a normal MDP node
-- 
2.43.0


From f67da3797be376b2eaf4b35fb6f16022e466f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:06 +0000
Subject: [PATCH 76/94] fix: BiFlow.execute refuses an unknown target with a
 BiFlowException

---
 bimdp/biflow.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 07ffe16..dba633b 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -332,6 +332,10 @@ class BiFlow(mdp.Flow):
                 i_node = 0
             else:
                 i_node = self._target_to_index(target)
+                if not isinstance(i_node, int):
+                    err = ("Target node not found in flow, target value: " +
+                           str(target))
+                    raise BiFlowException(err)
             result = self._execute_seq(x=x, msg=msg, i_node=i_node)
             if not isinstance(result, tuple):
                 y = result
-- 
2.43.0


From 500b0d8805ba8b6b0ca602d9c5347596fde03ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:02 +0000
Subject: [PATCH 77/94] fix: PCANode does not count more components than there
 are

---
 mdp/nodes/pca_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index d9ea36d..afb4280 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -256,6 +256,8 @@ class PCANode(mdp.Node):
             # select only the relevant eigenvalues
             # number of relevant eigenvalues
             neigval = int(varcum.searchsorted(self.desired_variance) + 1.)
+            # rounding errors can leave the sum below the desired variance
+            neigval = min(neigval, d.shape[0])
             #self.explained_variance = varcum[neigval-1]
             # cut
             d = d[0:neigval]
-- 
2.43.0


From 835048dc85861f9d49864be4040ed1f52a070fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 78/94] fix: OnlineFlow does not stop the training of a
 terminal OnlineNode with several phases

---
 mdp/linear_flows_online.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index c9c6b61..07a2ca5 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -170,7 +170,8 @@ class OnlineFlow(mdp.Flow):
                            "is empty.")
                 raise FlowException(err_str)
         self._stop_training_hook()
-        if self.flow[-1].get_remaining_train_phase() > 1:
+        if (self.flow[-1].get_remaining_train_phase() > 1 and
+            not isinstance(self.flow[-1], mdp.OnlineNode)):
             # close the previous training phase
             self.flow[-1].stop_training()
 
-- 
2.43.0


From ed59110dc789637b752f8f000d34491cc9d954d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:26 +0000
Subject: [PATCH 79/94] fix: OnlineFlow trains all the phases of a terminal
 offline node

---
 mdp/linear_flows_online.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 07a2ca5..dede041 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -229,7 +229,13 @@ class OnlineFlow(mdp.Flow):
         if self.verbose:
             strn = [str(self.flow[i]) for i in range(len(self.flow))]
             print("Training nodes %s simultaneously" % strn)
-        self._train_nodes(data_iterables)
+        # the data are presented once for each training phase of a terminal
+        # offline node
+        while True:
+            remaining = self.flow[-1].get_remaining_train_phase()
+            self._train_nodes(data_iterables)
+            if remaining <= 1 or isinstance(self.flow[-1], mdp.OnlineNode):
+                break
 
         # close training the terminal node only if it is a trainable Node
         if not isinstance(self.flow[-1], mdp.OnlineNode):
-- 
2.43.0


From 938257580f33d238102efa2941085228919e2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:54 +0000
Subject: [PATCH 80/94] fix: the derivative matrix of a GSFA graph given as an
 array of edge weights

---
 mdp/nodes/gsfa_nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index f4f76a5..8a15600 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -719,10 +719,11 @@ class CovDCovMatrix(object):
         # Update DCov Matrix
         if isinstance(edge_weights, numx.ndarray):
             weighted_num_diffs = edge_weights.sum()  # normalization constant R
-            prod1 = weighted_sum_prod_x  # TODO: eventually check these
-            # equations, they might only work if Q==R
+            # sum of the weights of the edges from and to each sample
+            degrees = edge_weights.sum(axis=0) + edge_weights.sum(axis=1)
+            prod1 = mdp.utils.mult(x.T, x * degrees.reshape((num_samples, 1)))
             prod2 = mdp.utils.mult(mdp.utils.mult(x.T, edge_weights), x)
-            weighted_sum_prod_diffs = 2 * prod1 - 2 * prod2
+            weighted_sum_prod_diffs = prod1 - prod2 - prod2.T
             self.add_diffs(weighted_sum_prod_diffs, weighted_num_diffs,
                            weight=weight)
         else:
-- 
2.43.0


From 880ce11bebcacaa14199987b2ca2d2e8ae295399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:55 +0000
Subject: [PATCH 81/94] fix: the total node weight of the sliding windows of
 GSFA

---
 mdp/nodes/gsfa_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 8a15600..975b9e6 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -938,7 +938,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x,
-                         num_samples - (0.5 * window_halfwidth - 0.5), weight)
+                         num_samples - (0.5 * window_halfwidth + 0.5), weight)
 
         # Update DCov Matrix. First we compute the borders
         # Left border
@@ -1004,7 +1004,7 @@ class CovDCovMatrix(object):
         sum_x = x_sel.sum(axis=0)
         sum_prod_x = mdp.utils.mult(x_sel.T, x)
         self.add_samples(sum_prod_x, sum_x, num_samples -
-                         (0.5 * window_halfwidth - 0.5), weight)
+                         (0.5 * window_halfwidth + 0.5), weight)
 
         # This can be made faster (twice) due to symmetry
         for offset in range(-width, width + 1):
-- 
2.43.0


From 47380723f5b271752ed0cc25cf1849a7972c890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:55 +0000
Subject: [PATCH 82/94] fix: verbose GSFA training

---
 mdp/nodes/gsfa_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 975b9e6..30650bf 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -473,7 +473,7 @@ class GSFANode(mdp.Node):
             print("Finishing GSFA training: ", self._covdcovmtx.num_samples)
             print(" num_samples, and ", self._covdcovmtx.num_diffs,
                   " num_diffs")
-            print("DCov[0:3,0:3] is", self.dcov_mtx[0:3, 0:3])
+            print("DCov[0:3,0:3] is", dcov_mtx[0:3, 0:3])
 
         rng = self._set_range()
         # Solve the generalized eigenvalue problem
-- 
2.43.0


From 8a4d17eca139f8d448c3910a1228f989c2600628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:55 +0000
Subject: [PATCH 83/94] fix: a GSFA serial regression graph leaves the block
 size of the other graphs alone

---
 mdp/nodes/gsfa_nodes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index 30650bf..f0b3f96 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -138,14 +138,15 @@ class GSFANode(mdp.Node):
                                                       block_sizes=block_sizes,
                                                       weight=weight)
                 elif method.startswith("serial_regression"):
-                    block_size = int(method[len("serial_regression"):])
+                    regression_block_size = \
+                        int(method[len("serial_regression"):])
                     if verbose:
                         print("update serial_regression, block_size=",
-                              block_size)
+                              regression_block_size)
                     ordering = numx.argsort(labels)
                     x2 = x[ordering, :]
-                    self._covdcovmtx.update_serial(x2, block_size=block_size,
-                                                   weight=weight)
+                    self._covdcovmtx.update_serial(
+                        x2, block_size=regression_block_size, weight=weight)
                 else:
                     er = "method unknown: %s" % (str(method))
                     raise ValueError(er)
-- 
2.43.0


From 9fc2cf02017883ead7fc5b9c8fd53cfed4ab8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:55 +0000
Subject: [PATCH 84/94] fix: the fast sliding window of GSFA with few samples

---
 mdp/nodes/gsfa_nodes.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mdp/nodes/gsfa_nodes.py b/mdp/nodes/gsfa_nodes.py
index f0b3f96..004407c 100644
--- a/mdp/nodes/gsfa_nodes.py
+++ b/mdp/nodes/gsfa_nodes.py
@@ -963,18 +963,12 @@ class CovDCovMatrix(object):
         x_full = x[width:num_samples - width, :]
         sum_prod_x_full = mdp.utils.mult(x_full.T, x_full)
 
-        Aacc123 = numx.zeros((dim, dim))
-        for i in range(0, 2 * width):  # [0, 2*width-1]
-            Aacc123 += (i + 1) * mdp.utils.mult(x[i:i + 1, :].T, x[i:i + 1, :])
-
-        for i in range(num_samples - 2 * width, num_samples):
-            Aacc123 += (num_samples - i) * mdp.utils.mult(x[i:i + 1, :].T,
-                                                          x[i:i + 1, :])
-
-        # intermediate values of x, which are connected 2*width+1 times
-        x_middle = x[2 * width:num_samples - 2 * width, :]
-
-        Aacc123 += (2 * width + 1) * mdp.utils.mult(x_middle.T, x_middle)
+        # number of windows of the center part to which each sample belongs
+        counts = numx.minimum(numx.arange(1, num_samples + 1),
+                              numx.arange(num_samples, 0, -1))
+        counts = numx.minimum(counts, min(2 * width + 1,
+                                          num_samples - 2 * width))
+        Aacc123 = mdp.utils.mult(x.T, x * counts.reshape((num_samples, 1)))
 
         b = numx.zeros((num_samples + 1, dim))
         b[1:] = x.cumsum(axis=0)
-- 
2.43.0


From b784607084595baccb70b576267887fc0f56f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:04 +0000
Subject: [PATCH 85/94] fix: ParallelBiFlow.train with a list of schedulers

---
 bimdp/parallel/parallelbiflow.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 2feff44..b5fa608 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -188,19 +188,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
-                        # dispose schedulers for pretrained nodes
-                        for _ in range(self._i_train_node):
-                            if scheduler is not None:
-                                scheduler.shutdown()
-                            scheduler = next(schedulers)
-                    elif self._i_train_node is None:
+                    if self._i_train_node is None:
                         # all nodes are already trained, dispose schedulers
                         for _ in range(len(self.flow) - 1):
                             if scheduler is not None:
                                 scheduler.shutdown()
                             # the last scheduler will be shutdown in finally
                             scheduler = next(schedulers)
+                    elif self._i_train_node > 0:
+                        # dispose schedulers for pretrained nodes
+                        for _ in range(self._i_train_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers)
                     last_trained_node = self._i_train_node
                 else:
                     schedulers = None
@@ -222,8 +222,17 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                         raise Exception(err)
                     else:
                         self.use_results(results)
+                    if schedulers is not None and self._i_train_node is None:
+                        # dispose schedulers for the remaining nodes,
+                        # the last scheduler will be shutdown in finally
+                        for _ in range(len(self.flow) - 1 -
+                                       last_trained_node):
+                            if scheduler is not None:
+                                scheduler.shutdown()
+                            scheduler = next(schedulers, None)
                     # check if we have to switch to next scheduler
                     if ((schedulers is not None) and
+                        (self._i_train_node is not None) and
                         (self._i_train_node > last_trained_node)):
                         # dispose unused schedulers
                         for _ in range(self._i_train_node - last_trained_node):
-- 
2.43.0


From 4daf9cc6f8004ce9fbfb690e67cb65e1ec7a0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:04 +0000
Subject: [PATCH 86/94] fix: ParallelBiFlow accepts results of stop_training
 without a target

---
 bimdp/parallel/parallelbiflow.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index b5fa608..c93839c 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -393,16 +393,21 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             stop_msg = stop_msg.copy()
         result = self._flownode.stop_training(stop_msg)
         self._post_stop_training_hook()
-        if (result is not None) and (not isinstance(result, dict)):
-            if (isinstance(result, tuple) and
-                (result[2] in [1, -1, EXIT_TARGET])):
-                pass
-            else:
+        self._check_stop_result(result)
+        self._bi_reset()
+
+    @staticmethod
+    def _check_stop_result(result):
+        """Check that the result of stop_training has left the flow.
+
+        As in the serial flow every result without a target is fine.
+        """
+        if isinstance(result, tuple) and len(result) == 3:
+            if result[2] not in [1, -1, EXIT_TARGET]:
                 err = ("Target node not found in flow during " +
                        "stop_training phase, last result: " +
                        str(result))
                 raise BiFlowException(err)
-        self._bi_reset()
 
     def _create_train_task(self):
         """Create and return a single training task without callable.
@@ -562,14 +567,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 stop_msg = stop_msg.copy()
             result = self._flownode.stop_training(stop_msg)
             self._post_stop_training_hook()
-            if (result is not None):
-                target = result[2]
-                # values of +1, -1 and EXIT_TARGET are tolerated
-                if target not in [1, -1, EXIT_TARGET]:
-                    err = ("Target node not found in flow during " +
-                           "stop_training phase, last result: " +
-                           str(result))
-                    raise BiFlowException(err)
+            self._check_stop_result(result)
             self._flownode.bi_reset()
             if self.verbose:
                 print ("finished parallel training phase of node no. " +
-- 
2.43.0


From 0dd07f4c2065e480271d8f6c6ee99199d2bc0a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 87/94] fix: the parallel training of a BiFlow reports results
 without a target by a BiFlowException

---
 bimdp/parallel/parallelbiflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index c93839c..a92ee5f 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -42,7 +42,7 @@ class BiFlowTrainCallable(parallel.FlowTrainCallable):
             result = self._flownode.train(x, msg)
             if (result is None) or isinstance(result, dict):
                 break
-            elif (isinstance(result, tuple) and
+            elif (isinstance(result, tuple) and len(result) == 3 and
                 (result[2] in [1, -1, EXIT_TARGET])):
                 break
             else:
-- 
2.43.0


From 3b1adc5ca353ba379288c8dbc6fd841eba8cfa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 88/94] fix: parallel execution of a BiFlow without output

---
 bimdp/parallel/parallelbiflow.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index a92ee5f..16f970d 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -579,7 +579,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             self._exec_data_iterator = None
             self._exec_msg_iterator = None
             self._exec_target_iterator = None
-            y_results = []
+            y_results = None
             msg_results = MessageResultContainer()
             # use internal flownode to join all biflownodes
             self._flownode = BiFlowNode(BiFlow(self.flow))
@@ -591,19 +591,26 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                     msg_results.add_message(msg)
                 else:
                     y = result
-                if y is not None:
-                    try:
-                        y_results.append(y)
-                    except:
+                # a flow that is executed without output returns False
+                if y is not None and y is not False:
+                    if y_results is None:
+                        y_results = [y]
+                    elif y_results is False:
                         err = "Some but not all y return values were None."
                         raise BiFlowException(err)
+                    else:
+                        y_results.append(y)
                 else:
-                    y_results = None
+                    if y_results is None:
+                        y_results = False
+                    elif y_results is not False:
+                        err = "Some but not all y return values were None."
+                        raise BiFlowException(err)
                 # join biflownode
                 if forked_biflownode is not None:
                     self._flownode.join(forked_biflownode)
             # return results
-            if y_results is not None:
+            if y_results:
                 y_results = n.concatenate(y_results)
             return (y_results, msg_results.get_message())
         else:
-- 
2.43.0


From 38763c93742a2c47d23224af3f45fba3c0a6b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 89/94] fix: ParallelCheckpointBiFlow uses the stop messages
 and can be trained without a scheduler

---
 bimdp/parallel/parallelbiflow.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 16f970d..7369142 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -167,8 +167,9 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
                 err = ("A train_callable_class was specified but no scheduler "
                        "was given, so the train_callable_class has no effect.")
                 raise ParallelBiFlowException(err)
-            super(ParallelBiFlow, self).train(data_iterables, msg_iterables,
-                                              stop_messages,
+            super(ParallelBiFlow, self).train(data_iterables,
+                                              msg_iterables=msg_iterables,
+                                              stop_messages=stop_messages,
                                               **kwargs)
         else:
             if train_callable_class is None:
@@ -646,6 +647,7 @@ class ParallelCheckpointBiFlow(mdp.parallel.ParallelCheckpointFlow,
                         train_callable_class=train_callable_class,
                         overwrite_result_container=overwrite_result_container,
                         msg_iterables=msg_iterables,
+                        stop_messages=stop_messages,
                         **kwargs)
 
     def setup_parallel_training(self, data_iterables, checkpoints,
-- 
2.43.0


From 46fe9cc7e2566208c2bdeed040005e021cff0886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 90/94] fix: ParallelBiFlow refuses empty training data for
 nodes that are trained locally

---
 bimdp/parallel/parallelbiflow.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bimdp/parallel/parallelbiflow.py b/bimdp/parallel/parallelbiflow.py
index 7369142..9a3e1cd 100644
--- a/bimdp/parallel/parallelbiflow.py
+++ b/bimdp/parallel/parallelbiflow.py
@@ -378,6 +378,7 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
         """
         task_callable = self._train_callable_class(self._flownode,
                                                    purge_nodes=False)
+        current_node = self.flow[self._i_train_node]
         i_task = 0
         for (x, msg) in zip(iterable, msg_iterable):
             i_task += 1
@@ -386,6 +387,19 @@ class ParallelBiFlow(BiFlow, parallel.ParallelFlow):
             task_callable((x, msg))
             if self.verbose:
                 print ("    finished nonparallel task no. %d" % i_task)
+        # make sure that the iterator was not empty
+        if i_task == 0:
+            if current_node.get_current_train_phase() == 1:
+                err_str = ("The training data iteration for node "
+                           "no. %d could not be repeated for the "
+                           "second training phase, you probably "
+                           "provided an iterator instead of an "
+                           "iterable." % (self._i_train_node+1))
+                raise mdp.FlowException(err_str)
+            else:
+                err_str = ("The training data iterator for node "
+                           "no. %d is empty." % (self._i_train_node+1))
+                raise mdp.FlowException(err_str)
         # perform stop_training with result check
         self._stop_training_hook()
         stop_msg = self._stop_messages[self._i_train_node]
-- 
2.43.0


From d794efdc87922c64b9c0c0eab9c5062dcd1566e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 91/94] fix: neural gas nodes do not move the start positions
 of the user

---
 mdp/nodes/neural_gas_nodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index d0ec7b9..e51c037 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -136,8 +136,9 @@ class GrowingNeuralGasNode(Node):
         if start_poss is not None:
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
-            node1 = self._add_node(self._refcast(start_poss[0]))
-            node2 = self._add_node(self._refcast(start_poss[1]))
+            # copy the positions, nodes are moved in place
+            node1 = self._add_node(self._refcast(start_poss[0]).copy())
+            node2 = self._add_node(self._refcast(start_poss[1]).copy())
             self._add_edge(node1, node2)
 
     def _set_input_dim(self, n):
@@ -447,7 +448,8 @@ class NeuralGasNode(GrowingNeuralGasNode):
             if self.dtype is None:
                 self.dtype = start_poss[0].dtype
             for node_ind in range(self.num_nodes):
-                self._add_node(self._refcast(start_poss[node_ind]))
+                # copy the position, nodes are moved in place
+                self._add_node(self._refcast(start_poss[node_ind]).copy())
         self.epoch = 0
 
 
-- 
2.43.0


From a52b3fe9f384862ed904bcf3d51f98eb287a75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 92/94] fix: NeuralGasNode removes all old edges

---
 mdp/nodes/neural_gas_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index e51c037..7c46423 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -553,6 +553,6 @@ class NeuralGasNode(GrowingNeuralGasNode):
         :type edges: 
         """
         g = self.graph
-        for edge in self.graph.edges:
+        for edge in list(g.edges):
             if edge.data.age > max_age:
                 g.remove_edge(edge)
-- 
2.43.0


From 772fca14680997efb26f361c2a8b169f2b7e4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:11 +0000
Subject: [PATCH 93/94] fix: an instance that was added to the cache twice can
 be removed from it

---
 mdp/caching/caching_extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index fcb24b8..46acd3a 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -99,7 +99,8 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         # add to global dictionary
         global _cached_instances
         if active:
-            _cached_instances.append(self)
+            if self not in _cached_instances:
+                _cached_instances.append(self)
         else:
             if self in _cached_instances:
                 _cached_instances.remove(self)
-- 
2.43.0


From 9627566d369c5e02476c5bc20a14b8f80a91881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:10 +0000
Subject: [PATCH 94/94] fix: ICA nodes in telescope mode can be trained with
 few data

---
 mdp/nodes/ica_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 2526bdc..e406829 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -167,6 +167,9 @@ class ICANode(mdp.Cumulator, mdp.Node, ProjectMatrixMixin):
         if self.telescope:
             minpow = math.frexp(self.input_dim*10)[1]
             maxpow = int(old_div(numx.log(data.shape[0]),numx.log(2)))
+            if maxpow < minpow:
+                # less data than in the first chunk
+                convergence = core(data)
             for tel in range(minpow, maxpow+1):
                 index = 2**tel
                 if verbose:
-- 
2.43.0

